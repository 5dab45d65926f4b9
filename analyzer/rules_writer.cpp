// C01: in-place index mutations are covered by the lock-free writer window.
// C02: ... and by the crash journal; the recovery agrees with every journaled site.
#include "rules_lib.h"
using namespace llvm;
using std::map;
using std::set;
using std::string;
using std::vector;
namespace sa {
namespace {
    const char* START = "mabain::LockFree::WriterLockFreeStart";
    const char* STOP = "mabain::LockFree::WriterLockFreeStop";
    const set<string> SINK = { "mabain::RollableFile::RandomWrite", "mabain::RollableFile::MemWrite" };
    const set<string> FRESH_OUT = { "mabain::FreeList::GetBufferByIndex", "mabain::RollableFile::Malloc" }; // out-param: last pointer-to-size_t argument
    const string ST = "IndexHeader.excep_updating_status", LF = "IndexHeader.excep_lf_offset", EX = "IndexHeader.excep_offset", BUF = "IndexHeader.excep_buff";
    string fld(const string& f) { return startsWith(f, "mabain::") ? f.substr(8) : (startsWith(f, "_") ? f.substr(1) : f); }
    enum { WIN,
        STAT,
        FILL };

    struct Site {
        string func, loc, rel, src; // src: journal | empty | built
        int64_t status, off, len;
        bool recovery;
        const Instruction* I;
    };

    struct WriterClient : Client {
        Report& R;
        bool c1, c2; // which property's findings are emitted
        bool recovery = false;
        string root;
        const set<const Function*>* boundary = nullptr;
        Function* rootF = nullptr;
        std::map<string, Site> sites; // key -> site
        long nsinks = 0, fresh = 0;
        WriterClient(Report& r, bool a, bool b)
            : R(r)
            , c1(a)
            , c2(b)
        {
        }
        std::unordered_map<const Function*, bool> rel;
        bool relevant(const Function* F) override
        {
            auto it = rel.find(F);
            if (it != rel.end())
                return it->second;
            bool r = SINK.count(P.q(F)) == 0 && hasCallTo(F, { START, STOP, "mabain::RollableFile::RandomWrite", "mabain::RollableFile::MemWrite", "mabain::FreeList::GetBufferByIndex", "mabain::FreeList::RemoveBufferByIndex", "mabain::RollableFile::Malloc" });
            if (cls(P.q(F)) == "mabain::RollableFile" || cls(P.q(F)) == "mabain::FreeList")
                r = false;
            if (!r)
                for (auto& I : instructions(*F)) {
                    if (auto* S = dyn_cast<StoreInst>(&I)) {
                        string f = fld(P.ptrField(S->getPointerOperand()));
                        if (f == ST || f == LF || f == EX)
                            r = true;
                    } else if (auto* M = dyn_cast<MemIntrinsic>(&I)) {
                        if (fld(P.ptrField(M->getDest())) == BUF)
                            r = true;
                    }
                }
            return rel[F] = r;
        }
        string resolve(string k, State& s)
        {
            for (auto& pr : { std::make_pair(LF, string("lf")), std::make_pair(EX, string("ex")) }) {
                size_t p;
                int guard = 0;
                while ((p = k.find(pr.first + ")")) != string::npos && guard++ < 4) {
                    // find the matching "*(" opening before p
                    int depth = 0;
                    size_t b = p + pr.first.size();
                    size_t i = b;
                    while (true) {
                        if (k[i] == ')')
                            depth++;
                        else if (k[i] == '(') {
                            depth--;
                            if (depth == 0)
                                break;
                        }
                        if (i == 0)
                            break;
                        i--;
                    }
                    if (i == 0 || k[i - 1] != '*')
                        break;
                    string v = s.get(pr.second);
                    k = k.substr(0, i - 1) + (v.empty() ? "<" + pr.second + ">" : v) + k.substr(b + 1);
                }
            }
            return k;
        }
        static bool splitAdd(const string& k, string& base, int64_t& off)
        {
            // "(X add #7)" or "(#7 add X)"
            base = k;
            off = 0;
            if (k.size() < 5 || k[0] != '(' || k.back() != ')')
                return false;
            int d = 0;
            for (size_t i = 1; i + 5 < k.size(); i++) {
                if (k[i] == '(')
                    d++;
                else if (k[i] == ')')
                    d--;
                else if (d == 0 && k.compare(i, 5, " add ") == 0) {
                    string a = k.substr(1, i - 1), b = k.substr(i + 5, k.size() - i - 6);
                    if (b[0] == '#')
                        std::swap(a, b);
                    if (a[0] == '#') {
                        string bb;
                        int64_t o2;
                        splitAdd(b, bb, o2);
                        base = bb;
                        off = strtoll(a.c_str() + 1, nullptr, 10) + o2;
                        return true;
                    }
                    return false;
                }
            }
            return false;
        }
        bool isFresh(const string& k0, State& s)
        {
            string k;
            int64_t o;
            splitAdd(k0, k, o);
            if (s.v.count("fresh:" + k))
                return true;
            if (k[0] != '*')
                return false;
            for (auto* n : { "IndexHeader.m_index_offset)", "IndexHeader.m_data_offset)", "DBTraverseBase.index_size)", "DBTraverseBase.data_size)" })
                if (endsWith(k, n))
                    return true;
            return false;
        }
        void dirty(State& s, const string& field, const string& exceptKey = "")
        {
            // tracked expressions that read `field` become stale
            string a = field + ")";
            for (auto it = s.v.begin(); it != s.v.end();) {
                if (startsWith(it->first, "fresh:") && contains(it->first, a) && it->first != exceptKey) {
                    it = s.v.erase(it);
                    continue;
                }
                if ((it->first == "lf" || it->first == "ex" || it->first == "win" || it->first == "pay") && contains(it->second, a))
                    it->second = "stale:" + field;
                ++it;
            }
        }
        string indexOrData(Frame& fr)
        {
            for (Frame* f = &fr; f; f = f->parent) {
                string c = cls(P.q(f->F));
                if (c == "mabain::DictMem" || c == "mabain::Dict")
                    return c == "mabain::DictMem" ? "index" : "data";
            }
            return "other";
        }
        Frame* userFrame(Frame& fr)
        {
            // the frame that asked for the write: outermost of the write helpers
            Frame* f = &fr;
            while (f->parent) {
                string n = P.q(f->F);
                if (n == "mabain::DictMem::WriteData" || n == "mabain::DictMem::WriteEdge" || n == "mabain::Dict::WriteData" || n == "mabain::DRMBase::WriteData")
                    f = f->parent;
                else
                    break;
            }
            return f;
        }
        bool inst(Engine& E, Frame& fr, Instruction& I, State& s) override
        {
            if (auto* S = dyn_cast<StoreInst>(&I)) {
                string f = fld(P.ptrField(S->getPointerOperand()));
                string pk = E.key(S->getPointerOperand(), fr);
                string vk = resolve(E.key(S->getValueOperand(), fr), s);
                if (f == ST) {
                    Itv v = E.itv(S->getValueOperand(), fr, s);
                    if (c2 && !(S->isAtomic() && isReleaseOrStronger(S->getOrdering())))
                        R.violation("journal-order", &I, P.q(fr.F), "status", "the journal status is stored without release ordering: the compiler may store it before the offsets and bytes it vouches for", fr.stack());
                    s.q[STAT] = v.isConst() ? (int)v.lo : -1;
                    if (v.isConst() && v.lo == 0)
                        s.v.erase("ex");
                    return true;
                }
                if (f == BUF || contains(pk, BUF))
                    s.q[FILL] = 1;
                if (f == LF || f == EX) {
                    if (s.q[STAT] > 0 && c2 && !recovery)
                        R.violation("journal-stable", &I, P.q(fr.F), f, "the journal's " + f + " is changed while the journal is armed", fr.stack());
                    s.v[f == LF ? "lf" : "ex"] = vk;
                    return true;
                }
                bool fv = isFresh(vk, s);
                string fk = "fresh:*(" + pk + ")";
                if (!f.empty())
                    dirty(s, f);
                if (fv)
                    s.v[fk] = "1";
                else
                    s.v.erase(fk);
            } else if (auto* M = dyn_cast<MemTransferInst>(&I)) {
                if (fld(P.ptrField(M->getDest())) == BUF || contains(E.key(M->getDest(), fr), BUF)) {
                    s.q[FILL] = 1;
                    s.v["pay"] = E.key(M->getSource(), fr);
                }
            }
            return true;
        }
        void sink(Engine& E, Frame& fr, CallBase& CB, State& s)
        {
            nsinks++;
            string T = resolve(E.key(CB.getArgOperand(3), fr), s);
            string src = E.key(CB.getArgOperand(1), fr);
            Itv len = E.itv(CB.getArgOperand(2), fr, s);
            string file = indexOrData(fr);
            Frame* uf = userFrame(fr);
            const Instruction* I = uf == &fr ? (const Instruction*)&CB : nullptr;
            for (Frame* f = &fr; f != uf; f = f->parent)
                I = f->site;
            string fn = P.q(uf->F);
            bool fr_ = isFresh(T, s);
            R.site(Program::loc(I) + " " + fn + " writes " + file + (fr_ ? " (fresh)" : " (in place)"));
            if (fr_) {
                fresh++;
                return;
            }
            if (file != "index")
                return;
            string base, wbase = s.get("win");
            int64_t off;
            splitAdd(T, base, off);
            string lf = s.get("lf"), ex = s.get("ex");
            if (lf.empty())
                lf = "<lf>";
            if (ex.empty())
                ex = "<ex>";
            string rel = base == lf || T == lf ? "lf" : (T == ex ? "ex" : (base == ex ? "ex" : ""));
            if (T == ex || T == lf)
                off = 0;
            string det = fn + "#" + (rel.empty() ? "?" : rel) + "+" + std::to_string(rel.empty() ? 0 : off) + "/" + (len.isConst() ? std::to_string(len.lo) : "?");
            if (c1) {
                if (s.q[WIN] != 1)
                    R.violation("window-open", I, fn, det, "an edge or node reachable by readers is overwritten outside a WriterLockFreeStart/Stop window", fr.stack());
                else if (wbase != lf)
                    R.violation("window-offset", I, fn, det, "the lock-free window is opened for an offset other than the edge recorded for readers (window " + wbase + ", journal " + lf + ")", fr.stack());
                else if (rel.empty())
                    R.violation("window-target", I, fn, det, "the overwritten location is not tied to the edge the lock-free window announces (target " + T + ", window " + wbase + ")", fr.stack());
            }
            if (c2) {
                if (recovery) {
                    if (!len.isConst())
                        R.violation("recovery-write", I, fn, det, "recovery rewrites a non-constant number of bytes", fr.stack());
                    for (auto& kv : s.f)
                        if (endsWith(kv.first, ST + ")"))
                            for (int64_t v = std::max<int64_t>(kv.second.lo, 0); v <= std::min<int64_t>(kv.second.hi, 64); v++)
                                if (kv.second.contains(v))
                                    sites["R" + std::to_string(v) + det] = { fn, Program::loc(I), rel, contains(src, "empty_edge") ? "empty" : contains(src, BUF) ? (s.q[FILL] ? "built" : "journal") : "built", v, off, len.isConst() ? len.lo : -1, true, I };
                    return;
                }
                if (s.q[STAT] == 0)
                    R.violation("journal-armed", I, fn, det, "an in-place index write happens with the crash journal disarmed (excep_updating_status is NONE); target " + T, fr.stack());
                else if (s.q[STAT] < 0)
                    R.violation("journal-armed", I, fn, det, "the journal status is not a known constant at an in-place write", fr.stack());
                else {
                    if (rel.empty())
                        R.violation("journal-target", I, fn, det, "the journal (excep_lf_offset/excep_offset) does not identify the location being overwritten: target " + T + " lf " + lf + " ex " + ex, fr.stack());
                    else
                        sites["S" + std::to_string(s.q[STAT]) + det] = { fn, Program::loc(I), rel, contains(src, "empty_edge") ? "empty" : "journal", s.q[STAT], off, len.isConst() ? len.lo : -1, false, I };
                    // payload
                    bool buffered = contains(src, BUF) || src == s.get("pay");
                    s.v["p:" + std::to_string(s.q[STAT])] = "";
                    s.v.erase("p:" + std::to_string(s.q[STAT]));
                    if (!buffered && !contains(src, "EdgePtrs.ptr") && !contains(src, "empty_edge"))
                        R.violation("journal-payload", I, fn, det, "the bytes written in place are not the bytes saved in excep_buff for recovery (source " + src + ")", fr.stack());
                    if (buffered && !s.q[FILL])
                        R.violation("journal-payload", I, fn, det, "excep_buff is not filled for this update before the in-place write", fr.stack());
                }
            }
            s.q[FILL] = 0;
            s.v.erase("pay");
        }
        int call(Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, vector<Exit>& out) override
        {
            if (!T)
                return 0;
            const string& n = P.q(T);
            if (n == START) {
                if (s.q[WIN] == 1 && c1)
                    R.violation("window-nested", &CB, P.q(fr.F), "", "WriterLockFreeStart while a window is already open: the first edge is no longer announced", fr.stack());
                s.q[WIN] = 1;
                s.v["win"] = resolve(E.key(CB.getArgOperand(1), fr), s);
                if (s.v["win"].empty())
                    s.v["win"] = "?";
                R.site(Program::loc(&CB) + " opens window");
                s.v["nokill"] = "1";
                return 1;
            }
            if (n == STOP) {
                s.q[WIN] = 0;
                s.v.erase("win");
                s.v["nokill"] = "1";
                return 1;
            }
            if (boundary && T != rootF && boundary->count(T)) {
                // another analysed entry point: by its own obligation it starts and ends with the window closed and the journal disarmed
                if (s.q[WIN] == 1 && c1)
                    R.violation("window-nested", &CB, P.q(fr.F), shortq(T), "an update entry point is called while a lock-free window is open", fr.stack());
                if (s.q[STAT] != 0 && c2)
                    R.violation("journal-stable", &CB, P.q(fr.F), shortq(T), "an update entry point is called while the crash journal is armed", fr.stack());
                State after = s;
                after.q = { 0, 0, 0 };
                for (auto& f : P.modSet(T)) {
                    E.killField(after, f);
                    dirty(after, fld(f));
                }
                after.v.erase("pay");
                Exit n1;
                n1.s = after;
                out.push_back(n1);
                for (auto& ty : P.escapes(T)) {
                    Exit u;
                    u.s = after;
                    u.unwind = true;
                    u.excType = ty;
                    u.s.v["exc"] = ty;
                    out.push_back(u);
                }
                return 1;
            }
            if (SINK.count(n)) {
                sink(E, fr, CB, s);
                s.v["nokill"] = "1";
                return 1;
            }
            if (FRESH_OUT.count(n)) {
                for (unsigned i = 0; i < CB.arg_size(); i++)
                    if (i == CB.arg_size() - 1) {
                        s.v["fresh:*(" + E.key(CB.getArgOperand(i), fr) + ")"] = "1";
                    }
                s.v["nokill"] = "1";
                return 1;
            }
            if (n == "mabain::RollableFile::Reserve" || n == "mabain::DRMBase::Reserve") {
                // Reserve only aligns the offset it is given: an unpublished tail offset stays unpublished
                string k = "*(" + E.key(CB.getArgOperand(1), fr) + ")";
                bool fr0 = isFresh(k, s);
                E.killKey(s, k);
                if (fr0)
                    s.v["fresh:" + k] = "1";
                s.v["nokill"] = "1";
                return 1;
            }
            if (n == "mabain::DRMBase::CheckAlignment" || n == "mabain::RollableFile::CheckAlignment") {
                if (isFresh(resolve(E.key(CB.getArgOperand(1), fr), s), s))
                    s.v["fresh:" + E.key(&CB, fr)] = "1";
                s.v["nokill"] = "1";
                return 1;
            }
            if (n == "mabain::FreeList::RemoveBufferByIndex") {
                s.v["fresh:" + E.key(&CB, fr)] = "1";
                return 1;
            }
            // payload writes through helper calls
            for (unsigned i = 0; i < CB.arg_size(); i++) {
                if (!CB.getArgOperand(i)->getType()->isPointerTy())
                    continue;
                string k = E.key(CB.getArgOperand(i), fr);
                if (contains(k, BUF) && !CB.onlyReadsMemory(i) && !constParam(T, i)) {
                    s.q[FILL] = 1;
                    break;
                }
                if (i == 0 && (startsWith(n, "mabain::Write") || startsWith(n, "mabain::DRMBase::Read")))
                    ;
            }
            if (!E.willDescend(T, fr) && !T->isDeclaration() && P.repo(T))
                for (auto& f : P.modSet(T))
                    dirty(s, fld(f));
            return 0;
        }
        void leave(Engine&, Frame& fr, Exit& e) override
        {
            // drop fresh markers on locals of the left frame is unnecessary: keys are unique
            (void)fr;
        }
    };

    void analyse(Report& R, bool c1, bool c2)
    {
        // anchors
        P.one(START);
        P.one(STOP);
        Function* rec = P.one("mabain::Dict::ExceptionRecovery");
        WriterClient probe(R, c1, c2);
        auto relF = [&](const Function* F) { return probe.relevant(F); };
        // entry points of the update code: reach an event and are called from outside the update classes
        auto core = [](const Function* F) {
            string c = cls(P.q(F));
            return c == "mabain::Dict" || c == "mabain::DictMem" || c == "mabain::DRMBase" || c == "mabain::ResourceCollection" || c == "mabain::DBTraverseBase";
        };
        // helpers called only from update code belong to it, whatever their class
        set<const Function*> coreSet;
        for (auto* F : repoFunctions())
            if (core(F))
                coreSet.insert(F);
        for (bool ch = true; ch;) {
            ch = false;
            for (auto* F : repoFunctions()) {
                if (coreSet.count(F))
                    continue;
                bool any = false, all = true;
                for (auto* C : callersOf(F))
                    if (C != F) {
                        any = true;
                        if (!coreSet.count(C))
                            all = false;
                    }
                if (any && all) {
                    coreSet.insert(F);
                    ch = true;
                }
            }
        }
        auto inCore = [&](const Function* F) { return coreSet.count(F) > 0; };
        vector<Function*> roots;
        for (auto* F : repoFunctions()) {
            bool reach = false;
            for (auto* G : P.reachable(F))
                if (relF(G))
                    reach = true;
            if (!reach)
                continue;
            bool own = core(F) || hasCallTo(F, { START, STOP, "mabain::RollableFile::RandomWrite", "mabain::RollableFile::MemWrite" });
            if (!own)
                continue;
            auto& cs = callersOf(F);
            bool outside = true;
            for (auto* C : cs)
                if (C != F && inCore(C))
                    outside = false;
            for (auto* C : cs)
                if (!inCore(C) && P.repo(C))
                    outside = true;
            // traversal callbacks and the RC merge are analysed on their own (summarised at their callers)
            if (endsWith(P.q(F), "::DoTask") || endsWith(P.q(F), "::ProcessRCTree"))
                outside = true;
            if (outside)
                roots.push_back(F);
        }
        if (std::find(roots.begin(), roots.end(), rec) == roots.end())
            roots.push_back(rec);
        if (getenv("SA_HIST")) for (auto*F:roots) fprintf(stderr, "  R %s\n", P.q(F).c_str());
        set<const Function*> boundary;
        for (auto* F : roots)
            for (auto* G : P.reachable(F))
                if (P.q(G) == START) {
                    boundary.insert(F);
                    break;
                }
        map<string, Site> sites;
        long ns = 0, nf = 0;
        for (auto* F : roots) {
            WriterClient c(R, c1, c2);
            c.recovery = F == rec;
            c.root = P.q(F);
            c.rootF = F;
            c.boundary = &boundary;
            Engine E(c);
            State init;
            init.q = { 0, 0, 0 };
            if (getenv("SA_HIST")) fprintf(stderr, "root %s\n", P.d(F).c_str());
            auto ex = E.run(F, init);
            dbgRun(F, E, ex.size());
            for (auto& e : ex) {
                if (e.unwind)
                    continue;
                if (e.s.q[WIN] == 1 && c1)
                    R.violation("window-closed", &*F->getEntryBlock().begin(), P.q(F), "exit", "a normal return leaves the lock-free window open: readers of that edge can never succeed");
                if (e.s.q[STAT] != 0 && c2 && F != rec)
                    R.violation("journal-disarmed", &*F->getEntryBlock().begin(), P.q(F), "exit", "a normal return leaves the crash journal armed");
            }
            R.oblige("writer-window: root " + P.q(F) + ": every abstract path to an index write explored (" + std::to_string(E.steps) + " steps, " + std::to_string(c.nsinks) + " write events)");
            noteRun(R, E, P.q(F));
            ns += c.nsinks;
            nf += c.fresh;
            sites.insert(c.sites.begin(), c.sites.end());
        }
        R.counts["write events"] = ns;
        R.counts["fresh write events"] = nf;
        if (ns == 0)
            R.errors.push_back("no write to the index or data file found: sinks renamed?");
        if (c2) {
            map<int64_t, vector<Site>> rt;
            long n = 0;
            for (auto& kv : sites)
                if (kv.second.recovery)
                    rt[kv.second.status].push_back(kv.second);
            for (auto& kv : sites) {
                const Site& s = kv.second;
                if (s.recovery)
                    continue;
                n++;
                string d = "status " + std::to_string(s.status) + " at " + s.func + " (" + s.loc + ") writes " + std::to_string(s.len) + " bytes at " + s.rel + "+" + std::to_string(s.off);
                R.oblige("journal-recovery: " + d + " is covered by ExceptionRecovery");
                auto it = rt.find(s.status);
                string det = s.func + "#" + std::to_string(s.status) + "#" + s.rel + "+" + std::to_string(s.off) + "/" + std::to_string(s.len);
                if (it == rt.end()) {
                    R.violation("recovery-exhaustive", s.I, s.func, det, "a crash here leaves status " + std::to_string(s.status) + ", which ExceptionRecovery does not handle");
                    continue;
                }
                bool ok = false;
                for (auto& r : it->second)
                    if (r.rel == s.rel && r.off <= s.off && s.len >= 0 && r.off + r.len >= s.off + s.len)
                        ok = true;
                string srcBad;
                for (auto& r : it->second) {
                    if (r.rel != s.rel)
                        continue;
                    if (s.src == "empty" && r.src != "empty")
                        srcBad = "the site clears the edge, recovery writes the journal buffer, which this site does not fill";
                    else if (s.src == "journal" && r.src == "empty")
                        srcBad = "the site writes the journaled bytes, recovery clears the edge";
                    else if (s.src == "journal" && r.src == "journal" && (r.off != s.off || r.len != s.len))
                        srcBad = "recovery writes " + std::to_string(r.len) + " journaled bytes at +" + std::to_string(r.off) + ", the site journals " + std::to_string(s.len) + " for +" + std::to_string(s.off);
                }
                R.oblige("recovery-source: " + d + ": recovery writes the bytes this site journals");
                if (!srcBad.empty())
                    R.violation("recovery-source", s.I, s.func, det, d + ": " + srcBad);
                string rs;
                for (auto& r : it->second)
                    rs += " " + r.rel + "+" + std::to_string(r.off) + "/" + std::to_string(r.len);
                if (!ok)
                    R.violation("recovery-covers", s.I, s.func, det, d + ", but recovery for that status rewrites only" + rs + ": a crash after this write is not repaired");
            }
            R.counts["journaled sites"] = n;
            R.counts["recovery cases"] = rt.size();
            if (n == 0 || rt.empty())
                R.errors.push_back("no journaled write sites or no recovery cases found");
        }
    }
    // The journal left by a crashed writer is replayed before the DB is used again.
    void openOrder(Report& R)
    {
        const string REC = "mabain::Dict::ExceptionRecovery", INIT = "mabain::Dict::Init";
        P.one(REC);
        Function* root = nullptr;
        for (auto* n : { "mabain::DB::InitDBEx", "mabain::DB::InitDB" })
            if (!root && !P.find(n).empty())
                root = P.find(n)[0];
        if (!root) {
            R.errors.push_back("DB open function not found");
            return;
        }
        enum { REPLAYED, FRESHDB, NOTWRITER, JEMALLOC };
        FC c(R);
        const int64_t W = globalConst("mabain::CONSTS::ACCESS_MODE_WRITER"), J = globalConst("mabain::CONSTS::OPTION_JEMALLOC");
        auto ok = [](const State& s) { return s.q[REPLAYED] || s.q[FRESHDB] || s.q[NOTWRITER] || s.q[JEMALLOC]; };
        long n = 0;
        auto use = [&](const string& what) {
            return [&, what](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                n++;
                if (!ok(s))
                    R.violation("open-order", &CB, P.q(fr.F), what, "a writer that opens an existing DB reaches " + what + " before the update interrupted by a crash is completed", fr.stack());
                return 1;
            };
        };
        c.calls[REC] = [&](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>&) { s.q[REPLAYED] = 1; return 0; };
        c.calls[INIT] = [&](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>&) { s.q[FRESHDB] = 1; return 0; };
        c.calls["mabain::AsyncWriter::CreateInstance"] = use("AsyncWriter::CreateInstance");
        c.calls["mabain::ResourceCollection::ExceptionRecovery"] = use("ResourceCollection::ExceptionRecovery");
        c.opaque.insert({ REC, INIT, "mabain::DB::RunStartupRebuild", "mabain::Dict::RemoveAll", "mabain::DB::Close", "mabain::DB::ReInit", "mabain::remove_db_files" });
        c.instEvent = [](const Instruction& I) { return storedField(I) == "DB.status" || storedField(I) == "DB.dict"; };
        c.edgeFn = [&](Engine&, Frame&, const Instruction&, const BasicBlock*, State& s) {
            for (auto& kv : s.f) {
                if (!contains(kv.first, "options") || !contains(kv.first, " and ") || contains(kv.first, " eq ") || contains(kv.first, " ne "))
                    continue;
                if (startsWith(kv.first, "(#" + std::to_string(W) + " and ") && kv.second.isConst() && kv.second.lo == 0)
                    s.q[NOTWRITER] = 1;
                if (startsWith(kv.first, "(#" + std::to_string(J) + " and ") && !kv.second.contains(0))
                    s.q[JEMALLOC] = 1;
            }
        };
        c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
            if (storedField(I) == "DB.status" && isa<StoreInst>(I)) {
                Itv v = E.itv(storedValue(I), fr, s);
                if (v.isConst() && v.lo == 0) {
                    n++;
                    if (!ok(s))
                        R.violation("open-order", &I, P.q(fr.F), "open", "a writer can open an existing DB without completing the update interrupted by a crash", fr.stack());
                }
            }
            return true;
        };
        c.go(root, st({ 0, 0, 0, 0 }));
        R.oblige("open-order: every path on which a writer opens an existing non-jemalloc DB runs crash recovery first (" + std::to_string(n) + " uses checked)");
        if (n == 0)
            R.errors.push_back("open-order: no successful open found");
    }
    RegRule r1("C01", "window", [](Report& R, bool) { analyse(R, true, false); });
    RegRule r2("C02", "journal", [](Report& R, bool) { analyse(R, false, true); openOrder(R); });
} // namespace
} // namespace sa
