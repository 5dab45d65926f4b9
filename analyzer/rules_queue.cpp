// C11: the shared-memory queue between processes: a slot is owned by one party at a time,
// a request is complete when it is published, and the consumer does what was asked, once.
#include "rules_lib.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::", N = "AsyncNode.";
    enum { KEY = 1, KEYLEN = 2, DATA = 4, DATALEN = 8, OVER = 16, TYPE = 32 };
    Instruction* head(const Function* F) { return const_cast<Instruction*>(&*F->getEntryBlock().begin()); }
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (true) {
            while (auto* C = dyn_cast<CastInst>(V))
                V = C->getOperand(0);
            auto* A = dyn_cast<Argument>(V);
            if (!A || !fr->site || !fr->parent || A->getParent() != fr->F)
                return V;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
    }
    int64_t order(const CallBase* CB, const string& op)
    {
        unsigned need = op == "load" ? 1 : 2;
        if (CB->arg_size() <= need)
            return 5;
        return constArg(CB, need, 5);
    }
    bool acq(int64_t o) { return o == 1 || o == 2 || o == 4 || o == 5; }
    bool rel(int64_t o) { return o == 3 || o == 4 || o == 5; }
    // slot member a pointer refers to ("" if none), and the byte offset in it if constant
    string member(const Value* V, Frame& fr0, int64_t* off = nullptr)
    {
        Frame* fr = &fr0;
        int64_t o = 0;
        for (int i = 0; i < 12; i++) {
            V = resolveArg(V, fr);
            string f = pf(V);
            auto* G = dyn_cast<GEPOperator>(V);
            if (startsWith(f, N)) {
                // constant part of the indices after the member itself
                while (G) {
                    auto names = P.gepFields(G);
                    bool has = false;
                    for (auto& n : names)
                        has |= startsWith(fieldBase(n), N);
                    if (has) {
                        if (G->getNumOperands() > 4)
                            if (auto* C = dyn_cast<ConstantInt>(G->getOperand(4)))
                                o += C->getSExtValue();
                        break;
                    }
                    APInt a(64, 0);
                    if (G->accumulateConstantOffset(P.M->getDataLayout(), a))
                        o += a.getSExtValue();
                    else
                        o = -1000000;
                    G = dyn_cast<GEPOperator>(G->getPointerOperand()->stripPointerCasts());
                }
                if (off)
                    *off = o;
                return f.substr(N.size());
            }
            if (!G)
                return "";
            APInt a(64, 0);
            if (G->accumulateConstantOffset(P.M->getDataLayout(), a))
                o += a.getSExtValue();
            else
                o = -1000000;
            V = G->getPointerOperand();
        }
        return "";
    }
    int maskOf(const string& m)
    {
        return m == "key" ? KEY : m == "key_len" ? KEYLEN : m == "data" ? DATA : m == "data_len" ? DATALEN : m == "overwrite" ? OVER : m == "type" ? TYPE : 0;
    }
    string maskStr(int m)
    {
        string r;
        for (auto* n : { "key", "key_len", "data", "data_len", "overwrite", "type" })
            if (m & maskOf(n))
                r += (r.empty() ? "" : ", ") + string(n);
        return r;
    }
    uint64_t arrayLen(const string& m)
    {
        for (auto* ST : P.M->getIdentifiedStructTypes())
            if (fieldBase(P.structName(ST) + ".x") == N + "x")
                for (unsigned i = 0; i < ST->getNumElements(); i++)
                    if (fieldBase(P.fieldName(ST, i)) == N + m || fieldBase(P.fieldName(ST, i)) == m)
                        if (auto* A = dyn_cast<ArrayType>(ST->getElementType(i)))
                            return A->getNumElements();
        return 0;
    }
    // calls that copy into memory: destination 0, source 1, length operand (or -1)
    int copyLen(const CallBase& CB, bool& zero)
    {
        zero = false;
        if (isa<MemTransferInst>(CB))
            return 2;
        if (isa<MemSetInst>(CB)) {
            zero = true;
            return 2;
        }
        auto* T = CB.getCalledFunction();
        string n = T ? T->getName().str() : "";
        if (n == "memcpy" || n == "memmove" || n == "strncpy" || n == "mempcpy")
            return 2;
        if (n == "memset") {
            zero = true;
            return 2;
        }
        if (n == "snprintf" || n == "vsnprintf" || n == "__snprintf_chk")
            return 1;
        if (n == "strcpy" || n == "strcat" || n == "sprintf" || n == "stpcpy" || n == "gets")
            return -2;
        return -1;
    }
    string baseKey(Engine& E, const Value* V, Frame& fr)
    {
        Frame* f = &fr;
        V = resolveArg(V, f);
        return E.key(V, *f);
    }
    bool touchesSlot(const Instruction& I)
    {
        if (startsWith(storedField(I), N) || startsWith(loadedField(I), N))
            return true;
        if (auto* CB = dyn_cast<CallBase>(&I)) {
            for (auto& A : CB->args())
                if (A->getType()->isPointerTy() && startsWith(pf(A), N))
                    return true;
        }
        return false;
    }
    // a slot looked at in a loop over several ones
    bool scans(const Value* V, Frame& fr0)
    {
        Frame* fr = &fr0;
        for (int i = 0; i < 8; i++) {
            V = resolveArg(V, fr);
            if (isa<PHINode>(V))
                return true;
            auto* G = dyn_cast<GEPOperator>(V);
            if (!G)
                return false;
            for (unsigned k = 1; k < G->getNumOperands(); k++) {
                const Value* ix = G->getOperand(k);
                while (true) {
                    if (auto* C = dyn_cast<CastInst>(ix))
                        ix = C->getOperand(0);
                    else if (auto* B = dyn_cast<BinaryOperator>(ix); B && B->getOpcode() == Instruction::URem)
                        ix = B->getOperand(0);
                    else
                        break;
                }
                if (isa<PHINode>(ix))
                    return true;
            }
            V = G->getPointerOperand();
        }
        return false;
    }
    std::set<int64_t> producerTypes; // type values that are published
    std::map<int64_t, int> published; // type -> members always written
    std::map<int64_t, string> producerOf;
    std::map<int64_t, std::map<int64_t, int>> words; // type -> byte offset in data -> argument of the producer

    std::vector<Function*> producers()
    {
        // entry points of the request side: called from outside, and able to publish a slot
        std::set<const Function*> pub;
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F))
                if (storedField(I) == N + "in_use")
                    if (auto* C = dyn_cast_or_null<ConstantInt>(storedValue(I)); C && !C->isZero())
                        pub.insert(F);
        std::vector<Function*> r;
        for (auto* F : repoFunctions()) {
            string c = cls(P.q(F));
            if (c != NS + "Dict")
                continue;
            bool reach = pub.count(F);
            for (auto* G : P.reachable(F))
                reach |= pub.count(G) > 0;
            if (!reach)
                continue;
            for (auto* G : callersOf(F))
                if (cls(P.q(G)) != NS + "Dict") {
                    r.push_back(F);
                    break;
                }
        }
        return r;
    }
    void request(Report& R)
    {
        producerTypes.clear();
        published.clear();
        producerOf.clear();
        words.clear();
        auto roots = producers();
        if (roots.empty())
            R.violation("request", head(P.one(NS + "DB::Add")), "Dict", "none", "no function publishes a request");
        for (auto* F : roots) {
            // q0: 0 nothing, 1 seen free, 2 claimed, 3 published; q1: members written
            FC c(R);
            auto bad = [&](const Instruction* I, Frame& fr, const string& d, const string& m) { R.violation("request", I, P.q(fr.F), d, P.d(F) + ": " + m, fr.stack()); };
            c.instEvent = touchesSlot;
            auto wrote = [&](Engine& E, Frame& fr, const Instruction& I, const string& m, State& s) {
                R.site(Program::loc(&I) + " writes " + m);
                if (s.q[0] < 2)
                    bad(&I, fr, "write " + m, "writes " + m + " of a slot it has not claimed: another process may own it");
                else if (s.q[0] == 3)
                    bad(&I, fr, "late " + m, "writes " + m + " after the request was published: the consumer may be reading it");
                s.q[1] |= maskOf(m);
            };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                string op = P.atomicOp(&CB);
                if (!op.empty()) {
                    string m = member(CB.getArgOperand(0), fr);
                    if (m != "in_use" && m != "num_reader")
                        return 0;
                    int64_t o = order(&CB, op);
                    R.site(Program::loc(&CB) + " " + op + " " + m);
                    if (op == "load") {
                        if (m == "num_reader") {
                            split(out, s, Itv());
                            return 1;
                        }
                        State y = s;
                        split(out, y, Itv::c(1));
                        if (s.q[0] == 0)
                            s.q[0] = 1;
                        split(out, s, Itv::c(0));
                        return 1;
                    }
                    if (m == "num_reader") {
                        bool rmw = op == "fetch_add" || op == "exchange" || op == "cas" || (op == "rmw" && contains(P.q(T), "operator++"));
                        if (rmw) {
                            State no = s;
                            bool pre = op == "rmw" && !contains(P.d(T), "(int)");
                            if (op == "cas") {
                                auto ex = E.keyItv("*(" + E.key(CB.getArgOperand(1), fr) + ")", s);
                                split(out, no, Itv::c(0));
                                if (!(ex.isConst() && ex.lo == 0))
                                    bad(&CB, fr, "expected", "claims the slot by exchanging a value that may not be 0");
                                o = CB.arg_size() > 3 ? constArg(&CB, 3, 5) : 5;
                            } else
                                split(out, no, pre ? Itv::range(2, 0xFFFF) : Itv::range(1, 0xFFFF));
                            if (!acq(o))
                                bad(&CB, fr, "claim order", "claims the slot without acquire ordering: its writes may overtake the consumer's last reads");
                            if (s.q[0] != 1)
                                bad(&CB, fr, "claim", s.q[0] == 0 ? "claims a slot it has not seen free" : "claims a slot twice");
                            s.q[0] = 2;
                            split(out, s, Itv::c(op == "cas" || pre ? 1 : 0));
                            return 1;
                        }
                        // giving an unpublished claim back
                        auto v = E.itv(CB.getArgOperand(1), fr, s);
                        if (s.q[0] == 2 && op == "store" && v.isConst() && v.lo == 0 && rel(o))
                            s.q[0] = 0;
                        else
                            bad(&CB, fr, "num_reader", "changes num_reader of a slot it has not claimed or has published");
                        s.v["nokill"] = "1";
                        return 1;
                    }
                    auto v = E.itv(CB.getArgOperand(1), fr, s);
                    if (op != "store" || !v.isConst() || v.lo == 0) {
                        bad(&CB, fr, "in_use", "clears or exchanges in_use, which belongs to the consumer");
                        return 1;
                    }
                    if (s.q[0] != 2)
                        bad(&CB, fr, "publish", s.q[0] == 3 ? "publishes the slot twice" : "publishes a slot it has not claimed");
                    if (!rel(o))
                        bad(&CB, fr, "publish order", "publishes the request without release ordering: the consumer may see the flag before the request");
                    if (!(s.q[1] & TYPE))
                        bad(&CB, fr, "no type", "publishes a request without a type");
                    string ty = s.get("type");
                    if (ty.empty())
                        bad(&CB, fr, "type value", "publishes a request of unknown type");
                    else {
                        int64_t t = std::stoll(ty);
                        producerTypes.insert(t);
                        published[t] = published.count(t) ? published[t] & s.q[1] : s.q[1];
                        if (producerOf.count(t) && producerOf[t] != P.q(F))
                            bad(&CB, fr, "type shared", "publishes type " + ty + ", which " + producerOf[t] + " uses for another request");
                        producerOf[t] = P.q(F);
                        for (auto& [k, x] : s.v)
                            if (startsWith(k, "word"))
                                words[t][std::stoll(k.substr(4))] = std::stoi(x);
                        // lengths describe what was copied
                        if ((s.q[1] & KEY) && s.get("keylen") != s.get("keycopied"))
                            bad(&CB, fr, "key_len", "key_len is not the number of bytes copied to key");
                        if ((s.q[1] & DATA) && !s.get("datacopied").empty() && s.get("datalen") != s.get("datacopied"))
                            bad(&CB, fr, "data_len", "data_len is not the number of bytes copied to data");
                        if ((s.q[1] & DATA) && s.get("datalen").empty())
                            bad(&CB, fr, "data_len", "data_len is not known to be the length of data");
                    }
                    s.q[0] = 3;
                    s.v["nokill"] = "1";
                    return 1;
                }
                bool zero;
                int li = copyLen(CB, zero);
                if (li == -1 || !CB.arg_size())
                    return 0;
                int64_t off = 0;
                string m = member(CB.getArgOperand(0), fr, &off);
                if (m.empty())
                    return 0;
                uint64_t cap = arrayLen(m);
                if (zero) {
                    int had = s.q[1];
                    wrote(E, fr, CB, m, s);
                    s.q[1] = had;
                } else
                    wrote(E, fr, CB, m, s);
                if (li == -2) {
                    bad(&CB, fr, "unbounded " + m, "copies a string of unknown length into " + m);
                    return 1;
                }
                auto len = E.itv(CB.getArgOperand(li), fr, s);
                if (!cap || off < 0 || len.lo < 0 || len.hi > (int64_t)cap - off)
                    bad(&CB, fr, "bounds " + m, "may copy " + len.str() + " bytes into " + m + " of " + std::to_string(cap));
                if (zero)
                    return 1;
                if (li == 1) // formatted: a terminated string
                    s.v[m + "copied"] = "strlen";
                else
                    s.v[m + "copied"] = baseKey(E, CB.getArgOperand(li), fr);
                s.v["nokill"] = "1";
                return 1;
            };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                auto* S = dyn_cast<StoreInst>(&I);
                if (!S)
                    return true;
                int64_t off = 0;
                string m = member(S->getPointerOperand(), fr, &off);
                if (m.empty())
                    return true;
                if (m == "in_use" || m == "num_reader")
                    return true;
                wrote(E, fr, I, m, s);
                const Value* V = S->getValueOperand();
                Frame* vf = &fr;
                const Value* RV = resolveArg(V, vf);
                if (m == "type") {
                    auto i = E.itv(V, fr, s);
                    if (i.isConst())
                        s.v["type"] = std::to_string(i.lo);
                    else
                        s.v.erase("type");
                } else if (m == "key_len")
                    s.v["keylen"] = baseKey(E, V, fr);
                else if (m == "data_len") {
                    auto* CB = dyn_cast<CallBase>(RV);
                    auto* T = CB ? CB->getCalledFunction() : nullptr;
                    auto i = E.itv(V, fr, s);
                    if (T && T->getName() == "strlen" && member(CB->getArgOperand(0), *vf) == "data")
                        s.v["datalen"] = "strlen";
                    else
                        s.v["datalen"] = baseKey(E, V, fr);
                    if (!(T && T->getName() == "strlen") && (i.lo < 0 || i.hi > (int64_t)arrayLen("data")))
                        bad(&I, fr, "data_len bounds", "data_len may be " + i.str());
                } else if (m == "data") {
                    uint64_t sz = P.M->getDataLayout().getTypeStoreSize(V->getType());
                    if (off < 0 || off + sz > arrayLen("data"))
                        bad(&I, fr, "bounds data", "stores outside data");
                    if (auto* A = dyn_cast<Argument>(RV); A && A->getParent() == F)
                        s.v["word" + std::to_string(off)] = std::to_string(A->getArgNo());
                }
                return true;
            };
            auto exits = c.go(F, st({ 0, 0 }));
            R.oblige("C11 " + P.d(F) + ": claims, fills and publishes a slot in this order, and reports it");
            for (auto& e : exits) {
                if (e.s.q[0] == 2)
                    R.violation("request", head(F), P.q(F), "claim kept", P.d(F) + " can end with a slot it claimed and did not publish: nobody can use it again");
                if (e.unwind || F->getReturnType()->isVoidTy())
                    continue;
                if (e.s.q[0] == 3 && !(e.ret.isConst() && e.ret.lo == 0))
                    R.violation("request", head(F), P.q(F), "published, not reported", P.d(F) + " may report failure for a request that was published");
                if (e.s.q[0] < 2 && e.ret.contains(0))
                    R.violation("request", head(F), P.q(F), "reported, not published", P.d(F) + " may report success without having published the request");
            }
        }
    }
    RegRule r1("C11", "request", [](Report& R, bool) { request(R); });

    // ------------------------------------------------------------ consumers
    // members of the request that `type` needs, as read by the consumers
    void consume(Report& R, Function* F, bool thread, int64_t type, std::map<string, int>& opsSeen, int& reads)
    {
        // q0: 0 idle, 1 owned, 2 in_use cleared, 3 released; q1 ops done; q2 index advanced; q3 type cleared
        FC c(R);
        string what = P.d(F) + " (request type " + std::to_string(type) + ")";
        auto bad = [&](const Instruction* I, Frame& fr, const string& d, const string& m) { R.violation("consume", I, P.q(fr.F), d, what + ": " + m, fr.stack()); };
        auto finish = [&](const Instruction* I, Frame& fr, State& s) {
            if (s.q[0] == 0)
                return;
            if (s.q[0] != 3)
                bad(I, fr, "kept", "goes on to the next request with the slot not given back");
            if (s.q[2] != 1)
                bad(I, fr, "index", s.q[2] ? "advances writer_index more than once per request" : "gives a slot back without advancing writer_index");
            opsSeen[s.get("op")]++;
            s.q = { 0, 0, 0, 0 };
            s.v.erase("op");
            s.v.erase("buff");
            s.v.erase("blen");
            s.v.erase("blenat");
        };
        auto op = [&](const string& name) {
            return [&, name](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                R.site(Program::loc(&CB) + " " + name);
                if (s.q[0] == 1) {
                    s.q[1]++;
                    s.v["op"] += (s.get("op").empty() ? "" : "+") + name;
                    if (s.q[1] > 1)
                        bad(&CB, fr, "twice", "carries a request out more than once");
                    // arguments come from the slot
                    auto fromSlot = [&](const Value* V, const string& m) {
                        Frame* f = &fr;
                        V = resolveArg(V, f);
                        if (member(V, *f) == m)
                            return true;
                        return flowsFrom(V, [&](const Value* x) { auto* L = dyn_cast<LoadInst>(x); return L && pf(L->getPointerOperand()) == N + m; });
                    };
                    if (name == "Dict::Add" || name == "Dict::Remove") {
                        if (!fromSlot(CB.getArgOperand(1), "key") || !fromSlot(CB.getArgOperand(2), "key_len"))
                            bad(&CB, fr, "key", "does not pass the key of the request");
                        reads |= KEY | KEYLEN;
                    }
                    if (name == "Dict::Add") {
                        if (s.get("buff") != "data" || s.get("blen") != "data_len")
                            bad(&CB, fr, "data", "does not pass the data of the request");
                        if (!fromSlot(CB.getArgOperand(4), "overwrite"))
                            bad(&CB, fr, "overwrite", "does not pass the overwrite flag of the request");
                        reads |= DATA | DATALEN | OVER;
                    }
                    if (name == "DBBackup::Backup") {
                        if (!fromSlot(CB.getArgOperand(1), "data"))
                            bad(&CB, fr, "data", "does not pass the directory of the request");
                        reads |= DATA;
                    }
                } else
                    bad(&CB, fr, "not owned", "runs " + name + " for a request that is not owned");
                summarised(E, CB, T, s, Itv(), out);
                return 1;
            };
        };
        for (auto* n : { "Dict::Add", "Dict::Remove", "Dict::RemoveAll", "DBBackup::Backup" })
            c.calls[NS + n] = op(n);
        c.calls[NS + "DBBackup::DBBackup"] = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            summarised(E, CB, T, s, Itv(), out);
            for (auto& e : out)
                if (e.unwind && s.q[0] == 1) { // the attempt failed
                    e.s.q[1]++;
                    e.s.v["op"] += (s.get("op").empty() ? "" : "+") + string("DBBackup::Backup");
                }
            return 1;
        };
        auto tag = [](const Value* V) { return "w" + std::to_string((uintptr_t)V); };
        if (thread)
            c.edgeFn = [&](Engine&, Frame&, const Instruction& I, const BasicBlock* B, State& s) {
                std::map<string, string> nv;
                for (auto& Phi : B->phis()) {
                    int ix = Phi.getBasicBlockIndex(I.getParent());
                    if (ix < 0)
                        continue;
                    string t = s.get(tag(Phi.getIncomingValue(ix)));
                    nv[tag(&Phi)] = t;
                }
                for (auto& [k, x] : nv)
                    if (x.empty())
                        s.v.erase(k);
                    else
                        s.v[k] = x;
            };
        auto limits = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            R.site(Program::loc(&CB) + " limits of resource collection");
            if (s.q[0] == 1 || s.q[0] == 2)
                bad(&CB, fr, "nested", "collects resources while it holds a request: it would be processed again");
            if (s.get("op") == "rc")
                for (int j = 1; j <= 4 && j < (int)CB.arg_size(); j++) {
                    Frame* g = &fr;
                    string t = s.get(tag(resolveArg(CB.getArgOperand(j), g)));
                    auto w = words.find(type);
                    bool ok = !t.empty() && w != words.end() && w->second.count(std::stoll(t)) && w->second[std::stoll(t)] == j;
                    if (!ok)
                        bad(&CB, fr, "limit " + std::to_string(j), "limit " + std::to_string(j) + " of the requested resource collection is not the one the caller gave");
                }
            summarised(E, CB, T, s, Itv(), out);
            return 1;
        };
        c.calls[NS + "ResourceCollection::ReclaimResource"] = limits;
        c.instEvent = [](const Instruction& I) { return touchesSlot(I) || storedField(I) == "IndexHeader.writer_index" || storedField(I) == "AsyncWriter.rc_backup_dir" || storedField(I) == "IndexHeader.rc_flag" || storedField(I) == "MBData.buff" || storedField(I) == "MBData.data_len"; };
        std::set<const Function*> prod;
        for (auto* G : producers())
            prod.insert(G);
        c.opaqueFn = [&](const Function* T) { return contains(P.q(T), "Logger::") || prod.count(T) || contains(P.q(T), "MBData::"); };
        auto reachesConsumer = [&](const Function* T) {
            if (endsWith(P.q(T), "AsyncWriter::ProcessTask"))
                return true;
            if (cls(P.q(T)) == NS + "AsyncWriter")
                return false;
            for (auto* G : P.reachable(T))
                if (endsWith(P.q(G), "AsyncWriter::ProcessTask"))
                    return true;
            return false;
        };
        c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            string o = P.atomicOp(&CB);
            if (!o.empty()) {
                string m = member(CB.getArgOperand(0), fr);
                string hf = pf(CB.getArgOperand(0));
                if (hf == "IndexHeader.rc_flag" && o == "store") {
                    auto v = E.itv(CB.getArgOperand(1), fr, s);
                    if (v.isConst() && v.lo == 1) {
                        R.site(Program::loc(&CB) + " starts resource collection");
                        if (s.q[0] == 1) {
                            s.q[1]++;
                            s.v["op"] += (s.get("op").empty() ? "" : "+") + string("rc");
                            if (s.q[1] > 1)
                                bad(&CB, fr, "twice", "carries a request out more than once");
                        } else
                            bad(&CB, fr, "not owned", "starts resource collection for a request that is not owned");
                    }
                    return 0;
                }
                if (m != "in_use" && m != "num_reader")
                    return 0;
                int64_t od = order(&CB, o);
                R.site(Program::loc(&CB) + " " + o + " " + m);
                if (o == "load") {
                    if (m == "num_reader") {
                        split(out, s, Itv());
                        return 1;
                    }
                    if (scans(CB.getArgOperand(0), fr)) {
                        split(out, s, Itv::range(0, 1));
                        return 1;
                    }
                    if (s.q[0] == 1) { // looked at again
                        split(out, s, Itv::c(1));
                        return 1;
                    }
                    finish(&CB, fr, s);
                    State y = s;
                    split(out, y, Itv::c(0));
                    y = s;
                    y.q[0] = 1;
                    if (!acq(od))
                        y.v["weak"] = "1";
                    split(out, y, Itv::c(1));
                    return 1;
                }
                auto v = E.itv(CB.getArgOperand(1), fr, s);
                bool z = o == "store" && v.isConst() && v.lo == 0;
                if (!z)
                    bad(&CB, fr, m, "changes " + m + " other than to give the slot back");
                else if (!rel(od))
                    bad(&CB, fr, m + " order", "gives the slot back without release ordering: its reads may see the next request");
                else if (m == "in_use") {
                    if (s.q[0] != 1)
                        bad(&CB, fr, "in_use", s.q[0] == 0 ? "clears in_use of a slot that is not owned" : "clears in_use after the slot was given back");
                    else
                        s.q[0] = 2;
                } else {
                    if (s.q[0] == 1)
                        bad(&CB, fr, "early claim", "resets num_reader before in_use: a producer may fill the slot and have its request erased");
                    else if (s.q[0] != 2)
                        bad(&CB, fr, "num_reader", "resets num_reader of a slot that is not owned");
                    s.q[0] = 3;
                }
                s.v["nokill"] = "1";
                return 1;
            }
            // the slot handed to something we do not follow
            if (s.q[0] != 1 && (!T || T->isDeclaration() || !P.repo(T)))
                for (auto& A : CB.args())
                    if (A->getType()->isPointerTy()) {
                        string m = member(A, fr);
                        if (!m.empty())
                            bad(&CB, fr, "read " + m, "uses " + m + " of a slot that is not owned");
                    }
            if (s.q[0] == 1 && T)
                for (auto& A : CB.args())
                    if (A->getType()->isPointerTy())
                        if (string m = member(A, fr); !m.empty() && !startsWith(T->getName().str(), "llvm.lifetime"))
                            reads |= maskOf(m);
            if (T && T != F && P.repo(T) && !T->isDeclaration() && (prod.count(T) || reachesConsumer(T))) {
                if (s.q[0] != 0 && s.q[0] != 3)
                    bad(&CB, fr, "nested", "calls " + P.q(T) + " while it holds a request: it would be processed again");
                summarised(E, CB, T, s, Itv(), out);
                return 1;
            }
            return 0;
        };
        c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
            if (auto* L = dyn_cast<LoadInst>(&I)) {
                string m = member(L->getPointerOperand(), fr);
                if (m.empty() || m == "in_use" || m == "num_reader")
                    return true;
                R.site(Program::loc(&I) + " reads " + m);
                if (s.q[0] != 1)
                    bad(&I, fr, "read " + m, "reads " + m + " of a slot that is not owned");
                else if (!s.get("weak").empty())
                    bad(&I, fr, "acquire", "reads the request after a relaxed load of in_use: it may be incomplete");
                if (m == "type")
                    E.setFact(s, E.key(&I, fr), Itv::c(type));
                else
                    reads |= maskOf(m);
                int64_t off = 0;
                if (thread && m == "data" && !member(L->getPointerOperand(), fr, &off).empty())
                    s.v[tag(&I)] = std::to_string(off);
                return true;
            }
            string f = storedField(I);
            if (auto* S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isIntegerTy()) {
                Frame* g = &fr;
                auto* L = dyn_cast<LoadInst>(resolveArg(S->getValueOperand(), g));
                string m = L ? member(L->getPointerOperand(), *g) : "";
                string k = E.key(S->getPointerOperand(), fr);
                if (m == "data_len") {
                    s.v["blen"] = s.q[0] == 1 ? m : "";
                    s.v["blenat"] = k;
                } else if (s.get("blenat") == k)
                    s.v.erase("blen");
            }
            if (f.empty())
                return true;
            if (f == "IndexHeader.writer_index" && s.q[0] != 0) {
                if (fieldDelta(I, f) == 1)
                    s.q[2] = s.q[2] ? 2 : 1;
                else
                    bad(&I, fr, "index", "moves writer_index other than by one while it holds a request");
            }
            if (f == "AsyncWriter.rc_backup_dir" && !thread && s.q[0] == 1) {
                auto* V = storedValue(I);
                if (V && !isa<ConstantPointerNull>(V)) {
                    s.q[1]++;
                    s.v["op"] += (s.get("op").empty() ? "" : "+") + string("keep backup");
                }
            }
            if (f == "MBData.buff") {
                Frame* g = &fr;
                s.v["buff"] = s.q[0] == 1 ? member(storedValue(I), *g) : "";
            }
            if (isa<StoreInst>(I)) {
                string m = member(cast<StoreInst>(I).getPointerOperand(), fr);
                if (!m.empty()) {
                    if (s.q[0] != 1)
                        bad(&I, fr, "write " + m, "writes " + m + " of a slot it has given back: it may already hold the next request");
                }
            }
            return true;
        };
        State s0 = st({ 0, 0, 0, 0 });
        for (auto& e : c.go(F, s0)) {
            if (e.s.q[0] == 0)
                continue;
            if (e.s.q[0] != 3)
                R.violation("consume", head(F), P.q(F), "kept", what + (e.unwind ? " can end by an exception" : " can end") + " with a slot that was not given back");
            else if (e.s.q[2] != 1)
                R.violation("consume", head(F), P.q(F), "index", what + ": gives a slot back without advancing writer_index");
            else
                opsSeen[e.s.get("op")]++;
        }
    }
    Function* threadEntry()
    {
        for (auto* F : repoFunctions())
            for (auto& U : F->uses())
                if (auto* CB = dyn_cast<CallBase>(U.getUser()))
                    if (auto* T = CB->getCalledFunction(); T && T->getName() == "pthread_create" && CB->getArgOperand(2) == F && contains(P.q(F), "AsyncWriter"))
                        return F;
        return nullptr;
    }
    void consumers(Report& R)
    {
        auto* TE = threadEntry();
        if (!TE) {
            R.violation("consume", head(P.one(NS + "DB::InitDB")), "AsyncWriter", "thread", "no async writer thread found");
            return;
        }
        static const std::map<string, string> expect = { { "SHMQ_Add", "Dict::Add" }, { "SHMQ_Remove", "Dict::Remove" }, { "SHMQ_RemoveAll", "Dict::RemoveAll" }, { "SHMQ_CollectResource", "rc" }, { "SHMQ_Backup", "DBBackup::Backup" } };
        auto types = producerTypes;
        types.insert(0);
        types.insert(99);
        auto names = [](const std::map<string, int>& m) {
            string r;
            for (auto& [k, n] : m)
                r += (r.empty() ? "" : " or ") + (k.empty() ? string("nothing") : k);
            return r.empty() ? string("no completed request") : r;
        };
        auto inner = P.find(NS + "AsyncWriter::ProcessTask");
        for (int64_t t : types) {
            std::map<string, int> ops;
            int reads = 0;
            consume(R, TE, true, t, ops, reads);
            string who = producerOf.count(t) ? producerOf[t] : "";
            string fn = who.substr(who.rfind(':') + 1);
            string want = expect.count(fn) ? expect.at(fn) : "";
            R.oblige("C11 async thread: request type " + std::to_string(t) + (who.empty() ? "" : " (" + who + ")") + " is carried out exactly once: " + names(ops));
            if (!who.empty() && !want.empty()) {
                if (ops.size() != 1 || !ops.count(want))
                    R.violation("consume", head(TE), P.q(TE), fn, "a request published by " + who + " is carried out as: " + names(ops) + "; expected " + want);
            } else if (who.empty() && (ops.size() != 1 || !ops.count("")))
                R.violation("consume", head(TE), P.q(TE), "type " + std::to_string(t), "a slot whose type is not a request is carried out as: " + names(ops));
            for (auto* F : inner) {
                std::map<string, int> ops2;
                consume(R, F, false, t, ops2, reads);
                R.oblige("C11 " + P.d(F) + ": request type " + std::to_string(t) + ": " + names(ops2));
                for (auto& [k, n] : ops2)
                    if (!k.empty() && k != want && !(k == "keep backup" && want == "DBBackup::Backup"))
                        R.violation("consume", head(F), P.q(F), "type " + std::to_string(t) + ": " + names(ops2), "during resource collection a request of " + (who.empty() ? "no producer" : who) + " is carried out as: " + names(ops2));
                string want2 = want == "DBBackup::Backup" ? "keep backup" : want == "rc" ? "" : want; // one collection is running already
                if (!who.empty() && (ops2.size() != 1 || !ops2.count(want2)))
                    R.violation("consume", head(F), P.q(F), fn + ": " + names(ops2), "during resource collection an accepted request of " + who + " is carried out as: " + names(ops2) + "; expected " + want2);
            }
            if (published.count(t)) {
                int miss = reads & ~published[t] & (KEY | KEYLEN | DATA | DATALEN | OVER);
                R.oblige("C11 request type " + std::to_string(t) + ": the producer writes what the consumers read: " + maskStr(reads));
                if (miss)
                    R.violation("consume", head(TE), P.q(TE), "missing " + maskStr(miss), who + " publishes requests without " + maskStr(miss) + ", which the consumer reads");
            }
        }
    }
    // CollectResource hands its limits over in order
    void limitsPassed(Report& R)
    {
        for (auto* F : P.find(NS + "DB::CollectResource"))
            for (auto& I : instructions(*F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction(); T && (P.q(T) == NS + "ResourceCollection::ReclaimResource" || P.q(T) == NS + "Dict::SHMQ_CollectResource")) {
                        R.oblige("C11 " + Program::loc(CB) + ": the four limits are handed over in order");
                        for (unsigned j = 1; j <= 4; j++) {
                            const Value* V = CB->getArgOperand(j);
                            if (auto* A = dyn_cast<Argument>(V); A && A->getArgNo() != j)
                                R.violation("request", &I, P.q(F), "limit " + std::to_string(j), "CollectResource passes its limit " + std::to_string(A->getArgNo()) + " as limit " + std::to_string(j));
                        }
                    }
    }
    RegRule r4("C11", "limits", [](Report& R, bool) { limitsPassed(R); });
    RegRule r2("C11", "zconsume", [](Report& R, bool) { consumers(R); });

    // ------------------------------------------------------------ slot index
    void slotIndex(Report& R)
    {
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F)) {
                auto* G = dyn_cast<GetElementPtrInst>(&I);
                if (!G)
                    continue;
                auto* ST = dyn_cast<StructType>(G->getSourceElementType());
                if (!ST || fieldBase(P.structName(ST) + ".x") != N + "x")
                    continue;
                const Value* ix = G->getOperand(1);
                if (auto* C = dyn_cast<ConstantInt>(ix); C && C->isZero())
                    continue;
                R.site(Program::loc(&I) + " selects a slot");
                R.oblige("C11 " + Program::loc(&I) + ": slot index is reduced modulo the queue size");
                while (auto* C = dyn_cast<CastInst>(ix))
                    ix = C->getOperand(0);
                bool ok = false;
                if (auto* B = dyn_cast<BinaryOperator>(ix))
                    if (B->getOpcode() == Instruction::URem) {
                        const Value* d = B->getOperand(1);
                        ok = flowsFrom(d, [](const Value* x) { auto* L = dyn_cast<LoadInst>(x); return L && pf(L->getPointerOperand()) == "IndexHeader.async_queue_size"; }, 4);
                    }
                // a loop over the queue, or a helper's result
                if (!ok)
                    if (auto* CB = dyn_cast<CallBase>(ix))
                        if (auto* T = CB->getCalledFunction(); T && !T->isDeclaration()) {
                            ok = true;
                            for (auto& B : *T)
                                if (auto* Rt = dyn_cast<ReturnInst>(B.getTerminator())) {
                                    const Value* v = Rt->getReturnValue();
                                    while (auto* C = dyn_cast<CastInst>(v))
                                        v = C->getOperand(0);
                                    auto* Bo = dyn_cast<BinaryOperator>(v);
                                    ok = ok && Bo && Bo->getOpcode() == Instruction::URem;
                                }
                        }
                if (!ok && isa<PHINode>(ix)) // counted loop: bounded by the queue size
                    for (auto* U : ix->users())
                        if (auto* C = dyn_cast<ICmpInst>(U))
                            for (auto& O : C->operands())
                                ok = ok || flowsFrom(O, [](const Value* x) { auto* L = dyn_cast<LoadInst>(x); return L && pf(L->getPointerOperand()) == "IndexHeader.async_queue_size"; }, 4);
                if (!ok)
                    R.violation("slot-index", &I, P.q(F), "index", "selects a slot with an index that is not reduced modulo the queue size of the header");
            }
    }
    RegRule r3("C11", "slot-index", [](Report& R, bool) { slotIndex(R); });
}
}
