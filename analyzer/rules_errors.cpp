// C15: a storage operation that failed is reported, not dropped.
#include "rules_lib.h"
#include "llvm/Analysis/ValueTracking.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    const int64_t NOT_EXIST = 5, IN_DICT = 6, TRY_AGAIN = 13, RC_SKIPPED = 22, MMAP_FAILED = 7;
    Instruction* head(Function* F) { return &*F->getEntryBlock().begin(); }
    enum { LEN = 1,
        CODE = 2,
        PTR = 4,
        THROW = 8,
        BOOL = 16 };
    std::map<const Function*, int> fallible;
    std::set<const Function*> primitive;
    // the values a function returns to say that it failed; absent: any error
    struct Codes {
        bool any = false;
        std::set<int64_t> k;
        bool add(const Codes& o)
        {
            bool a = any;
            size_t n = k.size();
            any = any || o.any;
            k.insert(o.k.begin(), o.k.end());
            return a != any || n != k.size();
        }
    };
    std::map<const Function*, Codes> codes;
    // functions which answer a failure by something else than an error (DESIGN.md)
    bool exempt(const Function* F)
    {
        string q = P.q(F);
        for (auto n : { "Logger::", "HashMap", "Hash", "ResourceCollection::LRUEviction", "ResourceCollection::ProcessRCTree", 
                 "ResourceCollection::ExceptionRecovery", "AsyncWriter::ProcessTask", "DB::iterator::", "DB::RunStartupRebuild", "DB::PostDBUpdate", "DB::InDB",
                 "SeedCanonicalBoundariesAfterAdd", "seedFromCache", "NextEdgeFast" })
            if (contains(q, NS + n) || contains(q, string("::") + n))
                return true;
        return false;
    }
    // what a function returns to say that it failed
    string convention(const Function* F)
    {
        auto* T = F->getReturnType();
        if (T->isVoidTy())
            return "void";
        if (T->isPointerTy())
            return "ptr";
        if (T->isIntegerTy(1))
            return "bool";
        if (auto it = fallible.find(F); it != fallible.end() && (it->second & LEN))
            return "size";
        if (T->isIntegerTy(32))
            return "code";
        return "other";
    }
    struct Result {
        bool fails = false, throws_ = false, dropped = false, any = false;
        bool len = false, bools[2] = { false, false };
        Codes codes;
    };
    // F returns what this call returned
    bool returnsCall(Function* F, CallBase* site)
    {
        std::set<const Value*> seen;
        std::function<bool(Value*)> f = [&](Value* V) {
            if (!seen.insert(V).second)
                return false;
            if (V == site)
                return true;
            if (auto* K = dyn_cast<CastInst>(V))
                return f(K->getOperand(0));
            if (auto* S = dyn_cast<SelectInst>(V))
                return f(S->getOperand(1)) || f(S->getOperand(2));
            if (auto* N = dyn_cast<PHINode>(V))
                for (auto& U : N->incoming_values())
                    if (f(U))
                        return true;
            return false;
        };
        for (auto& I : instructions(*F))
            if (auto* T = dyn_cast<ReturnInst>(&I))
                if (T->getReturnValue() && f(T->getReturnValue()))
                    return true;
        return false;
    }
    std::set<const Function*> lastError;
    Result judge(Report& R, Function* F, CallBase* site, int how, const Codes& fc)
    {
        Result r;
        FC c(R);
        // one byte, or one piece, is asked for: there is no less than that but none
        bool one = !P.repo(site->getCalledFunction() ? site->getCalledFunction() : F);
        for (auto& U : site->args())
            if (auto* K = dyn_cast<ConstantInt>(U.get()))
                one = one || K->isOne();
        c.instEvent = [&](const Instruction&) { return false; };
        c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            if (&CB == site) {
                State f = s;
                f.q[0] = 1;
                summarised(E, CB, T, s, Itv(), out); // did not fail
                for (size_t i = 0; i < out.size(); i++)
                    if (out[i].unwind)
                        out.erase(out.begin() + i--);
                if (how == THROW) {
                    Exit u;
                    u.s = f;
                    u.unwind = true;
                    u.excType = "_ZTIi";
                    u.s.v["exc"] = u.excType;
                    out.push_back(u);
                } else {
                    if (how == LEN || how == PTR)
                        split(out, f, Itv::c(0));
                    if (how == LEN && P.repo(T)) {
                        split(out, f, Itv::c(-1));
                        if (!one) // less than was asked for
                            split(out, f, Itv::c(1));
                    }
                    for (auto k : fc.k)
                        if (how == CODE || how == BOOL)
                            split(out, f, Itv::c(k));
                    if (fc.any && how == CODE) {
                        Itv v = Itv::range(1, INT32_MAX);
                        for (int64_t k : { NOT_EXIST, IN_DICT, TRY_AGAIN, RC_SKIPPED })
                            v.ne.insert(k);
                        if (P.q(F) == NS + "RollableFile::RandomRead")
                            v.ne.insert(MMAP_FAILED); // the file is read instead
                        split(out, f, v);
                    }
                }
                return 1;
            }
            if (auto* D = CB.getCalledFunction(); s.q[0] && D && D->getName() == "feof" && site->getCalledFunction()->getName() == "fread") { // the read failed, it did not end
                split(out, s, Itv::c(0));
                return 1;
            }
            if (!T || T->isDeclaration() || !P.repo(T))
                return 0;
            // not in memory: read or written through the file instead, or left to the callee
            if (how == PTR && s.q[0] && contains(P.q(site->getCalledFunction()), "GetShmPtr")) {
                string q = P.q(T);
                bool given = contains(q, "::ReadData") || contains(q, "::WriteData") || contains(q, "::RandomRead") || contains(q, "::RandomWrite");
                for (auto& U : CB.args())
                    given = given || flowsFrom(U.get(), [&](const Value* v) {
                        if (auto* L = dyn_cast<LoadInst>(v))
                            for (auto* W : L->getPointerOperand()->users())
                                if (auto* S = dyn_cast<StoreInst>(W); S && S->getValueOperand() == site)
                                    return true;
                        return v == site;
                    });
                if (given)
                    s.q[0] = 0;
            }
            if (lastError.count(T)) {
                summarised(E, CB, T, s, Itv::range(1, INT32_MAX), out);
                return 1;
            }
            if (s.q[0] && (contains(P.q(T), "Logger::") || contains(P.q(T), "::~"))) {
                summarised(E, CB, T, s, Itv(), out);
                return 1;
            }
            summarised(E, CB, T, s, Itv(), out);
            return 1;
        };
        c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
            if (auto* L = dyn_cast<LoadInst>(&I))
                if (auto* B = dyn_cast<CallBase>(L->getPointerOperand()))
                    if (B->getCalledFunction() && B->getCalledFunction()->getName() == "__cxa_begin_catch")
                    {
                        Itv v = Itv::range(1, INT32_MAX);
                        v.ne.insert(RC_SKIPPED);
                        E.setFact(s, E.key(L, fr), v);
                    }
            if (s.q[0] && isa<StoreInst>(I) && storedField(I) == "DB.status")
                s.q[1] = E.itv(I.getOperand(0), fr, s).meet(Itv::c(0)).empty();
            // a read or write is asked for at least one byte
            if (how == LEN && s.q[0])
                if (auto* C = dyn_cast<ICmpInst>(&I))
                    for (int i = 0; i < 2; i++) {
                        auto* V = C->getOperand(i);
                        while (isa<CastInst>(V))
                            V = cast<CastInst>(V)->getOperand(0);
                        if (V == site && !isa<ConstantInt>(C->getOperand(1 - i))) {
                            auto* W = C->getOperand(1 - i);
                            while (true) {
                                E.setFact(s, E.key(W, fr), Itv::range(one ? 1 : 2, INT32_MAX));
                                auto* K = dyn_cast<CastInst>(W);
                                if (!K)
                                    break;
                                W = K->getOperand(0);
                            }
                        }
                    }
            return true;
        };
        auto ex = c.go(F, st({ 0, 0 }));
        string cv = convention(F);
        for (auto& e : ex)
            if (e.s.q[0]) {
                r.any = true;
                if (e.unwind) {
                    r.throws_ = true;
                    continue;
                }
                Itv v = e.ret;
                Itv z = v.meet(Itv::c(0));
                if (how == LEN && cv != "bool" && returnsCall(F, site) && (v.full() || (v.isConst() && v.lo >= -1 && v.lo <= 1)))
                    r.len = true;
                else if (cv == "bool") {
                    for (int b = 0; b < 2; b++)
                        r.bools[b] = r.bools[b] || !v.meet(Itv::c(b)).empty();
                } else if (cv == "code") {
                    if (v.isConst() && (v.lo == NOT_EXIST || v.lo == IN_DICT))
                        r.dropped = true;
                    else if (!z.empty())
                        r.dropped = true;
                    else {
                        r.fails = true;
                        if (v.isConst())
                            r.codes.k.insert(v.lo);
                        else
                            r.codes.any = true;
                    }
                } else if (cv == "ptr") {
                    if (v.isConst() && v.lo == 0)
                        r.fails = true;
                    else
                        r.dropped = true;
                } else if (cv == "size") {
                    if (v.isConst() && v.lo == 0)
                        r.fails = true;
                    else
                        r.dropped = true;
                } else if (cv == "void" && e.s.q[1])
                    r.fails = true;
                else
                    r.dropped = true;
            }
        if (r.bools[0] && r.bools[1])
            r.dropped = true;
        for (int b = 0; b < 2; b++)
            if (r.bools[b])
                r.codes.k.insert(b);
        return r;
    }
    // the operating system's answers
    void system(Report& R)
    {
        auto closed = [](const CallBase& CB) { return CB.getCalledFunction() && P.q(CB.getCalledFunction()) == NS + "FileIO::Close"; };
        for (auto* F : P.find(NS + "MmapFileIO::MmapFileIO"))
            for (auto& I : instructions(*F)) {
                auto* S = dyn_cast<CallBase>(&I);
                if (!S || !S->getCalledFunction())
                    continue;
                string n = P.q(S->getCalledFunction());
                if (n != NS + "FileIO::AllocateFile" && n != NS + "FileIO::TruncateFile")
                    continue;
                FC c(R);
                c.instEvent = [&](const Instruction&) { return false; };
                c.anyCall = [&](Engine& E, Frame&, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                    if (!T || T->isDeclaration() || !P.repo(T))
                        return 0;
                    if (&CB == S) {
                        s.q[0] = 1;
                        s.q[1] = 0;
                        split(out, s, Itv::range(1, INT32_MAX));
                        split(out, s, Itv::c(-1));
                        return 1;
                    }
                    if (closed(CB))
                        s.q[1] = 1;
                    summarised(E, CB, T, s, Itv(), out);
                    return 1;
                };
                R.oblige(P.q(F) + ": a file that could not be sized is not left open");
                for (auto& e : c.go(F, st({ 0, 0 })))
                    if (!e.unwind && e.s.q[0] && !e.s.q[1]) {
                        R.violation("sized", S, P.q(F), n, "a file whose space could not be had stays open as if it had it", {});
                        break;
                    }
            }
        for (auto* F : P.find(NS + "ResourcePool::OpenFileWithKey")) {
            FC c(R);
            c.instEvent = [&](const Instruction&) { return false; };
            bool bad = false;
            Instruction* at = head(F);
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (I.getOpcode() == Instruction::And)
                    if (auto* C = dyn_cast<ConstantInt>(I.getOperand(1)))
                        if (C->getSExtValue() == globalConst("mabain::CONSTS::MEMORY_ONLY_MODE"))
                            E.setFact(s, E.key(&I, fr), Itv::c(0));
                return true;
            };
            c.anyCall = [&](Engine& E, Frame&, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                if (!T)
                    return 0;
                string d = P.d(T);
                if (P.q(T) == NS + "FileIO::IsOpen") {
                    s.q[0] = 1;
                    split(out, s, Itv::c(0));
                    s.q[0] = 2;
                    split(out, s, Itv::c(1));
                    return 1;
                }
                if (contains(d, "unordered_map<") && (contains(d, "operator[]") || contains(d, "emplace") || contains(d, "insert")))
                    if (s.q[0] != 2)
                        bad = true, at = &CB;
                return 0;
            };
            c.go(F, st({ 0, 0 }));
            R.oblige(P.q(F) + ": a file that did not open is not handed out");
            if (bad)
                R.violation("opened", at, P.q(F), "pool", "a file that is not open is put in the pool of open files", {});
        }
        for (auto* F : P.find(NS + "FileIO::AllocateFile"))
            for (auto& I : instructions(*F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (CB->getCalledFunction() && (CB->getCalledFunction()->getName() == "ftruncate" || CB->getCalledFunction()->getName() == "fstat" || CB->getCalledFunction()->getName() == "ftruncate64")) {
                        Codes k;
                        k.k = { -1 };
                        R.oblige(P.q(F) + ": failure of " + CB->getCalledFunction()->getName().str());
                        if (judge(R, F, CB, CODE, k).dropped)
                            R.violation("reported", CB, P.q(F), CB->getCalledFunction()->getName().str(), "the file did not get its size, and success is returned", {});
                    }
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F)) {
                auto* CB = dyn_cast<CallBase>(&I);
                if (!CB || !CB->getCalledFunction() || !contains(P.q(F), "DBBackup"))
                    continue;
                string n = CB->getCalledFunction()->getName().str();
                Codes k;
                int how = 0;
                if (n == "fwrite" || n == "fread")
                    how = LEN;
                else if (n == "fopen" || n == "fopen64")
                    how = PTR;
                else if (n == "fclose") {
                    how = CODE;
                    k.k = { -1 };
                    bool w = false;
                    for (auto& J : instructions(*F))
                        if (auto* O = dyn_cast<CallBase>(&J))
                            if (O->getCalledFunction() && contains(O->getCalledFunction()->getName().str(), "fopen") && flowsFrom(CB->getArgOperand(0), [&](const Value* v) { return v == O; })) {
                                StringRef m;
                                w = w || !getConstantStringInfo(O->getArgOperand(1), m) || m.contains('w') || m.contains('+') || m.contains('a');
                            }
                    if (!w)
                        continue;
                } else
                    continue;
                R.oblige(P.q(F) + ": failure of " + n + " at " + Program::loc(CB));
                R.site(Program::loc(CB) + " " + n);
                Result r = judge(R, F, CB, how, k);
                if (r.dropped)
                    R.violation("reported", CB, P.q(F), n, "a failure of " + n + " can end in success", {});
                fallible[F] |= (r.fails && convention(F) == "code" ? CODE : 0) | (r.throws_ ? THROW : 0);
                codes[F].add(r.codes);
            }
    }
    void errors(Report& R)
    {
        fallible.clear();
        codes.clear();
        for (auto* F : P.find(NS + "RollableFile::GetLastAllocError")) {
            FC c(R);
            bool ok = true;
            for (auto& e : c.go(F, st({ 0 })))
                ok = ok && !e.unwind && e.ret.meet(Itv::c(0)).empty();
            R.oblige(P.q(F) + ": never success");
            if (!ok)
                R.violation("reported", head(F), P.q(F), "lastError", "the error of a failed allocation can be success", {});
            lastError.insert(F);
        }
        for (auto n : { "RollableFile::Reserve", "RollableFile::CheckAndOpenFile", "RollableFile::OpenAndMapBlockFile", "MBData::Resize" })
            for (auto* F : P.find(NS + n))
                fallible[F] = CODE, primitive.insert(F);
        for (auto n : { "DRMBase::ReadData", "RollableFile::RandomRead", "RollableFile::RandomWrite", "RollableFile::MemRead" })
            for (auto* F : P.find(NS + n))
                fallible[F] = LEN, primitive.insert(F);
        for (auto n : { "RollableFile::Malloc", "DRMBase::GetShmPtr" })
            for (auto* F : P.find(NS + n))
                fallible[F] = PTR, primitive.insert(F);
        for (auto* F : P.find(NS + "DB::PostDBUpdate"))
            fallible[F] = THROW;
        system(R);
        bool ch = true;
        for (auto* F : primitive)
            codes[F].any = true;
        std::set<std::tuple<const Function*, CallBase*, int, bool, std::set<int64_t>>> done;
        while (ch) {
            ch = false;
            for (auto* F : repoFunctions()) {
                if (exempt(F))
                    continue;
                string file = Program::loc(head(F));
                if (!contains(file, "src/") || contains(file, "unittest"))
                    continue;
                for (auto& I : instructions(*F)) {
                    auto* CB = dyn_cast<CallBase>(&I);
                    if (!CB)
                        continue;
                    int how = 0;
                    Codes fc;
                    for (auto* T : P.targets(CB)) {
                        if ((exempt(T) && P.q(T) != NS + "DB::PostDBUpdate") || contains(P.q(T), "::ReleaseBuffer"))
                            continue;
                        auto it = fallible.find(T);
                        if (it != fallible.end())
                            how |= it->second, fc.add(codes[T]);
                    }
                    for (int h : { LEN, CODE, PTR, THROW, BOOL }) {
                        bool coded = h == CODE || h == BOOL;
                        if (!(how & h) || !done.insert({ F, CB, h, coded && fc.any, coded ? fc.k : std::set<int64_t>() }).second)
                            continue;
                        Result r = judge(R, F, CB, h, fc);
                        string callee = CB->getCalledFunction() ? P.q(CB->getCalledFunction()) : "?";
                        if (getenv("SA_DBG"))
                            fprintf(stderr, "ERR %s %s <- %s how %d: any %d fails %d throws %d DROPPED %d conv %s\n", Program::loc(CB).c_str(), P.q(F).c_str(), callee.c_str(), h, r.any, r.fails, r.throws_, r.dropped, convention(F).c_str());
                        R.site(Program::loc(CB) + " " + callee);
                        R.oblige(P.q(F) + ": failure of " + callee + " at " + Program::loc(CB));
                        if (r.dropped)
                            R.violation("reported", CB, P.q(F), callee + "|" + std::to_string(h), "a failure of " + callee + " can end in success", {});
                        if (primitive.count(F))
                            continue;
                        int add = (r.fails && convention(F) == "code" ? CODE : 0) | (r.throws_ ? THROW : 0);
                        add |= (r.len ? LEN : 0) | ((r.bools[0] || r.bools[1]) ? BOOL : 0);
                        if (add & ~fallible[F]) {
                            fallible[F] |= add;
                            ch = true;
                        }
                        ch = codes[F].add(r.codes) || ch;
                    }
                }
            }
        }
    }
    RegRule r1("C15", "reported", [](Report& R, bool) { errors(R); });
}
}
