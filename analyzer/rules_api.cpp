// C10: a handle that is not open refuses everything and touches nothing.
// C14: failures reach the caller of the public API as return codes.
#include "rules_lib.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    bool isPublic(const Function* F)
    {
        auto* SP = F->getSubprogram();
        auto* D = SP ? SP->getDeclaration() : nullptr;
        return D && D->isPublic();
    }
    bool isStatic(const Function* F)
    {
        auto* SP = F->getSubprogram();
        auto* T = SP ? SP->getType() : nullptr;
        if (!T || T->getTypeArray().size() < 2)
            return true;
        auto* A = T->getTypeArray()[1];
        return !A || !A->isArtificial();
    }
    bool isCtor(const Function* F)
    {
        string q = P.q(F), c = cls(q);
        string last = c.substr(c.rfind("::") + 2);
        return endsWith(q, "::" + last) || contains(q, "::~");
    }
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F)
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    Instruction* head(Function* F) { return &*F->getEntryBlock().begin(); }
    std::vector<Function*> publicApi()
    {
        std::vector<Function*> r;
        for (auto* F : repoFunctions()) {
            string c = cls(P.q(F));
            if ((c == "mabain::DB" || c == "mabain::DB::iterator") && isPublic(F))
                r.push_back(F);
        }
        return r;
    }
    // ------------------------------------------------------------------ C14
    void noExc(Report& R)
    {
        auto roots = publicApi();
        for (auto* F : repoFunctions()) // thread entry points: an escaping exception ends the process
            for (auto& U : F->uses())
                if (auto* CB = dyn_cast<CallBase>(U.getUser()))
                    if (auto* T = CB->getCalledFunction(); T && T->getName() == "pthread_create" && CB->getArgOperand(2) == F)
                        roots.push_back(F);
        for (auto* F : roots) {
            R.functions.insert(P.q(F));
            R.oblige("C14 " + P.d(F) + ": no exception raised in the library escapes");
            for (auto& t : P.escapes(F)) {
                // describe one way to the throw
                std::set<const Function*> seen;
                string way;
                const Instruction* first = nullptr;
                const Function* G = F;
                while (G && seen.insert(G).second) {
                    const Function* N = nullptr;
                    for (auto& I : instructions(*G))
                        if (auto* CB = dyn_cast<CallBase>(&I)) {
                            auto* II = dyn_cast<InvokeInst>(CB);
                            if (II && P.caughtBy(II->getLandingPadInst(), t))
                                continue;
                            bool hit = false;
                            for (auto* T : P.targets(CB)) {
                                if (T->getName() == "__cxa_throw")
                                    hit = CB->getArgOperand(1)->stripPointerCasts()->getName() == t;
                                else if (P.escapes(T).count(t) && !seen.count(T)) {
                                    N = T;
                                    hit = true;
                                }
                            }
                            if (hit) {
                                way += " -> " + Program::loc(CB);
                                if (!first)
                                    first = CB;
                                break;
                            }
                        }
                    G = N;
                }
                R.violation("no-escape", first ? first : head(F), P.q(F), t, P.d(F) + ": an exception of type " + demangle(t) + " escapes", way);
            }
        }
    }
    // operations of the dictionary and what the API makes of their failure
    void codesReach(Report& R)
    {
        const int64_t ERRC = errv("READ_ERROR");
        const std::set<string> ops = { "Dict::Add", "Dict::Remove", "Dict::RemoveAll", "Dict::WriteData", "Dict::ReadDataByOffset", "Dict::SHMQ_Add", "Dict::SHMQ_Remove", "Dict::SHMQ_RemoveAll", "Dict::SHMQ_Backup", "Dict::SHMQ_CollectResource", "detail::SearchEngine::find", "detail::SearchEngine::findPrefix", "detail::SearchEngine::lowerBound", "AsyncWriter::AddWithLock", "DBBackup::Backup", "ResourceCollection::ReclaimResource" };
        int n = 0;
        for (auto* F : publicApi()) {
            if (isCtor(F) || isStatic(F) || !F->getReturnType()->isIntegerTy() || cls(P.q(F)) != NS + "DB")
                continue;
            FC c(R);
            bool used = false;
            auto op = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                used = true;
                R.site(Program::loc(&CB) + " " + P.q(T));
                State ok = s, bad = s;
                ok.q[0] = 0;
                bad.q[0] = 1;
                bool isInt = T->getReturnType()->isIntegerTy(32);
                split(out, ok, isInt ? Itv::c(0) : Itv());
                if (isInt)
                    split(out, bad, Itv::c(ERRC));
                for (auto& t : P.escapes(T))
                    if (t == "_ZTIi") {
                        Exit u;
                        u.s = s;
                        u.s.q[0] = 2;
                        u.unwind = true;
                        u.excType = t;
                        u.s.v["exc"] = t;
                        out.push_back(u);
                    }
                return 1;
            };
            for (auto& o : ops)
                c.calls[NS + o] = op;
            for (auto* f : { "Logger::Log", "MBError::get_error_str" }) // keep the caught value
                c.calls[NS + f] = [](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>&) {
                    s.v["nokill"] = "1";
                    return 1;
                };
            c.anyCall = [](Engine&, Frame&, CallBase&, Function* T, State& s, std::vector<Exit>&) {
                if (!T || T->getName() != "__cxa_end_catch")
                    return 0;
                s.v["nokill"] = "1";
                return 1;
            };
            c.instEvent = [](const Instruction& I) { return scalarHelper(I.getFunction()); };
            bool inDB = F->getReturnType()->isIntegerTy(1);
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (auto* L = dyn_cast<LoadInst>(&I); L && s.q[0] == 2 && L->getType()->isIntegerTy(32))
                    if (auto* S = dyn_cast<CallBase>(L->getPointerOperand()))
                        if (auto* T = S->getCalledFunction(); T && T->getName() == "__cxa_begin_catch")
                            E.setFact(s, E.key(L, fr), Itv::c(ERRC));
                if (inDB && !fr.parent)
                    if (auto* S = dyn_cast<StoreInst>(&I))
                        if (auto* A = dyn_cast<Argument>(S->getPointerOperand()); A && A->getType()->isPointerTy()) {
                            Itv i = E.itv(S->getValueOperand(), fr, s);
                            s.v["err"] = i.contains(0) ? "0" : "1";
                        }
                return true;
            };
            auto exits = c.go(F, st({ 0 }));
            if (!used)
                continue;
            n++;
            R.oblige("C14 " + P.d(F) + ": a failed operation is not reported as success");
            for (auto& e : exits) {
                if (getenv("SA_DBG")) fprintf(stderr, "%s unwind %d q %d ret %s key %s\n", P.q(F).c_str(), e.unwind, e.s.q[0], e.ret.str().c_str(), e.retKey.c_str());
                if (e.unwind || e.s.q[0] == 0)
                    continue;
                string how = e.s.q[0] == 1 ? "an operation that failed" : "an operation that raised an error";
                if (inDB ? (e.ret.contains(1) || e.s.get("err") != "1") : e.ret.contains(0))
                    R.violation("error-reported", head(F), P.q(F), e.s.q[0] == 1 ? "code dropped" : "exception dropped", P.d(F) + ": " + how + " is reported as success");
            }
        }
        if (n < 10)
            R.violation("error-reported", head(P.one(NS + "DB::InitDB")), "DB", "operations", "fewer public operations than expected reach the dictionary");
    }
    RegRule r1("C14", "no-escape", [](Report& R, bool) { noExc(R); });
    RegRule r2("C14", "error-reported", [](Report& R, bool) { codesReach(R); });
    // ------------------------------------------------------------------ C10
    bool isDictLoad(const Value* V)
    {
        auto* L = dyn_cast<LoadInst>(V);
        string f = L ? pf(L->getPointerOperand()) : "";
        return f == "DB.dict" || f == "DB.async_writer";
    }
    bool takesStatus(const Function* F) // helper that is given the status of a handle
    {
        static std::set<const Function*> set = [] {
            std::set<const Function*> r;
            for (auto* G : repoFunctions())
                for (auto& I : instructions(*G))
                    if (loadedField(I) == "DB.status")
                        for (auto* U : I.users())
                            if (auto* CB = dyn_cast<CallBase>(U))
                                for (auto* T : P.targets(CB))
                                    if (scalarHelper(T))
                                        r.insert(T);
            return r;
        }();
        return set.count(F) > 0;
    }
    // scenario 0: closed or never opened (no dictionary); 1: opening failed half way
    void notOpen(Report& R, int scenario)
    {
        for (auto* F : publicApi()) {
            string q = P.q(F);
            if (isStatic(F) || (isCtor(F) && cls(q) == NS + "DB") || q == NS + "DB::Close" || q == NS + "DB::operator=")
                continue;
            FC c(R);
            bool used = false; // this function works on the dictionary of an open handle
            for (auto* G : P.reachable(F))
                for (auto& I : instructions(*G))
                    if (isDictLoad(&I))
                        used = true;
            for (auto& I : instructions(*F))
                if (isDictLoad(&I))
                    used = true;
            c.instEvent = [&](const Instruction& I) {
                return takesStatus(I.getFunction()) || isDictLoad(&I) || loadedField(I) == "DB.status" || loadedField(I) == "MBLock.mb_lock_ptr";
            };
            c.opaqueFn = [](const Function* T) { return contains(P.q(T), "Logger::"); };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (loadedField(I) == "DB.status") {
                    Itv nz;
                    nz.ne.insert(0);
                    E.setFact(s, E.key(&I, fr), nz);
                }
                if (loadedField(I) == "MBLock.mb_lock_ptr" && scenario == 0)
                    E.setFact(s, E.key(&I, fr), Itv::c(0));
                if (isDictLoad(&I)) {
                    R.site(Program::loc(&I) + " load of " + loadedField(I));
                    E.setFact(s, E.key(&I, fr), scenario == 0 ? Itv::c(0) : Itv::range(1, INT64_MAX));
                }
                auto deref = [&](const Value* V, const char* how) {
                    Frame* g = &fr;
                    const Value* W = resolveArg(V, g);
                    if (auto* G = dyn_cast<GEPOperator>(W)) {
                        W = G->getPointerOperand();
                        W = resolveArg(W, g);
                    }
                    if (!isDictLoad(W))
                        return;
                    if (scenario == 0)
                        R.violation("not-open", &I, P.q(fr.F), P.q(F) + " " + loadedField(cast<Instruction>(*W)), P.d(F) + " on a handle that is not open " + how + " " + loadedField(cast<Instruction>(*W)) + ", which is null", fr.stack());
                };
                if (auto* L = dyn_cast<LoadInst>(&I))
                    deref(L->getPointerOperand(), "reads through");
                if (auto* S = dyn_cast<StoreInst>(&I))
                    deref(S->getPointerOperand(), "writes through");
                if (auto* CB = dyn_cast<CallBase>(&I))
                    for (unsigned i = 0; i < CB->arg_size(); i++)
                        if (CB->getArgOperand(i)->getType()->isPointerTy()) {
                            // references and "this" must not be null
                            if (CB->paramHasAttr(i, Attribute::NonNull) || CB->getParamDereferenceableBytes(i))
                                deref(CB->getArgOperand(i), "uses");
                            else if (i == 0)
                                if (auto* T = CB->getCalledFunction(); T && P.repo(T) && T->getSubprogram() && !isStatic(T) && cls(P.q(T)) != "")
                                    deref(CB->getArgOperand(i), "uses");
                        }
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction(); T && (startsWith(T->getName().str(), "pthread_mutex"))) {
                        Frame* g = &fr;
                        const Value* W = resolveArg(CB->getArgOperand(0), g);
                        if (isa<Instruction>(W) && loadedField(cast<Instruction>(*W)) == "MBLock.mb_lock_ptr" && scenario == 0)
                            R.violation("not-open", &I, P.q(fr.F), "lock", P.d(F) + " on a closed handle locks the mutex of the unmapped header", fr.stack());
                    }
                if (q == NS + "DB::InDB" && !fr.parent) {
                    if (auto* S = dyn_cast<StoreInst>(&I))
                        if (S->getPointerOperand() == F->getArg(F->arg_size() - 1))
                            s.v["err"] = E.itv(S->getValueOperand(), fr, s).contains(0) ? "0" : "1";
                }
                return true;
            };
            if (q == NS + "DB::InDB")
                c.enterFn = [&](Engine& E, Frame& fr, State& s) {
                    if (fr.parent || fr.F != F)
                        return;
                    Itv nz;
                    nz.ne.insert(0);
                    E.setFact(s, E.key(F->getArg(1), fr), nz);
                    E.setFact(s, E.key(F->getArg(2), fr), Itv::range(1, 255));
                };
            auto exits = c.go(F, st({}));
            if (scenario == 0)
                R.oblige("C10 " + P.d(F) + ": does not use the dictionary of a handle that is not open");
            if (scenario == 1 && q == NS + "DB::UpdateNumHandlers")
                continue;
            if (!used || cls(q) != NS + "DB")
                continue;
            auto* T = F->getReturnType();
            for (auto& e : exits) {
                if (e.unwind)
                    continue;
                string bad;
                if (T->isIntegerTy(1)) {
                    if (e.ret.contains(1))
                        bad = "returns true";
                    else if (q == NS + "DB::InDB" && e.s.get("err") != "1")
                        bad = "reports no error";
                } else if (T->isIntegerTy(32)) {
                    if (e.ret.contains(0))
                        bad = "may return SUCCESS";
                } else if (T->isIntegerTy(64)) {
                    if (contains(q, "Count") || contains(q, "Size"))
                        if (e.ret.hi >= 0)
                            bad = "may return a count";
                } else if (T->isPointerTy() && q != NS + "DB::GetDictPtr" && e.ret.hi != 0)
                    bad = "may return a pointer";
                if (!bad.empty())
                    R.violation("refused", head(F), q, bad, P.d(F) + " on a handle that is not open " + bad);
            }
            R.oblige("C10 " + P.d(F) + ": refuses a handle that is not open");
        }
    }
    // Close: what it destroys is forgotten, the handle counts as closed, a second Close is harmless
    void closeForgets(Report& R)
    {
        const int64_t CLOSED = errv("DB_CLOSED");
        auto* F = P.one(NS + "DB::Close");
        FC c(R);
        // q0: dictionary 0 as it was, 1 destroyed, 2 forgotten; q1: async writer likewise;
        // q2: status stored as closed; q3: the lock forgot the mutex
        auto bad = [&](const Instruction* I, Frame& fr, const string& d, const string& m) { R.violation("close", I, P.q(fr.F), d, m, fr.stack()); };
        auto kill = [&](int i) {
            return [&, i](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                if (s.q[i] == 1)
                    bad(&CB, fr, "twice", "destroyed twice");
                s.q[i] = 1;
                R.site(Program::loc(&CB) + " destroyed");
                s.v["nokill"] = "1";
                return 1;
            };
        };
        c.calls[NS + "Dict::~Dict"] = kill(0);
        c.calls[NS + "AsyncWriter::~AsyncWriter"] = kill(1);
        c.calls[NS + "MBLock::Init"] = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
            s.q[3] = E.itv(CB.getArgOperand(1), fr, s).isConst() ? 1 : 0;
            s.v["nokill"] = "1";
            return 1;
        };
        c.instEvent = [](const Instruction& I) {
            string f = storedField(I);
            return f == "DB.dict" || f == "DB.async_writer" || f == "DB.status" || f == "MBLock.mb_lock_ptr" || isDictLoad(&I);
        };
        c.opaqueFn = [](const Function* T) { return contains(P.q(T), "Logger::"); };
        c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
            string f = storedField(I);
            if (f == "DB.dict" || f == "DB.async_writer") {
                int i = f == "DB.dict" ? 0 : 1;
                s.q[i] = isa<ConstantPointerNull>(storedValue(I)) ? 2 : 0;
            }
            if (f == "MBLock.mb_lock_ptr")
                s.q[3] = isa<ConstantPointerNull>(storedValue(I)) ? 1 : 0;
            if (f == "DB.status") {
                Itv i = E.itv(storedValue(I), fr, s);
                s.q[2] = i.isConst() && i.lo == CLOSED;
            }
            if (auto* CB = dyn_cast<CallBase>(&I))
                if (auto* T = CB->getCalledFunction(); T && P.repo(T) && !CB->arg_empty()) {
                    Frame* g = &fr;
                    const Value* W = resolveArg(CB->getArgOperand(0), g);
                    if (isDictLoad(W)) {
                        int i = loadedField(*cast<Instruction>(W)) == "DB.dict" ? 0 : 1;
                        if (s.q[i] == 1 && !contains(P.q(T), "::~"))
                            bad(&I, fr, "use after destruction", P.q(T) + " called on a destroyed object");
                        if (s.q[i] == 2)
                            bad(&I, fr, "null", P.q(T) + " called on a null pointer");
                    }
                }
            return true;
        };
        for (auto& e : c.go(F, st({ 0, 0, 0, 0 }))) {
            if (e.unwind)
                continue;
            if (e.s.q[0] == 1)
                bad(head(F), *std::make_unique<Frame>(Frame { F, {} }), "dict kept", "Close leaves the pointer to the destroyed dictionary in the handle");
            if (e.s.q[1] == 1)
                bad(head(F), *std::make_unique<Frame>(Frame { F, {} }), "async kept", "Close leaves the pointer to the destroyed async writer in the handle");
            if (!e.s.q[2])
                bad(head(F), *std::make_unique<Frame>(Frame { F, {} }), "status", "Close can return without marking the handle closed");
            if (e.s.q[0] && !e.s.q[3])
                bad(head(F), *std::make_unique<Frame>(Frame { F, {} }), "mutex kept", "Close leaves the pointer to the mutex in the unmapped header");
        }
        R.oblige("C10 DB::Close: destroyed members are forgotten and the handle is marked closed on every path");
    }
    RegRule r4("C10", "close", [](Report& R, bool) { closeForgets(R); });
    RegRule r3("C10", "not-open", [](Report& R, bool) {
        notOpen(R, 0);
        notOpen(R, 1);
    });
}
}
