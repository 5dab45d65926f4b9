// C12: whatever an operation takes (descriptor, stream, directory, mapping, heap block,
// mutex, file lock) it gives back, hands over, or keeps in an object that gives it back.
#include "rules_lib.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    Instruction* head(Function* F) { return &*F->getEntryBlock().begin(); }
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F)
                break;
            if (A->getArgNo() >= fr->site->arg_size())
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    enum Kind { FD,
        STREAM,
        DIRECTORY,
        MAP,
        HEAP,
        OBJ,
        MUTEX,
        FLOCK,
        NKIND };
    const char* kname[] = { "descriptor", "stream", "directory stream", "mapping", "heap block", "object", "mutex", "file lock" };
    int acquires(const CallBase* CB)
    {
        auto* T = CB->getCalledFunction();
        if (!T)
            return -1;
        string n = T->getName().str();
        if (n == "open" || n == "open64" || n == "openat" || n == "creat" || n == "dup" || n == "shm_open" || n == "socket" || n == "mkstemp")
            return FD;
        if (n == "fopen" || n == "fopen64" || n == "fdopen" || n == "popen")
            return STREAM;
        if (n == "opendir")
            return DIRECTORY;
        if (n == "mmap" || n == "mmap64")
            return MAP;
        if (n == "malloc" || n == "calloc" || n == "strdup" || n == "aligned_alloc")
            return HEAP;
        if (n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t")
            return OBJ;
        if (n == "pthread_mutex_lock" || n == "pthread_mutex_trylock" || n == "pthread_mutex_timedlock")
            return MUTEX;
        if (n == "flock" && CB->arg_size() > 1) {
            auto* C = dyn_cast<ConstantInt>(CB->getArgOperand(1));
            return C && (C->getZExtValue() & 8) ? -1 : FLOCK; // LOCK_UN is 8
        }
        return -1;
    }
    int releases(const CallBase* CB)
    {
        auto* T = CB->getCalledFunction();
        if (!T)
            return -1;
        string n = T->getName().str();
        if (n == "close")
            return FD;
        if (n == "fclose" || n == "pclose")
            return STREAM;
        if (n == "closedir")
            return DIRECTORY;
        if (n == "munmap")
            return MAP;
        if (n == "free" || n == "realloc")
            return HEAP;
        if (startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv"))
            return OBJ;
        if (n == "pthread_mutex_unlock")
            return MUTEX;
        if (n == "flock" && CB->arg_size() > 1) {
            auto* C = dyn_cast<ConstantInt>(CB->getArgOperand(1));
            return C && (C->getZExtValue() & 8) ? FLOCK : -1;
        }
        return -1;
    }
    bool hasRelease(const Function* F, int k)
    {
        static std::map<std::pair<const Function*, int>, bool> m;
        auto key = std::make_pair(F, k);
        auto it = m.find(key);
        if (it != m.end())
            return it->second;
        bool r = false;
        for (auto& I : instructions(*F))
            if (auto* CB = dyn_cast<CallBase>(&I))
                if (releases(CB) == k)
                    r = true;
        return m[key] = r;
    }
    bool reachesRelease(const Function* F, int k)
    {
        static std::map<std::pair<const Function*, int>, bool> m;
        auto key = std::make_pair(F, k);
        auto it = m.find(key);
        if (it != m.end())
            return it->second;
        bool r = hasRelease(F, k);
        if (!r)
            for (auto* G : P.reachable(F))
                if (P.repo(G) && hasRelease(G, k)) {
                    r = true;
                    break;
                }
        return m[key] = r;
    }
    // may T keep its i-th argument (store it somewhere that outlives the call)?
    bool captures(const Function* T, unsigned i, int d = 0)
    {
        static std::map<std::pair<const Function*, unsigned>, bool> memo;
        auto key = std::make_pair(T, i);
        auto it = memo.find(key);
        if (it != memo.end())
            return it->second;
        memo[key] = false;
        if (T->isDeclaration() || d > 6 || i >= T->arg_size())
            return memo[key] = T->isDeclaration() && startsWith(T->getName().str(), "_Z");
        std::set<const Value*> seen;
        std::vector<const Value*> wl { T->getArg(i) };
        while (!wl.empty()) {
            auto* V = wl.back();
            wl.pop_back();
            if (!seen.insert(V).second)
                continue;
            for (auto* U : V->users()) {
                if (isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U))
                    wl.push_back(U);
                else if (auto* S = dyn_cast<StoreInst>(U)) {
                    if (S->getValueOperand() == V) {
                        auto* B = S->getPointerOperand()->stripPointerCasts();
                        if (isa<AllocaInst>(B)) {
                            for (auto* L : B->users())
                                if (isa<LoadInst>(L))
                                    wl.push_back(L);
                        } else
                            return memo[key] = true;
                    }
                } else if (auto* CB = dyn_cast<CallBase>(U)) {
                    auto* C = CB->getCalledFunction();
                    for (unsigned j = 0; j < CB->arg_size(); j++)
                        if (CB->getArgOperand(j) == V && C && captures(C, j, d + 1))
                            return memo[key] = true;
                } else if (isa<ReturnInst>(U))
                    return memo[key] = true;
            }
        }
        return false;
    }
    // functions that hand a resource to their caller: as a returned value, or (locks) by returning with it held
    std::map<const Function*, std::map<int, Itv>> giver;
    // fields that keep a resource: where it is stored
    std::map<std::pair<const CallBase*, int>, std::map<string, const Instruction*>> kept;
    const Value* baseOf(const Value* V, Frame*& fr)
    {
        for (int d = 0; d < 12; d++) {
            V = resolveArg(V, fr);
            if (auto* G = dyn_cast<GEPOperator>(V))
                V = G->getPointerOperand();
            else if (auto* C = dyn_cast<CastInst>(V))
                V = C->getOperand(0);
            else if (auto* CB = dyn_cast<CallBase>(V); CB && CB->getCalledFunction() && startsWith(CB->getCalledFunction()->getName().str(), "mb.f0."))
                V = CB->getArgOperand(0);
            else
                break;
        }
        return V;
    }
    string id(const Value* V) { return std::to_string((size_t)V); }
    bool isRes(Engine& E, const Value* V, Frame& fr0, const State& s, const CallBase* site, int d = 0)
    {
        Frame* fr = &fr0;
        V = resolveArg(V, fr);
        if (d > 10)
            return false;
        if (V == site)
            return true;
        if (auto* C = dyn_cast<CastInst>(V))
            return isRes(E, C->getOperand(0), *fr, s, site, d + 1);
        if (isa<PHINode>(V))
            return s.get("p" + id(V)) == "1";
        if (auto* S = dyn_cast<SelectInst>(V)) {
            Itv c = E.itv(S->getCondition(), *fr, s);
            if (c.isConst())
                return isRes(E, c.lo ? S->getTrueValue() : S->getFalseValue(), *fr, s, site, d + 1);
            return isRes(E, S->getTrueValue(), *fr, s, site, d + 1) || isRes(E, S->getFalseValue(), *fr, s, site, d + 1);
        }
        if (auto* G = dyn_cast<GEPOperator>(V))
            return isRes(E, G->getPointerOperand(), *fr, s, site, d + 1);
        if (auto* L = dyn_cast<LoadInst>(V)) {
            Frame* g = fr;
            auto* B = baseOf(L->getPointerOperand(), g);
            return isa<AllocaInst>(B) && s.get("in" + id(B)) == "1";
        }
        return false;
    }
    string mutexName(const Value* V, Frame& fr)
    {
        Frame* f = &fr;
        V = resolveArg(V, f);
        string p = pf(V);
        if (!p.empty())
            return p;
        if (auto* L = dyn_cast<LoadInst>(V))
            return "*" + pf(L->getPointerOperand());
        return "?";
    }
    bool whole(const Value* V, Frame* fr, const CallBase* site, int d = 0)
    {
        V = resolveArg(V, fr);
        if (V == site)
            return true;
        if (d > 8)
            return false;
        if (auto* C = dyn_cast<CastInst>(V))
            return whole(C->getOperand(0), fr, site, d + 1);
        return false;
    }
    // the field a value was loaded from
    string fromField(const Value* V, Frame* fr, int d = 0)
    {
        if (fr)
            V = resolveArg(V, fr);
        if (d > 8)
            return "";
        if (auto* C = dyn_cast<CastInst>(V))
            return fromField(C->getOperand(0), fr, d + 1);
        if (auto* L = dyn_cast<LoadInst>(V))
            return pf(L->getPointerOperand());
        if (auto* PN = dyn_cast<PHINode>(V)) {
            for (auto& u : PN->incoming_values()) {
                string f = fromField(u, fr, d + 1);
                if (!f.empty())
                    return f;
            }
        }
        return "";
    }
    // V is the descriptor that is (un)locked in this function
    bool locked(const Value* V)
    {
        for (auto* U : V->users())
            if (auto* CB = dyn_cast<CallBase>(U))
                if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "flock" && CB->getArgOperand(0) == V)
                    return true;
        return false;
    }
    void judge(Report& R, Function* F, CallBase* site, int kind, bool viaGiver, bool final, bool& gives, Itv& giveItv)
    {
        FC c(R);
        bool lockKind = kind == MUTEX || kind == FLOCK;
        bool anyRelease = false, held = false, lost = false;
        auto bad = [&](const Instruction* I, Frame& fr, const string& d, const string& m) {
            if (final)
                R.violation("released", I, P.q(F), string(kname[kind]) + "|" + d, string("the ") + kname[kind] + " taken at " + Program::loc(site) + " " + m, fr.stack());
        };
        c.instEvent = [&](const Instruction& I) {
            if (auto* CB = dyn_cast<CallBase>(&I))
                return releases(CB) == kind;
            return false;
        };
        c.opaqueFn = [&](const Function* T) { return contains(P.q(T), "Logger::"); };
        string mname;
        auto keptIn = [&](const Value* V, Frame& fr, const State& s) {
            string f = fromField(V, &fr);
            return !f.empty() && f == s.get("fld");
        };
        c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            if (&CB == site && !fr.parent) {
                if (lockKind) {
                    mname = kind == MUTEX && !viaGiver ? mutexName(CB.getArgOperand(0), fr) : "";
                    if (s.q[0])
                        bad(&CB, fr, "twice", "is taken again while it is held");
                } else if (s.q[0] == 1)
                    bad(&CB, fr, "overwritten", "is taken again before the previous one was given back");
                State no = s, ok = s;
                for (auto it = ok.v.begin(); it != ok.v.end();)
                    if (startsWith(it->first, "in") || startsWith(it->first, "p"))
                        it = ok.v.erase(it);
                    else
                        ++it;
                ok.q[0] = 1;
                Itv yes = Itv::range(1, INT64_MAX), fail = Itv::c(0);
                if (viaGiver) {
                    yes = giveItv;
                    fail = Itv();
                    if (kind == FD)
                        fail = Itv::range(INT32_MIN, -1), yes = Itv::range(0, INT32_MAX);
                    else if (!lockKind)
                        fail = Itv::c(0), yes = Itv::range(1, INT64_MAX);
                    else if (yes.isConst())
                        fail.ne.insert(yes.lo);
                } else if (kind == FD)
                    yes = Itv::range(0, INT32_MAX), fail = Itv::c(-1);
                else if (lockKind)
                    yes = Itv::c(0), fail = Itv::range(kind == FLOCK ? -1 : 1, kind == FLOCK ? -1 : 200);
                else if (kind == MAP)
                    fail = Itv::c(-1);
                split(out, ok, yes);
                if (!(viaGiver && lockKind && giveItv.full()) && !(kind == OBJ && !viaGiver))
                    split(out, no, fail);
                return 1;
            }
            if (!T)
                return 0;
            // the object that owns the locked descriptor is there while the lock is held
            if (kind == FLOCK && s.q[0] && (contains(P.d(T), "shared_ptr") || contains(P.d(T), "unique_ptr")) && CB.getType()->isIntegerTy(1)) {
                string d = P.d(T);
                bool ne = contains(d, "operator!=") || contains(d, "operator bool"), eq = contains(d, "operator==");
                if ((ne || eq) && contains(d, "FileIO")) {
                    s.v["nokill"] = "1";
                    split(out, s, Itv::c(ne ? 1 : 0));
                    return 1;
                }
            }
            int rk = releases(&CB);
            bool arg = false;
            for (unsigned i = 0; i < CB.arg_size(); i++)
                if (isRes(E, CB.getArgOperand(i), fr, s, site) || (s.q[0] == 2 && keptIn(CB.getArgOperand(i), fr, s)))
                    arg = true;
            if (rk == kind || (kind == FLOCK && rk == FD)) {
                bool ours = lockKind ? (kind == FLOCK && rk == FLOCK) || (kind == MUTEX && (mname.empty() || mname == "?" || mutexName(CB.getArgOperand(0), fr) == mname || startsWith(mutexName(CB.getArgOperand(0), fr), "*") || mutexName(CB.getArgOperand(0), fr) == "?")) : arg;
                s.v["nokill"] = "1";
                if (ours) {
                    anyRelease = true;
                    s.q[0] = 0;
                    s.v.erase("fld");
                }
                return 1;
            }
            if (T->getName() == "pthread_mutex_consistent") {
                s.v["nokill"] = "1";
                split(out, s, Itv::c(0));
                return 1;
            }
            if (T->isDeclaration() || !P.repo(T)) {
                if (!lockKind)
                    for (unsigned i = 0; i < CB.arg_size(); i++)
                        if (s.q[0] == 1 && isRes(E, CB.getArgOperand(i), fr, s, site)) {
                            string d = P.d(T);
                            if (startsWith(T->getName().str(), "_Z") && !contains(d, "basic_string") && !contains(d, "basic_ostream") && !contains(d, "std::move"))
                                s.q[0] = 0; // handed to an owner (shared_ptr and the like)
                        }
                return 0;
            }
            // repository functions
            if (lockKind) {
                if (!reachesRelease(T, kind)) {
                    summarised(E, CB, T, s, Itv(), out);
                    return 1;
                }
                return 0;
            }
            bool ref = arg;
            for (unsigned i = 0; i < CB.arg_size() && !ref; i++) {
                Frame* g = &fr;
                auto* B = baseOf(CB.getArgOperand(i), g);
                if (isa<AllocaInst>(B) && s.get("in" + id(B)) == "1")
                    ref = true;
            }
            if (ref && s.q[0] == 1) {
                if (!reachesRelease(T, kind)) {
                    for (unsigned i = 0; i < CB.arg_size(); i++)
                        if (isRes(E, CB.getArgOperand(i), fr, s, site) && captures(T, i)) {
                            bool ctor = false;
                            string q = P.q(T), last = q.substr(q.rfind("::") + 2), cl = cls(q);
                            ctor = kind == OBJ && i == 0 && endsWith(cl, "::" + last); // the object itself
                            if (!ctor)
                                s.q[0] = 0;
                        }
                    State copy = s;
                    summarised(E, CB, T, copy, Itv(), out);
                    return 1;
                }
                if (kind == OBJ && arg && isRes(E, CB.getArgOperand(0), fr, s, site)) { // methods of the object
                    summarised(E, CB, T, s, Itv(), out);
                    return 1;
                }
                return 0;
            }
            summarised(E, CB, T, s, Itv(), out);
            return 1;
        };
        c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
            if (auto* C = dyn_cast<ICmpInst>(&I); C && kind == FLOCK && s.q[0] && C->getOperand(0)->getType()->isIntegerTy(32) && isa<ConstantInt>(C->getOperand(1)) && locked(C->getOperand(0))) {
                Frame* g = &fr; // the descriptor is valid while it is locked
                auto* V = resolveArg(C->getOperand(0), g);
                E.setFact(s, E.key(V, *g), Itv::range(0, INT32_MAX));
            }
            if (lockKind)
                return true;
            if (auto* L = dyn_cast<LoadInst>(&I); L && s.q[0] == 1 && isRes(E, L, fr, s, site) && (L->getType()->isPointerTy() || L->getType()->isIntegerTy(32)))
                E.setFact(s, E.key(L, fr), kind == FD ? Itv::range(0, INT32_MAX) : Itv::range(1, INT64_MAX));
            if (auto* S = dyn_cast<StoreInst>(&I)) {
                Frame* g = &fr;
                auto* B = baseOf(S->getPointerOperand(), g);
                if (isRes(E, S->getValueOperand(), fr, s, site)) {
                    if (isa<AllocaInst>(B))
                        s.v["in" + id(B)] = "1";
                    else if (!(kind == OBJ && isRes(E, B, *g, s, site)))
                    {
                        string fld = pf(S->getPointerOperand());
                        if (s.q[0] == 1) { // kept in an object
                            s.q[0] = whole(S->getValueOperand(), &fr, site) && !fld.empty() && kind != FLOCK && kind != MUTEX ? 2 : 0;
                            if (s.q[0])
                                s.v["fld"] = fld;
                        }
                        if (!fld.empty())
                            kept[{ site, kind }][fld] = S;
                    }
                } else if (s.q[0] == 2 && !pf(S->getPointerOperand()).empty() && pf(S->getPointerOperand()) == s.get("fld") && (kind == FD || kind == MAP || kind == STREAM)) {
                    bad(&I, fr, "dropped", "and kept in " + s.get("fld") + " is overwritten there before it is given back");
                    s.q[0] = 0;
                } else if (isa<AllocaInst>(B) && B == S->getPointerOperand())
                    s.v.erase("in" + id(B));
            }
            if (auto* Rt = dyn_cast<ReturnInst>(&I))
                if (!fr.parent && Rt->getReturnValue() && s.q[0] == 1 && isRes(E, Rt->getReturnValue(), fr, s, site)) {
                    Itv v = E.itv(Rt->getReturnValue(), fr, s);
                    if (!v.isConst()) {
                        gives = true;
                        s.q[0] = 0;
                    }
                }
            return true;
        };
        c.edgeFn = [&](Engine& E, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) {
            if (lockKind)
                return;
            std::vector<std::pair<string, bool>> up;
            for (auto& J : *B) {
                auto* PN = dyn_cast<PHINode>(&J);
                if (!PN)
                    break;
                int ix = PN->getBasicBlockIndex(I.getParent());
                if (ix >= 0)
                    up.push_back({ "p" + id(PN), isRes(E, PN->getIncomingValue(ix), fr, s, site) });
            }
            for (auto& u : up)
                if (u.second)
                    s.v[u.first] = "1";
                else
                    s.v.erase(u.first);
        };
        c.leaveFn = [&](Engine& E, Frame& fr, Exit& e) {
            if (!fr.parent)
                return;
            for (auto& I : instructions(*fr.F))
                if (isa<PHINode>(&I))
                    e.s.v.erase("p" + id(&I));
                else if (isa<AllocaInst>(&I))
                    e.s.v.erase("in" + id(&I));
        };
        auto ex = c.go(F, st({ 0 }));
        Frame f0 { F, {} };
        bool first = true;
        for (auto& e : ex)
            if (e.s.q[0] == 1) {
                if (e.unwind)
                    lost = true;
                else {
                    held = true;
                    if (first)
                        giveItv = e.ret;
                    else if (!(giveItv.isConst() && e.ret.isConst() && giveItv.lo == e.ret.lo))
                        giveItv = Itv();
                    first = false;
                }
            }
        if (getenv("SA_DBG"))
            fprintf(stderr, "REL %s %s held %d lost %d gives %d rel %d\n", P.q(F).c_str(), Program::loc(site).c_str(), held, lost, gives, anyRelease);
        if (lost)
            bad(site, f0, "exception", "is not given back when an exception leaves the function");
        if (held) {
            if (lockKind && !anyRelease)
                gives = true; // a function that locks for its caller
            else
                bad(site, f0, "kept", "is not given back on every path to the end of the function");
        }
    }
    void released(Report& R)
    {
        P.one(NS + "DB::InitDB");
        struct Site {
            Function* F;
            CallBase* CB;
            int kind;
        };
        std::vector<Site> direct;
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F))
                if (auto* CB = dyn_cast<CallBase>(&I)) {
                    int k = acquires(CB);
                    if (k >= 0)
                        direct.push_back({ F, CB, k });
                }
        giver.clear();
        kept.clear();
        auto note = [&](const Site& s) {
            R.site(Program::loc(s.CB) + " " + kname[s.kind]);
            R.oblige(P.d(s.F) + ": " + kname[s.kind] + " taken at " + Program::loc(s.CB));
        };
        std::set<std::pair<const Function*, int>> todo;
        for (auto& s : direct) {
            bool g = false;
            Itv gi;
            note(s);
            judge(R, s.F, s.CB, s.kind, false, true, g, gi);
            if (g) {
                giver[s.F][s.kind] = gi;
                todo.insert({ s.F, s.kind });
            }
        }
        std::set<std::pair<const Function*, int>> done;
        while (!todo.empty()) {
            auto t = *todo.begin();
            todo.erase(todo.begin());
            if (!done.insert(t).second)
                continue;
            if (t.second == FLOCK && false)
                continue;
            for (auto* G : callersOf(t.first)) {
                auto* F = const_cast<Function*>(G);
                if (!P.repo(F))
                    continue;
                if (t.second == FLOCK && contains(P.q(F), "BeginReaderEpochGuard"))
                    continue; // hands the lock out as a guard token: judged by C05
                for (auto& I : instructions(*F))
                    if (auto* CB = dyn_cast<CallBase>(&I)) {
                        bool is = false;
                        for (auto* T : P.targets(CB))
                            is = is || T == t.first;
                        if (!is)
                            continue;
                        bool g = false;
                        Itv gi = giver[t.first][t.second];
                        Site s { F, CB, t.second };
                        note(s);
                        judge(R, F, CB, t.second, true, true, g, gi);
                        if (g) {
                            giver[F][t.second] = gi;
                            todo.insert({ F, t.second });
                        }
                    }
            }
        }
    }
    bool isDtor(const Function* F)
    {
        return contains(P.q(F), "::~");
    }
    // does F hand field `fld` to a release of kind k (itself or through a function it passes it to)?
    bool freesField(const Function* F, const string& fld, int k)
    {
        for (auto& I : instructions(*F))
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                bool rel = releases(CB) == k;
                for (auto* T : P.targets(CB))
                    rel = rel || (P.repo(T) && !T->isDeclaration() && (k == OBJ ? endsWith(T->getName().str(), "D0Ev") : reachesRelease(T, k)));
                if (rel)
                    for (unsigned i = 0; i < CB->arg_size(); i++)
                        if (fromField(CB->getArgOperand(i), nullptr) == fld || (k == FD && pf(CB->getArgOperand(i)) == fld))
                            return true;
            }
        return false;
    }
    void owned(Report& R)
    {
        std::set<const Function*> fromDtor;
        std::vector<Function*> dtors;
        for (auto* F : repoFunctions())
            if (isDtor(F)) {
                dtors.push_back(F);
                fromDtor.insert(F);
                for (auto* G : P.reachable(F))
                    fromDtor.insert(G);
            }
        for (auto* F : repoFunctions())
            for (auto* U : F->users()) // call-backs given to containers
                if (auto* CB = dyn_cast<CallBase>(U); CB && CB->getCalledOperand() != F) {
                    fromDtor.insert(F);
                    for (auto* G : P.reachable(F))
                        fromDtor.insert(G);
                }
        for (auto& kv : kept) {
            int k = kv.first.second;
            string names;
            bool any = false, path = false;
            auto* I = const_cast<Instruction*>(kv.second.begin()->second);
            for (auto& f : kv.second) {
                names += (names.empty() ? "" : ", ") + f.first;
                string C = f.first.substr(0, f.first.find('.'));
                // members of the owning class (or of classes that add to it) first; plain structs are handled by others
                std::set<string> family { C };
                bool methods = false;
                for (auto* F : repoFunctions()) {
                    string c = cls(P.q(F));
                    c = c.substr(c.rfind(':') == string::npos ? 0 : c.rfind(':') + 1);
                    if (c == C)
                        methods = true;
                    for (auto& J : instructions(*F)) // constructors of derived classes call the base constructor
                        if (auto* CB = dyn_cast<CallBase>(&J); CB && CB->getCalledFunction() && endsWith(P.q(F), "::" + c) && P.repo(CB->getCalledFunction()) && endsWith(P.q(CB->getCalledFunction()), C + "::" + C) && CB->arg_size() && F->arg_size() && CB->getArgOperand(0) == F->getArg(0))
                            family.insert(c);
                }
                for (auto* F : fromDtor) {
                    if (any || !P.repo(F) || !freesField(F, f.first, k))
                        continue;
                    string c = cls(P.q(F));
                    c = c.substr(c.rfind(':') == string::npos ? 0 : c.rfind(':') + 1);
                    if (!methods || family.count(c))
                        any = true;
                }
                if (any && !path && (k == FD || k == MAP))
                    for (auto* D : dtors) {
                        string q = P.q(D);
                        if (!endsWith(q, "::~" + C) || !endsWith(D->getName().str(), "D2Ev") || P.reachable(D).size() > 60)
                            continue;
                        // the destructor itself, with the resource and what is stored along with it in place
                        path = true;
                        std::set<string> along { f.first };
                        for (auto& o : kept)
                            for (auto& g : o.second)
                                if (startsWith(g.first, C + "."))
                                    along.insert(g.first);
                        for (auto& J : instructions(*I->getFunction()))
                            if (auto* S = dyn_cast<StoreInst>(&J))
                                if (auto* K = dyn_cast<ConstantInt>(S->getValueOperand()); K && K->isOne() && S->getValueOperand()->getType()->isIntegerTy(8) && startsWith(pf(S->getPointerOperand()), C + "."))
                                    along.insert(pf(S->getPointerOperand()));
                        FC c(R);
                        c.instEvent = [&](const Instruction& J) {
                            auto* CB = dyn_cast<CallBase>(&J);
                            return CB && releases(CB) == k;
                        };
                        c.opaqueFn = [&](const Function* T) { return contains(P.q(T), "Logger::"); };
                        c.anyCall = [&](Engine&, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                            if (T && releases(&CB) == k && kv.second.count(fromField(CB.getArgOperand(0), &fr)))
                                s.q[0] = 0;
                            return 0;
                        };
                        c.instFn = [&](Engine& E, Frame& fr, Instruction& J, State& s) {
                            if (auto* L = dyn_cast<LoadInst>(&J); L && s.q[0] && along.count(pf(L->getPointerOperand()))) {
                                bool flag = L->getType()->isIntegerTy(8) || L->getType()->isIntegerTy(1);
                                E.setFact(s, E.key(L, fr), flag ? Itv::c(1) : L->getType()->isPointerTy() ? Itv::range(1, INT64_MAX) : Itv::range(0, INT32_MAX));
                            }
                            return true;
                        };
                        for (auto& e : c.go(D, st({ 1 })))
                            if (!e.unwind && e.s.q[0]) {
                                R.violation("owned", head(D), P.q(D), string(kname[k]) + "|path|" + f.first, string("the ") + kname[k] + " kept in " + f.first + " (" + Program::loc(kv.first.first) + ") is not given back on every path of the destructor", {});
                                break;
                            }
                    }
            }
            R.oblige(string(kname[k]) + " from " + Program::loc(kv.first.first) + " kept in " + names + " is given back when its owner goes away" + (path ? " (all paths of the destructor)" : ""));
            if (!any)
                R.violation("owned", I, P.q(I->getFunction()), string(kname[k]) + "|" + names, string("the ") + kname[k] + " kept in " + names + " is not given back when its owner goes away", {});
        }
    }
    RegRule r1("C12", "released", [](Report& R, bool) {
        released(R);
        owned(R);
    });
}
}
