// C16: changes made by a process with an async writer are serialized, go to the right
// database, and end before the objects they use are destroyed.
#include "rules_lib.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    Instruction* head(Function* F) { return &*F->getEntryBlock().begin(); }
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F)
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    bool same(const Itv& i, int64_t v) { return i.isConst() && i.lo == v; }
    bool isPublic(const Function* F)
    {
        auto* SP = F->getSubprogram();
        auto* D = SP ? SP->getDeclaration() : nullptr;
        return D && D->isPublic();
    }
    bool isCtorOrStatic(const Function* F)
    {
        string q = P.q(F), c = cls(q), last = c.substr(c.rfind("::") + 2);
        if (endsWith(q, "::" + last) || contains(q, "::~"))
            return true;
        auto* SP = F->getSubprogram();
        auto* T = SP ? SP->getType() : nullptr;
        if (!T || T->getTypeArray().size() < 2)
            return true;
        auto* A = T->getTypeArray()[1];
        return !A || !A->isArtificial();
    }
    bool isOptionsLoad(const Value* V)
    {
        auto* L = dyn_cast<LoadInst>(V);
        string f = L ? pf(L->getPointerOperand()) : "";
        return f == "DB.options" || f == "MBConfig.options";
    }
    // ------------------------------------------------------------ the writer lock
    bool isWriterLock(const Value* V, Frame* fr, int d = 0)
    {
        V = resolveArg(V, fr);
        if (pf(V) == "AsyncWriter.writer_lock")
            return true;
        if (auto* G = dyn_cast<GEPOperator>(V))
            if (d < 6)
                return isWriterLock(G->getPointerOperand(), fr, d + 1);
        if (auto* CB = dyn_cast<CallBase>(V)) {
            auto* T = CB->getCalledFunction();
            if (!T || T->isDeclaration())
                return false;
            bool any = false;
            for (auto& B : *T)
                if (auto* R = dyn_cast<ReturnInst>(B.getTerminator())) {
                    any = true;
                    if (!R->getReturnValue() || pf(R->getReturnValue()) != "AsyncWriter.writer_lock")
                        return false;
                }
            return any;
        }
        return false;
    }
    // operations on std::timed_mutex and its guards; returns -1 if T is none
    bool lockOp(const Function* T) { return T && contains(P.d(T), "timed_mutex") && contains(P.d(T), "std::"); }
    struct LockModel {
        std::function<void(const Instruction*, Frame&, const string&, const string&)> bad;
        int idx = 0; // q index of "held"
        int acquire(const Instruction* I, Frame& fr, State& s, bool isOurs)
        {
            if (!isOurs)
                return 0;
            if (s.q[idx])
                bad(I, fr, "locked twice", "takes the writer lock while already holding it");
            s.q[idx] = 1;
            return 1;
        }
        void release(const Instruction* I, Frame& fr, State& s)
        {
            if (!s.q[idx])
                bad(I, fr, "unlocked", "releases the writer lock without holding it");
            s.q[idx] = 0;
        }
        // 0: not a lock operation
        int call(Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out)
        {
            if (!lockOp(T))
                return 0;
            string d = P.d(T);
            s.v["nokill"] = "1";
            size_t g = string::npos;
            for (auto* n : { "std::unique_lock<std::timed_mutex>::", "std::lock_guard<std::timed_mutex>::", "std::scoped_lock<std::timed_mutex>::" })
                if (contains(d, n))
                    g = d.find(n) + string(n).size();
            auto token = [&](const Value* V) {
                Frame* f = &fr;
                V = resolveArg(V, f);
                return "UL" + E.key(V, *f);
            };
            auto takes = [&](string k, const Value* m, bool tryOnly) {
                if (tryOnly) {
                    State no = s;
                    split(out, no, Itv::c(0));
                    if (acquire(&CB, fr, s, isWriterLock(m, &fr)))
                        if (!k.empty())
                            s.v[k] = "1";
                    split(out, s, Itv::c(1));
                    return;
                }
                if (acquire(&CB, fr, s, isWriterLock(m, &fr)) && !k.empty())
                    s.v[k] = "1";
            };
            if (g != string::npos) {
                string m = d.substr(g);
                string k = token(CB.getArgOperand(0));
                if (startsWith(m, "~")) {
                    if (s.get(k) == "1")
                        release(&CB, fr, s);
                    s.v.erase(k);
                    s.v.erase(k + "m");
                } else if (startsWith(m, "unique_lock()") || startsWith(m, "swap")) {
                    s.v.erase(k);
                } else if (contains(m, "&&)")) { // move construction and assignment
                    string k2 = token(CB.getArgOperand(1));
                    if (contains(m, "operator=") && s.get(k) == "1")
                        release(&CB, fr, s);
                    s.v.erase(k);
                    if (s.get(k2) == "1")
                        s.v[k] = "1";
                    s.v.erase(k2);
                } else if (startsWith(m, "unique_lock(") || startsWith(m, "lock_guard(") || startsWith(m, "scoped_lock(")) {
                    if (contains(m, "defer_lock")) {
                        s.v[k + "m"] = isWriterLock(CB.getArgOperand(1), &fr) ? "1" : "0";
                    } else if (contains(m, "try_to_lock") || contains(m, "chrono")) {
                        State no = s;
                        split(out, no, Itv());
                        takes(k, CB.getArgOperand(1), false);
                        split(out, s, Itv());
                    } else
                        takes(k, CB.getArgOperand(1), false);
                } else if (startsWith(m, "unlock")) {
                    if (s.get(k) == "1")
                        release(&CB, fr, s);
                    s.v.erase(k);
                    s.v[k + "m"] = "1";
                } else if (startsWith(m, "lock") || startsWith(m, "try_lock")) {
                    bool ours = s.get(k + "m") == "1";
                    if (startsWith(m, "try_lock")) {
                        State no = s;
                        split(out, no, Itv::c(0));
                        if (ours && acquire(&CB, fr, s, true))
                            s.v[k] = "1";
                        split(out, s, Itv::c(1));
                    } else if (ours && acquire(&CB, fr, s, true))
                        s.v[k] = "1";
                } else if (contains(m, "owns_lock") || contains(m, "operator bool")) {
                    split(out, s, Itv::c(s.get(k) == "1"));
                }
                return 1;
            }
            if (contains(d, "timed_mutex::lock("))
                takes("", CB.getArgOperand(0), false);
            else if (contains(d, "try_lock"))
                takes("", CB.getArgOperand(0), true);
            else if (contains(d, "timed_mutex::unlock(")) {
                if (isWriterLock(CB.getArgOperand(0), &fr))
                    release(&CB, fr, s);
            } else
                s.v.erase("nokill");
            return 1;
        }
    };
    // ------------------------------------------------------------ what changes the database
    const std::set<string> writers = { "RollableFile::RandomWrite", "RollableFile::MemWrite", "RollableFile::Reserve", "RollableFile::PreAlloc", "RollableFile::Malloc", "RollableFile::Free", "RollableFile::ResetJemalloc", "RollableFile::ReseedJemalloc", "RollableFile::AddReusableBlock", "FreeList::ReuseBuffer", "FreeList::AddBuffer", "FreeList::RemoveBuffer", "FreeList::StoreListOnDisk", "FreeList::Empty", "FreeList::ReleaseBuffer", "DRMBase::WriteHeader", "PrefixCache::PutAtDepth", "PrefixCache::Put", "remove_db_files", "LockFree::WriterLockFreeStart", "LockFree::WriterLockFreeStop" };
    // header words that are not part of the database's contents
    bool sideWord(const string& f)
    {
        static const std::set<string> ok = { "IndexHeader.num_reader", "IndexHeader.num_writer", "IndexHeader.queue_index", "IndexHeader.writer_index", "IndexHeader.rc_flag" };
        return ok.count(f) || startsWith(f, "ReaderEpochSlot.");
    }
    bool changes(const Instruction& I)
    {
        string f = storedField(I);
        return startsWith(f, "IndexHeader.") && !sideWord(f);
    }
    const std::unordered_map<const Function*, bool>& reachesLock()
    {
        static std::unordered_map<const Function*, bool> m;
        if (m.empty())
            for (auto* F : repoFunctions()) {
                bool r = false;
                auto has = [&](const Function* G) {
                    for (auto& I : instructions(*G))
                        if (auto* CB = dyn_cast<CallBase>(&I))
                            for (auto* T : P.targets(CB))
                                if (lockOp(T))
                                    return true;
                    return false;
                };
                r = has(F);
                if (!r)
                    for (auto* G : P.reachable(F))
                        if (P.repo(G) && has(G)) {
                            r = true;
                            break;
                        }
                m[F] = r;
            }
        return m;
    }
    Function* threadEntry()
    {
        for (auto* F : repoFunctions())
            for (auto& U : F->uses())
                if (auto* CB = dyn_cast<CallBase>(U.getUser()))
                    if (auto* T = CB->getCalledFunction(); T && T->getName() == "pthread_create" && CB->getArgOperand(2) == F && contains(P.q(F), "AsyncWriter"))
                        return F;
        return nullptr;
    }
    void locked(Report& R)
    {
        struct Root {
            Function* F;
            int running; // the thread exists on entry
            bool force; // handle with an async writer
        };
        std::vector<Root> roots;
        auto* TE = threadEntry();
        if (!TE) {
            R.violation("locked", head(P.one(NS + "DB::InitDB")), "AsyncWriter", "thread", "no async writer thread found");
            return;
        }
        roots.push_back({ TE, 1, false });
        std::set<Function*> methods;
        for (auto* F : repoFunctions())
            if (cls(P.q(F)) == NS + "AsyncWriter" && !isCtorOrStatic(F))
                for (auto* G : callersOf(F))
                    if (cls(P.q(G)) == NS + "DB")
                        methods.insert(const_cast<Function*>(F));
        for (auto* F : methods)
            if (P.q(F) != NS + "AsyncWriter::StopAsyncThread")
                roots.push_back({ F, 1, false });
        for (auto* F : repoFunctions())
            if (cls(P.q(F)) == NS + "DB" && isPublic(F) && !isCtorOrStatic(F) && P.q(F) != NS + "DB::operator=")
                roots.push_back({ F, 1, true });
        for (auto* F : P.find(NS + "DB::InitDBEx"))
            roots.push_back({ F, 0, false });
        for (auto& rt : roots) {
            auto* F = rt.F;
            FC c(R);
            // q0 lock held, q1 thread running, q2 told to stop
            auto bad = [&](const Instruction* I, Frame& fr, const string& d, const string& m) { R.violation("locked", I, P.q(fr.F), d, "reached from " + P.d(F) + ": " + m, fr.stack()); };
            LockModel L;
            L.bad = bad;
            auto change = [&](const string& what) {
                return [&, what](Engine&, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                    R.site(Program::loc(&CB) + " " + what);
                    if (s.q[1] && !s.q[0])
                        bad(&CB, fr, what, what + " without the writer lock while the async thread may be updating");
                    s.v["nokill"] = "1";
                    return 1;
                };
            };
            for (auto& w : writers)
                c.calls[NS + w] = change(w);
            c.calls[NS + "DBBackup::Backup"] = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                R.site(Program::loc(&CB) + " backup");
                if (s.q[1] && !s.q[0])
                    bad(&CB, fr, "backup", "copies the database files without the writer lock while the async thread or AddWithLock may be updating");
                summarised(E, CB, T, s, Itv(), out);
                return 1;
            };
            bool closing = P.q(F) == NS + "DB::Close";
            for (auto* d : { "Dict::~Dict", "Dict::Destroy", "AsyncWriter::~AsyncWriter" })
                c.calls[NS + d] = [&, d](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                    R.site(Program::loc(&CB) + " " + d);
                    if (s.q[1])
                        bad(&CB, fr, d, string(d) + " before the async thread was joined");
                    s.v["nokill"] = "1";
                    return 1;
                };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                if (!T)
                    return 0;
                if (int h = L.call(E, fr, CB, T, s, out))
                    return h;
                if (T->getName() == "pthread_create") {
                    State ok = s;
                    ok.q[1] = 1;
                    split(out, ok, Itv::c(0));
                    split(out, s, Itv::range(1, 200));
                    return 1;
                }
                if (T->getName() == "pthread_join") {
                    if (!s.q[2])
                        bad(&CB, fr, "join", "waits for the async thread before telling it to stop");
                    s.q[1] = 0;
                    s.v["nokill"] = "1";
                    return 1;
                }
                if (s.q[0] && P.repo(T) && !T->isDeclaration()) {
                    auto it = reachesLock().find(T);
                    if (it != reachesLock().end() && !it->second) {
                        summarised(E, CB, T, s, Itv(), out);
                        return 1;
                    }
                }
                return 0;
            };
            c.opaqueFn = [](const Function* T) { return contains(P.q(T), "Logger::"); };
            c.instEvent = [](const Instruction& I) {
                if (changes(I) || storedField(I) == "AsyncWriter.stop_processing" || loadedField(I) == "DB.async_writer" || loadedField(I) == "AsyncWriter.tid" || loadedField(I) == "DB.status")
                    return true;
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction())
                        return lockOp(T) || T->getName() == "pthread_create" || T->getName() == "pthread_join";
                return false;
            };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                string f = loadedField(I);
                if (rt.force && (f == "DB.async_writer" || f == "AsyncWriter.tid")) {
                    if (f == "AsyncWriter.tid" || s.q[1])
                        E.setFact(s, E.key(&I, fr), Itv::range(1, INT64_MAX));
                }
                if (rt.force)
                    if (auto* B = dyn_cast<BinaryOperator>(&I))
                        if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)))
                            if (B->getOpcode() == Instruction::And && C->getSExtValue() == globalConst(NS + "CONSTS::ACCESS_MODE_WRITER")) {
                                Frame* g = &fr;
                                if (isOptionsLoad(resolveArg(B->getOperand(0), g)))
                                    E.setFact(s, E.key(B, fr), Itv::c(globalConst(NS + "CONSTS::ACCESS_MODE_WRITER")));
                            }
                if (storedField(I) == "AsyncWriter.stop_processing") {
                    Itv i = E.itv(storedValue(I), fr, s);
                    s.q[2] = !i.contains(0);
                }
                if (changes(I)) {
                    R.site(Program::loc(&I) + " " + storedField(I));
                    if (s.q[1] && !s.q[0])
                        bad(&I, fr, "store to " + storedField(I), "stores to " + storedField(I) + " without the writer lock while the async thread may be updating");
                }
                return true;
            };
            auto exits = c.go(F, st({ 0, rt.running, 0 }));
            R.oblige("C16 " + P.d(F) + ": changes the database only with the writer lock, and releases it");
            for (auto& e : exits) {
                if (e.s.q[0])
                    R.violation("locked", head(F), P.q(F), e.unwind ? "kept by exception" : "kept", P.d(F) + " can end with the writer lock held");
                if (closing && e.s.q[1])
                    R.violation("locked", head(F), P.q(F), "not joined", "Close can return while the async thread is running");
            }
        }
    }
    RegRule r1("C16", "locked", [](Report& R, bool) { locked(R); });
    // ------------------------------------------------------------ the process-wide instance
    bool isInstance(const Value* V)
    {
        auto* G = dyn_cast<GlobalVariable>(V->stripPointerCasts());
        return G && contains(demangle(G->getName().str()), "AsyncWriter::") && G->getValueType()->isPointerTy();
    }
    bool loadsInstance(const Value* V)
    {
        if (auto* L = dyn_cast<LoadInst>(V))
            return isInstance(L->getPointerOperand());
        if (auto* CB = dyn_cast<CallBase>(V))
            return P.atomicOp(CB) == "load" && isInstance(CB->getArgOperand(0));
        return false;
    }
    const Value* storesInstance(const Instruction& I)
    {
        if (auto* S = dyn_cast<StoreInst>(&I))
            return isInstance(S->getPointerOperand()) ? S->getValueOperand() : nullptr;
        if (auto* CB = dyn_cast<CallBase>(&I)) {
            string op = P.atomicOp(CB);
            if (!op.empty() && op != "load" && isInstance(CB->getArgOperand(0)))
                return CB->getArgOperand(op == "cas" ? 2 : 1);
        }
        return nullptr;
    }
    void instance(Report& R)
    {
        Function* D = nullptr;
        for (auto* F : repoFunctions())
            if (P.q(F) == NS + "AsyncWriter::~AsyncWriter")
                D = F;
        bool global = false;
        for (auto& G : P.M->globals())
            global |= isInstance(&G);
        if (!global) {
            R.oblige("C16 no process-wide async writer exists");
            return;
        }
        auto clears = [&](Function* F, bool& done) {
            FC c(R);
            c.instEvent = [](const Instruction& I) { return storesInstance(I) || loadsInstance(&I); };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (auto* V = storesInstance(I)) {
                    if (auto* CB = dyn_cast<CallBase>(&I); CB && P.atomicOp(CB) == "cas")
                        s.q[0] = 1; // equal: replaced; not equal: another one
                    else
                        s.q[0] = isa<ConstantPointerNull>(V) ? 1 : 0;
                    R.site(Program::loc(&I) + " instance");
                }
                return true;
            };
            c.edgeFn = [&](Engine& E, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) {
                auto* Br = dyn_cast<BranchInst>(&I);
                if (!Br || !Br->isConditional())
                    return;
                auto* C = dyn_cast<ICmpInst>(Br->getCondition());
                if (!C || !C->isEquality() || !(loadsInstance(C->getOperand(0)) || loadsInstance(C->getOperand(1))))
                    return;
                bool eq = (C->getPredicate() == ICmpInst::ICMP_EQ) == (Br->getSuccessor(0) == B);
                if (!eq)
                    s.q[0] = 1;
            };
            done = true;
            for (auto& e : c.go(F, st({ 0 })))
                if (!e.s.q[0])
                    done = false;
        };
        // every place that destroys an AsyncWriter leaves no reference in the instance
        bool ok = false;
        if (D)
            clears(D, ok);
        R.oblige("C16 destroying an async writer removes it from the process-wide instance");
        if (!ok)
            R.violation("instance", head(D ? D : P.one(NS + "DB::Close")), "AsyncWriter::~AsyncWriter", "dangling", "a destroyed AsyncWriter can still be found through the process-wide instance");
        // a writer is published only when it has been constructed
        for (auto* F : repoFunctions()) {
            bool st_ = false;
            for (auto& I : instructions(*F))
                if (auto* V = storesInstance(I); V && !isa<ConstantPointerNull>(V))
                    st_ = true;
            if (!st_ || P.q(F) == NS + "AsyncWriter::~AsyncWriter")
                continue;
            for (auto* X : P.q(F) == NS + "AsyncWriter::AsyncWriter" ? callersOf(F) : std::set<const Function*> { F }) {
                FC c(R);
                c.instEvent = [](const Instruction& I) { return storesInstance(I) != nullptr; };
                c.instFn = [&](Engine&, Frame&, Instruction& I, State& s) {
                    if (auto* V = storesInstance(I))
                        s.q[0] = !isa<ConstantPointerNull>(V);
                    return true;
                };
                R.oblige("C16 " + P.d(X) + ": an async writer that failed to start is not published");
                for (auto& e : c.go(const_cast<Function*>(X), st({ 0 })))
                    if (e.unwind && e.s.q[0])
                        R.violation("instance", head(const_cast<Function*>(X)), P.q(X), "published early", P.d(X) + ": the process-wide instance refers to an async writer whose construction failed");
            }
        }
        // whoever takes the instance has compared its database
        for (auto* F : repoFunctions()) {
            bool ld = false;
            for (auto& I : instructions(*F))
                ld |= loadsInstance(&I);
            if (!ld || contains(P.q(F), "::~") || !F->getReturnType()->isPointerTy() || callersOf(F).empty())
                continue;
            if (P.q(F) == NS + "AsyncWriter::CreateInstance")
                continue;
            FC c(R);
            auto isStr = [](const Function* T) {
                string d = P.d(T);
                return contains(d, "std::operator==") || contains(d, "std::operator!=") || contains(d, "basic_string<char, std::char_traits<char>, std::allocator<char> >::compare(") || contains(d, "bool std::operator");
            };
            c.instEvent = [&](const Instruction& I) {
                if (loadsInstance(&I))
                    return true;
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction())
                        return isStr(T);
                return false;
            };
            auto dirOf = [&](const Value* V) { // the directory of some DB
                if (pf(V) == "DB.mb_dir")
                    return true;
                if (auto* CB = dyn_cast<CallBase>(V))
                    if (auto* T = CB->getCalledFunction(); T && !T->isDeclaration())
                        for (auto& B : *T)
                            if (auto* Rt = dyn_cast<ReturnInst>(B.getTerminator()))
                                return Rt->getReturnValue() && pf(Rt->getReturnValue()) == "DB.mb_dir";
                return false;
            };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                if (!T || !isStr(T) || CB.arg_size() < 2)
                    return 0;
                Frame *f1 = &fr, *f2 = &fr;
                auto* a = resolveArg(CB.getArgOperand(0), f1);
                auto* b = resolveArg(CB.getArgOperand(1), f2);
                bool both = dirOf(a) && dirOf(b) && a != b;
                bool ne = contains(P.d(T), "operator!=") || contains(P.d(T), "::compare(");
                State eq = s;
                if (both)
                    eq.q[0] = 1;
                split(out, eq, Itv::c(ne ? 0 : 1));
                split(out, s, ne ? Itv::range(1, 1) : Itv::c(0));
                return 1;
            };
            R.oblige("C16 " + P.d(F) + ": hands out the async writer only to handles of its own database");
            for (auto& e : c.go(F, st({ 0 }))) {
                if (getenv("SA_DBG")) fprintf(stderr, "inst exit q %d ret %s %s\n", e.s.q[0], e.ret.str().c_str(), e.retKey.c_str());
                if (!e.unwind && !e.s.q[0] && !(e.ret.isConst() && e.ret.lo == 0))
                    R.violation("instance", head(F), P.q(F), "other database", P.d(F) + " may return the async writer of another database");
            }
        }
        // nobody else uses the instance directly
        for (auto* F : repoFunctions())
            if (cls(P.q(F)) != NS + "AsyncWriter")
                for (auto& I : instructions(*F))
                    if (loadsInstance(&I))
                        R.violation("instance", &I, P.q(F), "direct use", P.q(F) + " uses the process-wide async writer without comparing its database");
    }
    RegRule r2("C16", "instance", [](Report& R, bool) { instance(R); });
    // ------------------------------------------------------------ SIGPIPE
    void sigpipe(Report& R)
    {
        int n = 0;
        for (auto* F : repoFunctions()) {
            if (!startsWith(P.q(F), NS + "MBPipe::") || isCtorOrStatic(F) || !isPublic(F))
                continue;
            FC c(R);
            const std::set<string> names = { "write", "pthread_sigmask", "sigaddset", "sigfillset", "sigemptyset", "send", "sigprocmask" };
            c.instEvent = [&](const Instruction& I) {
                auto* CB = dyn_cast<CallBase>(&I);
                auto* T = CB ? CB->getCalledFunction() : nullptr;
                return T && names.count(T->getName().str());
            };
            // q0 a set contains SIGPIPE, q1 it is blocked
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                if (!T || !names.count(T->getName().str()))
                    return 0;
                string n_ = T->getName().str();
                s.v["nokill"] = "1";
                if (n_ == "sigfillset" || (n_ == "sigaddset" && same(E.itv(CB.getArgOperand(1), fr, s), 13)))
                    s.q[0] = 1;
                if (n_ == "pthread_sigmask" || n_ == "sigprocmask") {
                    Itv how = E.itv(CB.getArgOperand(0), fr, s);
                    if (same(how, 0)) {
                        split(out, s, Itv::range(1, 200));
                        s.q[1] |= s.q[0];
                        split(out, s, Itv::c(0));
                    } else
                        s.q[1] = 0;
                }
                if (n_ == "send" && CB.arg_size() > 3 && same(E.itv(CB.getArgOperand(3), fr, s), 0x4000))
                    return 1;
                if (n_ == "write" || n_ == "send") {
                    n++;
                    R.site(Program::loc(&CB) + " write to the pipe");
                    if (!s.q[1])
                        R.violation("sigpipe", &CB, P.q(fr.F), "write", P.d(F) + ": writes to the pipe with SIGPIPE unblocked: a writer that has just stopped kills the caller", fr.stack());
                    s.v.erase("nokill");
                }
                return 1;
            };
            R.oblige("C16 " + P.d(F) + ": writes to the pipe only with SIGPIPE blocked");
            for (auto& e : c.go(F, st({ 0, 0 })))
                if (e.s.q[1])
                    R.violation("sigpipe", head(F), P.q(F), "mask", P.d(F) + " can return with SIGPIPE still blocked");
        }
        if (!n)
            R.oblige("C16 no write to a pipe exists");
    }
    RegRule r3("C16", "sigpipe", [](Report& R, bool) { sigpipe(R); });
}
}
