// C13: a database is written by one handle at a time.
#include "rules_lib.h"
#include "llvm/Analysis/ValueTracking.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    Instruction* head(Function* F) { return &*F->getEntryBlock().begin(); }
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F)
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    bool same(const Itv& i, int64_t v) { return i.isConst() && i.lo == v; }
    // string literals that take part in building the std::string / C string V
    void lits(const Value* V, Frame* fr, std::set<string>& out, std::set<const Value*>& seen, int d = 0)
    {
        V = resolveArg(V, fr);
        if (d > 8 || !seen.insert(V).second)
            return;
        StringRef str;
        if (V->getType()->isPointerTy() && getConstantStringInfo(V, str)) {
            out.insert(str.str());
            return;
        }
        auto ofFn = [&](const Function* T) {
            if (T && P.repo(T) && !T->isDeclaration())
                for (auto& I : instructions(*T))
                    for (auto& O : I.operands())
                        if (O->getType()->isPointerTy() && getConstantStringInfo(O, str))
                            out.insert(str.str());
        };
        if (auto* CB = dyn_cast<CallBase>(V)) {
            auto* T = CB->getCalledFunction();
            ofFn(T);
            if (!T || !P.repo(T))
                for (auto& A : CB->args())
                    if (A->getType()->isPointerTy())
                        lits(A, fr, out, seen, d + 1);
            return;
        }
        if (isa<AllocaInst>(V))
            for (auto* U : V->users())
                if (auto* CB = dyn_cast<CallBase>(U))
                    if (!CB->arg_empty() && CB->getArgOperand(0) == V) {
                        auto* T = CB->getCalledFunction();
                        if (!T || T->isIntrinsic() || contains(P.q(T), "::~") || contains(P.q(T), "::c_str"))
                            continue;
                        ofFn(T);
                        if (!P.repo(T) || CB->getType()->isPointerTy())
                            for (unsigned i = 1; i < CB->arg_size(); i++)
                                if (CB->getArgOperand(i)->getType()->isPointerTy())
                                    lits(CB->getArgOperand(i), fr, out, seen, d + 1);
                    }
        if (auto* PN = dyn_cast<PHINode>(V))
            for (auto& O : PN->incoming_values())
                lits(O, fr, out, seen, d + 1);
        if (auto* S = dyn_cast<SelectInst>(V)) {
            lits(S->getTrueValue(), fr, out, seen, d + 1);
            lits(S->getFalseValue(), fr, out, seen, d + 1);
        }
    }
    std::set<string> lits(const Value* V, Frame* fr)
    {
        std::set<string> o;
        std::set<const Value*> seen;
        lits(V, fr, o, seen);
        return o;
    }
    string lockLit; // "_lock": what the registration key is built with
    bool isLockPath(const Value* V, Frame* fr) { return lits(V, fr).count(lockLit); }

    const std::set<string> writers = { "RollableFile::RandomWrite", "RollableFile::MemWrite", "RollableFile::Reserve", "RollableFile::PreAlloc", "RollableFile::Malloc", "RollableFile::Free", "RollableFile::ResetJemalloc", "RollableFile::ReseedJemalloc", "RollableFile::AddReusableBlock", "FreeList::ReuseBuffer", "FreeList::AddBuffer", "FreeList::RemoveBuffer", "FreeList::StoreListOnDisk", "FreeList::Empty", "FreeList::ReleaseBuffer", "DRMBase::WriteHeader", "PrefixCache::PutAtDepth", "PrefixCache::Put", "remove_db_files", "LockFree::WriterLockFreeStart", "LockFree::WriterLockFreeStop" };
    const std::set<string> sysWrites = { "unlink", "remove", "rename", "ftruncate", "ftruncate64", "truncate", "posix_fallocate", "fallocate" };
    bool sideWord(const string& f)
    {
        static const std::set<string> ok = { "IndexHeader.num_reader", "IndexHeader.queue_index" };
        return ok.count(f) || startsWith(f, "ReaderEpochSlot.");
    }
    bool writesHeader(const Instruction& I)
    {
        string f = storedField(I);
        return startsWith(f, "IndexHeader.") && !sideWord(f);
    }
    bool changer(const Function* F)
    {
        static std::unordered_map<const Function*, bool> m;
        auto it = m.find(F);
        if (it != m.end())
            return it->second;
        bool r = false;
        string q = P.q(F);
        auto direct = [&](const Function* G) {
            if (startsWith(P.q(G), NS) && writers.count(P.q(G).substr(NS.size())))
                return true;
            if (sysWrites.count(G->getName().str()))
                return true;
            for (auto& I : instructions(*G))
                if (writesHeader(I))
                    return true;
            return false;
        };
        r = direct(F);
        if (!r)
            for (auto* G : P.reachable(F))
                if (direct(G)) {
                    r = true;
                    break;
                }
        return m[F] = r;
    }
    bool isDB(const Function* F)
    {
        string c = cls(P.q(F));
        return c == NS + "DB" || startsWith(P.q(F), NS + "DB::");
    }
    bool isPublic(const Function* F)
    {
        auto* SP = F->getSubprogram();
        auto* D = SP ? SP->getDeclaration() : nullptr;
        return D && D->isPublic();
    }
    bool isFileLock(const CallBase* CB, int64_t& cmd)
    {
        auto* T = CB->getCalledFunction();
        if (!T || (T->getName() != "fcntl" && T->getName() != "fcntl64") || CB->arg_size() < 3)
            return false;
        auto* C = dyn_cast<ConstantInt>(CB->getArgOperand(1));
        cmd = C ? C->getSExtValue() : -1;
        return cmd == 5 || cmd == 6 || cmd == 7 || cmd == 36 || cmd == 37 || cmd == 38;
    }
    bool lockEvent(const Instruction& I)
    {
        string f = storedField(I);
        if (f == "DB.writer_registered" || f == "DB.writer_lock_fd")
            return true;
        string l = loadedField(I);
        if (l == "DB.writer_registered" || l == "DB.writer_lock_fd")
            return true;
        if (auto* CB = dyn_cast<CallBase>(&I)) {
            int64_t c;
            if (isFileLock(CB, c))
                return true;
            if (auto* T = CB->getCalledFunction()) {
                string q = P.q(T);
                return startsWith(q, NS + "ResourcePool::AddResource") || startsWith(q, NS + "ResourcePool::Remove");
            }
        }
        return false;
    }
    enum { REG,
        LOCK,
        FLAG,
        FD }; // REG: 1 owns the registration; LOCK: 1 holds the file lock; FLAG: writer_registered; FD: last opened file is locked
    void protocol(Report& R)
    {
        int64_t W = globalConst(NS + "CONSTS::ACCESS_MODE_WRITER"), M = globalConst(NS + "CONSTS::MEMORY_ONLY_MODE");
        auto* InitDB = P.one(NS + "DB::InitDB");
        lockLit = "_lock";
        // the key used to register a writer
        std::set<string> keys;
        for (auto* CB : callsTo(NS + "ResourcePool::AddResourceByPath")) {
            Frame f { const_cast<Function*>(CB->getFunction()), {} };
            for (auto& l : lits(CB->getArgOperand(1), &f))
                keys.insert(l);
        }
        if (keys.size() == 1)
            lockLit = *keys.begin();
        R.site("registration key suffix: " + lockLit);
        struct Root {
            Function* F;
            int reg, lock, mem;
            string what;
        };
        std::vector<Root> roots;
        for (int mem = 0; mem < 2; mem++) {
            string m = mem ? " (memory-only)" : "";
            roots.push_back({ InitDB, 0, 0, mem, "open for writing" + m });
            std::set<Function*> rs;
            for (auto* F : repoFunctions())
                if (isDB(F) && F != InitDB && (isPublic(F) || callersOf(F).empty() || contains(P.q(F), "~DB") || contains(P.q(F), "operator="))) {
                    bool r = false;
                    auto has = [&](const Function* G) {
                        for (auto& I : instructions(*G))
                            if (lockEvent(I))
                                return true;
                        return false;
                    };
                    r = has(F);
                    for (auto* G : P.reachable(F))
                        r = r || (P.repo(G) && isDB(G) && has(G));
                    bool ctor = P.q(F) == NS + "DB::DB";
                    if (r && !ctor)
                        rs.insert(F);
                }
            for (auto* F : rs) {
                roots.push_back({ F, 1, !mem, mem, "a registered writer" + m });
                roots.push_back({ F, 0, 0, mem, "a handle that was refused" + m });
                if (!mem)
                    roots.push_back({ F, 1, 0, mem, "a writer registered in the process but refused by the file lock" });
            }
        }
        for (auto& rt : roots) {
            auto* F = rt.F;
            FC c(R);
            bool refused = F != InitDB && (!rt.reg || (!rt.lock && !rt.mem));
            auto bad = [&](const Instruction* I, Frame& fr, const string& d, const string& m) { R.violation("exclusive", I, P.q(fr.F), d, P.d(F) + ", " + rt.what + ": " + m, fr.stack()); };
            auto holds = [&](const State& s) { return s.q[REG] && (rt.mem || s.q[LOCK]); };
            auto need = [&](const Instruction* I, Frame& fr, const State& s, const string& what) {
                R.site(Program::loc(I) + " " + what);
                if (!holds(s))
                    bad(I, fr, what, what + (s.q[REG] ? " without holding the lock of the database file" : " without being the registered writer of the database"));
            };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                if (!T)
                    return 0;
                string q = P.q(T);
                int64_t cmd;
                if (isFileLock(&CB, cmd)) {
                    s.v["nokill"] = "1";
                    // type of the lock: the 16-bit word stored at the start of the structure
                    auto* A = CB.getArgOperand(2)->stripPointerCasts();
                    string t = s.get("lt" + std::to_string((size_t)A));
                    State no = s;
                    no.q[FD] = 0;
                    split(out, no, Itv::c(-1));
                    State ok = s;
                    if (cmd == 5 || cmd == 36 || t != "1")
                        ok.q[FD] = 2; // succeeded, but no exclusive lock
                    else
                        ok.q[FD] = 1;
                    split(out, ok, Itv::c(0));
                    return 1;
                }
                if (T->getName() == "open" || T->getName() == "open64") {
                    s.v["nokill"] = "1";
                    s.q[FD] = 0;
                    if (isLockPath(CB.getArgOperand(0), &fr)) {
                        R.site(Program::loc(&CB) + " opens the lock file");
                        if (!s.q[REG])
                            bad(&CB, fr, "unregistered lock", "opens the lock file before being registered: closing it again drops the lock that a writer of this process holds");
                        s.v["lp"] = "1";
                    } else
                        s.v.erase("lp");
                    State no = s;
                    split(out, no, Itv::c(-1));
                    split(out, s, Itv::range(0, INT32_MAX));
                    return 1;
                }
                if (T->getName() == "close") {
                    Frame* f = &fr;
                    auto* V = resolveArg(CB.getArgOperand(0), f);
                    s.v["nokill"] = "1";
                    if (auto* L = dyn_cast<LoadInst>(V)) {
                        Frame* g = f;
                        if (pf(resolveArg(L->getPointerOperand(), g)) == "DB.writer_lock_fd") {
                            s.q[LOCK] = 0;
                            return 1;
                        }
                    }
                    s.q[FD] = 0;
                    return 1;
                }
                if (q == NS + "ResourcePool::AddResourceByPath") {
                    s.v["nokill"] = "1";
                    if (!isLockPath(CB.getArgOperand(1), &fr))
                        return 1;
                    R.site(Program::loc(&CB) + " registers the writer");
                    if (s.q[REG])
                        bad(&CB, fr, "registers twice", "registers as writer while still being registered");
                    State no = s;
                    split(out, no, Itv::c(errv("IN_DICT")));
                    s.q[REG] = 1;
                    split(out, s, Itv::c(0));
                    return 1;
                }
                if (startsWith(q, NS + "ResourcePool::RemoveResourceByPath")) {
                    s.v["nokill"] = "1";
                    if (!isLockPath(CB.getArgOperand(1), &fr))
                        return 1;
                    R.site(Program::loc(&CB) + " ends the registration");
                    if (!s.q[REG])
                        bad(&CB, fr, "foreign registration", "removes the registration of a writer it does not own");
                    s.q[REG] = 0;
                    return 1;
                }
                // anything that changes the database, judged where the handle asks for it
                if (contains(q, "Logger::"))
                    return 0;
                bool sys = sysWrites.count(T->getName().str());
                if (sys || (P.repo(T) && !isDB(T) && !T->isDeclaration() && changer(T))) {
                    need(&CB, fr, s, P.q(T));
                    s.v["nokill"] = "1";
                    if (!sys)
                        summarised(E, CB, T, s, Itv(), out);
                    return 1;
                }
                return 0;
            };
            c.opaqueFn = [](const Function* T) { return contains(P.q(T), "Logger::"); };
            c.instEvent = [](const Instruction& I) {
                if (lockEvent(I) || writesHeader(I) || loadedField(I) == "DB.dict" || storedField(I) == "DB.status" || loadedField(I) == "DB.status")
                    return true;
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction()) {
                        if (T->getName() == "open" || T->getName() == "close")
                            return endsWith(P.q(CB->getFunction()), "_lock") || contains(P.q(CB->getFunction()), "file_lock") || cls(P.q(CB->getFunction())).empty() || cls(P.q(CB->getFunction())) == "mabain" || isDB(CB->getFunction());
                        return sysWrites.count(T->getName().str()) || (P.repo(T) && !isDB(T) && !T->isDeclaration() && isDB(CB->getFunction()) && changer(T));
                    }
                return false;
            };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (auto* S = dyn_cast<StoreInst>(&I)) {
                    if (S->getValueOperand()->getType()->isIntegerTy(16)) {
                        auto* A = S->getPointerOperand()->stripPointerCasts();
                        auto* AI = dyn_cast<AllocaInst>(A);
                        auto* ST = AI ? dyn_cast<StructType>(AI->getAllocatedType()) : nullptr;
                        if (ST && contains(ST->getName().str(), "flock")) {
                            Itv v = E.itv(S->getValueOperand(), fr, s);
                            s.v["lt" + std::to_string((size_t)A)] = same(v, 1) ? "1" : "0";
                        }
                    }
                }
                string sf = storedField(I);
                if (writesHeader(I))
                    need(&I, fr, s, "writes " + sf);
                if (sf == "DB.writer_registered") {
                    Itv v = E.itv(storedValue(I), fr, s);
                    if (!v.contains(0) && !s.q[REG])
                        bad(&I, fr, "claims", "marks the handle as registered although it is not");
                    s.q[FLAG] = v.contains(0) ? 0 : 1;
                }
                if (sf == "DB.status") { // kept apart: decides whether the files are recreated
                    Itv v = E.itv(storedValue(I), fr, s);
                    s.v["st"] = v.isConst() ? std::to_string(v.lo) : "?";
                }
                string l = loadedField(I);
                if (l == "DB.status" && s.v.count("st") && s.get("st") != "?")
                    E.setFact(s, E.key(&I, fr), Itv::c(std::stoll(s.get("st"))));
                if (l == "DB.writer_registered")
                    E.setFact(s, E.key(&I, fr), Itv::c(s.q[FLAG]));
                if (refused && (l == "DB.dict" || l == "DB.async_writer"))
                    if (fr.F == F || isDB(fr.F))
                        if (!s.v.count("opened"))
                            E.setFact(s, E.key(&I, fr), Itv::c(0));
                auto* L = dyn_cast<LoadInst>(&I);
                if (L && L->getType()->isIntegerTy(32)) {
                    Frame* f = &fr;
                    if (pf(resolveArg(L->getPointerOperand(), f)) == "DB.writer_lock_fd" && !s.v.count("fdset"))
                        E.setFact(s, E.key(&I, fr), s.q[LOCK] ? Itv::range(0, INT32_MAX) : Itv::c(-1));
                }
                if (auto* S = dyn_cast<StoreInst>(&I)) {
                    Frame* f = &fr;
                    if (pf(resolveArg(S->getPointerOperand(), f)) == "DB.writer_lock_fd") {
                        Itv v = E.itv(S->getValueOperand(), fr, s);
                        if (v.hi < 0) {
                            if (s.q[LOCK])
                                bad(&I, fr, "forgets", "forgets the descriptor of the lock it still holds");
                        } else {
                            R.site(Program::loc(&I) + " lock descriptor");
                            if (s.q[LOCK])
                                bad(&I, fr, "forgets", "overwrites the descriptor of the lock it still holds");
                            if (s.q[FD] != 1)
                                bad(&I, fr, "unlocked descriptor", s.q[FD] == 2 ? "the descriptor kept as the writer lock does not hold an exclusive lock" : "the descriptor kept as the writer lock was not locked");
                            else if (s.get("lp") != "1")
                                bad(&I, fr, "other file", "the writer lock is not taken on the file that is registered for the database");
                            s.q[LOCK] = s.q[FD] == 1 ? 1 : 0;
                        }
                    }
                }
                if (auto* B = dyn_cast<BinaryOperator>(&I))
                    if (B->getOpcode() == Instruction::And)
                        if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1))) {
                            Frame* f = &fr;
                            auto* V = resolveArg(B->getOperand(0), f);
                            auto* L2 = dyn_cast<LoadInst>(V);
                            string fld = L2 ? pf(L2->getPointerOperand()) : "";
                            if (fld == "DB.options" || fld == "MBConfig.options") {
                                int64_t m = C->getSExtValue();
                                if (m == W)
                                    E.setFact(s, E.key(&I, fr), Itv::c(W));
                                else if (m == M)
                                    E.setFact(s, E.key(&I, fr), Itv::c(rt.mem ? M : 0));
                            }
                        }
                return true;
            };
            State init = st({ rt.reg, rt.lock, rt.reg, 0 });
            init.v["st"] = std::to_string(F == InitDB ? errv("NOT_INITIALIZED") : rt.reg && !refused ? errv("SUCCESS") : errv("WRITER_EXIST"));
            auto ex = c.go(F, init);
            R.oblige(P.d(F) + ": " + rt.what);
            bool releases = endsWith(P.q(F), "::Close") || contains(P.q(F), "::~");
            for (auto& e : ex) {
                if (e.unwind)
                    continue;
                Frame f0 { F, {} };
                if (e.s.q[REG] != e.s.q[FLAG])
                    bad(head(F), f0, "flag", e.s.q[REG] ? "returns with the database registered but the handle not marked: nobody can open it for writing again" : "returns with the handle marked as registered after it gave the registration up");
                if (e.s.q[LOCK] && !e.s.q[REG])
                    bad(head(F), f0, "lock kept", "returns with the file lock held but no registration");
                if (F != InitDB && endsWith(P.q(F), "DB::Close") && (e.s.q[REG] || e.s.q[LOCK]))
                    bad(head(F), f0, "not released", e.s.q[REG] ? "the registration outlives the handle" : "the file lock outlives the handle");
                if (releases && contains(P.q(F), "::~") && rt.reg && (e.s.q[REG] || e.s.q[LOCK]) && e.s.get("closed") != "1")
                    bad(head(F), f0, "not released", "a destroyed handle keeps the database locked");
            }
        }
        // the registration is ended by the handle only
        for (auto* n : { "ResourcePool::RemoveResourceByPath" })
            for (auto* CB : callsTo(NS + n)) {
                auto* G = const_cast<Function*>(CB->getFunction());
                Frame f { G, {} };
                if (isLockPath(CB->getArgOperand(1), &f) && !isDB(G))
                    R.violation("exclusive", CB, P.q(G), "foreign registration", "removes the registration of a writer outside the handle that owns it");
            }
    }
    // ------------------------------------------------------------ the registry itself
    bool isPool(const Value* V, Frame* fr)
    {
        V = resolveArg(V, fr);
        return pf(V) == "ResourcePool.file_pool";
    }
    void registry(Report& R)
    {
        enum { HELD,
            LOOK,
            INS,
            REAL };
        P.one(NS + "ResourcePool::AddResourceByPath");
        std::vector<Function*> fs;
        for (auto* F : repoFunctions())
            if (cls(P.q(F)) == NS + "ResourcePool") {
                bool touches = false;
                for (auto& I : instructions(*F))
                    if (auto* CB = dyn_cast<CallBase>(&I))
                        if (!CB->arg_empty()) {
                            Frame f { F, {} };
                            touches = touches || isPool(CB->getArgOperand(0), &f);
                        }
                string q = P.q(F), last = q.substr(q.rfind("::") + 2);
                if (touches && last[0] != '~' && last != "ResourcePool")
                    fs.push_back(F);
            }
        for (auto* F : fs) {
            bool add = P.q(F) == NS + "ResourcePool::AddResourceByPath";
            FC c(R);
            auto bad = [&](const Instruction* I, Frame& fr, const string& d, const string& m) { R.violation("registry", I, P.q(fr.F), d, m, fr.stack()); };
            c.instEvent = [](const Instruction& I) {
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction())
                        return contains(T->getName().str(), "pthread_mutex_") || contains(P.d(T), "unordered_map") || contains(P.d(T), "std::map<") || contains(P.d(T), "shared_ptr");
                return false;
            };
            c.opaqueFn = [](const Function* T) { return contains(P.q(T), "Logger::") || contains(P.q(T), "MmapFileIO::"); };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                if (!T)
                    return 0;
                string n = T->getName().str(), d = P.d(T), q = P.q(T);
                string last = q.substr(q.rfind("::") + 2);
                if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock") {
                    s.q[HELD] = n == "pthread_mutex_lock";
                    if (s.q[LOOK] != 3)
                        s.q[LOOK] = 0;
                    s.v["nokill"] = "1";
                    return 1;
                }
                if (startsWith(q, "std::lock_guard") || startsWith(q, "std::unique_lock") || startsWith(q, "std::scoped_lock")) {
                    bool take = last == "lock" || last == "lock_guard" || last == "unique_lock" || last == "scoped_lock";
                    if (take || last == "unlock" || last[0] == '~') {
                        s.q[HELD] = take;
                        s.q[LOOK] = 0;
                    }
                    s.v["nokill"] = "1";
                    return 1;
                }
                if (contains(d, "std::unordered_map<") || contains(d, "std::map<"))
                    if (!CB.arg_empty() && isPool(CB.getArgOperand(0), &fr)) {
                        s.v["nokill"] = "1";
                        if (last == "end" || last == "cend")
                            return 1;
                        R.site(Program::loc(&CB) + " registry " + last);
                        if (!s.q[HELD])
                            bad(&CB, fr, last, "accesses the registry of open databases without its mutex");
                        if (last == "count" || last == "contains") {
                            State a = s, b = s;
                            a.q[LOOK] = 1;
                            b.q[LOOK] = 2;
                            split(out, a, Itv::c(0));
                            split(out, b, Itv::c(1));
                            return 1;
                        }
                        if (contains(d, "::emplace<") || contains(d, "::emplace(") || contains(d, "::insert<") || contains(d, "::insert(") || contains(d, "::try_emplace<")) {
                            s.q[INS] = 1;
                            s.q[LOOK] = 3;
                        }
                        if (last == "operator[]" || last == "insert_or_assign") {
                            if (add && s.q[LOOK] != 1)
                                bad(&CB, fr, "test and set", "adds an entry that was not found absent under the same lock: two handles can both register as the writer");
                            s.q[INS] = 1;
                        }
                        if (last == "erase" && T->arg_size() == 2 && contains(d.substr(d.rfind("::erase(")), "_Node_iterator") && !s.q[REAL])
                            bad(&CB, fr, "erases registration", "drops cached files by prefix without keeping the entries that register an open writer");
                        s.q[REAL] = 0;
                        s.v["nokill"] = "1";
                        return 1;
                    }
                if (contains(d, "_Node_iterator_base") && (contains(d, "operator==") || contains(d, "operator!="))) {
                    bool eq = contains(d, "operator==");
                    State a = s, b = s;
                    if (s.q[LOOK] == 0 || s.q[LOOK] > 2) {
                        a.q[LOOK] = 1;
                        b.q[LOOK] = 2;
                    }
                    split(out, a, Itv::c(eq));
                    split(out, b, Itv::c(!eq));
                    return 1;
                }
                if (contains(d, "shared_ptr<mabain::MmapFileIO>")) {
                    if (contains(d, "operator!=") || contains(d, "operator bool") || contains(d, "operator==")) {
                        bool eq = contains(d, "operator==");
                        State a = s, b = s;
                        a.q[REAL] = 1;
                        b.q[REAL] = 0;
                        split(out, a, Itv::c(!eq));
                        split(out, b, Itv::c(eq));
                        return 1;
                    }
                    if (last == "get") {
                        State a = s, b = s;
                        a.q[REAL] = 1;
                        b.q[REAL] = 0;
                        split(out, a, Itv::range(1, INT64_MAX));
                        split(out, b, Itv::c(0));
                        return 1;
                    }
                }
                if (contains(d, "_Node_iterator") && contains(d, "operator++"))
                    s.q[REAL] = 0;
                return 0;
            };
            R.oblige(P.d(F) + ": registry accessed under its mutex");
            for (auto& e : c.go(F, st({ 0, 0, 0, 0 }))) {
                Frame f0 { F, {} };
                if (e.unwind || !add || e.s.q[LOOK] == 3)
                    continue;
                if (e.ret.contains(0) && !e.s.q[INS])
                    bad(head(F), f0, "granted", "reports success without having added the entry: a second handle becomes writer");
                if (!e.ret.contains(0) && e.s.q[INS])
                    bad(head(F), f0, "refused", "reports failure after adding the entry: nobody can open the database for writing again");
            }
        }
    }
    RegRule r2("C13", "registry", [](Report& R, bool) { registry(R); });
    RegRule r1("C13", "protocol", [](Report& R, bool) { protocol(R); });
}
}
