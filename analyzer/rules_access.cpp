// C09: a handle opened without writer access never changes the database.
#include "rules_lib.h"
#include <chrono>
#include "llvm/Analysis/ValueTracking.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    // libc calls that change files (name -> what)
    const std::map<string, string> sysWrites = { { "unlink", "removes a file" }, { "remove", "removes a file" }, { "rename", "renames a file" }, { "ftruncate", "truncates a file" }, { "ftruncate64", "truncates a file" }, { "truncate", "truncates a file" }, { "rmdir", "removes a directory" }, { "posix_fallocate", "grows a file" }, { "posix_fallocate64", "grows a file" }, { "fallocate", "grows a file" }, { "write", "writes a file" }, { "pwrite", "writes a file" }, { "pwrite64", "writes a file" }, { "shm_unlink", "removes shared memory" } };
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F)
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    int64_t writerBit = 1;
    bool isOption(const Value* V, Frame& fr)
    {
        Frame* f = &fr;
        V = resolveArg(V, f);
        if (auto* CB = dyn_cast<CallBase>(V)) { // accessor
            auto* T = CB->getCalledFunction();
            if (!T || T->isDeclaration() || !P.repo(T))
                return false;
            bool all = true, any = false;
            for (auto& B : *T)
                if (auto* Rt = dyn_cast<ReturnInst>(B.getTerminator())) {
                    auto* L = dyn_cast_or_null<LoadInst>(Rt->getReturnValue());
                    any = true;
                    all = all && L && endsWith(pf(L->getPointerOperand()), ".options");
                }
            return any && all;
        }
        if (auto* L = dyn_cast<LoadInst>(V)) {
            string p = pf(L->getPointerOperand());
            return endsWith(p, ".options") && !contains(p, "MBData") && !contains(p, "writer_options");
        }
        if (auto* A = dyn_cast<Argument>(V)) // the access mode passed to a public function
            return !f->parent && A->getType()->isIntegerTy(32);
        return false;
    }
    bool maybeOption(const Value* V) // what isOption can accept in some context
    {
        if (auto* L = dyn_cast<LoadInst>(V))
            return endsWith(pf(L->getPointerOperand()), ".options");
        return isa<Argument>(V) || isa<CallBase>(V);
    }
    // words of the header a reader may change: its own registration
    bool ownWord(const string& f)
    {
        static const std::set<string> ok = { "IndexHeader.num_reader", "IndexHeader.queue_index" };
        return ok.count(f) || startsWith(f, "ReaderEpochSlot.") || startsWith(f, "AsyncNode");
    }
    // truth of a condition that depends only on the access mode: 0, 1 or -1 (unknown)
    int modeTruth(const Value* V, Frame* fr, int d = 0)
    {
        V = resolveArg(V, fr);
        if (d > 12)
            return -1;
        if (auto* C = dyn_cast<ConstantInt>(V))
            return !C->isZero();
        if (isa<ZExtInst>(V) || isa<TruncInst>(V))
            return modeTruth(cast<Instruction>(V)->getOperand(0), fr, d + 1);
        if (auto* B = dyn_cast<BinaryOperator>(V)) {
            auto* C = dyn_cast<ConstantInt>(B->getOperand(1));
            if (B->getOpcode() == Instruction::And && C && C->getSExtValue() == writerBit && isOption(B->getOperand(0), *fr))
                return 0;
            if (B->getOpcode() == Instruction::Xor && C && C->isOne() && V->getType()->isIntegerTy(1)) {
                int t = modeTruth(B->getOperand(0), fr, d + 1);
                return t < 0 ? t : !t;
            }
        }
        if (auto* C = dyn_cast<ICmpInst>(V))
            if (auto* K = dyn_cast<ConstantInt>(C->getOperand(1))) {
                auto* B = C->getOperand(0);
                int t = modeTruth(B, fr, d + 1);
                if (t != 0 && !(t == 1 && K->isZero()))
                    return -1;
                if (K->isZero() && C->isEquality())
                    return C->getPredicate() == ICmpInst::ICMP_EQ ? !t : t;
                if (t == 0 && C->isEquality())
                    return C->getPredicate() == ICmpInst::ICMP_NE;
                if (t == 0 && C->getPredicate() == ICmpInst::ICMP_SGT)
                    return 0 > K->getSExtValue();
            }
        return -1;
    }
    Engine* curE = nullptr;
    // may the open flags V contain O_CREAT? tags of phis are path-sensitive
    bool mayCreate(const Value* V, Frame* fr, const State& s, int d = 0, bool unknown = true)
    {
        V = resolveArg(V, fr);
        if (auto* C = dyn_cast<ConstantInt>(V))
            return C->getSExtValue() & 0100;
        if (d > 8)
            return unknown;
        if (isa<PHINode>(V))
            return s.get("oc" + std::to_string((size_t)V)) != "0";
        if (auto* S = dyn_cast<SelectInst>(V); S && curE) {
            int m = modeTruth(S->getCondition(), fr);
            Itv ci = m >= 0 ? Itv::c(m) : curE->itv(S->getCondition(), *fr, s);
            if (ci.isConst())
                return mayCreate(ci.lo ? S->getTrueValue() : S->getFalseValue(), fr, s, d + 1, unknown);
        }
        if (auto* S = dyn_cast<SelectInst>(V))
            return mayCreate(S->getTrueValue(), fr, s, d + 1, unknown) || mayCreate(S->getFalseValue(), fr, s, d + 1, unknown);
        if (auto* B = dyn_cast<BinaryOperator>(V))
            if (B->getOpcode() == Instruction::Or)
                return mayCreate(B->getOperand(0), fr, s, d + 1, unknown) || mayCreate(B->getOperand(1), fr, s, d + 1, unknown);
        return unknown;
    }
    bool writeMode(const Value* V)
    {
        StringRef str;
        return !getConstantStringInfo(V, str) || str.contains('w') || str.contains('a') || str.contains('+');
    }
    bool isPublic(const Function* F)
    {
        auto* SP = F->getSubprogram();
        auto* D = SP ? SP->getDeclaration() : nullptr;
        return D && D->isPublic();
    }
    void readerPure(Report& R)
    {
        int64_t W = globalConst(NS + "CONSTS::ACCESS_MODE_WRITER");
        writerBit = W;
        auto* DBI = P.one(NS + "DB::InitDB");
        std::vector<Function*> roots;
        for (auto* F : repoFunctions())
            if (cls(P.q(F)) == "mabain::DB" && (isPublic(F) || callersOf(F).empty()))
                roots.push_back(F);
        (void)DBI;
        // maintenance objects: refuse a handle without writer access
        std::set<Function*> maint;
        for (auto* F : repoFunctions())
            for (string m : { "DBTraverseBase", "DBBackup", "ResourceCollection" })
                if (P.q(F) == NS + m + "::" + m && !F->arg_empty() && contains(P.d(F), "DB const&")) {
                    maint.insert(F);
                    roots.push_back(F);
                }
        if (maint.size() < 3)
            R.violation("reader-pure", &*P.one(NS + "DB::InitDB")->getEntryBlock().begin(), "maintenance", "constructors", "the constructors of DBTraverseBase, ResourceCollection and DBBackup were not found");
        // opening a block file, unmapping unused ones: judged once with the "create" or
        // "writer mode" flag false, then only the flag counts
        std::set<const Function*> barriers;
        for (auto* F : repoFunctions())
            if ((P.q(F) == NS + "RollableFile::CheckAndOpenFile" || P.q(F) == NS + "RollableFile::RemoveUnused") && F->arg_size() == 3 && F->getArg(2)->getType()->isIntegerTy(1)) {
                barriers.insert(F);
                roots.insert(roots.begin(), F);
            }
        for (auto* F : roots) {
            FC c(R);
            auto bad = [&](const Instruction* I, Frame& fr, const string& what) {
                R.violation("reader-pure", I, P.q(fr.F), what, "reached from " + P.d(F) + " on a handle without writer access: " + what, fr.stack());
            };
            auto sink = [&](const string& what) {
                return [&, what](Engine&, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                    R.site(Program::loc(&CB) + " " + what);
                    bad(&CB, fr, what);
                    s.v["nokill"] = "1";
                    return 1;
                };
            };
            for (auto* f : { "RollableFile::RandomWrite", "RollableFile::MemWrite", "RollableFile::Reserve", "RollableFile::PreAlloc", "RollableFile::Malloc", "RollableFile::Free", "RollableFile::ResetJemalloc", "RollableFile::ReseedJemalloc", "RollableFile::AddReusableBlock", "RollableFile::Purge", "FreeList::ReuseBuffer", "FreeList::AddBuffer", "FreeList::RemoveBuffer", "FreeList::StoreListOnDisk", "FreeList::Empty", "FreeList::ReleaseBuffer", "DRMBase::WriteHeader", "PrefixCache::PutAtDepth", "PrefixCache::Put", "remove_db_files", "LockFree::WriterLockFreeStart", "LockFree::WriterLockFreeStop", "FileIO::TruncateFile", "FileIO::AllocateFile", "MmapFileIO::RandomWrite", "MmapFileIO::SeqWrite", "FileIO::Write", "FileIO::RandomWrite" })
                c.calls[NS + f] = sink(f);
            c.calls[NS + "MmapFileIO::MmapFileIO"] = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                curE = &E;
                R.site(Program::loc(&CB) + " opens a database file");
                if (CB.arg_size() > 2 && mayCreate(CB.getArgOperand(2), &fr, s, 0, false))
                    bad(&CB, fr, "opens a file with O_CREAT");
                return 0;
            };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                curE = &E;
                if (T && T != F && barriers.count(T)) {
                    int m = modeTruth(CB.getArgOperand(2), &fr);
                    Itv i = m >= 0 ? Itv::c(m) : E.itv(CB.getArgOperand(2), fr, s);
                    R.site(Program::loc(&CB) + " " + P.q(T));
                    if (!i.isConst() || i.lo)
                        bad(&CB, fr, "may create or remove a block file");
                }
                if (T && T->isDeclaration()) {
                    auto it = sysWrites.find(T->getName().str());
                    bool wakes = false; // the FIFO that wakes the writer
                    for (Frame* g = &fr; g && it != sysWrites.end() && it->first == "write"; g = g->parent)
                        wakes |= contains(P.q(g->F), "MBPipe::");
                    if (it != sysWrites.end() && !wakes) {
                        R.site(Program::loc(&CB) + " " + it->first);
                        bad(&CB, fr, it->second);
                    }
                    auto n = T->getName();
                    if ((n == "open" || n == "open64") && !contains(P.q(fr.F), "acquire_file_lock") && CB.arg_size() > 1 && mayCreate(CB.getArgOperand(1), &fr, s, 0, false))
                        bad(&CB, fr, "opens a file with O_CREAT");
                    if ((n == "fopen" || n == "fopen64") && writeMode(CB.getArgOperand(1)))
                        bad(&CB, fr, "opens a file for writing");
                }
                return 0;
            };
            c.barrierFn = [&](const Function* T) { return T != F && (barriers.count(T) > 0 || contains(P.q(T), "Logger::")); };
            if (barriers.count(F))
                c.enterFn = [&](Engine& E, Frame& fr, State& s) {
                    if (fr.F == F && !fr.parent)
                        E.setFact(s, E.key(F->getArg(2), fr), Itv::c(0));
                };
            c.opaqueFn = [&](const Function* T) {
                if (T != F && barriers.count(T))
                    return true;
                string q = P.q(T); return contains(q, "Logger::") || contains(q, "je_");
            };
            c.instEvent = [&](const Instruction& I) {
                if (auto* B = dyn_cast<BinaryOperator>(&I)) // a test of the access mode
                    if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)))
                        if (B->getOpcode() == Instruction::And && C->getSExtValue() == W && I.getType()->isIntegerTy(32) && maybeOption(B->getOperand(0)))
                            return true;
                string f = storedField(I);
                if (startsWith(f, "IndexHeader.") || startsWith(f, "LockFreeShmData"))
                    return !ownWord(f);
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction()) {
                        if (barriers.count(T)) {
                            auto* C = dyn_cast<ConstantInt>(CB->getArgOperand(2));
                            return !C || !C->isZero();
                        }
                        return T->isDeclaration() && (sysWrites.count(T->getName().str()) > 0 || T->getName() == "open" || T->getName() == "open64" || T->getName() == "fopen" || T->getName() == "fopen64");
                    }
                return false;
            };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                curE = &E;
                if (auto* B = dyn_cast<BinaryOperator>(&I)) {
                    if (B->getOpcode() == Instruction::And)
                        if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1))) {
                            if (C->getSExtValue() == W && isOption(B->getOperand(0), fr))
                                E.setFact(s, E.key(B, fr), Itv::c(0));
                            else if (C->getSExtValue() == 0100 && !mayCreate(B->getOperand(0), &fr, s))
                                E.setFact(s, E.key(B, fr), Itv::c(0));
                        }
                }
                if (auto* Br = dyn_cast<BranchInst>(&I); Br && Br->isConditional()) {
                    int t = modeTruth(Br->getCondition(), &fr);
                    if (t >= 0)
                        E.setFact(s, E.key(Br->getCondition(), fr), Itv::c(t));
                }
                string f = storedField(I);
                if (auto* MI = dyn_cast<MemIntrinsic>(&I)) {
                    Frame* g = &fr;
                    auto* D = resolveArg(MI->getRawDest(), g);
                    if (auto* L = dyn_cast<LoadInst>(D))
                        if (endsWith(pf(L->getPointerOperand()), ".header")) {
                            R.site(Program::loc(&I) + " header");
                            bad(&I, fr, "header overwritten");
                        }
                }
                if ((startsWith(f, "IndexHeader.") || startsWith(f, "LockFreeShmData")) && !ownWord(f)) {
                    R.site(Program::loc(&I) + " " + f);
                    bad(&I, fr, "store to " + f);
                }
                return true;
            };
            c.edgeFn = [&](Engine& E, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) {
                std::vector<std::pair<string, bool>> nv;
                curE = &E;
                for (auto& ph : B->phis())
                    if (ph.getType()->isIntegerTy(32)) {
                        auto* in = ph.getIncomingValueForBlock(I.getParent());
                        if (isa<ConstantInt>(in) || isa<BinaryOperator>(in) || isa<SelectInst>(in) || isa<PHINode>(in))
                            nv.push_back({ "oc" + std::to_string((size_t)&ph), mayCreate(in, &fr, s) });
                    }
                for (auto& x : nv)
                    if (x.second)
                        s.v.erase(x.first);
                    else
                        s.v[x.first] = "0";
            };
            c.leaveFn = [&](Engine&, Frame& fr, Exit& e) {
                for (auto it = e.s.v.begin(); it != e.s.v.end();)
                    if (startsWith(it->first, "oc") && ((const PHINode*)std::stoull(it->first.substr(2)))->getFunction() == fr.F)
                        it = e.s.v.erase(it);
                    else
                        ++it;
            };
            if (getenv("SA_DBG")) {
                std::set<const Function*> seen { F };
                std::vector<const Function*> todo { F };
                while (!todo.empty()) {
                    auto* G = todo.back();
                    todo.pop_back();
                    if (c.relevant(G))
                        fprintf(stderr, "rel %s: %s\n", P.q(F).c_str(), P.q(G).c_str());
                    for (auto* T : P.calleesOf(G))
                        if (!c.barrier(T) && seen.insert(T).second) {
                            todo.push_back(T);
                            if (c.relevant(T))
                                fprintf(stderr, "   %s from %s\n", P.q(T).c_str(), P.q(G).c_str());
                        }
                }
            }
            auto t0 = std::chrono::steady_clock::now();
            auto exits = c.go(F, st({}));
            if (getenv("SA_DBG")) fprintf(stderr, "C09 %s %.1f\n", P.d(F).c_str(), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
            if (maint.count(F)) {
                for (auto& e : exits)
                    if (!e.unwind) {
                        R.violation("reader-pure", &*F->getEntryBlock().begin(), P.q(F), "not refused", P.d(F) + " accepts a handle without writer access, so its updates would run on it");
                        break;
                    }
                R.oblige("C09 " + P.d(F) + ": refuses a handle without writer access");
                continue;
            }
            R.oblige("C09 " + P.d(F) + ": no write to index, data, free lists, header or files without writer access");
        }
    }
    RegRule r1("C09", "reader", [](Report& R, bool) { readerPure(R); });
}
}
