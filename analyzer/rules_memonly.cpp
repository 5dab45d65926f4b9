// C26: a memory-only database lives in memory alone.
#include "rules_lib.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    const int64_t ANON = 0x80000000LL;
    int64_t MEM = 0x10;
    const std::map<string, string> sysWrites = { { "unlink", "removes a file" }, { "unlinkat", "removes a file" }, { "remove", "removes a file" }, { "rename", "renames a file" }, { "link", "makes a file" }, { "symlink", "makes a file" }, { "ftruncate", "truncates a file" }, { "ftruncate64", "truncates a file" }, { "truncate", "truncates a file" }, { "truncate64", "truncates a file" }, { "rmdir", "removes a directory" }, { "mkdir", "makes a directory" }, { "creat", "makes a file" }, { "creat64", "makes a file" }, { "posix_fallocate", "grows a file" }, { "posix_fallocate64", "grows a file" }, { "fallocate", "grows a file" }, { "fallocate64", "grows a file" } };
    const Value* up(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F || A->getArgNo() >= fr->site->arg_size())
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    bool optionField(const string& p)
    {
        return (endsWith(p, ".options") && !contains(p, "MBData") && !contains(p, "MmapFileIO") && !contains(p, "FileIO") && !contains(p, "writer_options")) || endsWith(p, "RollableFile.mode");
    }
    // the options of the database, as kept in one of its objects or passed along
    bool isOption(const Value* V, Frame& fr, int d = 0)
    {
        Frame* f = &fr;
        V = up(V, f);
        if (d > 6)
            return false;
        if (auto* CB = dyn_cast<CallBase>(V)) { // accessor
            auto* T = CB->getCalledFunction();
            if (!T || T->isDeclaration() || !P.repo(T))
                return false;
            bool all = true, any = false;
            for (auto& B : *T)
                if (auto* Rt = dyn_cast<ReturnInst>(B.getTerminator())) {
                    auto* L = dyn_cast_or_null<LoadInst>(Rt->getReturnValue());
                    any = true;
                    all = all && L && optionField(pf(L->getPointerOperand()));
                }
            return any && all;
        }
        if (auto* L = dyn_cast<LoadInst>(V))
            return optionField(pf(L->getPointerOperand()));
        if (auto* B = dyn_cast<BinaryOperator>(V)) // other options set or cleared
            if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)))
                if ((B->getOpcode() == Instruction::And && (C->getSExtValue() & MEM)) || (B->getOpcode() == Instruction::Or && !(C->getSExtValue() & MEM)))
                    return isOption(B->getOperand(0), *f, d + 1);
        if (auto* A = dyn_cast<Argument>(V)) // the access mode passed to a public function
            return !f->parent && A->getType()->isIntegerTy(32);
        return false;
    }
    bool maybeOption(const Value* V)
    {
        if (auto* L = dyn_cast<LoadInst>(V))
            return optionField(pf(L->getPointerOperand()));
        return isa<Argument>(V) || isa<CallBase>(V) || isa<BinaryOperator>(V);
    }
    int modeTruth(const Value* V, Frame* fr, int d = 0)
    {
        V = up(V, fr);
        if (d > 12)
            return -1;
        if (auto* C = dyn_cast<ConstantInt>(V))
            return !C->isZero();
        if (isa<ZExtInst>(V) || isa<TruncInst>(V))
            return modeTruth(cast<Instruction>(V)->getOperand(0), fr, d + 1);
        if (auto* B = dyn_cast<BinaryOperator>(V)) {
            auto* C = dyn_cast<ConstantInt>(B->getOperand(1));
            if (B->getOpcode() == Instruction::And && C && C->getSExtValue() == MEM && isOption(B->getOperand(0), *fr))
                return 1;
            if (B->getOpcode() == Instruction::Xor && C && C->isOne() && V->getType()->isIntegerTy(1)) {
                int t = modeTruth(B->getOperand(0), fr, d + 1);
                return t < 0 ? t : !t;
            }
        }
        if (auto* C = dyn_cast<ICmpInst>(V); C && C->isEquality())
            if (auto* K = dyn_cast<ConstantInt>(C->getOperand(1)); K && (K->isZero() || (K->getSExtValue() == MEM && isa<BinaryOperator>(C->getOperand(0))))) {
                int t = modeTruth(C->getOperand(0), fr, d + 1);
                if (t < 0)
                    return -1;
                bool eq = C->getPredicate() == ICmpInst::ICMP_EQ;
                return K->isZero() ? (eq ? !t : t) : (eq ? t : !t);
            }
        if (auto* CB = dyn_cast<CallBase>(V)) // a helper that tests the mode
            if (auto* T = CB->getCalledFunction(); T && !T->isDeclaration() && P.repo(T) && T->size() == 1)
                if (auto* Rt = dyn_cast<ReturnInst>(T->getEntryBlock().getTerminator()); Rt && Rt->getReturnValue()) {
                    Frame g;
                    g.F = const_cast<Function*>(T);
                    g.parent = fr;
                    g.site = CB;
                    return modeTruth(Rt->getReturnValue(), &g, d + 1);
                }
        return -1;
    }
    // the edges of a helper that a memory-only database can take
    std::set<std::pair<const BasicBlock*, const BasicBlock*>> feasible(const Function* T, Frame* fr)
    {
        std::set<std::pair<const BasicBlock*, const BasicBlock*>> edges;
        std::vector<const BasicBlock*> todo { &T->getEntryBlock() };
        std::set<const BasicBlock*> seen { &T->getEntryBlock() };
        while (!todo.empty()) {
            auto* B = todo.back();
            todo.pop_back();
            auto* Br = dyn_cast<BranchInst>(B->getTerminator());
            int t = Br && Br->isConditional() ? modeTruth(Br->getCondition(), fr) : -1;
            for (unsigned i = 0; i < B->getTerminator()->getNumSuccessors(); i++) {
                if (t >= 0 && (int)i != (t ? 0 : 1))
                    continue;
                auto* S = B->getTerminator()->getSuccessor(i);
                edges.insert({ B, S });
                if (seen.insert(S).second)
                    todo.push_back(S);
            }
        }
        return edges;
    }
    // do the flags V surely have the bit that keeps a file anonymous?
    bool anon(const Value* V, Frame* fr, const State& s, int d = 0)
    {
        V = up(V, fr);
        if (auto* C = dyn_cast<ConstantInt>(V))
            return C->getSExtValue() & ANON;
        if (d > 8)
            return false;
        if (auto* Ph = dyn_cast<PHINode>(V); Ph && fr->fid == -7) {
            bool any = false;
            auto edges = feasible(fr->F, fr);
            for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
                if (edges.count({ Ph->getIncomingBlock(i), Ph->getParent() })) {
                    any = true;
                    if (!anon(Ph->getIncomingValue(i), fr, s, d + 1))
                        return false;
                }
            return any;
        }
        if (auto* CB = dyn_cast<CallBase>(V))
            if (auto* T = CB->getCalledFunction(); T && !T->isDeclaration() && P.repo(T)) {
                Frame g;
                g.F = const_cast<Function*>(T);
                g.parent = fr;
                g.site = CB;
                g.fid = -7;
                bool any = false;
                auto edges = feasible(T, &g);
                for (auto& B : *T)
                    if (auto* Rt = dyn_cast<ReturnInst>(B.getTerminator())) {
                        bool reached = &B == &T->getEntryBlock();
                        for (auto* Pr : predecessors(&B))
                            reached |= edges.count({ Pr, &B }) > 0;
                        if (!reached)
                            continue;
                        any = true;
                        if (!Rt->getReturnValue() || !anon(Rt->getReturnValue(), &g, s, d + 1))
                            return false;
                    }
                return any;
            }
        if (isa<PHINode>(V))
            return s.get("an" + std::to_string((size_t)V)) == "1";
        if (auto* S = dyn_cast<SelectInst>(V)) {
            int m = modeTruth(S->getCondition(), fr);
            bool a = anon(S->getTrueValue(), fr, s, d + 1), b = anon(S->getFalseValue(), fr, s, d + 1);
            return m < 0 ? a && b : m ? a : b;
        }
        if (auto* B = dyn_cast<BinaryOperator>(V)) {
            if (B->getOpcode() == Instruction::Or)
                return anon(B->getOperand(0), fr, s, d + 1) || anon(B->getOperand(1), fr, s, d + 1);
            if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)); C && B->getOpcode() == Instruction::And)
                return (C->getSExtValue() & ANON) && anon(B->getOperand(0), fr, s, d + 1);
        }
        return false;
    }
    bool writeMode(const Value* V)
    {
        StringRef str;
        return !getConstantStringInfo(V, str) || str.contains('w') || str.contains('a') || str.contains('+');
    }
    bool isPublic(const Function* F)
    {
        auto* SP = F->getSubprogram();
        auto* D = SP ? SP->getDeclaration() : nullptr;
        return D && D->isPublic();
    }
    bool queueFile(Frame& fr) // the queue between processes is shared memory by its nature
    {
        for (Frame* g = &fr; g; g = g->parent)
            if (contains(P.q(g->F), "ShmQueueMgr::"))
                return true;
        return false;
    }
    // the object of a file in memory touches no file
    void files(Report& R)
    {
        long n = 0;
        for (auto* F : repoFunctions()) {
            if (P.q(F) != NS + "MmapFileIO::MmapFileIO")
                continue;
            n++;
            FC c(R);
            auto test = [&](const Instruction& I) {
                auto* B = dyn_cast<BinaryOperator>(&I);
                auto* C = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
                return C && B->getOpcode() == Instruction::And && (uint32_t)C->getSExtValue() == (uint32_t)ANON;
            };
            c.instEvent = test;
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (test(I))
                    E.setFact(s, E.key(&I, fr), Itv::c(ANON));
                if (auto* C = dyn_cast<ICmpInst>(&I); C && C->isEquality())
                    if (auto* B = dyn_cast<Instruction>(C->getOperand(0)); B && test(*B))
                        E.setFact(s, E.key(&I, fr), Itv::c(C->getPredicate() == ICmpInst::ICMP_NE));
                return true;
            };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                if (T && T->isDeclaration()) {
                    auto m = T->getName().str();
                    if (m == "open" || m == "open64" || sysWrites.count(m)) {
                        R.site(Program::loc(&CB) + " " + m);
                        R.violation("files", &CB, P.q(fr.F), m, "the object of a block in memory opens or changes a file", fr.stack());
                    }
                }
                return 0;
            };
            c.calls[NS + "FileIO::Open"] = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                R.violation("files", &CB, P.q(fr.F), "open", "the object of a block in memory opens a file", fr.stack());
                return 1;
            };
            c.opaqueFn = [](const Function* T) { return contains(P.q(T), "Logger::"); };
            c.go(F, st({}));
        }
        R.oblige("files: the " + std::to_string(n) + " constructor of a block opens no file in anonymous mode");
        // and maps no descriptor
        long k = 0;
        for (auto* F : repoFunctions())
            if (P.q(F) == NS + "MmapFileIO::MapFile") {
                FC c(R);
                auto test = [&](const Instruction& I) {
                    auto* B = dyn_cast<BinaryOperator>(&I);
                    auto* C = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
                    return C && B->getOpcode() == Instruction::And && (uint32_t)C->getSExtValue() == (uint32_t)ANON;
                };
                c.instEvent = test;
                c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                    if (test(I))
                        E.setFact(s, E.key(&I, fr), Itv::c(ANON));
                    if (auto* C = dyn_cast<ICmpInst>(&I); C && C->isEquality())
                        if (auto* B = dyn_cast<Instruction>(C->getOperand(0)); B && test(*B))
                            E.setFact(s, E.key(&I, fr), Itv::c(C->getPredicate() == ICmpInst::ICMP_NE));
                    return true;
                };
                c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                    if (T && (T->getName() == "mmap" || T->getName() == "mmap64")) {
                        k++;
                        R.site(Program::loc(&CB) + " mmap");
                        Itv fl = E.itv(CB.getArgOperand(3), fr, s);
                        if (!fl.isConst() || !(fl.lo & 0x20))
                            R.violation("files", &CB, P.q(fr.F), "mmap", "a block in memory is mapped from a file", fr.stack());
                    }
                    if (T && P.q(T) == NS + "FileIO::MapFile") {
                        R.violation("files", &CB, P.q(fr.F), "mmap", "a block in memory is mapped from a file", fr.stack());
                        return 1;
                    }
                    return 0;
                };
                c.opaqueFn = [](const Function* T) { return contains(P.q(T), "Logger::"); };
                c.go(F, st({}));
            }
        if (!n || !k)
            R.violation("files", &*P.one(NS + "DB::InitDB")->getEntryBlock().begin(), "files", "none", "the anonymous mapping of a block was not found");
        R.oblige("files: a block in memory is mapped anonymously (" + std::to_string(k) + " mmap)");
    }
    void memOnly(Report& R)
    {
        MEM = globalConst(NS + "CONSTS::MEMORY_ONLY_MODE");
        std::vector<Function*> roots;
        for (auto* F : repoFunctions())
            if (cls(P.q(F)) == "mabain::DB" && (isPublic(F) || callersOf(F).empty()))
                roots.push_back(F);
        std::set<const Instruction*> opened;
        // opening and dropping a block file: judged once, for every caller
        std::set<const Function*> barriers;
        for (auto* F : repoFunctions())
            if (P.q(F) == NS + "RollableFile::CheckAndOpenFile" || P.q(F) == NS + "RollableFile::RemoveUnused" || P.q(F) == NS + "ResourcePool::OpenFileWithKey") {
                barriers.insert(F);
                if (P.q(F) != NS + "ResourcePool::OpenFileWithKey")
                    roots.insert(roots.begin(), F);
            }
        for (auto* F : roots) {
            FC c(R);
            auto bad = [&](const Instruction* I, Frame& fr, const string& what) {
                R.violation("memory-only", I, P.q(fr.F), what, "reached from " + P.d(F) + " on a memory-only database: " + what, fr.stack());
            };
            c.calls[NS + "MmapFileIO::MmapFileIO"] = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                R.site(Program::loc(&CB) + " opens a block");
                opened.insert(&CB);
                if (!queueFile(fr) && !anon(CB.getArgOperand(2), &fr, s))
                    bad(&CB, fr, "opens a file on disk for a block");
                s.v["nokill"] = "1";
                return 1;
            };
            for (auto* f : { "DRMBase::WriteHeader", "FreeList::StoreListOnDisk", "DBBackup::Backup", "remove_db_files" })
                c.calls[NS + f] = [&, f](Engine&, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                    R.site(Program::loc(&CB) + " " + f);
                    bad(&CB, fr, string("calls ") + f);
                    s.v["nokill"] = "1";
                    return 1;
                };
            auto sys = [](const Function* T) {
                auto n = T->getName();
                return T->isDeclaration() && (sysWrites.count(n.str()) || n == "open" || n == "open64" || n == "fopen" || n == "fopen64");
            };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                if (T && sys(T)) {
                    string n = T->getName().str();
                    bool pipe = false; // the FIFO that wakes the writer, the lock of the directory
                    for (Frame* g = &fr; g; g = g->parent)
                        pipe |= contains(P.q(g->F), "MBPipe::") || contains(P.q(g->F), "acquire_file_lock");
                    if (pipe || queueFile(fr))
                        return 0;
                    R.site(Program::loc(&CB) + " " + n);
                    if (sysWrites.count(n))
                        bad(&CB, fr, sysWrites.at(n));
                    else if (n == "fopen" || n == "fopen64") {
                        if (writeMode(CB.getArgOperand(1)))
                            bad(&CB, fr, "opens a file for writing");
                    } else {
                        Itv fl = E.itv(CB.getArgOperand(1), fr, s);
                        if (!fl.isConst() || (fl.lo & 0100))
                            bad(&CB, fr, "may create a file");
                    }
                }
                return 0;
            };
            c.opaqueFn = [&](const Function* T) {
                if (T != F && !barriers.count(F) && barriers.count(T) && P.q(T) != NS + "ResourcePool::OpenFileWithKey")
                    return true;
                string q = P.q(T);
                return contains(q, "Logger::") || contains(q, "je_");
            };
            c.barrierFn = [&](const Function* T) { return (T != F && !barriers.count(F) && barriers.count(T)) || contains(P.q(T), "Logger::"); };
            c.instEvent = [&](const Instruction& I) {
                if (auto* B = dyn_cast<BinaryOperator>(&I))
                    if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)))
                        if (B->getOpcode() == Instruction::And && C->getSExtValue() == MEM && I.getType()->isIntegerTy(32) && maybeOption(B->getOperand(0)))
                            return true;
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (auto* T = CB->getCalledFunction())
                        return sys(T) && !contains(P.q(CB->getFunction()), "MBPipe::");
                return false;
            };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (auto* B = dyn_cast<BinaryOperator>(&I))
                    if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)))
                        if (B->getOpcode() == Instruction::And && C->getSExtValue() == MEM && isOption(B->getOperand(0), fr))
                            E.setFact(s, E.key(B, fr), Itv::c(MEM));
                if (auto* Br = dyn_cast<BranchInst>(&I); Br && Br->isConditional()) {
                    int t = modeTruth(Br->getCondition(), &fr);
                    if (t >= 0)
                        E.setFact(s, E.key(Br->getCondition(), fr), Itv::c(t));
                }
                return true;
            };
            c.edgeFn = [&](Engine& E, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) {
                std::vector<std::pair<string, bool>> nv;
                for (auto& ph : B->phis())
                    if (ph.getType()->isIntegerTy(32)) {
                        auto* in = ph.getIncomingValueForBlock(I.getParent());
                        if (isa<ConstantInt>(in) || isa<BinaryOperator>(in) || isa<SelectInst>(in) || isa<PHINode>(in) || isa<CallBase>(in))
                            nv.push_back({ "an" + std::to_string((size_t)&ph), anon(in, &fr, s) });
                    }
                for (auto& x : nv)
                    if (x.second)
                        s.v[x.first] = "1";
                    else
                        s.v.erase(x.first);
            };
            c.leaveFn = [&](Engine&, Frame& fr, Exit& e) {
                for (auto it = e.s.v.begin(); it != e.s.v.end();)
                    if (startsWith(it->first, "an") && ((const PHINode*)std::stoull(it->first.substr(2)))->getFunction() == fr.F)
                        it = e.s.v.erase(it);
                    else
                        ++it;
            };
            if (getenv("SA_DBG")) {
                std::set<const Function*> seen { F };
                std::vector<const Function*> todo { F };
                while (!todo.empty()) {
                    auto* G = todo.back();
                    todo.pop_back();
                    for (auto* T : P.calleesOf(G))
                        if (!c.barrier(T) && seen.insert(T).second) {
                            todo.push_back(T);
                            if (c.relevant(T))
                                fprintf(stderr, "   %s from %s\n", P.q(T).c_str(), P.q(G).c_str());
                        }
                }
                fprintf(stderr, "root %s\n", P.q(F).c_str());
            }
            c.go(F, st({}));
            R.oblige("memory-only " + P.d(F) + ": no file of the database is opened, made, changed or removed");
        }
        if (opened.empty())
            R.violation("memory-only", &*P.one(NS + "DB::InitDB")->getEntryBlock().begin(), "blocks", "none", "the opening of a block was not reached");
    }
    RegRule r1("C26", "memory-only", [](Report& R, bool) { memOnly(R); });
    RegRule r2("C26", "files", [](Report& R, bool) { files(R); });
}
}
