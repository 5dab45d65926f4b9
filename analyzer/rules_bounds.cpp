// C08: lengths are checked before use; fixed buffers hold what is copied into them.
#include "rules_lib.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/MDBuilder.h"
#include <optional>
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/FunctionAttrs.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Utils/Cloning.h"
using namespace llvm;
namespace sa {
namespace {
    const string NS = "mabain::";
    // bytes from a pointer kept in a field to the end of what it points into: the
    // fields of an index edge are 5 bytes of key, 1 of length, 1 of flags, 6 of offset
    const std::map<string, int64_t> pointee = { { "EdgePtrs.ptr", 5 }, { "EdgePtrs.len_ptr", 8 }, { "EdgePtrs.flag_ptr", 7 }, { "EdgePtrs.offset_ptr", 6 } };
    const Value* up(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F || A->getArgNo() >= fr->site->arg_size())
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    // value ranges over the whole program: the ranges of a function's integer arguments
    // are the union of what its callers pass, found by iterating LLVM's value-range
    // analyses on a copy of the module in which what is known so far is assumed
    bool pureHelper(const Function* F) // only computes an answer from what it is given
    {
        static std::unordered_map<const Function*, bool> memo;
        auto it = memo.find(F);
        if (it != memo.end())
            return it->second;
        bool r = !F->isDeclaration() && P.repo(F) && !F->arg_empty() && F->size() <= 24 && F->getReturnType()->isIntegerTy();
        if (r)
            for (auto& I : instructions(*F)) {
                if (auto* S = dyn_cast<StoreInst>(&I))
                    r = r && isa<AllocaInst>(S->getPointerOperand());
                if (auto* CB = dyn_cast<CallBase>(&I))
                    r = r && (isa<IntrinsicInst>(CB) || (CB->getCalledFunction() && CB->getCalledFunction()->getName().starts_with("mb.f0.")));
            }
        return memo[F] = r;
    }
    struct Ranges {
        std::unique_ptr<Module> M;
        ValueToValueMapTy map;
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CAM;
        ModuleAnalysisManager MAM;
        std::map<const Argument*, ConstantRange> args; // of the original
        ConstantRange lvi(const Value* V, const Instruction* ctx) // values of the original
        {
            unsigned w = V->getType()->getIntegerBitWidth();
            if (auto* C = dyn_cast<ConstantInt>(V))
                return ConstantRange(C->getValue());
            Value* v = map[V];
            if (auto* C = dyn_cast_or_null<ConstantInt>(v))
                return ConstantRange(C->getValue());
            auto* I = cast_or_null<Instruction>((Value*)map[ctx]);
            if (!v || !I)
                return ConstantRange::getFull(w);
            auto& F = *I->getFunction();
            auto& LVI = FAM.getResult<LazyValueAnalysis>(F);
            auto r = LVI.getConstantRange(v, I, false);
            auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
            if (SE.isSCEVable(v->getType()))
                r = r.intersectWith(SE.getSignedRange(SE.getSCEV(v)), ConstantRange::Signed);
            return r;
        }
        using OptR = std::optional<ConstantRange>;
        bool same(const Value* A, const Value* B) // also the same value loaded twice
        {
            if (A == B)
                return true;
            if (A->getType() != B->getType() || isa<Constant>(A) || isa<Constant>(B))
                return false;
            Value *a = map[A], *b = map[B];
            return a && a == b;
        }
        // conditions that dominate the place, what a value is made of, and the above
        std::map<const Function*, std::unique_ptr<DominatorTree>> dts;
        void byCond(const Value* V, const Value* C, bool truth, const Instruction* ctx, int d, ConstantRange& r)
        {
            if (auto* B = dyn_cast<BinaryOperator>(C)) {
                if (B->getOpcode() == (truth ? Instruction::And : Instruction::Or)) {
                    byCond(V, B->getOperand(0), truth, ctx, d, r);
                    byCond(V, B->getOperand(1), truth, ctx, d, r);
                } else if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->isOne() && B->getOpcode() == Instruction::Xor)
                    byCond(V, B->getOperand(0), !truth, ctx, d, r);
                return;
            }
            if (auto* S = dyn_cast<SelectInst>(C)) {
                auto *T = dyn_cast<ConstantInt>(S->getTrueValue()), *F = dyn_cast<ConstantInt>(S->getFalseValue());
                if (truth && F && F->isZero()) {
                    byCond(V, S->getCondition(), true, ctx, d, r);
                    byCond(V, S->getTrueValue(), true, ctx, d, r);
                } else if (!truth && T && T->isOne()) {
                    byCond(V, S->getCondition(), false, ctx, d, r);
                    byCond(V, S->getFalseValue(), false, ctx, d, r);
                }
                return;
            }
            if (auto* N = dyn_cast<PHINode>(C)) { // of the conditions that lead to this answer
                auto& DT = dts[N->getFunction()];
                if (d > 4 || (isa<Instruction>(V) && (cast<Instruction>(V)->getFunction() != N->getFunction() || !DT || !DT->dominates(cast<Instruction>(V), N))))
                    return;
                OptR u;
                for (unsigned i = 0; i < N->getNumIncomingValues(); i++) {
                    auto* X = N->getIncomingValue(i);
                    if (auto* K = dyn_cast<ConstantInt>(X); K && K->isOne() != truth)
                        continue;
                    auto* T = N->getIncomingBlock(i)->getTerminator();
                    auto x = at(V, T, d + 1, N->getParent());
                    byCond(V, X, truth, T, d + 1, x);
                    u = u ? u->unionWith(x, ConstantRange::Signed) : x;
                }
                if (u)
                    r = r.intersectWith(*u, ConstantRange::Signed);
                return;
            }
            if (auto* CB = dyn_cast<CallBase>(C)) { // of the returns that give this answer
                auto* T = CB->getCalledFunction();
                if (d > 4 || !T || !pureHelper(T) || T == CB->getFunction())
                    return;
                for (auto& A : T->args()) {
                    if (A.getArgNo() >= CB->arg_size() || !same(CB->getArgOperand(A.getArgNo()), V) || A.getType() != V->getType())
                        continue;
                    OptR u;
                    for (auto& B : *T)
                        if (auto* Ret = dyn_cast<ReturnInst>(B.getTerminator())) {
                            if (auto* K = dyn_cast<ConstantInt>(Ret->getReturnValue()); K && K->isOne() != truth)
                                continue;
                            auto x = at(&A, Ret, d + 1);
                            byCond(&A, Ret->getReturnValue(), truth, Ret, d + 1, x);
                            u = u ? u->unionWith(x, ConstantRange::Signed) : x;
                        }
                    if (u)
                        r = r.intersectWith(*u, ConstantRange::Signed);
                }
                return;
            }
            auto* I = dyn_cast<ICmpInst>(C);
            if (!I)
                return;
            for (int side = 0; side < 2; side++)
                if (same(I->getOperand(side), V)) {
                    auto p = side ? I->getSwappedPredicate() : I->getPredicate();
                    if (!truth)
                        p = CmpInst::getInversePredicate(p);
                    auto o = at(I->getOperand(!side), ctx, d + 1);
                    r = r.intersectWith(ConstantRange::makeAllowedICmpRegion(p, o), ConstantRange::Signed);
                }
        }
        ConstantRange at(const Value* V, const Instruction* ctx, int d = 0, const BasicBlock* edgeTo = nullptr)
        {
            auto r = lvi(V, ctx);
            if (d > 4 || isa<Constant>(V))
                return r;
            auto* F = const_cast<Function*>(ctx->getFunction());
            auto& DT = dts[F];
            if (!DT)
                DT = std::make_unique<DominatorTree>(*F);
            auto* BB = ctx->getParent();
            if (edgeTo)
                if (auto* Br = dyn_cast<BranchInst>(BB->getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
                    byCond(V, Br->getCondition(), Br->getSuccessor(0) == edgeTo, ctx, d, r);
            if (auto* N = DT->getNode(BB))
                for (auto* D = N->getIDom(); D; D = D->getIDom()) {
                    auto* Br = dyn_cast<BranchInst>(D->getBlock()->getTerminator());
                    if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1))
                        continue;
                    for (int k = 0; k < 2; k++)
                        if (DT->dominates(BasicBlockEdge(D->getBlock(), Br->getSuccessor(k)), BB))
                            byCond(V, Br->getCondition(), k == 0, ctx, d, r);
                }
            if (auto* A = dyn_cast<Argument>(V))
                if (auto it = args.find(A); it != args.end())
                    r = r.intersectWith(it->second, ConstantRange::Signed);
            auto* I = dyn_cast<Instruction>(V);
            if (!I)
                return r;
            unsigned w = V->getType()->getIntegerBitWidth();
            if (auto* N = dyn_cast<PHINode>(I)) {
                OptR u;
                int steps = 0; // 1 up, 2 down, from its own earlier value
                for (unsigned i = 0; i < N->getNumIncomingValues(); i++) {
                    if (N->getIncomingValue(i) == N)
                        continue;
                    if (auto* B = dyn_cast<BinaryOperator>(N->getIncomingValue(i)); B && B->getOperand(0) == N && B->hasNoSignedWrap() && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
                        auto y = at(B->getOperand(1), B, d + 2);
                        bool add = B->getOpcode() == Instruction::Add;
                        int k = y.getSignedMin().isNonNegative() ? (add ? 1 : 2) : y.getSignedMax().isNonPositive() ? (add ? 2 : 1) : 3;
                        if (k == 2) { // never more than it began with
                            steps |= k;
                            continue;
                        }
                    }
                    auto x = at(N->getIncomingValue(i), N->getIncomingBlock(i)->getTerminator(), d + 1, N->getParent());
                    u = u ? u->unionWith(x, ConstantRange::Signed) : x;
                }
                if (u && steps)
                    u = u->getSignedMax().isMaxSignedValue() ? ConstantRange::getFull(w) : ConstantRange::getNonEmpty(APInt::getSignedMinValue(w), u->getSignedMax() + 1);
                if (u)
                    r = r.intersectWith(*u, ConstantRange::Signed);
            } else if (auto* S = dyn_cast<SelectInst>(I))
                r = r.intersectWith(at(S->getTrueValue(), ctx, d + 1).unionWith(at(S->getFalseValue(), ctx, d + 1), ConstantRange::Signed), ConstantRange::Signed);
            else if (isa<ZExtInst>(I))
                r = r.intersectWith(at(I->getOperand(0), ctx, d + 1).zeroExtend(w), ConstantRange::Signed);
            else if (isa<SExtInst>(I))
                r = r.intersectWith(at(I->getOperand(0), ctx, d + 1).signExtend(w), ConstantRange::Signed);
            else if (isa<TruncInst>(I))
                r = r.intersectWith(at(I->getOperand(0), ctx, d + 1).truncate(w), ConstantRange::Signed);
            else if (auto* B = dyn_cast<BinaryOperator>(I); B && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
                auto a = at(B->getOperand(0), ctx, d + 1), b = at(B->getOperand(1), ctx, d + 1);
                unsigned nw = B->hasNoSignedWrap() ? OverflowingBinaryOperator::NoSignedWrap : 0;
                r = r.intersectWith(B->getOpcode() == Instruction::Add ? a.addWithNoWrap(b, nw) : a.subWithNoWrap(b, nw), ConstantRange::Signed);
            }
            return r;
        }
        static bool open(const Function* F) // callable from outside
        {
            return callersOf(F).empty() || cls(P.q(F)) == "mabain::DB" || startsWith(P.q(F), NS + "MBData::");
        }
        Ranges()
        {
            M = CloneModule(*P.M, map);
            PassBuilder PB;
            PB.registerModuleAnalyses(MAM);
            PB.registerCGSCCAnalyses(CAM);
            PB.registerFunctionAnalyses(FAM);
            PB.registerLoopAnalyses(LAM);
            PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
            // forward what was stored to the loads that must read it
            {
                ModulePassManager MPM;
                MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass()));
                FunctionPassManager FPM;
                FPM.addPass(EarlyCSEPass(true));
                FPM.addPass(GVNPass());
                MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
                MPM.run(*M, MAM);
            }
            for (int round = 0; round < 10; round++) {
                std::map<const Argument*, ConstantRange> nw;
                for (auto* F : repoFunctions())
                    for (auto& I : instructions(*F))
                        if (auto* CB = dyn_cast<CallBase>(&I))
                            for (auto* T : P.targets(CB)) {
                                if (T->isDeclaration() || !P.repo(T) || open(T))
                                    continue;
                                for (auto& A : T->args())
                                    if (A.getType()->isIntegerTy() && A.getType()->getIntegerBitWidth() <= 64 && A.getArgNo() < CB->arg_size() && CB->getArgOperand(A.getArgNo())->getType() == A.getType()) {
                                        auto r = at(CB->getArgOperand(A.getArgNo()), CB);
                                        if (getenv("SA_RGC") && contains(P.q(T), getenv("SA_RGC")))
                                            fprintf(stderr, "SITE %d %s arg%d [%ld,%ld]\n", round, Program::loc(CB).c_str(), A.getArgNo(), (long)r.getSignedMin().getSExtValue(), (long)r.getSignedMax().getSExtValue());
                                        auto [it, fresh] = nw.insert({ &A, r });
                                        if (!fresh)
                                            it->second = it->second.unionWith(r, ConstantRange::Signed);
                                    }
                            }
                bool changed = false;
                for (auto& [A, r] : nw) {
                    auto it = args.find(A);
                    if (r.isFullSet() || r.isEmptySet() || r.isSignWrappedSet() || (it != args.end() && it->second == r))
                        continue;
                    changed = true;
                    args.erase(A);
                    args.insert({ A, r });
                    auto* v = cast<Argument>((Value*)map[A]);
                    auto* F = v->getParent();
                    IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
                    while (isa<AllocaInst>(&*B.GetInsertPoint()))
                        B.SetInsertPoint(B.GetInsertPoint()->getNextNode());
                    auto& AC = FAM.getResult<AssumptionAnalysis>(*F);
                    AC.registerAssumption(cast<AssumeInst>(B.CreateAssumption(B.CreateICmpSGE(v, ConstantInt::get(v->getType(), r.getSignedMin())))));
                    AC.registerAssumption(cast<AssumeInst>(B.CreateAssumption(B.CreateICmpSLE(v, ConstantInt::get(v->getType(), r.getSignedMax())))));
                    FAM.invalidate(*F, PreservedAnalyses::none());
                }
                changed |= memory();
                if (!changed)
                    break;
            }
        }
        // what memory holds: integer fields of the library's own records, and locals, also
        // those passed by reference; cells that a reference can make one are one class
        std::map<string, int> fieldId;
        std::map<const Value*, int> id;
        std::vector<int> parent;
        std::vector<bool> tainted;
        std::vector<unsigned> width;
        std::map<int, ConstantRange> range;
        std::map<const Instruction*, ConstantRange> loads; // last annotation
        int find(int x)
        {
            while (parent[x] != x)
                x = parent[x] = parent[parent[x]];
            return x;
        }
        int fresh()
        {
            parent.push_back(parent.size());
            tainted.push_back(false);
            width.push_back(0);
            return parent.size() - 1;
        }
        void unite(int a, int b)
        {
            a = find(a), b = find(b);
            if (a == b)
                return;
            tainted[a] = tainted[a] || tainted[b];
            parent[b] = a;
        }
        static bool ownRecord(const string& f)
        {
            for (auto r : { "EdgePtrs.", "NodePtrs.", "AsyncNode.data_len", "AsyncNode.key_len", "HMHeader.inline_key" })
                if (contains(f, r))
                    return true;
            return false;
        }
        // the class of the cell V points to, or -1
        int cellOf(const Value* V)
        {
            if (auto it = id.find(V); it != id.end())
                return find(it->second);
            if (isa<AllocaInst>(V) ? !cast<AllocaInst>(V)->getAllocatedType()->isIntegerTy() : !(isa<Argument>(V) && V->getType()->isPointerTy())) {
                string f = isa<GEPOperator>(V) || isa<CallBase>(V) ? pf(V) : "";
                if (!ownRecord(f) || (isa<GEPOperator>(V) && !cast<GEPOperator>(V)->getResultElementType()->isIntegerTy()))
                    return -1;
                auto [it, nw] = fieldId.insert({ f, 0 });
                if (nw)
                    it->second = fresh();
                return find(it->second);
            }
            int x = id[V] = fresh();
            if (auto* A = dyn_cast<Argument>(V))
                if (open(A->getParent()) || A->getParent()->hasAddressTaken())
                    tainted[x] = true;
            for (auto* U : V->users()) {
                if (isa<LoadInst>(U) || isa<DbgInfoIntrinsic>(U))
                    continue;
                if (auto* S = dyn_cast<StoreInst>(U); S && S->getValueOperand() != V)
                    continue;
                if (auto* I = dyn_cast<IntrinsicInst>(U); I && I->isLifetimeStartOrEnd())
                    continue;
                if (auto* CB = dyn_cast<CallBase>(U); CB && passes(CB, V))
                    continue;
                tainted[find(x)] = true;
            }
            return find(x);
        }
        // V is passed by reference to functions that are all known
        bool passes(const CallBase* CB, const Value* V)
        {
            for (unsigned i = 0; i < CB->arg_size(); i++)
                if (CB->getArgOperand(i) == V) {
                    auto T = P.targets(CB);
                    if (T.empty())
                        return false;
                    for (auto* F : T) {
                        if (i >= F->arg_size())
                            return false;
                        if (startsWith(F->getName().str(), "_ZSt3min") || startsWith(F->getName().str(), "_ZSt3max"))
                            continue; // by const reference
                        if (F->isDeclaration() || !P.repo(F))
                            return false;
                        int c = cellOf(F->getArg(i)), me = cellOf(V);
                        if (c < 0 || me < 0)
                            return false;
                        unite(c, me);
                    }
                }
            return true;
        }
        OptR cell(const Value* ptr, unsigned w)
        {
            if (auto* CB = dyn_cast<CallBase>(ptr)) {
                auto* T = CB->getCalledFunction();
                if (T && startsWith(T->getName().str(), "_ZSt3minI") && CB->arg_size() == 2) {
                    auto a = cell(CB->getArgOperand(0), w), b = cell(CB->getArgOperand(1), w);
                    if (startsWith(T->getName().str(), "_ZSt3minIj") || startsWith(T->getName().str(), "_ZSt3minIm")) {
                        auto small = [&](const OptR& x) { return x && x->getSignedMin().isNonNegative() && !x->isWrappedSet() ? x->getSignedMax().getSExtValue() : INT64_MAX; };
                        int64_t m = std::min(small(a), small(b));
                        if (m != INT64_MAX)
                            return ConstantRange::getNonEmpty(APInt(w, 0), APInt(w, m) + 1);
                    } else if (a && b)
                        return a->smin(*b);
                    return {};
                }
            }
            int c = cellOf(ptr);
            if (c < 0 || tainted[c])
                return {};
            if (auto it = range.find(c); it != range.end() && it->second.getBitWidth() == w)
                return it->second;
            return {};
        }
        // what the conditions before S say about the cell it changes (its only change there)
        ConstantRange guarded(const StoreInst* S, int c)
        {
            auto r = ConstantRange::getFull(S->getValueOperand()->getType()->getIntegerBitWidth());
            std::set<const Value*> seen;
            for (auto& I : instructions(*S->getFunction())) {
                if (auto* T = dyn_cast<StoreInst>(&I); T && T != S && T->getValueOperand()->getType()->isIntegerTy() && cellOf(T->getPointerOperand()) == c)
                    return ConstantRange::getFull(r.getBitWidth());
                if (auto* L = dyn_cast<LoadInst>(&I); L && L->getType() == S->getValueOperand()->getType() && cellOf(L->getPointerOperand()) == c)
                    r = r.intersectWith(at(L, S), ConstantRange::Signed);
            }
            return r;
        }
        bool memory()
        {
            if (id.empty()) // build the classes
                for (auto* F : repoFunctions())
                    for (auto& I : instructions(*F)) {
                        if (isa<AllocaInst>(&I))
                            cellOf(&I);
                        if (auto* CB = dyn_cast<CallBase>(&I))
                            for (auto& A : CB->args())
                                if (A->getType()->isPointerTy() && isa<GEPOperator>(A.get()))
                                    if (int c = cellOf(A.get()); c >= 0 && !passes(CB, A.get()))
                                        tainted[find(c)] = true;
                    }
            range.clear();
            std::map<int, int> steps; // 1 up, 2 down
            auto join = [&](int c, const ConstantRange& r) {
                auto [it, nw] = range.insert({ c, r });
                if (!nw) {
                    if (it->second.getBitWidth() != r.getBitWidth())
                        tainted[c] = true;
                    else
                        it->second = it->second.unionWith(r, ConstantRange::Signed);
                }
            };
            for (auto* F : repoFunctions())
                for (auto& I : instructions(*F))
                    if (auto* S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isIntegerTy()) {
                        int c = cellOf(S->getPointerOperand());
                        if (c < 0)
                            continue;
                        auto* V = S->getValueOperand();
                        if (auto* B = dyn_cast<BinaryOperator>(V); B && B->hasNoSignedWrap() && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
                            auto* L = dyn_cast<LoadInst>(B->getOperand(0));
                            if (L && cellOf(L->getPointerOperand()) == c) {
                                auto x = at(B->getOperand(1), S);
                                bool add = B->getOpcode() == Instruction::Add;
                                if (add && isa<ConstantInt>(B->getOperand(1))) { // counts up to what its guard allows
                                    auto g = guarded(S, c);
                                    if (!g.getSignedMax().isMaxSignedValue()) {
                                        join(c, g.add(x));
                                        continue;
                                    }
                                }
                                if (!fieldId.empty() && !isa<AllocaInst>(S->getPointerOperand()) && !isa<Argument>(S->getPointerOperand()))
                                    if (Itv e = engineRange(S); e.lo > INT32_MIN && e.hi < INT32_MAX && B->getType()->isIntegerTy(32)) {
                                        join(c, ConstantRange::getNonEmpty(APInt(32, e.lo, true), APInt(32, e.hi, true) + 1));
                                        continue;
                                    }
                                if (x.getSignedMin().isNonNegative()) {
                                    steps[c] |= add ? 1 : 2;
                                    continue;
                                }
                                if (x.getSignedMax().isNegative()) {
                                    steps[c] |= add ? 2 : 1;
                                    continue;
                                }
                            }
                        }
                        auto r = at(V, S);
                        if (r.getBitWidth() == 32) {
                            Itv e = engineRange(S);
                            int64_t lo = std::max(e.lo, r.getSignedMin().getSExtValue()), hi = std::min(e.hi, r.getSignedMax().getSExtValue());
                            if (lo <= hi)
                                r = ConstantRange::getNonEmpty(APInt(32, lo, true), APInt(32, hi, true) + 1);
                        }
                        join(c, r);
                    }
            for (auto& f : fieldId) // a new record is zero
                if (auto it = range.find(find(f.second)); it != range.end())
                    it->second = it->second.unionWith(ConstantRange(APInt(it->second.getBitWidth(), 0)), ConstantRange::Signed);
            for (auto& [c, how] : steps)
                if (auto it = range.find(c); it != range.end()) {
                    unsigned w = it->second.getBitWidth();
                    APInt lo = how & 2 ? APInt::getSignedMinValue(w) : it->second.getSignedMin();
                    APInt hi = how & 1 ? APInt::getSignedMaxValue(w) : it->second.getSignedMax();
                    it->second = ConstantRange::getNonEmpty(lo, hi + 1);
                }
            bool ch = false;
            MDBuilder MB(M->getContext());
            for (auto* F : repoFunctions()) {
                bool inv = false;
                for (auto& I : instructions(*F)) {
                    OptR r;
                    if (auto* L = dyn_cast<LoadInst>(&I); L && L->getType()->isIntegerTy() && L->getType()->getIntegerBitWidth() >= 32)
                        r = cell(L->getPointerOperand(), L->getType()->getIntegerBitWidth());
                    else if (auto* CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && CB->getCalledFunction()->getName() == "strlen") {
                        int64_t n = fixedSize(CB->getArgOperand(0)); // the text in a fixed array
                        if (n > 0)
                            r = ConstantRange(APInt(64, 0), APInt(64, n));
                    }
                    if (!r || r->isFullSet() || r->isEmptySet())
                        continue;
                    auto it = loads.find(&I);
                    if (it != loads.end() && it->second == *r)
                        continue;
                    if (it != loads.end())
                        loads.erase(it);
                    loads.insert({ &I, *r });
                    if (auto* MI = dyn_cast_or_null<Instruction>((Value*)map[&I]); MI && (isa<LoadInst>(MI) || isa<CallBase>(MI)) && MI->getType() == I.getType())
                        MI->setMetadata(LLVMContext::MD_range, MB.createRange(r->getLower(), r->getUpper()));
                    inv = ch = true;
                }
                if (inv)
                    FAM.invalidate(*cast<Function>((Value*)map[F]), PreservedAnalyses::none());
            }
            return ch;
        }
        static int64_t fixedSize(const Value* V);
        // what the path-sensitive engine knows about a stored value, from its function alone
        std::map<const StoreInst*, Itv> stored;
        std::set<const Function*> ran;
        Itv engineRange(const StoreInst* S)
        {
            auto* F = const_cast<Function*>(S->getFunction());
            if (ran.insert(F).second) {
                Report dummy;
                FC c(dummy);
                c.instEvent = [](const Instruction&) { return false; };
                c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                    if (auto* T = dyn_cast<StoreInst>(&I); T && !fr.parent && T->getValueOperand()->getType()->isIntegerTy()) {
                        Itv v = E.itv(T->getValueOperand(), fr, s);
                        auto [it, nw] = stored.insert({ T, v });
                        if (!nw)
                            it->second = Itv::range(std::min(it->second.lo, v.lo), std::max(it->second.hi, v.hi));
                    }
                    return true;
                };
                c.go(F, st({ 0 }));
            }
            auto it = stored.find(S);
            return it == stored.end() ? Itv() : it->second;
        }
        int64_t hi(const Value* V, const Instruction* ctx) // signed upper bound
        {
            auto m = at(V, ctx).getSignedMax();
            return m.getBitWidth() <= 64 ? m.getSExtValue() : INT64_MAX;
        }
    };
    Ranges* RG = nullptr;
    const int64_t UNKNOWN = INT64_MIN, NOBOUND = INT64_MIN + 1;
    // capacity of what V points to: bytes, UNKNOWN, or NOBOUND (fixed object, unbounded index)
    int64_t cap(Engine* E, const Value* V, Frame* fr, const State* s, string& what, const Instruction* ctx = nullptr, int d = 0)
    {
        if (fr)
            V = up(V, fr);
        if (d > 12)
            return UNKNOWN;
        auto& DL = P.M->getDataLayout();
        if (auto* A = dyn_cast<Argument>(V)) { // the smallest its callers give
            int64_t r = UNKNOWN;
            if (!A->getType()->isPointerTy() || d > 4 || !(startsWith(P.q(A->getParent()), NS + "Dict") || startsWith(P.q(A->getParent()), NS + "detail::SearchEngine::")))
                return r;
            for (auto* CB : callsTo(P.q(A->getParent())))
                if (CB->getFunction() != A->getParent() && A->getArgNo() < CB->arg_size()) {
                    string w;
                    int64_t c = cap(nullptr, CB->getArgOperand(A->getArgNo()), nullptr, nullptr, w, CB, d + 1);
                    if (startsWith(w, "local ") && c != UNKNOWN && c != NOBOUND && (r == UNKNOWN || c < r))
                        r = c, what = w;
                }
            return r;
        }
        if (auto* A = dyn_cast<AllocaInst>(V)) {
            what = "local " + valDesc(A);
            if (A->isArrayAllocation())
                return UNKNOWN;
            return DL.getTypeAllocSize(A->getAllocatedType());
        }
        if (auto* G = dyn_cast<GlobalVariable>(V)) {
            what = "global " + G->getName().str();
            return DL.getTypeAllocSize(G->getValueType());
        }
        if (auto* L = dyn_cast<LoadInst>(V)) {
            string f = pf(L->getPointerOperand());
            for (auto& k : pointee)
                if (endsWith(f, k.first)) {
                    what = f;
                    return k.second;
                }
            return UNKNOWN;
        }
        if (auto* K = dyn_cast<CastInst>(V))
            return K->getOperand(0)->getType()->isPointerTy() ? cap(E, K->getOperand(0), fr, s, what, ctx, d + 1) : UNKNOWN;
        if (auto* S = dyn_cast<SelectInst>(V)) {
            int64_t a = cap(E, S->getOperand(1), fr, s, what, ctx, d + 1), b = cap(E, S->getOperand(2), fr, s, what, ctx, d + 1);
            return a == UNKNOWN ? b : b == UNKNOWN ? a : std::min(a, b);
        }
        if (auto* G = dyn_cast<GEPOperator>(V)) {
            // innermost array reached through a struct member
            Type* last = nullptr;
            bool viaStruct = false, arrayIdx = false;
            int64_t off = 0;
            bool unb = false;
            unsigned i = 0;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it, ++i) {
                auto* op = it.getOperand();
                if (auto* ST = it.getStructTypeOrNull()) {
                    last = ST->getElementType(cast<ConstantInt>(op)->getZExtValue());
                    viaStruct = true;
                    off = 0;
                    unb = false;
                    continue;
                }
                int64_t sz = DL.getTypeAllocSize(it.getIndexedType());
                if (auto* C = dyn_cast<ConstantInt>(op))
                    off += C->getSExtValue() * sz;
                else {
                    Itv x = E ? E->itv(op, *fr, *s) : Itv();
                    if (!E && !RG)
                        x = Itv::c(0); // only what it points into is asked for
                    if (auto* I = dyn_cast<Instruction>(V); I && RG)
                        x.hi = std::min(x.hi, RG->hi(op, ctx && ctx->getFunction() == I->getFunction() ? ctx : I));
                    if (x.hi > (1LL << 40))
                        unb = true;
                    else
                        off += x.hi * sz;
                }
                if (i > 0)
                    arrayIdx = true;
            }
            if (viaStruct) {
                if (!last || !last->isArrayTy())
                    return UNKNOWN;
                what = pf(V);
                return unb ? NOBOUND : (int64_t)DL.getTypeAllocSize(last) - off;
            }
            (void)arrayIdx;
            int64_t b = cap(E, G->getPointerOperand(), fr, s, what, ctx, d + 1);
            if (b == UNKNOWN || b == NOBOUND)
                return b;
            return unb ? NOBOUND : b - off;
        }
        return UNKNOWN;
    }
    int64_t Ranges::fixedSize(const Value* V)
    {
        string what;
        return cap(nullptr, V, nullptr, nullptr, what);
    }
    struct Sink {
        int dst = -1, src = -1, len = -1;
    };
    Sink sinkOf(const CallBase& CB)
    {
        Sink k;
        auto* T = CB.getCalledFunction();
        if (!T)
            return k;
        auto n = T->getName();
        if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove")
            return { 0, 1, 2 };
        if (n.starts_with("llvm.memset") || n == "memset")
            return { 0, -1, 2 };
        if (n == "memcmp" || n == "bcmp")
            return { 0, 1, 2 };
        if (n == "snprintf" || n == "vsnprintf" || n == "strncpy")
            return { 0, -1, n == "strncpy" ? 2 : 1 };
        if (n == "read" || n == "pread" || n == "pread64")
            return { 1, -1, 2 };
        if (n == "write" || n == "pwrite" || n == "pwrite64")
            return { -1, 1, 2 };
        string q = P.q(T);
        for (auto f : { "DRMBase::ReadData", "RollableFile::RandomRead", "MmapFileIO::RandomRead", "FileIO::RandomRead", "RollableFile::MemRead" })
            if (q == NS + f)
                return { 1, -1, 2 };
        for (auto f : { "DRMBase::WriteData", "DictMem::WriteData", "Dict::WriteData", "RollableFile::RandomWrite", "MmapFileIO::RandomWrite", "FileIO::RandomWrite", "RollableFile::MemWrite" })
            if (q == NS + f)
                return { -1, 1, 2 };
        if (q == NS + "DictMem::ReserveData" || q == NS + "Dict::ReserveData")
            return { -1, 1, 2 };
        return k;
    }
    // what both analyses know, also about the parts of a difference or of an argument
    Itv both(Engine& E, Frame* fr, const State& s, const Value* V, const Instruction* ctx, int d = 0)
    {
        Itv v = E.itv(const_cast<Value*>(V), *fr, s);
        if (!V->getType()->isIntegerTy() || V->getType()->getIntegerBitWidth() > 64)
            return v;
        auto cut = [&](int64_t lo, int64_t hi) { v = Itv::range(std::max(v.lo, lo), std::min(v.hi, hi)); };
        auto r = RG->at(V, ctx);
        cut(r.getSignedMin().getSExtValue(), r.getSignedMax().getSExtValue());
        if (d > 5)
            return v;
        if (auto* A = dyn_cast<Argument>(V); A && fr->parent && fr->site && A->getArgNo() < fr->site->arg_size() && fr->site->getArgOperand(A->getArgNo())->getType() == A->getType()) {
            Itv p = both(E, fr->parent, s, fr->site->getArgOperand(A->getArgNo()), fr->site, d + 1);
            cut(p.lo, p.hi);
        } else if (auto* B = dyn_cast<BinaryOperator>(V); B && B->hasNoSignedWrap() && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
            Itv a = both(E, fr, s, B->getOperand(0), ctx, d + 1), b = both(E, fr, s, B->getOperand(1), ctx, d + 1);
            if (B->getOpcode() == Instruction::Sub)
                b = Itv::range(b.hi == INT64_MIN ? INT64_MAX : -b.hi, b.lo == INT64_MIN ? INT64_MAX : -b.lo);
            int64_t lo, hi;
            cut(__builtin_add_overflow(a.lo, b.lo, &lo) ? INT64_MIN : lo, __builtin_add_overflow(a.hi, b.hi, &hi) ? INT64_MAX : hi);
        } else if (isa<SExtInst>(V)) {
            Itv a = both(E, fr, s, cast<Instruction>(V)->getOperand(0), ctx, d + 1);
            cut(a.lo, a.hi);
        }
        return v;
    }
    // does `ok` hold at I on every path, seen from the function of I, else from its
    // callers, and theirs?
    bool proved(Report& R, const Instruction* at, std::function<bool(Engine&, Frame&, State&)> ok, string& from)
    {
        static int failed = 0;
        if (failed >= 3) { // enough is known to be wrong
            R.notes.push_back("not decided after three violations: " + Program::loc(at));
            return true;
        }
        auto* F0 = const_cast<Function*>(at->getFunction());
        std::vector<std::pair<Function*, int>> work { { F0, 0 } };
        std::set<Function*> done;
        while (!work.empty()) {
            auto [F, d] = work.back();
            work.pop_back();
            if (!done.insert(F).second)
                continue;
            bool good = true;
            FC c(R);
            c.instEvent = [&](const Instruction& I) { return &I == at || pureHelper(I.getFunction()); };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (&I == at && good && !ok(E, fr, s))
                    good = false;
                return true;
            };
            c.go(F, st({ 0 }));
            if (getenv("SA_RG"))
                fprintf(stderr, "PROVE %s %s from %s: %d\n", Program::loc(at).c_str(), P.q(F0).c_str(), P.q(F).c_str(), good);
            if (good)
                continue;
            auto& cs = callersOf(F);
            bool outer = false; // the operations of Dict answer for themselves
            for (auto* C : cs)
                outer = outer || (startsWith(P.q(F), NS + "Dict::") && !startsWith(P.q(C), NS + "Dict::"));
            bool layer = startsWith(P.q(F), NS + "Dict") || startsWith(P.q(F), NS + "detail::SearchEngine::");
            if (cs.empty() || outer || !layer || Ranges::open(F) || d > 3) {
                from = P.q(F);
                failed++;
                return false;
            }
            for (auto* C : cs)
                work.push_back({ const_cast<Function*>(C), d + 1 });
        }
        return true;
    }
    string desc(int64_t v) { return v == NOBOUND || v > (1LL << 31) - 4096 ? "any number of" : std::to_string(v); }
    void copies(Report& R)
    {
        Ranges rg;
        RG = &rg;
        if (getenv("SA_RG")) {
            std::error_code EC;
            raw_fd_ostream o("/tmp/clone.ll", EC);
            rg.M->print(o, nullptr);
            for (auto& [A, r] : rg.args)
                fprintf(stderr, "ARG %s %d [%ld,%ld]\n", P.q(A->getParent()).c_str(), A->getArgNo(), (long)r.getSignedMin().getSExtValue(), (long)r.getSignedMax().getSExtValue());
            for (auto& [f, i] : rg.fieldId) {
                int c = rg.find(i);
                auto it = rg.range.find(c);
                if (it != rg.range.end())
                    fprintf(stderr, "FIELD %s [%ld,%ld] %d\n", f.c_str(), (long)it->second.getSignedMin().getSExtValue(), (long)it->second.getSignedMax().getSExtValue(), (int)rg.tainted[c]);
            }
        }
        auto ptrOf = [](const Instruction& I) -> const Value* {
            if (auto* L = dyn_cast<LoadInst>(&I))
                return L->getPointerOperand();
            if (auto* S = dyn_cast<StoreInst>(&I))
                return S->getPointerOperand();
            if (auto* CB = dyn_cast<CallBase>(&I); CB && !P.atomicOp(CB).empty())
                return CB->getArgOperand(0);
            return nullptr;
        };
        auto var = [](const Value* V) {
            for (int d = 0; d < 6; d++) {
                auto* G = dyn_cast<GEPOperator>(V);
                if (!G)
                    return false;
                if (!G->hasAllConstantIndices())
                    return true;
                V = G->getPointerOperand();
            }
            return false;
        };
        long nc = 0, ni = 0;
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F)) {
                auto* CB = dyn_cast<CallBase>(&I);
                Sink k = CB ? sinkOf(*CB) : Sink();
                if (k.len >= 0)
                    for (int i : { k.dst, k.src }) {
                        if (i < 0)
                            continue;
                        auto* V = CB->getArgOperand(i);
                        auto* N = CB->getArgOperand(k.len);
                        string what;
                        int64_t whole = cap(nullptr, V, nullptr, nullptr, what);
                        if (whole == UNKNOWN)
                            continue;
                        if (isa<Argument>(V->stripPointerCasts()) && i == k.src)
                            continue;
                        bool edge = contains(what, "EdgePtrs.") && pointee.count(what.substr(what.find("EdgePtrs.")));
                        if (edge && i == k.src)
                            continue;
                        string from = P.q(F);
                        int64_t seen = 0, room = 0;
                        auto fits = [&](Engine* E, Frame* fr, const State* s) {
                            string w;
                            int64_t c = cap(E, V, fr, s, w, &I);
                            int64_t n = rg.hi(N, &I);
                            if (E)
                                n = std::min(n, both(*E, fr, *s, N, &I).hi);
                            seen = n, room = c;
                            // the whole edge, of which the text of the key is the first field
                            int64_t l = rg.at(N, &I).getSignedMin().getSExtValue();
                            if (E)
                                l = both(*E, fr, *s, N, &I).lo;
                            if (contains(what, "AsyncNode.") && l < 0) { // from outside the process
                                seen = NOBOUND;
                                return false;
                            }
                            if (edge && endsWith(w, "EdgePtrs.ptr") && isa<ConstantInt>(N) && n == 13 && c == 5)
                                return true;
                            return c == UNKNOWN || (c != NOBOUND && n <= c);
                        };
                        nc++;
                        R.site(Program::loc(&I) + " " + what);
                        if (!fits(nullptr, nullptr, nullptr) && !proved(R, &I, [&](Engine& E, Frame& fr, State& s) { return fits(&E, &fr, &s); }, from))
                            R.violation("copies", &I, P.q(F), what + (i == k.dst ? " filled" : " read"), "up to " + desc(seen) + " bytes are " + (i == k.dst ? "put into " : "taken from ") + what + ", which has room for " + desc(room), from);
                    }
                auto* V = ptrOf(I);
                if (!V || !var(V))
                    continue;
                string what;
                if (cap(nullptr, V, nullptr, nullptr, what) == UNKNOWN || (contains(what, "EdgePtrs.") && pointee.count(what.substr(what.find("EdgePtrs.")))))
                    continue;
                ni++;
                R.site(Program::loc(&I) + " " + what + "[]");
                int64_t room = 0;
                string from;
                {
                    string w;
                    room = cap(nullptr, V, nullptr, nullptr, w, &I);
                }
                if (!(room != NOBOUND && room > 0) && !proved(R, &I, [&](Engine& E, Frame& fr, State& s) {
                        string w;
                        room = cap(&E, V, &fr, &s, w, &I);
                        return room == UNKNOWN || (room != NOBOUND && room > 0);
                    },
                        from))
                    R.violation("copies", &I, P.q(F), what + " indexed", "the index into " + what + " can lie beyond its end", from);
            }
        R.oblige("copies: " + std::to_string(nc) + " copies to or from buffers of fixed size and " + std::to_string(ni) + " accesses by a variable index stay within the buffer for every key, value and stored byte");
        if (nc < 60)
            R.violation("copies", &*P.one(NS + "Dict::Add")->getEntryBlock().begin(), "copies", "none", "the copies into fixed-size buffers were not found");
        // lengths kept in one byte
        long nl = 0;
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F))
                if (auto* S = dyn_cast<StoreInst>(&I))
                    if (auto* T = dyn_cast<TruncInst>(S->getValueOperand()); T && T->getType()->isIntegerTy(8)) {
                        auto* L = dyn_cast<LoadInst>(S->getPointerOperand());
                        if (!L || !endsWith(pf(L->getPointerOperand()), "EdgePtrs.len_ptr"))
                            continue;
                        nl++;
                        R.site(Program::loc(S) + " length of an edge");
                        int64_t seen = 0;
                        string from;
                        if (rg.hi(T->getOperand(0), S) > 255 && !proved(R, S, [&](Engine& E, Frame& fr, State& s) {
                                seen = both(E, &fr, s, T->getOperand(0), S).hi;
                                return seen <= 255;
                            },
                                from))
                            R.violation("lengths", S, P.q(F), "edge length", "a length of up to " + desc(seen) + " is stored in the one byte an edge has for it", from);
                    }
        // the first edge takes the whole key
        for (auto* CB : callsTo(NS + "DictMem::AddRootEdge")) {
            auto* N = CB->getArgOperand(3);
            string from;
            int64_t lo = 0;
            R.site(Program::loc(CB) + " length of the key");
            auto ok = [&](Engine* E, Frame* fr, const State* s) {
                lo = rg.at(N, CB).getSignedMin().getSExtValue();
                if (E)
                    lo = both(*E, fr, *s, N, CB).lo;
                return lo >= 1;
            };
            if (!ok(nullptr, nullptr, nullptr) && !proved(R, CB, [&](Engine& E, Frame& fr, State& s) { return ok(&E, &fr, &s); }, from))
                R.violation("lengths", CB, P.q(CB->getFunction()), "empty key", "a key of no bytes is added", from);
        }
        R.oblige("lengths: " + std::to_string(nl) + " stores of an edge's length are of at most 255");
        // a value's length and the request for its space
        long nv = 0;
        int64_t MAXV = globalConst(NS + "CONSTS::MAX_DATA_SIZE");
        std::map<Function*, std::map<const CallBase*, Itv>> runs; // root -> site -> lengths seen there
        auto seenFrom = [&](Function* root) -> std::map<const CallBase*, Itv>& {
            auto [it, nw] = runs.insert({ root, {} });
            if (nw) {
                FC c(R);
                c.instEvent = [&](const Instruction& I) { return pureHelper(I.getFunction()); };
                c.calls[NS + "Dict::ReserveData"] = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                    Itv v = E.itv(CB.getArgOperand(2), fr, s);
                    auto r = rg.at(CB.getArgOperand(2), &CB);
                    v = Itv::range(std::max(v.lo, r.getSignedMin().getSExtValue()), std::min(v.hi, r.getSignedMax().getSExtValue()));
                    auto [k, first] = it->second.insert({ &CB, v });
                    if (!first)
                        k->second = Itv::range(std::min(k->second.lo, v.lo), std::max(k->second.hi, v.hi));
                    return 0;
                };
                c.go(root, st({ 0 }));
            }
            return it->second;
        };
        for (auto* CB : callsTo(NS + "Dict::ReserveData")) {
            nv++;
            R.site(Program::loc(CB) + " reserves space for a value");
            std::vector<std::pair<Function*, int>> work { { CB->getFunction(), 0 } };
            std::set<Function*> done;
            while (!work.empty()) {
                auto [F, d] = work.back();
                work.pop_back();
                if (!done.insert(F).second)
                    continue;
                auto& m = seenFrom(F);
                auto it = m.find(CB);
                if (it == m.end() || (it->second.lo >= 1 && it->second.hi <= std::min<int64_t>(MAXV, 0xFFFF)))
                    continue;
                bool outer = callersOf(F).empty() || d > 3;
                for (auto* C : callersOf(F))
                    outer = outer || !startsWith(P.q(C), NS + "Dict::");
                if (outer)
                    R.violation("lengths", CB, P.q(CB->getFunction()), "value length", "space is reserved for a value of length " + it->second.str() + "; the longest is " + std::to_string(MAXV), P.q(F));
                else
                    for (auto* C : callersOf(F))
                        work.push_back({ const_cast<Function*>(C), d + 1 });
            }
        }
        R.oblige("lengths: " + std::to_string(nv) + " reservations of space for a value are for 1 to " + std::to_string(MAXV) + " bytes");
        if (!nl || !nv)
            R.violation("lengths", &*P.one(NS + "Dict::Add")->getEntryBlock().begin(), "lengths", "none", "the stores of edge lengths or the reservations for values were not found");
        RG = nullptr;
    }
    // a list for every size of buffer
    void freeLists(Report& R)
    {
        const int64_t valueMax = globalConst(NS + "CONSTS::MAX_DATA_SIZE") + 4, nodeMax = 8 + 256 * (1 + 13);
        bool seen[2] = { false, false };
        for (int index = 0; index < 2; index++)
            for (auto* F : repoFunctions()) {
                string n = index ? "DictMem" : "Dict";
                if (P.q(F) != NS + n + "::" + n || F->arg_size() < 4)
                    continue;
                FC c(R);
                c.calls[NS + "FreeList::FreeList"] = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                    Itv al = E.itv(CB.getArgOperand(2), fr, s), num = E.itv(CB.getArgOperand(3), fr, s);
                    // the lists belong to the object being constructed
                    bool ofIndex = false;
                    for (Frame* f = &fr; f; f = f->parent)
                        if (P.q(f->F) == NS + "DictMem::DictMem" || P.q(f->F) == NS + "Dict::Dict") {
                            ofIndex = P.q(f->F) == NS + "DictMem::DictMem";
                            break;
                        }
                    if (ofIndex != bool(index))
                        return 0;
                    R.site(Program::loc(&CB) + " free lists of the " + (index ? "index" : "data") + " pool");
                    seen[index] = true;
                    int64_t need = index ? nodeMax : valueMax;
                    if (!al.isConst() || !num.isConst() || al.lo <= 0 || al.lo * num.lo < need)
                        R.violation("free-lists", &CB, P.q(CB.getFunction()), index ? "index" : "data", "the free lists of the " + string(index ? "index" : "data") + " pool reach to buffers of " + (al.isConst() && num.isConst() ? std::to_string(al.lo * num.lo) : string("an unknown size")) + " bytes; the largest buffer has " + std::to_string(need), P.q(F));
                    return 0;
                };
                c.go(F, st({ 0 }));
            }
        if (!seen[0] || !seen[1])
            R.violation("free-lists", &*P.one(NS + "Dict::Add")->getEntryBlock().begin(), "free lists", "none", "the construction of the free lists was not found");
        R.oblige("free-lists: the lists reach to the largest value (" + std::to_string(valueMax) + " bytes with its header) and the largest node (" + std::to_string(nodeMax) + ")");
    }
    // text is put into a buffer only with the buffer's size
    void text(Report& R)
    {
        static const std::set<string> unbounded = { "vsprintf", "sprintf", "strcpy", "strcat", "stpcpy", "gets", "__isoc99_sscanf", "__isoc99_scanf", "wcscpy" };
        long n = 0, ok = 0;
        for (auto* F : repoFunctions()) {
            if (!contains(Program::fileOf(F), "src/"))
                continue;
            for (auto& I : instructions(*F)) {
                auto* CB = dyn_cast<CallBase>(&I);
                auto* T = CB ? CB->getCalledFunction() : nullptr;
                if (!T || !T->isDeclaration())
                    continue;
                string name = T->getName().str();
                if (name == "snprintf" || name == "vsnprintf" || name == "strftime")
                    ok++;
                if (!unbounded.count(name))
                    continue;
                n++;
                R.site(Program::loc(CB) + " " + name);
                // a constant format which only prints numbers has a longest result
                StringRef f;
                bool bounded = name == "sprintf" && getConstantStringInfo(CB->getArgOperand(1), f);
                for (size_t i = 0; bounded && i < f.size(); i++)
                    if (f[i] == '%') {
                        size_t j = i + 1;
                        while (j < f.size() && (isdigit(f[j]) || f[j] == 'l' || f[j] == 'h' || f[j] == 'z' || f[j] == '-' || f[j] == '+'))
                            j++;
                        bounded = j < f.size() && strchr("dxXuc%i", f[j]);
                        i = j;
                    }
                if (!bounded)
                    R.violation("text", CB, P.q(F), name, name + " puts text of any length into a buffer");
            }
        }
        R.oblige("text: " + std::to_string(ok) + " calls that format text are given the size of the buffer; " + std::to_string(n) + " are not and print numbers only");
    }
    RegRule r2("C08", "free-lists", [](Report& R, bool) { freeLists(R); });
    RegRule r3("C08", "text", [](Report& R, bool) { text(R); });
    RegRule r1("C08", "copies", [](Report& R, bool) { copies(R); });
}
}
