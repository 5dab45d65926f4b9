// A client assembled from event tables: calls by qualified name and instruction
// predicates.  Relevance (descent) follows from the events automatically.
#pragma once
#include "rules.h"
namespace sa {
struct FC : Client {
    using CallFn = std::function<int(Engine&, Frame&, CallBase&, Function*, State&, std::vector<Exit>&)>;
    using InstFn = std::function<bool(Engine&, Frame&, Instruction&, State&)>;
    Report& R;
    std::map<string, CallFn> calls;
    CallFn anyCall; // consulted for calls not in the table (null callee allowed)
    InstFn instFn;
    std::function<bool(const Instruction&)> instEvent; // which instructions make a function relevant
    std::set<string> opaque; // never entered
    std::function<bool(const Function*)> opaqueFn;
    std::function<void(Engine&, Frame&, const Instruction&, const BasicBlock*, State&)> edgeFn;
    std::function<void(Engine&, Frame&, Exit&)> leaveFn;
    std::function<void(Engine&, Frame&, State&)> enterFn;
    std::function<bool(const Function*)> barrierFn;
    std::unordered_map<const Function*, bool> rel;
    explicit FC(Report& r)
        : R(r)
    {
    }
    bool relevant(const Function* F) override
    {
        auto it = rel.find(F);
        if (it != rel.end())
            return it->second;
        bool r = false;
        for (auto& I : llvm::instructions(*F)) {
            if (auto* CB = llvm::dyn_cast<CallBase>(&I))
                for (auto* T : P.targets(CB))
                    if (calls.count(P.q(T)))
                        r = true;
            if (!r && instEvent && instEvent(I))
                r = true;
            if (r)
                break;
        }
        return rel[F] = r;
    }
    bool barrier(const Function* F) override { return barrierFn && barrierFn(F); }
    bool descend(Function* F) override { return !opaque.count(P.q(F)) && !(opaqueFn && opaqueFn(F)); }
    bool inst(Engine& E, Frame& fr, Instruction& I, State& s) override { return instFn ? instFn(E, fr, I, s) : true; }
    int call(Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) override
    {
        if (T) {
            auto it = calls.find(P.q(T));
            if (it != calls.end())
                return it->second(E, fr, CB, T, s, out);
        }
        return anyCall ? anyCall(E, fr, CB, T, s, out) : 0;
    }
    void edge(Engine& E, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) override
    {
        if (edgeFn)
            edgeFn(E, fr, I, B, s);
    }
    void leave(Engine& E, Frame& fr, Exit& e) override
    {
        if (leaveFn)
            leaveFn(E, fr, e);
    }
    void enter(Engine& E, Frame& fr, State& s) override
    {
        if (enterFn)
            enterFn(E, fr, s);
    }
    // analyse one root; returns its exits
    std::vector<Exit> go(Function* F, State init, const string& note = "")
    {
        Engine E(*this);
        auto ex = E.run(F, init);
        dbgRun(F, E, ex.size());
        noteRun(R, E, P.q(F));
        (void)note;
        return ex;
    }
};
inline State st(std::vector<int> q)
{
    State s;
    s.q = q;
    return s;
}
// exits for a modelled call: one per (return interval, state)
inline void split(std::vector<Exit>& out, const State& s, const Itv& ret)
{
    Exit e;
    e.s = s;
    e.s.v["nokill"] = "1";
    e.ret = ret;
    out.push_back(e);
}
inline string fieldBase(const string& f) // drop namespace and the leading underscore of C structs
{
    string r = f;
    size_t p;
    while ((p = r.find("::")) != string::npos && p < r.find('.'))
        r = r.substr(p + 2);
    if (!r.empty() && r[0] == '_')
        r = r.substr(1);
    return r;
}
inline string pf(const Value* ptr) { return fieldBase(P.ptrField(ptr)); }
// store to a field, plain or atomic: returns field name or ""
inline string storedField(const Instruction& I)
{
    if (auto* S = llvm::dyn_cast<llvm::StoreInst>(&I))
        return pf(S->getPointerOperand());
    if (auto* CB = llvm::dyn_cast<CallBase>(&I)) {
        string op = P.atomicOp(CB);
        if (!op.empty() && op != "load")
            return pf(CB->getArgOperand(0));
    }
    return "";
}
inline const Value* storedValue(const Instruction& I)
{
    if (auto* S = llvm::dyn_cast<llvm::StoreInst>(&I))
        return S->getValueOperand();
    if (auto* CB = llvm::dyn_cast<CallBase>(&I))
        if (CB->arg_size() > 1)
            return CB->getArgOperand(1);
    return nullptr;
}
inline string loadedField(const Instruction& I)
{
    if (auto* L = llvm::dyn_cast<llvm::LoadInst>(&I))
        return pf(L->getPointerOperand());
    if (auto* CB = llvm::dyn_cast<CallBase>(&I))
        if (P.atomicOp(CB) == "load")
            return pf(CB->getArgOperand(0));
    return "";
}
// MBError constants by name are not in IR: fixed public values (error.h), checked by C18
namespace mberr {
    const int64_t SUCCESS = 0, TRY_AGAIN = -1;
}
}
namespace sa {
// Exits of a call that is not entered: normal return with the given value plus
// every exception it may throw; the fields it may modify are forgotten.
inline void summarised(Engine& E, CallBase& CB, Function* T, const State& s, const Itv& ret, std::vector<Exit>& out)
{
    State a = s;
    for (auto& f : P.modSet(T))
        E.killField(a, f);
    Exit n;
    n.s = a;
    n.ret = ret;
    out.push_back(n);
    for (auto& ty : P.escapes(T)) {
        Exit u;
        u.s = a;
        u.unwind = true;
        u.excType = ty;
        u.s.v["exc"] = ty;
        out.push_back(u);
    }
}
// +1 / -1 for "field = field +- 1", 0 for anything else stored
inline int64_t fieldDelta(const Instruction& I, const string& field)
{
    if (auto* CB = llvm::dyn_cast<CallBase>(&I)) {
        string op = P.atomicOp(CB);
        if (op == "fetch_add" || op == "rmw")
            if (auto* C = llvm::dyn_cast<llvm::ConstantInt>(CB->getArgOperand(1)))
                return C->getSExtValue();
        return 0;
    }
    auto* B = llvm::dyn_cast_or_null<llvm::BinaryOperator>(storedValue(I));
    if (!B)
        return 0;
    auto* C = llvm::dyn_cast<llvm::ConstantInt>(B->getOperand(1));
    auto* L = llvm::dyn_cast<llvm::LoadInst>(B->getOperand(0));
    if (!C || !L || pf(L->getPointerOperand()) != field)
        return 0;
    return B->getOpcode() == Instruction::Add ? C->getSExtValue() : B->getOpcode() == Instruction::Sub ? -C->getSExtValue() : 0;
}
// small helper that only computes with its integer arguments
inline bool scalarHelper(const Function* F)
{
    static std::unordered_map<const Function*, bool> memo;
    auto it = memo.find(F);
    if (it != memo.end())
        return it->second;
    bool r = !F->isDeclaration() && P.repo(F) && !F->arg_empty() && F->size() <= 24;
    for (auto& A : F->args())
        r = r && A.getType()->isIntegerTy();
    if (r)
        for (auto& I : llvm::instructions(*F)) {
            if (auto* S = llvm::dyn_cast<llvm::StoreInst>(&I))
                r = r && llvm::isa<llvm::AllocaInst>(S->getPointerOperand());
            if (auto* L = llvm::dyn_cast<llvm::LoadInst>(&I))
                r = r && llvm::isa<llvm::AllocaInst>(L->getPointerOperand());
        }
    return memo[F] = r;
}
}
