// C04: the lock-free window protocol itself: publication order, memory orders,
// and the conditions under which a reader may declare its read valid.
#include "rules_lib.h"
#include "llvm/Analysis/LoopInfo.h"
using namespace llvm;
namespace sa {
namespace {
    const string CNT = "LockFreeShmData.counter", OFF = "LockFreeShmData.offset", CACHE = "LockFreeShmData.offset_cache";
    const string SNAP = "LockFreeData.counter";
    bool isRel(int64_t o) { return o == 3 || o == 4 || o == 5; }
    bool isAcq(int64_t o) { return o == 2 || o == 1 || o == 4 || o == 5; }
    // LockFreeShmData.offset_cache appears as the array field on the access path
    string af(const CallBase* CB)
    {
        const Value* p = CB->getArgOperand(0);
        string f = pf(p);
        if (f.empty())
            if (auto* G = dyn_cast<GEPOperator>(p))
                f = pf(G->getPointerOperand());
        return f;
    }
    int64_t order(const CallBase* CB, const string& op)
    {
        unsigned need = op == "load" ? 1 : 2;
        if (CB->arg_size() <= need)
            return CB->arg_size() == need ? 5 : 5; // operator forms are seq_cst
        return constArg(CB, need, 5);
    }
    unsigned cacheLen()
    {
        for (auto* ST : P.M->getIdentifiedStructTypes())
            if (endsWith(fieldBase(ST->getName().str() + ".x"), "LockFreeShmData.x") || contains(ST->getName().str(), "_LockFreeShmData"))
                for (auto* T : ST->elements())
                    if (auto* A = dyn_cast<ArrayType>(T))
                        return A->getNumElements();
        return 0;
    }
    const Value* strip(const Value* V)
    {
        while (auto* C = dyn_cast<CastInst>(V))
            V = C->getOperand(0);
        return V;
    }
    // index operand of an access to offset_cache
    const Value* cacheIndex(const CallBase* CB)
    {
        const Value* p = CB->getArgOperand(0);
        while (auto* G = dyn_cast<GEPOperator>(p)) {
            if (G->getNumOperands() >= 2) {
                const Value* last = G->getOperand(G->getNumOperands() - 1);
                if (G->getSourceElementType()->isArrayTy() || !isa<ConstantInt>(last))
                    return last;
            }
            p = G->getPointerOperand();
        }
        return nullptr;
    }
    // linear form over opaque atoms (loads of the same address are one atom)
    struct Lin {
        std::map<string, int64_t> c;
        int64_t k = 0;
        bool ok = true;
        Lin add(const Lin& o, int64_t m) const
        {
            Lin r = *this;
            r.ok = ok && o.ok;
            r.k += m * o.k;
            for (auto& p : o.c)
                if ((r.c[p.first] += m * p.second) == 0)
                    r.c.erase(p.first);
            return r;
        }
        bool operator==(const Lin& o) const { return ok && o.ok && c == o.c && k == o.k; }
    };
    string atom(const Value* V)
    {
        if (auto* L = dyn_cast<LoadInst>(V)) {
            string f = pf(L->getPointerOperand());
            return f.empty() ? "load" + std::to_string((size_t)L->getPointerOperand()) : f;
        }
        if (auto* CB = dyn_cast<CallBase>(V))
            if (P.atomicOp(CB) == "load")
                return af(CB);
        return "v" + std::to_string((size_t)V);
    }
    Lin lin(const Value* V, int d = 0)
    {
        V = strip(V);
        Lin r;
        if (d > 20)
            r.ok = false;
        else if (auto* K = dyn_cast<ConstantInt>(V))
            r.k = K->getSExtValue();
        else if (auto* B = dyn_cast<BinaryOperator>(V)) {
            if (B->getOpcode() == Instruction::Add)
                return lin(B->getOperand(0), d + 1).add(lin(B->getOperand(1), d + 1), 1);
            if (B->getOpcode() == Instruction::Sub)
                return lin(B->getOperand(0), d + 1).add(lin(B->getOperand(1), d + 1), -1);
            r.c[atom(V)] = 1;
        } else if (auto* A = dyn_cast<Argument>(V)) {
            const CallBase* only = nullptr;
            int n = 0;
            for (auto* C : callersOf(A->getParent()))
                for (auto& I : instructions(*C))
                    if (auto* CB = dyn_cast<CallBase>(&I))
                        if (CB->getCalledFunction() == A->getParent()) {
                            only = CB;
                            n++;
                        }
            if (n == 1 && !P.q(A->getParent()).empty() && A->getType()->isIntegerTy())
                return lin(only->getArgOperand(A->getArgNo()), d + 1);
            r.c[atom(V)] = 1;
        } else
            r.c[atom(V)] = 1;
        return r;
    }
    Lin subst(Lin e, const string& a, const Lin& by)
    {
        auto it = e.c.find(a);
        if (it == e.c.end())
            return e;
        int64_t m = it->second;
        e.c.erase(it);
        return e.add(by, m);
    }
    // The history scan as a counted loop: first slot and number of slots.
    // Returns the branch controlling the loop when the shape is recognised.
    const Instruction* scanLoop(CallBase* CB, Lin& first, Lin& trips, int64_t& step)
    {
        auto* F = CB->getFunction();
        DominatorTree DT(*F);
        LoopInfo LI(DT);
        Loop* L = LI.getLoopFor(CB->getParent());
        auto* ix = cacheIndex(CB);
        if (!L || !ix)
            return nullptr;
        const Value* base = strip(ix);
        if (auto* rem = dyn_cast<BinaryOperator>(base))
            if (rem->getOpcode() == Instruction::URem || rem->getOpcode() == Instruction::And || rem->getOpcode() == Instruction::SRem)
                base = rem->getOperand(0);
        Lin e = lin(base);
        PHINode* Ph = nullptr;
        for (auto& ph : L->getHeader()->phis())
            if (e.c.count(atom(&ph)))
                Ph = &ph;
        if (!Ph || e.c[atom(Ph)] != 1)
            return nullptr;
        Lin start, next;
        start.ok = next.ok = false;
        for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
            (L->contains(Ph->getIncomingBlock(i)) ? next : start) = lin(Ph->getIncomingValue(i));
        Lin st = next.add([&] { Lin x; x.c[atom(Ph)] = 1; return x; }(), -1);
        if (!st.ok || !start.ok || !st.c.empty())
            return nullptr;
        step = st.k;
        first = subst(e, atom(Ph), start);
        auto* BI = dyn_cast<BranchInst>(L->getHeader()->getTerminator());
        if (!BI || !BI->isConditional())
            return nullptr;
        auto* C = dyn_cast<ICmpInst>(BI->getCondition());
        if (!C)
            return nullptr;
        bool in0 = L->contains(BI->getSuccessor(0)), in1 = L->contains(BI->getSuccessor(1));
        if (in0 == in1)
            return nullptr;
        auto p = in0 ? C->getPredicate() : C->getInversePredicate();
        Lin a = lin(C->getOperand(0)), b = lin(C->getOperand(1));
        // the loop may be counted by another variable, up or down
        for (auto& ph : L->getHeader()->phis()) {
            string at = atom(&ph);
            if (&ph == Ph || !ph.getType()->isIntegerTy() || !(a.c.count(at) || b.c.count(at)))
                continue;
            Lin s2, n2;
            s2.ok = n2.ok = false;
            for (unsigned i = 0; i < ph.getNumIncomingValues(); i++)
                (L->contains(ph.getIncomingBlock(i)) ? n2 : s2) = lin(ph.getIncomingValue(i));
            Lin d2 = n2.add([&] { Lin x; x.c[at] = 1; return x; }(), -1);
            if (!s2.ok || !d2.ok || !d2.c.empty() || (d2.k != 1 && d2.k != -1))
                return nullptr;
            auto* K = &ph;
            if (d2.k == 1) {
                Ph = K;
                start = s2;
            } else { // left to do: while (n > 0), while (n != 0), or counted down to 1
                auto q = p;
                Lin x = a, y = b;
                if (!x.c.count(at)) {
                    std::swap(x, y);
                    q = ICmpInst::getSwappedPredicate(q);
                }
                if (!y.c.empty() || !y.ok || !x.ok || x.c.size() != 1 || x.c[at] != 1 || x.k)
                    return nullptr;
                bool pos = (q == ICmpInst::ICMP_NE || q == ICmpInst::ICMP_UGT || q == ICmpInst::ICMP_SGT);
                bool ge = (q == ICmpInst::ICMP_UGE || q == ICmpInst::ICMP_SGE);
                if (!pos && !ge)
                    return nullptr;
                trips = s2;
                trips.k -= y.k - (ge ? 1 : 0);
                return trips.ok && first.ok ? BI : nullptr;
            }
            break;
        }
        if (p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_SGE) {
            std::swap(a, b);
            p = ICmpInst::getSwappedPredicate(p);
        }
        if (p == ICmpInst::ICMP_NE && !a.c.count(atom(Ph)))
            std::swap(a, b);
        if (!a.c.count(atom(Ph)))
            return nullptr;
        Lin n = b.add(a, -1);
        if (p == ICmpInst::ICMP_ULE || p == ICmpInst::ICMP_SLE)
            n.k += 1;
        else if (p != ICmpInst::ICMP_NE && p != ICmpInst::ICMP_ULT && p != ICmpInst::ICMP_SLT)
            return nullptr;
        trips = subst(n, atom(Ph), start);
        return trips.ok && first.ok ? BI : nullptr;
    }
    void ops(Report& R, const Instruction& I, const string& fn, const string& op, const string& f, int64_t o, bool writer)
    {
        bool ok = true;
        if (op == "load")
            ok = writer || isAcq(o); // the writer re-reads its own values
        else
            ok = isRel(o);
        R.oblige("memory-order: " + fn + " " + op + " of " + f + " at " + Program::loc(&I));
        R.site(Program::loc(&I) + " " + op + " " + f + " order " + std::to_string(o));
        if (!ok)
            R.violation("memory-order", &I, fn, f + ":" + op, op + " of " + f + " uses memory order " + std::to_string(o) + (op == "load" ? ": a reader may see the index bytes of an update it believes did not happen" : ": the store may become visible before or after the index bytes it brackets"));
    }
    RegRule r1("C04", "lock-free protocol", [](Report& R, bool) {
        unsigned N = cacheLen();
        if (N == 0) {
            R.errors.push_back("LockFreeShmData.offset_cache array not found");
            return;
        }
        // every atomic access of the three variables, anywhere
        std::set<string> writers;
        long nload = 0, nstore = 0;
        Function* start = P.one("mabain::LockFree::WriterLockFreeStart");
        Function* stop = P.one("mabain::LockFree::WriterLockFreeStop");
        Function* rstart = P.one("mabain::LockFree::ReaderLockFreeStart");
        Function* rstop0 = P.one("mabain::LockFree::ReaderLockFreeStop");
        auto rps = P.find("mabain::LockFree::ReaderPathCheck");
        Function* rpath = rps.size() == 1 ? rps[0] : nullptr;
        auto& wreach = P.reachable(stop);
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F))
                if (auto* CB = dyn_cast<CallBase>(&I)) {
                    string op = P.atomicOp(CB);
                    if (op.empty())
                        continue;
                    string f = af(CB);
                    if (f != CNT && f != OFF && f != CACHE)
                        continue;
                    bool w = F == stop || F == start || (wreach.count(F) && !P.reachable(rstop0).count(F));
                    (op == "load" ? nload : nstore)++;
                    // plain statistics output uses default (seq_cst) order and passes
                    ops(R, I, P.q(F), op, f, order(CB, op), w);
                }
        if (nload < 4 || nstore < 4)
            R.errors.push_back("lock-free shared variables: too few atomic accesses found");
        // plain (non-atomic) access of the shared words
        for (auto* F : repoFunctions())
            for (auto& I : instructions(*F))
                if (auto* S = dyn_cast<StoreInst>(&I)) {
                    string f = pf(S->getPointerOperand());
                    if ((f == CNT || f == OFF || f == CACHE))
                        R.violation("non-atomic", &I, P.q(F), f, "plain store to " + f);
                }

        // ---- writer start: the given offset becomes visible, and nothing else changes
        {
            FC c(R);
            auto ev = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); if (!CB) return false; string op = P.atomicOp(CB); if (op.empty()) return false; string f = af(CB); return f == CNT || f == OFF || f == CACHE; };
            c.instEvent = ev;
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                string op = P.atomicOp(&CB);
                if (op.empty() || op == "load")
                    return 0;
                string f = af(&CB);
                if (f == OFF) {
                    if (E.key(CB.getArgOperand(1), fr) != "arg1")
                        R.violation("window-announces", &CB, P.q(fr.F), f, "the announced offset is not the caller's edge offset: " + E.key(CB.getArgOperand(1), fr));
                    s.q[0] = 1;
                } else if (f == CNT || f == CACHE)
                    R.violation("window-announces", &CB, P.q(fr.F), f, "opening a window must not change " + f);
                return 0;
            };
            for (auto& e : c.go(start, st({ 0 })))
                if (!e.unwind && e.s.q[0] != 1)
                    R.violation("window-announces", &*start->getEntryBlock().begin(), P.q(start), "exit", "opening a window does not announce the edge offset on some path");
            R.oblige("window-announces: " + P.q(start) + " stores its argument to the shared offset on every path");
        }
        // ---- writer stop: history slot, then counter, then clear the announcement
        {
            FC c(R);
            c.instEvent = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); return CB && !P.atomicOp(CB).empty(); };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                string op = P.atomicOp(&CB);
                if (op.empty())
                    return 0;
                string f = af(&CB);
                if (op == "load") {
                    if (f == CNT && s.q[0] >= 2)
                        s.v["late:" + std::to_string((size_t)&CB)] = "1";
                    return 0;
                }
                if (f == CACHE) {
                    if (s.q[0] != 0)
                        R.violation("stop-order", &CB, P.q(fr.F), "history", "the window's edge is recorded in the history after the counter advanced: a reader can miss the change");
                    s.q[0] = std::max(s.q[0], 1);
                    const Value* v = strip(CB.getArgOperand(1));
                    bool fromOff = flowsFrom(v, [](const Value* x) { auto* C = dyn_cast<CallBase>(x); return C && P.atomicOp(C) == "load" && af(C) == OFF; });
                    if (!fromOff && !isa<Argument>(v))
                        R.violation("stop-order", &CB, P.q(fr.F), "history-value", "the history slot does not receive the announced edge offset");
                    if (auto* ix = cacheIndex(&CB)) {
                        Itv r = E.itv(ix, fr, s);
                        if (auto* rem = dyn_cast<BinaryOperator>(strip(ix))) {
                            bool ok = (rem->getOpcode() == Instruction::URem && isa<ConstantInt>(rem->getOperand(1)) && cast<ConstantInt>(rem->getOperand(1))->getZExtValue() == N)
                                || (rem->getOpcode() == Instruction::And && isa<ConstantInt>(rem->getOperand(1)) && cast<ConstantInt>(rem->getOperand(1))->getZExtValue() == N - 1 && (N & (N - 1)) == 0);
                            const Value* base = strip(rem->getOperand(0));
                            bool direct = isa<CallBase>(base) && P.atomicOp(cast<CallBase>(base)) == "load" && af(cast<CallBase>(base)) == CNT;
                            if ((rem->getOpcode() == Instruction::URem || rem->getOpcode() == Instruction::And) && (!ok || (isa<BinaryOperator>(base) && !direct)))
                                R.violation("history-slot", &CB, P.q(fr.F), "slot", "the history slot is not counter modulo the history length (" + std::to_string(N) + "): readers look elsewhere");
                        }
                        (void)r;
                    }
                } else if (f == CNT) {
                    if (s.q[0] != 1)
                        R.violation("stop-order", &CB, P.q(fr.F), "counter", s.q[0] == 0 ? "the counter advances before the edge is recorded in the history" : "the counter advances twice or after the announcement was withdrawn");
                    s.q[0] = std::max(s.q[0], 2);
                    if (op == "fetch_add" && constArg(&CB, 1, 1) != 1)
                        R.violation("stop-order", &CB, P.q(fr.F), "counter-step", "the counter must advance by exactly one per window");
                } else if (f == OFF) {
                    if (s.q[0] != 2)
                        R.violation("stop-order", &CB, P.q(fr.F), "withdraw", "the announcement is withdrawn before the change is recorded: a reader in between validates a torn read");
                    s.q[0] = 3;
                    Itv v = E.itv(CB.getArgOperand(1), fr, s);
                    if (!v.isConst())
                        R.violation("stop-order", &CB, P.q(fr.F), "withdraw-value", "closing a window must store the no-edge marker");
                    else
                        s.v["marker"] = std::to_string(v.lo);
                }
                return 0;
            };
            for (auto& e : c.go(stop, st({ 0 })))
                if (!e.unwind) {
                    if (e.s.q[0] != 3)
                        R.violation("stop-order", &*stop->getEntryBlock().begin(), P.q(stop), "exit", "closing a window skips history, counter or withdrawal on some path (state " + std::to_string(e.s.q[0]) + ")");
                    if (!e.s.get("marker").empty() && e.s.get("marker") != std::to_string(0xFFFFFFFFFFFFLL))
                        R.violation("stop-order", &*stop->getEntryBlock().begin(), P.q(stop), "marker", "the no-edge marker is a value that can be an edge offset");
                }
            R.oblige("stop-order: " + P.q(stop) + ": history(counter % " + std::to_string(N) + ") then counter+1 then marker, on every path");
        }
        // ---- reader start: snapshot is the counter
        {
            FC c(R);
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                if (auto* S = dyn_cast<StoreInst>(&I))
                    if (pf(S->getPointerOperand()) == SNAP) {
                        const Value* v = strip(S->getValueOperand());
                        auto* C = dyn_cast<CallBase>(v);
                        if (C && P.atomicOp(C) == "load" && af(C) == CNT)
                            s.q[0] = 1;
                        else if (isa<CallBase>(v) && !P.repo(cast<CallBase>(v)->getCalledFunction()))
                            R.violation("reader-snapshot", &I, P.q(fr.F), SNAP, "the reader's snapshot is not the shared counter");
                        else if (isa<Constant>(v) || isa<BinaryOperator>(v))
                            R.violation("reader-snapshot", &I, P.q(fr.F), SNAP, "the reader's snapshot is not the shared counter");
                        else
                            s.q[0] = 1;
                    }
                (void)E;
                return true;
            };
            c.instEvent = [](const Instruction& I) { return !storedField(I).empty(); };
            for (auto& e : c.go(rstart, st({ 0 })))
                if (!e.unwind && e.s.q[0] != 1)
                    R.violation("reader-snapshot", &*rstart->getEntryBlock().begin(), P.q(rstart), "exit", "no snapshot is taken on some path");
            R.oblige("reader-snapshot: " + P.q(rstart) + " snapshots the counter");
        }
        // ---- reader validation: of the edge just read, and of the edges read before it
        for (Function* rstop : { rstop0, rpath }) {
            if (!rstop)
                continue;
            bool path = rstop == rpath;
            std::set<const Instruction*> scanBr;
            for (auto* F : P.reachable(rstop))
                for (auto& I : instructions(*const_cast<Function*>(F)))
                    if (auto* CB = dyn_cast<CallBase>(&I))
                        if (P.atomicOp(CB) == "load" && af(CB) == CACHE) {
                            Lin first, trips, snap, want;
                            int64_t step = 1;
                            auto* br = scanLoop(CB, first, trips, step);
                            if (!br) {
                                R.notes.push_back("history scan at " + Program::loc(CB) + " is not a counted loop: its range is not decided");
                                continue;
                            }
                            bool known = true;
                            for (auto* l : { &first, &trips })
                                for (auto& a : l->c)
                                    if (a.first != SNAP && a.first != CNT)
                                        known = false;
                            if (!known) {
                                R.notes.push_back("history scan at " + Program::loc(CB) + ": bounds are not expressed over the counters: its range is not decided");
                                scanBr.insert(br);
                                continue;
                            }
                            snap.c[SNAP] = 1;
                            want = snap;
                            want = Lin().add(snap, -1);
                            want.c[CNT] = 1;
                            R.oblige("history-scan: " + Program::loc(CB) + " visits every slot from the snapshot to the current counter");
                            scanBr.insert(br);
                            if (step != 1)
                                R.violation("history-scan", CB, P.q(F), "step", "the history scan skips slots");
                            if (!(first == snap))
                                R.violation("history-scan", CB, P.q(F), "range", "the history scan does not start at the reader's snapshot (offset " + std::to_string(first.k) + ")");
                            if (!(trips == want))
                                R.violation("history-scan", CB, P.q(F), "count", "the history scan does not visit one slot per window closed since the snapshot (off by " + std::to_string(trips.k - want.k) + ")");
                        }
            // q: 0 offset loaded, 1 counter loaded, 2 history scanned, 3 counter re-read after the last history read
            FC c(R);
            c.instEvent = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); return CB && !P.atomicOp(CB).empty(); };
            std::set<string> diffKeys;
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                if (P.atomicOp(&CB) != "load")
                    return 0;
                string f = af(&CB);
                if (f == OFF) {
                    s.q[0] = 1;
                    s.q[7] = 0;
                    s.v["off"] = E.key(&CB, fr);
                } else if (f == CNT) {
                    if (!s.q[0] && !path)
                        R.violation("reader-order", &CB, P.q(fr.F), "counter-first", "the counter is read before the announced offset: a window that closes in between is missed");
                    if (s.q[2])
                        s.q[3] = 1;
                    s.q[1] = 1;
                    s.q[5] = 0;
                    s.v["cnt"] = E.key(&CB, fr);
                } else if (f == CACHE) {
                    s.q[2] = 1;
                    s.q[3] = 0;
                    if (auto* ix = cacheIndex(&CB))
                        if (auto* rem = dyn_cast<BinaryOperator>(strip(ix))) {
                            auto* C = dyn_cast<ConstantInt>(rem->getOperand(1));
                            if (rem->getOpcode() == Instruction::URem || rem->getOpcode() == Instruction::And) {
                                bool ok = C && ((rem->getOpcode() == Instruction::URem && C->getZExtValue() == N) || (rem->getOpcode() == Instruction::And && C->getZExtValue() == N - 1));
                                if (!ok)
                                    R.violation("history-slot", &CB, P.q(fr.F), "reader-slot", "the reader maps counters to history slots differently from the writer");
                            }
                        }
                    s.v["slot"] = E.key(&CB, fr);
                    E.killKey(s, E.key(&CB, fr));
                    s.q[8] = 1;
                }
                (void)E;
                return 0;
            };
            const int64_t OK = errv("SUCCESS");
            long okExits = 0, bad = 0;
            // branch knowledge: [4] no window since the snapshot, [5] difference with the latest counter < N, [6] saved edge
            auto isSub = [](const string& k) { // the outermost operator is a subtraction
                int d = 0;
                for (size_t i = 0; i + 5 <= k.size(); i++) {
                    if (k[i] == '(' || k[i] == '[')
                        d++;
                    else if (k[i] == ')' || k[i] == ']')
                        d--;
                    else if (d == 1 && k.compare(i, 5, " sub ") == 0)
                        return true;
                    else if (d == 1 && k[i] == ' ')
                        return false;
                }
                return false;
            };
            auto differs = [](const State& s, const string& x) {
                for (auto& k : { "(arg2 eq " + x + ")", "(" + x + " eq arg2)" }) {
                    auto it = s.f.find(k);
                    if (it != s.f.end() && it->second.isConst() && it->second.lo == 0)
                        return true;
                }
                return false;
            };
            c.edgeFn = [&](Engine&, Frame&, const Instruction& I, const BasicBlock*, State& s) {
                string cnt = s.get("cnt");
                if (scanBr.count(&I))
                    s.q[2] = 1;
                if (!s.get("off").empty() && differs(s, s.get("off")))
                    s.q[7] = 1;
                if (!s.get("slot").empty() && differs(s, s.get("slot")))
                    s.q[8] = 0;
                bool opt = false, same = false;
                for (auto& kv : s.f) {
                    if (contains(kv.first, "MBData.options") && contains(kv.first, " and ") && !kv.second.contains(0))
                        opt = true;
                    if (contains(kv.first, "EdgePtrs.offset") && contains(kv.first, "arg2") && contains(kv.first, " eq ") && kv.second.isConst() && kv.second.lo == 1)
                        same = true;
                }
                if (opt && same)
                    s.q[6] = 1;
                for (auto& kv : s.f) {
                    if (!cnt.empty() && contains(kv.first, cnt) && isSub(kv.first)) {
                        if (kv.second.isConst() && kv.second.lo == 0)
                            s.q[4] = 1;
                        if (kv.second.lo >= 0 && kv.second.hi <= (int64_t)N - 1)
                            s.q[5] = 1;
                    }
                    // cnt == snapshot compared directly
                    if (!cnt.empty() && contains(kv.first, cnt) && contains(kv.first, SNAP) && contains(kv.first, " eq ") && kv.second.isConst() && kv.second.lo == 1)
                        s.q[4] = 1;
                }
            };
            if (getenv("SA_DBG")) c.leaveFn = [](Engine&, Frame& fr, Exit& e) { fprintf(stderr, "leave %s ret=%s %s\n", P.q(fr.F).c_str(), e.ret.str().c_str(), e.s.ser().c_str()); };
            auto exits = c.go(rstop, st({ 0, 0, 0, 0, 0, 0, 0, 0, 0 }));
            for (auto& e : exits) {
                if (e.unwind || !e.ret.contains(OK))
                    continue;
                okExits++;
                auto& q = e.s.q;
                string why;
                if (q[6])
                    continue;
                if (!q[1] || (!q[0] && !path))
                    why = "without reading both the announced offset and the counter";
                else if (!q[7] && !path)
                    why = "without establishing that the announced edge differs from the edge it read";
                else if (q[4])
                    continue;
                else if (q[8] && !path)
                    why = "although a scanned history slot was not compared with the edge it read";
                else if (!q[2])
                    why = "although windows closed since the snapshot and the history was not scanned";
                else if (!q[3])
                    why = "without re-reading the counter after the history scan (the scanned slots may have been overwritten)";
                else if (!q[5])
                    why = "although the number of windows since the snapshot may exceed the " + std::to_string(N - 1) + " slots that are certain not to be overwritten";
                if (!why.empty() && bad++ == 0)
                    R.violation("reader-validate", &*rstop->getEntryBlock().begin(), P.q(rstop), "success", "the reader declares its read valid " + why);
            }
            R.counts["success exits of reader validation"] += okExits;
            R.oblige("reader-validate: " + P.q(rstop) + ": every SUCCESS exit implies (saved edge) or (no window since snapshot) or (history scanned, counter re-read, difference < " + std::to_string(N) + ")");
            R.oblige("reader-order: offset is read before the counter");
            R.oblige("history-slot: reader and writer use counter % " + std::to_string(N));
            if (okExits == 0)
                R.errors.push_back("no SUCCESS exit found in " + P.q(rstop));
        }
        R.functions.insert({ P.q(start), P.q(stop), P.q(rstart), P.q(rstop0) });
    });
}
}
