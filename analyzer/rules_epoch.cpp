// C05: lookups announce themselves to the startup rebuild before they read, and
// the rebuild recycles a block only when no announced reader can still refer to it.
#include "rules_lib.h"
#include "llvm/Analysis/LoopInfo.h"
using namespace llvm;
namespace sa {
namespace {
    const string SC = "ReaderEpochSlot.connect_id", SE = "ReaderEpochSlot.epoch", GE = "IndexHeader.reader_epoch", TA = "IndexHeader.reader_epoch_tracking_active";
    const string INUSE = "ReusableBlockEntry.in_use", RETIRE = "ReusableBlockEntry.retire_epoch", ORDER = "ReusableBlockEntry.block_order";
    int64_t ord(const CallBase* CB)
    {
        string op = P.atomicOp(CB);
        unsigned need = op == "load" ? 1 : op == "cas" ? 3 : 2;
        return constArg(CB, need, 5);
    }
    string atomicField(const CallBase* CB, string& op)
    {
        op = P.atomicOp(CB);
        return op.empty() ? "" : pf(CB->getArgOperand(0));
    }
    bool hasEdgeFact(const State& s, const string& a, const string& b, const string& pred, int64_t v)
    {
        auto chk = [&](const string& k) {
            auto it = s.f.find(k);
            return it != s.f.end() && it->second.isConst() && it->second.lo == v;
        };
        return chk("(" + a + " " + pred + " " + b + ")") || (pred == "eq" && chk("(" + b + " eq " + a + ")"));
    }
    bool nullEdge(const Instruction& I, const BasicBlock* B, const Value** what = nullptr)
    {
        auto* BI = dyn_cast<BranchInst>(&I);
        if (!BI || !BI->isConditional())
            return false;
        auto* C = dyn_cast<ICmpInst>(BI->getCondition());
        if (!C || !C->getOperand(0)->getType()->isPointerTy() || !isa<ConstantPointerNull>(C->getOperand(1)))
            return false;
        if (what)
            *what = C->getOperand(0);
        return (C->getPredicate() == ICmpInst::ICMP_EQ) == (BI->getSuccessor(0) == B) && BI->getSuccessor(0) != BI->getSuccessor(1);
    }

    // ---- the lookups hold the guard whenever they touch the files
    RegRule r1("C05", "guard-held", [](Report& R, bool) {
        const string B = "mabain::DB::BeginReaderEpochGuard", N = "mabain::DB::EndReaderEpochGuard";
        std::vector<string> prim { "mabain::DRMBase::ReadData", "mabain::DRMBase::GetShmPtr", "mabain::RollableFile::RandomRead", "mabain::RollableFile::MemRead", "mabain::RollableFile::GetShmPtr" };
        for (string n : { "Find", "FindLongestPrefix", "FindLowerBound", "InDB", "ReadDataByOffset" }) {
            auto fs = P.find("mabain::DB::" + n);
            if (fs.empty())
                R.errors.push_back("mabain::DB::" + n + " not found");
            for (auto* F : fs) {
                FC c(R);
                long reads = 0;
                c.calls[B] = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                    if (s.q[0])
                        R.violation("guard-held", &CB, P.q(F), "nested", "a second reader guard is begun while the first is held: ending one leaves the other announced or unprotected", fr.stack());
                    s.q[0] = 1;
                    s.q[1] = 1;
                    R.site(Program::loc(&CB) + " begin");
                    return 1;
                };
                c.calls[N] = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                    if (isa<Constant>(CB.getArgOperand(1)))
                        R.violation("guard-held", &CB, P.q(F), "token", "the guard is ended with a constant instead of the token it was begun with", fr.stack());
                    s.q[0] = 0;
                    R.site(Program::loc(&CB) + " end");
                    return 1;
                };
                for (auto& p : prim)
                    c.calls[p] = [&](Engine&, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                        reads++;
                        if (!s.q[0])
                            R.violation("guard-held", &CB, P.q(F), s.q[1] ? "after-end" : "before-begin", string("the lookup reads the index or data file (") + shortq(T) + ") outside the reader guard: a startup rebuild may recycle the block under it", fr.stack());
                        return 1;
                    };
                for (auto& e : c.go(F, st({ 0, 0 })))
                    if (e.s.q[0])
                        R.violation("guard-held", &*F->getEntryBlock().begin(), P.q(F), e.unwind ? "leak-exc" : "leak", string("the lookup ") + (e.unwind ? "is left by an exception" : "returns") + " with its reader guard still held: its slot blocks block reuse from then on");
                R.oblige("guard-held: " + P.d(F) + " reads only between begin and end, and ends on every exit");
                R.counts["guarded reads"] += reads;
                if (!reads)
                    R.errors.push_back(P.d(F) + ": no file read reached");
            }
        }
    });

    // ---- what a guard is
    RegRule r2("C05", "epoch-publish", [](Report& R, bool) {
        auto* F = P.one("mabain::DB::BeginReaderEpochGuard");
        const int64_t OK = errv("SUCCESS");
        enum { CL, EP, RR, SH, INACT, BF, NUL };
        FC c(R);
        auto ev = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); string op; if (!CB) return false; string f = atomicField(CB, op); return f == SC || f == SE || f == GE || f == TA; };
        c.instEvent = ev;
        auto clear = [](State& s) { s.q[CL] = s.q[EP] = s.q[RR] = 0; };
        c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            string op, f = atomicField(&CB, op);
            if (op.empty())
                return 0;
            auto sc = [&](const string& what) {
                R.site(Program::loc(&CB) + " " + op + " " + f);
                if (ord(&CB) != 5)
                    R.violation("epoch-order", &CB, P.q(F), f + ":" + op, what + " is not sequentially consistent: the store that announces the reader and the re-read of the global epoch may be reordered, and the rebuild misses the reader", fr.stack());
            };
            if (f == SC && op == "cas") {
                sc("claiming the slot");
                if (s.q[CL])
                    R.violation("epoch-publish", &CB, P.q(F), "two-slots", "a second slot is claimed while the first is still held: it is never released", fr.stack());
                State a = s;
                a.q[CL] = 1;
                a.q[EP] = a.q[RR] = 0;
                split(out, a, Itv::c(1));
                split(out, s, Itv::c(0));
                return 1;
            }
            if (f == SC && op == "store") {
                Itv v = E.itv(CB.getArgOperand(1), fr, s);
                if (v.isConst() && v.lo == 0)
                    clear(s);
                else if (!s.q[CL])
                    R.violation("epoch-publish", &CB, P.q(F), "unclaimed", "a slot is taken without an atomic claim: two readers may share it", fr.stack());
            }
            if (f == SE && op == "store") {
                Itv v = E.itv(CB.getArgOperand(1), fr, s);
                if (v.isConst() && v.lo == 0) {
                    s.q[EP] = s.q[RR] = 0;
                } else {
                    sc("the announcement of the epoch");
                    if (!s.q[CL])
                        R.violation("epoch-publish", &CB, P.q(F), "unclaimed-epoch", "an epoch is stored into a slot that was not claimed", fr.stack());
                    s.q[EP] = 1;
                    s.q[RR] = 0;
                    s.v["ep"] = E.key(CB.getArgOperand(1), fr);
                    s.v.erase("re");
                }
            }
            if (f == GE && op == "load" && s.q[EP]) {
                s.q[RR] = 0;
                s.v["re"] = E.key(&CB, fr);
                E.killKey(s, s.v["re"]);
                s.v["reo"] = ord(&CB) == 5 ? "" : Program::loc(&CB);
            }
            if (f == TA && op == "load") {
                s.v["ta"] = E.key(&CB, fr);
                E.killKey(s, s.v["ta"]);
                s.q[INACT] = 0;
            }
            (void)T;
            return 0;
        };
        c.calls["mabain::DB::AcquireRebuildBarrierShared"] = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>& out) {
            if (s.q[CL])
                R.violation("epoch-publish", &CB, P.q(F), "slot-held", "the fallback waits for the barrier with a slot still claimed: the rebuild, holding the barrier, would wait for this reader", fr.stack());
            State a = s;
            a.q[SH] = 1;
            split(out, a, Itv::c(OK));
            Itv ne;
            ne.ne.insert(OK);
            State b = s;
            b.q[BF] = 1;
            split(out, b, ne);
            return 1;
        };
        c.calls["mabain::DB::ReleaseRebuildBarrierShared"] = [&](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>&) {
            s.q[SH] = 0;
            return 1;
        };
        c.edgeFn = [&](Engine& E, Frame& fr, const Instruction& I, const BasicBlock* Bb, State& s) {
            (void)E;
            if (nullEdge(I, Bb))
                s.q[NUL] = 1;
            string ta = s.get("ta"), ep = s.get("ep"), re = s.get("re");
            if (!ta.empty()) {
                auto it = s.f.find(ta);
                if (it != s.f.end() && it->second.isConst() && it->second.lo == 0)
                    s.q[INACT] = 1;
            }
            if (!re.empty() && s.q[EP] && hasEdgeFact(s, ep, re, "eq", 1))
            {
                s.q[RR] = 1;
                if (!s.get("reo").empty())
                    R.violation("epoch-order", &I, P.q(F), "re-read", "the re-read of the global epoch (" + s.get("reo") + ") is not sequentially consistent: it may be performed before the announcement is visible, and the rebuild misses the reader");
            }
        };
        long slot = 0, barrier = 0, none = 0;
        for (auto& e : c.go(F, st({ 0, 0, 0, 0, 0, 0, 0 }))) {
            if (e.unwind)
                continue;
            auto& q = e.s.q;
            auto* at = &*F->getEntryBlock().begin();
            if (getenv("SA_DBG"))
                fprintf(stderr, "exit ret=%s key=%s %s\n", e.ret.str().c_str(), e.retKey.c_str(), e.s.ser().c_str());
            if (e.ret.isConst() && e.ret.lo == -1) {
                barrier++;
                if (!q[SH])
                    R.violation("epoch-publish", at, P.q(F), "barrier", "the guard claims the rebuild barrier without holding it");
                if (q[CL])
                    R.violation("epoch-publish", at, P.q(F), "barrier-slot", "the guard keeps a claimed slot that its token does not name");
            } else if (e.ret.isConst() && e.ret.lo == 0) {
                none++;
                if (q[CL] || q[SH])
                    R.violation("epoch-publish", at, P.q(F), "none-leak", q[CL] ? "no token is returned although a slot is still claimed" : "no token is returned although the barrier is still held");
                if (!q[INACT] && !q[BF] && !q[NUL])
                    R.violation("epoch-publish", at, P.q(F), "none", "the reader goes unannounced although epoch tracking may be active");
            } else {
                slot++;
                if (!q[CL])
                    R.violation("epoch-publish", at, P.q(F), "slot", "a slot token is returned without a claimed slot");
                else if (!q[EP])
                    R.violation("epoch-publish", at, P.q(F), "epoch", "the slot's epoch is not announced before the guard is returned");
                else if (!q[RR])
                    R.violation("epoch-publish", at, P.q(F), "confirm", "the guard is returned without confirming, after the announcement, that the global epoch is still the announced one");
                if (q[SH])
                    R.violation("epoch-publish", at, P.q(F), "slot-barrier", "a slot token is returned although the barrier is also held: it is never released");
            }
        }
        if (!slot && !barrier)
            R.errors.push_back("no guard-granting exit of BeginReaderEpochGuard found");
        R.counts["guard exits"] += slot + barrier + none;
        R.oblige("epoch-publish: every slot token: claimed by CAS, epoch stored and confirmed by a later re-read");
        R.oblige("epoch-publish: the barrier token is returned only with the shared barrier held");
        R.oblige("epoch-order: claim, announcement and re-read are seq_cst");
    });

    // ---- ending a guard, and giving a slot back
    RegRule r3("C05", "slot-release", [](Report& R, bool) {
        auto* F = P.one("mabain::DB::EndReaderEpochGuard");
        enum { CLR, REL, NUL };
        // a slot may be claimed again only after its epoch is withdrawn
        std::set<Function*> rel;
        for (auto* G : repoFunctions())
            for (auto& I : instructions(*G))
                if (auto* CB = dyn_cast<CallBase>(&I)) {
                    string op;
                    if (atomicField(CB, op) == SC && op == "store")
                        rel.insert(G);
                }
        if (rel.empty())
            R.errors.push_back("no store to ReaderEpochSlot.connect_id found");
        for (auto* G : rel) {
            FC c(R);
            c.instEvent = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); string op; if (!CB) return false; string f = atomicField(CB, op); return f == SC || f == SE; };
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                string op, f = atomicField(&CB, op);
                if (op != "store")
                    return 0;
                Itv v = E.itv(CB.getArgOperand(1), fr, s);
                if (f == SE)
                    s.q[0] = v.isConst() && v.lo == 0 ? 1 : 2;
                if (f == SC && v.isConst() && v.lo == 0) {
                    R.site(Program::loc(&CB) + " slot release");
                    if (s.q[0] != 1)
                        R.violation("slot-release", &CB, P.q(fr.F), "order", "the slot is released before its epoch is withdrawn: the next reader claims it and has its announcement erased", fr.stack());
                    int64_t o = ord(&CB);
                    if (o != 3 && o != 4 && o != 5)
                        R.violation("slot-release", &CB, P.q(fr.F), "order-relaxed", "the slot is released without release ordering", fr.stack());
                    s.q[0] = 3;
                }
                if (f == SE && s.q[1] == 3)
                    R.violation("slot-release", &CB, P.q(fr.F), "late", "the epoch is written after the slot was released", fr.stack());
                s.q[1] = s.q[0];
                return 0;
            };
            c.go(G, st({ 0, 0 }));
            R.oblige("slot-release: " + P.q(G) + " withdraws the epoch before connect_id");
        }
        FC c(R);
        c.instEvent = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); string op; return CB && atomicField(CB, op) == SC && op == "store"; };
        c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
            string op, f = atomicField(&CB, op);
            if (f == SC && op == "store") {
                Itv v = E.itv(CB.getArgOperand(1), fr, s);
                if (v.isConst() && v.lo == 0)
                    s.q[CLR] = 1;
            }
            return 0;
        };
        c.calls["mabain::DB::ReleaseRebuildBarrierShared"] = [&](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>&) {
            s.q[REL] = 1;
            return 1;
        };
        c.edgeFn = [&](Engine& E, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) {
            if (nullEdge(I, B))
                s.q[NUL] = 1;
            // a token that names no slot
            if (auto* BI = dyn_cast<BranchInst>(&I))
                if (BI->isConditional())
                    if (auto* C = dyn_cast<ICmpInst>(BI->getCondition()))
                        for (unsigned i = 0; i < 2; i++)
                            if (flowsFrom(C->getOperand(i), [](const Value* v) { auto* L = dyn_cast<LoadInst>(v); return L && loadedField(*L) == "IndexHeader.reader_epoch_slot_count"; })) {
                                auto p = C->getPredicate();
                                if (i == 0)
                                    p = ICmpInst::getSwappedPredicate(p);
                                bool t = BI->getSuccessor(0) == B; // idx p count
                                bool in = (p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_SLT) == t;
                                if (!in)
                                    s.q[NUL] = 1;
                            }
            (void)E;
            (void)fr;
        };
        for (int kind : { 0, 1 }) { // 0: a slot token, 1: the barrier token
            State s = st({ 0, 0, 0 });
            if (kind)
                s.f["arg1"] = Itv::c(-1);
            else {
                s.f["arg1"] = Itv::range(1, 64);
            }
            for (auto& e : c.go(F, s)) {
                if (e.unwind)
                    continue;
                if (kind ? !e.s.q[REL] : (!e.s.q[CLR] && !e.s.q[NUL]))
                    R.violation("slot-release", &*F->getEntryBlock().begin(), P.q(F), kind ? "barrier" : "slot", kind ? "the barrier token does not release the barrier: the rebuild waits for ever" : "a slot token does not release the slot: its epoch stays announced and the rebuild never recycles a block");
                if (kind == 0 && e.s.q[REL])
                    R.violation("slot-release", &*F->getEntryBlock().begin(), P.q(F), "wrong", "a slot token releases the barrier of another lookup");
            }
            R.oblige(string("slot-release: EndReaderEpochGuard gives back a ") + (kind ? "barrier" : "slot") + " token");
        }
    });

    // ---- a token names the slot it was given for
    struct Off {
        const Value* b;
        int64_t k;
    };
    Off offs(const Value* V)
    {
        int64_t k = 0;
        for (int i = 0; i < 12; i++) {
            if (auto* C = dyn_cast<CastInst>(V))
                V = C->getOperand(0);
            else if (auto* B = dyn_cast<BinaryOperator>(V)) {
                auto* K = dyn_cast<ConstantInt>(B->getOperand(1));
                if (!K || (B->getOpcode() != Instruction::Add && B->getOpcode() != Instruction::Sub))
                    break;
                k += B->getOpcode() == Instruction::Add ? K->getSExtValue() : -K->getSExtValue();
                V = B->getOperand(0);
            } else
                break;
        }
        return { V, k };
    }
    const Value* slotIndex(const Value* p)
    {
        for (int i = 0; i < 8; i++) {
            auto* G = dyn_cast<GEPOperator>(p);
            if (!G)
                return nullptr;
            for (unsigned j = G->getNumOperands() - 1; j >= 1; j--)
                if (!isa<ConstantInt>(G->getOperand(j)))
                    return G->getOperand(j);
            p = G->getPointerOperand();
        }
        return nullptr;
    }
    RegRule r4("C05", "slot-token", [](Report& R, bool) {
        auto* Bf = P.one("mabain::DB::BeginReaderEpochGuard");
        auto* Ef = P.one("mabain::DB::EndReaderEpochGuard");
        const Value* ci = nullptr;
        for (auto& I : instructions(*Bf))
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                string op;
                if (atomicField(CB, op) == SC && op == "cas")
                    ci = slotIndex(CB->getArgOperand(0));
            }
        std::vector<Off> toks;
        std::set<const Value*> seen;
        std::function<void(const Value*)> rec = [&](const Value* v) {
            if (!seen.insert(v).second || isa<Constant>(v))
                return;
            if (auto* ph = dyn_cast<PHINode>(v)) {
                if (ci && offs(ci).b == ph) {
                    toks.push_back({ ph, 0 });
                    return;
                }
                for (auto& x : ph->incoming_values())
                    rec(x);
                return;
            }
            if (auto* sl = dyn_cast<SelectInst>(v)) {
                rec(sl->getTrueValue());
                rec(sl->getFalseValue());
                return;
            }
            toks.push_back(offs(v));
        };
        for (auto& I : instructions(*Bf))
            if (auto* Rt = dyn_cast<ReturnInst>(&I))
                rec(Rt->getReturnValue());
        bool dec = false;
        int64_t k = 0;
        for (auto& t : toks)
            if (ci && t.b == offs(ci).b) {
                dec = true;
                k = t.k - offs(ci).k;
            }
        if (!dec) {
            R.notes.push_back("token of BeginReaderEpochGuard is not slot index plus constant: not decided");
            return;
        }
        R.oblige("slot-token: EndReaderEpochGuard clears the slot BeginReaderEpochGuard claimed");
        for (auto& I : instructions(*Ef))
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                auto* T = CB->getCalledFunction();
                if (!T || CB->arg_size() == 0)
                    continue;
                auto* ix = slotIndex(CB->getArgOperand(0));
                if (!ix)
                    continue;
                auto o = offs(ix);
                if (isa<Argument>(o.b)) {
                    R.site(Program::loc(CB) + " slot token");
                    if (o.k + k != 0)
                        R.violation("slot-token", CB, P.q(Ef), "mismatch", "the slot released is not the slot claimed: off by " + std::to_string(o.k + k));
                }
            }
    });

    // ---- block reuse
    string entryOf(const string& key, const string& field)
    {
        size_t p = key.find("." + field);
        if (p == string::npos)
            p = key.find("._" + field);
        return p == string::npos ? "" : key.substr(0, p);
    }
    string unload(string k)
    {
        return startsWith(k, "*(") && endsWith(k, ")") ? k.substr(2, k.size() - 3) : k;
    }
    RegRule r5("C05", "block-reuse", [](Report& R, bool) {
        auto* root = P.one("mabain::ResourceCollection::StartupEvacuate");
        std::set<string> add { "mabain::DRMBase::AddReusableBlock", "mabain::RollableFile::AddReusableBlock" };
        std::vector<Function*> roots { root };
        auto& under = P.reachable(root);
        for (auto* F : repoFunctions()) {
            if (F == root || under.count(F) || P.reachable(F).count(root) || startsWith(P.q(F), "mabain::DRMBase::") || startsWith(P.q(F), "mabain::RollableFile::"))
                continue;
            if (hasCallTo(F, add))
                roots.push_back(F);
        }
        const int64_t OK = errv("SUCCESS");
        enum { BAR, TRAV, ADV, QUEUED };
        long adds = 0, readies = 0, queues = 0;
        for (auto* F : roots) {
            FC c(R);
            c.instEvent = [](const Instruction& I) { string f = storedField(I); return f == INUSE || f == RETIRE || f == GE || contains(f, "rebuild_index_block_cursor") || contains(f, "rebuild_data_block_cursor"); };
            c.opaqueFn = [](const Function* G) { return P.q(G) == "mabain::MBTraverseBase::TraverseDB" || contains(P.q(G), "::TraverseDB"); };
            c.calls["mabain::DB::AcquireRebuildBarrierExclusive"] = [&](Engine&, Frame&, CallBase& CB, Function*, State& s, std::vector<Exit>& out) {
                R.site(Program::loc(&CB) + " barrier");
                State a = s;
                a.q[BAR] = 1;
                split(out, a, Itv::c(OK));
                Itv ne;
                ne.ne.insert(OK);
                split(out, s, ne);
                return 1;
            };
            c.calls["mabain::DB::ReleaseRebuildBarrierExclusive"] = [&](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>&) {
                s.q[BAR] = 0;
                return 1;
            };
            c.calls["mabain::ResourceCollection::IsReaderEpochQuiesced"] = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>& out) {
                State a = s;
                a.v["quiet"] = entryOf(unload(E.key(CB.getArgOperand(1), fr)), RETIRE);
                if (a.v["quiet"].empty())
                    R.violation("block-reuse", &CB, P.q(fr.F), "epoch-asked", "quiescence is asked for something that is not the block's retire epoch: " + E.key(CB.getArgOperand(1), fr), fr.stack());
                R.site(Program::loc(&CB) + " quiescence test");
                split(out, a, Itv::c(1));
                split(out, s, Itv::c(0));
                return 1;
            };
            auto addf = [&](Engine& E, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                adds++;
                string k = E.key(CB.getArgOperand(1), fr), e = unload(k);
                e = entryOf(e, ORDER);
                R.site(Program::loc(&CB) + " block reuse");
                if (getenv("SA_DBG"))
                    fprintf(stderr, "add %s %s\n", k.c_str(), s.ser().c_str());
                bool ready = false;
                for (auto& kv : s.f)
                    if (!e.empty() && contains(kv.first, "ReusableBlockEntry.in_use") && startsWith(unload(kv.first), e) && kv.second.isConst() && kv.second.lo == 2)
                        ready = true;
                if (!ready)
                    R.violation("block-reuse", &CB, P.q(fr.F), "not-ready", "a block is handed out for reuse that is not known to be past its quarantine", fr.stack());
                return 1;
            };
            for (auto& a : add)
                c.calls[a] = addf;
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                string op, f = atomicField(&CB, op);
                if (f == GE && (op == "fetch_add" || op == "rmw")) {
                    s.q[ADV] = 1;
                    s.v["retire"] = E.key(&CB, fr);
                    R.site(Program::loc(&CB) + " epoch advance");
                    R.oblige("epoch-order: " + Program::loc(&CB) + " advances the global epoch seq_cst");
                    if (ord(&CB) != 5)
                        R.violation("epoch-order", &CB, P.q(fr.F), "advance", "advancing the global epoch is not sequentially consistent: the slots may be read before the new epoch is visible", fr.stack());
                    if (!s.q[TRAV])
                        R.violation("block-reuse", &CB, P.q(fr.F), "early-retire", "the epoch is advanced before the block's contents are moved: a reader announced at the new epoch can still enter the block", fr.stack());
                }
                if (T && contains(P.q(T), "::TraverseDB")) {
                    s.q[TRAV] = 1;
                    s.q[ADV] = s.q[QUEUED] = 0;
                    R.site(Program::loc(&CB) + " evacuation");
                }
                return 0;
            };
            c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
                auto* S = dyn_cast<StoreInst>(&I);
                if (!S)
                    return true;
                string f = pf(S->getPointerOperand());
                if (f == INUSE) {
                    Itv v = E.itv(S->getValueOperand(), fr, s);
                    if (v.isConst() && v.lo == 2) {
                        readies++;
                        string e = entryOf(E.key(S->getPointerOperand(), fr), INUSE);
                        R.site(Program::loc(&I) + " end of quarantine");
                        if (!s.q[BAR])
                            R.violation("block-reuse", &I, P.q(fr.F), "no-barrier", "a block leaves quarantine without the rebuild barrier held: a reader that fell back to the barrier is not waited for", fr.stack());
                        if (e.empty() || s.get("quiet") != e)
                            R.violation("block-reuse", &I, P.q(fr.F), "not-quiet", "a block leaves quarantine without an established quiescence of its retire epoch", fr.stack());
                    }
                }
                if (f == RETIRE) {
                    Itv v = E.itv(S->getValueOperand(), fr, s);
                    if (!(v.isConst() && v.lo == 0)) {
                        queues++;
                        R.site(Program::loc(&I) + " quarantine");
                        if (!s.q[TRAV] || !s.q[ADV])
                            R.violation("block-reuse", &I, P.q(fr.F), "queue-order", "a block is quarantined before it was evacuated and the epoch advanced", fr.stack());
                        else if (E.key(S->getValueOperand(), fr) != s.get("retire"))
                            R.violation("block-reuse", &I, P.q(fr.F), "retire-epoch", "the retire epoch recorded is not the epoch that was current when the block was evacuated: " + E.key(S->getValueOperand(), fr), fr.stack());
                        s.q[QUEUED] = 1;
                    }
                }
                if ((contains(f, "rebuild_index_block_cursor") || contains(f, "rebuild_data_block_cursor")) && s.q[TRAV]) {
                    if (!s.q[QUEUED])
                        R.violation("block-reuse", &I, P.q(fr.F), "cursor", "the cursor passes a block that was not quarantined", fr.stack());
                    s.q[TRAV] = 0;
                }
                return true;
            };
            for (auto& e : c.go(F, st({ 0, 0, 0, 0 })))
                if (e.s.q[BAR])
                    R.violation("block-reuse", &*F->getEntryBlock().begin(), P.q(F), e.unwind ? "barrier-exc" : "barrier-leak", "the exclusive barrier is still held on some exit: every reader that falls back to it blocks");
            R.oblige("block-reuse: every block reused under " + P.q(F) + " was evacuated, retired, and found quiescent under the barrier");
        }
        R.counts["reuse sites"] += adds;
        R.counts["quarantine sites"] += queues;
        if (!adds || !readies || !queues)
            R.violation("block-reuse", &*root->getEntryBlock().begin(), P.q(root), "missing", "startup evacuation lost its quarantine, quiescence or reuse step");
    });

    // ---- quiescence
    RegRule r6("C05", "quiesced", [](Report& R, bool) {
        auto* F = P.one("mabain::ResourceCollection::IsReaderEpochQuiesced");
        enum { PEND, FREE, DONE }; // a slot being judged: 0 none, 1 epoch read & undecided, 2 harmless
        // the scan covers all slots
        DominatorTree DT(*F);
        LoopInfo LI(DT);
        bool cov = false;
        const Loop* loop = nullptr;
        for (auto* L : LI)
            if (auto* BI = dyn_cast<BranchInst>(L->getHeader()->getTerminator()))
                if (BI->isConditional())
                    if (auto* C = dyn_cast<ICmpInst>(BI->getCondition()))
                        for (unsigned i = 0; i < 2; i++)
                            if (flowsFrom(C->getOperand(i), [](const Value* v) { auto* Ld = dyn_cast<LoadInst>(v); return Ld && loadedField(*Ld) == "IndexHeader.reader_epoch_slot_count"; })) {
                                auto* ph = dyn_cast<PHINode>(offs(C->getOperand(1 - i)).b);
                                if (!ph)
                                    continue;
                                for (unsigned j = 0; j < ph->getNumIncomingValues(); j++)
                                    if (!L->contains(ph->getIncomingBlock(j))) {
                                        auto* K = dyn_cast<ConstantInt>(ph->getIncomingValue(j));
                                        cov = true;
                                        loop = L;
                                        if (K && K->getSExtValue() != 0)
                                            R.violation("quiesced", BI, P.q(F), "first", "the scan of the reader slots does not start at the first slot");
                                    } else {
                                        auto o = offs(ph->getIncomingValue(j));
                                        if (o.b == ph && o.k != 1)
                                            R.violation("quiesced", BI, P.q(F), "step", "the scan of the reader slots skips slots");
                                    }
                                auto p = C->getPredicate();
                                if (offs(C->getOperand(i)).k != 0 && (p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_NE))
                                    R.violation("quiesced", BI, P.q(F), "last", "the scan of the reader slots does not end at the last slot");
                            }
        FC c(R);
        long n = 0;
        c.instEvent = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); string op; if (!CB) return false; string f = atomicField(CB, op); return f == SC || f == SE; };
        auto newSlot = [&](Frame& fr, const Instruction& I, State& s) {
            if (s.q[PEND] == 1)
                R.violation("quiesced", &I, P.q(F), "skip", "a slot whose announced epoch may be at or before the retire epoch, and whose process may be alive, is passed over", fr.stack());
            s.q[PEND] = 0;
            for (auto& k : { "ep", "cid", "kill", "pst", "alive" })
                s.v.erase(k);
        };
        c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            string op, f = atomicField(&CB, op);
            if (op == "load" && (f == SC || f == SE)) {
                R.site(Program::loc(&CB) + " load " + f);
                n++;
                if (ord(&CB) != 5)
                    R.violation("epoch-order", &CB, P.q(F), f + ":load", "the slot is not read sequentially consistently after the epoch was advanced: an announcement made before it may be missed", fr.stack());
                if (f == SC || s.q[PEND] == 2 || !s.get("ep").empty())
                    newSlot(fr, CB, s);
                string k = E.key(&CB, fr);
                E.killKey(s, k);
                if (f == SC) {
                    s.v["cid"] = k;
                    s.q[PEND] = 1;
                } else {
                    s.v["ep"] = k;
                    s.q[PEND] = 1;
                }
            }
            if (T && T->getName() == "kill") {
                State a = s;
                a.v["kill"] = "1";
                split(out, a, Itv::c(-1));
                split(out, s, Itv::c(0));
                return 1;
            }
            if (T && contains(P.q(T), "ReadProcStartTime")) {
                State a = s;
                a.v["pst"] = "1";
                split(out, a, Itv::c(1));
                split(out, s, Itv::c(0));
                return 1;
            }
            return 0;
        };
        c.edgeFn = [&](Engine& E, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) {
            if (nullEdge(I, B))
                s.q[FREE] = 1;
            if (loop && I.getParent() == loop->getHeader())
                s.q[DONE] = !loop->contains(B);
            auto zero = [&](const string& k) {
                auto it = s.f.find(k);
                return it != s.f.end() && it->second.isConst() && it->second.lo == 0;
            };
            string ep = s.get("ep"), cid = s.get("cid");
            if (zero("arg1"))
                s.q[FREE] = 1;
            if (s.q[PEND] == 1) {
                if (!cid.empty() && zero(cid))
                    s.q[PEND] = 2;
                if (!ep.empty() && (zero(ep) || hasEdgeFact(s, ep, "arg1", "ule", 0) || hasEdgeFact(s, "arg1", ep, "ult", 1) || hasEdgeFact(s, ep, "arg1", "ugt", 1) || hasEdgeFact(s, "arg1", ep, "uge", 0)))
                    s.q[PEND] = 2;
                auto* BI = dyn_cast<BranchInst>(&I);
                if (BI && BI->isConditional())
                    if (auto* C = dyn_cast<ICmpInst>(BI->getCondition())) {
                        bool t = BI->getSuccessor(0) == B;
                        bool eq = C->getPredicate() == ICmpInst::ICMP_EQ ? t : C->getPredicate() == ICmpInst::ICMP_NE ? !t : false;
                        bool ne = C->getPredicate() == ICmpInst::ICMP_EQ ? !t : C->getPredicate() == ICmpInst::ICMP_NE ? t : false;
                        auto* K = dyn_cast<ConstantInt>(C->getOperand(1));
                        auto isErrno = [](const Value* v) { auto* L = dyn_cast<LoadInst>(v); auto* CC = L ? dyn_cast<CallBase>(L->getPointerOperand()) : nullptr; return CC && CC->getCalledFunction() && CC->getCalledFunction()->getName() == "__errno_location"; };
                        if (eq && K && K->getSExtValue() == 3 && isErrno(C->getOperand(0)) && !s.get("kill").empty())
                            s.q[PEND] = 2; // ESRCH: the process is gone
                        // its process id now belongs to a process started at another time
                        auto fromST = [](const Value* v) { return flowsFrom(v, [](const Value* x) { auto* CC = dyn_cast<CallBase>(x); return CC && P.atomicOp(CC) == "load" && pf(CC->getArgOperand(0)) == "ReaderEpochSlot.proc_start_time"; }); };
                        if (ne && !K && !s.get("pst").empty() && (fromST(C->getOperand(0)) || fromST(C->getOperand(1))))
                            s.q[PEND] = 2;
                    }
            }
            (void)E;
            (void)fr;
        };
        long yes = 0;
        for (auto& e : c.go(F, st({ 0, 0, 0 }))) {
            if (e.unwind || !e.ret.contains(1))
                continue;
            yes++;
            if (loop && !e.s.q[DONE] && !e.s.q[FREE])
                R.violation("quiesced", &*F->getEntryBlock().begin(), P.q(F), "early", "quiescence is reported before every slot was looked at");
            if (e.s.q[PEND] == 1)
                R.violation("quiesced", &*F->getEntryBlock().begin(), P.q(F), "true", "quiescence is reported although a slot whose announced epoch may be at or before the retire epoch, and whose process may be alive, was seen");
        }
        R.oblige("quiesced: true only if every slot seen is free, withdrawn, newer than the retire epoch, or owned by a dead process");
        R.oblige("epoch-order: slots are read seq_cst");
        if (!n || !yes)
            R.violation("quiesced", &*F->getEntryBlock().begin(), P.q(F), "unread", "quiescence is decided without reading the reader slots");
        if (cov)
            R.oblige("quiesced: the scan covers slots 0 to reader_epoch_slot_count-1");
        else
            R.notes.push_back("the slot scan is not a counted loop over reader_epoch_slot_count: its range is not decided");
    });

    // ---- the barrier
    RegRule r7("C05", "barrier", [](Report& R, bool) {
        const int64_t OK = errv("SUCCESS");
        for (auto& k : { std::make_pair(string("Shared"), 1), std::make_pair(string("Exclusive"), 2) }) {
            auto* F = P.one("mabain::DB::AcquireRebuildBarrier" + k.first);
            FC c(R);
            c.anyCall = [&](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                if (!T || T->getName() != "flock")
                    return 0;
                Itv v = E.itv(CB.getArgOperand(1), fr, s);
                if (getenv("SA_DBG"))
                    fprintf(stderr, "flock %s\n", v.str().c_str());
                State a = s;
                a.q[0] = v.isConst() ? (int)v.lo : 0;
                split(out, a, Itv::c(0));
                split(out, s, Itv::c(-1));
                return 1;
            };
            c.instEvent = [](const Instruction& I) { auto* CB = dyn_cast<CallBase>(&I); return CB && CB->getCalledFunction() && CB->getCalledFunction()->getName() == "flock"; };
            for (auto& e : c.go(F, st({ 0 })))
                if (!e.unwind && e.ret.contains(OK) && e.s.q[0] != k.second)
                    R.violation("barrier", &*F->getEntryBlock().begin(), P.q(F), "held", "success is returned without the " + k.first + " file lock held (lock mode " + std::to_string(e.s.q[0]) + ")");
            R.oblige("barrier: " + P.q(F) + " succeeds only with the file lock held in its mode");
        }
        auto* G = P.one("mabain::DB::EnsureRebuildGuardFd");
        std::vector<Function*> fs { G };
        for (auto* T : P.reachable(G))
            if (startsWith(P.q(T), "mabain::ResourcePool::Open") || P.q(T) == "mabain::ResourcePool::GetResourceByPath")
                R.violation("barrier", &*G->getEntryBlock().begin(), P.q(G), "shared-file", "the barrier's file lock is taken on an open file that other handles of the process share (" + shortq(T) + "): one handle's release drops the lock of another, and two handles never exclude each other");
        R.oblige("barrier: the barrier file is private to the handle");
    });
}
}
