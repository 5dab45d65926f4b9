// C06: an add, overwrite or remove recycles buffers only when nothing can be
// written over a buffer that is still linked.  C07: the entry count and the
// return code agree with what the operation did.
#include "rules_lib.h"
using namespace llvm;
namespace sa {
namespace {
    const string D = "mabain::Dict::", M = "mabain::DictMem::", LF = "mabain::LockFree::";
    const string CNT = "IndexHeader.count", RCC = "IndexHeader.rc_count";
    enum { DREL, IREL, PUB, CDELTA, RCD, WIN, PEND }; // q; PEND: an index buffer was released that may still be linked (1 edge string, 2 node)
    string tagKey(const Value* V) { return "g" + std::to_string((size_t)V); }
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F)
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    int bump(int x) { return x < 2 ? x + 1 : 2; }
    Function* dictOp(const string& n, unsigned args)
    {
        for (auto* F : P.find(D + n))
            if (F->arg_size() == args)
                return F;
        throw std::runtime_error("function not found: " + D + n);
    }
    struct Rel {
        string kind; // data or index
        string fn;
        unsigned off;
    };
    void explore(Report& R, Function* F, bool c06, bool c07)
    {
        const int64_t OK = errv("SUCCESS"), IND = errv("IN_DICT");
        bool add = F->getName().contains("3Add");
        FC c(R);
        auto where = [&](Frame& fr) { return P.q(fr.F); };
        auto reserve = [&](const string& pool, int outArg) {
            return [&, pool, outArg](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                R.site(Program::loc(&CB) + " reserve " + pool);
                int rel = s.q[pool == "data" ? DREL : PEND];
                if (rel && c06)
                    R.violation("reserve-after-release", &CB, where(fr), pool, "a " + pool + " buffer is reserved after one was released in the same operation: the buffer handed out may be the released one, which the trie or a reader still refers to", fr.stack());
                Itv full;
                summarised(E, CB, T, s, full, out);
                if (outArg >= 0 && !out.empty() && pool == "data")
                    out[0].s.v["fresh:" + E.key(CB.getArgOperand(outArg), fr)] = "1";
                // the reserved offset is a new value
                if (outArg >= 0)
                    for (auto& e : out)
                        E.killKey(e.s, E.key(CB.getArgOperand(outArg), fr));
                for (auto& e : out)
                    e.s.v["nokill"] = "1";
                return 1;
            };
        };
        auto release = [&](const string& pool) {
            return [&, pool](Engine& E, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                R.site(Program::loc(&CB) + " release " + pool);
                int& q = s.q[pool == "data" ? DREL : IREL];
                if (pool == "data") {
                    if (q && c06)
                        R.violation("release-once", &CB, where(fr), "data", "a value buffer is released although this operation has released one already", fr.stack());
                    if (!s.q[PUB] && c06)
                        R.violation("release-linked", &CB, where(fr), "data", "the value buffer is released before the update that unlinks it was written: if that update fails the entry refers to a free buffer", fr.stack());
                    Frame* f = &fr;
                    const Value* V = resolveArg(CB.getArgOperand(1), f);
                    if (c06 && s.get(tagKey(V)) == "fresh")
                        R.violation("release-fresh", &CB, where(fr), "data", "the buffer released is the one just reserved for the new value", fr.stack());
                } else if (add && q && c06)
                    R.violation("release-once", &CB, where(fr), "index", "an add releases two index buffers; it replaces at most one", fr.stack());
                if (s.q[WIN] && c06)
                    R.violation("release-linked", &CB, where(fr), pool + "-window", "a buffer is released while the update is announced but not finished", fr.stack());
                q = bump(q);
                if (pool == "index")
                    s.q[PEND] |= T->getName().contains("ReleaseNode") ? 2 : 1;
                for (auto& f : P.modSet(T))
                    E.killField(s, f);
                s.v["nokill"] = "1";
                return 1;
            };
        };
        c.calls[D + "ReserveData"] = reserve("data", 3);
        c.calls[D + "ReleaseBuffer"] = release("data");
        c.calls[M + "ReserveData"] = reserve("index", -1);
        c.calls[M + "ReserveNode"] = reserve("index", -1);
        c.calls[M + "ReleaseNode"] = release("index");
        c.calls[M + "ReleaseBuffer"] = release("index");
        c.calls[LF + "WriterLockFreeStart"] = [&](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>&) { s.q[WIN] = 1; s.v["nokill"] = "1"; return 1; };
        c.calls[LF + "WriterLockFreeStop"] = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
            R.site(Program::loc(&CB) + " update finished");
            s.q[WIN] = 0;
            s.q[PUB] = 1;
            s.q[PEND] &= 2; // the edge an edge string belongs to is rewritten or cleared next
            s.v["nokill"] = "1";
            return 1;
        };
        c.calls["mabain::detail::SearchEngine::find"] = [&](Engine& E, Frame&, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
            summarised(E, CB, T, s, Itv::c(IND), out);
            Itv e;
            e.ne.insert(IND);
            e.ne.insert(OK);
            summarised(E, CB, T, s, e, out);
            return 1;
        };
        c.opaque = { D + "SeedCanonicalBoundariesAfterAdd", D + "InitEmbeddedPrefixCacheLayout" };
        c.instEvent = [](const Instruction& I) { string f = storedField(I); return f == CNT || f == RCC; };
        c.instFn = [&](Engine& E, Frame& fr, Instruction& I, State& s) {
            string f = storedField(I);
            if (f == CNT || f == RCC) {
                int64_t d = fieldDelta(I, f);
                R.site(Program::loc(&I) + " " + f);
                if (f == RCC) {
                    s.q[RCD] = 1;
                } else {
                    if (d != 1 && d != -1) {
                        if (c07)
                            R.violation("count-exact", &I, where(fr), "set", "the entry count is changed by something other than one", fr.stack());
                    } else if ((d > 0) != add) {
                        if (c07)
                            R.violation("count-exact", &I, where(fr), "sign", add ? "an add lowers the entry count" : "a remove raises the entry count", fr.stack());
                    } else {
                        if (s.q[CDELTA] && c07)
                            R.violation("count-exact", &I, where(fr), "twice", "the entry count is changed twice by one operation", fr.stack());
                        s.q[CDELTA] = 1;
                    }
                }
            }
            if (auto* L = dyn_cast<LoadInst>(&I)) {
                if (L->getType()->isIntegerTy(64)) {
                    string k = tagKey(L);
                    if (s.v.count("fresh:" + E.key(L->getPointerOperand(), fr)))
                        s.v[k] = "fresh";
                    else
                        s.v.erase(k);
                }
            } else if (auto* S = dyn_cast<StoreInst>(&I)) {
                if (S->getValueOperand()->getType()->isIntegerTy(64))
                    s.v.erase("fresh:" + E.key(S->getPointerOperand(), fr));
            }
            return true;
        };
        c.edgeFn = [&](Engine&, Frame&, const Instruction& I, const BasicBlock* B, State& s) {
            std::map<string, string> nv;
            for (auto& ph : B->phis()) {
                auto it = s.v.find(tagKey(ph.getIncomingValueForBlock(I.getParent())));
                nv[tagKey(&ph)] = it == s.v.end() ? "" : it->second;
            }
            for (auto& kv : nv)
                if (kv.second.empty())
                    s.v.erase(kv.first);
                else
                    s.v[kv.first] = kv.second;
        };
        c.leaveFn = [&](Engine&, Frame& fr, Exit& e) {
            for (auto it = e.s.v.begin(); it != e.s.v.end();) {
                bool mine = false;
                if (it->first[0] == 'g') {
                    auto* V = (const Value*)std::stoull(it->first.substr(1));
                    if (auto* I = dyn_cast<Instruction>(V))
                        mine = I->getFunction() == fr.F;
                }
                it = mine ? e.s.v.erase(it) : std::next(it);
            }
        };
        long okx = 0;
        auto* I0 = &*F->getEntryBlock().begin();
        for (auto& e : c.go(F, st({ 0, 0, 0, 0, 0, 0, 0 }))) {
            auto& q = e.s.q;
            if (e.unwind && e.excType != "_ZTIi")
                continue; // out of memory in the C++ library
            bool ok = !e.unwind && e.ret.contains(OK), bad = e.unwind || !(e.ret.isConst() && e.ret.lo == OK);
            okx += ok;
            string how = e.unwind ? "an exception" : "return value " + e.ret.str();
            if (getenv("SA_DBG"))
                fprintf(stderr, "exit %s ret=%s u=%d %s\n", P.q(F).c_str(), e.ret.str().c_str(), e.unwind, e.s.ser().c_str());
            if (add) {
                if (c07 && ok && !q[RCD] && q[CDELTA] == 0 && q[DREL] == 0)
                    R.violation("count-exact", I0, P.q(F), "add-new", "an add that links a value for a new key succeeds without raising the entry count (or an overwrite leaks the old value)");
                if (c07 && q[CDELTA] && q[DREL])
                    R.violation("count-exact", I0, P.q(F), "add-over", "an add that replaced a value raises the entry count");
                if (c07 && bad && q[CDELTA])
                    R.violation("count-exact", I0, P.q(F), e.unwind ? "add-exc" : "add-fail", "the entry count is raised although the add ends with " + how);
                if (c06 && bad && q[DREL])
                    R.violation("release-linked", I0, P.q(F), "fail", "a value buffer is released although the add ends with " + how);
                if (c07 && !e.unwind && e.ret.contains(IND) && q[PUB])
                    R.violation("success-real", I0, P.q(F), "in-dict-changed", "the add reports that the key exists after it changed the trie");
                if (c06 && ok && !q[RCD] && !q[CDELTA] && q[DREL] != 1)
                    R.violation("release-old", I0, P.q(F), "leak", "an overwrite succeeds without releasing the old value's buffer");
            } else {
                if (c07 && ok && !(q[PUB] && q[CDELTA]))
                    R.violation(q[PUB] ? "count-exact" : "success-real", I0, P.q(F), "remove-nothing", "a remove reports success although no value was unlinked or the entry count was not lowered");
                if (c07 && q[CDELTA] && !q[PUB])
                    R.violation("count-exact", I0, P.q(F), "remove-fail", "the entry count is lowered although nothing was unlinked (" + how + ")");
                if (c07 && (q[DREL] || (q[PUB] && !e.unwind)) && !q[CDELTA])
                    R.violation("count-exact", I0, P.q(F), "remove-uncounted", "a value is removed without lowering the entry count (" + how + ")");
                if (c06 && q[CDELTA] && q[DREL] != 1)
                    R.violation("release-old", I0, P.q(F), "leak", "a remove succeeds without releasing the removed value's buffer exactly once");
            }
        }
        if (!okx)
            R.errors.push_back(P.q(F) + ": no successful exit found");
        if (c06)
            for (string o : { "no reservation follows a release in the same pool", "the value buffer released is the old one, once, after the unlinking update", "failed operations release no value buffer" })
                R.oblige("C06 " + P.d(F) + ": " + o);
        if (c07)
            for (string o : { "count changes by one exactly with a successful change of the key set", "errors leave the count" })
                R.oblige("C07 " + P.d(F) + ": " + o);
    }
    RegRule r1("C06", "buffers", [](Report& R, bool) {
        explore(R, dictOp("Add", 5), true, false);
        explore(R, dictOp("Remove", 4), true, false);
    });
    RegRule r2("C07", "count", [](Report& R, bool) {
        explore(R, dictOp("Add", 5), false, true);
        explore(R, dictOp("Remove", 4), false, true);
    });
}
}
