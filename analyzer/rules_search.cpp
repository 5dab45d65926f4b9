// C03: a lookup concludes only from edges that were validated after they, and
// what they lead to, were read, against one snapshot taken before the root edge.
#include "rules_lib.h"
using namespace llvm;
namespace sa {
namespace {
    const string EOFF = "EdgePtrs.offset";
    enum { SN, CUR, PAR, AGAIN, USED, SEED, PATH, INP }; // q
    // tag of an SSA value holding an edge offset: "0" edge being traversed, "1" the one before
    string tagKey(const Value* V) { return "g" + std::to_string((size_t)V); }
    const Value* resolveArg(const Value* V, Frame*& fr)
    {
        while (auto* A = dyn_cast<Argument>(V)) {
            if (!fr->site || !fr->parent || A->getParent() != fr->F)
                break;
            V = fr->site->getArgOperand(A->getArgNo());
            fr = fr->parent;
        }
        return V;
    }
    RegRule r1("C03", "lookup-validated", [](Report& R, bool) {
        const int64_t OK = errv("SUCCESS"), AGN = errv("TRY_AGAIN"), NE = errv("NOT_EXIST"), IND = errv("IN_DICT");
        string MM = "mabain::DictMem::", LFQ = "mabain::LockFree::";
        for (auto& n : { LFQ + "ReaderLockFreeStop", MM + "GetRootEdge", MM + "NextEdge" })
            P.one(n);
        for (string root : { "find", "findPrefix" }) {
            auto* F = P.one("mabain::detail::SearchEngine::" + root);
            FC c(R);
            auto age = [](State& s) {
                for (auto& kv : s.v)
                    if (kv.first[0] == 'g' && kv.second != "2")
                        kv.second = kv.second == "0" ? "1" : "2";
            };
            auto use = [&](State& s) {
                s.q[CUR] = 1;
                s.q[USED] = 1;
            };
            auto begin = [&](Frame& fr, CallBase& CB, State& s, const char* what) {
                if ((s.q[CUR] || s.q[PAR]) && !s.q[AGAIN] && !s.q[SEED])
                    R.violation("lookup-validated", &CB, P.q(fr.F), string("abandoned-") + what, "a new attempt starts although the previous one concluded from an edge that was never validated after it was read", fr.stack());
                s.q[CUR] = s.q[PAR] = s.q[AGAIN] = s.q[USED] = s.q[SEED] = s.q[INP] = 0;
                for (auto it = s.v.begin(); it != s.v.end();)
                    it = it->first[0] == 'g' ? s.v.erase(it) : std::next(it);
            };
            c.calls[LFQ + "ReaderLockFreeStart"] = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                R.site(Program::loc(&CB) + " snapshot");
                s.q[SN] = 1;
                return 1;
            };
            auto rootRead = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>& out) {
                R.site(Program::loc(&CB) + " root edge read");
                if (!s.q[SN])
                    R.violation("lookup-snapshot", &CB, P.q(fr.F), "root", "the root edge is read before the lookup's snapshot is taken: a change in between goes unnoticed", fr.stack());
                begin(fr, CB, s, "root");
                s.q[SN] = 2;
                State a = s;
                use(a);
                split(out, a, Itv::c(OK));
                Itv e;
                e.ne.insert(OK);
                split(out, s, e);
                return 1;
            };
            c.calls[MM + "GetRootEdge"] = rootRead;
            c.calls["mabain::PrefixCache::GetDepth"] = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>& out) {
                begin(fr, CB, s, "cache");
                State a = s;
                a.q[SN] = s.q[SN] ? 2 : 0;
                use(a);
                a.q[CUR] = 0; // the cached copy counts once the lookup goes on from it
                a.q[SEED] = 1; // a seed may still be discarded without a conclusion
                split(out, s, Itv::c(0));
                split(out, a, Itv::range(1, INT64_MAX));
                return 1;
            };
            auto next = [&](Engine&, Frame& fr, CallBase& CB, Function* T, State& s, std::vector<Exit>& out) {
                s.q[SEED] = 0;
                R.site(Program::loc(&CB) + " " + shortq(T));
                if (s.q[SN] == 1)
                    R.violation("lookup-snapshot", &CB, P.q(fr.F), "late", "the snapshot used from here on was taken after the lookup had started: a change to an edge read before it goes unnoticed", fr.stack());
                if (!s.q[SN])
                    R.violation("lookup-snapshot", &CB, P.q(fr.F), "none", "an edge is read without a snapshot", fr.stack());
                if (s.q[PAR])
                    R.violation("lookup-validated", &CB, P.q(fr.F), "skip-level", "the lookup descends two levels without validating the edge it came through", fr.stack());
                State f = s;
                use(f);
                Itv e;
                e.ne.insert(OK);
                split(out, f, e);
                State a = s;
                age(a);
                a.q[PAR] = !a.q[INP]; // its own validation puts an edge on the checked path
                a.q[INP] = 0;
                use(a);
                split(out, a, Itv::c(OK));
                return 1;
            };
            for (auto& n : { "NextEdge", "NextEdgeFast" })
                c.calls[MM + n] = next;
            auto rd = [&](Engine&, Frame&, CallBase& CB, Function*, State& s, std::vector<Exit>&) {
                if (s.q[USED])
                    s.q[CUR] = 1;
                return 0;
            };
            for (string n : { MM + "ReadData", MM + "GetShmPtr", string("mabain::DRMBase::ReadData"), string("mabain::Dict::ReadData"), string("mabain::Dict::ReadDataFromEdge"), string("mabain::Dict::ReadDataFromNode") })
                c.calls[n] = rd;
            c.anyCall = [&](Engine&, Frame&, CallBase& CB, Function* T, State& s, std::vector<Exit>&) {
                if (T && s.q[USED] && (T->getName() == "memcmp" || T->getName() == "bcmp"))
                    s.q[CUR] = 1;
                return 0;
            };
            c.instEvent = [](const Instruction& I) { return isa<LoadInst>(I) && loadedField(I) == EOFF; };
            c.instFn = [&](Engine&, Frame&, Instruction& I, State& s) {
                if (isa<LoadInst>(I) && loadedField(I) == EOFF)
                    s.v[tagKey(&I)] = "0";
                return true;
            };
            c.edgeFn = [&](Engine&, Frame& fr, const Instruction& I, const BasicBlock* B, State& s) {
                std::map<string, string> nv;
                for (auto& ph : B->phis()) {
                    auto it = s.v.find(tagKey(ph.getIncomingValueForBlock(I.getParent())));
                    nv[tagKey(&ph)] = it == s.v.end() ? "" : it->second;
                }
                for (auto& kv : nv)
                    if (kv.second.empty())
                        s.v.erase(kv.first);
                    else
                        s.v[kv.first] = kv.second;
            };
            long stops = 0;
            c.calls[LFQ + "ReaderLockFreeStop"] = [&](Engine&, Frame& fr, CallBase& CB, Function*, State& s, std::vector<Exit>& out) {
                stops++;
                s.q[SEED] = 0;
                R.site((fr.site ? Program::loc(fr.site) : Program::loc(&CB)) + " validation");
                Frame* f = &fr;
                const Value* V = resolveArg(CB.getArgOperand(2), f);
                string t = s.get(tagKey(V));
                State a = s;
                a.q[PATH] = 0;
                if (t == "0") {
                    a.q[CUR] = 0;
                    a.q[INP] = 1;
                }
                else if (t == "1")
                    a.q[PAR] = 0;
                split(out, a, Itv::c(OK));
                State b = s;
                b.q[AGAIN] = 1;
                split(out, b, Itv::c(AGN));
                return 1;
            };
            // The path check concludes for edges validated before; it can only ask for a retry.
            c.calls[LFQ + "ReaderPathCheck"] = [&](Engine&, Frame&, CallBase&, Function*, State& s, std::vector<Exit>& out) {
                State b = s;
                b.q[AGAIN] = 1;
                s.q[PATH] = 1;
                split(out, s, Itv::c(OK));
                split(out, b, Itv::c(AGN));
                return 1;
            };
            // tags of a returning function die
            c.leaveFn = [&](Engine&, Frame& fr, Exit& e) {
                for (auto it = e.s.v.begin(); it != e.s.v.end();) {
                    bool mine = false;
                    if (it->first[0] == 'g') {
                        auto* V = (const Value*)std::stoull(it->first.substr(1));
                        if (auto* I = dyn_cast<Instruction>(V))
                            mine = I->getFunction() == fr.F;
                    }
                    it = mine ? e.s.v.erase(it) : std::next(it);
                }
                if (getenv("SA_DBG"))
                    fprintf(stderr, "leave %s ret=%s %s\n", P.q(fr.F).c_str(), e.ret.str().c_str(), e.s.ser().c_str());
            };
            long concl = 0;
            std::vector<int> init { 0, 0, 0, 0, 0, 0, 1, 0 };
            for (auto& e : c.go(F, st(init))) {
                if (e.unwind)
                    continue;
                for (auto& k : { std::make_pair(OK, "SUCCESS"), std::make_pair(NE, "NOT_EXIST"), std::make_pair(IND, "IN_DICT") })
                    if (e.ret.contains(k.first)) {
                        concl++;
                        if (!e.s.q[PATH])
                            R.violation("lookup-validated", &*F->getEntryBlock().begin(), P.q(F), string("path-") + k.second, string("the lookup may conclude ") + k.second + " without checking that the edges it came through are still unmodified: what they led to may have been recycled");
                        if (e.s.q[CUR] || e.s.q[PAR])
                            R.violation("lookup-validated", &*F->getEntryBlock().begin(), P.q(F), string("conclude-") + k.second, string("the lookup may conclude ") + k.second + (e.s.q[CUR] ? " from an edge that is not validated after its last use" : " although the edge it came through was never validated"));
                    }
            }
            R.oblige("lookup-validated: every " + P.q(F) + " conclusion (SUCCESS, NOT_EXIST, IN_DICT) follows a successful validation of the last edge and of each edge on the way");
            R.oblige("lookup-snapshot: " + P.q(F) + " uses one snapshot taken before its root edge is read");
            R.counts["conclusions"] += concl;
            R.counts["validations"] += stops;
            if (!stops)
                R.violation("lookup-validated", &*F->getEntryBlock().begin(), P.q(F), "never", "the lookup never validates what it read");
        }
    });
}
}
