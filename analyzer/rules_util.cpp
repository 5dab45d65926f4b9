#include "rules.h"
#include <algorithm>
#include <ctime>
#include "llvm/BinaryFormat/Dwarf.h"
using namespace llvm;
using std::set;
using std::vector;
namespace sa {
std::vector<Rule>& rules()
{
    static std::vector<Rule> r;
    return r;
}
vector<Function*> repoFunctions()
{
    vector<Function*> r;
    for (auto& F : *P.M)
        if (!F.isDeclaration() && P.repo(&F))
            r.push_back(&F);
    return r;
}
bool hasCallTo(const Function* F, const set<string>& names)
{
    for (auto& I : instructions(*F))
        if (auto* CB = dyn_cast<CallBase>(&I))
            for (auto* T : P.targets(CB))
                if (names.count(P.q(T)))
                    return true;
    return false;
}
const set<const Function*>& callersOf(const Function* F)
{
    static std::unordered_map<const Function*, set<const Function*>> m;
    if (m.empty())
        for (auto& G : *P.M)
            for (auto& I : instructions(G))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    for (auto* T : P.targets(CB))
                        m[T].insert(&G);
    return m[F];
}
vector<Function*> rootsReaching(const std::function<bool(const Function*)>& rel)
{
    vector<Function*> r;
    for (auto* F : repoFunctions()) {
        bool reach = false;
        for (auto* G : P.reachable(F))
            if (rel(G)) {
                reach = true;
                break;
            }
        if (!reach)
            continue;
        bool called = false;
        for (auto* C : callersOf(F))
            if (C != F && P.repo(C))
                called = true;
        if (!called)
            r.push_back(F);
    }
    return r;
}
vector<CallBase*> callsTo(const string& n)
{
    vector<CallBase*> r;
    for (auto* F : repoFunctions())
        for (auto& I : instructions(*F))
            if (auto* CB = dyn_cast<CallBase>(&I))
                for (auto* T : P.targets(CB))
                    if (P.q(T) == n) {
                        r.push_back(CB);
                        break;
                    }
    return r;
}
string cls(const string& q)
{
    size_t p = q.rfind("::");
    return p == string::npos ? "" : q.substr(0, p);
}
string shortq(const Function* F)
{
    string s = P.q(F);
    return startsWith(s, "mabain::") ? s.substr(8) : s;
}
int64_t constArg(const CallBase* CB, unsigned i, int64_t d)
{
    if (i >= CB->arg_size())
        return d;
    if (auto* C = dyn_cast<ConstantInt>(CB->getArgOperand(i)))
        return C->getSExtValue();
    return d;
}
static bool ff(const Value* V, const std::function<bool(const Value*)>& pred, int depth, set<const Value*>& seen)
{
    if (!seen.insert(V).second || depth < 0)
        return false;
    if (pred(V))
        return true;
    if (auto* C = dyn_cast<CastInst>(V))
        return ff(C->getOperand(0), pred, depth - 1, seen);
    if (auto* S = dyn_cast<SelectInst>(V))
        return ff(S->getTrueValue(), pred, depth - 1, seen) || ff(S->getFalseValue(), pred, depth - 1, seen);
    if (auto* Ph = dyn_cast<PHINode>(V)) {
        for (auto& x : Ph->incoming_values())
            if (ff(x, pred, depth - 1, seen))
                return true;
        return false;
    }
    if (auto* B = dyn_cast<BinaryOperator>(V))
        return ff(B->getOperand(0), pred, depth - 1, seen) || ff(B->getOperand(1), pred, depth - 1, seen);
    if (auto* F = dyn_cast<FreezeInst>(V))
        return ff(F->getOperand(0), pred, depth - 1, seen);
    return false;
}
bool flowsFrom(const Value* V, const std::function<bool(const Value*)>& pred, int depth)
{
    set<const Value*> seen;
    return ff(V, pred, depth, seen);
}
void noteRun(Report& R, Engine& E, const string& root)
{
    for (auto* F : E.visited)
        R.functions.insert(P.q(F));
    R.counts["abstract steps"] += E.steps;
    R.counts["function analyses"] += E.invocations;
    for (auto& i : E.incomplete)
        R.notes.push_back(root + ": " + i);
}
void dbgRun(Function* F, Engine& E, size_t n)
{
    if (!getenv("SA_HIST"))
        return;
    fprintf(stderr, "%s: exits=%zu steps=%ld inv=%ld memo=%ld visited=%zu t=%ld\n", P.q(F).c_str(), n, E.steps, E.invocations, E.memoHits, E.visited.size(), (long)clock() / 1000);
    vector<std::pair<long, string>> h;
    for (auto& k : E.hist)
        h.push_back({ -k.second, k.first });
    std::sort(h.begin(), h.end());
    for (size_t i = 0; i < h.size() && i < 12; i++)
        fprintf(stderr, "      %ld %s\n", -h[i].first, h[i].second.c_str());
}
string valDesc(const Value* V)
{
    string s;
    raw_string_ostream o(s);
    V->print(o);
    if (s.size() > 120)
        s.resize(120);
    return s;
}
}
namespace sa {
int64_t enumv(const string& name)
{
    static std::map<string, int64_t> m;
    if (m.empty()) {
        DebugInfoFinder f;
        f.processModule(*P.M);
        for (auto* T : f.types())
            if (auto* C = dyn_cast<DICompositeType>(T))
                if (C->getTag() == dwarf::DW_TAG_enumeration_type)
                    for (auto* E : C->getElements())
                        if (auto* N = dyn_cast<DIEnumerator>(E))
                            m[N->getName().str()] = N->getValue().getSExtValue();
        if (m.empty())
            m["\x01none"] = 0;
    }
    auto it = m.find(name);
    if (it == m.end())
        throw std::runtime_error("enumerator " + name + " not found");
    return it->second;
}
bool constParam(const Function* F, unsigned i)
{
    auto* SP = F->getSubprogram();
    if (!SP || F->hasStructRetAttr())
        return false;
    auto T = SP->getType()->getTypeArray();
    if (i + 1 >= T.size() || !T[i + 1])
        return false;
    const DIType* D = T[i + 1];
    while (auto* X = dyn_cast_or_null<DIDerivedType>(D)) {
        if (X->getTag() == dwarf::DW_TAG_pointer_type || X->getTag() == dwarf::DW_TAG_reference_type) {
            auto* B = dyn_cast_or_null<DIDerivedType>(X->getBaseType());
            while (B && B->getTag() == dwarf::DW_TAG_typedef)
                B = dyn_cast_or_null<DIDerivedType>(B->getBaseType());
            return B && B->getTag() == dwarf::DW_TAG_const_type;
        }
        D = X->getBaseType();
    }
    return false;
}
int64_t globalConst(const string& q)
{
    for (auto& G : P.M->globals())
        if (G.hasInitializer() && demangle(G.getName().str()) == q)
            if (auto* C = dyn_cast<ConstantInt>(G.getInitializer()))
                return C->getSExtValue();
    throw std::runtime_error("constant " + q + " not found");
}
int64_t errv(const string& name) { return enumv(name); }
}
