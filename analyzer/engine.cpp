#include "engine.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DataLayout.h"
#include <algorithm>
#include <deque>
#include <sstream>

namespace sa {
using namespace llvm;
using std::set;
using std::map;
using std::vector;
using std::string;

Program P;
string gRepoRoot;

string demangle(const string& s) { return llvm::demangle(s); }
bool startsWith(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
bool endsWith(const string& s, const string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
bool contains(const string& s, const string& p) { return s.find(p) != string::npos; }

// ------------------------------------------------------------ Program
static string cleanStruct(string n)
{
    for (const char* p : { "class.", "struct.", "union." })
        if (startsWith(n, p)) {
            n = n.substr(strlen(p));
            break;
        }
    if (endsWith(n, ".base"))
        n = n.substr(0, n.size() - 5);
    size_t d = n.rfind('.');
    if (d != string::npos && d + 1 < n.size() && std::all_of(n.begin() + d + 1, n.end(), ::isdigit))
        n = n.substr(0, d);
    if (endsWith(n, ".base"))
        n = n.substr(0, n.size() - 5);
    if (startsWith(n, "mabain::"))
        n = n.substr(8);
    return n;
}

string Program::structName(StructType* ST) const { return ST->hasName() ? cleanStruct(ST->getName().str()) : "anon"; }

const string& Program::q(const Function* F) const
{
    static string empty;
    auto it = qname.find(F);
    return it == qname.end() ? empty : it->second;
}
const string& Program::d(const Function* F) const
{
    static string empty;
    auto it = dname.find(F);
    return it == dname.end() ? empty : it->second;
}
string Program::fieldName(StructType* ST, unsigned idx) const
{
    auto it = fieldNames.find(structName(ST));
    if (it != fieldNames.end() && idx < it->second.size() && !it->second[idx].empty())
        return it->second[idx];
    return "#" + std::to_string(idx);
}
bool Program::repo(const Function* F) const
{
    auto it = isRepo.find(F);
    return it != isRepo.end() && it->second;
}
string Program::fileOf(const Function* F)
{
    if (auto* SP = F->getSubprogram()) {
        string f = SP->getFilename().str();
        if (!f.empty() && f[0] != '/')
            f = SP->getDirectory().str() + "/" + f;
        // normalise
        vector<string> parts;
        std::stringstream ss(f);
        string t;
        while (std::getline(ss, t, '/')) {
            if (t.empty() || t == ".")
                continue;
            if (t == ".." && !parts.empty())
                parts.pop_back();
            else
                parts.push_back(t);
        }
        string r;
        for (auto& p : parts)
            r += "/" + p;
        return r;
    }
    return "";
}
string Program::loc(const Instruction* I)
{
    if (!I)
        return "";
    if (auto& DL = I->getDebugLoc()) {
        string f = cast<DIScope>(DL.getScope())->getFilename().str();
        size_t s = f.find("/src/");
        if (s != string::npos)
            f = f.substr(s + 1);
        return f + ":" + std::to_string(DL.getLine());
    }
    string f = fileOf(I->getFunction());
    size_t s = f.find("/src/");
    if (s != string::npos)
        f = f.substr(s + 1);
    return f + ":?";
}

void Program::load(Module* m)
{
    M = m;
    // struct field names from debug info
    DebugInfoFinder DIF;
    DIF.processModule(*M);
    map<string, const DICompositeType*> di;
    for (auto* T : DIF.types()) {
        auto* CT = dyn_cast<DICompositeType>(T);
        if (!CT || CT->getTag() == dwarf::DW_TAG_enumeration_type)
            continue;
        string n;
        if (!CT->getIdentifier().empty()) {
            n = llvm::demangle(CT->getIdentifier().str());
            if (startsWith(n, "typeinfo name for "))
                n = n.substr(18);
        } else if (!CT->getName().empty())
            n = CT->getName().str();
        if (n.empty())
            continue;
        if (startsWith(n, "mabain::"))
            n = n.substr(8);
        if (CT->getElements().size() || !di.count(n))
            di[n] = CT;
    }
    const DataLayout& DL = M->getDataLayout();
    for (auto* ST : M->getIdentifiedStructTypes()) {
        if (ST->isOpaque() || !ST->isSized())
            continue;
        string n = structName(ST);
        auto it = di.find(n);
        if (it == di.end())
            continue;
        const StructLayout* SL = DL.getStructLayout(ST);
        map<uint64_t, string> offs;
        for (auto* E : it->second->getElements()) {
            if (auto* D = dyn_cast_or_null<DIDerivedType>(E)) {
                if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
                    offs[D->getOffsetInBits() / 8] = D->getName().str();
                else if (D->getTag() == dwarf::DW_TAG_inheritance)
                    offs.insert({ D->getOffsetInBits() / 8, "<base>" });
            }
        }
        vector<string> names(ST->getNumElements());
        for (unsigned i = 0; i < ST->getNumElements(); i++) {
            auto o = offs.find(SL->getElementOffset(i));
            if (o != offs.end())
                names[i] = o->second;
        }
        auto& cur = fieldNames[n];
        if (cur.size() < names.size())
            cur = names;
    }
    for (auto& F : *M) {
        string mn = F.getName().str();
        string dn = llvm::demangle(mn);
        dname[&F] = dn;
        ItaniumPartialDemangler D;
        string qn = dn;
        if (!D.partialDemangle(mn.c_str()) && D.isFunction()) {
            size_t n = 0;
            char* b = D.getFunctionName(nullptr, &n);
            if (b) {
                qn = b;
                free(b);
            }
        }
        qname[&F] = qn;
        byName[qn].push_back(&F);
        if (!F.isDeclaration()) {
            string f = fileOf(&F);
            isRepo[&F] = !f.empty() && startsWith(f, gRepoRoot + "/");
        }
    }
    // the writer-private journal words: atomic accesses become plain IR loads/stores
    // (with their ordering), so facts flow through them as through any other field
    vector<CallBase*> low;
    for (auto& F : *M)
        for (auto& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                string op = atomicOp(CB);
                if ((op == "load" || op == "store") && !isa<InvokeInst>(CB)) {
                    string f = ptrField(CB->getArgOperand(0));
                    if (contains(f, "IndexHeader.excep_"))
                        low.push_back(CB);
                }
            }
    for (auto* CB : low) {
        bool st = atomicOp(CB) == "store";
        unsigned oi = st ? 2 : 1;
        int64_t o = 5;
        if (CB->arg_size() > oi)
            if (auto* C = dyn_cast<ConstantInt>(CB->getArgOperand(oi)))
                o = C->getSExtValue();
        AtomicOrdering ao = o >= 5 ? AtomicOrdering::SequentiallyConsistent : o == 0 ? AtomicOrdering::Monotonic : st ? AtomicOrdering::Release : AtomicOrdering::Acquire;
        IRBuilder<> B(CB);
        if (st) {
            Value* v = CB->getArgOperand(1);
            auto* SI = B.CreateAlignedStore(v, CB->getArgOperand(0), MaybeAlign(M->getDataLayout().getABITypeAlign(v->getType())));
            SI->setAtomic(ao);
            if (!CB->use_empty())
                CB->replaceAllUsesWith(v);
        } else {
            auto* LI = B.CreateAlignedLoad(CB->getType(), CB->getArgOperand(0), MaybeAlign(M->getDataLayout().getABITypeAlign(CB->getType())));
            LI->setAtomic(ao);
            CB->replaceAllUsesWith(LI);
        }
        CB->eraseFromParent();
    }
    // vtables
    for (auto& G : M->globals()) {
        if (!G.hasInitializer())
            continue;
        SmallVector<MDNode*, 2> mds;
        G.getMetadata(LLVMContext::MD_type, mds);
        if (mds.empty())
            continue;
        auto* CS = dyn_cast<ConstantStruct>(G.getInitializer());
        if (!CS)
            continue;
        auto* CA = dyn_cast<ConstantArray>(CS->getOperand(0));
        if (!CA)
            continue;
        for (auto* md : mds) {
            auto* off = mdconst::dyn_extract<ConstantInt>(md->getOperand(0));
            auto* id = dyn_cast<MDString>(md->getOperand(1));
            if (!off || !id)
                continue;
            uint64_t base = off->getZExtValue() / 8;
            for (uint64_t i = base; i < CA->getNumOperands(); i++)
                if (auto* F = dyn_cast<Function>(CA->getOperand(i)->stripPointerCasts()))
                    if (!contains(F->getName().str(), "cxa_pure_virtual"))
                        vslots[id->getString().str()][i - base].push_back(F);
        }
    }
    for (auto& F : *M)
        for (auto& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I))
                for (auto* T : targets(CB))
                    callees[&F].push_back(T);
    // field tests
    std::function<void(const Value*, set<string>&, int)> collect = [&](const Value* V, set<string>& out, int d) {
        if (d > 6)
            return;
        if (auto* LI = dyn_cast<LoadInst>(V)) {
            string f = ptrField(LI->getPointerOperand());
            if (!f.empty())
                out.insert(f);
            return;
        }
        if (isa<PHINode>(V))
            return;
        if (auto* CB = dyn_cast<CallBase>(V)) {
            // accessor
            for (auto* T : targets(CB))
                if (!T->isDeclaration() && T->size() == 1)
                    if (auto* R = dyn_cast<ReturnInst>(T->front().getTerminator()))
                        if (R->getReturnValue())
                            collect(R->getReturnValue(), out, d + 1);
            return;
        }
        if (auto* I = dyn_cast<Instruction>(V))
            for (auto& O : I->operands())
                collect(O, out, d + 1);
    };
    for (auto& F : *M) {
        if (!repo(&F))
            continue;
        for (auto& I : instructions(F)) {
            set<string> fs;
            if (auto* BI = dyn_cast<BranchInst>(&I)) {
                if (BI->isConditional())
                    collect(BI->getCondition(), fs, 0);
            } else if (auto* SI = dyn_cast<SwitchInst>(&I))
                collect(SI->getCondition(), fs, 0);
            for (auto& f : fs)
                fieldTests[f]++;
        }
    }
}

vector<Function*> Program::find(const string& n) const
{
    vector<Function*> r;
    auto it = byName.find(n);
    if (it != byName.end())
        for (auto* F : it->second)
            if (!F->isDeclaration())
                r.push_back(F);
    return r;
}
Function* Program::one(const string& n) const
{
    auto v = find(n);
    if (v.empty())
        throw std::runtime_error("anchor function not found: " + n);
    if (v.size() > 1) {
        // C1/C2 constructor clones: prefer first non-trivially-equal
        return v[0];
    }
    return v[0];
}

vector<Function*> Program::targets(const CallBase* CB) const
{
    vector<Function*> r;
    const Value* C = CB->getCalledOperand()->stripPointerCasts();
    if (auto* F = dyn_cast<Function>(C)) {
        r.push_back(const_cast<Function*>(F));
        return r;
    }
    if (auto* A = dyn_cast<GlobalAlias>(C)) {
        if (auto* F = dyn_cast<Function>(A->getAliasee()->stripPointerCasts()))
            r.push_back(const_cast<Function*>(F));
        return r;
    }
    auto* L = dyn_cast<LoadInst>(C);
    if (!L)
        return r;
    const Value* ptr = L->getPointerOperand()->stripPointerCasts();
    uint64_t slot = 0;
    const Value* vt = ptr;
    if (auto* G = dyn_cast<GEPOperator>(ptr)) {
        APInt off(64, 0);
        if (G->accumulateConstantOffset(M->getDataLayout(), off)) {
            slot = off.getZExtValue() / 8;
            vt = G->getPointerOperand()->stripPointerCasts();
        }
    }
    for (auto* U : vt->users()) {
        if (auto* II = dyn_cast<CallBase>(U)) {
            auto* F = II->getCalledFunction();
            if (F && (F->getName() == "llvm.type.test" || F->getName() == "llvm.public.type.test")) {
                auto* MV = dyn_cast<MetadataAsValue>(II->getArgOperand(1));
                if (auto* S = dyn_cast_or_null<MDString>(MV ? MV->getMetadata() : nullptr)) {
                    auto it = vslots.find(S->getString().str());
                    if (it != vslots.end()) {
                        auto jt = it->second.find(slot);
                        if (jt != it->second.end())
                            for (auto* T : jt->second)
                                if (std::find(r.begin(), r.end(), T) == r.end())
                                    r.push_back(T);
                    }
                }
            }
        }
    }
    return r;
}

const set<const Function*>& Program::reachable(const Function* F)
{
    auto it = reach.find(F);
    if (it != reach.end())
        return it->second;
    set<const Function*> s;
    std::deque<const Function*> w { F };
    s.insert(F);
    while (!w.empty()) {
        auto* x = w.front();
        w.pop_front();
        for (auto* c : callees[x])
            if (s.insert(c).second)
                w.push_back(c);
    }
    return reach[F] = s;
}

// Struct.field per struct level of a GEP (operand order, "" for array levels).  The
// names were attached per translation unit (metadata), before linking could
// merge structurally identical types.
vector<string> Program::gepFields(const GEPOperator* G) const
{
    vector<string> r;
    const MDNode* N = nullptr;
    if (auto* I = dyn_cast<Instruction>(G))
        N = I->getMetadata("mb.f");
    if (N) {
        for (auto& o : N->operands())
            r.push_back(cast<MDString>(o)->getString().str());
        while (r.size() < G->getNumIndices())
            r.push_back("");
        return r;
    }
    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi)
        if (StructType* ST = gi.getStructTypeOrNull())
            r.push_back(structName(ST) + "." + fieldName(ST, cast<ConstantInt>(gi.getOperand())->getZExtValue()));
        else
            r.push_back("");
    return r;
}

string Program::ptrField(const Value* Ptr) const
{
    const Value* V = Ptr;
    while (true) {
        while (auto* C = dyn_cast<CastInst>(V)) V = C->getOperand(0);
        auto* G = dyn_cast<GEPOperator>(V);
        if (!G)
            return "";
        // walk indices; remember last struct field
        string last;
        for (auto& n : gepFields(G))
            if (!n.empty() && !startsWith(n, "anon.") && !startsWith(n, "std::"))
                last = n;
        if (!last.empty())
            return last;
        V = G->getPointerOperand();
    }
}

string Program::atomicOp(const CallBase* CB) const
{
    auto* F = CB->getCalledFunction();
    if (!F)
        return "";
    const string& n = q(F);
    if (!startsWith(n, "std::atomic<") && !startsWith(n, "std::__atomic_base<") && !startsWith(n, "std::atomic_flag") && !startsWith(n, "std::atomic"))
        return "";
    const string& dn = d(F);
    if (contains(n, "::store"))
        return "store";
    if (contains(n, "::load"))
        return "load";
    if (contains(n, "::fetch_add"))
        return "fetch_add";
    if (contains(n, "::fetch_sub"))
        return "fetch_sub";
    if (contains(n, "::fetch_"))
        return "rmw";
    if (contains(n, "::exchange"))
        return "exchange";
    if (contains(n, "compare_exchange"))
        return "cas";
    if (contains(n, "operator++") || contains(n, "operator--") || contains(n, "operator+=") || contains(n, "operator-=") || contains(n, "operator|=") || contains(n, "operator&="))
        return "rmw";
    if (contains(n, "operator="))
        return "store";
    if (contains(dn, "::operator "))
        return "load";
    return "";
}

const set<string>& Program::modSet(const Function* F)
{
    auto it = modFields.find(F);
    if (it != modFields.end())
        return it->second;
    set<string> s;
    for (auto* R : reachable(F)) {
        for (auto& I : instructions(*const_cast<Function*>(R))) {
            if (auto* SI = dyn_cast<StoreInst>(&I)) {
                string f = ptrField(SI->getPointerOperand());
                if (!f.empty())
                    s.insert(f);
            } else if (auto* MI = dyn_cast<MemIntrinsic>(&I)) {
                string f = ptrField(MI->getDest());
                if (!f.empty())
                    s.insert(f);
            } else if (auto* CB = dyn_cast<CallBase>(&I)) {
                string op = atomicOp(CB);
                if (!op.empty() && op != "load") {
                    string f = ptrField(CB->getArgOperand(0));
                    if (!f.empty())
                        s.insert(f);
                }
            }
        }
    }
    return modFields[F] = s;
}

const set<string>& Program::readSet(const Function* F)
{
    auto it = readFields.find(F);
    if (it != readFields.end())
        return it->second;
    set<string> s;
    for (auto* R : reachable(F))
        for (auto& I : instructions(*const_cast<Function*>(R))) {
            string f;
            if (auto* LI = dyn_cast<LoadInst>(&I))
                f = ptrField(LI->getPointerOperand());
            else if (auto* CB = dyn_cast<CallBase>(&I)) {
                if (!atomicOp(CB).empty())
                    f = ptrField(CB->getArgOperand(0));
            }
            if (!f.empty())
                s.insert(f);
        }
    return readFields[F] = s;
}

bool Program::caughtBy(const LandingPadInst* LP, const string& type)
{
    for (unsigned c = 0; c < LP->getNumClauses(); c++)
        if (LP->isCatch(c)) {
            auto* cv = LP->getClause(c)->stripPointerCasts();
            if (isa<ConstantPointerNull>(cv) || cv->getName() == type)
                return true;
        }
    return false;
}

const set<string>& Program::escapes(const Function* F)
{
    if (!escDone) {
        escDone = true;
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto& G : *M) {
                if (G.isDeclaration() || G.doesNotThrow())
                    continue;
                set<string> s = esc[&G], caught;
                bool rethrow = false;
                for (auto& I : instructions(G)) {
                    auto* CB = dyn_cast<CallBase>(&I);
                    if (!CB)
                        continue;
                    set<string> ts;
                    auto tg = targets(CB);
                    for (auto* T : tg) {
                        if (T->getName() == "__cxa_throw")
                            ts.insert(CB->getArgOperand(1)->stripPointerCasts()->getName().str());
                        else if (T->getName() == "__cxa_rethrow")
                            rethrow = true;
                        else
                            ts.insert(esc[T].begin(), esc[T].end());
                    }
                    auto* II = dyn_cast<InvokeInst>(CB);
                    for (auto& t : ts) {
                        if (II && caughtBy(II->getLandingPadInst(), t))
                            caught.insert(t);
                        else
                            s.insert(t);
                    }
                }
                if (rethrow)
                    s.insert(caught.begin(), caught.end());
                if (s.size() != esc[&G].size()) {
                    esc[&G] = s;
                    ch = true;
                }
            }
        }
    }
    return esc[F];
}

// ------------------------------------------------------------ intervals
bool Itv::empty() const
{
    if (lo > hi)
        return true;
    if (lo == hi && ne.count(lo))
        return true;
    return false;
}
Itv Itv::meet(const Itv& o) const
{
    Itv r;
    r.lo = std::max(lo, o.lo);
    r.hi = std::min(hi, o.hi);
    for (auto x : ne)
        if (x >= r.lo && x <= r.hi)
            r.ne.insert(x);
    for (auto x : o.ne)
        if (x >= r.lo && x <= r.hi)
            r.ne.insert(x);
    while (r.lo < r.hi && r.ne.count(r.lo)) {
        r.ne.erase(r.lo);
        r.lo++;
    }
    while (r.hi > r.lo && r.ne.count(r.hi)) {
        r.ne.erase(r.hi);
        r.hi--;
    }
    if (r.ne.size() > 24)
        r.ne.clear();
    return r;
}
string Itv::str() const
{
    string s = "[" + (lo == INT64_MIN ? string("-") : std::to_string(lo)) + "," + (hi == INT64_MAX ? string("+") : std::to_string(hi)) + "]";
    for (auto x : ne)
        s += "!" + std::to_string(x);
    return s;
}

string State::ser() const
{
    string r;
    for (int x : q)
        r += std::to_string(x) + ",";
    r += "|";
    for (auto& kv : v)
        r += kv.first + "=" + kv.second + ";";
    r += "|";
    for (auto& kv : f)
        r += kv.first + kv.second.str() + ";";
    return r;
}
string Exit::ser() const { return s.ser() + (unwind ? "!U" + excType : "!R") + ret.str() + retKey; }

string Frame::stack() const
{
    string s;
    vector<const Frame*> fs;
    for (const Frame* f = this; f; f = f->parent)
        fs.push_back(f);
    for (auto it = fs.rbegin(); it != fs.rend(); ++it) {
        if ((*it)->site)
            s += " -(" + Program::loc((*it)->site) + ")-> ";
        s += P.q((*it)->F);
    }
    return s;
}

// ------------------------------------------------------------ liveness
const Engine::LiveInfo& Engine::getLive(const Function* F)
{
    auto it = liveInfo.find(F);
    if (it != liveInfo.end())
        return it->second;
    LiveInfo& L = liveInfo[F];
    bool ch = true;
    // use/def per block
    std::unordered_map<const BasicBlock*, std::unordered_set<const Value*>> use, def, phiUseOut;
    for (auto& B : *F)
        for (auto& I : B) {
            if (auto* PN = dyn_cast<PHINode>(&I)) {
                for (unsigned k = 0; k < PN->getNumIncomingValues(); k++)
                    if (isa<Instruction>(PN->getIncomingValue(k)))
                        phiUseOut[PN->getIncomingBlock(k)].insert(PN->getIncomingValue(k));
            } else {
                for (auto& O : I.operands())
                    if (isa<Instruction>(O) && !def[&B].count(O))
                        use[&B].insert(O);
            }
            def[&B].insert(&I);
        }
    while (ch) {
        ch = false;
        for (auto bi = F->end(); bi != F->begin();) {
            --bi;
            const BasicBlock* B = &*bi;
            auto in = use[B];
            auto add = [&](const Value* v) { if (!def[B].count(v)) in.insert(v); };
            for (auto* S : successors(B))
                for (auto* v : L.in[S])
                    add(v);
            for (auto* v : phiUseOut[B])
                add(v);
            // the value of a caught exception is known by the address it was loaded from
            for (auto* v : std::vector<const Value*>(in.begin(), in.end()))
                if (auto* LI = dyn_cast<LoadInst>(v))
                    if (auto* CB = dyn_cast<CallBase>(LI->getPointerOperand()))
                        if (auto* T = CB->getCalledFunction(); T && T->getName() == "__cxa_begin_catch")
                            add(CB);
            // phi of this block themselves are live-in "as defined on the edge"
            for (auto& I : *B)
                if (isa<PHINode>(I))
                    in.insert(&I);
                else
                    break;
            if (in.size() != L.in[B].size()) {
                L.in[B] = in;
                ch = true;
            }
        }
    }
    return L;
}

// local tokens: "L<fid>.<n>~"
static std::unordered_map<const Value*, string>& localTok()
{
    static std::unordered_map<const Value*, string> m;
    return m;
}
static std::unordered_map<string, const Value*>& tokVal()
{
    static std::unordered_map<string, const Value*> m;
    return m;
}
static std::unordered_map<const Function*, int>& gfid()
{
    static std::unordered_map<const Function*, int> m;
    return m;
}
static string tok(const Value* V, const Function* F)
{
    auto& m = localTok();
    auto it = m.find(V);
    if (it != m.end())
        return it->second;
    auto& g = gfid();
    int id = g.count(F) ? g[F] : (g[F] = (int)g.size());
    static std::unordered_map<const Function*, int> cnt;
    string nm;
    if (auto* A = dyn_cast<AllocaInst>(V))
        nm = A->getName().str();
    string t = "L" + std::to_string(id) + "." + std::to_string(cnt[F]++) + "~";
    m[V] = t;
    tokVal()[t] = V;
    return t;
}
static void tokensIn(const string& k, vector<string>& out)
{
    size_t p = 0;
    while ((p = k.find('L', p)) != string::npos) {
        size_t e = p + 1;
        while (e < k.size() && (isdigit(k[e]) || k[e] == '.'))
            e++;
        if (e < k.size() && k[e] == '~' && e > p + 1)
            out.push_back(k.substr(p, e - p + 1));
        p = e;
    }
}

void Engine::prune(State& s, Frame& fr, const BasicBlock* BB)
{
    const LiveInfo& L = getLive(fr.F);
    auto li = L.in.find(BB);
    for (auto it = s.f.begin(); it != s.f.end();) {
        vector<string> ts;
        tokensIn(it->first, ts);
        bool dead = false;
        bool mem = contains(it->first, "*(");
        for (auto& t : ts) {
            auto vi = tokVal().find(t);
            if (vi == tokVal().end())
                continue;
            auto* I = dyn_cast<Instruction>(vi->second);
            if (!I || I->getFunction() != fr.F)
                continue;
            if (isa<AllocaInst>(I)) {
                continue;
            }
            if (mem && !li->second.count(I)) {
                dead = true;
                break;
            }
            if (!li->second.count(I)) {
                dead = true;
                break;
            }
        }
        if (dead)
            it = s.f.erase(it);
        else
            ++it;
    }
}

// ------------------------------------------------------------ keys
string Engine::key(const Value* V, Frame& fr)
{
    if (auto* C = dyn_cast<ConstantInt>(V))
        return C->getBitWidth() <= 64 ? "#" + std::to_string(C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue()) : "#big";
    if (isa<ConstantPointerNull>(V))
        return "#0";
    if (isa<UndefValue>(V))
        return "#undef";
    if (auto* G = dyn_cast<GlobalValue>(V))
        return "@" + G->getName().str();
    if (auto* A = dyn_cast<Argument>(V)) {
        if (A->getParent() == fr.F && A->getArgNo() < fr.argKeys.size())
            return fr.argKeys[A->getArgNo()];
        return "arg" + std::to_string(A->getArgNo());
    }
    auto it = fr.kc.find(V);
    if (it != fr.kc.end())
        return it->second;
    string r;
    const Function* F = fr.F;
    if (auto* G = dyn_cast<GEPOperator>(V)) {
        r = key(G->getPointerOperand(), fr);
        bool first = true;
        auto names = P.gepFields(G);
        size_t gidx = 0;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++gidx) {
            if (!names[gidx].empty()) {
                r += "." + names[gidx];
            } else {
                string k = key(gi.getOperand(), fr);
                if (k != "#0")
                    r += "[" + k + "]";
                else if (!first)
                    r += "[0]";
            }
            first = false;
        }
    } else if (auto* CE = dyn_cast<ConstantExpr>(V)) {
        r = CE->isCast() ? key(CE->getOperand(0), fr) : "#cexpr";
    } else if (auto* CI = dyn_cast<CastInst>(V)) {
        if (isa<TruncInst>(CI) && !CI->getType()->isIntegerTy(1)) {
            r = "tr" + std::to_string(CI->getType()->getIntegerBitWidth()) + "(" + key(CI->getOperand(0), fr) + ")";
        } else
            r = key(CI->getOperand(0), fr);
    } else if (auto* FI = dyn_cast<FreezeInst>(V)) {
        r = key(FI->getOperand(0), fr);
    } else if (auto* LI = dyn_cast<LoadInst>(V)) {
        r = "*(" + key(LI->getPointerOperand(), fr) + ")";
    } else if (auto* BO = dyn_cast<BinaryOperator>(V)) {
        string a = key(BO->getOperand(0), fr), b = key(BO->getOperand(1), fr);
        if (BO->isCommutative() && b < a)
            std::swap(a, b);
        r = "(" + a + " " + BO->getOpcodeName() + " " + b + ")";
    } else if (auto* CB = dyn_cast<CallBase>(V)) {
        if (CB->getIntrinsicID() == Intrinsic::threadlocal_address)
            return fr.kc[V] = key(CB->getArgOperand(0), fr);
        // transparent accessor: a single-block function without stores or calls returning an expression
        auto ts = P.targets(CB);
        if (ts.size() == 1 && !ts[0]->isDeclaration() && P.repo(ts[0]) && ts[0]->size() == 1) {
            bool ok = true;
            for (auto& I : ts[0]->front()) {
                if (isa<StoreInst>(I) || isa<MemIntrinsic>(I) || isa<AllocaInst>(I))
                    ok = false;
                else if (auto* C2 = dyn_cast<CallBase>(&I)) {
                    if (isa<DbgInfoIntrinsic>(C2))
                        continue;
                    auto* CF = C2->getCalledFunction();
                    if (CF && (CF->getIntrinsicID() == Intrinsic::lifetime_start || CF->getIntrinsicID() == Intrinsic::lifetime_end))
                        continue;
                    ok = false;
                }
            }
            auto* R = dyn_cast<ReturnInst>(ts[0]->front().getTerminator());
            if (ok && R && R->getReturnValue()) {
                Frame cf;
                cf.F = ts[0];
                for (auto& a : CB->args())
                    cf.argKeys.push_back(key(a, fr));
                r = key(R->getReturnValue(), cf);
                if (contains(r, "L")) {
                    vector<string> tk;
                    tokensIn(r, tk);
                    for (auto& t : tk) {
                        auto* I = dyn_cast<Instruction>(tokVal()[t]);
                        if (I && I->getFunction() == ts[0])
                            r.clear();
                        if (r.empty())
                            break;
                    }
                }
            }
        }
        if (r.empty())
            r = tok(V, F);
    } else if (auto* IC = dyn_cast<ICmpInst>(V)) {
        r = "(" + key(IC->getOperand(0), fr) + " " + CmpInst::getPredicateName(IC->getPredicate()).str() + " " + key(IC->getOperand(1), fr) + ")";
    } else
        r = tok(V, F);
    if (r.size() > 400)
        r = tok(V, F);
    fr.kc[V] = r;
    return r;
}

static Itv typeItv(Type* T)
{
    if (T->isIntegerTy(1))
        return Itv::range(0, 1);
    return Itv();
}

Itv Engine::keyItv(const string& k, const State& s)
{
    if (!k.empty() && k[0] == '#' && k != "#undef" && k != "#big" && k != "#cexpr")
        return Itv::c(strtoll(k.c_str() + 1, nullptr, 10));
    auto it = s.f.find(k);
    if (it != s.f.end())
        return it->second;
    return Itv();
}

Itv Engine::itv(const Value* V, Frame& fr, const State& s)
{
    if (auto* C = dyn_cast<ConstantInt>(V))
        return C->getBitWidth() <= 64 ? Itv::c(C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue()) : Itv();
    if (isa<ConstantPointerNull>(V))
        return Itv::c(0);
    if (isa<UndefValue>(V))
        return Itv();
    if (isa<Function>(V) || isa<AllocaInst>(V)) {
        Itv r;
        r.ne.insert(0);
        return r;
    }
    if (isa<GlobalVariable>(V)) {
        Itv r;
        r.ne.insert(0);
        return r;
    }
    Itv r = typeItv(V->getType());
    if (auto* Z = dyn_cast<ZExtInst>(V)) {
        Itv o = itv(Z->getOperand(0), fr, s);
        unsigned w = Z->getSrcTy()->getIntegerBitWidth();
        Itv b = w < 63 ? Itv::range(0, (1LL << w) - 1) : Itv();
        if (o.lo < 0)
            o = Itv();
        r = r.meet(b).meet(o);
    } else if (auto* C = dyn_cast<CastInst>(V)) {
        if (isa<SExtInst>(C) || isa<BitCastInst>(C) || isa<PtrToIntInst>(C) || isa<IntToPtrInst>(C) || (isa<TruncInst>(C))) {
            Itv o = itv(C->getOperand(0), fr, s);
            if (isa<TruncInst>(C)) {
                unsigned w = C->getType()->getIntegerBitWidth();
                if (w == 1 || (o.lo >= 0 && w < 63 && o.hi < (1LL << (w - 1))))
                    r = r.meet(o);
            } else
                r = r.meet(o);
        }
    } else if (auto* BO = dyn_cast<BinaryOperator>(V)) {
        Itv a = itv(BO->getOperand(0), fr, s), b = itv(BO->getOperand(1), fr, s);
        if (BO->getOpcode() == Instruction::And) {
            if (a.isConst() && b.isConst())
                r = r.meet(Itv::c(a.lo & b.lo));
            else if (b.isConst() && b.lo >= 0)
                r = r.meet(Itv::range(0, b.lo));
        } else if (BO->getOpcode() == Instruction::Or || BO->getOpcode() == Instruction::Xor) {
            if (a.isConst() && b.isConst())
                r = r.meet(Itv::c(BO->getOpcode() == Instruction::Or ? (a.lo | b.lo) : (a.lo ^ b.lo)));
            else if (BO->getOpcode() == Instruction::Or && b.isConst() && b.lo != 0) {
                Itv n;
                n.ne.insert(0);
                r = r.meet(n);
            }
        } else if (BO->getOpcode() == Instruction::Add || BO->getOpcode() == Instruction::Sub) {
            bool sub = BO->getOpcode() == Instruction::Sub;
            auto sat = [](__int128 x, bool inf, int64_t infv) -> int64_t {
                if (inf)
                    return infv;
                if (x > (__int128)INT64_MAX)
                    return INT64_MAX;
                if (x < (__int128)INT64_MIN)
                    return INT64_MIN;
                return (int64_t)x;
            };
            int64_t blo = sub ? (b.hi == INT64_MAX ? INT64_MIN : -b.hi) : b.lo;
            int64_t bhi = sub ? (b.lo == INT64_MIN ? INT64_MAX : -b.lo) : b.hi;
            Itv o;
            o.lo = sat((__int128)a.lo + blo, a.lo == INT64_MIN || blo == INT64_MIN, INT64_MIN);
            o.hi = sat((__int128)a.hi + bhi, a.hi == INT64_MAX || bhi == INT64_MAX, INT64_MAX);
            r = r.meet(o);
        } else if (BO->getOpcode() == Instruction::Mul) {
            if (a.isConst() && b.isConst())
                r = r.meet(Itv::c(a.lo * b.lo));
            else if (a.lo >= 0 && b.lo >= 0 && a.hi < (1LL << 31) && b.hi < (1LL << 31))
                r = r.meet(Itv::range(a.lo * b.lo, a.hi * b.hi));
        } else if (BO->getOpcode() == Instruction::URem || BO->getOpcode() == Instruction::SRem) {
            if (b.isConst() && b.lo > 0)
                r = r.meet(Itv::range(BO->getOpcode() == Instruction::URem ? 0 : -(b.lo - 1), b.lo - 1));
        }
    } else if (auto* Sel = dyn_cast<SelectInst>(V)) {
        Itv a = itv(Sel->getTrueValue(), fr, s), b = itv(Sel->getFalseValue(), fr, s);
        Itv cnd = itv(Sel->getCondition(), fr, s);
        if (cnd.isConst())
            (cnd.lo ? b : a) = cnd.lo ? a : b;
        Itv o;
        o.lo = std::min(a.lo, b.lo);
        o.hi = std::max(a.hi, b.hi);
        r = r.meet(o);
    } else if (auto* IC = dyn_cast<ICmpInst>(V)) {
        auto t = refine(IC, true, fr, s, 1), f = refine(IC, false, fr, s, 1);
        if (t.empty() && !f.empty())
            r = Itv::c(0);
        else if (f.empty() && !t.empty())
            r = Itv::c(1);
    } else if (auto* L = dyn_cast<LoadInst>(V)) {
        (void)L;
    } else if (isa<GetElementPtrInst>(V)) {
        Itv n;
        n.ne.insert(0);
        r = r.meet(n);
    }
    string kv = key(V, fr);
    if (!kv.empty() && kv[0] == '#') {
        Itv m = r.meet(keyItv(kv, s));
        return m.empty() ? r : m;
    }
    auto it = s.f.find(kv);
    if (it != s.f.end()) {
        Itv m = r.meet(it->second);
        if (!m.empty())
            r = m;
    }
    return r;
}

bool Engine::keepFact(const string& k)
{
    if (k.empty() || k[0] == '#')
        return false;
    size_t p = k.find("*(");
    if (p == string::npos)
        return true;
    // fields mentioned in loads
    bool anyField = false, ok = false;
    // find last field name before each ')'
    size_t c = 0;
    while ((c = k.find(')', c)) != string::npos) {
        size_t b = k.find_last_of(".", c);
        if (b != string::npos && b > 0) {
            // walk back to struct start
            size_t b2 = k.rfind('.', b - 1);
            if (b2 != string::npos) {
                string f = k.substr(b2 + 1, c - b2 - 1);
                // struct names may contain "::" but not '.'
                if (P.fieldTests.count(f) || (f.find('(') == string::npos && f.find('~') == string::npos)) {
                    anyField = true;
                    auto it = P.fieldTests.find(f);
                    if (it != P.fieldTests.end() && it->second >= 2)
                        ok = true;
                }
            }
        }
        c++;
    }
    if (!anyField)
        return cl.keepMemFact(k);
    return ok && cl.keepMemFact(k);
}

void Engine::setFact(State& s, const string& k, const Itv& i)
{
    if (k.empty() || k[0] == '#')
        return;
    if (i.full()) {
        s.f.erase(k);
        return;
    }
    s.f[k] = i;
}

void Engine::killField(State& s, const string& field)
{
    string a = "." + field;
    for (auto it = s.f.begin(); it != s.f.end();) {
        size_t p = it->first.find(a);
        bool kill = false;
        while (p != string::npos) {
            size_t e = p + a.size();
            if (e >= it->first.size() || it->first[e] == ')' || it->first[e] == '.' || it->first[e] == '[') {
                kill = true;
                break;
            }
            p = it->first.find(a, p + 1);
        }
        if (kill)
            it = s.f.erase(it);
        else
            ++it;
    }
}

void Engine::killKey(State& s, const string& pk)
{
    if (pk.empty())
        return;
    for (const string& pat : { "*(" + pk + ")", "*(" + pk + ".", "*(" + pk + "[" }) {
        for (auto it = s.f.begin(); it != s.f.end();) {
            if (contains(it->first, pat))
                it = s.f.erase(it);
            else
                ++it;
        }
    }
}

static void killTok(State& s, const string& t)
{
    for (auto it = s.f.begin(); it != s.f.end();) {
        if (contains(it->first, t))
            it = s.f.erase(it);
        else
            ++it;
    }
}

vector<State> Engine::refine(const Value* cond, bool truth, Frame& fr, const State& s, int depth)
{
    vector<State> none;
    if (auto* C = dyn_cast<ConstantInt>(cond)) {
        if ((C->getZExtValue() != 0) == truth)
            return { s };
        return none;
    }
    if (auto* I = dyn_cast<Instruction>(cond)) {
        if (I->getOpcode() == Instruction::Xor) {
            if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)))
                if (C->isOne())
                    return refine(I->getOperand(0), !truth, fr, s, depth);
        }
        if (isa<TruncInst>(I) && !isa<Argument>(I->getOperand(0))) {
            Value* src = I->getOperand(0);
            if (auto* Z = dyn_cast<ZExtInst>(src))
                if (Z->getSrcTy()->isIntegerTy(1))
                    return refine(Z->getOperand(0), truth, fr, s, depth);
        }
        if (isa<FreezeInst>(I))
            return refine(I->getOperand(0), truth, fr, s, depth);
        const Value *A = nullptr, *B = nullptr;
        bool isAnd = false, isOr = false;
        if (auto* Sel = dyn_cast<SelectInst>(I)) {
            auto* FV = dyn_cast<ConstantInt>(Sel->getFalseValue());
            auto* TV = dyn_cast<ConstantInt>(Sel->getTrueValue());
            if (FV && FV->isZero()) {
                isAnd = true;
                A = Sel->getCondition();
                B = Sel->getTrueValue();
            } else if (TV && TV->isOne()) {
                isOr = true;
                A = Sel->getCondition();
                B = Sel->getFalseValue();
            } else if (Sel->getType()->isIntegerTy(1) && depth < 12) {
                vector<State> out;
                for (int arm = 0; arm < 2; arm++)
                    for (auto& x : refine(Sel->getCondition(), arm == 0, fr, s, depth + 1))
                        for (auto& y : refine(arm == 0 ? Sel->getTrueValue() : Sel->getFalseValue(), truth, fr, x, depth + 1))
                            out.push_back(y);
                return out;
            }
        } else if (I->getOpcode() == Instruction::And && I->getType()->isIntegerTy(1)) {
            isAnd = true;
            A = I->getOperand(0);
            B = I->getOperand(1);
        } else if (I->getOpcode() == Instruction::Or && I->getType()->isIntegerTy(1)) {
            isOr = true;
            A = I->getOperand(0);
            B = I->getOperand(1);
        }
        if ((isAnd || isOr) && depth < 12) {
            vector<State> out;
            bool both = (isAnd && truth) || (isOr && !truth);
            if (both) {
                for (auto& x : refine(A, truth, fr, s, depth + 1))
                    for (auto& y : refine(B, truth, fr, x, depth + 1))
                        out.push_back(y);
            } else {
                for (auto& x : refine(A, truth, fr, s, depth + 1))
                    out.push_back(x);
                for (auto& x : refine(A, !truth, fr, s, depth + 1))
                    for (auto& y : refine(B, truth, fr, x, depth + 1))
                        out.push_back(y);
            }
            return out;
        }
        if (auto* IC = dyn_cast<ICmpInst>(I)) {
            // exception type dispatch
            for (int side = 0; side < 2; side++) {
                auto* CB = dyn_cast<CallBase>(IC->getOperand(side));
                if (CB && CB->getCalledFunction() && CB->getCalledFunction()->getName().starts_with("llvm.eh.typeid.for")) {
                    string ty = CB->getArgOperand(0)->stripPointerCasts()->getName().str();
                    string exc = s.get("exc");
                    bool match = exc.empty() ? truth : (exc == ty);
                    bool want = IC->getPredicate() == CmpInst::ICMP_EQ ? truth : !truth;
                    if (exc.empty() || match == want)
                        return { s };
                    return none;
                }
            }
            auto pred = IC->getPredicate();
            if (!truth)
                pred = CmpInst::getInversePredicate(pred);
            const Value *a = IC->getOperand(0), *b = IC->getOperand(1);
            Itv ia = itv(a, fr, s), ib = itv(b, fr, s);
            // i1-valued operand compared with constant
            if (ib.isConst() && a->getType()->isIntegerTy() && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) {
                const Value* z = a;
                if (auto* Z = dyn_cast<ZExtInst>(a))
                    z = Z->getOperand(0);
                if (z->getType()->isIntegerTy(1) && (ib.lo == 0 || ib.lo == 1)) {
                    bool t = (pred == CmpInst::ICMP_EQ) ? ib.lo == 1 : ib.lo == 0;
                    return refine(z, t, fr, s, depth + 1);
                }
            }
            auto apply = [&](const Value* x, Itv cur, Itv cons, State& st) -> bool {
                Itv m = cur.meet(cons);
                if (m.empty())
                    return false;
                string k = key(x, fr);
                if (keepFact(k) && !m.full()) {
                    setFact(st, k, m);
                    // propagate through zext to underlying key is transparent already
                }
                // propagate (y + c) facts to y and vice versa for simple forms
                if (auto* BO = dyn_cast<BinaryOperator>(x)) {
                    if (auto* C = dyn_cast<ConstantInt>(BO->getOperand(1)); C && C->getBitWidth() <= 64) {
                        int64_t c = C->getSExtValue();
                        if (BO->getOpcode() == Instruction::Sub)
                            c = -c;
                        if ((BO->getOpcode() == Instruction::Sub || BO->getOpcode() == Instruction::Add) && m.lo > INT64_MIN / 2 && m.hi < INT64_MAX / 2) {
                            string k2 = key(BO->getOperand(0), fr);
                            Itv y = itv(BO->getOperand(0), fr, st).meet(Itv::range(m.lo - c, m.hi - c));
                            if (!y.empty() && keepFact(k2))
                                setFact(st, k2, y);
                        }
                    }
                }
                return true;
            };
            State st = s;
            auto constraint = [](CmpInst::Predicate p, const Itv& o, const Itv& self) -> Itv {
                Itv c;
                switch (p) {
                case CmpInst::ICMP_EQ:
                    c = o;
                    break;
                case CmpInst::ICMP_NE:
                    if (o.isConst())
                        c.ne.insert(o.lo);
                    break;
                case CmpInst::ICMP_SLT:
                    if (o.hi != INT64_MAX)
                        c.hi = o.hi - 1;
                    break;
                case CmpInst::ICMP_SLE:
                    c.hi = o.hi;
                    break;
                case CmpInst::ICMP_SGT:
                    if (o.lo != INT64_MIN)
                        c.lo = o.lo + 1;
                    break;
                case CmpInst::ICMP_SGE:
                    c.lo = o.lo;
                    break;
                case CmpInst::ICMP_ULT:
                    if (o.lo >= 0 && o.hi != INT64_MAX) {
                        c.lo = 0;
                        c.hi = o.hi - 1;
                    }
                    break;
                case CmpInst::ICMP_ULE:
                    if (o.lo >= 0 && o.hi != INT64_MAX) {
                        c.lo = 0;
                        c.hi = o.hi;
                    }
                    break;
                case CmpInst::ICMP_UGT:
                    if (self.lo >= 0 && o.lo >= 0)
                        c.lo = o.lo + 1;
                    else if (o.isConst() && o.lo == 0)
                        c.ne.insert(0);
                    break;
                case CmpInst::ICMP_UGE:
                    if (self.lo >= 0 && o.lo >= 0)
                        c.lo = o.lo;
                    break;
                default:
                    break;
                }
                return c;
            };
            if (!apply(a, ia, constraint(pred, ib, ia), st))
                return none;
            auto sp = CmpInst::getSwappedPredicate(pred);
            if (!apply(b, ib, constraint(sp, ia, ib), st))
                return none;
            // remember the relation itself when neither side is constant
            if (!ia.isConst() && !ib.isConst()) {
                string k = key(IC, fr);
                auto it = st.f.find(k);
                Itv want = Itv::c(truth ? 1 : 0);
                if (it != st.f.end() && it->second.meet(want).empty())
                    return none;
                if (keepFact(k))
                    setFact(st, k, want);
            }
            return { st };
        }
    }
    // opaque boolean
    string k = key(cond, fr);
    Itv cur = keyItv(k, s).meet(Itv::range(INT64_MIN, INT64_MAX));
    Itv want;
    if (truth)
        want.ne.insert(0);
    else
        want = Itv::c(0);
    Itv m = cur.meet(want);
    if (cond->getType()->isIntegerTy(1))
        m = m.meet(Itv::range(0, 1));
    if (m.empty())
        return none;
    State st = s;
    if (keepFact(k))
        setFact(st, k, m);
    return { st };
}

// ------------------------------------------------------------ execution
vector<Exit> Engine::run(Function* root, State init, vector<string> argKeys)
{
    Frame fr;
    fr.F = root;
    fr.argKeys = argKeys;
    while (fr.argKeys.size() < root->arg_size())
        fr.argKeys.push_back("arg" + std::to_string(fr.argKeys.size()));
    cl.enter(*this, fr, init);
    auto ex = analyse(fr, init);
    return ex;
}

void Engine::execCall(Frame& fr, CallBase& CB, State s, vector<Exit>& out)
{
    auto ts = P.targets(&CB);
    if (ts.empty())
        ts.push_back(nullptr);
    string mytok;
    if (!CB.getType()->isVoidTy()) {
        mytok = tok(&CB, fr.F);
        killTok(s, mytok);
    }
    for (auto* T : ts) {
        State st = s;
        vector<Exit> res;
        int h = cl.call(*this, fr, CB, T, st, res);
        if (h == 2)
            continue; // path killed
        if (h == 1) {
            if (res.empty()) {
                Exit e;
                e.s = st;
                res.push_back(e);
            }
            // kill through pointer args
            for (auto& e : res) {
                for (auto& a : CB.args())
                    if (a->getType()->isPointerTy() && e.s.get("nokill").empty())
                        killKey(e.s, key(a, fr));
                e.s.v.erase("nokill");
                if (!mytok.empty()) {
                    if (!e.ret.full())
                        setFact(e.s, key(&CB, fr), e.ret);
                }
                out.push_back(e);
            }
            continue;
        }
        if (T && T->getName() == "__cxa_throw") {
            Exit e;
            e.s = st;
            e.unwind = true;
            e.excType = CB.getArgOperand(1)->stripPointerCasts()->getName().str();
            e.s.v["exc"] = e.excType;
            out.push_back(e);
            continue;
        }
        if (T && T->getName() == "__cxa_rethrow") {
            Exit e;
            e.s = st;
            e.unwind = true;
            e.s.v["exc"] = st.get("excsaved");
            e.excType = e.s.v["exc"];
            out.push_back(e);
            continue;
        }
        if (T && T->getName() == "__cxa_begin_catch") {
            if (st.v.count("exc"))
                st.v["excsaved"] = st.v["exc"];
            st.v.erase("exc");
        }
        if (T && T->getName() == "__cxa_end_catch") {
            st.v.erase("excsaved");
        }
        bool desc = willDescend(T, fr);
        if (!desc && T && !T->isDeclaration())
            for (auto& ty : P.escapes(T)) {
                Exit e;
                e.s = st;
                for (auto& f : P.modSet(T))
                    killField(e.s, f);
                for (auto& a : CB.args())
                    if (a->getType()->isPointerTy())
                        killKey(e.s, key(a, fr));
                e.unwind = true;
                e.excType = ty;
                e.s.v["exc"] = ty;
                out.push_back(e);
            }
        if (!desc) {
            if (T && !T->isDeclaration() && P.repo(T)) {
                if (onStack.count(T))
                    incomplete.insert("recursive call to " + P.q(T) + " summarised (havoc)");
                for (auto& f : P.modSet(T))
                    killField(st, f);
            }
            if (!T || !T->isIntrinsic()) {
                for (auto& a : CB.args())
                    if (a->getType()->isPointerTy())
                        killKey(st, key(a, fr));
            } else if (auto* MI = dyn_cast<MemIntrinsic>(&CB)) {
                string pk = key(MI->getDest(), fr);
                killKey(st, pk);
                string f = P.ptrField(MI->getDest());
                if (!f.empty())
                    killField(st, f);
            }
            string op = P.atomicOp(&CB);
            if (!op.empty() && op != "load") {
                string f = P.ptrField(CB.getArgOperand(0));
                if (!f.empty())
                    killField(st, f);
            }
            if (CB.doesNotReturn())
                continue;
            Exit e;
            e.s = st;
            out.push_back(e);
            continue;
        }
        // descend
        Frame cf;
        cf.F = T;
        cf.parent = &fr;
        cf.site = &CB;
        cf.depth = fr.depth + 1;
        State in = st;
        for (unsigned i = 0; i < CB.arg_size(); i++) {
            string k = key(CB.getArgOperand(i), fr);
            cf.argKeys.push_back(k);
            if (k[0] != '#') {
                Itv ii = itv(CB.getArgOperand(i), fr, st);
                if (!ii.full() && !(ii.lo == INT64_MIN && ii.hi == INT64_MAX && ii.ne.size() == 1 && CB.getArgOperand(i)->getType()->isPointerTy() && isa<GetElementPtrInst>(CB.getArgOperand(i))))
                    in.f[k] = ii;
            }
        }
        while (cf.argKeys.size() < T->arg_size())
            cf.argKeys.push_back("argx");
        // frame rule
        const auto& rs = P.readSet(T);
        map<string, Itv> held;
        for (auto it = in.f.begin(); it != in.f.end();) {
            vector<string> tk;
            tokensIn(it->first, tk);
            bool pass = false;
            if (contains(it->first, "*(")) {
                // a memory fact matters only if the callee may load its innermost field
                bool fld = false;
                for (auto& f : rs)
                    if (contains(it->first, "." + f + ")")) {
                        fld = true;
                        break;
                    }
                pass = fld && tk.empty();
                if (!fld && tk.empty() && std::find(cf.argKeys.begin(), cf.argKeys.end(), it->first) == cf.argKeys.end()) {
                    held.insert(*it);
                    it = in.f.erase(it);
                    continue;
                }
            }
            if (!pass)
                for (auto& a : cf.argKeys) {
                    if (a.empty() || a[0] == '#')
                        continue;
                    if (contains(it->first, a) || contains(a, it->first)) {
                        pass = true;
                        break;
                    }
                }
            if (pass)
                ++it;
            else {
                held.insert(*it);
                it = in.f.erase(it);
            }
        }
        cl.enter(*this, cf, in);
        string mk = std::to_string((uintptr_t)T) + "(";
        for (auto& a : cf.argKeys)
            mk += a + ",";
        mk += ")" + in.ser();
        auto mi = memo.find(mk);
        vector<Exit> exits;
        if (mi != memo.end()) {
            memoHits++;
            exits = mi->second;
        } else {
            exits = analyse(cf, in);
            memo[mk] = exits;
        }
        const auto& ms = P.modSet(T);
        for (auto e : exits) {
            cl.leave(*this, cf, e);
            for (auto& kv : held) {
                // drop held facts on fields the callee may modify
                State tmp;
                tmp.f.insert(kv);
                bool drop = false;
                if (contains(kv.first, "*("))
                    for (auto& f : ms) {
                        if (contains(kv.first, "." + f)) {
                            killField(tmp, f);
                            if (tmp.f.empty()) {
                                drop = true;
                                break;
                            }
                        }
                    }
                if (!drop)
                    e.s.f.insert(kv);
            }
            if (!e.unwind && !mytok.empty()) {
                string k = key(&CB, fr);
                if (!e.ret.full())
                    setFact(e.s, k, e.ret);
                if (!e.retKey.empty() && e.retKey[0] != '#')
                    e.s.v["ret:" + mytok] = e.retKey;
            }
            out.push_back(e);
        }
    }
}

vector<Exit> Engine::analyse(Frame& fr, State init)
{
    invocations++;
    if (getenv("SA_HIST")) hist[P.q(fr.F)]++;
    visited.insert(fr.F);
    onStack.insert(fr.F);
    map<string, Exit> exitMap;
    auto& order = rpo[fr.F];
    if (order.empty()) {
        ReversePostOrderTraversal<const Function*> T(fr.F);
        int n = 0;
        for (auto* B : T)
            order[B] = n++;
    }
    struct Slot {
        State s;
        int rounds = 0;
        bool queued = false;
    };
    std::unordered_map<BasicBlock*, map<string, Slot>> at;
    set<std::tuple<int, BasicBlock*, string>> wl;
    auto addExit = [&](Exit e) {
        // drop facts about this frame's locals
        for (auto it = e.s.f.begin(); it != e.s.f.end();) {
            vector<string> tk;
            tokensIn(it->first, tk);
            bool drop = false;
            for (auto& t : tk) {
                auto* I = dyn_cast<Instruction>(tokVal()[t]);
                if (I && I->getFunction() == fr.F)
                    drop = true;
            }
            if (drop)
                it = e.s.f.erase(it);
            else
                ++it;
        }
        for (auto it = e.s.v.begin(); it != e.s.v.end();) {
            bool drop = false;
            if (startsWith(it->first, "ret:")) {
                auto* I = dyn_cast<Instruction>(tokVal()[it->first.substr(4)]);
                if (I && I->getFunction() == fr.F)
                    drop = true;
            }
            if (drop)
                it = e.s.v.erase(it);
            else
                ++it;
        }
        string k = joinKey(e.s) + (e.unwind ? "!U" + e.excType : "!R");
        if (e.ret.isConst())
            k += e.ret.str();
        else if (e.ret.ne.count(0) || e.ret.lo > 0 || e.ret.hi < 0)
            k += "nz";
        k += e.retKey;
        auto it = exitMap.find(k);
        if (it == exitMap.end())
            exitMap[k] = e;
        else {
            joinInto(it->second.s, e.s, 0);
            if (it->second.ret.str() != e.ret.str()) {
                Itv h;
                h.lo = std::min(it->second.ret.lo, e.ret.lo);
                h.hi = std::max(it->second.ret.hi, e.ret.hi);
                for (auto x : it->second.ret.ne)
                    if (!e.ret.contains(x))
                        h.ne.insert(x);
                for (auto x : e.ret.ne)
                    if (!it->second.ret.contains(x))
                        h.ne.insert(x);
                it->second.ret = h;
            }
        }
    };
    vector<PHINode*> boolPhis;
    for (auto& B : *fr.F)
        for (auto& PN : B.phis())
            if (PN.getType()->isIntegerTy(1))
                boolPhis.push_back(&PN);
    auto push = [&](BasicBlock* BB, State s) {
        prune(s, fr, BB);
        string k = joinKey(s);
        // keep distinct constant phi values apart for this block
        for (auto& I : *BB) {
            auto* PN = dyn_cast<PHINode>(&I);
            if (!PN)
                break;
            auto it = s.f.find(tok(PN, fr.F));
            if (it != s.f.end()) {
                if (it->second.isConst())
                    k += "p" + it->second.str();
                else if (it->second.ne.count(0))
                    k += "pnz";
                else
                    k += "p?";
            } else
                k += "p?";
        }
        // and the answers of composed conditions as long as they matter
        for (auto* PN : boolPhis)
            if (PN->getParent() != BB) {
                auto it = s.f.find(tok(PN, fr.F));
                if (it != s.f.end() && it->second.isConst() && getLive(fr.F).in.at(BB).count(PN))
                    k += "b" + std::to_string((size_t)PN) + it->second.str();
            }
        auto& m = at[BB];
        auto it = m.find(k);
        if (it == m.end()) {
            Slot& sl = m[k];
            sl.s = std::move(s);
            wl.insert({ order[BB], BB, k });
        } else if (joinInto(it->second.s, s, ++it->second.rounds))
            wl.insert({ order[BB], BB, k });
    };
    auto takeEdge = [&](BasicBlock* from, BasicBlock* to, State s, const Instruction& term) {
        cl.edge(*this, fr, term, to, s);
        vector<State> cur { s };
        // evaluate phis simultaneously using pre-state
        vector<PHINode*> phis;
        for (auto& I : *to)
            if (auto* PN = dyn_cast<PHINode>(&I))
                phis.push_back(PN);
            else
                break;
        if (phis.empty()) {
            push(to, s);
            return;
        }
        struct Alt {
            State s;
            vector<Itv> vals;
        };
        vector<Alt> alts { { s, {} } };
        for (auto* PN : phis) {
            Value* in = PN->getIncomingValueForBlock(from);
            vector<Alt> nx;
            for (auto& a : alts) {
                if (PN->getType()->isIntegerTy(1) && !isa<ConstantInt>(in)) {
                    for (int t = 0; t < 2; t++)
                        for (auto& r : refine(in, t, fr, a.s)) {
                            Alt b { r, a.vals };
                            b.vals.push_back(Itv::c(t));
                            nx.push_back(b);
                        }
                } else {
                    Alt b = a;
                    bool arith = false;
                    if (auto* BO = dyn_cast<BinaryOperator>(in))
                        arith = BO->getOpcode() != Instruction::And;
                    b.vals.push_back(arith ? Itv() : itv(in, fr, a.s));
                    nx.push_back(b);
                }
            }
            alts.swap(nx);
        }
        for (auto& a : alts) {
            for (unsigned i = 0; i < phis.size(); i++)
                killTok(a.s, tok(phis[i], fr.F));
            for (unsigned i = 0; i < phis.size(); i++)
                if (!a.vals[i].full())
                    setFact(a.s, tok(phis[i], fr.F), a.vals[i]);
            push(to, a.s);
        }
    };
    // facts about args' alloca etc. start as given
    push(&fr.F->getEntryBlock(), init);
    long n = 0;
    while (!wl.empty()) {
        auto [ord, BB, k0] = *wl.begin();
        wl.erase(wl.begin());
        State s0 = at[BB][k0].s;
        if (++n > maxStatesPerFn) {
            incomplete.insert("state budget exceeded in " + P.q(fr.F));
            break;
        }
        vector<State> cur { s0 };
        for (auto& I : *BB) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I))
                continue;
            vector<State> next;
            for (auto& s : cur) {
                steps++;
                if (!cl.inst(*this, fr, I, s))
                    continue;
                if (auto* CB = dyn_cast<CallBase>(&I)) {
                    vector<Exit> res;
                    execCall(fr, *CB, s, res);
                    std::unordered_set<string> dd;
                    for (auto& e : res) {
                        if (!dd.insert((e.unwind ? "U" : "R") + e.s.ser()).second)
                            continue;
                        if (e.unwind) {
                            if (auto* II = dyn_cast<InvokeInst>(CB)) {
                                auto* LP = II->getLandingPadInst();
                                bool stops = LP->isCleanup();
                                string exc = e.s.get("exc");
                                for (unsigned c = 0; c < LP->getNumClauses(); c++) {
                                    if (LP->isCatch(c)) {
                                        auto* cv = LP->getClause(c)->stripPointerCasts();
                                        if (isa<ConstantPointerNull>(cv) || exc.empty() || cv->getName() == exc)
                                            stops = true;
                                    }
                                }
                                if (stops)
                                    takeEdge(BB, II->getUnwindDest(), e.s, I);
                                else
                                    addExit(e);
                            } else
                                addExit(e);
                        } else if (auto* II = dyn_cast<InvokeInst>(CB)) {
                            takeEdge(BB, II->getNormalDest(), e.s, I);
                        } else
                            next.push_back(e.s);
                    }
                } else if (auto* SI = dyn_cast<StoreInst>(&I)) {
                    string pk = key(SI->getPointerOperand(), fr);
                    Itv v;
                    bool arith = false;
                    const Value* val = SI->getValueOperand();
                    if (auto* BO = dyn_cast<BinaryOperator>(val))
                        arith = BO->getOpcode() != Instruction::And;
                    if (!arith)
                        v = itv(val, fr, s);
                    string f = P.ptrField(SI->getPointerOperand());
                    killKey(s, pk);
                    if (!f.empty())
                        killField(s, f);
                    string lk = "*(" + pk + ")";
                    if (!v.full() && keepFact(lk))
                        setFact(s, lk, v);
                    next.push_back(std::move(s));
                } else if (auto* R = dyn_cast<ReturnInst>(&I)) {
                    if (R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy(1) && !isa<ConstantInt>(R->getReturnValue())) {
                        for (int t = 0; t < 2; t++)
                            for (auto& r : refine(R->getReturnValue(), t, fr, s)) {
                                Exit e;
                                e.s = r;
                                e.ret = Itv::c(t);
                                addExit(e);
                            }
                    } else {
                        Exit e;
                        e.s = s;
                        if (R->getReturnValue()) {
                            e.ret = itv(R->getReturnValue(), fr, s);
                            e.retKey = key(R->getReturnValue(), fr);
                        }
                        addExit(e);
                    }
                } else if (isa<ResumeInst>(I)) {
                    Exit e;
                    e.s = s;
                    e.unwind = true;
                    e.excType = s.get("exc");
                    addExit(e);
                } else if (auto* BI = dyn_cast<BranchInst>(&I)) {
                    if (BI->isUnconditional())
                        takeEdge(BB, BI->getSuccessor(0), s, I);
                    else {
                        for (auto& r : refine(BI->getCondition(), true, fr, s))
                            takeEdge(BB, BI->getSuccessor(0), r, I);
                        for (auto& r : refine(BI->getCondition(), false, fr, s))
                            takeEdge(BB, BI->getSuccessor(1), r, I);
                    }
                } else if (auto* SW = dyn_cast<SwitchInst>(&I)) {
                    Itv cv = itv(SW->getCondition(), fr, s);
                    string k = key(SW->getCondition(), fr);
                    Itv rest = cv;
                    for (auto& c : SW->cases()) {
                        int64_t x = c.getCaseValue()->getSExtValue();
                        Itv m = cv.meet(Itv::c(x));
                        if (!cv.contains(x) || m.empty())
                            continue;
                        State r = s;
                        if (keepFact(k))
                            setFact(r, k, m);
                        takeEdge(BB, c.getCaseSuccessor(), r, I);
                        Itv nx;
                        nx.ne.insert(x);
                        rest = rest.meet(nx);
                    }
                    if (!rest.empty()) {
                        State r = s;
                        if (keepFact(k))
                            setFact(r, k, rest);
                        takeEdge(BB, SW->getDefaultDest(), r, I);
                    }
                } else if (isa<UnreachableInst>(I)) {
                    // path ends
                } else {
                    if (!I.getType()->isVoidTy() && (isa<AllocaInst>(I) || isa<LandingPadInst>(I) || isa<ExtractValueInst>(I) || isa<SelectInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)))
                        killTok(s, tok(&I, fr.F));
                    next.push_back(std::move(s));
                }
            }
            if (next.size() > 1) {
                std::unordered_set<string> dd;
                vector<State> u;
                for (auto& x : next)
                    if (dd.insert(x.ser()).second)
                        u.push_back(std::move(x));
                next.swap(u);
            }
            cur.swap(next);
            if (cur.empty())
                break;
        }
    }
    onStack.erase(fr.F);
    vector<Exit> exits;
    for (auto& kv : exitMap)
        exits.push_back(kv.second);
    return exits;
}

string Engine::joinKey(const State& s)
{
    string r;
    for (int x : s.q)
        r += std::to_string(x) + ",";
    r += "|";
    for (auto& kv : s.v)
        r += kv.first + "=" + kv.second + ";";
    r += "|" + cl.mergeKey(s);
    return r;
}

// a := a join b ; returns whether a changed
bool Engine::joinInto(State& a, const State& b, int round)
{
    bool ch = false;
    for (auto it = a.f.begin(); it != a.f.end();) {
        auto jt = b.f.find(it->first);
        if (jt == b.f.end()) {
            it = a.f.erase(it);
            ch = true;
            continue;
        }
        Itv& x = it->second;
        const Itv& y = jt->second;
        Itv h;
        h.lo = std::min(x.lo, y.lo);
        h.hi = std::max(x.hi, y.hi);
        if (round > 3) { // widen
            if (h.lo < x.lo)
                h.lo = h.lo >= 0 ? 0 : INT64_MIN;
            if (h.hi > x.hi)
                h.hi = INT64_MAX;
        }
        for (auto v : x.ne)
            if (!y.contains(v))
                h.ne.insert(v);
        for (auto v : y.ne)
            if (!x.contains(v))
                h.ne.insert(v);
        // values excluded from both by range but inside the hull: remember 0 only
        if (h.lo < 0 && h.hi > 0 && !x.contains(0) && !y.contains(0))
            h.ne.insert(0);
        if (round <= 3 && h.lo >= -64 && h.hi <= 256 && h.hi - h.lo <= 64)
            for (int64_t v = h.lo + 1; v < h.hi; v++)
                if (!x.contains(v) && !y.contains(v))
                    h.ne.insert(v);
        h = h.meet(Itv());
        if (h.full()) {
            it = a.f.erase(it);
            ch = true;
            continue;
        }
        if (h.str() != x.str()) {
            x = h;
            ch = true;
        }
        ++it;
    }
    return ch;
}

bool Engine::reachesRelevant(const Function* F)
{
    auto it = relMemo.find(F);
    if (it != relMemo.end())
        return it->second;
    bool r = false;
    for (auto* G : P.reachable(F))
        if (cl.relevant(G)) {
            r = true;
            break;
        }
    if (r) { // again, not passing through barriers
        r = false;
        set<const Function*> seen { F };
        vector<const Function*> todo { F };
        while (!todo.empty() && !r) {
            auto* G = todo.back();
            todo.pop_back();
            if (cl.relevant(G))
                r = true;
            for (auto* T : P.calleesOf(G))
                if (!cl.barrier(T) && seen.insert(T).second)
                    todo.push_back(T);
        }
    }
    return relMemo[F] = r;
}

void Report::violation(const string& rule, const Instruction* I, const string& func, const string& detail, const string& msg, const string& trace)
{
    Finding f;
    f.rule = rule;
    f.func = func;
    f.detail = detail;
    f.msg = msg;
    f.trace = trace;
    if (I) {
        string l = Program::loc(I);
        size_t c = l.rfind(':');
        f.file = l.substr(0, c);
        f.line = atoi(l.c_str() + c + 1);
    }
    if (seen.insert(f.id()).second)
        findings.push_back(f);
}
} // namespace sa
