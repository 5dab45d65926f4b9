// Interprocedural, path-sensitive property-simulation engine over LLVM IR.
//
// The engine explores a program from a root function, descending into every
// called function whose body is available in the analysed module, and carries
// an abstract state: the client's typestate vector, client variables, and
// interval facts about symbolic expressions (used to discard infeasible
// branch combinations).  Functions are memoised on (function, argument
// expressions, entry state) -> set of exits, so a helper extracted from, or
// inlined into, another function is analysed identically.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"

namespace sa {

using llvm::BasicBlock;
using llvm::CallBase;
using llvm::Function;
using llvm::Instruction;
using llvm::Module;
using llvm::Value;
using std::string;

// ---------------------------------------------------------------- program
struct Program {
    Module* M = nullptr;
    std::map<string, std::vector<string>> fieldNames; // struct type name -> names by index
    std::unordered_map<const Function*, string> qname; // qualified name without args
    std::unordered_map<const Function*, string> dname; // full demangled
    std::map<string, std::vector<Function*>> byName; // qualified name -> overloads (defined or declared)
    std::map<string, std::map<uint64_t, std::vector<Function*>>> vslots; // type id -> slot -> impls
    std::unordered_map<const Function*, std::vector<Function*>> callees;
    std::unordered_map<const Function*, std::set<const Function*>> reach;
    std::unordered_map<const Function*, std::set<string>> modFields; // transitive stores by Struct.field
    std::map<string, int> fieldTests; // Struct.field -> number of branch conditions it feeds
    std::unordered_map<const Function*, bool> isRepo;

    void load(Module* m);
    const string& q(const Function* F) const;
    const string& d(const Function* F) const;
    string fieldName(llvm::StructType* ST, unsigned idx) const;
    string structName(llvm::StructType* ST) const;
    std::vector<Function*> targets(const CallBase* CB) const; // direct + virtual
    bool repo(const Function* F) const;
    std::vector<Function*> find(const string& q) const; // defined functions only
    Function* one(const string& q) const; // unique defined; throws if missing
    const std::set<const Function*>& reachable(const Function* F);
    const auto& calleesOf(const Function* F) { return callees[F]; }
    static string loc(const Instruction* I);
    static string fileOf(const Function* F);
    // the last Struct.field on a pointer's access path (through GEPs), "" if none
    string ptrField(const Value* P) const;
    std::vector<string> gepFields(const llvm::GEPOperator* G) const;
    // does call CB invoke std::atomic operation? returns op name store/load/fetch_add/... or ""
    string atomicOp(const CallBase* CB) const;
    const std::set<string>& modSet(const Function* F);
    const std::set<string>& readSet(const Function* F); // fields transitively loaded
    // exception types (typeinfo symbol names) that may escape F through explicit throws
    const std::set<string>& escapes(const Function* F);
    // may any exception type of `thrown` pass the landing pad of this call site?
    static bool caughtBy(const llvm::LandingPadInst* LP, const string& type);

private:
    std::unordered_map<const Function*, std::set<string>> readFields, esc;
    bool escDone = false;
};

extern Program P;

// ---------------------------------------------------------------- intervals
struct Itv {
    int64_t lo = INT64_MIN, hi = INT64_MAX;
    std::set<int64_t> ne;
    bool full() const { return lo == INT64_MIN && hi == INT64_MAX && ne.empty(); }
    bool isConst() const { return lo == hi; }
    bool empty() const;
    static Itv c(int64_t v) { Itv i; i.lo = i.hi = v; return i; }
    static Itv range(int64_t a, int64_t b) { Itv i; i.lo = a; i.hi = b; return i; }
    Itv meet(const Itv& o) const;
    string str() const;
    bool contains(int64_t v) const { return v >= lo && v <= hi && !ne.count(v); }
};

// ---------------------------------------------------------------- state
struct State {
    std::vector<int> q; // typestate
    std::map<string, string> v; // client variables
    std::map<string, Itv> f; // facts
    string ser() const;
    string get(const string& k) const
    {
        auto it = v.find(k);
        return it == v.end() ? "" : it->second;
    }
};

struct Exit {
    State s;
    bool unwind = false;
    Itv ret;
    string retKey;
    string excType;
    string ser() const;
};

struct Frame {
    Function* F;
    std::vector<string> argKeys;
    Frame* parent = nullptr;
    const CallBase* site = nullptr;
    int depth = 0;
    int fid = 0;
    std::unordered_map<const Value*, string> kc;
    string stack() const; // printable call chain
};

class Engine;

struct Client {
    virtual ~Client() { }
    // Called for each instruction before default processing. May modify the
    // state in place.  Return false to kill the path.
    virtual bool inst(Engine&, Frame&, Instruction&, State&) { return true; }
    // Called at a call with each possible callee. Return:
    //  0 default (descend if body available & repo), 1 handled: do not descend.
    // `out` (when handled) may be filled with alternative result states; when left
    // empty the (possibly modified) state continues as single result.
    virtual int call(Engine&, Frame&, CallBase&, Function* /*callee or null*/, State&, std::vector<Exit>& /*out*/) { return 0; }
    virtual void enter(Engine&, Frame&, State&) { }
    virtual void leave(Engine&, Frame&, Exit&) { }
    virtual bool keepMemFact(const string& key) { return true; }
    // branch edge observed (after refinement)
    virtual void edge(Engine&, Frame&, const Instruction&, const BasicBlock*, State&) { }
    virtual bool descend(Function*) { return true; }
    // Is F itself (not its callees) of any interest to the client?  Functions from
    // which nothing of interest is reachable are not entered; their effect is the
    // havoc of the fields they may modify, plus the exceptions they may throw.
    virtual bool relevant(const Function*) { return true; }
    // functions judged on their own: relevance does not flow through them
    virtual bool barrier(const Function*) { return false; }
    // extra discriminator: states are joined at merge points only when equal on
    // q, v and this.
    virtual string mergeKey(const State&) { return ""; }
};

class Engine {
public:
    explicit Engine(Client& c)
        : cl(c)
    {
    }
    std::vector<Exit> run(Function* root, State init, std::vector<string> argKeys = {});
    // symbolic key of a value in a frame
    string key(const Value* V, Frame& fr);
    Itv itv(const Value* V, Frame& fr, const State& s);
    Itv keyItv(const string& k, const State& s);
    std::vector<State> refine(const Value* cond, bool truth, Frame& fr, const State& s, int depth = 0);
    void setFact(State& s, const string& k, const Itv& i);
    void killField(State& s, const string& field);
    void killKey(State& s, const string& k);

    std::map<string, long> hist;
    long steps = 0, invocations = 0, memoHits = 0;
    std::set<const Function*> visited;
    std::set<string> incomplete;
    long maxStatesPerFn = 200000;
    int maxDepth = 40;

private:
    std::vector<Exit> analyse(Frame& fr, State init);
    void execCall(Frame& fr, CallBase& CB, State s, std::vector<Exit>& out);
    bool keepFact(const string& k);
public:
    bool willDescend(Function* T, Frame& fr) { return T && !T->isDeclaration() && P.repo(T) && !onStack.count(T) && fr.depth < maxDepth && cl.descend(T) && reachesRelevant(T); }

private:
    Client& cl;
    std::unordered_map<string, std::vector<Exit>> memo;
    std::unordered_map<const Function*, int> fids;
    std::set<const Function*> onStack;
    std::unordered_map<const Function*, std::unordered_map<const BasicBlock*, std::set<string>>> live;
    const std::set<string>& liveKeys(const BasicBlock* BB, Frame& fr);
    struct LiveInfo {
        std::unordered_map<const BasicBlock*, std::unordered_set<const Value*>> in;
    };
    std::unordered_map<const Function*, LiveInfo> liveInfo;
    std::unordered_map<const Function*, bool> relMemo;
    bool reachesRelevant(const Function* F);
    string joinKey(const State& s);
    static bool joinInto(State& a, const State& b, int round);
    std::unordered_map<const Function*, std::unordered_map<const BasicBlock*, int>> rpo;
    const LiveInfo& getLive(const Function* F);
    void prune(State& s, Frame& fr, const BasicBlock* BB);
};

// ---------------------------------------------------------------- results
struct Finding {
    string rule, func, file, detail, msg, trace;
    int line = 0;
    string id() const { return rule + "|" + func + "|" + detail; }
};

struct Report {
    string property;
    std::vector<Finding> findings;
    std::set<string> seen;
    std::vector<string> obligations; // human readable, each one discharged or not
    std::set<string> functions, sites;
    std::vector<string> errors; // anchors missing etc -> exit 2
    std::map<string, long> counts;
    std::vector<string> notes;
    std::set<string> obl;
    void oblige(const string& s)
    {
        if (obl.insert(s).second)
            obligations.push_back(s);
    }
    void violation(const string& rule, const Instruction* I, const string& func, const string& detail, const string& msg, const string& trace = "");
    void site(const string& s) { sites.insert(s); }
};

string demangle(const string& s);
bool startsWith(const string& s, const string& p);
bool endsWith(const string& s, const string& p);
bool contains(const string& s, const string& p);
} // namespace sa
