#pragma once
#include "engine.h"
namespace sa {
struct Rule {
    string property, name;
    std::function<void(Report&, bool)> fn;
};
std::vector<Rule>& rules();
struct RegRule {
    RegRule(const string& p, const string& n, std::function<void(Report&, bool)> f) { rules().push_back({ p, n, f }); }
};
// helpers shared by rules (rules_util.cpp)
std::vector<Function*> repoFunctions(); // defined functions of the repository
bool hasCallTo(const Function* F, const std::set<string>& names); // direct call by qualified name
std::vector<Function*> rootsReaching(const std::function<bool(const Function*)>& rel); // callerless repo functions that reach
std::vector<CallBase*> callsTo(const string& qname); // all call sites in repo functions
string cls(const string& qname); // "mabain::Dict::Add" -> "mabain::Dict"
string shortq(const Function* F);
int64_t constArg(const CallBase* CB, unsigned i, int64_t dflt = INT64_MIN);
// does the value (transitively through casts/selects/phis/arith) come from a load of Struct.field / call of name
bool flowsFrom(const Value* V, const std::function<bool(const Value*)>& pred, int depth = 12);
void noteRun(Report& R, Engine& E, const string& root);
const std::set<const Function*>& callersOf(const Function* F);
void dbgRun(Function* F, Engine& E, size_t n);
string valDesc(const Value* V);
}
namespace sa {
bool constParam(const Function* F, unsigned i); // i-th argument is declared as pointer/reference to const
int64_t globalConst(const string& qname); // value of a constant global
int64_t errv(const string& name); // value of MBError::<name>, from debug info
int64_t enumv(const string& name); // any enumerator by name
}
