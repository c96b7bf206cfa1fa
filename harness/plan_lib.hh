// A whole plan database (constraint engine, temporal network, rules, NDDL) and
// a canonical description of its content that does not depend on keys, on
// addresses or on the order in which things were made.
#ifndef PLAN_LIB_HH
#define PLAN_LIB_HH
#include "mc.hh"
#include "Engine.hh"
#include "Module.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleTemporalNetwork.hh"
#ifdef PLAN_NDDL
#include "ModuleNddl.hh"
#endif
#ifdef PLAN_SOLVERS
#include "ModuleSolvers.hh"
#endif
#ifdef PLAN_RESOURCES
#include "ModuleResource.hh"
#endif
#include "ConstraintEngine.hh"
#include "Constraint.hh"
#include "ConstrainedVariable.hh"
#include "Domains.hh"
#include "PlanDatabase.hh"
#include "DbClient.hh"
#include "Object.hh"
#include "Timeline.hh"
#include "Token.hh"
#include "TokenVariable.hh"
#include "Schema.hh"
#include "RulesEngine.hh"
#include "RuleInstance.hh"
#include "Debug.hh"
#include "Error.hh"

namespace plan {
using namespace EUROPA;
typedef ConstrainedVariableId V;

inline void quiet() { Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings(); }

struct Eng : public EngineBase {
  bool up;
  Eng(bool temporal = true) : up(false) {
    quiet();
    if (!temporal) getConfig()->setProperty("TemporalNetwork.useTemporalPropagator", "N");
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    addModule((new ModuleRulesEngine())->getId());
    addModule((new ModuleTemporalNetwork())->getId());
#ifdef PLAN_SOLVERS
    addModule((new ModuleSolvers())->getId());
#endif
#ifdef PLAN_NDDL
    addModule((new ModuleNddl())->getId());
#endif
#ifdef PLAN_RESOURCES
    addModule((new ModuleResource())->getId());
#endif
    doStart(); up = true;
    quiet();
  }
  ~Eng() { if (up) doShutdown(); }
  ConstraintEngineId ce() { return dynamic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"))->getId(); }
  PlanDatabaseId db() { return dynamic_cast<PlanDatabase*>(getComponent("PlanDatabase"))->getId(); }
  DbClientId client() { return db()->getClient(); }
  RulesEngineId re() { return dynamic_cast<RulesEngine*>(getComponent("RulesEngine"))->getId(); }
  SchemaId schema() { return db()->getSchema(); }
  std::string load(const std::string& text) { return executeScript("nddl", text, false); }
};

inline std::string num(edouble v) {
  if (v == PLUS_INFINITY) return "+inf";
  if (v == MINUS_INFINITY) return "-inf";
  double d = cast_double(v); if (d == 0) d = 0;
  std::ostringstream o; o.precision(12); o << d; return o.str();
}

// Text of a domain by its values: entities and strings by name.
inline std::string domText(const Domain& d) {
  std::ostringstream o;
  if (d.isOpen()) o << "open";
  if (d.isEmpty()) return o.str() + "{}";
  if (d.isInterval()) { o << "[" << num(d.getLowerBound()) << ".." << num(d.getUpperBound()) << "]"; return o.str(); }
  std::list<edouble> vs; d.getValues(vs);
  std::set<std::string> s;
  for (auto v : vs) {
    if (d.isEntity()) { ObjectId ob = Entity::getTypedEntity<Object>(v); s.insert(ob->getName()); }
    else if (d.isSymbolic() || d.isString()) s.insert(LabelStr(v).toString());
    else s.insert(num(v));
  }
  o << "{"; for (auto& x : s) o << x << " "; o << "}";
  return o.str();
}

// Names for tokens: roots are named by the driver, sub-goals by their master
// and their own name (and rank among sub-goals of that name).
struct Names {
  std::map<long, std::string> byKey;
  static long k(const TokenId t) { return (long)cast_long(t->getKey()); }
  void root(const TokenId t, const std::string& n) { byKey[k(t)] = n; }
  void scan(const PlanDatabaseId db) {
    // masters are older than their sub-goals
    std::vector<TokenId> ts(db->getTokens().begin(), db->getTokens().end());
    std::sort(ts.begin(), ts.end(), [](const TokenId a, const TokenId b) { return k(a) < k(b); });
    std::map<std::string, int> rank; std::set<long> alive;
    for (auto t : ts) {
      alive.insert(k(t));
      if (t->master().isNoId()) { if (!byKey.count(k(t))) byKey[k(t)] = "tok:" + t->getName(); continue; }
      std::string n = byKey[k(t->master())] + "/" + t->getPredicateName() + ":" + t->getRelation();
      int r = rank[n]++;
      byKey[k(t)] = n + (r ? "#" + std::to_string(r) : "");
    }
  }
  std::string of(const TokenId t) { if (t.isNoId()) return "-"; auto i = byKey.find(k(t)); return i == byKey.end() ? "?" : i->second; }
};

inline std::string stripDigits(const std::string& s) { std::string o; for (char c : s) if (!isdigit((unsigned char)c)) o += c; return o; }

inline bool internalVar(const V v) { return v->isInternal(); }

inline std::string varName(const V v, Names& n) {
  EntityId p = v->parent();
  std::string nm = v->getName();
  // NDDL's temporaries are numbered
  if (nm.find("PSEUDO") != std::string::npos || nm.find("implicit_var") != std::string::npos || v->isInternal()) nm = stripDigits(nm);
  if (p.isNoId()) return "::" + nm;
  if (TokenId::convertable(p)) return n.of(TokenId(p)) + "." + nm;
  if (ObjectId::convertable(p)) return ObjectId(p)->getName() + "." + nm;
  if (RuleInstanceId::convertable(p)) return n.of(RuleInstanceId(p)->getToken()) + ":rule." + nm;
  return "local." + nm;
}

struct DumpOpts { bool derived, specified, base, constraints, objects; DumpOpts() : derived(true), specified(true), base(true), constraints(true), objects(true) {} };

inline std::string consText(const ConstraintId c, Names& n) {
  std::string s = c->getName() + "(";
  for (auto v : c->getScope()) s += varName(v, n) + ",";
  return s + ")";   // whether it was found redundant is the engine's own business
}

// Everything a client can see in the plan, one line per item, sorted.
template <class E> std::vector<std::string> dump(E& e, Names& n, DumpOpts o = DumpOpts()) {
  std::vector<std::string> L;
  PlanDatabaseId db = e.db();
  n.scan(db);
  for (auto t : db->getTokens()) {
    std::string me = n.of(t);
    std::string st = t->isActive() ? "ACTIVE" : t->isMerged() ? "MERGED" : t->isRejected() ? "REJECTED" : t->isInactive() ? "INACTIVE" : "INCOMPLETE";
    std::string line = "token " + me + " " + t->getPredicateName() + " " + st + " master=" + n.of(t->master()) + " active=" + n.of(t->getActiveToken()) + " merged={";
    std::set<std::string> m; for (auto x : t->getMergedTokens()) m.insert(n.of(x));
    for (auto& x : m) line += x + " ";
    line += "} slaves={"; m.clear(); for (auto x : t->slaves()) m.insert(n.of(x)); for (auto& x : m) line += x + " ";
    L.push_back(line + "}");
  }
  if (o.objects)
    for (auto ob : db->getObjects()) {
      std::string line = "object " + ob->getName() + " tokens={"; std::set<std::string> m;
      for (auto t : ob->tokens()) m.insert(n.of(t));
      for (auto& x : m) line += x + " ";
      line += "}";
      if (TimelineId::convertable(ob)) { line += " seq="; for (auto t : TimelineId(ob)->getTokenSequence()) line += n.of(t) + ">"; }
      L.push_back(line);
    }
  for (auto v : e.ce()->getVariables()) {
    if (v->parent().isNoId() && v->getName().find("PSEUDO") != std::string::npos) continue;   // a literal of the model's text
    if (v->parent().isNoId() && v->getName() == "NO_NAME") { std::set<ConstraintId> cs; v->constraints(cs); if (cs.empty()) continue; }   // distance of a rule that was undone
    std::string line = "var " + varName(v, n);
    if (o.derived && v->isActive()) line += " " + domText(v->lastDomain());
    if (o.base) line += " base=" + domText(v->baseDomain());
    if (o.specified && v->isSpecified()) line += " specified=" + (v->baseDomain().isEntity() ? std::string("obj") : (v->baseDomain().isSymbolic() || v->baseDomain().isString()) ? LabelStr(v->getSpecifiedValue()).toString() : num(v->getSpecifiedValue()));
    if (!v->isActive()) line += " off";
    L.push_back(line);
  }
  if (o.constraints) for (auto c : e.ce()->getConstraints()) L.push_back("cons " + consText(c, n));
  std::sort(L.begin(), L.end());
  return L;
}
inline std::string text(const std::vector<std::string>& l) { std::string s; for (auto& x : l) { s += x; s += "\n"; } return s; }
// What differs, for messages.
inline std::string diff(const std::vector<std::string>& a, const std::vector<std::string>& b, const char* an, const char* bn) {
  std::vector<std::string> x, y;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x));
  std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
  std::string s; int k = 0;
  for (auto& l : x) if (++k < 8) s += std::string(an) + ": " + l + "; ";
  k = 0; for (auto& l : y) if (++k < 8) s += std::string(bn) + ": " + l + "; ";
  return s;
}
inline std::string diffClass(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  std::vector<std::string> x; std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x));
  if (x.empty()) return "";
  return x[0].substr(0, x[0].find(' '));
}
}
#endif
