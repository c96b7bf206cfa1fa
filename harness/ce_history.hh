// Operation histories of the constraint engine (C04, C05): breadth-first over
// everything a client can do to a small network, every state compared with a
// fresh engine that is only given what is still in force.
#ifndef CE_HISTORY_HH
#define CE_HISTORY_HH
#include "constraint_lib.hh"
#include <unordered_set>
#include <unordered_map>
namespace hist {
using namespace lib;

struct VarDef { const char* name; D dom; std::vector<double> spec; D restricted, single; };
inline const std::vector<VarDef>& vars() {
  static std::vector<VarDef> v = {
    {"x", iv('I', 0, 3), {0, 2}, iv('I', 1, 2), iv('I', 2, 2)},
    {"y", iv('I', 0, 3), {1, 3}, iv('I', 1, 3), iv('I', 1, 1)},
    {"z", iv('I', -1, 4), {2, -1}, iv('I', 0, 1), iv('I', 2, 2)},
    {"b", iv('B', 0, 1), {1, 0}, iv('B', 0, 0), iv('B', 1, 1)},
    {"e", en('E', {0, 1, 3}), {3, 1}, en('E', {1, 3}), en('E', {1})},
    {"r", iv('R', 0, 2.5), {0.5, 2}, iv('R', 1, 1.5), iv('R', 2, 2)},
    {"f", en('E', {0, 1, 3}), {0, 3}, en('E', {0, 1}), en('E', {3})}};
  return v;
}
enum { X = 0, Y, Z, B, EE, RR, F };
struct Cons { const char* name; std::vector<int> scope; };
inline const std::vector<Cons>& pool() {
  static std::vector<Cons> v = {
    {"leq", {X, Y}}, {"lt", {Y, Z}}, {"eq", {X, Y}}, {"neq", {EE, F}}, {"addEq", {X, Y, Z}}, {"condEq", {B, X, Y}},
    {"testLeq", {B, X, Y}}, {"eq", {Y, EE}}, {"eq", {F, Z}}, {"lt", {Z, X}}, {"eqMaximum", {Z, X, Y}}, {"testEq", {B, Y, Z}},
    {"leq", {RR, X}}, {"addEq", {X, RR, Z}}, {"allDiff", {X, Y, Z}}, {"eq", {X, Y, Z}}, {"or", {B, X}}, {"testNeq", {B, X, EE}},
    {"eqSum", {Z, X, Y}}, {"absVal", {X, Z}}, {"testLessThan", {B, Y, X}}, {"subsetOf", {Y, X}}, {"condAllDiff", {B, X, Z}}, {"eqMinimum", {X, Y, Z}},
    {"multEq", {X, Y, Z}}, {"withinBounds", {X, Z, Y}}, {"countZeroes", {X, Y, Z}}, {"maxf", {Z, X, Y}}};
  return v;
}

inline const D& narrowed(int v, int which) { return which ? vars()[v].single : vars()[v].restricted; }
// Minus zero is zero.
inline std::string canon(std::string s) {
  for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i] == '-' && s[i + 1] == '0' && (i + 2 == s.size() || (s[i + 2] != '.' && !isdigit(s[i + 2])))) s.erase(i, 1);
  return s;
}
// Operations: letter, argument, argument
struct Op { char k; int a, b; };
inline std::string text(const std::vector<Op>& h) {
  std::ostringstream o;
  for (auto& p : h) o << p.k << p.a << (p.b ? std::string(".") + std::to_string(p.b) : "") << " ";
  return o.str();
}
inline std::vector<Op> parse(const std::string& s) {
  std::vector<Op> r; std::istringstream i(s); std::string t;
  while (i >> t) { Op p; p.k = t[0]; p.a = atoi(t.c_str() + 1); size_t d = t.find('.'); p.b = d == std::string::npos ? 0 : atoi(t.c_str() + d + 1); r.push_back(p); }
  return r;
}
inline std::string pretty(const std::vector<int>& menu, const std::vector<Op>& h) {
  std::ostringstream o;
  auto cn = [&](int i) { std::string s = pool()[menu[i]].name; s += "("; for (int a : pool()[menu[i]].scope) s += std::string(s.back() == '(' ? "" : ",") + vars()[a].name; return s + ")"; };
  for (auto& p : h) switch (p.k) {
    case 'p': o << "post " << cn(p.a) << "; "; break;
    case 'r': o << "retract " << cn(p.a) << "; "; break;
    case 's': o << "specify " << vars()[p.a].name << "=" << vars()[p.a].spec[p.b] << "; "; break;
    case 'u': o << "reset " << vars()[p.a].name << "; "; break;
    case 'b': o << "restrictBase " << vars()[p.a].name << " to " << str(narrowed(p.a, p.b)) << "; "; break;
    case 'd': o << "deactivate " << cn(p.a) << "; "; break;
    case 'a': o << "reactivate " << cn(p.a) << "; "; break;
    case 'q': o << "derivedDomain " << vars()[p.a].name << "; "; break;
    case 'P': o << "propagate; "; break;
  }
  return o.str();
}

struct HEngine {
  Net* net; std::vector<int> menu, used;
  std::vector<ConstraintId> posted; std::vector<ConstraintSet> parts; std::vector<char> deact;   // per menu entry
  std::vector<int> order;                                       // posting order of those in force
  std::vector<int> spec; std::vector<char> based; std::map<int, int> ix;
  HEngine(const CESchemaId ces, const std::vector<int>& m, bool allow) : menu(m) {
    net = new Net(ces);
    net->ce->setAllowViolations(allow);
    std::set<int> u; for (int i : menu) for (int a : pool()[i].scope) u.insert(a);
    used.assign(u.begin(), u.end());
    for (int v : used) { ix[v] = net->vars.size(); net->var(vars()[v].dom); }
    posted.assign(menu.size(), ConstraintId::noId()); deact.assign(menu.size(), 0); parts.resize(menu.size());
    spec.assign(vars().size(), -1); based.assign(vars().size(), 0);
  }
  ~HEngine() {
    for (auto& c : posted) if (!c.isNoId()) delete static_cast<Constraint*>(c);
    delete net;
  }
  ConstrainedVariableId var(int v) { return net->vars[ix[v]]; }
  bool enabled(const Op& p) {
    switch (p.k) {
      case 'p': return posted[p.a].isNoId();
      // deactivating is documented not to relax anything, so no relaxation while a constraint is out
      case 'r': return !posted[p.a].isNoId() && !anyDeactivated();
      case 's': return spec[p.a] < 0 && !var(p.a)->isSpecified() && (!based[p.a] || contains(narrowed(p.a, based[p.a] - 1), vars()[p.a].spec[p.b]));
      case 'u': return spec[p.a] >= 0 && !anyDeactivated();
      // a client may only narrow to something the base domain still meets; a value already chosen must stay inside
      // (and the variable must not be the empty one)
      case 'b': return !based[p.a] && !var(p.a)->lastDomain().isEmpty() && (spec[p.a] < 0 || contains(narrowed(p.a, p.b), vars()[p.a].spec[spec[p.a]]));
      case 'd': return !posted[p.a].isNoId() && !deact[p.a] && !violated(p.a);
      case 'a': return !posted[p.a].isNoId() && deact[p.a];
      case 'q': case 'P': return true;
    }
    return false;
  }
  // some constraints work through constraints of their own
  bool violated(int i) { for (auto& c : parts[i]) if (net->ce->isViolated(c)) return true; return false; }
  void post(int i) {
    std::vector<ConstrainedVariableId> s; for (int a : pool()[menu[i]].scope) s.push_back(var(a));
    ConstraintSet before = net->ce->getConstraints();
    posted[i] = net->ce->createConstraint(pool()[menu[i]].name, s);
    parts[i].clear(); for (auto& c : net->ce->getConstraints()) if (!before.count(c)) parts[i].insert(c);
 deact[i] = 0; order.push_back(i);
  }
  void restrictBase(int v, int w) { Domain* d = Net::make(narrowed(v, w)); if (d->isOpen()) d->close(); var(v)->restrictBaseDomain(*d); delete d; based[v] = w + 1; }
  void apply(const Op& p) {
    switch (p.k) {
      case 'p': post(p.a); break;
      case 'r': delete static_cast<Constraint*>(posted[p.a]); posted[p.a] = ConstraintId::noId(); deact[p.a] = 0; order.erase(std::find(order.begin(), order.end(), p.a)); break;
      case 's': spec[p.a] = p.b; var(p.a)->specify(edouble(vars()[p.a].spec[p.b])); break;
      case 'u': spec[p.a] = -1; var(p.a)->reset(); break;
      case 'b': restrictBase(p.a, p.b); break;
      case 'd': posted[p.a]->deactivate(); deact[p.a] = 1; break;
      case 'a': posted[p.a]->undoDeactivation(); deact[p.a] = 0; break;
      case 'q': var(p.a)->derivedDomain(); break;
      case 'P': net->ce->propagate(); break;
    }
  }
  bool anyDeactivated() { for (char d : deact) if (d) return true; return false; }
  // Everything that can influence later behaviour.
#ifdef MC_PUBLIC_ONLY
  std::string key() { static int n = 0; return std::to_string(getpid()) + "." + std::to_string(++n); }  // no merging
#else
  std::string key() {
    std::ostringstream o; ConstraintEngine* ce = net->ce;
    DefaultPropagator* p = (DefaultPropagator*)(Propagator*)ce->getPropagatorByName("Default");
    for (int v : used) { ConstrainedVariableId q = var(v); o << q->lastDomain().toString() << q->baseDomain().toString() << q->isSpecified() << spec[v] << "." << (int)based[v] << (ce->m_relaxed.count(q) ? "r" : "") << (ce->getViolationMgr().isEmpty(q) ? "e" : "") << (q->lastRelaxed() >= ce->m_cycleCount ? "L" : "") << ";"; }
    for (int i : order) o << i << "." << posted[i]->deactivationCount() << posted[i]->isRedundant() << posted[i]->m_isRetired << (p->m_agenda.count(posted[i]) ? "a" : "") << [&] { std::string v; for (auto& c : parts[i]) v += net->ce->isViolated(c) ? "v" : c->isActive() ? "." : "i"; return v; }() << (ce->m_redundantConstraints.count(posted[i]) ? "R" : "") << (int)deact[i] << ";";
    o << ce->m_dirty;
    return o.str();
  }
#endif
  std::string doms() { std::string s; for (int v : used) s += std::string(vars()[v].name) + "=" + canon(var(v)->lastDomain().toString()) + " "; return s; }
};

// A fresh engine given only what is in force (without the constraints in skip).
struct Verdict { bool ok; std::string doms; };
inline Verdict fresh(const CESchemaId ces, HEngine& e, const std::set<int>& skip) {
  static std::unordered_map<std::string, Verdict> memo;
  std::ostringstream k; for (int i : e.menu) k << i << ","; k << "|"; for (int v : e.used) k << e.spec[v] << (int)e.based[v] << ","; k << "|"; for (int i : e.order) if (!skip.count(i)) k << i << ",";
  auto it = memo.find(k.str()); if (it != memo.end()) return it->second;
  HEngine* f = new HEngine(ces, e.menu, false);
  for (int v : e.used) if (e.based[v]) f->restrictBase(v, e.based[v] - 1);
  for (int v : e.used) if (e.spec[v] >= 0 && !f->var(v)->isSpecified()) f->var(v)->specify(edouble(vars()[v].spec[e.spec[v]]));
  for (int i : e.order) if (!skip.count(i)) f->post(i);
  Verdict r; r.ok = f->net->ce->propagate(); r.doms = f->doms();
  delete f;
  if (memo.size() > 400000) memo.clear();
  memo[k.str()] = r; return r;
}

inline std::vector<Op> ops(const std::vector<int>& menu, bool deactivation, bool query, bool single) {
  std::vector<Op> r; std::set<int> u; for (int i : menu) for (int a : pool()[i].scope) u.insert(a);
  r.push_back({'P', 0, 0});
  for (size_t i = 0; i < menu.size(); ++i) { r.push_back({'p', (int)i, 0}); r.push_back({'r', (int)i, 0}); if (deactivation) { r.push_back({'d', (int)i, 0}); r.push_back({'a', (int)i, 0}); } }
  for (int v : u) { r.push_back({'s', v, 0}); r.push_back({'s', v, 1}); r.push_back({'u', v, 0}); r.push_back({'b', v, 0}); if (single) r.push_back({'b', v, 1}); if (query) r.push_back({'q', v, 0}); }
  return r;
}
inline std::string sigOf(const std::vector<int>& menu) { std::string s; for (int i : menu) s += (s.empty() ? "" : "+") + std::string(pool()[i].name); return s; }
}
#endif
