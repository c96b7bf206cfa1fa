// Finite problems for the solver, what they mean, and engines that hold them.
//
// CSP: three variables and a few constraints; meaning by enumeration.
// Plan: goals over a model with conditional rules and timelines; meaning by a
// search over finite sets of ground token instances, written from the model's
// text and independent of the engine.
#ifndef SOLVER_LIB_HH
#define SOLVER_LIB_HH
#ifndef PLAN_NDDL
#define PLAN_NDDL
#endif
#define PLAN_SOLVERS
#include "plan_lib.hh"
#include "Solver.hh"
#include "SolverDecisionPoint.hh"
#include "tinyxml.h"
#include <functional>
namespace sol {
using namespace plan;
using SOLVERS::Solver;

// ---------------------------------------------------------------- configurations
struct Cfg { const char* order; const char* oc; const char* val; const char* th; };
static const Cfg CFGS[] = {   // attributes may follow a component's name
  {"TOU", "StandardOpenConditionHandler", "StandardVariableHandler", "StandardThreatHandler"},
  {"UOT", "BasicOpenConditionHandler", "Max", "StandardThreatHandler"},
  {"OUT", "BasicOpenConditionHandler", "Min", "HSTSThreatDecisionPoint\" order=\"late"},
  {"OTU", "StandardOpenConditionHandler", "Max", "StandardThreatHandler"},
  {"UTO", "SupportedOpenConditionHandler", "Min", "HSTSThreatDecisionPoint\" order=\"early"},
  {"TUO", "HSTSOpenConditionDecisionPoint\" choice=\"activateFirst\" order=\"far", "StandardVariableHandler", "StandardThreatHandler"},
  {"TOU", "HSTSOpenConditionDecisionPoint\" choice=\"mergeFirst\" order=\"near", "ValEnum", "HSTSThreatDecisionPoint\" order=\"ascendingKey"}};
static const int NCFG = 7;
inline std::string solverXml(const Cfg& c) {
  std::string s = "<Solver name=\"S\">";
  for (const char* p = c.order; *p; ++p) {
    if (*p == 'T') s += std::string("<ThreatManager><FlawHandler component=\"") + c.th + "\"/></ThreatManager>";
    if (*p == 'O') s += std::string("<OpenConditionManager><FlawHandler component=\"") + c.oc + "\"/></OpenConditionManager>";
    if (*p == 'U') s += std::string("<UnboundVariableManager><FlawFilter var-match=\"start\"/><FlawFilter var-match=\"end\"/><FlawFilter var-match=\"duration\"/><FlawFilter component=\"InfiniteDynamicFilter\"/>") +
      (strcmp(c.val, "ValEnum") ? std::string("<FlawHandler component=\"") + c.val + "\"/>" : "<FlawHandler var-match=\"object\" component=\"Max\"/><FlawHandler component=\"ValEnum\"><Value val=\"2\"/><Value val=\"1\"/><Value val=\"3\"/><Value val=\"0\"/></FlawHandler>") + "</UnboundVariableManager>";
  }
  return s + "</Solver>";
}
struct Sol { TiXmlDocument doc; Solver* s; Sol(Eng& e, const std::string& xml) { doc.Parse(xml.c_str()); s = new Solver(e.db(), *doc.RootElement()); } ~Sol() { delete s; } Solver* operator->() { return s; } };

// ---------------------------------------------------------------- CSP problems
struct Con { const char* name; std::vector<int> scope; std::function<bool(const std::vector<int>&)> holds; };
inline const std::vector<Con>& cons() {
  typedef const std::vector<int>& A;
  static std::vector<Con> c = {
    {"eq", {0, 1}, [](A v) { return v[0] == v[1]; }}, {"neq", {0, 1}, [](A v) { return v[0] != v[1]; }},
    {"lt", {0, 1}, [](A v) { return v[0] < v[1]; }}, {"leq", {1, 2}, [](A v) { return v[1] <= v[2]; }},
    {"addEq", {0, 1, 2}, [](A v) { return v[0] + v[1] == v[2]; }}, {"allDiff", {0, 1, 2}, [](A v) { return v[0] != v[1] && v[1] != v[2] && v[0] != v[2]; }},
    {"lt", {2, 0}, [](A v) { return v[2] < v[0]; }}, {"neq", {1, 2}, [](A v) { return v[1] != v[2]; }},
    {"mulEq", {0, 2, 1}, [](A v) { return v[0] * v[2] == v[1]; }}, {"neq", {0, 2}, [](A v) { return v[0] != v[2]; }},
    {"leq", {0, 2}, [](A v) { return v[0] <= v[2]; }}, {"eq", {1, 2}, [](A v) { return v[1] == v[2]; }}};
  return c;
}
struct Csp {
  std::vector<int> dom, con;    // pattern of each variable; constraints
  static std::vector<int> values(int d) { switch (d) { case 0: return {0, 1}; case 1: return {0, 1, 2}; case 2: return {1, 2, 3}; default: return {0, 2}; } }
  // products are defined on intervals only
  static bool usable(int a, int b, int d, const std::vector<int>& k) { for (int x : k) if (!strcmp(cons()[x].name, "mulEq") && (a == 3 || b == 3 || d == 3)) return false; return true; }
  std::string text() const { std::string s; for (int i = 0; i < 3; ++i) { s += std::string(1, "xyz"[i]) + " in {"; for (int v : values(dom[i])) s += std::to_string(v) + " "; s += "} "; } for (int k : con) { s += std::string(cons()[k].name) + "("; for (int v : cons()[k].scope) s += std::string(1, "xyz"[v]) + " "; s += ") "; } return s; }
  bool ok(const std::vector<int>& v) const { for (int k : con) if (!cons()[k].holds(v)) return false; return true; }
  int solutions() const { int n = 0; std::vector<int> v(3); for (int a : values(dom[0])) for (int b : values(dom[1])) for (int c : values(dom[2])) { v[0] = a; v[1] = b; v[2] = c; n += ok(v); } return n; }
  void build(Eng& e, std::vector<V>& vs) const {
    for (int i = 0; i < 3; ++i) {
      if (dom[i] == 3) { EnumeratedDomain d(IntDT::instance(), std::list<edouble>(1, 0)); std::list<edouble> l; l.push_back(0); l.push_back(2); vs.push_back(e.client()->createVariable("int", EnumeratedDomain(IntDT::instance(), l), std::string(1, "xyz"[i]).c_str(), false, true)); }
      else { std::vector<int> v = values(dom[i]); vs.push_back(e.client()->createVariable("int", IntervalIntDomain(v.front(), v.back()), std::string(1, "xyz"[i]).c_str(), false, true)); }
    }
    for (int k : con) { std::vector<V> s; for (int x : cons()[k].scope) s.push_back(vs[x]); e.client()->createConstraint(cons()[k].name, s, ""); }
  }
};

// ---------------------------------------------------------------- plan problems
enum { A, B, C, X, Y, Z, NP };
static const char* PRED[] = {"R.A", "R.B", "R.C", "TL.X", "TL.Y", "TL.Z"};
static const char* PAR[] = {"p", "q", "s", "p", "p", ""};
static const int DUR[] = {2, 2, 3, 2, 2, 1};
static const int NR = 6;   // optional rules
struct Inst { int pred, obj, par, st; bool operator<(const Inst& o) const { return std::tie(pred, obj, par, st) < std::tie(o.pred, o.obj, o.par, o.st); } bool operator==(const Inst& o) const { return !(*this < o) && !(o < *this); } int en() const { return st + DUR[pred]; } bool tl() const { return pred >= X; } };
inline std::string instText(const Inst& i) { std::ostringstream o; o << PRED[i.pred] << "(" << (i.tl() ? "t" : "r") << i.obj << "," << i.par << ")@" << i.st; return o.str(); }
struct Req { int pred; std::function<bool(const Inst& me, const Inst& o)> rel; std::string label; };
struct GoalK { int pred, par, st; bool rej; };
static const GoalK GOALS[] = {
  {A, -1, -1, 0}, {A, 1, -1, 0}, {B, -1, -1, 0}, {B, 0, 3, 0}, {C, 1, -1, 0}, {C, -1, 1, 0}, {X, -1, -1, 0}, {X, 1, 0, 0}, {X, 0, 2, 0}, {Y, -1, -1, 0}, {Y, 0, -1, 0}, {Z, -1, 4, 0}, {Z, -1, -1, 0},
  {X, 0, -1, 1}, {A, 0, -1, 1}, {Y, 1, 2, 1}};
static const int NG = 16;
struct Prob {
  int rules, tls, H; std::vector<int> goals;
  // Extra demands on the goals' parameters that only search can settle:
  // 1: the last goal's is 1, 2: the last goal's is 0, 3: the first and last goals' differ
  int link;
  int pre;   // that many goals are active before the search starts, so none of these is merged
  Prob() : rules(0), tls(1), H(5), link(0), pre(0) {}
  bool canPre(int k) const { if ((size_t)k > goals.size()) return false; for (int i = 0; i < k; ++i) if (GOALS[goals[i]].rej) return false; return true; }
  bool linkable(size_t i) const { return i < goals.size() && *PAR[GOALS[goals[i]].pred] && !GOALS[goals[i]].rej; }
  bool canLink(int l) const { return l == 0 || (linkable(goals.size() - 1) && (l < 3 || (goals.size() > 1 && linkable(0)))); }
  std::vector<std::map<int, int>> forced() const {
    int n = (int)goals.size() - 1; typedef std::map<int, int> M;
    switch (link) { case 1: return {M{{n, 1}}}; case 2: return {M{{n, 0}}}; case 3: return {M{{0, 0}, {n, 1}}, M{{0, 1}, {n, 0}}}; default: return {M()}; }
  }
  static Prob parse(const std::string& s) { Prob p; std::istringstream i(s); std::string t; i >> p.rules >> p.tls >> p.H; int g; while (i >> g) { if (g < -10) p.pre = -10 - g; else if (g < 0) p.link = -g; else p.goals.push_back(g); } return p; }
  std::string code() const { std::ostringstream o; o << rules << " " << tls << " " << H; for (int g : goals) o << " " << g; if (link) o << " " << -link; if (pre) o << " " << -10 - pre; return o.str(); }
  std::string nddl() const {
    std::string h = std::to_string(H);
    auto P = [&](const char* n, const char* par, int d) { return std::string("predicate ") + n + " { " + (*par ? std::string("int ") + par + "; " + par + " = [0 1]; " : std::string()) + "eq(duration, " + std::to_string(d) + "); leq(0, start); leq(end, " + h + "); } "; };
    std::string s = "class R { int id; R(int a) { id = a; } " + P("A", "p", 2) + P("B", "q", 2) + P("C", "s", 3) + "}\nclass TL extends Timeline { int id; TL(int a) { id = a; } " + P("X", "p", 2) + P("Y", "p", 2) + P("Z", "", 1) + "}\n";
    if (rules & 1) s += "R::A { meets(object.B b); eq(b.q, p); }\n";
    if (rules & 2) s += "R::B { any(R.C c); neq(c.s, q); }\n";
    if (rules & 4) s += "R::C { if (s == 1) { contains(TL.X x); } else { any(TL.Y y); neq(y.p, s); } }\n";
    if (rules & 8) s += "TL::Y { met_by(object.X x); leq(x.p, p); }\n";
    if (rules & 16) s += "TL::X { if (p == 1) { before(object.Z z); } }\n";
    if (rules & 32) s += "R::A { int k = [0 1]; neq(k, p); starts(TL.X x); eq(x.p, k); }\n";
    s += "R r1 = new R(1);\n"; for (int i = 1; i <= tls; ++i) s += "TL t" + std::to_string(i) + " = new TL(" + std::to_string(i) + ");\n";
    return s + "close();\n";
  }
  std::vector<Req> reqs(const Inst& m) const {
    std::vector<Req> r;
    if (m.pred == A && (rules & 1)) r.push_back({B, [](const Inst& m, const Inst& o) { return o.obj == m.obj && m.en() == o.st && o.par == m.par; }, "meets B"});
    if (m.pred == B && (rules & 2)) r.push_back({C, [](const Inst& m, const Inst& o) { return o.par != m.par; }, "any C"});
    if (m.pred == C && (rules & 4)) {
      if (m.par == 1) r.push_back({X, [](const Inst& m, const Inst& o) { return m.st <= o.st && o.en() <= m.en(); }, "contains X"});
      else r.push_back({Y, [](const Inst& m, const Inst& o) { return o.par != m.par; }, "any Y"});
    }
    if (m.pred == Y && (rules & 8)) r.push_back({X, [](const Inst& m, const Inst& o) { return o.obj == m.obj && o.en() == m.st && o.par <= m.par; }, "met_by X"});
    if (m.pred == X && (rules & 16) && m.par == 1) r.push_back({Z, [](const Inst& m, const Inst& o) { return o.obj == m.obj && m.en() <= o.st; }, "before Z"});
    if (m.pred == A && (rules & 32)) r.push_back({X, [](const Inst& m, const Inst& o) { return o.st == m.st && o.par != m.par; }, "starts X"});
    return r;
  }
  static bool clash(const Inst& a, const Inst& b) { return a.tl() && b.tl() && a.obj == b.obj && !(a == b) && a.st < b.en() && b.st < a.en(); }
  // Is there a finite set of instances that serves the goals?
  struct Open { Inst me; Req r; bool fresh; };
  bool search(std::vector<Inst>& have, std::vector<Open> open, long& nodes) const {
    ++nodes;
    if (open.empty()) return true;
    Open o = open.back(); open.pop_back();
    if (!o.fresh) for (auto& i : have) if (i.pred == o.r.pred && o.r.rel(o.me, i)) if (search(have, open, nodes)) return true;
    Inst c; c.pred = o.r.pred;
    for (c.obj = 1; c.obj <= (c.tl() ? tls : 1); ++c.obj) for (c.par = 0; c.par <= (*PAR[c.pred] ? 1 : 0); ++c.par) for (c.st = 0; c.en() <= H; ++c.st) {
      if (!o.r.rel(o.me, c)) continue;
      bool bad = false; for (auto& i : have) if ((i == c && (i.tl() || !o.fresh)) || clash(i, c)) bad = true;
      if (bad) continue;
      std::vector<Open> n = open; for (auto& q : reqs(c)) n.push_back({c, q, false});
      have.push_back(c);
      if (search(have, n, nodes)) return true;
      have.pop_back();
    }
    return false;
  }
  bool satisfiable(long& nodes, std::vector<Inst>& have) const {
    for (auto& f : forced()) {
      std::vector<Open> open; Inst none = {0, 0, 0, 0}; have.clear();
      for (size_t h = goals.size(); h-- > 0;) { size_t g = h; GoalK k = GOALS[goals[g]]; if (k.rej) continue; int fp = f.count(g) ? f.at(g) : -1; open.push_back({none, {k.pred, [k, fp](const Inst&, const Inst& o) { return (k.par < 0 || o.par == k.par) && (fp < 0 || o.par == fp) && (k.st < 0 || o.st == k.st); }, "goal"}, (int)g < pre}); }
      if (search(have, open, nodes)) return true;
    }
    return false;
  }
  std::string text() const { std::ostringstream o; o << "rules " << rules << ", " << tls << " timelines, horizon " << H << ", goals"; for (int g : goals) { const GoalK& k = GOALS[g]; o << " " << (k.rej ? "rejectable " : "") << PRED[k.pred]; if (k.par >= 0) o << "(" << k.par << ")"; if (k.st >= 0) o << "@" << k.st; } if (link) o << (link == 1 ? ", the last with parameter 1" : link == 2 ? ", the last with parameter 0" : ", the first and last with different parameters"); if (pre) o << ", the first " << pre << " active from the start"; return o.str(); }
  static V var(TokenId t, const std::string& n) { for (auto v : t->getVariables()) if (v->getName() == n) return v; return V(); }
  std::string build(Eng& e, std::vector<TokenId>& toks, Names& n, size_t upto = 99) const {
    std::string err = e.load(nddl()); if (!err.empty()) return err;
    post(e, toks, n, 0, upto); return "";
  }
  void post(Eng& e, std::vector<TokenId>& toks, Names& n, size_t from, size_t upto) const {
    for (size_t c = from; c < goals.size() && c < upto; ++c) {
      const GoalK& k = GOALS[goals[c]]; std::string nm = "g" + std::to_string(c);
      TokenId t = e.client()->createToken(PRED[k.pred], nm.c_str(), k.rej, false); n.root(t, nm);
      if (k.par >= 0) e.client()->specify(var(t, PAR[k.pred]), k.par);
      if (k.st >= 0) e.client()->specify(t->start(), k.st);
      toks.push_back(t);
      if ((int)c < pre) e.client()->activate(t);
    }
    if (!link || toks.size() < goals.size()) return;
    V p = var(toks.back(), PAR[GOALS[goals.back()].pred]);
    auto C = [&](const char* n, std::vector<V> s) { e.client()->createConstraint(n, s, ""); };
    auto I = [&](const char* n, int lo, int hi) { return e.client()->createVariable("int", IntervalIntDomain(lo, hi), n, false, true); };
    if (link == 3) { C("neq", {var(toks[0], PAR[GOALS[goals[0]].pred]), p}); return; }
    V x = I("x", 0, 1), y = I("y", 0, 1), z = p;
    if (link == 2) { z = I("z", 0, 1); C("addEq", {p, z, I("one", 1, 1)}); }
    C("addEq", {x, z, y}); C("neq", {x, y});
  }
  static Inst ground(TokenId t, std::string& bad) {
    Inst i = {-1, 0, 0, 0};
    for (int p = 0; p < NP; ++p) if (t->getPredicateName() == PRED[p]) i.pred = p;
    if (i.pred < 0) { bad = "unknown predicate " + t->getPredicateName(); return i; }
    if (!t->getObject()->lastDomain().isSingleton()) bad = "the object of an active " + t->getPredicateName() + " is undecided";
    else { ObjectId o = Entity::getTypedEntity<Object>(t->getObject()->lastDomain().getSingletonValue()); i.obj = o->getName()[1] - '0'; }
    if (*PAR[i.pred]) { V v = var(t, PAR[i.pred]); if (!v->lastDomain().isSingleton()) bad = "parameter of an active " + t->getPredicateName() + " is undecided"; else i.par = (int)cast_double(v->lastDomain().getSingletonValue()); }
    i.st = (int)cast_double(t->start()->lastDomain().getLowerBound());
    if ((int)cast_double(t->end()->lastDomain().getLowerBound()) != i.en()) bad = "earliest end of " + t->getPredicateName() + " is not its earliest start plus its duration";
    return i;
  }
  // The plan in the database, taken at earliest times, is one of this problem.
  std::string check(Eng& e, Names& n) const {
    std::string bad; std::vector<Inst> tl; n.scan(e.db());
    auto tok = [&](TokenId t) { return t->isMerged() ? t->getActiveToken() : t; };
    for (auto t : e.db()->getTokens()) {
      std::string me = n.of(t);
      if (t->isInactive() || t->isIncomplete()) return me + " is left undecided";
      if (t->isRejected()) { bool rej = false; for (size_t g = 0; g < goals.size(); ++g) if (me == "g" + std::to_string(g) && GOALS[goals[g]].rej) rej = true; if (!rej) return me + " is rejected but was not rejectable"; continue; }
      Inst i = ground(tok(t), bad); if (!bad.empty()) return bad;
      if (i.st < 0 || i.en() > H) return me + " is outside the horizon";
      for (size_t g = 0; g < goals.size(); ++g) if (me == "g" + std::to_string(g)) { const GoalK& k = GOALS[goals[g]]; if (k.pred != i.pred || (k.par >= 0 && k.par != i.par) || (k.st >= 0 && k.st != i.st)) return "goal " + me + " is served by " + instText(i); }
      if (!t->isActive()) continue;
      if (i.tl()) { for (auto& o : tl) if (o == i || clash(i, o)) return "two tokens overlap on a timeline: " + instText(i) + " and " + instText(o); tl.push_back(i); }
      std::vector<Req> rs = reqs(i); std::vector<TokenId> sl(t->slaves().begin(), t->slaves().end());
      if (rs.size() != sl.size()) return me + " = " + instText(i) + " has " + std::to_string(sl.size()) + " sub-goals instead of " + std::to_string(rs.size());
      for (auto& r : rs) {
        bool found = false; for (auto s : sl) { if (s->isRejected() || s->isInactive()) continue; Inst o = ground(tok(s), bad); if (!bad.empty()) return bad; if (o.pred == r.pred && r.rel(i, o)) found = true; }
        if (!found) return me + " = " + instText(i) + " needs " + r.label + " but no sub-goal serves it";
      }
    }
    if (link) {
      std::map<int, int> got; auto at = [&](size_t g) { for (auto t : e.db()->getTokens()) if (n.of(t) == "g" + std::to_string(g)) got[g] = ground(tok(t), bad).par; };
      if (link == 3) at(0);
      at(goals.size() - 1); bool good = false; for (auto& f : forced()) if (f == got) good = true;
      if (!good) return "the demand on the goals' parameters is not met";
    }
    if (!e.db()->getTokensToOrder().empty()) return "some token still needs ordering";
    for (auto v : e.ce()->getVariables()) {
      if (!v->canBeSpecified() || v->isSpecified() || !v->isActive() || v->lastDomain().isSingleton()) continue;
      if (TokenId::convertable(v->parent()) && !TokenId(v->parent())->isActive()) continue;
      std::string nm = v->getName(); if (nm == "start" || nm == "end" || nm == "duration") continue;
      if (!v->lastDomain().areBoundsFinite()) continue;
      return "variable " + varName(v, n) + " is left undecided";
    }
    return "";
  }
};
inline std::vector<std::vector<int>> multisets(int n, int upto) {
  std::vector<std::vector<int>> r, last(1); 
  for (int d = 0; d < upto; ++d) { std::vector<std::vector<int>> next; for (auto& s : last) for (int i = s.empty() ? 0 : s.back(); i < n; ++i) { auto t = s; t.push_back(i); next.push_back(t); } r.insert(r.end(), next.begin(), next.end()); last = next; }
  return r;
}
}
#endif
