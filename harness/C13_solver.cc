// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,Solvers,NDDL
// C13: every problem of two families (small constraint problems, small planning
// problems) under every solver configuration of a list.  The outcome is
// compared with the problem's meaning, found by enumeration.
#include "solver_lib.hh"
using namespace sol;
static const unsigned LIMIT = 20000;

static void outcome(Solver& s, mc::Ctx& c, bool sat, const std::string& what, const std::function<std::string()>& check) {
  bool ok = s.solve(LIMIT);
  c.transitions(s.getStepCount());
  if (s.isTimedOut()) { c.violation("C13:unended", "the search has not ended after " + std::to_string(LIMIT) + " steps on " + what); return; }
  if (ok == s.isExhausted()) { c.violation("C13:outcome", "the solver claims neither or both of success and exhaustion on " + what); return; }
  if (ok && !s.noMoreFlaws()) c.violation("C13:flaws-left", "success is reported with flaws left on " + what);
  if (ok) { std::string b = check(); if (!b.empty()) c.violation("C13:unsound", "success is reported but " + b + ": " + what); else if (!sat) c.violation("C13:oracle", "a plan was found for a problem the model finds none for: " + what); }
  else if (sat) c.violation("C13:incomplete", "exhaustion is reported although a solution exists: " + what);
}
static void csp(const std::string& s, mc::Ctx& c) {
  c.begin(s); c.trace();
  std::istringstream i(s.substr(2)); Csp p; int cfg, x; i >> cfg; for (int k = 0; k < 3; ++k) { i >> x; p.dom.push_back(x); } while (i >> x) p.con.push_back(x);
  int n = p.solutions(); std::string what = p.text() + "configuration " + std::to_string(cfg);
  Eng* e = new Eng(); std::vector<V> vs; p.build(*e, vs);
  { Sol so(*e, solverXml(CFGS[cfg]));
    outcome(*so.s, c, n > 0, what, [&]() -> std::string {
      std::vector<int> v; for (auto x : vs) { if (!x->isSpecified()) return x->getName() + " is undecided"; v.push_back((int)cast_double(x->lastDomain().getSingletonValue())); }
      for (int k = 0; k < 3; ++k) { bool in = false; for (int w : Csp::values(p.dom[k])) if (w == v[k]) in = true; if (!in) return "a value is outside its domain"; }
      return p.ok(v) ? "" : "the assignment violates a constraint"; });
    c.state("C" + what);
    so->reset(); }
  delete e;
}
static void planp(const std::string& s, mc::Ctx& c) {
  c.begin(s); c.trace();
  std::istringstream i(s.substr(2)); int cfg; i >> cfg; std::string rest; getline(i, rest); Prob p = Prob::parse(rest);
  long nodes = 0; std::vector<Inst> have; bool sat = p.satisfiable(nodes, have); c.evals(nodes);
  std::string what = p.text() + ", configuration " + std::to_string(cfg); if (sat) { what += ", e.g."; for (auto& x : have) what += " " + instText(x); }
  Eng* e = new Eng(); Names n; std::vector<TokenId> toks; std::string err = p.build(*e, toks, n);
  if (!err.empty()) { c.violation("C13:load", "a well-formed model is refused: " + err); return; }
  { Sol so(*e, solverXml(CFGS[cfg])); outcome(*so.s, c, sat, what, [&] { return p.check(*e, n); }); c.extra(sat ? 0 : 1); c.state("P" + what); so->reset(); }
  delete e;
}
// Constraints that arrive after a first solve.
static void laterCsp(const std::string& s, mc::Ctx& c) {
  c.begin(s); c.trace();
  std::istringstream i(s.substr(2)); Csp p; int cfg, split, x; i >> cfg >> split; for (int k = 0; k < 3; ++k) { i >> x; p.dom.push_back(x); } while (i >> x) p.con.push_back(x);
  Csp first = p; first.con.resize(split); std::string what = p.text() + "of which the last " + std::to_string(p.con.size() - split) + " come after a first solve, configuration " + std::to_string(cfg);
  if (!first.solutions()) return;
  Eng* e = new Eng(); std::vector<V> vs; first.build(*e, vs);
  auto check = [&](const Csp& q) { return [&vs, q]() -> std::string { std::vector<int> v; for (auto x : vs) { if (!x->isSpecified()) return x->getName() + " is undecided"; v.push_back((int)cast_double(x->lastDomain().getSingletonValue())); } return q.ok(v) ? "" : "the assignment violates a constraint"; }; };
  { Sol so(*e, solverXml(CFGS[cfg]));
    outcome(*so.s, c, true, what, check(first));
    for (size_t k = split; k < p.con.size(); ++k) { std::vector<V> sc; for (int w : cons()[p.con[k]].scope) sc.push_back(vs[w]); e->client()->createConstraint(cons()[p.con[k]].name, sc, ""); }
    outcome(*so.s, c, p.solutions() > 0, what, check(p));
    c.state("J" + what); so->reset(); }
  delete e;
}
// Goals that arrive after the first ones were solved for.
static void later(const std::string& s, mc::Ctx& c) {
  c.begin(s); c.trace();
  std::istringstream i(s.substr(2)); int cfg, split; i >> cfg >> split; std::string rest; getline(i, rest); Prob p = Prob::parse(rest), first = p; first.goals.resize(split);
  long nodes = 0; std::vector<Inst> have; bool sat1 = first.satisfiable(nodes, have); have.clear(); bool sat = p.satisfiable(nodes, have); c.evals(nodes);
  std::string what = p.text() + " of which the last " + std::to_string(p.goals.size() - split) + " come after a first solve, configuration " + std::to_string(cfg); if (sat) { what += ", e.g."; for (auto& x : have) what += " " + instText(x); }
  if (!sat1) return;
  Eng* e = new Eng(); Names n; std::vector<TokenId> toks; p.build(*e, toks, n, split);
  { Sol so(*e, solverXml(CFGS[cfg])); outcome(*so.s, c, sat1, what, [&] { return first.check(*e, n); });
    p.post(*e, toks, n, split, 99);
    outcome(*so.s, c, sat, what, [&] { return p.check(*e, n); });
    c.state("I" + what); so->reset(); }
  delete e;
}
static void run(const std::string& s, mc::Ctx& c) { try { if (s[0] == 'C') csp(s, c); else if (s[0] == 'J') laterCsp(s, c); else if (s[0] == 'I') later(s, c); else planp(s, c); } catch (Error& e) { c.violation("C13:error", "an error was raised: " + e.getMsg()); } }

int main(int argc, char** argv) {
  mc::Runner r("C13", argc, argv);
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { run(s, c); });
  std::vector<std::string> cases;
  { std::vector<std::vector<int>> cs(1); int n = cons().size(), top = r.quick ? 2 : 3; std::vector<std::vector<int>> last(1);
    for (int d = 0; d < top; ++d) { std::vector<std::vector<int>> nx; for (auto& s : last) for (int i = s.empty() ? 0 : s.back() + 1; i < n; ++i) { auto t = s; t.push_back(i); nx.push_back(t); } cs.insert(cs.end(), nx.begin(), nx.end()); last = nx; }
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int d = 0; d < 4; ++d) for (auto& k : cs) if (Csp::usable(a, b, d, k)) for (int cfg : {0, 1, 6}) { std::string s = "C " + std::to_string(cfg) + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(d); for (int x : k) s += " " + std::to_string(x); cases.push_back(s); for (size_t j = 0; j < k.size(); ++j) cases.push_back("J " + std::to_string(cfg) + " " + std::to_string(j) + s.substr(3)); } }
  size_t ncsp = cases.size();
  // three goals on timelines with such demands: several tokens to merge with
  for (int tls = 1; tls <= 2; ++tls) for (int rules : {0, 16, 24}) for (auto& g : multisets(NG, 3)) if (g.size() == 3 && (r.quick ? (g[0] >= X && g[0] != 11 && g[0] != 12) : g[0] >= 2)) for (int cfg = 0; cfg < NCFG; ++cfg) for (int link = 1; link <= 3; ++link) {
    if (r.quick && (rules == 24 || (g[0] + g[1] + g[2] + link) % 3 != cfg % 3)) continue;
    Prob p; p.rules = rules; p.tls = tls; p.goals = g; std::sort(p.goals.begin(), p.goals.end(), [](int a, int b) { return (GOALS[a].par >= 0) > (GOALS[b].par >= 0); }); p.link = link;
    if (p.canLink(link)) cases.push_back("P " + std::to_string(cfg) + " " + p.code());
    for (p.pre = 1; p.pre <= 2; ++p.pre) if (p.canLink(link) && p.canPre(p.pre)) cases.push_back("P " + std::to_string(cfg) + " " + p.code());
  }
  std::vector<std::vector<int>> g2 = multisets(NG, 2), g3 = multisets(NG, 3);
  for (int rules = 0; rules < (1 << NR); ++rules) for (int tls = 1; tls <= 2; ++tls) for (auto& g : (r.quick ? g2 : g3)) for (int cfg = 0; cfg < NCFG; ++cfg) {
    if (r.quick && (rules + tls + g[0]) % NCFG != cfg) continue;
    Prob p; p.rules = rules; p.tls = tls; p.H = 5; p.goals = g;
    // demands that only search can settle
    if (r.quick ? (rules % 4 == 0 && g.size() == 2) : g.size() <= 2) for (p.link = 1; p.link <= 3; ++p.link) if (p.canLink(p.link)) cases.push_back("P " + std::to_string(cfg) + " " + p.code());
    p.link = 0;
    if (!r.quick || g.size() == 2) { p.pre = 1; if (p.canPre(1)) cases.push_back("P " + std::to_string(cfg) + " " + p.code()); p.pre = 0; }
    cases.push_back("P " + std::to_string(cfg) + " " + p.code());
    for (size_t k = 1; k < g.size(); ++k) cases.push_back("I " + std::to_string(cfg) + " " + std::to_string(k) + " " + p.code());
  }
  r.extraNames = {"plans_satisfiable", "plans_unsatisfiable"};
  r.parallel(cases.size(), [&](size_t i, mc::Ctx& c) { run(cases[i], c); });
  r.rule = "all constraint problems and planning problems of the families, each solved to its end";
  r.extras.push_back({"csp_problems", std::to_string(ncsp)}); r.extras.push_back({"plan_problems", std::to_string(cases.size() - ncsp)});
  r.sample("C 0 0 1 2 3 4"); r.sample("P 1 63 1 5 0 6 9");
  return r.finish();
}
