// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
// C12: every history of operations on tokens that rules apply to.  In each
// state reached, the sub-goals, rule variables and constraints present are
// exactly those the rules' text asks for (evaluated here from the bindings in
// force), and the plan equals one in which undone steps never happened.
#include "token_history.hh"

// What the text of the rules asks for, given what is bound.
struct Want {
  Plan& p; std::multiset<std::string> subs, vars, cons;
  Want(Plan& pl) : p(pl) {}
  bool active(const char* l) { for (auto t : p.e->db()->getTokens()) if (p.n.of(t) == l) return t->isActive(); return false; }
  bool there(const char* l) { for (auto t : p.e->db()->getTokens()) if (p.n.of(t) == l) return true; return false; }
  bool bound(const char* l, const char* v, int& out) {
    for (auto t : p.e->db()->getTokens()) if (p.n.of(t) == l)
      for (auto x : t->getVariables()) if (x->getName() == v) {
        if (x->isSpecified()) { out = (int)cast_double(x->getSpecifiedValue()); return true; }
        if (x->baseDomain().isSingleton()) { out = (int)cast_double(x->baseDomain().getSingletonValue()); return true; }
        return false;
      }
    return false;
  }
  void sub(const std::string& l) { subs.insert(l); }
  void con(const std::string& c) { cons.insert(c); }
  void var(const std::string& v) { vars.insert(v); }
};

static bool bookkeeping(const std::string& n) { return n == "ObjectTokenRelation" || n == "RuleVariableListener" || n.compare(0, 4, "test") == 0; }
static std::string plain(const ConstraintId c, Names& n) {
  std::string s = c->getName() + "("; bool first = true;
  for (auto v : c->getScope()) { s += (first ? "" : " ") + varName(v, n); first = false; }
  return s + ")";
}
static void compare(Plan& p, mc::Ctx& c, bool ok, const std::vector<Op>& f, const std::string& what, const std::function<void(Want&)>& rules) {
  if (!ok) return;      // rules fire once propagation has found no inconsistency
  p.n.scan(p.e->db());
  Want w(p); rules(w);
  std::multiset<std::string> subs, vars, cons; bool merged = false;
  for (auto t : p.e->db()->getTokens()) {
    if (t->isMerged()) merged = true;
    if (t->master().isId()) subs.insert(p.n.of(t));
    if (t->isActive() || t->isInactive()) {
      ConstrainedVariableId s = t->start();
      (void)s;
    }
    if (t->isActive()) for (auto v : t->getLocalVariables()) if (v->getName().find("implicit") == std::string::npos && v->getName().find("PSEUDO") == std::string::npos) { bool own = false; for (auto x : t->getVariables()) if (x == v) own = true; if (!own) vars.insert(p.n.of(t) + ":" + v->getName()); }
  }
  c.evals();
  auto show = [](const std::multiset<std::string>& a, const std::multiset<std::string>& b) { std::vector<std::string> d; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d)); std::string s; for (auto& x : d) s += x + " "; return s; };
  if (subs != w.subs) c.violation(PID + ":sub-goals", "sub-goals missing: " + show(w.subs, subs) + "; not asked for: " + show(subs, w.subs) + " after " + what);
  if (vars != w.vars) c.violation(PID + ":local-variables", "rule variables missing: " + show(w.vars, vars) + "; not asked for: " + show(vars, w.vars) + " after " + what);
  if (merged) return;
  for (auto& o : f) if (o.k == 'k') { std::string s = std::string(p.w.cons[o.a].name) + "("; bool first = true; for (auto& x : p.w.cons[o.a].scope) { s += (first ? "" : " ") + std::string(p.w.labels[x.first]) + "." + x.second; first = false; } w.con(s + ")"); }
  for (auto t : p.e->db()->getTokens()) w.con("temporalDistance(" + p.n.of(t) + ".start " + p.n.of(t) + ".duration " + p.n.of(t) + ".end)");
  for (auto x : p.e->ce()->getConstraints()) {
    bool lit = false; for (auto v : x->getScope()) if (v->getName().find("implicit") != std::string::npos) lit = true;
    if (!lit && !bookkeeping(x->getName())) cons.insert(stripDigits("") + plain(x, p.n));
  }
  if (cons != w.cons) c.violation(PID + ":constraints", "constraints missing: " + show(w.cons, cons) + "; not asked for: " + show(cons, w.cons) + " after " + what);
}
#define RULES(...) [](Plan& p, mc::Ctx& c, bool ok, const std::vector<Op>& f, const std::string& what) { compare(p, c, ok, f, what, [](Want& w) __VA_ARGS__); }

#define BASE "class R { int id; R(int a){ id = a; } predicate A { int p; p = [0 2]; int q; q = [0 2]; } predicate B { int q; q = [0 2]; } predicate Z { int z; z = [0 2]; } predicate Y { int y; y = [0 1]; } predicate C { int p; p = [0 2]; bool x; } predicate D { int p; p = [0 2]; R r; R all; } }\n" \
             "class S extends R { S(int a) { super(a); } predicate A { } }\n"
#define OBJS "R o1 = new R(1); R o2 = new R(2); close();\n"
static std::vector<World>& worlds() {
  static std::vector<World> w = {
    // nested conditions, both branches
    {BASE "R::A { if (p == 1) { meets(object.B b); leq(b.q, q); if (q == 1) { any(object.Z z); leq(z.z, b.q); } else { before(object.Y y); } } else { leq(p, q); any(object.C c2); } }\n" OBJS,
     {{"t0", "R.A", false, false}, {"t1", "R.B", false, false}}, {"t0", "t1", "t0/R.B:meets", "t0/R.Z:any", "t0/R.Y:before", "t0/R.C:any"},
     {{"leq", {{2, "q"}, {1, "q"}}}},
     {{0, "p", 1}, {0, "p", 2}, {0, "q", 1}, {0, "q", 2}, {2, "q", 1}}, {{0, "p", 0}, {0, "q", 0}}, false, true,
     RULES({ int p, q;
       if (!w.active("t0") || !w.bound("t0", "p", p)) return;
       if (p == 1) {
         w.sub("t0/R.B:meets"); w.con("concurrent(t0.end t0/R.B:meets.start)"); w.con("eq(t0.object t0/R.B:meets.object)"); w.con("leq(t0/R.B:meets.q t0.q)");
         if (!w.bound("t0", "q", q)) return;
         if (q == 1) { w.sub("t0/R.Z:any"); w.con("eq(t0.object t0/R.Z:any.object)"); w.con("leq(t0/R.Z:any.z t0/R.B:meets.q)"); }
         else { w.sub("t0/R.Y:before"); w.con("eq(t0.object t0/R.Y:before.object)"); w.con("precedes(t0.end t0/R.Y:before.start)"); }
       } else { w.con("leq(t0.p t0.q)"); w.sub("t0/R.C:any"); w.con("eq(t0.object t0/R.C:any.object)"); }
     })},
    // a condition on a sub-goal's variable; a sub-goal with its own rule
    {BASE "R::A { contains(R.B b); if (b.q == 1) { any(R.C c); eq(c.p, p); } }\nR::C { if (x == true) { any(R.Y y); } else { ends(R.Z z); } }\n" OBJS,
     {{"t0", "R.A", false, false}, {"t1", "R.B", false, false}, {"t2", "R.C", false, false}}, {"t0", "t1", "t2", "t0/R.B:contains", "t0/R.C:any", "t0/R.C:any/R.Y:any", "t0/R.C:any/R.Z:ends", "t2/R.Y:any", "t2/R.Z:ends"},
     {{"lt", {{0, "p"}, {1, "q"}}}},
     {{3, "q", 1}, {3, "q", 0}, {1, "q", 1}, {4, "x", 1}, {2, "x", 0}, {2, "x", 1}}, {{3, "q", 0}}, false, true,
     RULES({ int q, x;
       auto C = [&](std::string t) {
         if (!w.active(t.c_str()) || !w.bound(t.c_str(), "x", x)) return;
         if (x) w.sub(t + "/R.Y:any"); else { w.sub(t + "/R.Z:ends"); w.con("concurrent(" + t + "/R.Z:ends.end " + t + ".end)"); } };
       C("t2"); C("t0/R.C:any");
       if (!w.active("t0")) return;
       w.sub("t0/R.B:contains"); w.con("precedes(t0.start t0/R.B:contains.start)"); w.con("precedes(t0/R.B:contains.end t0.end)"); w.con("leq(t0/R.B:contains.duration t0.duration)");
       if (w.bound("t0/R.B:contains", "q", q) && q == 1) { w.sub("t0/R.C:any"); w.con("eq(t0/R.C:any.p t0.p)"); }
     })},
    // inherited and own rules, two sub-goals constrained with each other, two rules for one predicate
    {BASE "R::A { any(R.B b1); any(R.B b2); eq(b1.q, b2.q); }\nS::A { if (p < q) { int k = [0 2]; leq(k, q); starts_before(R.Z z); leq(z.z, k); } }\nS::A { if (p == 1) { any(R.Y y); } }\nR o1 = new R(1); S o2 = new S(2); close();\n",
     {{"t0", "S.A", false, false}, {"t1", "R.B", false, false}, {"t2", "R.A", false, false}}, {"t0", "t1", "t2", "t0/R.B:any", "t0/R.B:any#1", "t0/R.Z:starts_before", "t0/R.Y:any", "t2/R.B:any", "t2/R.B:any#1"},
     {{"eq", {{0, "p"}, {2, "p"}}}},
     {{0, "p", 0}, {0, "p", 1}, {0, "q", 1}, {0, "q", 2}, {2, "p", 1}, {3, "q", 1}}, {{0, "q", 0}}, false, true,
     RULES({ int p, q;
       for (const char* t : {"t0", "t2"}) if (w.active(t)) { std::string s = t; w.sub(s + "/R.B:any"); w.sub(s + "/R.B:any#1"); w.con("eq(" + s + "/R.B:any.q " + s + "/R.B:any#1.q)"); }
       if (!w.active("t0")) return;
       bool bp = w.bound("t0", "p", p), bq = w.bound("t0", "q", q);
       if (bp && bq && p < q) { w.var("t0:k"); w.con("leq(t0:rule.k t0.q)"); w.sub("t0/R.Z:starts_before"); w.con("temporalDistance(t0.start ::NO_NAME t0/R.Z:starts_before.start)"); w.con("leq(t0/R.Z:starts_before.z t0:rule.k)"); }
       if (bp && p == 1) w.sub("t0/R.Y:any");
     })},
    // combined conditions; a loop over objects; a rule that asks for its own predicate
    {BASE "R::D { if (p == 1 && r.id == 2) { any(R.Y y); } foreach (o in all) { any(o.B b); } }\nR::B { if (q == 2) { any(R.B bb); lt(bb.q, q); } }\n" OBJS,
     {{"t0", "R.D", false, false}, {"t1", "R.B", false, false}}, {"t0", "t1", "t0/R.Y:any", "t0/R.B:any", "t0/R.B:any#1", "t0/R.B:any/R.B:any", "t1/R.B:any"},
     {{"eq", {{1, "q"}, {0, "p"}}}},
     {{0, "p", 1}, {0, "r", 1}, {0, "r", 0}, {1, "q", 2}, {3, "q", 2}}, {}, false, true, nullptr},
    // a condition over two tokens' variables, either of which may go
    {BASE "R::A { any(R.C c); if (c.p == p || q == 1) { equals(R.Z z); } else { any(R.Y y); } }\n" OBJS,
     {{"t0", "R.A", false, false}, {"t1", "R.C", false, false}, {"t2", "R.Z", false, false}}, {"t0", "t1", "t2", "t0/R.C:any", "t0/R.Z:equals", "t0/R.Y:any"},
     {{"leq", {{4, "z"}, {0, "q"}}}},
     {{0, "p", 1}, {3, "p", 1}, {3, "p", 2}, {0, "q", 1}, {0, "q", 0}, {1, "p", 1}}, {}, false, true,
     RULES({ int p, q, cp;
       if (!w.active("t0")) return;
       w.sub("t0/R.C:any");
       if (!w.bound("t0", "p", p) || !w.bound("t0", "q", q) || !w.bound("t0/R.C:any", "p", cp)) return;
       if (cp == p || q == 1) { w.sub("t0/R.Z:equals"); w.con("concurrent(t0.start t0/R.Z:equals.start)"); w.con("concurrent(t0/R.Z:equals.end t0.end)"); w.con("eq(t0.duration t0/R.Z:equals.duration)"); } else w.sub("t0/R.Y:any");
     })}};
  return w;
}

int main(int argc, char** argv) {
  PID = "C12";
  mc::Runner r("C12", argc, argv);
  memo = new std::unordered_map<std::string, View>();
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  int depth = r.quick ? 4 : 6, lazyDepth = r.quick ? 4 : 6;
  std::vector<std::string> roots;
  int N = worlds().size();
  for (int w = 0; w < N; ++w) roots.push_back(std::to_string(w) + "Eb|");
  int a = r.bfs(roots, depth, [&](const std::string& h, mc::Ctx& c) { explore(h, c, depth); });
  roots = {"0Eb3|a0 s0 s2 ", "1Eb3|a0 s0 a4 ", "1Eb4|a0 a1 m3>1 s2 ", "2Eb3|a0 s0 s2 ", "3Eb2|a0 s0 ", "4Eb3|a0 s0 s1 "};
  int after = r.quick ? 3 : 5;
  int b = r.bfs(roots, after, [&](const std::string& h, mc::Ctx& c) { explore(h, c, after); });
  roots.clear(); for (int w = 0; w < N; ++w) roots.push_back(std::to_string(w) + "Lb|");
  for (const char* x : {"0Lb4|a0 s0 s2 P ", "1Lb6|a0 P s0 P a4 P ", "2Lb4|a0 s0 s2 P ", "3Lb3|a0 s0 P ", "4Lb5|a0 s0 P s1 P "}) roots.push_back(x);
  int l = r.bfs(roots, lazyDepth, [&](const std::string& h, mc::Ctx& c) { explore(h, c, lazyDepth); });
  r.rule = "all histories of token and constraint operations over models with conditional rules";
  r.extras.push_back({"worlds", std::to_string(N)});
  r.extras.push_back({"depth", std::to_string(a)}); r.extras.push_back({"depth_after_prefixes", std::to_string(b)}); r.extras.push_back({"depth_lazy", std::to_string(l)});
  r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0Eb|a0 s0 s2 u0 "); r.sample("1Eb|a0 s0 a4 s3 ");
  r.assumptions = {"a condition is decided once every variable it names is specified or has a singleton base domain", "rules are applied at the end of a propagation that finds no inconsistency"};
  return r.finish();
}
