// modules: Utils,TinyXml,ConstraintEngine
// C03: a fully bound constraint is consistent exactly when its relation holds.
// Every constraint type x argument kinds x every tuple of values, bound (a) by
// the starting domains, (b) by specifying the variables in every order with
// propagation in between, constraint posted before or after, (c) along a walk
// through all tuples in one engine, changing one variable at a time.
#include "constraint_lib.hh"
using namespace lib;

static bool quick;
static CESchemaId ces;
struct Item { int kind; size_t e, s; int v0; };
static std::vector<Item> items;

static std::vector<double> values(const std::string& name, char k, size_t arg, size_t arity) {
  if (k == 'B') return {0, 1};
  if (k == 'S') return {0, 1, 2};
  if (name == "sin") return arg == 1 ? std::vector<double>{-120, -90, -45, 0, 30, 45, 90, 100} : std::vector<double>{-1, -0.5, 0, 0.5, M_SQRT1_2, -M_SQRT1_2, 1, 0.25};
  bool fn = name == "sqrt" || name == "calcDistance" || name == "pow" || name == "distanceSquares";
  std::vector<double> r;
  if (k == 'I' || k == 'E') { r = {-1, 0, 1, 2}; if (arity <= 4) r.push_back(3); if (arity <= 3) { r.push_back(-2); r.push_back(4); if (k == 'I') { r.push_back(-3); r.push_back(6); } } }
  else {
    r = {-1, 0, 0.5, 1, 1.5, 2};
    if (arity <= 3) { r.push_back(-0.5); r.push_back(3); r.push_back(0.25); r.push_back(-1.5); }
    if (fn) { r.push_back(M_SQRT2); r.push_back(M_SQRT1_2); r.push_back(2.25); }
    if (name == "calcDistance" && arg == 0) { r.push_back(2 * M_SQRT2); r.push_back(std::sqrt(5.0)); }
  }
  return r;
}
static D single(char k, double v) { return k == 'I' || k == 'R' || k == 'B' ? iv(k, v, v) : en(k, {v}); }
static std::vector<D> wide(const std::string& name, const std::string& sig) {
  std::vector<D> r;
  for (size_t i = 0; i < sig.size(); ++i) {
    char k = sig[i];
    if (k == 'B') r.push_back(iv(k, 0, 1));
    else if (k == 'I' || k == 'R') r.push_back(iv(k, name == "sin" ? -200 : -10, name == "sin" ? 200 : 10));
    else { std::vector<double> v = values(name, k, i, sig.size()); std::sort(v.begin(), v.end()); r.push_back(en(k, v)); }
  }
  return r;
}
static std::string show(const Vals& v) { std::ostringstream o; o << "("; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }

static void verdict(mc::Ctx& c, int rel, bool ok, const std::string& name, const std::string& how, const Vals& v) {
  c.evals(); c.transitions(); c.trace();
  if (rel < 0 || ok == (rel == 1)) return;
  c.violation((rel ? "rejects:" : "accepts:") + name + ":" + how, name + show(v) + " " + how + ": the relation " + (rel ? "holds" : "does not hold") + " but the engine reports " + (ok ? "consistent" : "inconsistent"));
}

// mode -1 direct; 2*perm+0 constraint first, 2*perm+1 constraint last
static void bound(mc::Ctx& c, const Entry& e, const std::string& sig, const Vals& v, int mode) {
  std::string name = std::string(e.name) + "/" + sig;
  std::ostringstream cs; cs << name << "|" << mode << "|"; for (double x : v) cs << x << ","; c.begin(cs.str());
  std::vector<int> scope; for (size_t i = 0; i < sig.size(); ++i) scope.push_back(i);
  std::string how = mode < 0 ? "direct" : mode % 2 ? "specified-then-posted" : "posted-then-specified";
  try {
    Net* np = new Net(ces); Net& net = *np; bool ok = true;
    if (mode < 0) {
      for (size_t i = 0; i < v.size(); ++i) net.var(single(sig[i], v[i]));
      net.post(e.name, scope);
      ok = net.ce->propagate();
    } else {
      std::vector<D> w = wide(e.name, sig); for (auto& d : w) net.var(d);
      if (mode % 2 == 0) { net.post(e.name, scope); ok = net.ce->propagate(); }
      std::vector<int> ord = scope; for (int k = 0; k < mode / 2; ++k) std::next_permutation(ord.begin(), ord.end());
      for (int i : ord) if (ok) {
        if (!net.has(i, v[i])) { ok = false; break; }   // already excluded: C02 judges whether rightly
        net.vars[i]->specify(code(sig[i], v[i]));
        ok = net.ce->propagate();
      }
      if (mode % 2 == 1 && ok) { net.post(e.name, scope); ok = net.ce->propagate(); }
    }
    verdict(c, e.rel(v), ok, name, how, v);
    delete np;
  } catch (Error& x) { c.violation("throws:" + name + ":" + how, name + show(v) + " " + how + ": " + x.getMsg()); }
}

static int fact(size_t n) { int f = 1; for (size_t i = 2; i <= n; ++i) f *= i; return f; }

// Visits every tuple in one engine, changing variables by reset and specify.
static void walk(mc::Ctx& c, const Entry& e, const std::string& sig, const std::vector<std::vector<double>>& u, bool resetFirst) {
  std::string name = std::string(e.name) + "/" + sig;
  size_t n = sig.size(); std::vector<size_t> ix(n, 0); std::vector<int> scope; for (size_t i = 0; i < n; ++i) scope.push_back(i);
  std::string how = resetFirst ? "walk-reset" : "walk-respecify";
  try {
    Net* np = new Net(ces); Net& net = *np;
    std::vector<D> w = wide(e.name, sig); for (auto& d : w) net.var(d);
    net.post(e.name, scope); net.ce->propagate();
    Vals v(n); std::vector<char> dirty(n, 1); std::vector<int> dir(n, 1);
    for (;;) {
      for (size_t i = 0; i < n; ++i) v[i] = u[i][ix[i]];
      std::ostringstream cs; cs << name << "|" << how << "|"; for (double x : v) cs << x << ","; c.begin(cs.str());
      for (size_t i = 0; i < n; ++i) if (dirty[i]) {
        if (net.vars[i]->isSpecified()) { net.vars[i]->reset(); if (resetFirst) net.ce->propagate(); }
        net.vars[i]->specify(code(sig[i], v[i]));
        dirty[i] = 0;
      }
      bool ok = net.ce->propagate();
      verdict(c, e.rel(v), ok, name, how, v);
      // reflected Gray order: one variable changes per step
      size_t i = 0;
      for (; i < n; ++i) {
        long j = (long)ix[i] + dir[i];
        if (j >= 0 && j < (long)u[i].size()) { ix[i] = j; dirty[i] = 1; break; }
        dir[i] = -dir[i];
      }
      if (i >= n) break;
    }
    delete np;
  } catch (Error& x) { c.violation("throws:" + name + ":" + how, c.cur + ": " + x.getMsg()); }
}

// Two constraints over x,y,z,b,d: the walk through all tuples must be
// consistent exactly where both relations hold.
static void pairWalk(mc::Ctx& c, int i, int j, int k) {
  std::string names = std::string(insts()[i].name) + "+" + insts()[j].name + (k >= 0 ? std::string("+") + insts()[k].name : "");
  std::vector<int> ids = {i, j}; if (k >= 0) ids.push_back(k);
  std::string sig = "IIIBB"; std::vector<std::vector<double>> u = {{-1, 0, 1, 2}, {0, 1, 2, -1}, {1, 2, 0, -1, 3}, {0, 1}, {0, 1}};
  std::set<int> used; for (int id : ids) for (int a : insts()[id].scope) used.insert(a);
  try {
    Net* np = new Net(ces); Net& net = *np;
    for (size_t a = 0; a < 5; ++a) net.var(sig[a] == 'B' ? iv('B', 0, 1) : iv('I', -10, 10));
    for (int id : ids) net.post(insts()[id].name, insts()[id].scope);
    net.ce->propagate();
    std::vector<int> act(used.begin(), used.end()); size_t n = act.size();
    std::vector<size_t> ix(5, 0); std::vector<int> dir(5, 1); std::vector<char> dirty(5, 1);
    Vals v(5, 0), a;
    for (;;) {
      for (int q : act) v[q] = u[q][ix[q]];
      std::ostringstream cs; cs << "net:" << names << "|" << i << "," << j << "," << k << "|"; for (double x : v) cs << x << ","; c.begin(cs.str());
      for (int q : act) if (dirty[q]) { if (net.vars[q]->isSpecified()) net.vars[q]->reset(); net.vars[q]->specify(edouble(v[q])); dirty[q] = 0; }
      bool ok = net.ce->propagate();
      int rel = 1;
      for (int id : ids) { a.clear(); for (int q : insts()[id].scope) a.push_back(v[q]); int r = entry(insts()[id].name).rel(a); if (r == 0) rel = 0; else if (r < 0 && rel == 1) rel = -1; }
      verdict(c, rel, ok, "net:" + names, "walk", v);
      size_t p = 0;
      for (; p < n; ++p) {
        int q = act[p]; long t = (long)ix[q] + dir[q];
        if (t >= 0 && t < (long)u[q].size()) { ix[q] = t; dirty[q] = 1; break; }
        dir[q] = -dir[q];
      }
      if (p >= n) break;
    }
    delete np;
  } catch (Error& x) { c.violation("throws:net:" + names, c.cur + ": " + x.getMsg()); }
}

static void item(mc::Ctx& c, const Item& it) {
  if (it.kind == 1) {
    int n = insts().size();
    for (int j = it.e + 1; j < n; ++j) { pairWalk(c, it.e, j, -1); if (!quick) for (int k = j + 1; k < n; ++k) pairWalk(c, it.e, j, k); }
    return;
  }
  const Entry& e = table()[it.e]; const std::string& sig = e.sigs[it.s]; size_t n = sig.size();
  std::vector<std::vector<double>> u; for (size_t i = 0; i < n; ++i) u.push_back(values(e.name, sig[i], i, n));
  if (it.kind == 2) { walk(c, e, sig, u, it.v0); return; }
  std::vector<size_t> ix(n, 0); ix[0] = it.v0; Vals v(n);
  int no = fact(n);
  for (;;) {
    for (size_t i = 0; i < n; ++i) v[i] = u[i][ix[i]];
    bound(c, e, sig, v, -1);
    for (int m = 0; m < no; ++m) if (!quick ? (n <= 4 || m % 7 == 0) : (n <= 3 || m == 0 || m == no - 1 || (n == 4 && m % 5 == 0))) {
      if (e.c02) bound(c, e, sig, v, 2 * m);   // memberImply and lockCT take sets that must not change once posted
      if (m == 0 || (!quick && n <= 3)) bound(c, e, sig, v, 2 * m + 1);
    }
    size_t i = 1; for (; i < n; ++i) { if (++ix[i] < u[i].size()) break; ix[i] = 0; }
    if (i >= n) break;
  }
}

int main(int argc, char** argv) {
  mc::Runner r("C03", argc, argv); quick = r.quick;
  Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings();
  LibEngine eng; ces = eng.schema(); labels();
  if (r.replaying) r.replay([](mc::Ctx& c, const std::string& s) {
    size_t a = s.find('|'), b = s.find('|', a + 1); std::string h = s.substr(0, a), m = s.substr(a + 1, b - a - 1);
    if (h.compare(0, 4, "net:") == 0) { std::vector<int> q; std::istringstream i(m); std::string t; while (std::getline(i, t, ',')) q.push_back(atoi(t.c_str())); pairWalk(c, q[0], q[1], q[2]); return; }
    size_t sl = h.find('/'); const Entry& e = entry(h.substr(0, sl)); std::string sig = h.substr(sl + 1);
    if (m.compare(0, 4, "walk") == 0) { std::vector<std::vector<double>> u; for (size_t i = 0; i < sig.size(); ++i) u.push_back(values(e.name, sig[i], i, sig.size())); walk(c, e, sig, u, m == "walk-reset"); return; }
    Vals v; std::istringstream i(s.substr(b + 1)); std::string t; while (std::getline(i, t, ',')) v.push_back(atof(t.c_str()));
    // restore exact values printed in short form
    for (size_t k = 0; k < v.size(); ++k) for (double x : values(e.name, sig[k], k, sig.size())) if (std::fabs(x - v[k]) < 1e-4) v[k] = x;
    bound(c, e, sig, v, atoi(m.c_str()));
  });
  for (size_t e = 0; e < table().size(); ++e)
    for (size_t s = 0; s < table()[e].sigs.size(); ++s) {
      const std::string& sig = table()[e].sigs[s];
      items.push_back({2, e, s, 0}); items.push_back({2, e, s, 1});
      for (size_t d = 0; d < values(table()[e].name, sig[0], 0, sig.size()).size(); ++d) items.push_back({0, e, s, (int)d});
    }
  for (size_t i = 0; i < insts().size(); ++i) items.push_back({1, i, 0, 0});
  r.parallel(items.size(), [](size_t i, mc::Ctx& c) { item(c, items[i]); });
  r.sh->states = r.sh->evals.load();
  r.rule = "every constraint type x argument kinds x every tuple of a small value universe, bound directly, by specification in every order before and after posting, and along one-variable-at-a-time walks; all pairs (thorough: triples) of instances walked jointly; states are counted per evaluated tuple and mode";
  r.sample("addEq/IIR|4|1,0,1,: post addEq over wide domains, specify in permutation 2 with propagation in between");
  r.sample("net:leq+addEq|0,6,-1|1,0,1,0,0,: both constraints, tuple reached by a walk");
  r.assumptions = {"values whose relation the documentation leaves open (0/0, 0^0) are not judged", "UNARY and rand are excluded"};
  return r.finish();
}
