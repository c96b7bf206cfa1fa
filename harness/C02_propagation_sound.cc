// modules: Utils,TinyXml,ConstraintEngine
// C02: propagation never discards a solution.  Every constraint type the
// library registers x every accepted argument kind x every combination of
// starting domains, posted in one step or with the domains narrowed one by one
// between propagations; then pairs (thorough: triples) of constraints over
// shared variables.  Oracle: enumeration of all assignments.
#include "constraint_lib.hh"
using namespace lib;

struct Item { int kind; size_t e, s; int d0; };
static std::vector<Item> items;
static bool quick;

static size_t prefix(char k, size_t arity) {
  size_t n = domains(k).size();
  size_t lim = quick ? (arity <= 2 ? 99 : arity == 3 ? (k == 'E' ? 12 : 20) : arity == 4 ? 8 : arity == 5 ? 5 : 4)
                     : (arity <= 2 ? 99 : arity == 3 ? 99 : arity == 4 ? 14 : arity == 5 ? 8 : 6);
  return std::min(n, lim);
}
static std::vector<D> wide(const std::string& sig) {
  std::vector<D> r;
  for (char k : sig) {
    if (k == 'I' || k == 'R') r.push_back(iv(k, NINF, PINF));
    else if (k == 'B') r.push_back(iv(k, 0, 1));
    else if (k == 'E') r.push_back(en(k, {-1, 0, 1, 2, 3}));
    else if (k == 'F') r.push_back(en(k, {-0.5, 0, 0.5, 1, 1.5, 2}));
    else r.push_back(en(k, {0, 1, 2}));
  }
  return r;
}

// per argument: the values occurring in some satisfying assignment
static bool supported(const std::vector<D>& ds, const std::vector<std::pair<Rel, std::vector<int>>>& rels, std::vector<std::set<double>>& sup, Vals& witness) {
  size_t n = ds.size(); std::vector<std::vector<double>> g(n); size_t total = 1;
  for (size_t i = 0; i < n; ++i) { g[i] = grid(ds[i], n > 4 ? 4 : 6, 0.5); total *= g[i].size(); }
  sup.assign(n, std::set<double>()); std::vector<size_t> ix(n, 0); Vals v(n), a;
  bool any = false;
  std::vector<std::vector<char>> seen(n); for (size_t i = 0; i < n; ++i) seen[i].assign(g[i].size(), 0);
  for (size_t t = 0; t < total; ++t) {
    for (size_t i = 0; i < n; ++i) v[i] = g[i][ix[i]];
    bool ok = true;
    for (auto& r : rels) { a.clear(); for (int i : r.second) a.push_back(v[i]); if (r.first(a) != 1) { ok = false; break; } }
    if (ok) { if (!any) witness = v; any = true; for (size_t i = 0; i < n; ++i) seen[i][ix[i]] = 1; }
    for (size_t i = 0; i < n; ++i) { if (++ix[i] < g[i].size()) break; ix[i] = 0; }
  }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < g[i].size(); ++j) if (seen[i][j]) sup[i].insert(g[i][j]);
  return any;
}
static std::string show(const std::vector<D>& ds) { std::string s; for (auto& d : ds) s += (s.empty() ? "" : " ") + str(d); return s; }

static void judge(mc::Ctx& c, Net& net, bool ok, const std::vector<D>& ds, const std::vector<std::set<double>>& sup, bool any, const Vals& w, const std::string& sig, const std::string& what) {
  c.evals();
  if (!any) return;
  if (!ok || net.ce->provenInconsistent()) {
    std::ostringstream o; o << what << " over " << show(ds) << ": reported inconsistent, but ";
    for (double x : w) o << x << " "; o << "satisfies it";
    c.violation("inconsistent:" + sig, o.str());
    return;
  }
  for (size_t i = 0; i < ds.size(); ++i)
    for (double x : sup[i]) if (!net.has(i, x)) {
      std::ostringstream o; o << what << " over " << show(ds) << ": argument " << i << " lost the supported value " << x << " (left " << net.dom(i) << ")";
      c.violation("lost:" + sig, o.str());
      return;
    }
}

// memberImply(a, b, C, D): C and D are sets, given by their domains; b in C
// requires a in D.  The sets must not change while it is posted, so only the
// direct mode applies.
static const std::vector<D>* setArgs;
static int memberRel(const Vals& v) { return int(!contains((*setArgs)[2], v[1]) || contains((*setArgs)[3], v[0])); }

static CESchemaId ces;
// order: -1 all at once; otherwise permutation number of the narrowing order
static void single(mc::Ctx& c, const Entry& e, const std::string& sig, const std::vector<int>& di, int mode) {
  std::vector<D> ds; for (size_t i = 0; i < sig.size(); ++i) ds.push_back(domains(sig[i])[di[i]]);
  std::vector<int> scope; for (size_t i = 0; i < sig.size(); ++i) scope.push_back(i);
  c.begin(std::string(e.name) + "/" + sig + "|" + mc::join(di) + "|" + std::to_string(mode));
  std::vector<std::set<double>> sup; Vals w;
  static std::string lastKey; static std::vector<std::set<double>> lastSup; static Vals lastW; static bool lastAny;
  std::string key = std::string(e.name) + sig + mc::join(di);
  if (key != lastKey) { setArgs = &ds; lastAny = supported(ds, {{!strcmp(e.name, "memberImply") ? memberRel : e.rel, scope}}, lastSup, lastW); lastKey = key; }
  std::string name = std::string(e.name) + "/" + sig;
  try {
    Net* np = new Net(ces); Net& net = *np;
    bool ok = true;
    if (mode < 0) {
      for (auto& d : ds) net.var(d);
      net.post(e.name, scope);
      ok = net.ce->propagate();
    } else {
      std::vector<D> wd = wide(sig);
      for (auto& d : wd) net.var(d);
      net.post(e.name, scope);
      ok = net.ce->propagate();
      std::vector<int> ord = scope; for (int k = 0; k < mode; ++k) std::next_permutation(ord.begin(), ord.end());
      for (int i : ord) if (ok) {
        // narrowing below a domain already reduced is the caller's right only while they meet
        Domain* nd = Net::make(ds[i]); if (nd->isOpen()) nd->close();
        bool meets = net.vars[i]->lastDomain().intersects(*nd);
        delete nd;
        if (!meets) { ok = false; break; }
        net.restrict(i, ds[i]);
        ok = net.ce->propagate();
      }
    }
    c.transitions(); c.trace();
    judge(c, net, ok, ds, lastSup, lastAny, lastW, name, name + (mode < 0 ? "" : " narrowed in order " + std::to_string(mode)));
    delete np;
  } catch (Error& x) {
    c.violation("throws:" + name, name + " over " + show(ds) + ": " + x.getMsg());
  }
}

static int orders(size_t n) { int f = 1; for (size_t i = 2; i <= n; ++i) f *= i; return f; }

static void runSingle(mc::Ctx& c, const Item& it) {
  const Entry& e = table()[it.e]; const std::string& sig = e.sigs[it.s];
  size_t n = sig.size(); std::vector<int> di(n, 0); di[0] = it.d0;
  for (;;) {
    single(c, e, sig, di, -1);
    int no = e.c02 ? orders(n) : 0;
    if (n <= 2) for (int m = 0; m < no; ++m) single(c, e, sig, di, m);
    else if (n == 3) { if (quick) { single(c, e, sig, di, 0); single(c, e, sig, di, 5); } else for (int m = 0; m < no; ++m) single(c, e, sig, di, m); }
    else if (no) { single(c, e, sig, di, 0); single(c, e, sig, di, no - 1); if (!quick) single(c, e, sig, di, no / 2); }
    size_t i = 1;
    for (; i < n; ++i) { if (++di[i] < (int)prefix(sig[i], n)) break; di[i] = 0; }
    if (i >= n) break;
  }
}

static const std::vector<std::vector<D>>& starts() {
  static std::vector<std::vector<D>> v;
  if (v.empty()) {
    std::vector<std::vector<double>> r = {{0, 2}, {-1, 1}, {1, 1}, {-2, 3}, {1, 2}, {0, 0}};
    size_t lim = quick ? 4 : 6;
    for (size_t a = 0; a < lim; ++a) for (size_t b = 0; b < lim; ++b) for (size_t c = 0; c < lim; ++c) {
      if (quick && (a == 2 && b == 2)) continue;
      v.push_back({iv('I', r[a][0], r[a][1]), iv('I', r[b][0], r[b][1]), iv('I', r[c][0], r[c][1]), iv('B', 0, 1), iv('B', 0, 1)});
      if ((a + b + c) % 3 == 0) v.push_back({iv('I', r[a][0], r[a][1]), iv('I', r[b][0], r[b][1]), iv('I', r[c][0], r[c][1]), iv('B', 1, 1), iv('B', 0, 1)});
      if ((a + b + c) % 3 == 1) v.push_back({iv('I', r[a][0], r[a][1]), iv('I', r[b][0], r[b][1]), iv('I', r[c][0], r[c][1]), iv('B', 0, 1), iv('B', 0, 0)});
    }
  }
  return v;
}
static void network(mc::Ctx& c, const std::vector<int>& ci, int st, bool incremental) {
  const std::vector<D>& ds = starts()[st];
  c.begin("net|" + mc::join(ci) + "|" + std::to_string(st) + "|" + std::to_string(incremental));
  std::vector<std::pair<Rel, std::vector<int>>> rels; std::string what, names;
  static const char* VN = "xyzbd";
  for (int i : ci) {
    const Inst& in = insts()[i]; rels.push_back({entry(in.name).rel, in.scope});
    what += (what.empty() ? "" : ", ") + std::string(in.name) + "("; for (int a : in.scope) what += VN[a]; what += ")";
    names += (names.empty() ? "" : "+") + std::string(in.name);
  }
  std::vector<std::set<double>> sup; Vals w;
  bool any = supported(ds, rels, sup, w);
  try {
    Net* np = new Net(ces); Net& net = *np; bool ok = true;
    for (auto& d : ds) net.var(d);
    for (int i : ci) { net.post(insts()[i].name, insts()[i].scope); if (incremental) { ok = net.ce->propagate(); if (!ok) break; } }
    if (ok) ok = net.ce->propagate();
    c.transitions(); c.trace();
    judge(c, net, ok, ds, sup, any, w, "net:" + names, what);
    delete np;
  } catch (Error& x) { c.violation("throws:net:" + names, what + " over " + show(ds) + ": " + x.getMsg()); }
}
static void runNet(mc::Ctx& c, const Item& it) {
  int i = it.e, n = insts().size();
  for (size_t st = 0; st < starts().size(); ++st) network(c, {i}, st, false);
  for (int j = 0; j < n; ++j) if (j != i) {
    for (size_t st = 0; st < starts().size(); ++st) { network(c, {i, j}, st, false); if (!quick) network(c, {i, j}, st, true); }
    if (!quick) for (int k = j + 1; k < n; ++k) if (k != i) for (size_t st = it.s % 7; st < starts().size(); st += 7) network(c, {i, j, k}, st, true);
  }
}

static void item(mc::Ctx& c, const Item& it) { if (it.kind == 0) runSingle(c, it); else runNet(c, it); }

int main(int argc, char** argv) {
  mc::Runner r("C02", argc, argv); quick = r.quick;
  Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings();
  LibEngine eng; ces = eng.schema(); labels();
  if (r.replaying) r.replay([](mc::Ctx& c, const std::string& s) {
    size_t a = s.find('|'), b = s.find('|', a + 1); std::string h = s.substr(0, a);
    if (h == "net") { size_t d = s.find('|', b + 1); network(c, mc::split(s.substr(a + 1, b - a - 1)), atoi(s.substr(b + 1, d - b - 1).c_str()), s[d + 1] == '1'); return; }
    size_t sl = h.find('/'); single(c, entry(h.substr(0, sl)), h.substr(sl + 1), mc::split(s.substr(a + 1, b - a - 1)), atoi(s.substr(b + 1).c_str()));
  });
  for (size_t e = 0; e < table().size(); ++e) if (table()[e].c02 || !strcmp(table()[e].name, "memberImply"))
    for (size_t s = 0; s < table()[e].sigs.size(); ++s)
      for (size_t d = 0; d < prefix(table()[e].sigs[s][0], table()[e].sigs[s].size()); ++d) items.push_back({0, e, s, (int)d});
  for (size_t i = 0; i < insts().size(); ++i) { if (quick) items.push_back({1, i, 0, 0}); else for (size_t p = 0; p < 7; ++p) items.push_back({1, i, p, 0}); }
  r.parallel(items.size(), [](size_t i, mc::Ctx& c) { item(c, items[i]); });
  // a type registered by the library but absent from the table is not covered
  r.rule = "every constraint type of the library x accepted argument kinds x starting domains (direct and narrowed in several orders), and all ordered pairs of " + std::to_string(insts().size()) + " instances over shared variables; states are counted per evaluated final network";
  r.sh->states = r.sh->evals.load();
  r.sample("addEq/IIR|0,1,2|-1: post addEq on int [0,2], int [-1,1], real [0.5,0.5] and propagate");
  r.sample("net|6,15|3|0: addEq(x,y,z) and condEq(b,x,y) over start 3");
  r.assumptions = {"real-valued arguments are checked on a grid of step 0.5, integer ones on every value within [-6,6]", "lockCT, UNARY and rand are excluded (their effect is by design not a relation on values)"};
  return r.finish();
}
