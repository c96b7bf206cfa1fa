// modules: Utils,TinyXml,ConstraintEngine
// C05: with violations tolerated, the violated set is right and empties on repair.
#include "ce_history.hh"
using namespace hist;
static CESchemaId ces; static bool quick;
struct Item { std::vector<int> menu; int depth; bool deact, query, single; };
static std::vector<Item> items;

// A violated constraint leaves behind what it pruned before it was found out, so
// only what is not connected to one has to be exact.
static std::string untouched(HEngine& e, const std::set<int>& bad, const std::string& doms) {
  std::set<int> hit; for (int i : bad) hit.insert(pool()[e.menu[i]].scope.begin(), pool()[e.menu[i]].scope.end());
  for (bool more = !hit.empty(); more;) {
    more = false;
    for (int i : e.order) { auto& s = pool()[e.menu[i]].scope; bool t = false; for (int a : s) t |= hit.count(a) > 0; if (t) for (int a : s) more |= hit.insert(a).second; }
  }
  std::string r; std::istringstream in(doms); std::string w; bool keep = false;
  while (in >> w) { if (w.size() > 1 && w[1] == '=') { keep = true; for (int v : hit) if (vars()[v].name == w.substr(0, 1)) keep = false; } if (keep) r += w + " "; }
  return r;
}
// Brings the network to quiescence and compares it with fresh ones.
static bool compare(mc::Ctx& c, HEngine& e, const std::vector<Op>& h) {
  ConstraintEngine* ce = e.net->ce;
  bool ok = ce->propagate();
  c.evals(); c.trace();
  std::set<int> bad; for (int i : e.order) if (e.violated(i)) bad.insert(i);
  Verdict f = fresh(ces, e, {});
  std::string what; const char* kind = "verdict:";
  auto names = [&] { std::string s; for (int i : bad) s += std::string(pool()[e.menu[i]].name) + " "; return s; };
  std::set<PSConstraint*> listed; { PSList<PSConstraint*> l = ce->getAllViolations(); for (int i = 0; i < l.size(); ++i) listed.insert(l.get(i)); }
  std::set<PSConstraint*> want; for (int i : bad) for (auto& k : e.parts[i]) if (ce->isViolated(k)) want.insert(static_cast<Constraint*>(k));
  if (!ok || ce->provenInconsistent() || ce->pending()) what = "propagation does not settle although violations are tolerated";
  else if (listed != want) what = "getAllViolations disagrees with isViolated";
  else if ((ce->getViolation() > 0) != !bad.empty()) what = "violation level " + std::to_string(ce->getViolation()) + " with " + std::to_string(bad.size()) + " violated constraints";
  else if (bad.empty() && !f.ok) what = "no violation reported but a fresh engine with the same operations in force is inconsistent";
  else if (!bad.empty() && f.ok) what = "violated: " + names() + "but a fresh engine with the same operations in force is consistent";
  else {
    Verdict g = bad.empty() ? f : fresh(ces, e, bad); kind = "domains:";
    if (!g.ok) what = "violated: " + names() + "but the others are inconsistent on their own";
    else if (untouched(e, bad, e.doms()) != untouched(e, bad, g.doms)) what = "violated: " + names() + "derived domains " + e.doms() + "differ from those of a fresh engine: " + g.doms;
  }
  if (what.empty()) return true;
  c.violation(kind + sigOf(e.menu), pretty(e.menu, h) + "=> " + what);
  return false;
}
static HEngine* run(const std::vector<int>& menu, const std::vector<Op>& h) { HEngine* e = new HEngine(ces, menu, true); for (auto& p : h) e->apply(p); return e; }

static void explore(mc::Ctx& c, const Item& it) {
  std::vector<Op> all = ops(it.menu, it.deact, it.query, it.single);
  std::unordered_set<uint64_t> seen; std::vector<std::vector<Op>> frontier{{}};
  bool bad = false;
  for (int d = 0; d < it.depth && !bad; ++d) {
    std::vector<std::vector<Op>> next;
    for (auto& h : frontier) {
      if (c.timeup()) { c.r->sh->skipped++; return; }
      for (auto& p : all) {
        std::vector<Op> h2 = h; h2.push_back(p);
        c.begin("m" + mc::join(it.menu) + "|" + text(h2));
        try {
          HEngine* e = run(it.menu, h);
          if (!e->enabled(p)) { delete e; continue; }
          e->apply(p); c.transitions();
          std::string k = e->key();
          if (!seen.insert(mc::hash64(k)).second) { delete e; continue; }
          c.r->sh->states++;
          if (!compare(c, *e, h2)) bad = true; else if (d + 1 < it.depth) next.push_back(h2);
          delete e;
        } catch (Error& x) { c.violation("throws:" + sigOf(it.menu), pretty(it.menu, h2) + "=> throws " + x.getMsg()); bad = true; }
      }
    }
    frontier.swap(next);
  }
}

int main(int argc, char** argv) {
  mc::Runner r("C05", argc, argv); quick = r.quick;
  Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings();
  LibEngine eng; ces = eng.schema();
  if (r.replaying) r.replay([](mc::Ctx& c, const std::string& s) {
    size_t b = s.find('|'); std::vector<int> menu = mc::split(s.substr(1, b - 1)); std::vector<Op> h = parse(s.substr(b + 1));
    try { HEngine* e = run(menu, h); std::cout << pretty(menu, h) << "\n"; compare(c, *e, h); std::cout << e->doms() << "\n"; }
    catch (Error& x) { c.violation("throws", x.getMsg()); }
  });
  int n = pool().size();
  for (int i = 0; i < n; ++i) items.push_back({{i}, quick ? 5 : 7, false, true, true});
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) items.push_back({{i, j}, quick ? 4 : 5, false, (i + j) % 3 == 0, (i + j) % 3 == 1});
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) if (!quick || (i + 2 * j + 3 * k) % 11 == 0) items.push_back({{i, j, k}, quick ? 4 : 4, false, false, (i + j + k) % 3 == 0});
  r.parallel(items.size(), [](size_t i, mc::Ctx& c) { explore(c, items[i]); });
  r.rule = "breadth-first over post, retract, specify, reset, restrictBaseDomain, derivedDomain and propagate in any order on every set of one, two and three constraints of the pool; a state is the complete engine state (domains, agenda, flags, reference counts)";
  r.sample("m0,27|p0 p1 s0 P u0: post neq and maxf, specify x, propagate, reset x");
  r.assumptions = {"states with a deactivated constraint are not compared (the documentation leaves its earlier effect to the client), states after reactivation are"};
  return r.finish();
}
