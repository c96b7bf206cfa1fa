// modules: Utils,TinyXml,ConstraintEngine
// C04: the network's state does not depend on the path taken to it.
#include "ce_history.hh"
using namespace hist;
static CESchemaId ces; static bool quick;
struct Item { std::vector<int> menu; int depth; bool deact, query, single; };
static std::vector<Item> items;

// Brings the network to quiescence and compares it with a fresh one.
static bool compare(mc::Ctx& c, HEngine& e, const std::vector<Op>& h) {
  if (e.anyDeactivated()) return true;   // what a deactivated constraint leaves behind is the client's business
  bool ok = e.net->ce->propagate();
  c.evals(); c.trace();
  Verdict f = fresh(ces, e, {});
  std::string what;
  if (ok != f.ok) what = std::string("reported ") + (ok ? "consistent" : "inconsistent") + " but a fresh engine with the same operations in force is " + (f.ok ? "consistent" : "inconsistent");
  else if (ok != e.net->ce->constraintConsistent() || ok == e.net->ce->provenInconsistent() || e.net->ce->pending()) what = "propagate's result disagrees with constraintConsistent/provenInconsistent/pending";
  else if (ok && e.doms() != f.doms) what = "derived domains " + e.doms() + "differ from those of a fresh engine: " + f.doms;
  if (what.empty()) return true;
  c.violation((ok != f.ok ? "verdict:" : "domains:") + sigOf(e.menu), pretty(e.menu, h) + "=> " + what);
  return false;
}
static HEngine* run(const std::vector<int>& menu, const std::vector<Op>& h) { HEngine* e = new HEngine(ces, menu, false); for (auto& p : h) e->apply(p); return e; }

static void explore(mc::Ctx& c, const Item& it) {
  std::vector<Op> all = ops(it.menu, it.deact, it.query, it.single);
  std::unordered_set<uint64_t> seen; std::vector<std::vector<Op>> frontier{{}};
  bool bad = false;
  for (int d = 0; d < it.depth && !bad; ++d) {
    std::vector<std::vector<Op>> next;
    for (auto& h : frontier) {
      if (c.timeup()) { c.r->sh->skipped++; return; }
      for (auto& p : all) {
        std::vector<Op> h2 = h; h2.push_back(p);
        c.begin("m" + mc::join(it.menu) + "|" + text(h2));
        try {
          HEngine* e = run(it.menu, h);
          if (!e->enabled(p)) { delete e; continue; }
          e->apply(p); c.transitions();
          std::string k = e->key();
          if (!seen.insert(mc::hash64(k)).second) { delete e; continue; }
          c.r->sh->states++;
          if (!compare(c, *e, h2)) bad = true; else if (d + 1 < it.depth) next.push_back(h2);
          delete e;
        } catch (Error& x) { c.violation("throws:" + sigOf(it.menu), pretty(it.menu, h2) + "=> throws " + x.getMsg()); bad = true; }
      }
    }
    frontier.swap(next);
  }
}

int main(int argc, char** argv) {
  mc::Runner r("C04", argc, argv); quick = r.quick;
  Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings();
  LibEngine eng; ces = eng.schema();
  if (r.replaying) r.replay([](mc::Ctx& c, const std::string& s) {
    size_t b = s.find('|'); std::vector<int> menu = mc::split(s.substr(1, b - 1)); std::vector<Op> h = parse(s.substr(b + 1));
    try { HEngine* e = run(menu, h); std::cout << pretty(menu, h) << "\n"; compare(c, *e, h); std::cout << e->doms() << "\n"; }
    catch (Error& x) { c.violation("throws", x.getMsg()); }
  });
  int n = pool().size();
  for (int i = 0; i < n; ++i) items.push_back({{i}, quick ? 5 : 7, true, true, true});
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) items.push_back({{i, j}, quick ? 4 : 5, true, (i + j) % 3 == 0, (i + j) % 3 == 1});
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) if (!quick || (i + 2 * j + 3 * k) % 11 == 0) items.push_back({{i, j, k}, quick ? 4 : 4, false, false, (i + j + k) % 3 == 0});
  r.parallel(items.size(), [](size_t i, mc::Ctx& c) { explore(c, items[i]); });
  r.rule = "breadth-first over post, retract, specify, reset, restrictBaseDomain, deactivate/reactivate, derivedDomain and propagate in any order on every set of one, two and three constraints of the pool; a state is the complete engine state (domains, agenda, flags, reference counts)";
  r.sample("m3,27|p0 p1 s0 P u0: post neq and maxf, specify x, propagate, reset x");
  r.assumptions = {"states with a deactivated constraint are not compared (the documentation leaves its earlier effect to the client), states after reactivation are"};
  return r.finish();
}
