// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork
// C06 / C07: every history of timepoint and constraint operations on the real
// TemporalNetwork up to a depth, against Floyd-Warshall over the constraints
// in force.  Stateless tree search to depth D1, then explicit-state search
// (the key covers bounds, potentials, edge lists and pending flags) to D2.
#include "mc.hh"
#include "Error.hh"
#include "TemporalNetwork.hh"
#include "TemporalNetworkDefs.hh"
#include "DistanceGraph.hh"
using namespace EUROPA;

#ifndef PID
#define PID "C06"
#endif
static const bool NOGOOD = std::string(PID) == "C07";

static const long INF = 1000000000L;
struct Range { long lb, ub; };
static std::vector<Range> RANGES;
static int MAXTP;            // timepoints besides the origin
static int MAXC;             // constraints in force at once

struct Cons { int s, t; long lb, ub; bool live; TemporalConstraint* h; };

// Kinds of operation; an op is an int: kind*10000 + a*1000 + b*100 + c
enum { ADDC = 0, REMC = 1, ADDTP = 2, DELTP = 3, NARROW = 4, QUERY = 5, RESET = 6 };
static int mk(int k, int a = 0, int b = 0, int c = 0) { return k * 10000 + a * 1000 + b * 100 + c; }

// The abstract state: which timepoints live, which constraints are in force.
struct Abs {
  std::vector<int> tp;                 // 1 live, 0 dead (index 0 is the origin)
  std::vector<Cons> cs;
  Abs() : tp(1, 1) {}
  std::vector<int> live() const { std::vector<int> r; for (size_t i = 0; i < tp.size(); ++i) if (tp[i]) r.push_back(i); return r; }
  std::vector<int> liveC() const { std::vector<int> r; for (size_t i = 0; i < cs.size(); ++i) if (cs[i].live) r.push_back(i); return r; }
  // operands are positions among the live ones, so that histories are dense
  std::vector<int> ops(bool queries) const {
    std::vector<int> r, l = live(), c = liveC();
    int n = l.size();
    if ((int)c.size() < MAXC)
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && !(i > 0 && j == 0))
        for (size_t k = 0; k < RANGES.size(); ++k) r.push_back(mk(ADDC, i, j, k));
    for (size_t k = 0; k < c.size(); ++k) r.push_back(mk(REMC, 0, 0, k));
    if (n - 1 < MAXTP) r.push_back(mk(ADDTP));
    for (int i = 1; i < n; ++i) {
      bool used = false;
      for (int k : c) if (cs[k].s == l[i] || cs[k].t == l[i]) used = true;
      if (!used) r.push_back(mk(DELTP, i));
    }
    for (size_t k = 0; k < c.size(); ++k) for (int v = 0; v < 3; ++v) {
      long lb, ub; if (narrowed(cs[c[k]], v, lb, ub)) r.push_back(mk(NARROW, v, 0, k));
    }
    if (queries) { r.push_back(mk(QUERY)); r.push_back(mk(RESET)); }
    return r;
  }
  static bool narrowed(const Cons& c, int v, long& lb, long& ub) {
    lb = c.lb; ub = c.ub;
    if (v == 0) { if (lb <= -INF) lb = (ub >= INF ? 1 : ub - 1); else if (lb < ub) lb = lb + 1; else return false; }
    if (v == 1) { if (ub >= INF) ub = (lb <= -INF ? 1 : lb + 1); else if (lb < ub) ub = ub - 1; else return false; }
    if (v == 2) { if (lb <= -INF || ub >= INF || lb == ub) return false; ub = lb; }
    return lb <= ub;
  }
  void apply(int op) {
    int k = op / 10000, a = op / 1000 % 10, b = op / 100 % 10, c = op % 100;
    std::vector<int> l = live(), lc = liveC();
    if (k == ADDC) cs.push_back({l[a], l[b], RANGES[c].lb, RANGES[c].ub, true, 0});
    else if (k == REMC) cs[lc[c]].live = false;
    else if (k == ADDTP) tp.push_back(1);
    else if (k == DELTP) tp[l[a]] = 0;
    else if (k == NARROW) { long lb, ub; narrowed(cs[lc[c]], a, lb, ub); cs[lc[c]].lb = lb; cs[lc[c]].ub = ub; }
  }
};

static std::string opName(const Abs& a, int op) {
  int k = op / 10000, x = op / 1000 % 10, y = op / 100 % 10, c = op % 100;
  std::vector<int> l = a.live(), lc = a.liveC(); std::ostringstream o;
  if (k == ADDC) o << "add(t" << l[x] << "->t" << l[y] << "[" << RANGES[c].lb << "," << RANGES[c].ub << "])";
  else if (k == REMC) o << "remove(c" << lc[c] << ")";
  else if (k == ADDTP) o << "addTimepoint(t" << a.tp.size() << ")";
  else if (k == DELTP) o << "deleteTimepoint(t" << l[x] << ")";
  else if (k == NARROW) { long lb, ub; Abs::narrowed(a.cs[lc[c]], x, lb, ub); o << "narrow(c" << lc[c] << "[" << lb << "," << ub << "])"; }
  else if (k == QUERY) o << "query"; else o << "resetUpdated";
  return o.str();
}
static std::string describe(const std::vector<int>& h) {
  Abs a; std::string s;
  for (int op : h) { s += opName(a, op) + "; "; a.apply(op); }
  return s;
}

static Time ext(long v) { return v >= INF ? (Time)POS_INFINITY : v <= -INF ? (Time)NEG_INFINITY : (Time)v; }
static long in(Time t) { return t >= POS_INFINITY ? INF : t <= NEG_INFINITY ? -INF : (long)t; }

struct Ref {   // Floyd-Warshall over everything in force
  std::vector<int> l; std::vector<std::vector<long>> d; bool consistent;
  Ref(const Abs& a) : l(a.live()), consistent(true) {
    int n = a.tp.size();
    d.assign(n, std::vector<long>(n, INF));
    for (int i = 0; i < n; ++i) d[i][i] = 0;
    for (auto& c : a.cs) if (c.live) {
      if (c.ub < INF) d[c.s][c.t] = std::min(d[c.s][c.t], c.ub);
      if (c.lb > -INF) d[c.t][c.s] = std::min(d[c.t][c.s], -c.lb);
    }
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    for (int i = 0; i < n; ++i) if (d[i][i] < 0) consistent = false;
  }
};

struct Real {
  TemporalNetwork* net; std::vector<Timepoint*> tp; Abs a;
  std::map<int, std::pair<Time, Time>> base;    // bounds at the last resetUpdated
  bool baseValid;
  Real() : net(new TemporalNetwork()), baseValid(false) { tp.push_back(&net->getOrigin()); }
  ~Real() { delete net; }
  void apply(int op) {
    int k = op / 10000, x = op / 1000 % 10, y = op / 100 % 10, c = op % 100;
    std::vector<int> l = a.live(), lc = a.liveC();
    if (k == ADDC) {
      TemporalConstraint* h = net->addTemporalConstraint(*tp[l[x]], *tp[l[y]], ext(RANGES[c].lb), ext(RANGES[c].ub));
      a.apply(op); a.cs.back().h = h; return;
    }
    if (k == REMC) net->removeTemporalConstraint(*a.cs[lc[c]].h);
    else if (k == ADDTP) tp.push_back(&net->addTimepoint());
    else if (k == DELTP) net->deleteTimepoint(*tp[l[x]]);
    else if (k == NARROW) { long lb, ub; Abs::narrowed(a.cs[lc[c]], x, lb, ub); net->narrowTemporalConstraint(*a.cs[lc[c]].h, ext(lb), ext(ub)); }
    else if (k == QUERY) query();
    else if (k == RESET) net->resetUpdatedTimepoints();
    a.apply(op);
  }
  void query() {
    std::vector<int> l = a.live();
    if (!net->propagate()) return;
    std::vector<Timepoint*> all; for (int i : l) all.push_back(tp[i]);
    std::vector<Time> lbs, ubs;
    net->calcDistanceBounds(*tp[l.back()], all, lbs, ubs);
    if (l.size() > 1) { Time a1, b1; net->calcDistanceBounds(*tp[l[0]], *tp[l[1]], a1, b1, true); net->isDistanceLessThan(*tp[l[1]], *tp[l.back()], 0); }
    net->calcDistanceSigns(*tp[l[0]], all, lbs, ubs);
  }
#ifdef MC_PUBLIC_ONLY
  std::string key() { static int n = 0; return std::to_string(getpid()) + "." + std::to_string(++n); }  // no merging
#else
  std::string key() {
    std::ostringstream o; std::map<const void*, int> id; std::vector<int> l = a.live();
    for (size_t i = 0; i < l.size(); ++i) id[static_cast<Dnode*>(tp[l[i]])] = i;
    o << net->consistent << net->hasDeletions << "|";
    for (int i : l) {
      Timepoint* t = tp[i];
      o << t->lowerBound << "," << t->upperBound << "," << t->potential << "," << (t->ringLeader ? id.count(static_cast<Dnode*>(t->ringLeader)) ? id[static_cast<Dnode*>(t->ringLeader)] : 99 : -1) << ":";
      for (int e = 0; e < t->outCount; ++e) o << id[&t->outArray[e]->to] << "/" << t->outArray[e]->length << " ";
      o << "<"; for (int e = 0; e < t->inCount; ++e) o << id[&t->inArray[e]->from] << " ";
      o << ">" << net->m_updatedTimepoints.count(t) << ";";
    }
    for (auto& c : a.cs) if (c.live) o << "c" << c.s - 0 << "-" << c.t << ":" << c.lb << "," << c.ub << " ";
    return o.str();
  }
#endif
};

// canonical text of the abstract part with dense numbering
static std::string absKey(const Abs& a) {
  std::vector<int> l = a.live(); std::map<int, int> d; for (size_t i = 0; i < l.size(); ++i) d[l[i]] = i;
  std::ostringstream o; o << l.size() << "!";
  for (auto& c : a.cs) if (c.live) o << d[c.s] << d[c.t] << ":" << c.lb << "," << c.ub << " ";
  return o.str();
}

static void fail(mc::Ctx& c, const std::string& what, const std::vector<int>& h, const std::string& msg) {
  c.violation(what, msg + " after: " + describe(h));
}

static void check(mc::Ctx& c, Real& r, const std::vector<int>& h) {
  Ref ref(r.a);
  std::vector<int>& l = ref.l;
  bool ok = r.net->propagate();
  if (ok != ref.consistent) {
    fail(c, ok ? "accepts-inconsistent" : "rejects-consistent", h, ok ? "propagate reports consistent, a negative cycle exists" : "propagate reports inconsistent, no negative cycle exists");
    return;
  }
  if (NOGOOD) {
    if (ok) {
      if (!r.net->getEdgeNogoodList().empty()) fail(c, "nogood-when-consistent", h, "an explanation is offered for a consistent network");
      return;
    }
    c.extra(0);
    std::list<Dedge*> ng = r.net->getEdgeNogoodList();
    if (ng.empty()) { fail(c, "nogood-empty", h, "inconsistent but no explanation"); return; }
    std::map<const void*, int> id; for (int i : l) id[static_cast<Dnode*>(r.tp[i])] = i;
    long total = 0; std::ostringstream txt; std::vector<std::pair<int, int>> arcs;
    for (Dedge* e : ng) {
      bool livee = false;
#ifdef MC_PUBLIC_ONLY
      livee = true;
#else
      for (auto& p : r.net->edges) if (p.get() == e) livee = true;
#endif
      if (!livee) { fail(c, "nogood-dead-edge", h, "the explanation names an edge that is not in the network"); return; }
      if (!id.count(&e->from) || !id.count(&e->to)) { fail(c, "nogood-dead-node", h, "the explanation names a deleted timepoint"); return; }
      int f = id[&e->from], t = id[&e->to]; long len = e->length;
      txt << "t" << f << "->t" << t << ":" << len << " ";
      total += len; arcs.push_back({f, t});
      bool found = false;
      for (auto& k : r.a.cs) if (k.live && ((k.s == f && k.t == t && k.ub == len) || (k.s == t && k.t == f && -k.lb == len))) found = true;
      if (!found) { fail(c, "nogood-unfounded", h, "edge " + txt.str() + " of the explanation matches no constraint in force"); return; }
    }
    if (total >= 0) { fail(c, "nogood-nonnegative", h, "the explanation " + txt.str() + " has length " + std::to_string(total)); return; }
    // listed backwards: each arc's source is the next arc's target
    for (size_t i = 0; i < arcs.size(); ++i)
      if (arcs[i].first != arcs[(i + 1) % arcs.size()].second) { fail(c, "nogood-not-cycle", h, "the explanation " + txt.str() + " is not a closed cycle"); return; }
    std::list<Timepoint*> why = r.net->getInconsistencyReason();
    if (why.size() != ng.size()) fail(c, "reason-size", h, "getInconsistencyReason disagrees with the edges");
    size_t i = 0;
    for (Timepoint* t : why) { if (i < arcs.size() && id[static_cast<Dnode*>(t)] != arcs[i].second) { fail(c, "reason-nodes", h, "getInconsistencyReason names other timepoints"); break; } ++i; }
    c.state(absKey(r.a) + "#" + txt.str());
    return;
  }
  std::ostringstream obs; obs << absKey(r.a) << ok;
  for (int i : l) {
    Time lb, ub; r.net->getTimepointBounds(*r.tp[i], lb, ub);
    long elb = ref.d[i][0] >= INF ? -INF : -ref.d[i][0], eub = ref.d[0][i];
    if (!ok) { if (lb <= ub) fail(c, "bounds-nonempty", h, "inconsistent network reports non-empty bounds"); continue; }
    if (in(lb) != elb || in(ub) != eub) {
      std::ostringstream m; m << "t" << i << " is [" << in(lb) << "," << in(ub) << "], exact bounds are [" << elb << "," << eub << "]";
      fail(c, "bounds", h, m.str());
    }
    obs << in(lb) << "," << in(ub) << ";";
  }
  c.state(obs.str());
  if (!ok) return;
  for (int i : l) {
    std::vector<Timepoint*> all; for (int j : l) all.push_back(r.tp[j]);
    std::vector<Time> lbs, ubs, sl, su;
    r.net->calcDistanceBounds(*r.tp[i], all, lbs, ubs);
    for (size_t q = 0; q < l.size(); ++q) {
      int j = l[q]; long eub = ref.d[i][j], elb = ref.d[j][i] >= INF ? -INF : -ref.d[j][i];
      if (in(lbs[q]) != elb || in(ubs[q]) != eub) {
        std::ostringstream m; m << "distances from t" << i << " to t" << j << " are [" << in(lbs[q]) << "," << in(ubs[q]) << "], exact are [" << elb << "," << eub << "]";
        fail(c, "distance-multi", h, m.str());
      }
      if (i != j) {
        Time lb, ub; r.net->calcDistanceBounds(*r.tp[i], *r.tp[j], lb, ub, true);
        if (in(lb) != elb || in(ub) != eub) {
          std::ostringstream m; m << "distance from t" << i << " to t" << j << " is [" << in(lb) << "," << in(ub) << "], exact is [" << elb << "," << eub << "]";
          fail(c, "distance", h, m.str());
        }
        r.net->calcDistanceBounds(*r.tp[i], *r.tp[j], lb, ub, false);
        if (in(lb) > elb || in(ub) < eub) fail(c, "distance-inexact", h, "the quick distance estimate excludes a possible distance");
        for (long b = -3; b <= 4; ++b) {
          bool less = r.net->isDistanceLessThan(*r.tp[i], *r.tp[j], b);
          if (less && !(eub < b)) {
            std::ostringstream m; m << "distance t" << i << "->t" << j << " < " << b << " is claimed, it is " << eub;
            fail(c, "less-than-wrong", h, m.str());
          }
          // complete whenever one constraint alone implies it
          bool direct = false;
          for (auto& k : r.a.cs) if (k.live && ((k.s == i && k.t == j && k.ub < b) || (k.s == j && k.t == i && k.lb > -INF && -k.lb < b))) direct = true;
          if (!less && direct && b != 1) fail(c, "less-than-missed", h, "a distance implied by one constraint is not recognised");
          if (less != (eub < b)) c.extra(1);
          if (eub < b && !r.net->isDistancePossiblyLessThan(*r.tp[i], *r.tp[j], b)) fail(c, "possibly-less", h, "isDistancePossiblyLessThan denies a distance that holds");
        }
      }
    }
    r.net->calcDistanceSigns(*r.tp[i], all, sl, su);
    for (size_t q = 0; q < l.size(); ++q) {
      int j = l[q]; long eub = ref.d[i][j], elb = ref.d[j][i] >= INF ? -INF : -ref.d[j][i];
      auto sg = [](long v) { return v < 0 ? -1 : v > 0; };
      if (i != j && (sg(in(sl[q])) != sg(elb) || sg(in(su[q])) != sg(eub))) {
        std::ostringstream m; m << "signs of the distance t" << i << "->t" << j << ": got [" << in(sl[q]) << "," << in(su[q]) << "], exact is [" << elb << "," << eub << "]";
        fail(c, "distance-signs", h, m.str());
      }
    }
  }
  // queries must not have disturbed the bounds
  for (int i : l) {
    Time lb, ub; r.net->getTimepointBounds(*r.tp[i], lb, ub);
    long elb = ref.d[i][0] >= INF ? -INF : -ref.d[i][0], eub = ref.d[0][i];
    if (in(lb) != elb || in(ub) != eub) fail(c, "bounds-after-query", h, "distance queries changed the bounds of t" + std::to_string(i));
  }
}

static void config(int cfg) {
  RANGES.clear();
  if (cfg == 0) { MAXTP = 2; MAXC = 4; RANGES = {{1, 2}, {0, 0}, {2, INF}, {-INF, -1}, {-1, 3}}; }
  else if (cfg == 1) { MAXTP = 3; MAXC = 5; RANGES = {{1, 2}, {-INF, -1}, {0, 0}}; }
  else if (cfg == 2) { MAXTP = 3; MAXC = 6; RANGES = {{1, 3}, {-2, 0}}; }
  else { MAXTP = 4; MAXC = 7; RANGES = {{1, INF}, {-1, 2}}; }
}

static bool run(mc::Ctx& c, int cfg, const std::vector<int>& pre, const std::vector<int>& h, std::string* key) {
  (void)cfg;
  std::vector<int> all(pre); all.insert(all.end(), h.begin(), h.end());
  c.begin("net|" + std::to_string(cfg) + "|" + mc::join(all) + "| " + describe(all));
  c.transitions(1); c.trace();
  Real* r = new Real();
  try {
    for (int op : all) r->apply(op);
    if (key) *key = r->key();
    check(c, *r, all);
    delete r;
    return true;
  } catch (Error& e) {
    fail(c, "internal-error:" + e.getFile().substr(e.getFile().rfind('/') + 1) + ":" + e.getMsg().substr(0, 60), all, "internal check failed: " + e.getMsg());
  }
  return false;
}

static std::vector<int> setup(int cfg) { (void)cfg; std::vector<int> p; for (int i = 0; i < MAXTP; ++i) p.push_back(mk(ADDTP)); return p; }

static void dfs(mc::Ctx& c, int cfg, const std::vector<int>& pre, std::vector<int>& h, Abs& a, int depth) {
  run(c, cfg, pre, h, 0);
  if (!depth || c.timeup()) return;
  for (int op : a.ops(true)) {
    Abs b = a; b.apply(op); h.push_back(op);
    dfs(c, cfg, pre, h, b, depth - 1);
    h.pop_back();
  }
}

int main(int argc, char** argv) {
  Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings();
  mc::Runner R(PID, argc, argv);
  if (R.replaying) R.replay([](mc::Ctx& c, const std::string& s) {
    size_t a = s.find('|'), b = s.find('|', a + 1), e = s.find('|', b + 1);
    int cfg = atoi(s.substr(a + 1).c_str()); config(cfg);
    run(c, cfg, {}, mc::split(s.substr(b + 1, e - b - 1)), 0);
  });
  R.extraCount(0, NOGOOD ? "inconsistent_networks_explained" : "");
  R.extraCount(1, NOGOOD ? "" : "approximate_answers_seen");
  std::vector<std::pair<int, int>> tree = R.quick ? std::vector<std::pair<int, int>>{{0, 4}, {1, 4}, {2, 4}, {3, 2}} : std::vector<std::pair<int, int>>{{0, 5}, {1, 4}, {2, 5}, {3, 3}};
  std::vector<std::pair<int, int>> bfs = R.quick ? std::vector<std::pair<int, int>>{{0, 5}, {1, 4}, {2, 5}} : std::vector<std::pair<int, int>>{{0, 5}, {1, 5}, {2, 6}, {3, 4}};
  std::vector<std::string> detail;
  for (auto& t : tree) {
    config(t.first);
    std::vector<int> pre = setup(t.first); Abs base; for (int op : pre) base.apply(op);
    std::vector<std::vector<int>> items; items.push_back({});
    for (int o1 : base.ops(true)) { Abs b = base; b.apply(o1); for (int o2 : b.ops(true)) items.push_back({o1, o2}); }
    int d = t.second, cfg = t.first;
    R.parallel(items.size(), [&](size_t i, mc::Ctx& c) {
      std::vector<int> h = items[i]; Abs a = base; for (int op : h) a.apply(op);
      if (h.empty()) { for (int o1 : base.ops(true)) { std::vector<int> g{o1}; run(c, cfg, pre, g, 0); } run(c, cfg, pre, h, 0); return; }
      dfs(c, cfg, pre, h, a, d - 2);
    });
    std::cerr << "tree " << cfg << " done at " << mc::now() - R.t0 << " traces " << R.sh->traces << std::endl;
    detail.push_back("tree cfg" + std::to_string(cfg) + " depth " + std::to_string(d));
  }
  // explicit-state search
  for (auto& t : bfs) {
    config(t.first); int cfg = t.first;
    std::vector<int> pre = setup(cfg); Abs base; for (int op : pre) base.apply(op);
    std::vector<std::vector<int>> frontier{{}}; std::set<uint64_t> seen;
    int d = 0; size_t total = 0;
    for (; d < t.second && !frontier.empty() && !R.timeup(); ++d) {
      std::string od = R.dir + "/b"; size_t nch = std::min<size_t>(frontier.size(), 512);
      R.parallel(nch, [&](size_t k, mc::Ctx& c) {
        std::ofstream o((od + std::to_string(k)).c_str(), std::ios::binary);
        for (size_t i = k; i < frontier.size(); i += nch) {
          Abs a = base; for (int op : frontier[i]) a.apply(op);
          for (int op : a.ops(true)) {
            std::vector<int> h(frontier[i]); h.push_back(op); std::string key;
            if (run(c, cfg, pre, h, &key)) { uint64_t x = mc::hash64(key); o.write((char*)&x, 8); int n = h.size(); o.write((char*)&n, 4); o.write((char*)h.data(), 4 * n); }
            if (c.timeup()) return;
          }
        }
      });
      std::vector<std::vector<int>> next;
      for (size_t k = 0; k < nch; ++k) {
        std::string f = od + std::to_string(k); std::ifstream in(f.c_str(), std::ios::binary); uint64_t x; int n;
        while (in.read((char*)&x, 8) && in.read((char*)&n, 4)) { std::vector<int> h(n); in.read((char*)h.data(), 4 * n); if (seen.insert(x).second) next.push_back(h); }
        in.close(); unlink(f.c_str());
      }
      total += next.size(); frontier.swap(next);
    }
    if (R.timeup()) R.exhaustive = false;
    std::cerr << "graph " << cfg << " done at " << mc::now() - R.t0 << " traces " << R.sh->traces << std::endl;
    detail.push_back("graph cfg" + std::to_string(cfg) + " depth " + std::to_string(d) + ": " + std::to_string(total) + " distinct full network states");
  }
  for (auto& s : detail) R.sample(s);
  config(0); R.sample(describe({mk(ADDTP), mk(ADDTP), mk(ADDC, 0, 1, 0), mk(ADDC, 1, 2, 3), mk(REMC, 0, 0, 0), mk(QUERY)}));
  R.rule = "each trace is one history of operations on a fresh network, compared with Floyd-Warshall over the constraints in force; states counts distinct (constraints, verdict, bounds) seen";
  R.assumptions = {"timepoints are deleted only when no constraint mentions them, as the temporal propagator does",
                   "isDistanceLessThan may miss an implied distance through several constraints (documented approximation), never the reverse"};
  return R.finish();
}
