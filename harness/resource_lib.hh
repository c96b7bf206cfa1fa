// Worlds with resources: usages (tokens or "uses" constraints) on the real
// resource classes, histories of client operations on them, and an oracle that
// enumerates every schedule the current usages allow.
#ifndef RESOURCE_LIB_HH
#define RESOURCE_LIB_HH
#define PLAN_NDDL
#define PLAN_SOLVERS
#define PLAN_RESOURCES
#include "plan_lib.hh"
#include "TemporalAdvisor.hh"
#include "Resource.hh"
#include "Profile.hh"
#include "Instant.hh"
#include "Transaction.hh"
#include "Reusable.hh"
#include "Reservoir.hh"
#include "InstantTokens.hh"
#include "DurativeTokens.hh"
#include "ProfilePropagator.hh"
#include "PSResource.hh"
#include "FlowProfile.hh"
#include "BoostFlowProfile.hh"
#include "TimetableProfile.hh"
#include "CommonDefs.hh"
namespace rs {
using namespace plan;
static const long INF = 1000000000000000L;
// kind: t time, d distance, q quantity, r resource (for "uses" constraints)
struct VD { std::string name; char kind; long lb, ub; };
struct CD { const char* name; std::vector<int> scope; };
// a token: predicate c(onsume)/p(roduce)/u(ses)/n (use of a unary resource); variables in order: time, quantity | start, duration, end, quantity
struct TD { const char* name; char pred; std::vector<int> vars; };
// N create, A activate, C cancel, D delete, M merge a onto b; o object of token a := resource b, O reset it; p/r post and retract constraint a;
// s specify variable a to b, u reset it; b narrow its base to [b,c]; P propagate; E/X enter and leave batch mode
struct Op { char k; int a; long b, c; };
struct Limits { double cap, lo, hi, prate, prod, crate, cons; };
struct World {
  char res;                       // V reservoir, U reusable, C constraint-based reusable, 1 unary
  int nres; Limits lim; std::vector<VD> vars; std::vector<TD> toks; std::vector<CD> cons; std::vector<Op> ops;
  int eager, lazy; std::vector<std::string> starts;
  bool client = false;            // usages are created by the client: active from the start
};
static const double PI = 1e300;   // stands for +inff
inline std::string opText(const Op& p) { std::string s(1, p.k); s += std::to_string(p.a); if (strchr("sMbo", p.k)) s += "." + std::to_string(p.b); if (p.k == 'b') s += "." + std::to_string(p.c); return s; }
inline std::vector<Op> parse(const std::string& t) {
  std::vector<Op> r; std::istringstream i(t); std::string x;
  while (i >> x) { Op p = {x[0], x.size() > 1 ? atoi(x.c_str() + 1) : 0, 0, 0}; size_t d = x.find('.'); if (d != std::string::npos) { p.b = atol(x.c_str() + d + 1); d = x.find('.', d + 1); if (d != std::string::npos) p.c = atol(x.c_str() + d + 1); } r.push_back(p); }
  return r;
}
inline std::string pretty(const World& w, const std::vector<Op>& h) {
  std::ostringstream o; auto cn = [&](int i) { std::string s = std::string(w.cons[i].name) + "("; for (int a : w.cons[i].scope) s += std::string(s.back() == '(' ? "" : ",") + w.vars[a].name; return s + ")"; };
  for (auto& p : h) switch (p.k) {
    case 'p': o << "post " << cn(p.a) << "; "; break; case 'r': o << "retract " << cn(p.a) << "; "; break;
    case 's': o << "specify " << w.vars[p.a].name << "=" << p.b << "; "; break; case 'u': o << "reset " << w.vars[p.a].name << "; "; break;
    case 'b': o << "restrict " << w.vars[p.a].name << " to [" << p.b << "," << p.c << "]; "; break;
    case 'A': o << "activate " << w.toks[p.a].name << "; "; break; case 'C': o << "cancel " << w.toks[p.a].name << "; "; break;
    case 'D': o << "delete " << w.toks[p.a].name << "; "; break; case 'M': o << "merge " << w.toks[p.a].name << " onto " << w.toks[p.b].name << "; "; break;
    case 'o': o << w.toks[p.a].name << " on resource " << p.b << "; "; break; case 'O': o << w.toks[p.a].name << " on any resource; "; break;
    case 'P': o << "propagate; "; break; case 'E': o << "enter batch mode; "; break; case 'X': o << "leave batch mode; "; break;
  }
  return o.str();
}
struct Abs {
  const World& w; std::vector<long> lb, ub, spec; std::vector<char> isSpec, based, posted, act, dead; std::vector<int> merged, on; bool batch;
  Abs(const World& w_) : w(w_), spec(w.vars.size(), 0), isSpec(w.vars.size(), 0), based(w.vars.size(), 0), posted(w.cons.size(), 0), act(w.toks.size(), 0), dead(w.toks.size(), w_.client), merged(w.toks.size(), -1), on(w.toks.size(), w.nres == 1 ? 0 : -1), batch(false) { for (auto& v : w.vars) { lb.push_back(v.lb); ub.push_back(v.ub); } }
  void apply(const Op& p) {
    switch (p.k) {
      case 'p': posted[p.a] = 1; break; case 'r': posted[p.a] = 0; break;
      case 's': isSpec[p.a] = 1; spec[p.a] = p.b; break; case 'u': isSpec[p.a] = 0; break;
      case 'b': based[p.a] = 1; lb[p.a] = std::max(lb[p.a], p.b); ub[p.a] = std::min(ub[p.a], p.c); break;
      case 'D': dead[p.a] = 1; on[p.a] = w.nres == 1 ? 0 : -1; for (int v : w.toks[p.a].vars) { isSpec[v] = based[v] = 0; lb[v] = w.vars[v].lb; ub[v] = w.vars[v].ub; } break;
      case 'N': dead[p.a] = 0; act[p.a] = 1; break;
      case 'A': act[p.a] = 1; break; case 'M': merged[p.a] = p.b; break;
      case 'C': if (merged[p.a] >= 0) merged[p.a] = -1; else { act[p.a] = 0; for (int& m : merged) if (m == p.a) m = -1; } break;
      case 'o': on[p.a] = p.b; break; case 'O': on[p.a] = -1; break;
      case 'E': batch = true; break; case 'X': batch = false; break;
    }
  }
  int tokOf(int v) const { for (size_t t = 0; t < w.toks.size(); ++t) for (int x : w.toks[t].vars) if (x == v) return t; return -1; }
  bool gone(int v) const { int t = tokOf(v); return t >= 0 && dead[t]; }
  int at(int v) const { int t = tokOf(v); if (t < 0 || merged[t] < 0) return v; for (size_t i = 0; i < w.toks[t].vars.size(); ++i) if (w.toks[t].vars[i] == v) return w.toks[merged[t]].vars[i]; return v; }
  int objOf(int t) const { int m = merged[t] >= 0 ? merged[t] : t; if (on[m] >= 0) return on[m]; for (size_t o = 0; o < w.toks.size(); ++o) if (merged[o] == m && on[o] >= 0) return on[o]; return -1; }
  std::string text() const { std::ostringstream o; for (size_t i = 0; i < w.vars.size(); ++i) o << lb[i] << "," << ub[i] << (isSpec[i] ? "s" + std::to_string(spec[i]) : "") << " "; for (char p : posted) o << (int)p; for (size_t t = 0; t < w.toks.size(); ++t) o << (int)act[t] << (int)dead[t] << merged[t] << on[t] << ";"; o << batch; return o.str(); }
};
struct Ev { int time, qty, sign, tok; };
// What is in force: shortest paths between times, quantity bounds, usages per resource.
struct Ref {
  const Abs& a; int n; std::vector<std::vector<long>> d; std::vector<long> lo, hi; bool ok;
  void edge(int i, int j, long l) { if (l < INF) d[i][j] = std::min(d[i][j], l); }
  void close() { for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (d[i][k] < INF) for (int j = 0; j < n; ++j) if (d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]); ok = true; for (int i = 0; i < n; ++i) if (d[i][i] < 0) ok = false; }
  Ref(const Abs& a_) : a(a_), n(a.w.vars.size() + 1), d(n, std::vector<long>(n, INF)), lo(n, -INF), hi(n, INF), ok(true) {
    const World& w = a.w;
    for (int i = 0; i < n; ++i) d[i][i] = 0;
    for (size_t v = 0; v < w.vars.size(); ++v) { if (a.gone(v)) { lo[v] = w.vars[v].lb; hi[v] = w.vars[v].ub; continue; } int x = a.at(v); lo[x] = std::max(lo[x], a.lb[v]); hi[x] = std::min(hi[x], a.ub[v]); if (a.isSpec[v]) { lo[x] = std::max(lo[x], a.spec[v]); hi[x] = std::min(hi[x], a.spec[v]); } }
    for (size_t v = 0; v < w.vars.size(); ++v) { if (lo[v] > hi[v]) { ok = false; return; } if (w.vars[v].kind != 't') continue; edge(0, v + 1, hi[v]); if (lo[v] > -INF) edge(v + 1, 0, -lo[v]); }
    std::vector<std::pair<std::string, std::vector<int>>> cs;
    for (size_t i = 0; i < w.cons.size(); ++i) if (a.posted[i]) cs.push_back({w.cons[i].name, w.cons[i].scope});
    for (size_t t = 0; t < w.toks.size(); ++t) if (w.toks[t].vars.size() >= 3 && !a.dead[t]) cs.push_back({"temporalDistance", {w.toks[t].vars[0], w.toks[t].vars[1], w.toks[t].vars[2]}});
    for (auto& c : cs) {
      if (c.first == "uses") continue;
      std::vector<int> s; for (int v : c.second) s.push_back(a.at(v));
      int x = s[0] + 1, y = s.back() + 1;
      if (s.size() == 3) { edge(x, y, hi[s[1]]); if (lo[s[1]] > -INF) edge(y, x, -lo[s[1]]); }
      else if (c.first == "concurrent") { edge(x, y, 0); edge(y, x, 0); }
      else if (c.first == "strictlyPrecedes") edge(y, x, -1);
      else edge(y, x, 0);
    }
    close();
  }
  long tlo(int v) const { return d[v + 1][0] >= INF ? -INF : -d[v + 1][0]; }
  long thi(int v) const { return d[0][v + 1]; }
  std::vector<Ev> events(int r) const {
    std::vector<Ev> e; const World& w = a.w;
    for (size_t t = 0; t < w.toks.size(); ++t) {
      if (!a.act[t] || a.merged[t] >= 0 || a.dead[t] || a.objOf(t) != r) continue;
      auto& v = w.toks[t].vars;
      if (v.size() == 4) { e.push_back({v[0], v[3], -1, (int)t}); e.push_back({v[2], v[3], 1, (int)t}); }
      else if (v.size() == 3) { e.push_back({v[0], -1, -1, (int)t}); e.push_back({v[2], -1, 1, (int)t}); }
      else e.push_back({v[0], v[1], w.toks[t].pred == 'p' ? 1 : -1, (int)t});
    }
    for (size_t i = 0; i < w.cons.size(); ++i) if (a.posted[i] && !strcmp(w.cons[i].name, "uses")) {
      auto& s = w.cons[i].scope; if (lo[s[0]] != hi[s[0]] || lo[s[0]] != r) continue;
      e.push_back({s[2], s[1], -1, -1 - (int)i}); e.push_back({s[3], s[1], 1, -1 - (int)i});
    }
    return e;
  }
  long qlo(const Ev& e) const { return e.qty < 0 ? 1 : lo[e.qty]; }
  long qhi(const Ev& e) const { return e.qty < 0 ? 1 : hi[e.qty]; }
  // every schedule of these usages; at is called with the times. The network is minimal, so pairwise checks suffice.
  // Times without bound are tried up to a little beyond everything finite.
  void schedules(const std::vector<Ev>& ev, const std::function<void(const std::vector<long>&)>& at, long beyond = 0) const {
    long m = beyond; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (d[i][j] < INF) m = std::max(m, std::labs(d[i][j]));
    long H = m + (long)ev.size() + 1; std::vector<long> tm(ev.size());
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i == ev.size()) { at(tm); return; }
      long l = std::max(tlo(ev[i].time), -H), u = std::min(thi(ev[i].time), H);
      for (long t = l; t <= u; ++t) { bool good = true; for (size_t j = 0; good && j < i; ++j) { int x = ev[j].time + 1, y = ev[i].time + 1; if (t - tm[j] > d[x][y] || tm[j] - t > d[y][x]) good = false; } if (good) { tm[i] = t; rec(i + 1); } }
    };
    rec(0);
  }
};
inline long of(edouble v) { return v >= PLUS_INFINITY ? INF : v <= MINUS_INFINITY ? -INF : (long)std::llround(cast_double(v) * 1000); }   // levels in thousandths
inline std::string sh(long v) { return v >= INF ? "+inf" : v <= -INF ? "-inf" : std::to_string(v); }
inline std::string numNddl(double v) { if (v >= PI) return "+inff"; if (v <= -PI) return "-inff"; std::ostringstream o; o << std::fixed; o.precision(1); o << v; return o.str(); }
inline std::string model(const World& w, const std::string& profile, const std::string& detector) {
  const Limits& l = w.lim; std::string base = w.res == 'V' ? "Reservoir" : w.res == 'U' ? "Reusable" : w.res == 'C' ? "CBReusable" : "Unary", sup;
  if (w.res == 'V') sup = numNddl(l.cap) + ", " + numNddl(l.lo) + ", " + numNddl(l.hi) + ", " + numNddl(l.prate) + ", " + numNddl(l.prod) + ", " + numNddl(l.crate) + ", " + numNddl(l.cons);
  else if (w.res == '1') sup = numNddl(l.cons);
  else sup = numNddl(l.cap) + ", " + numNddl(l.lo) + ", " + numNddl(l.cons) + ", " + numNddl(l.crate);
  std::string m = "class Res extends " + base + " { string profileType; string detectorType; Res() { super(" + sup + "); profileType = \"" + profile + "\"; detectorType = \"" + detector + "\"; } }\n";
  for (int i = 0; i < w.nres; ++i) m += "Res res" + std::to_string(i) + " = new Res();\n";
  return m + "close();\n";
}
struct Sim {
  const World& w; Eng* e; Abs a; std::vector<V> vars; std::vector<TokenId> toks; std::vector<ConstraintId> cs; std::vector<ObjectId> res;
  Sim(const World& w_, const std::string& profile, const std::string& detector) : w(w_), e(new Eng()), a(w_), vars(w_.vars.size()), cs(w_.cons.size()) {
    ce()->setAutoPropagation(false);
    std::string er = e->load(model(w, profile, detector)); if (er.size()) throw Error("the model is refused: " + er);
    for (int i = 0; i < w.nres; ++i) res.push_back(e->db()->getObject("res" + std::to_string(i)));
    ce()->propagate();
    toks.resize(w.toks.size()); if (!w.client) for (size_t t = 0; t < w.toks.size(); ++t) create(t);
    for (size_t i = 0; i < w.vars.size(); ++i) if (a.tokOf(i) < 0) {
      auto& v = w.vars[i];
      if (v.kind == 'r') { vars[i] = e->client()->createVariable("Res", v.name.c_str()); restrict(i, v.lb, v.ub); }
      else if (v.kind == 'q') vars[i] = ce()->createVariable("float", IntervalDomain(edouble((double)v.lb), edouble((double)v.ub)), false, true, v.name.c_str());
      else vars[i] = (new Variable<IntervalIntDomain>(ce(), IntervalIntDomain(lim(v.lb), lim(v.ub)), false, true, v.name.c_str()))->getId();
    }
    ce()->propagate();
  }
  ~Sim() { delete e; }
  void create(int t) {
    const TD& d = w.toks[t]; return create(t, d, d.pred == 'c' ? "Res.consume" : d.pred == 'p' ? "Res.produce" : d.pred == 'u' ? "Res.uses" : "Res.use");
  }
  void create(int t, const TD& d, const std::string& p) {
    TokenId k;
    if (w.client) k = e->client()->createToken(p.c_str(), d.name, false, false);
    else {
      if (d.pred == 'n') k = (new UnaryToken(e->db(), p, false, false, IntervalIntDomain(), IntervalIntDomain(), IntervalIntDomain(1, PLUS_INFINITY), Token::noObject(), true, false))->getId();
      else if (d.pred == 'u') k = (new ReusableToken(e->db(), p, false, false, IntervalIntDomain(), IntervalIntDomain(), IntervalIntDomain(1, PLUS_INFINITY), Token::noObject(), true, false))->getId();
      else k = (new ReservoirToken(e->db(), p, false, false, IntervalIntDomain(), Token::noObject(), d.pred == 'c', true, false))->getId();
    }
    toks[t] = k; std::vector<V> vs;
    if (d.vars.size() == 2) { vs = {k->start(), q(k)}; } else { vs = {k->start(), k->duration(), k->end()}; if (d.vars.size() == 4) vs.push_back(q(k)); }
    for (size_t i = 0; i < vs.size(); ++i) { vars[d.vars[i]] = vs[i]; restrict(d.vars[i], w.vars[d.vars[i]].lb, w.vars[d.vars[i]].ub); }
  }
  static V q(TokenId k) { for (auto v : k->getVariables()) if (v->getName() == "quantity") return v; return V::noId(); }
  static eint lim(long v) { return v <= -INF ? eint(MINUS_INFINITY) : v >= INF ? eint(PLUS_INFINITY) : eint(v); }
  ConstraintEngineId ce() { return e->ce(); }
  ProfilePropagator* pp() { return dynamic_cast<ProfilePropagator*>(static_cast<Propagator*>(ce()->getPropagatorByName("Resource"))); }
  Resource* resource(int i) { return dynamic_cast<Resource*>(static_cast<Object*>(res[i])); }
  ProfileId profile(int i) { return resource(i)->getProfile(); }
  void restrict(int i, long l, long u) {
    if (w.vars[i].kind == 'q') { if (l == w.vars[i].lb && u == w.vars[i].ub && l <= -INF) return; vars[i]->restrictBaseDomain(IntervalDomain(edouble((double)l), u >= INF ? edouble(PLUS_INFINITY) : edouble((double)u))); }
    else if (w.vars[i].kind != 'r') vars[i]->restrictBaseDomain(IntervalIntDomain(lim(l), lim(u)));
  }
  bool host(int v) { int t = a.tokOf(v); if (t >= 0) for (int m : a.merged) if (m == t) return true; return false; }
  bool enabled(const Op& p) {
    bool bad = ce()->provenInconsistent();
    auto frozen = [&](int v) { int t = a.tokOf(v); return t >= 0 && (a.dead[t] || a.merged[t] >= 0); };
    switch (p.k) {
      case 'p': if (a.posted[p.a] || bad) return false; for (int v : w.cons[p.a].scope) if (a.gone(v)) return false; return true;
      case 'r': if (a.posted[p.a]) for (int m : a.merged) if (m >= 0) return false; return a.posted[p.a];
      case 's': return !a.isSpec[p.a] && !bad && !frozen(p.a) && !vars[p.a]->isSpecified() && p.b >= a.lb[p.a] && p.b <= a.ub[p.a] && (w.vars[p.a].kind == 'r' || (host(p.a) ? vars[p.a]->lastDomain() : vars[p.a]->baseDomain()).isMember(edouble((double)p.b)));
      case 'u': return a.isSpec[p.a] && !frozen(p.a);
      case 'b': return !a.based[p.a] && (!host(p.a) || (vars[p.a]->lastDomain().getUpperBound() >= edouble((double)p.b) && vars[p.a]->lastDomain().getLowerBound() <= edouble((double)p.c))) && !bad && !frozen(p.a) && std::max(a.lb[p.a], p.b) <= std::min(a.ub[p.a], p.c) && !vars[p.a]->lastDomain().isEmpty() && (!a.isSpec[p.a] || (a.spec[p.a] >= p.b && a.spec[p.a] <= p.c));
      case 'A': return !a.act[p.a] && !a.dead[p.a] && a.merged[p.a] < 0 && !bad;
      case 'C': return !a.dead[p.a] && (a.act[p.a] || a.merged[p.a] >= 0);
      case 'N': return w.client && a.dead[p.a] && !bad;
      case 'D': { if (a.act[p.a] || a.dead[p.a] || a.merged[p.a] >= 0) return false; for (size_t i = 0; i < w.cons.size(); ++i) if (a.posted[i]) for (int v : w.cons[i].scope) if (a.tokOf(v) == p.a) return false; return true; }
      case 'M': {
        if (a.act[p.a] || a.dead[p.a] || a.merged[p.a] >= 0 || !a.act[p.b] || a.dead[p.b] || bad || ce()->pending()) return false;
        for (size_t j = 0; j < w.toks[p.a].vars.size(); ++j) if (!vars[w.toks[p.a].vars[j]]->lastDomain().intersects(vars[w.toks[p.b].vars[j]]->lastDomain())) return false;
        return toks[p.a]->getObject()->lastDomain().intersects(toks[p.b]->getObject()->lastDomain());
      }
      case 'o': return !a.dead[p.a] && a.merged[p.a] < 0 && a.on[p.a] < 0 && w.nres > 1 && !bad && toks[p.a]->getObject()->lastDomain().isMember(res[p.b]->getKey());
      case 'O': return !a.dead[p.a] && a.merged[p.a] < 0 && a.on[p.a] >= 0 && w.nres > 1;
      case 'E': return !a.batch && !bad; case 'X': return a.batch && !bad;
    }
    return true;
  }
  void apply(const Op& p) {
    switch (p.k) {
      case 'p': { std::vector<V> s; for (int v : w.cons[p.a].scope) s.push_back(vars[v]); cs[p.a] = e->client()->createConstraint(w.cons[p.a].name, s, ""); break; }
      case 'r': e->client()->deleteConstraint(cs[p.a]); cs[p.a] = ConstraintId::noId(); break;
      case 's': if (w.vars[p.a].kind == 'r') vars[p.a]->specify(res[p.b]->getKey()); else vars[p.a]->specify(edouble((double)p.b)); break;
      case 'u': vars[p.a]->reset(); break;
      case 'b': restrict(p.a, p.b, p.c); break;
      case 'N': create(p.a); break;
      case 'A': e->client()->activate(toks[p.a]); break;
      case 'C': e->client()->cancel(toks[p.a]); break;
      case 'M': e->client()->merge(toks[p.a], toks[p.b]); break;
      case 'D': e->client()->deleteToken(toks[p.a]); toks[p.a] = TokenId::noId(); for (int v : w.toks[p.a].vars) vars[v] = V::noId(); break;
      case 'o': toks[p.a]->getObject()->specify(res[p.b]->getKey()); break;
      case 'O': toks[p.a]->getObject()->reset(); break;
      case 'P': ce()->propagate(); break;
      case 'E': pp()->enterBatchMode(); break; case 'X': pp()->exitBatchMode(); break;
    }
    a.apply(p);
  }
#ifdef MC_PUBLIC_ONLY
  std::string key() { static int n = 0; return std::to_string(getpid()) + "." + std::to_string(++n); }
#else
  std::string key() {
    std::ostringstream o; std::map<V, int> ix; for (size_t i = 0; i < vars.size(); ++i) if (!vars[i].isNoId()) ix[vars[i]] = i;
    o << a.text() << "|";
    for (size_t i = 0; i < vars.size(); ++i) { V v = vars[i]; if (v.isNoId()) { o << "gone;"; continue; } o << v->lastDomain().toString() << (ce()->m_relaxed.count(v) ? "r" : "") << (ce()->getViolationMgr().isEmpty(v) ? "e" : "") << (v->lastRelaxed() >= ce()->m_cycleCount ? "L" : "") << ";"; }
    std::vector<std::pair<long, int>> ord; for (size_t i = 0; i < cs.size(); ++i) if (!cs[i].isNoId()) ord.push_back({(long)cast_long(cs[i]->getKey()), (int)i});
    std::sort(ord.begin(), ord.end()); for (auto& x : ord) o << ">" << x.second << cs[x.second]->isActive();
    for (int i = 0; i < w.nres; ++i) {
      Profile* p = profile(i); o << "|" << p->m_needsRecompute; std::map<TransactionId, int> tx; std::vector<std::pair<std::pair<int, bool>, TransactionId>> named;
      for (auto t : p->m_transactions) named.push_back({{ix.count(t->time()) ? ix[t->time()] : -1, t->isConsumer()}, t});
      std::sort(named.begin(), named.end(), [](const std::pair<std::pair<int, bool>, TransactionId>& x, const std::pair<std::pair<int, bool>, TransactionId>& y) { return x.first < y.first; });
      for (size_t j = 0; j < named.size(); ++j) { tx[named[j].second] = j + 1; o << "t" << named[j].first.first << named[j].first.second; }
      for (auto& in : p->m_instants) { Instant* q = in.second; o << "@" << in.first << ":" << q->m_lowerLevel << "," << q->m_upperLevel << "," << q->m_lowerLevelMax << "," << q->m_upperLevelMin << "," << q->m_violated << q->m_flawed << q->m_lowerFlaw << q->m_upperFlaw << "," << q->m_minCumulativeConsumption << "," << q->m_minCumulativeProduction; std::set<int> s1, s2, s3; for (auto t : q->m_transactions) s1.insert(tx[t]); for (auto t : q->m_startingTransactions) s2.insert(tx[t]); for (auto t : q->m_endingTransactions) s3.insert(tx[t]); for (int x : s1) o << "t" << x; for (int x : s2) o << "s" << x; for (int x : s3) o << "e" << x; }
      if (!p->m_recomputeInterval.isNoId()) o << "i" << p->m_recomputeInterval->m_startTime << "," << p->m_recomputeInterval->m_endTime << (p->m_recomputeInterval->m_start == p->m_recomputeInterval->m_realEnd) << (p->m_recomputeInterval->m_end == p->m_recomputeInterval->m_realEnd);
      if (FlowProfile* f = dynamic_cast<FlowProfile*>(p)) {
        std::set<std::string> s; for (auto& x : f->m_orderings) if (x.second != UNKNOWN) s.insert("o" + std::to_string(tx[x.first.first]) + "," + std::to_string(tx[x.first.second]) + "=" + std::to_string((int)x.second));
        for (auto& x : f->m_orderedAt) s.insert("@" + std::to_string(tx[x.first.first]) + "," + std::to_string(tx[x.first.second]));
        for (auto& x : s) o << x; for (auto& x : f->m_previousTimeBounds) o << "b" << tx[x.first] << "[" << x.second.first << "," << x.second.second;
        o << f->m_recalculateLowerLevel << f->m_recalculateUpperLevel << f->m_lowerClosedLevel << "," << f->m_upperClosedLevel;
        for (FlowProfileGraph* g : {f->m_lowerLevelGraph, f->m_upperLevelGraph}) if (BoostFlowProfileGraph* b = dynamic_cast<BoostFlowProfileGraph*>(g)) { std::set<int> s2; for (auto t : b->m_activeTransactions) s2.insert(tx.count(t) ? tx[t] : -1); o << "g"; for (int x : s2) o << x << ","; }
      }
      Resource* r = resource(i); for (auto& x : r->m_flawedInstants) o << "f" << x.first; o << "n" << r->m_transactionsToTokens.size();
    }
    o << ce()->m_dirty; return o.str();
  }
#endif
};
}
#endif
