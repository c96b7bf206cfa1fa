// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
// C10: every history of sequencing, freeing, activating, cancelling, binding
// and constraining up to a depth on timelines.  The sequence is followed by a
// list model; times and verdicts are compared with a fresh plan in which the
// same tokens are sequenced left to right; ordering choices with trying every
// position in a fresh plan.
#define PLAN_NDDL
#include "plan_lib.hh"
using namespace plan;

struct Op { char k; int a, b, c; };
struct Con { const char* name; std::vector<std::pair<int, const char*>> scope; };
struct Spec { int tok; const char* var; double val; };
struct World {
  const char* model; std::vector<const char*> lines;              // names of timelines
  struct T { const char* label; const char* pred; }; std::vector<T> roots; std::vector<const char*> labels;
  std::vector<Con> cons; std::vector<Spec> specs;
};
static const char* M =
  "class TL extends Timeline { predicate A { int p; p = [0 3]; } predicate B { int p; p = [0 3]; } predicate M { } predicate N { } }\n"
  "TL::M { contains(object.A a); ends(object.B b); eq(a.p, b.p); }\n"
  "TL::N { meets(TL.A a); }\n";
static std::vector<World>& worlds() {
  static std::string one = std::string(M) + "TL l1 = new TL(); close();\n", two = std::string(M) + "TL l1 = new TL(); TL l2 = new TL(); close();\n";
  static std::vector<World> w = {
    // two timelines, three tokens, orders imposed from outside
    {two.c_str(), {"l1", "l2"}, {{"t0", "TL.A"}, {"t1", "TL.A"}, {"t2", "TL.B"}}, {"t0", "t1", "t2"},
     {{"precedes", {{1, "end"}, {0, "start"}}}, {"concurrent", {{0, "start"}, {2, "start"}}}, {"eq", {{0, "object"}, {1, "object"}}}, {"precedes", {{0, "start"}, {1, "start"}}}},
     {{0, "start", 5}, {1, "object", 2}, {2, "start", 9}}},
    // one timeline, four tokens with windows
    {one.c_str(), {"l1"}, {{"t0", "TL.A"}, {"t1", "TL.B"}, {"t2", "TL.A"}, {"t3", "TL.B"}}, {"t0", "t1", "t2", "t3"},
     {{"precedes", {{3, "end"}, {0, "end"}}}, {"precedes", {{1, "start"}, {2, "start"}}}, {"concurrent", {{0, "end"}, {1, "start"}}}},
     {{0, "start", 4}, {1, "start", 6}, {2, "duration", 3}, {2, "end", 6}}},
    // sub-goals on timelines
    {two.c_str(), {"l1", "l2"}, {{"t0", "TL.N"}, {"t1", "TL.N"}, {"t2", "TL.B"}}, {"t0", "t1", "t2", "t0/TL.A:meets", "t1/TL.A:meets"},
     {{"precedes", {{4, "end"}, {2, "start"}}}, {"eq", {{0, "object"}, {3, "object"}}}},
     {{1, "start", 3}, {2, "start", 7}}}};
  return w;
}
static std::string str(const Op& o) { std::ostringstream s; s << o.k << o.a; if (o.k == 'o' || o.k == 'f') s << "," << o.b << "," << o.c; return s.str(); }
static std::vector<Op> opsOf(const std::string& t) {
  std::vector<Op> r; std::istringstream i(t); std::string x;
  while (i >> x) { Op o; o.b = o.c = 0; o.k = x[0]; sscanf(x.c_str() + 1, "%d,%d,%d", &o.a, &o.b, &o.c); r.push_back(o); }
  return r;
}
static std::string pretty(const World& w, const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h) switch (o.k) {
    case 'a': s += std::string("activate ") + w.labels[o.a] + "; "; break;
    case 'c': s += std::string("cancel ") + w.labels[o.a] + "; "; break;
    case 'd': s += std::string("delete ") + w.labels[o.a] + "; "; break;
    case 'P': s += "propagate; "; break;
    case 'o': s += std::string("constrain ") + w.lines[o.a] + " " + w.labels[o.b] + "<" + w.labels[o.c] + "; "; break;
    case 'f': s += std::string("free ") + w.lines[o.a] + " " + w.labels[o.b] + "<" + w.labels[o.c] + "; "; break;
    case 's': case 'u': s += std::string(o.k == 's' ? "specify " : "reset ") + w.labels[w.specs[o.a].tok] + "." + w.specs[o.a].var + (o.k == 's' ? "=" + std::to_string((int)w.specs[o.a].val) : "") + "; "; break;
    case 'k': case 'K': { s += std::string(o.k == 'k' ? "post " : "retract ") + w.cons[o.a].name + "("; for (auto& v : w.cons[o.a].scope) s += std::string(w.labels[v.first]) + "." + v.second + " "; s += "); "; break; }
  }
  return s;
}
static bool under(const World& w, int t, int root) { std::string l = w.labels[t], r = w.labels[root]; return l.size() > r.size() && l.compare(0, r.size() + 1, r + "/") == 0; }

// What is in force.
struct Model {
  std::set<int> active, gone, specs, cons;
  std::vector<std::vector<int>> seq; std::vector<std::set<std::pair<int, int>>> expl;
  std::string text() const {
    std::ostringstream s; s << "a"; for (int x : active) s << x << " "; s << "g"; for (int x : gone) s << x << " "; s << "s"; for (int x : specs) s << x << " "; s << "k"; for (int x : cons) s << x << " ";
    for (auto& q : seq) { s << "["; for (int x : q) s << x << " "; s << "]"; } return s.str();
  }
  std::string explText() const { std::ostringstream s; for (auto& e : expl) { s << "{"; for (auto& p : e) s << p.first << "<" << p.second << " "; s << "}"; } return s.str(); }
  bool seqd(int l, int t) const { return std::find(seq[l].begin(), seq[l].end(), t) != seq[l].end(); }
  bool needed(int l, int t) const { for (auto& p : expl[l]) if (p.first == t || p.second == t) return true; return false; }
  void drop(int l, int t) { seq[l].erase(std::remove(seq[l].begin(), seq[l].end(), t), seq[l].end()); }
};

struct Plan {
  const World& w; Eng* e; Names n; std::vector<ConstraintId> posted; bool lazy, hurt;
  Plan(const World& wo, bool lz) : w(wo), e(new Eng()), lazy(lz), hurt(false) {
    std::string r = e->load(w.model); if (!r.empty()) { fprintf(stderr, "model: %s\n", r.c_str()); abort(); }
    if (lazy) e->ce()->setAutoPropagation(false);
    for (auto& t : w.roots) { TokenId k = e->client()->createToken(t.pred, t.label, false, false); n.root(k, t.label); }
    posted.assign(w.cons.size(), ConstraintId::noId());
    if (!lazy) e->ce()->propagate();
  }
  ~Plan() { if (!hurt) delete e; }
  TokenId tok(int i) { n.scan(e->db()); for (auto t : e->db()->getTokens()) if (n.of(t) == w.labels[i]) return t; return TokenId::noId(); }
  int idx(TokenId t) { for (int i = 0; i < (int)w.labels.size(); ++i) if (n.of(t) == w.labels[i]) return i; return -1; }
  TimelineId line(int l) { return TimelineId(e->db()->getObject(w.lines[l])); }
  V var(int i, const char* nm) { TokenId t = tok(i); if (t.isNoId()) return V(); for (auto v : t->getVariables()) if (v->getName() == nm) return v; return V(); }
  edouble value(const Spec& s) { return std::string(s.var) == "object" ? edouble(line((int)s.val - 1)->getKey()) : edouble(s.val); }
  bool consistent() { return e->ce()->constraintConsistent(); }
  std::vector<int> seq(int l) { std::vector<int> r; n.scan(e->db()); for (auto t : line(l)->getTokenSequence()) r.push_back(idx(t)); return r; }
  void apply(const Op& o) {
    DbClientId c = e->client();
    switch (o.k) {
      case 'a': c->activate(tok(o.a)); break;
      case 'c': c->cancel(tok(o.a)); break;
      case 'd': c->deleteToken(tok(o.a)); break;
      case 'o': c->constrain(line(o.a), tok(o.b), tok(o.c)); break;
      case 'f': c->free(line(o.a), tok(o.b), tok(o.c)); break;
      case 's': c->specify(var(w.specs[o.a].tok, w.specs[o.a].var), value(w.specs[o.a])); break;
      case 'u': c->reset(var(w.specs[o.a].tok, w.specs[o.a].var)); break;
      case 'k': { std::vector<V> s; for (auto& x : w.cons[o.a].scope) s.push_back(var(x.first, x.second)); posted[o.a] = c->createConstraint(w.cons[o.a].name, s); break; }
      case 'K': c->deleteConstraint(posted[o.a]); posted[o.a] = ConstraintId::noId(); break;
      case 'P': e->ce()->propagate(); break;
    }
    if (!lazy) e->ce()->propagate();
  }
};

static bool enabled(Plan& p, const Model& m, const Op& o) {
  const World& w = p.w; bool ok = p.consistent(); TokenId t;
  switch (o.k) {
    case 'P': return p.lazy;
    case 'a': t = p.tok(o.a); return ok && t.isId() && t->isInactive();
    case 'c': t = p.tok(o.a); if (t.isNoId() || !t->isActive()) return false;
      for (int k : m.cons) for (auto& v : w.cons[k].scope) if (under(w, v.first, o.a)) return false;
      for (int s : m.specs) if (under(w, w.specs[s].tok, o.a)) return false;
      return true;
    case 'd': t = p.tok(o.a); if (t.isNoId() || t->master().isId() || !t->isInactive()) return false;
      for (int k : m.cons) for (auto& v : w.cons[k].scope) if (v.first == o.a) return false;
      return true;
    case 'o': {
      if (!ok) return false; TokenId s = p.tok(o.b), u = p.tok(o.c); if (s.isNoId() || u.isNoId() || !s->isActive() || !u->isActive()) return false;
      eint key = p.line(o.a)->getKey();
      if (!s->getObject()->lastDomain().isMember(key) || !u->getObject()->lastDomain().isMember(key)) return false;
      if (o.b == o.c) return m.seq[o.a].empty();
      bool x = m.seqd(o.a, o.b), y = m.seqd(o.a, o.c);
      return !(x && y) && (x || y || m.seq[o.a].empty());
    }
    case 'f': return m.expl[o.a].count({o.b, o.c}) && m.seqd(o.a, o.b) && m.seqd(o.a, o.c);
    case 's': { if (!ok || m.specs.count(o.a)) return false; V v = p.var(w.specs[o.a].tok, w.specs[o.a].var); return v.isId() && !v->isSpecified() && v->lastDomain().isMember(p.value(w.specs[o.a])); }
    case 'u': return m.specs.count(o.a) && p.tok(w.specs[o.a].tok).isId();
    case 'k': if (!ok || m.cons.count(o.a)) return false; for (auto& v : w.cons[o.a].scope) if (p.tok(v.first).isNoId()) return false; return true;
    case 'K': return m.cons.count(o.a);
  }
  return false;
}
static std::vector<Op> menu(Plan& p) {
  std::vector<Op> r; const World& w = p.w; int L = w.labels.size();
  for (int i = 0; i < L; ++i) { r.push_back({'a', i, 0, 0}); r.push_back({'c', i, 0, 0}); if (i < (int)w.roots.size()) r.push_back({'d', i, 0, 0}); }
  for (int l = 0; l < (int)w.lines.size(); ++l) for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) { r.push_back({'o', l, i, j}); r.push_back({'f', l, i, j}); }
  for (int i = 0; i < (int)w.specs.size(); ++i) { r.push_back({'s', i, 0, 0}); r.push_back({'u', i, 0, 0}); }
  for (int i = 0; i < (int)w.cons.size(); ++i) { r.push_back({'k', i, 0, 0}); r.push_back({'K', i, 0, 0}); }
  if (p.lazy) r.push_back({'P', 0, 0, 0});
  return r;
}
// A token leaves its timelines.
static void leaves(Model& m, Plan* before, int t) {
  for (int l = 0; l < (int)m.seq.size(); ++l) {
    auto i = std::find(m.seq[l].begin(), m.seq[l].end(), t);
    if (i == m.seq[l].end()) continue;
    if (i != m.seq[l].begin() && i + 1 != m.seq[l].end()) m.expl[l].insert({*(i - 1), *(i + 1)});
    m.seq[l].erase(i);
    for (auto j = m.expl[l].begin(); j != m.expl[l].end();) if (j->first == t || j->second == t) m.expl[l].erase(j++); else ++j;
  }
}
static void step(const World& w, Model& m, const Op& o, const std::set<std::string>& linked) {
  switch (o.k) {
    case 'a': m.active.insert(o.a); break;
    case 'c': {
      std::vector<int> out; out.push_back(o.a);
      for (int s = 0; s < (int)w.labels.size(); ++s) if (under(w, s, o.a)) out.push_back(s);
      for (int t : out) {
        for (int l = 0; l < (int)m.seq.size(); ++l) {
          auto i = std::find(m.seq[l].begin(), m.seq[l].end(), t);
          if (i == m.seq[l].end()) continue;
          // neighbours without a constraint of their own are tied by an explicit one
          if (i != m.seq[l].begin() && i + 1 != m.seq[l].end()) { std::ostringstream k; k << l << ":" << *(i - 1) << "<" << *(i + 1); if (!linked.count(k.str())) m.expl[l].insert({*(i - 1), *(i + 1)}); }
          m.seq[l].erase(i);
          for (auto j = m.expl[l].begin(); j != m.expl[l].end();) if (j->first == t || j->second == t) m.expl[l].erase(j++); else ++j;
        }
        m.active.erase(t);
      }
      break;
    }
    case 'd': m.gone.insert(o.a); for (auto i = m.specs.begin(); i != m.specs.end();) if (w.specs[*i].tok == o.a) m.specs.erase(i++); else ++i; break;
    case 'o': {
      auto& q = m.seq[o.a];
      if (q.empty()) { q.push_back(o.b); if (o.b != o.c) q.push_back(o.c); }
      else if (m.seqd(o.a, o.c)) q.insert(std::find(q.begin(), q.end(), o.c), o.b);
      else q.insert(std::find(q.begin(), q.end(), o.b) + 1, o.c);
      m.expl[o.a].insert({o.b, o.c}); break;
    }
    case 'f': m.expl[o.a].erase({o.b, o.c}); if (!m.needed(o.a, o.c)) m.drop(o.a, o.c); if (!m.needed(o.a, o.b)) m.drop(o.a, o.b); break;
    case 's': m.specs.insert(o.a); break;
    case 'u': m.specs.erase(o.a); break;
    case 'k': m.cons.insert(o.a); break;
    case 'K': m.cons.erase(o.a); break;
  }
}
// Which pairs are tied directly, as the timeline sees it.
static std::set<std::string> linked(Plan& p, const Model& m) {
  std::set<std::string> r;
  for (int l = 0; l < (int)m.seq.size(); ++l) for (int a : m.seq[l]) for (int b : m.seq[l]) if (a != b && p.line(l)->getPrecedenceConstraint(p.tok(a), p.tok(b)).isId()) { std::ostringstream k; k << l << ":" << a << "<" << b; r.insert(k.str()); }
  return r;
}
struct View { bool ok; std::vector<std::string> lines; };
static void tokenLines(Plan& p, std::vector<std::string>& L) {
  p.n.scan(p.e->db());
  for (auto t : p.e->db()->getTokens()) for (auto v : t->getVariables()) if (v->isActive()) L.push_back(p.n.of(t) + "." + v->getName() + " " + domText(v->lastDomain()));
  std::sort(L.begin(), L.end());
}
// A fresh plan with what is in force, sequenced left to right.
static View fresh(const World& w, const Model& m) {
  Plan q(w, true); View v; v.ok = true;
  try {
    std::set<int> todo = m.active;
    while (!todo.empty()) { size_t k = todo.size(); for (auto i = todo.begin(); i != todo.end();) if (q.tok(*i).isId()) { q.apply({'a', *i, 0, 0}); todo.erase(i++); } else ++i; if (!todo.empty()) { q.e->ce()->propagate(); if (todo.size() == k && todo.size() && q.tok(*todo.begin()).isNoId()) { v.ok = false; v.lines.push_back("missing"); return v; } } }
    bool need = false; for (int k : m.cons) for (auto& x : w.cons[k].scope) if (q.tok(x.first).isNoId()) need = true;
    if (need) q.e->ce()->propagate();
    for (int k : m.cons) q.apply({'k', k, 0, 0});
    for (int s : m.specs) q.apply({'s', s, 0, 0});
    for (int l = 0; l < (int)m.seq.size(); ++l) { auto& s = m.seq[l]; if (s.size() == 1) q.apply({'o', l, s[0], s[0]}); for (size_t i = 0; i + 1 < s.size(); ++i) q.apply({'o', l, s[i], s[i + 1]}); }
    for (int d : m.gone) q.apply({'d', d, 0, 0});
    v.ok = q.e->ce()->propagate() && q.consistent();
    tokenLines(q, v.lines);
  } catch (Error& x) { q.hurt = true; v.ok = false; v.lines.assign(1, "error " + x.getMsg()); }
  return v;
}
static std::unordered_map<std::string, View>* memo;
static const View& freshM(const World& w, int wi, const Model& m, mc::Ctx& c) {
  std::string k = std::to_string(wi) + m.text(); auto i = memo->find(k);
  if (i == memo->end()) { if (memo->size() > 60000) memo->clear(); i = memo->insert(std::make_pair(k, fresh(w, m))).first; c.trace(); }
  return i->second;
}
static const char* KIND(char k) { switch (k) { case 'a': return "activate"; case 'c': return "cancel"; case 'd': return "delete"; case 'o': return "constrain"; case 'f': return "free"; case 's': return "specify"; case 'u': return "reset"; case 'P': return "propagate"; case 'k': return "post"; default: return "retract"; } }
static std::string seqText(const World& w, const std::vector<int>& s) { std::string r; for (int x : s) r += x < 0 ? "? " : std::string(w.labels[x]) + " "; return r; }

// The pairs a client must be offered for one more token.
static std::pair<int, int> pairAt(const std::vector<int>& s, int t, size_t pos) {
  if (s.empty()) return {t, t};
  if (pos == s.size()) return {s.back(), t};
  return {t, s[pos]};
}
static void choices(Plan& p, const Model& m, int wi, mc::Ctx& c, const std::string& what) {
  const World& w = p.w;
  std::map<int, unsigned long> total;
  for (int l = 0; l < (int)w.lines.size(); ++l)
    for (int t = 0; t < (int)w.labels.size(); ++t) {
      TokenId tk = p.tok(t); if (tk.isNoId() || !tk->isActive() || m.seqd(l, t) || !tk->getObject()->lastDomain().isMember(p.line(l)->getKey())) continue;
      std::vector<std::pair<TokenId, TokenId>> got; p.line(l)->getOrderingChoices(tk, got);
      std::set<std::pair<int, int>> g, want;
      for (auto& x : got) g.insert({p.idx(x.first), p.idx(x.second)});
      if (g.size() != got.size()) c.violation("C10:choice-twice", "a choice is offered twice after " + what);
      for (size_t pos = 0; pos <= m.seq[l].size(); ++pos) {
        Model x = m; x.seq[l].insert(x.seq[l].begin() + pos, t);
        if (freshM(w, wi, x, c).ok) want.insert(pairAt(m.seq[l], t, pos));
      }
      c.evals();
      total[t] += got.size();
      auto show = [&](const std::set<std::pair<int, int>>& s) { std::string r; for (auto& x : s) r += std::string(w.labels[x.first]) + "<" + w.labels[x.second] + " "; return r; };
      for (auto& x : want) if (!g.count(x)) { c.violation("C10:choice-missing", std::string("a position in which ") + w.labels[t] + " fits on " + w.lines[l] + " is not offered (offered " + show(g) + "possible " + show(want) + ") after " + what); break; }
      for (auto& x : g) if (!want.count(x)) { c.violation("C10:choice-impossible", std::string("a position in which ") + w.labels[t] + " cannot be placed on " + w.lines[l] + " is offered (offered " + show(g) + "possible " + show(want) + ") after " + what); break; }
      for (unsigned long lim = 1; lim <= got.size() + 1; ++lim) {
        std::vector<std::pair<TokenId, TokenId>> part; p.line(l)->getOrderingChoices(tk, part, lim);
        if (part.size() != std::min<size_t>(lim, got.size())) c.violation("C10:choice-limit", "asked for at most " + std::to_string(lim) + " of " + std::to_string(got.size()) + " choices, " + std::to_string(part.size()) + " are offered after " + what);
        for (auto& x : part) if (std::find(got.begin(), got.end(), x) == got.end()) c.violation("C10:choice-limit", "with a limit other choices are offered after " + what);
      }
      if (p.line(l)->countOrderingChoices(tk, 99) != got.size() || p.line(l)->lastOrderingChoiceCount(tk) != got.size()) c.violation("C10:choice-count", "the count of choices differs from the choices after " + what);
    }
  for (auto& x : total) {
    TokenId tk = p.tok(x.first);
    if (p.e->db()->getTokensToOrder().count(tk->getKey())) {
      std::vector<OrderingChoice> all; p.e->db()->getOrderingChoices(tk, all);
      if (all.size() != x.second) c.violation("C10:choice-total", "the plan offers " + std::to_string(all.size()) + " choices, its timelines " + std::to_string(x.second) + " after " + what);
      for (auto& y : all) { std::vector<std::pair<TokenId, TokenId>> got; TimelineId(y.first)->getOrderingChoices(tk, got); if (std::find(got.begin(), got.end(), y.second) == got.end()) c.violation("C10:choice-total", "the plan offers a choice its timeline does not after " + what); }
      if (p.e->db()->countOrderingChoices(tk) != x.second || p.e->db()->hasOrderingChoice(tk) != (x.second > 0)) c.violation("C10:choice-total", "the plan's count of choices differs from the choices after " + what);
    }
  }
}

static void explore(const std::string& h, mc::Ctx& c, int maxDepth) {
  c.begin(h);
  size_t bar = h.find('|'); int wi = h[0] - '0'; bool lazy = h[1] == 'L'; int prefix = atoi(h.c_str() + 2);
  const World& w = worlds()[wi]; std::vector<Op> ops = opsOf(h.substr(bar + 1));
  std::string what = "[" + pretty(w, ops) + "]"; std::string kind = ops.empty() ? "start" : KIND(ops.back().k);
  Plan p(w, lazy); Model m; m.seq.resize(w.lines.size()); m.expl.resize(w.lines.size());
  try { for (auto& o : ops) { std::set<std::string> l; if (o.k == 'c') l = linked(p, m); p.apply(o); step(w, m, o, l); } if (lazy) p.e->ce()->propagate(); }
  catch (Error& x) { p.hurt = true; c.violation("C10:error-" + kind, "a permitted step raised an error (" + x.getMsg() + ") in " + what); return; }
  c.transitions();
  bool ok = p.consistent();
  try {
    View v; v.ok = ok; tokenLines(p, v.lines);
    // the sequence
    bool order = true;
    for (int l = 0; l < (int)w.lines.size(); ++l) {
      std::vector<int> s = p.seq(l); c.evals();
      if (s != m.seq[l]) { order = false; c.violation("C10:sequence-after-" + kind, std::string("the sequence of ") + w.lines[l] + " is " + seqText(w, s) + "instead of " + seqText(w, m.seq[l]) + "after " + what); }
      std::set<int> u(s.begin(), s.end()); if (u.size() != s.size()) { order = false; c.violation("C10:sequence-twice", "a token is sequenced twice after " + what); }
      for (size_t i = 0; i < s.size(); ++i) if (s[i] < 0 || !p.tok(s[i])->isActive()) { order = false; c.violation("C10:sequence-inactive", "a token that is not active is sequenced after " + what); }
      for (size_t i = 0; order && i + 1 < s.size(); ++i) {
        if (!p.line(l)->isConstrainedToPrecede(p.tok(s[i]), p.tok(s[i + 1]))) c.violation("C10:pair-not-tied", "consecutive tokens are not constrained after " + what);
        V a = p.tok(s[i])->end(), b = p.tok(s[i + 1])->start(); bool found = false;
        for (auto k : p.e->ce()->getConstraints()) if (k->getName() == "precedes" && k->getScope()[0] == a && k->getScope()[1] == b && k->isActive()) found = true;
        if (!found) c.violation("C10:pair-not-constrained", "no active constraint orders consecutive tokens after " + what);
      }
    }
    if (!order) return;
    // tokens that still need a place
    for (int l = 0; l < (int)w.lines.size(); ++l) {
      std::set<int> want, got, noted; 
      for (int t = 0; t < (int)w.labels.size(); ++t) { TokenId k = p.tok(t); if (k.isNoId()) continue; if (k->isActive() && !m.seqd(l, t) && k->getObject()->lastDomain().isMember(p.line(l)->getKey())) want.insert(t); auto i = p.e->db()->getTokensToOrder().find(k->getKey()); if (i != p.e->db()->getTokensToOrder().end() && i->second.second.count(p.line(l))) noted.insert(t); }
      if (!ok) continue;
      std::vector<TokenId> r; p.line(l)->getTokensToOrder(r); for (auto x : r) got.insert(p.idx(x));
      c.evals();
      std::vector<int> gv(got.begin(), got.end()), wv(want.begin(), want.end()), nv(noted.begin(), noted.end());
      if (got != want || got.size() != r.size()) c.violation("C10:tokens-to-order-after-" + kind, std::string("tokens to order on ") + w.lines[l] + ": " + seqText(w, gv) + "instead of " + seqText(w, wv) + "after " + what);
      if (p.line(l)->hasTokensToOrder() != !want.empty()) c.violation("C10:has-tokens-to-order", "hasTokensToOrder is wrong after " + what);
      if (noted != want) c.violation("C10:plan-tokens-to-order-after-" + kind, std::string("the plan's tokens to order on ") + w.lines[l] + ": " + seqText(w, nv) + "instead of " + seqText(w, wv) + "after " + what);
    }
    // times
    const View& r = freshM(w, wi, m, c); c.evals();
    if (r.lines.size() == 1 && r.lines[0] == "missing") {}
    else if (r.ok != ok) c.violation("C10:verdict-after-" + kind, std::string("the plan is ") + (ok ? "consistent" : "inconsistent") + ", a fresh one sequenced alike is not so after " + what + (r.lines.size() && !r.ok ? r.lines[0] : ""));
    else if (ok && r.lines != v.lines) c.violation("C10:times-after-" + kind, "times differ from a fresh plan sequenced alike after " + what + " -- " + diff(v.lines, r.lines, "here", "there"));
    std::string key = h.substr(0, 2) + (ok ? "" : "!") + text(v.lines) + m.text() + m.explText() + [&] { std::string s; for (auto& x : linked(p, m)) s += x + " "; return s; }();
    bool fr = c.state(key);
    if (fr && ok) choices(p, m, wi, c, what);
    if (fr && (int)ops.size() - prefix < maxDepth) for (auto& o : menu(p)) if (enabled(p, m, o)) c.emit(h + str(o) + " ");
  } catch (Error& x) { p.hurt = true; c.violation("C10:error-query", "a query raised an error (" + x.getMsg() + ") after " + what); }
}

int main(int argc, char** argv) {
  mc::Runner r("C10", argc, argv);
  memo = new std::unordered_map<std::string, View>();
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  int depth = r.quick ? 5 : 7, after = r.quick ? 4 : 6, lz = r.quick ? 2 : 4;
  std::vector<std::string> roots = {"0E0|a0 a1 ", "1E0|a0 a1 ", "2E0|a0 "};
  int d0 = r.bfs({"0E0|", "1E0|", "2E0|"}, depth, [&](const std::string& h, mc::Ctx& c) { explore(h, c, depth); });
  // sequences of three and four to start with
  roots = {"0E5|a0 a1 a2 o0,0,1 o0,1,2 ", "0E5|a0 a1 a2 o0,0,2 o1,1,1 ", "1E7|a0 a1 a2 a3 o0,0,1 o0,1,2 o0,3,2 ", "1E6|a0 a1 a2 a3 o0,1,2 o0,0,2 ", "2E6|a0 a1 a2 a3 o0,3,2 o1,1,1 ", "2E7|a0 a1 a3 a4 o0,0,3 o0,3,1 o0,1,4 "};
  int d1 = r.bfs(roots, after, [&](const std::string& h, mc::Ctx& c) { explore(h, c, after); });
  roots = {"0L3|a0 a1 a2 ", "1L4|a0 a1 a2 a3 ", "1L7|a0 a1 a2 a3 o0,0,1 o0,1,2 P0 "};
  int d2 = r.bfs(roots, lz + 1, [&](const std::string& h, mc::Ctx& c) { explore(h, c, lz + 1); });
  r.rule = "all histories of sequencing, freeing, cancelling, binding and constraining; sequence against a list model, times against fresh plans, choices against trying every position";
  r.extras.push_back({"worlds", std::to_string(worlds().size())});
  r.extras.push_back({"depth", std::to_string(d0)}); r.extras.push_back({"depth_after_prefixes", std::to_string(d1)}); r.extras.push_back({"depth_lazy", std::to_string(d2)});
  r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0E0|a0 a1 o0,0,1 a2 o0,2,1 f0,0,1"); r.sample("1E0|a0 a1 o0,0,1 c1");
  r.assumptions = {"only explicit orderings are freed by the client", "a token is sequenced only on a timeline its object variable still allows, relative to one already sequenced"};
  return r.finish();
}
