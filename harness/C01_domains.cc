// modules: Utils,TinyXml,ConstraintEngine
// C01: every domain kind as the set it denotes.  Explicit-state search: from
// every initial domain over a small universe every operation with every
// argument is applied to the real domain and to a set model, and the
// resulting domains are explored further up to a depth.
#include "mc.hh"
#include "Error.hh"
#include "Number.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "DomainListener.hh"
#include "LabelStr.hh"
using namespace EUROPA;

static const double PINF = 4503599627370495.0, NINF = -4503599627370495.0, EPS = 0.00001;
enum Kind { INT = 0, REAL, BOOL, NUM, NUMI, STR, SYM, NKIND };
static const char* KN[] = {"int", "float", "bool", "numeric-set", "int-set", "string", "symbol"};
static bool interval(int k) { return k <= BOOL; }
static bool numeric(int k) { return k <= NUMI; }
static double delta(int k) { return k == INT || k == BOOL || k == NUMI ? 1.0 : EPS; }

static std::vector<LabelStr> LABELS;
static double val(int k, double v) { return numeric(k) ? v : cast_double(LABELS[(int)v].getKey()); }

// The set model.
struct M {
  int k; bool open; double lb, ub; std::set<double> s;   // lb > ub: empty interval
  bool empty() const { return interval(k) ? lb > ub + delta(k) / 2 : s.empty(); }
  // does the denoted set contain v (an open enumeration: the values known so far)
  bool has(double v) const {
    if (interval(k)) return v >= lb - delta(k) / 2 && v <= ub + delta(k) / 2 && (k == REAL ? (v > lb - EPS && v < ub + EPS) : (std::floor(v) == v && v >= lb && v <= ub));
    for (double x : s) if (std::fabs(x - v) < 1e-9) return true;
    return false;
  }
  bool single() const { return interval(k) ? !empty() && std::fabs(lb - ub) < (k == REAL ? EPS : 0.5) : s.size() == 1; }
  double lo() const { return interval(k) ? lb : *s.begin(); }
  double hi() const { return interval(k) ? ub : *s.rbegin(); }
  bool same(const M& o) const {
    if (open != o.open) return false;
    if (interval(k)) return (empty() && o.empty()) || (std::fabs(lb - o.lb) < 1e-9 && std::fabs(ub - o.ub) < 1e-9);
    return s == o.s;
  }
  std::string str() const {
    std::ostringstream o; o << KN[k] << (open ? " open" : "");
    if (interval(k)) { if (empty()) o << "[]"; else { o << "["; if (lb <= NINF) o << "-inf"; else o << lb; o << ","; if (ub >= PINF) o << "inf"; else o << ub; o << "]"; } }
    else { o << "{"; for (double v : s) o << v << " "; o << "}"; }
    return o.str();
  }
};

#ifdef MC_PUBLIC_ONLY
static void setb(IntervalDomain* d, const M& m) { d->intersect(m.lb, m.ub); }
static edouble lbOf(const IntervalDomain& d) { return d.isEmpty() ? edouble(1) : d.getLowerBound(); }
static edouble ubOf(const IntervalDomain& d) { return d.isEmpty() ? edouble(-1e3) : d.getUpperBound(); }
static std::list<edouble> valsOf(const EnumeratedDomain& d) { std::list<edouble> l; if (!d.isEmpty()) d.getValues(l); return l; }
#else
static void setb(IntervalDomain* d, const M& m) { d->m_lb = m.lb; d->m_ub = m.ub; }
static edouble lbOf(const IntervalDomain& d) { return d.m_lb; }
static edouble ubOf(const IntervalDomain& d) { return d.m_ub; }
static const std::set<edouble>& valsOf(const EnumeratedDomain& d) { return d.m_values; }
#endif
static Domain* make(const M& m) {
  std::list<edouble> vs; for (double v : m.s) vs.push_back(val(m.k, v));
  switch (m.k) {
    case INT: { IntervalIntDomain* d = new IntervalIntDomain(); if (m.empty()) d->empty(); else setb(d, m); return d; }
    case REAL: { IntervalDomain* d = new IntervalDomain(); if (m.empty()) d->empty(); else setb(d, m); return d; }
    case BOOL: { BoolDomain* d = new BoolDomain(); if (m.empty()) d->empty(); else setb(d, m); return d; }
    case NUM: { NumericDomain* d = new NumericDomain(FloatDT::instance()); d->insert(vs); if (!m.open) d->close(); return d; }
    case NUMI: { NumericDomain* d = new NumericDomain(IntDT::instance()); d->insert(vs); if (!m.open) d->close(); return d; }
    case STR: { StringDomain* d = new StringDomain(); d->insert(vs); if (!m.open) d->close(); return d; }
    default: { SymbolDomain* d = new SymbolDomain(); d->insert(vs); if (!m.open) d->close(); return d; }
  }
}
static double label2val(double key) { for (size_t i = 0; i < LABELS.size(); ++i) if (cast_double(LABELS[i].getKey()) == key) return i; return -99; }
static M read(const Domain& d, int k) {
  M m; m.k = k; m.open = d.isOpen();
  if (interval(k)) { const IntervalDomain& i = static_cast<const IntervalDomain&>(d); m.lb = cast_double(lbOf(i)); m.ub = cast_double(ubOf(i)); if (m.empty()) { m.lb = 1; m.ub = -1e3; } return m; }
  const EnumeratedDomain& e = static_cast<const EnumeratedDomain&>(d);
  for (auto& v : valsOf(e)) m.s.insert(numeric(k) ? cast_double(v) : label2val(cast_double(v)));
  m.lb = m.ub = 0;
  return m;
}

struct Rec : public DomainListener {
  std::vector<ChangeType> ev;
  void notifyChange(const ChangeType& c) { ev.push_back(c); }
};
static const char* EVN[] = {"UPPER_BOUND_DECREASED", "LOWER_BOUND_INCREASED", "REFTIME_CHANGED", "BOUNDS_RESTRICTED", "VALUE_REMOVED", "RESTRICT_TO_SINGLETON", "SET_TO_SINGLETON", "RESET", "RELAXED", "CLOSED", "OPENED", "EMPTIED"};

enum Op { O_ISECT = 0, O_DIFF, O_EQUATE, O_RELAXD, O_RESETD, O_ASSIGN, O_CMP, O_COPY, O_SET, O_REMOVE, O_INSERT, O_ISECTB, O_EMPTY, O_CLOSE, O_OPEN, O_RELAXV, O_TOUCH, O_CONV };
static const char* ON[] = {"intersect", "difference", "equate", "relax", "reset", "assign", "compare", "copy", "set", "remove", "insert", "intersect-bounds", "empty", "close", "open", "relax-value", "touch", "convert"};

static std::vector<M> ALL;          // initial domains
static std::vector<double> U;       // points

static M iv(int k, double lb, double ub) { M m; m.k = k; m.open = false; m.lb = lb; m.ub = ub; return m; }
static M en(int k, bool open, const std::set<double>& s) { M m; m.k = k; m.open = open; m.lb = m.ub = 0; m.s = s; return m; }

static void universe(bool quick) {
  for (int i = 0; i < 4; ++i) LABELS.push_back(LabelStr(std::string(1, "dacb"[i]) + (i == 2 ? "" : "z")));
  U = {NINF, -2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 2.5, 3, 4, 5, PINF};
  std::vector<double> ib = {NINF, -1, 0, 1, 2, 3, PINF}, rb = {NINF, -1, 0, 0.5, 1, 1.5, 2, 3, PINF};
  for (double a : ib) for (double b : ib) if (a <= b && !(a == b && std::fabs(a) > 1e9)) ALL.push_back(iv(INT, a, b));
  for (double a : rb) for (double b : rb) if (a <= b && !(a == b && std::fabs(a) > 1e9)) ALL.push_back(iv(REAL, a, b));
  ALL.push_back(iv(BOOL, 0, 0)); ALL.push_back(iv(BOOL, 0, 1)); ALL.push_back(iv(BOOL, 1, 1));
  if (!quick) {
    U = {NINF, -3, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4, 5, 6, PINF};
    for (double a : {-2.0, 4.0, 5.0}) for (double b : {-2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0, PINF}) if (a <= b) { ALL.push_back(iv(INT, a, b)); ALL.push_back(iv(REAL, a, b)); }
    for (double a : {-1.5, 2.5, 3.5}) for (double b : {-1.5, 0.5, 2.0, 2.5, 3.5, 4.0, PINF}) if (a <= b) ALL.push_back(iv(REAL, a, b));
  }
  std::vector<double> nv = {0, 0.5, 1, 2, 3}, niv = {-1, 0, 1, 3}; if (!quick) { nv = {-1, 0, 0.5, 1, 1.5, 2, 3}; niv = {-2, -1, 0, 1, 3, 4}; }
  std::vector<double> lv = {0, 1, 2, 3};
  for (int open = 0; open < 2; ++open) {
    for (int b = 0; b < (1 << nv.size()); ++b) { std::set<double> s; for (size_t i = 0; i < nv.size(); ++i) if (b >> i & 1) s.insert(nv[i]); ALL.push_back(en(NUM, open, s)); }
    for (int b = 0; b < (1 << niv.size()); ++b) { std::set<double> s; for (size_t i = 0; i < niv.size(); ++i) if (b >> i & 1) s.insert(niv[i]); ALL.push_back(en(NUMI, open, s)); }
    for (int k = STR; k <= SYM; ++k)
      for (int b = 0; b < 16; ++b) { std::set<double> s; for (int i = 0; i < 4; ++i) if (b >> i & 1) s.insert(lv[i]); ALL.push_back(en(k, open, s)); }
  }
}
static bool comparable(int a, int b) { if ((a == BOOL && (b == REAL || b == NUM)) || (b == BOOL && (a == REAL || a == NUM))) return false; if ((a == NUMI && (b == REAL || b == NUM)) || (b == NUMI && (a == REAL || a == NUM))) return false; return numeric(a) ? numeric(b) : a == STR ? b == STR : b == SYM; }

// the values an element may take, as a set of points for comparison purposes:
// all values of the enumerated one, or interval algebra for two intervals
static bool subset(const M& a, const M& b) {   // both closed, non-empty
  if (!interval(a.k)) { for (double v : a.s) if (!b.has(v)) return false; return true; }
  if (interval(b.k)) {
    // intervals of different resolution are compared by their bounds
    if (a.k == REAL && b.k != REAL && !a.single() && b.lb > NINF && b.ub < PINF) return false;
    return b.lb <= a.lb && a.ub <= b.ub;
  }
  if (a.k == REAL && !a.single()) return false;
  if (a.ub - a.lb > 100) return false;
  for (double v = a.lb; v <= a.ub; v += 1) if (!b.has(v)) return false;
  return true;
}
static bool meets(const M& a, const M& b) {
  if (!interval(a.k)) { for (double v : a.s) if (b.has(v)) return true; return false; }
  if (!interval(b.k)) return meets(b, a);
  double lo = std::max(a.lb, b.lb), hi = std::min(a.ub, b.ub);
  if (a.k != REAL || b.k != REAL) { lo = std::ceil(lo); hi = std::floor(hi); }
  return lo <= hi;
}
static bool meetsBounds(const M& a, const M& b) { return interval(a.k) && interval(b.k) ? std::max(a.lb, b.lb) <= std::min(a.ub, b.ub) : meets(a, b); }
static bool setEqual(const M& a, const M& b) { return subset(a, b) && subset(b, a); }
static M isectExact(const M& a, const M& b) {   // tightest a-kind representation of a∩b (closed)
  M r = a;
  if (interval(a.k)) {
    if (interval(b.k)) {
      r.lb = std::max(a.lb, b.lb); r.ub = std::min(a.ub, b.ub);
      if (a.k != REAL || b.k != REAL) { r.lb = std::ceil(r.lb); r.ub = std::floor(r.ub); }
    } else {
      r.lb = 1; r.ub = -1e3; bool first = true;
      for (double v : b.s) if (a.has(v)) { if (first) r.lb = v; r.ub = v; first = false; }
    }
    if (r.empty()) { r.lb = 1; r.ub = -1e3; }
  } else { r.s.clear(); for (double v : a.s) if (b.has(v)) r.s.insert(v); }
  return r;
}
static M isectHull(const M& a, const M& b) {     // a ∩ enclosing interval of b
  if (a.k == BOOL && interval(b.k)) {      // zero is false, anything else is true
    M r = a; if (b.lb > 0 || b.ub < 0) r.lb = std::max(r.lb, 1.0); if (b.lb == 0 && b.ub == 0) r.ub = std::min(r.ub, 0.0);
    if (r.empty()) { r.lb = 1; r.ub = -1e3; } return r;
  }
  if (!interval(a.k) || interval(b.k)) {
    if (a.k == REAL && interval(b.k)) { M r = a; r.lb = std::max(a.lb, b.lb); r.ub = std::min(a.ub, b.ub); if (r.empty()) { r.lb = 1; r.ub = -1e3; } return r; }
    return isectExact(a, b);
  }
  if (b.s.empty()) { M r = a; r.lb = 1; r.ub = -1e3; return r; }
  return isectHull(a, iv(REAL, *b.s.begin(), *b.s.rbegin()));
}
// a ⊆ b for two contents of the same kind (closed)
static bool within(const M& a, const M& b) { return a.empty() || (interval(a.k) ? (a.lb >= b.lb - 1e-9 && a.ub <= b.ub + 1e-9 && !b.empty()) : std::includes(b.s.begin(), b.s.end(), a.s.begin(), a.s.end())); }

// bounds that an epsilon step produced are not explored further
static bool onGrid(const M& m) {
  if (interval(m.k)) { for (double v : {m.lb, m.ub}) if (v > NINF && v < PINF && (std::fabs(v) > 2e3 || std::floor(v * 2) != v * 2)) return false; return true; }
  return true;
}

static void bad(mc::Ctx& c, const std::string& sig, const std::string& msg) { c.violation(sig, msg); }

// The rules for what a listener must hear.
static void checkEvents(mc::Ctx& c, const std::string& what, const M& a, const M& b, const std::vector<DomainListener::ChangeType>& ev, bool isSet, bool restricts) {
  bool emptied = false, any = !ev.empty(); std::string all;
  for (auto e : ev) { all += std::string(EVN[e]) + " "; if (e == DomainListener::EMPTIED) emptied = true; }
  bool contentChanged = interval(a.k) ? !a.same(b) : a.s != b.s || a.open != b.open;
  std::string ctx = " (" + a.str() + " became " + b.str() + ", events: " + all + ")";
  if (b.empty() && !b.open && !a.empty() && !emptied) bad(c, "no-emptied:" + what, "the domain became empty, no EMPTIED notice" + ctx);
  if (!b.empty() && emptied) bad(c, "false-emptied:" + what, "EMPTIED notice for a domain that is not empty" + ctx);
  if (contentChanged && !any && restricts) bad(c, "no-event:" + what, "the domain changed, the listener was not told" + ctx);
  if (!contentChanged && restricts && any && !isSet && !(b.empty())) bad(c, "false-event:" + what, "the listener was told of a change that did not happen" + ctx);
  for (auto e : ev) {
    if (e == DomainListener::RESTRICT_TO_SINGLETON && !b.single()) bad(c, "false-singleton:" + what, "RESTRICT_TO_SINGLETON for a non-singleton" + ctx);
    if (e == DomainListener::SET_TO_SINGLETON && !b.single()) bad(c, "false-set:" + what, "SET_TO_SINGLETON for a non-singleton" + ctx);
    if (restricts && interval(a.k) && !b.empty() && ev.size() == 1) {
      if (e == DomainListener::UPPER_BOUND_DECREASED && (std::fabs(a.lb - b.lb) > 1e-9)) bad(c, "event-kind:" + what, "only the upper bound is said to change" + ctx);
      if (e == DomainListener::LOWER_BOUND_INCREASED && (std::fabs(a.ub - b.ub) > 1e-9)) bad(c, "event-kind:" + what, "only the lower bound is said to change" + ctx);
    }
    if (restricts && (e == DomainListener::RELAXED || e == DomainListener::RESET || e == DomainListener::OPENED)) bad(c, "event-relax:" + what, "a restriction announced as a relaxation" + ctx);
  }
  if (restricts && contentChanged && b.single() && !a.single() && !a.open && !b.empty()) {
    bool ok = false; for (auto e : ev) if (e == DomainListener::RESTRICT_TO_SINGLETON || e == DomainListener::SET_TO_SINGLETON) ok = true;
    if (!ok) bad(c, "no-singleton-event:" + what, "restricted to a singleton without saying so" + ctx);
  }
}

static void checkQueries(mc::Ctx& c, const Domain& d, const M& m) {
  std::string k = KN[m.k]; std::string ctx = " of " + m.str();
  c.evals(1);
  if (d.isEmpty() != m.empty()) bad(c, "isEmpty:" + k, "isEmpty" + ctx);
  if (d.isOpen() != m.open || d.isClosed() == m.open) bad(c, "isOpen:" + k, "isOpen" + ctx);
  if (d.isInterval() != interval(m.k) || d.isEnumerated() == interval(m.k)) bad(c, "isInterval:" + k, "isInterval" + ctx);
  if (!m.empty()) {
    if (d.isSingleton() != m.single()) bad(c, "isSingleton:" + k, "isSingleton" + ctx);
    if (m.single() && std::fabs(cast_double(d.getSingletonValue()) - val(m.k, m.hi())) > EPS) bad(c, "getSingletonValue:" + k, "getSingletonValue" + ctx);
    if (numeric(m.k)) {
      if (cast_double(d.getLowerBound()) != m.lo() || cast_double(d.getUpperBound()) != m.hi()) bad(c, "bounds:" + k, "bounds" + ctx);
      edouble lb, ub; bool inf = d.getBounds(lb, ub);
      if (cast_double(lb) != m.lo() || cast_double(ub) != m.hi()) bad(c, "getBounds:" + k, "getBounds" + ctx);
      if (inf != (m.lo() <= NINF || m.hi() >= PINF)) bad(c, "getBounds-infinite:" + k, "getBounds' infinity flag" + ctx);
      if (!m.open && d.areBoundsFinite() == inf) bad(c, "areBoundsFinite:" + k, "areBoundsFinite" + ctx);
    }
  }
  bool fin = !interval(m.k) || m.empty() || (m.k == REAL ? m.single() : m.lb > NINF && m.ub < PINF);
  if (d.isFinite() != fin || d.isInfinite() == fin) bad(c, "isFinite:" + k, "isFinite" + ctx);
  if (!m.open && fin) {
    size_t n = interval(m.k) ? (m.empty() ? 0 : m.k == REAL ? 1 : (size_t)(m.ub - m.lb + 1)) : m.s.size();
    if (d.getSize() != n) bad(c, "getSize:" + k, "getSize" + ctx + " is " + std::to_string((unsigned long)d.getSize()));
    if (!m.empty()) {
      std::list<edouble> vs; d.getValues(vs);
      if (vs.size() != n) bad(c, "getValues:" + k, "getValues" + ctx);
      std::set<double> seen;
      for (auto& v : vs) { if (!d.isMember(v)) bad(c, "getValues-member:" + k, "getValues lists a non-member" + ctx); if (!seen.insert(cast_double(v)).second) bad(c, "getValues-dup:" + k, "getValues lists a value twice" + ctx); }
    }
  }
  if (numeric(m.k)) {
    for (double v : U) if (std::fabs(v) < 1e9 && (m.k != NUMI || v == std::floor(v)) && !(m.k == REAL && m.empty()) && d.isMember(v) != m.has(v)) bad(c, "isMember:" + k, "isMember(" + std::to_string(v) + ")" + ctx);
  } else if (!(m.k == STR && m.open))
    for (size_t i = 0; i < LABELS.size(); ++i) if (d.isMember(LABELS[i]) != m.has(i)) bad(c, "isMember:" + k, "isMember" + ctx);
  // the printed form and the copy
  if (d.toString().empty()) bad(c, "toString:" + k, "toString" + ctx);
}

// Is op with this argument within the documented contract?  Then do it.
// Returns false if not applicable.
static bool applyOp(mc::Ctx& c, const M& a, int op, int argi, double argv, double argw, M* out) {
  std::string k = KN[a.k];
  bool hasArg = op <= O_CMP;
  const M* b = hasArg ? &ALL[argi] : 0;
  std::string what = std::string(ON[op]) + ":" + k + (b ? std::string("/") + KN[b->k] : "");
  if (hasArg && !comparable(a.k, b->k)) return false;
  if (a.empty() && !a.open && op != O_COPY && op != O_RELAXD && op != O_RELAXV && op != O_RESETD && !(interval(a.k) == false && (op == O_SET && a.k != STR))) return false;
  // preconditions
  switch (op) {
    case O_ISECT: case O_DIFF: case O_EQUATE:
      if (!b->open && b->empty()) return false;
      // an open numeric set has no documented meaning against an interval
      if ((a.open && interval(b->k)) || (b->open && interval(a.k))) return false;
      if (op == O_DIFF && (a.open || b->open)) return false;
      if (op == O_EQUATE && (a.k == BOOL) != (b->k == BOOL) ) { }
      break;
    case O_RELAXD: case O_RESETD:
      if (b->k != a.k || b->open != a.open || b->empty() || a.open) return false;
      if (!a.empty() && !within(a, *b)) return false;
      break;
    case O_ASSIGN: if (interval(a.k) != interval(b->k) || a.open || b->open || b->empty()) return false; if (a.k != b->k) return false; break;
    case O_CMP: if (b->empty() || a.empty()) return false; break;
    case O_SET: if (a.k == NUMI && argv != std::floor(argv)) return false; if (a.k == STR && !a.has(argv)) return false; if (!numeric(a.k) && (argv < 0 || argv > 3 || argv != std::floor(argv))) return false;
      if (a.open && a.k == STR) return false; break;
    case O_REMOVE: if (!numeric(a.k) && (argv < 0 || argv > 3 || argv != std::floor(argv))) return false;
      if (interval(a.k) && a.has(argv) && std::fabs(argv - a.lb) > EPS && std::fabs(argv - a.ub) > EPS) return false;
      if ((a.k == NUMI || (a.k != REAL && interval(a.k))) && argv != std::floor(argv)) return false;
      if (a.k == BOOL && (argv < 0 || argv > 1)) return false;
      break;
    case O_INSERT:
      if (!numeric(a.k) && (argv < 0 || argv > 3 || argv != std::floor(argv))) return false;
      if (a.k == NUMI && argv != std::floor(argv)) return false;
      if (a.k == REAL || (interval(a.k) && argv != std::floor(argv))) return false;
      if (a.k == BOOL && (argv < 0 || argv > 1)) return false;
      if (interval(a.k) && !a.empty() && !a.has(argv) && argv != a.lb - 1 && argv != a.ub + 1) return false;
      if (!interval(a.k) && !a.open) return false;
      break;
    case O_ISECTB: if (!numeric(a.k) || a.open || argv > argw || (argv == argw && std::fabs(argv) > 1e9)) return false; if ((a.k == NUMI || a.k == BOOL) && ((std::fabs(argv) < 1e9 && argv != std::floor(argv)) || (std::fabs(argw) < 1e9 && argw != std::floor(argw)))) return false; break;
    case O_CLOSE: if (interval(a.k)) return false; break;
    case O_OPEN: if (interval(a.k) || a.open) return false; break;
    case O_RELAXV: if (!a.empty() || a.open || !numeric(a.k) || a.k == BOOL) return false; if ((a.k == NUMI || a.k == INT) && argv != std::floor(argv)) return false; break;
    case O_CONV: if (a.empty() || a.open) return false; break;
    default: break;
  }
  Domain* d = make(a); Domain* e = b ? make(*b) : 0;
  Rec *rd = new Rec(), *re = new Rec();
  bool listen = op != O_ASSIGN && op != O_COPY;
  if (listen) { d->setListener(rd->getId()); if (e) e->setListener(re->getId()); }
  rd->ev.clear(); re->ev.clear();
  M want = a; bool ret = false, hasRet = false;
  try {
    switch (op) {
      case O_ISECT: {
        ret = d->intersect(*e); hasRet = true;
        M got = read(*d, a.k);
        if (a.open && !b->open) {
          want.open = false; want.s = b->s;
          if (!got.same(want)) bad(c, "result:" + what, a.str() + " ∩ " + b->str() + " gives " + got.str());
        } else if (b->open) { if (!got.same(a)) bad(c, "result:" + what, a.str() + " ∩ " + b->str() + " gives " + got.str()); }
        else {
          M lo = isectExact(a, *b), hi = isectHull(a, *b);
          if (!within(lo, got)) bad(c, "lost:" + what, a.str() + " ∩ " + b->str() + " gives " + got.str() + ": a common value is lost");
          if (!within(got, hi)) bad(c, "kept:" + what, a.str() + " ∩ " + b->str() + " gives " + got.str() + ": a value outside is kept");
        }
        want = got; break; }
      case O_DIFF: {
        if (interval(a.k) && interval(b->k) == false) { delete d; delete e; delete rd; delete re; return false; }
        M exact = a;
        if (interval(a.k)) {
          double gap = delta(a.k);
          // splitting is not representable and documented as an error
          if (a.lb < b->lb - gap / 2 && b->ub < a.ub - gap / 2) { delete d; delete e; delete rd; delete re; return false; }
          if (a.k != REAL && b->k == REAL && (b->lb != std::floor(b->lb) || b->ub != std::floor(b->ub))) { delete d; delete e; delete rd; delete re; return false; }
          if (a.k == REAL && b->k != REAL && !b->single()) { delete d; delete e; delete rd; delete re; return false; }
          if (b->ub < a.lb || b->lb > a.ub) ;
          else if (b->lb <= a.lb && a.ub <= b->ub) { exact.lb = 1; exact.ub = -1e3; }
          else if (b->lb <= a.lb) exact.lb = b->ub + gap;
          else exact.ub = b->lb - gap;
          if (!exact.empty() && (exact.lb >= PINF || exact.ub <= NINF)) { delete d; delete e; delete rd; delete re; return false; }
        } else { exact.s.clear(); for (double v : a.s) if (!b->has(v)) exact.s.insert(v); }
        ret = d->difference(*e); hasRet = true;
        M got = read(*d, a.k);
        if (!got.same(exact)) bad(c, "result:" + what, a.str() + " \\ " + b->str() + " gives " + got.str() + ", expected " + exact.str());
        want = got; break; }
      case O_EQUATE: {
        ret = d->equate(*e);
        M ga = read(*d, a.k), gb = read(*e, b->k);
        std::string res = a.str() + " equate " + b->str() + " gives " + ga.str() + " and " + gb.str();
        if (a.open || b->open) {
          if (a.open && b->open) { if (!ga.same(a) || !gb.same(*b)) bad(c, "result:" + what, res); }
          else {
            const M& cl = a.open ? *b : a;
            bool e1 = ga.s == cl.s && !ga.open, e2 = gb.s == cl.s && !gb.open;
            if (!e1 || !e2) bad(c, "result:" + what, res);
          }
        } else {
          bool any = meets(a, *b);
          M xa = isectExact(a, *b), xb = isectExact(*b, a);
          if (any) {
            if (!within(xa, ga) || !within(xb, gb)) bad(c, "lost:" + what, res + ": a common value is lost");
            if (!within(ga, isectHull(a, *b)) || !within(gb, isectHull(*b, a))) bad(c, "kept:" + what, res + ": a value outside is kept");
            if ((!interval(a.k) || !interval(b->k)) && (!ga.same(xa) || !gb.same(xb))) bad(c, "inexact:" + what, res + ", exact is " + xa.str() + " and " + xb.str());
          } else if (!ga.empty() && !gb.empty()) bad(c, "not-emptied:" + what, res + ": nothing is common, none is empty");
          else if (ga.empty() && gb.empty()) bad(c, "both-emptied:" + what, res);
        }
        bool changed = !ga.same(a) || !gb.same(*b);
        if (ret != changed) bad(c, "return:" + what, res + ", reported " + (ret ? "changed" : "unchanged"));
        checkEvents(c, what, a, ga, rd->ev, false, true);
        checkEvents(c, what, *b, gb, re->ev, false, true);
        want = ga; break; }
      case O_RELAXD: case O_RESETD: {
        if (op == O_RELAXD) d->relax(*e); else d->reset(*e);
        M got = read(*d, a.k);
        if (!got.same(*b)) bad(c, "result:" + what, a.str() + " " + ON[op] + " " + b->str() + " gives " + got.str());
        bool told = false; for (auto x : rd->ev) if (x == DomainListener::RELAXED || x == DomainListener::RESET) told = true;
        if (!a.same(*b) && !told) bad(c, "no-event:" + what, a.str() + " relaxed to " + b->str() + " without a notice");
        for (auto x : rd->ev) if (x == DomainListener::EMPTIED || DomainListener::isRestriction(x)) bad(c, "event-restrict:" + what, "a relaxation announced as a restriction");
        want = got; break; }
      case O_ASSIGN: {
        *d = *e; M got = read(*d, a.k);
        if (interval(a.k) ? !got.same(*b) : got.s != b->s) bad(c, "result:" + what, a.str() + " = " + b->str() + " gives " + got.str());
        want = *b; break; }
      case O_CMP: {
        bool eq = *d == *e, ne = *d != *e;
        if (eq == ne) bad(c, "eq-ne:" + what, a.str() + " == and != " + b->str() + " agree");
        bool weq;
        if (a.open || b->open) weq = a.open && b->open && !interval(a.k) && !interval(b->k) && (a.s == b->s || a.k == STR); else weq = setEqual(a, *b);
        if (eq != weq) bad(c, "eq:" + what, a.str() + " == " + b->str() + " is " + (eq ? "true" : "false"));
        bool sub = d->isSubsetOf(*e), wsub = b->open ? true : a.open ? false : subset(a, *b);
        if (sub != wsub) bad(c, "isSubsetOf:" + what, a.str() + " isSubsetOf " + b->str() + " is " + (sub ? "true" : "false"));
        bool in = d->intersects(*e), win = a.open || b->open ? true : meetsBounds(a, *b);
        if (in != win) bad(c, "intersects:" + what, a.str() + " intersects " + b->str() + " is " + (in ? "true" : "false"));
        if (!read(*d, a.k).same(a) || !read(*e, b->k).same(*b)) bad(c, "query-changes:" + what, "a comparison changed a domain");
        break; }
      case O_COPY: {
        Domain* f = d->copy();
        if (!read(*f, a.k).same(a)) bad(c, "copy:" + k, "copy of " + a.str() + " is " + read(*f, a.k).str());
        if (!f->getListener().isNoId()) bad(c, "copy-listener:" + k, "a copy shares the listener");
        if (f->getDataType() != d->getDataType()) bad(c, "copy-type:" + k, "a copy has another type");
        delete f; break; }
      case O_SET: {
        d->set(val(a.k, argv)); M got = read(*d, a.k);
        M x = a; x.open = false;
        if (a.has(argv)) { x.lb = x.ub = argv; x.s.clear(); if (!interval(a.k)) x.s.insert(argv); }
        else { x.lb = 1; x.ub = -1e3; x.s.clear(); }
        if (!got.same(x)) bad(c, "result:" + what, a.str() + " set to " + std::to_string(argv) + " gives " + got.str());
        want = got; break; }
      case O_REMOVE: {
        M x = a;
        if (interval(a.k)) { if (a.has(argv)) { if (std::fabs(argv - a.lb) < EPS) x.lb += delta(a.k); else x.ub -= delta(a.k); if (x.empty()) { x.lb = 1; x.ub = -1e3; } } }
        else x.s.erase(argv);
        d->remove(val(a.k, argv)); M got = read(*d, a.k);
        if (!got.same(x)) bad(c, "result:" + what, a.str() + " without " + std::to_string(argv) + " gives " + got.str());
        want = got; break; }
      case O_INSERT: {
        M x = a;
        if (interval(a.k)) { if (a.empty()) { x.lb = x.ub = argv; } else { x.lb = std::min(x.lb, argv); x.ub = std::max(x.ub, argv); } }
        else x.s.insert(argv);
        d->insert(val(a.k, argv)); M got = read(*d, a.k);
        if (!got.same(x)) bad(c, "result:" + what, a.str() + " with " + std::to_string(argv) + " inserted gives " + got.str());
        for (auto ev : rd->ev) if (ev == DomainListener::EMPTIED || DomainListener::isRestriction(ev)) bad(c, "event-restrict:" + what, "an insertion announced as a restriction");
        want = got; break; }
      case O_ISECTB: {
        M r = iv(REAL, argv, argw);
        ret = d->intersect(edouble(argv), edouble(argw)); hasRet = true;
        M got = read(*d, a.k), x = a.k == BOOL ? isectHull(a, r) : isectExact(a, r);
        if (!got.same(x)) bad(c, "result:" + what, a.str() + " ∩ [" + std::to_string(argv) + "," + std::to_string(argw) + "] gives " + got.str());
        want = got; break; }
      case O_EMPTY: d->empty(); want = read(*d, a.k); if (!want.empty()) bad(c, "result:" + what, "empty() leaves " + want.str()); break;
      case O_CLOSE: { d->close(); M x = a; x.open = false; want = read(*d, a.k); if (!want.same(x)) bad(c, "result:" + what, "close() of " + a.str() + " gives " + want.str()); 
        bool told = false; for (auto ev : rd->ev) if (ev == DomainListener::CLOSED) told = true; if (told != a.open) bad(c, "close-event:" + k, "CLOSED is announced exactly on closing"); break; }
      case O_OPEN: { d->open(); M x = a; x.open = true; want = read(*d, a.k); if (!want.same(x)) bad(c, "result:" + what, "open() of " + a.str() + " gives " + want.str());
        bool told = false; for (auto ev : rd->ev) if (ev == DomainListener::OPENED) told = true; if (!told) bad(c, "open-event:" + k, "OPENED is not announced"); break; }
      case O_RELAXV: { d->relax(edouble(argv)); want = read(*d, a.k); if (!want.single() || want.hi() != argv) bad(c, "result:" + what, "relax to a value gives " + want.str());
        bool told = false; for (auto ev : rd->ev) if (ev == DomainListener::RELAXED) told = true; if (!told) bad(c, "no-event:" + what, "relaxation to a value is not announced"); break; }
      case O_TOUCH: d->touch(); want = read(*d, a.k); if (!want.same(a)) bad(c, "result:" + what, "touch changed the domain"); if (rd->ev.empty()) bad(c, "touch:" + k, "touch is not announced"); break;
      case O_CONV:
        if (numeric(a.k)) { for (double v : U) if (std::fabs(v) < 1e9 && (a.k != NUMI || v == std::floor(v))) { std::ostringstream o; o << v; edouble r = -77; bool ok = d->convertToMemberValue(o.str(), r); if (ok != a.has(v) || (ok && cast_double(r) != v)) bad(c, "convert:" + k, "convertToMemberValue(" + o.str() + ") in " + a.str()); } }
        else for (size_t i = 0; i < LABELS.size(); ++i) { edouble r = -77; bool ok = d->convertToMemberValue(LABELS[i].toString(), r); if (ok != a.has(i) || (ok && r != LABELS[i].getKey())) bad(c, "convert:" + k, "convertToMemberValue in " + a.str()); }
        break;
    }
    if (hasRet) {
      bool changed = !want.same(a);
      if (ret != changed) bad(c, "return:" + what, a.str() + (b ? " with " + b->str() : "") + " becomes " + want.str() + ", reported " + (ret ? "changed" : "unchanged"));
    }
    if (op == O_ISECT || op == O_DIFF || op == O_SET || op == O_REMOVE || op == O_ISECTB || op == O_EMPTY || op == O_CLOSE)
      checkEvents(c, what, a, want, rd->ev, op == O_SET || op == O_CLOSE, true);
    if (e && op != O_EQUATE && !read(*e, b->k).same(*b)) bad(c, "argument-changed:" + what, "the argument changed");
    if (op != O_CMP && onGrid(want)) { checkQueries(c, *d, want); if (e) checkQueries(c, *e, read(*e, b->k)); }
  } catch (Error& er) {
    bad(c, "internal-error:" + what, a.str() + (b ? " with " + b->str() : "") + " value " + std::to_string(argv) + ": " + er.getMsg());
  }
  delete d; delete e; delete rd; delete re;
  *out = want;
  return true;
}

static std::string caseOf(const M& a, int op, int argi, double v, double w) {
  std::ostringstream o; o.precision(17);
  o << "dom|" << a.k << "|" << a.open << "|" << a.lb << "|" << a.ub << "|" << a.s.size();
  for (double x : a.s) o << "|" << x;
  o << "|" << op << "|" << argi << "|" << v << "|" << w << " # " << a.str() << " " << ON[op];
  if (op <= O_CMP) o << " " << ALL[argi].str();
  return o.str();
}

static void expand(mc::Ctx& c, const M& a, std::vector<M>& out) {
  for (int op = 0; op <= O_CONV; ++op) {
    std::vector<int> args{0}; std::vector<std::pair<double, double>> vs{{0, 0}};
    if (op <= O_CMP) { args.clear(); for (size_t i = 0; i < ALL.size(); ++i) args.push_back(i); }
    else if (op == O_SET || op == O_REMOVE || op == O_INSERT || op == O_RELAXV) { vs.clear(); for (double v : U) if (std::fabs(v) < 1e9) vs.push_back({v, 0}); }
    else if (op == O_ISECTB) { vs.clear(); for (double v : U) for (double w : U) if (v <= w) vs.push_back({v, w}); }
    for (int i : args) for (auto& p : vs) {
      c.begin(caseOf(a, op, i, p.first, p.second));
      M r; if (applyOp(c, a, op, i, p.first, p.second, &r)) { c.transitions(1); c.trace(); out.push_back(r); }
    }
  }
}

int main(int argc, char** argv) {
  Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings();
  mc::Runner R("C01", argc, argv);
  universe(R.quick);
  if (R.replaying) R.replay([](mc::Ctx& c, const std::string& s) {
    std::istringstream in(s); std::string t; std::vector<double> f; std::getline(in, t, '|');
    while (std::getline(in, t, '|')) f.push_back(atof(t.c_str()));
    M a; size_t i = 0; a.k = f[i++]; a.open = f[i++]; a.lb = f[i++]; a.ub = f[i++]; int n = f[i++]; while (n--) a.s.insert(f[i++]);
    int op = f[i++], argi = f[i++]; double v = f[i++], w = f[i++]; M r;
    applyOp(c, a, op, argi, v, w, &r);
  });
  // level by level: the initial domains, then every domain some operation led to
  int depth = R.quick ? 3 : 5;
  std::vector<M> frontier = ALL; std::set<std::string> seen; for (auto& m : ALL) seen.insert(m.str());
  for (int k = 0; k < NKIND; ++k) if (interval(k)) { M m = iv(k, 1, -1e3); frontier.push_back(m); seen.insert(m.str()); }
  std::vector<std::string> detail;
  for (int d = 0; d < depth && !frontier.empty() && !R.timeup(); ++d) {
    size_t nch = std::min<size_t>(frontier.size(), 256);
    R.parallel(nch, [&](size_t k, mc::Ctx& c) {
      std::ofstream o((R.dir + "/l" + std::to_string(k)).c_str()); o.precision(17);
      std::set<std::string> mine;
      for (size_t i = k; i < frontier.size(); i += nch) {
        std::vector<M> out; c.state(frontier[i].str() + std::to_string(frontier[i].open)); expand(c, frontier[i], out);
        for (auto& m : out) if (onGrid(m) && mine.insert(m.str()).second) { o << m.k << " " << m.open << " " << m.lb << " " << m.ub << " " << m.s.size(); for (double v : m.s) o << " " << v; o << "\n"; }
      }
    });
    std::vector<M> next;
    for (size_t k = 0; k < nch; ++k) {
      std::string f = R.dir + "/l" + std::to_string(k); std::ifstream in(f.c_str()); M m; int n;
      while (in >> m.k >> m.open >> m.lb >> m.ub >> n) { m.s.clear(); while (n--) { double v; in >> v; m.s.insert(v); } if (seen.insert(m.str()).second) next.push_back(m); }
      in.close(); unlink(f.c_str());
    }
    R.sample("level " + std::to_string(d) + ": " + std::to_string(frontier.size()) + " domains expanded, " + std::to_string(next.size()) + " new");
    frontier.swap(next);
  }
  if (R.timeup()) R.exhaustive = false;
  R.rule = "each trace is one operation applied to the real domain and to the set model from one reachable domain content; evaluations counts full query sweeps";
  R.assumptions = {"operations are called within their documented preconditions (no insertion into a closed set, no removal that would split an interval, relaxation only to a superset)",
                   "an interval intersected with an enumeration may keep the enclosing interval",
                   "open numeric enumerations are not combined with intervals (documented as an error)"};
  return R.finish();
}
