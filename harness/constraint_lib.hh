// The constraint library as relations: what each constraint type a model can
// name means on fully bound arguments, with the argument kinds it accepts, and
// helpers to post it in a real engine.  Shared by C02 and C03.
#ifndef CONSTRAINT_LIB_HH
#define CONSTRAINT_LIB_HH
#include "mc.hh"
#include "Error.hh"
#include "Number.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "LabelStr.hh"
#include "CESchema.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "ConstraintType.hh"
#include "Constraints.hh"
#include "Propagators.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "Module.hh"
#include <cmath>
namespace lib {
using namespace EUROPA;

static const double PINF = 4503599627370495.0, NINF = -4503599627370495.0;
typedef std::vector<double> Vals;
inline bool same(double a, double b) { return std::fabs(a - b) < 1e-6; }

// 1 holds, 0 does not, -1 not specified for these values
typedef int (*Rel)(const Vals&);

inline int allSame(const Vals& v, size_t from) { for (size_t i = from + 1; i < v.size(); ++i) if (!same(v[i], v[from])) return 0; return 1; }
inline int allDiffer(const Vals& v, size_t from) { for (size_t i = from; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) if (same(v[i], v[j])) return 0; return 1; }
inline double maxOf(const Vals& v, size_t a, size_t b) { double m = v[a]; for (size_t i = a; i < b; ++i) m = std::max(m, v[i]); return m; }
inline double minOf(const Vals& v, size_t a, size_t b) { double m = v[a]; for (size_t i = a; i < b; ++i) m = std::min(m, v[i]); return m; }
inline int zeroes(const Vals& v) { int n = 0; for (size_t i = 1; i < v.size(); ++i) n += v[i] == 0; return n; }

struct Entry {
  const char* name;
  std::vector<std::string> sigs;   // one letter per argument
  Rel rel;
  bool c02;                        // the relation is also a bound on propagation
};
// I int interval, R real interval, B bool, E enumerated ints, F enumerated reals, S symbols
inline const std::vector<Entry>& table() {
  static std::vector<Entry> t = {
    {"eq", {"II", "RR", "IR", "RI", "BB", "EE", "EI", "IE", "FF", "FR", "SS", "III", "RRR", "EEE", "EIE", "SSS", "IIII"}, [](const Vals& v) { return allSame(v, 0); }, true},
    {"neq", {"II", "RR", "IR", "RI", "BB", "EE", "EI", "IE", "FF", "SS"}, [](const Vals& v) { return int(!same(v[0], v[1])); }, true},
    {"leq", {"II", "RR", "IR", "RI", "BB"}, [](const Vals& v) { return int(v[0] <= v[1]); }, true},
    {"lt", {"II", "RR", "IR", "RI", "BB"}, [](const Vals& v) { return int(v[0] < v[1]); }, true},
    {"subsetOf", {"II", "RR", "BB", "EE", "SS", "FF"}, [](const Vals& v) { return int(same(v[0], v[1])); }, true},
    {"addEq", {"III", "RRR", "IIR", "IRR", "RIR", "RRI", "IRI"}, [](const Vals& v) { return int(same(v[0] + v[1], v[2])); }, true},
    {"multEq", {"III", "RRR", "IIR", "IRR", "RRI"}, [](const Vals& v) { return int(same(v[0] * v[1], v[2])); }, true},
    {"mulEq", {"III"}, [](const Vals& v) { return int(same(v[0] * v[1], v[2])); }, true},
    {"divEq", {"III", "RRR", "IIR", "RRI"}, [](const Vals& v) { return v[1] == 0 ? (v[0] == 0 ? -1 : 0) : int(same(v[0] / v[1], v[2])); }, true},
    {"eqSum", {"III", "RRR", "IIII", "RRRR", "IIIII", "RIR", "IIIIII"}, [](const Vals& v) { double s = 0; for (size_t i = 1; i < v.size(); ++i) s += v[i]; return int(same(s, v[0])); }, true},
    {"eqProduct", {"III", "RRR", "IIII", "IIIII"}, [](const Vals& v) { double s = 1; for (size_t i = 1; i < v.size(); ++i) s *= v[i]; return int(same(s, v[0])); }, true},
    {"eqMaximum", {"III", "RRR", "IIII", "RRRR", "EEE", "IIR", "RII"}, [](const Vals& v) { return int(same(v[0], maxOf(v, 1, v.size()))); }, true},
    {"eqMinimum", {"III", "RRR", "IIII", "RRRR", "EEE", "IIR", "RII"}, [](const Vals& v) { return int(same(v[0], minOf(v, 1, v.size()))); }, true},
    {"max", {"III", "IIII"}, [](const Vals& v) { return int(same(v.back(), maxOf(v, 0, v.size() - 1))); }, true},
    {"allMax", {"III"}, [](const Vals& v) { return int(same(v.back(), maxOf(v, 0, v.size() - 1))); }, true},
    {"min", {"III", "IIII"}, [](const Vals& v) { return int(same(v.back(), minOf(v, 0, v.size() - 1))); }, true},
    {"allMin", {"III"}, [](const Vals& v) { return int(same(v.back(), minOf(v, 0, v.size() - 1))); }, true},
    {"condEq", {"BII", "BEE", "BSS", "BRR", "BIII", "BEEE", "BIIII"}, [](const Vals& v) { return int((v[0] != 0) == (allSame(v, 1) == 1)); }, true},
    {"condAllDiff", {"BII", "BEE", "BSS", "BRR", "BIII", "BEEE", "BIIII"}, [](const Vals& v) { return int((v[0] != 0) == (allDiffer(v, 1) == 1)); }, true},
    {"allDiff", {"II", "EE", "SS", "III", "EEE", "SSS", "IIII", "EEEE"}, [](const Vals& v) { return allDiffer(v, 0); }, true},
    {"memberImply", {"IIII", "EEEE", "SSSS", "IEEI"}, [](const Vals& v) { return int(!same(v[1], v[2]) || same(v[0], v[3])); }, false},
    {"countZeroes", {"II", "III", "IBB", "IEE", "IRR", "IIII", "IBBB"}, [](const Vals& v) { return int(v[0] == zeroes(v)); }, true},
    {"countNonZeroes", {"II", "III", "IBB", "IEE", "IRR", "IIII", "IBBB"}, [](const Vals& v) { return int(v[0] == int(v.size()) - 1 - zeroes(v)); }, true},
    {"or", {"I", "B", "II", "BB", "EE", "IB", "III", "BBB"}, [](const Vals& v) { for (double x : v) if (x != 0) return 1; return 0; }, true},
    {"neg", {"II", "RR"}, [](const Vals& v) { return int(same(v[0], -v[1])); }, true},
    {"absVal", {"II", "RR"}, [](const Vals& v) { return int(same(v[0], std::fabs(v[1]))); }, true},
    {"testEq", {"BII", "BRR", "BIR", "BBB", "BEE", "BEI", "BSS"}, [](const Vals& v) { return int((v[0] != 0) == same(v[1], v[2])); }, true},
    {"testNeq", {"BII", "BRR", "BIR", "BRI", "BBB", "BEE", "BEI", "BSS"}, [](const Vals& v) { return int((v[0] != 0) != same(v[1], v[2])); }, true},
    {"testLessThan", {"BII", "BRR", "BIR", "BRI"}, [](const Vals& v) { return int((v[0] != 0) == (v[1] < v[2])); }, true},
    {"testLeq", {"BII", "BRR", "BIR", "BRI"}, [](const Vals& v) { return int((v[0] != 0) == (v[1] <= v[2])); }, true},
    {"testAnd", {"BBB"}, [](const Vals& v) { return int((v[0] != 0) == (v[1] != 0 && v[2] != 0)); }, true},
    {"testOr", {"BBB"}, [](const Vals& v) { return int((v[0] != 0) == (v[1] != 0 || v[2] != 0)); }, true},
    {"testSingleton", {"BI", "BE", "BS"}, [](const Vals& v) { return int(v[0] != 0); }, true},
    {"testSpecified", {"BI", "BE", "BS"}, [](const Vals& v) { return int(v[0] != 0); }, true},
    {"withinBounds", {"III", "RRR"}, [](const Vals& v) { return int(v[1] <= v[0] && v[0] <= v[2]); }, true},
    {"lockCT", {"II", "EE", "SS", "RR"}, [](const Vals& v) { return int(same(v[0], v[1])); }, false},
    {"maxf", {"III", "RRR"}, [](const Vals& v) { return int(same(v[0], std::max(v[1], v[2]))); }, true},
    {"minf", {"III", "RRR"}, [](const Vals& v) { return int(same(v[0], std::min(v[1], v[2]))); }, true},
    {"abs", {"II", "RR"}, [](const Vals& v) { return int(same(v[0], std::fabs(v[1]))); }, true},
    {"pow", {"III", "RRR"}, [](const Vals& v) { if (v[1] == 0 && v[2] == 0) return -1; double p = std::pow(v[1], v[2]); return p != p ? 0 : int(same(v[0], p)); }, true},
    {"sqrt", {"II", "RR", "RI"}, [](const Vals& v) { return v[1] < 0 ? 0 : int(same(v[0], std::sqrt(v[1]))); }, true},
    {"mod", {"III"}, [](const Vals& v) { return v[2] == 0 ? 0 : int(same(v[0], std::fmod(v[1], v[2]))); }, true},
    {"floor", {"II", "RR", "IR"}, [](const Vals& v) { return int(same(v[0], std::floor(v[1]))); }, true},
    {"ceil", {"II", "RR", "IR"}, [](const Vals& v) { return int(same(v[0], std::ceil(v[1]))); }, true},
    {"calcDistance", {"RIIII", "RRRRR"}, [](const Vals& v) { return int(std::fabs(v[0] - std::sqrt((v[3] - v[1]) * (v[3] - v[1]) + (v[4] - v[2]) * (v[4] - v[2]))) < 1e-6); }, true},
    {"diffSquare", {"III", "RRR"}, [](const Vals& v) { return int(same(v[2], (v[0] - v[1]) * (v[0] - v[1]))); }, true},
    {"distanceSquares", {"RRR"}, [](const Vals& v) { return v[0] + v[1] < 0 ? 0 : int(same(v[2], std::sqrt(v[0] + v[1]))); }, true},
    {"sin", {"RR", "RI"}, [](const Vals& v) { return v[1] < -90 || v[1] > 90 ? 0 : int(std::fabs(v[0] - std::sin(v[1] * M_PI / 180)) < 1e-6); }, true},
    {"eqUnion", {"II", "III", "EE", "EEE", "EII"}, [](const Vals& v) { return allSame(v, 0); }, true},
  };
  return t;
}

// A starting domain.
struct D { char k; double lb, ub; std::vector<double> vs; };
inline D iv(char k, double a, double b) { D d; d.k = k; d.lb = a; d.ub = b; return d; }
inline D en(char k, const std::vector<double>& v) { D d; d.k = k; d.lb = v.front(); d.ub = v.back(); d.vs = v; return d; }
inline std::string str(const D& d) {
  std::ostringstream o; o << d.k;
  if (d.vs.empty()) { o << "["; if (d.lb <= NINF) o << "-inf"; else o << d.lb; o << ","; if (d.ub >= PINF) o << "inf"; else o << d.ub; o << "]"; }
  else { o << "{"; for (size_t i = 0; i < d.vs.size(); ++i) o << (i ? "," : "") << d.vs[i]; o << "}"; }
  return o.str();
}
// Ordered so that a prefix is already varied.
inline const std::vector<D>& domains(char k) {
  static std::map<char, std::vector<D>> m;
  if (m.empty()) {
    for (char c : {'I', 'R'}) {
      std::vector<D>& v = m[c];
      double ext[][2] = {{0, 2}, {-1, 1}, {1, 1}, {NINF, PINF}, {0, 0}, {1, 3}, {-2, 3}, {0, PINF}, {2, 3}, {-2, -1}, {0, 1}, {2, 2}, {NINF, 1}, {-1, -1}, {1, PINF}, {-1, 2}, {3, 3}, {NINF, -1}, {-2, 0}, {1, 2}, {0, 3}, {-2, -2}, {-1, 0}, {-1, 3}, {-2, 1}, {-2, 2}, {NINF, 0}};
      for (auto& e : ext) v.push_back(iv(c, e[0], e[1]));
    }
    m['R'].insert(m['R'].begin() + 2, iv('R', 0.5, 0.5)); m['R'].insert(m['R'].begin() + 5, iv('R', -0.5, 1.5)); m['R'].insert(m['R'].begin() + 10, iv('R', 0.5, 2.5)); m['R'].insert(m['R'].begin() + 12, iv('R', -1.5, -0.5));
    m['B'] = {iv('B', 0, 1), iv('B', 1, 1), iv('B', 0, 0)};
    m['E'] = {en('E', {0, 1, 2}), en('E', {1}), en('E', {0, 2}), en('E', {-1, 1, 3}), en('E', {0}), en('E', {1, 2}), en('E', {0, 1}), en('E', {2}), en('E', {-1, 0}), en('E', {-1, 0, 1, 2}), en('E', {3}), en('E', {-1, 3}), en('E', {0, 3}), en('E', {2, 3}), en('E', {-1})};
    m['F'] = {en('F', {0, 0.5, 1}), en('F', {0.5}), en('F', {0.5, 2}), en('F', {1, 1.5}), en('F', {0}), en('F', {-0.5, 0.5}), en('F', {1}), en('F', {0, 1, 2})};
    m['S'] = {en('S', {0, 1, 2}), en('S', {1}), en('S', {0, 2}), en('S', {0}), en('S', {1, 2}), en('S', {0, 1}), en('S', {2})};
  }
  return m[k];
}
inline bool contains(const D& d, double v) {
  if (!d.vs.empty()) { for (double x : d.vs) if (same(x, v)) return true; return false; }
  return v >= d.lb && v <= d.ub;
}
// The values tried for an argument of this domain.
inline std::vector<double> grid(const D& d, double win, double step) {
  if (!d.vs.empty()) return d.vs;
  std::vector<double> r;
  double s = d.k == 'R' ? step : 1.0;
  for (double v = std::max(d.lb, -win); v <= std::min(d.ub, win) + 1e-9; v += s) r.push_back(v);
  return r;
}

inline const std::vector<LabelStr>& labels() { static std::vector<LabelStr> l = {LabelStr("red"), LabelStr("blue"), LabelStr("green")}; return l; }
inline edouble code(char k, double v) { return k == 'S' ? labels()[(int)v].getKey() : edouble(v); }

// The project's own modules register the types.
class LibEngine : public EngineBase {
 public:
  LibEngine() { addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); doStart(); }
  ~LibEngine() { doShutdown(); }
  CESchemaId schema() { return ((CESchema*)getComponent("CESchema"))->getId(); }
};

struct Net {
  ConstraintEngine* ce;
  std::vector<ConstrainedVariableId> vars;
  std::vector<ConstraintId> cs;
  std::vector<char> kinds;
  explicit Net(const CESchemaId ces) { ce = new ConstraintEngine(ces); new DefaultPropagator("Default", ce->getId()); ce->setAutoPropagation(false); }
  ~Net() {
    for (auto it = cs.rbegin(); it != cs.rend(); ++it) delete static_cast<Constraint*>(*it);
    for (auto& v : vars) delete static_cast<ConstrainedVariable*>(v);
    delete ce;
  }
  static Domain* make(const D& d) {
    std::list<edouble> l; for (double v : d.vs) l.push_back(code(d.k, v));
    switch (d.k) {
      case 'I': return new IntervalIntDomain(eint((long)d.lb), eint((long)d.ub));
      case 'R': return new IntervalDomain(d.lb, d.ub);
      case 'B': { BoolDomain* b = new BoolDomain(); if (d.lb == d.ub) b->set(edouble(d.lb)); return b; }
      case 'E': return new NumericDomain(l, IntDT::instance());
      case 'F': return new NumericDomain(l, FloatDT::instance());
      default: return new SymbolDomain(l);
    }
  }
  static const char* type(char k) { return k == 'I' || k == 'E' ? "int" : k == 'R' || k == 'F' ? "float" : k == 'B' ? "bool" : "symbol"; }
  void var(const D& d) {
    Domain* dom = make(d);
    if (dom->isOpen()) dom->close();
    std::ostringstream n; n << "v" << vars.size();
    vars.push_back(ce->createVariable(type(d.k), *dom, false, true, n.str())); kinds.push_back(d.k);
    delete dom;
  }
  void restrict(size_t i, const D& d) {
    Domain* dom = make(d);
    if (dom->isOpen()) dom->close();
    vars[i]->restrictBaseDomain(*dom);
    delete dom;
  }
  void post(const std::string& name, const std::vector<int>& scope) {
    std::vector<ConstrainedVariableId> s; for (int i : scope) s.push_back(vars[i]);
    cs.push_back(ce->createConstraint(name, s));
  }
  bool has(size_t i, double v) { const Domain& d = vars[i]->lastDomain(); return !d.isEmpty() && d.isMember(code(kinds[i], v)); }
  std::string dom(size_t i) { return vars[i]->lastDomain().toString(); }
};
// Networks over x,y,z (ints) and b,d (bools)
struct Inst { const char* name; std::vector<int> scope; };
enum { X = 0, Y, Z, B, DD };
inline const std::vector<Inst>& insts() {
  static std::vector<Inst> v = {
    {"leq", {X, Y}}, {"lt", {Y, Z}}, {"lt", {Z, X}}, {"eq", {X, Z}}, {"neq", {X, Y}}, {"subsetOf", {Y, X}},
    {"addEq", {X, Y, Z}}, {"addEq", {Z, X, Y}}, {"multEq", {X, Y, Z}}, {"divEq", {Z, X, Y}},
    {"eqSum", {Z, X, Y}}, {"eqMaximum", {Z, X, Y}}, {"eqMinimum", {X, Y, Z}}, {"max", {X, Y, Z}},
    {"allDiff", {X, Y, Z}}, {"condEq", {B, X, Y}}, {"condEq", {DD, X, Y, Z}}, {"condAllDiff", {B, X, Y, Z}}, {"condAllDiff", {DD, Y, Z}},
    {"testEq", {B, X, Y}}, {"testNeq", {DD, Y, Z}}, {"testLessThan", {B, X, Z}}, {"testLeq", {DD, Z, Y}},
    {"countZeroes", {X, Y, Z}}, {"countNonZeroes", {Z, X, Y, B}}, {"or", {X, Y, DD}},
    {"absVal", {X, Y}}, {"neg", {Y, Z}}, {"withinBounds", {X, Y, Z}},
    {"testAnd", {B, DD, DD}}, {"testOr", {B, DD, DD}}, {"testEq", {DD, B, B}}, {"eqProduct", {X, Y, Z}},
    // the same variable twice
    {"addEq", {X, X, Y}}, {"addEq", {X, Y, X}}, {"eqSum", {X, Y, Y}}, {"multEq", {Y, Y, Z}}, {"leq", {Z, Z}}, {"lt", {X, X}}, {"neq", {Y, Y}},
    {"testEq", {B, X, X}}, {"testLessThan", {DD, Z, Z}}, {"condAllDiff", {B, X, X}}, {"condEq", {DD, Y, Y}}, {"eq", {X, Y, X}}, {"eqMaximum", {X, X, Y}}, {"maxf", {X, Y, Z}}, {"minf", {Z, Y, X}}, {"abs", {Z, X}}};
  return v;
}
inline const Entry& entry(const std::string& n) { for (auto& e : table()) if (n == e.name) return e; abort(); }
}
#endif
