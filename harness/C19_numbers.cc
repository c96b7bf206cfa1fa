// C19: eint/edouble arithmetic, comparison and conversion on all pairs of
// boundary operands through every overload, against exact arithmetic.
// modules: Utils,TinyXml
#include "mc.hh"
#include "Number.hh"
#include <stdexcept>
#include <type_traits>
using namespace EUROPA;
typedef __int128 W; typedef long double LD;
static const long I = 4503599627370495L;   // documented: 2^52-1

enum K { KI, KL, KUL, KEI, KD, KED, KU, KLL, KLD, NK };
static const char* KN[] = {"int", "long", "ulong", "eint", "double", "edouble", "uint", "llong", "ldouble"};
template<class T> struct Kind;
template<> struct Kind<int> { static const int k = KI; }; template<> struct Kind<long> { static const int k = KL; };
template<> struct Kind<unsigned long> { static const int k = KUL; }; template<> struct Kind<eint> { static const int k = KEI; };
template<> struct Kind<double> { static const int k = KD; }; template<> struct Kind<edouble> { static const int k = KED; };
template<> struct Kind<unsigned int> { static const int k = KU; }; template<> struct Kind<long long int> { static const int k = KLL; };
template<> struct Kind<long double> { static const int k = KLD; };

static LD raw(int v) { return v; } static LD raw(long v) { return v; } static LD raw(unsigned long v) { return v; }
static LD raw(unsigned int v) { return v; } static LD raw(long long v) { return v; } static LD raw(LD v) { return v; }
static LD raw(double v) { return v; } static LD raw(const eint& v) { return cast_basis(v); } static LD raw(const edouble& v) { return cast_basis(v); }
static int inf(LD v) { return v >= I ? 1 : v <= -I ? -1 : 0; }

static bool WIDE = false;   // thorough
static std::vector<long> longs() {
  std::vector<long> b = {0, 1, 2, 3, 5, 7, 10, 1000, 65535, 65536, 67108863, 67108864, 67108865, 94906265, 94906266, 2147483647, 2147483648L, 4294967296L, 3037000499L, 1L << 50, 1L << 51, (1L << 51) - 1, I / 3, I / 2, I - 2, I - 1, I};
  if (WIDE) { std::set<long> w; for (long v : b) for (long d = -6; d <= 6; ++d) if (v + d >= 0 && v + d <= I) w.insert(v + d); for (int e = 0; e < 52; ++e) w.insert(1L << e); b.assign(w.begin(), w.end()); }
  std::vector<long> r; for (long v : b) { r.push_back(v); if (v) r.push_back(-v); } return r;
}
template<class T> std::vector<T> vals() {
  std::vector<T> r;
  for (long v : longs()) if ((LD)(T)v == (LD)v) r.push_back((T)v);
  return r;
}
template<> std::vector<eint> vals<eint>() { std::vector<eint> r; for (long v : longs()) r.push_back(eint(v)); return r; }
static std::vector<double> dbls() {
  std::vector<double> r; for (long v : longs()) r.push_back(v);
  for (double v : {0.5, 0.25, 1.5, 0.1, 1e-5, 1e-9, 1e-300, 2.5, 1e8 + 0.5, 1e15 + 0.25, I - 0.5}) { r.push_back(v); r.push_back(-v); }
  return r;
}
template<> std::vector<double> vals<double>() { return dbls(); }
template<> std::vector<LD> vals<LD>() { std::vector<LD> r; for (double v : dbls()) r.push_back(v); return r; }
template<> std::vector<edouble> vals<edouble>() { std::vector<edouble> r; for (double v : dbls()) r.push_back(edouble(v)); return r; }

template<class T> std::string txt(const T& v) { std::ostringstream o; LD x = raw(v); if (x >= I) o << "inf"; else if (x <= -I) o << "-inf"; else { o.precision(20); o << x; } return o.str(); }

struct Res { int thrown; LD v; };   // thrown: 0 value, 1 overflow, -1 underflow, 2 other
template<class F> Res run(F f) {
  try { return {0, raw(f())}; }
  catch (std::overflow_error&) { return {1, 0}; } catch (std::underflow_error&) { return {-1, 0}; } catch (...) { return {2, 0}; }
}
static std::string show(const Res& r) { std::ostringstream o; o.precision(20); if (r.thrown == 1) o << "overflow error"; else if (r.thrown == -1) o << "underflow error"; else if (r.thrown) o << "another exception"; else o << r.v; return o.str(); }

// What the operation must give; skip = undefined form or outside the claim.
struct Want { bool skip; int thrown; LD lo, hi; };
static Want want(char op, LD a, LD b, bool integral) {
  int ia = inf(a), ib = inf(b);
  Want w = {false, 0, 0, 0};
  auto val = [&](LD x) { w.lo = w.hi = x; return w; };
  if (op == '-') { b = -b; ib = -ib; op = '+'; }
  if (op == '+') {
    if (ia && ib) return val(ia == ib ? (LD)ia * I : 0);
    if (ia) return val((LD)ia * I);
    if (ib) return val((LD)ib * I);
  } else if (op == '*') {
    int sb = b > 0 ? 1 : b < 0 ? -1 : 0, sa = a > 0 ? 1 : a < 0 ? -1 : 0;
    if (ia || ib) return val((LD)sa * sb * I);
  } else if (op == '/') {
    if (ia && ib) { w.skip = true; return w; }
    if (b == 0) {
      if (a == 0) { w.skip = true; return w; }
      if (!integral && std::signbit(b)) { w.skip = true; return w; }
      w.thrown = a > 0 ? 1 : -1; return w;
    }
    if (ib) return val(0);
    if (ia) return val((LD)(ia * (b > 0 ? 1 : -1)) * I);
  }
  if (integral) {
    W x = (W)a, y = (W)b, r = op == '+' ? x + y : op == '*' ? x * y : op == '/' ? x / y : x % y;
    if (r > I) { w.thrown = 1; return w; }
    if (r < -(W)I) { w.thrown = -1; return w; }
    return val((LD)r);
  }
  double x = a, y = b, r = op == '+' ? x + y : op == '*' ? x * y : x / y;
  if (r > I) { w.thrown = 1; return w; }
  if (r < -(double)I) { w.thrown = -1; return w; }
  return val(r);
}

static mc::Ctx* C;
template<class A, class B> void judge(const char* name, const A& a, const B& b, const Res& r, const Want& w) {
  C->transitions();
  if (w.skip) return;
  bool ok = r.thrown == w.thrown && (r.thrown || (r.v == w.lo));
  if (!ok) {
    std::string sig = std::string(name) + ":" + KN[Kind<A>::k] + "," + KN[Kind<B>::k];
    Res e = {w.thrown, w.lo};
    C->begin(sig + "|" + txt(a) + "," + txt(b));
    C->violation(sig, std::string(KN[Kind<A>::k]) + "(" + txt(a) + ") " + name + " " + KN[Kind<B>::k] + "(" + txt(b) + ") gives " + show(r) + ", exact arithmetic gives " + show(e));
  }
}
static void flag(const std::string& sig, const std::string& args, const std::string& msg) { C->begin(sig + "|" + args); C->violation(sig, msg); }

template<class A, class B> void arith(bool integral) {
  for (A a0 : vals<A>()) for (B b0 : vals<B>()) {
    const A a = a0; const B b = b0;
    C->begin(std::string("arith:") + KN[Kind<A>::k] + "," + KN[Kind<B>::k] + "|" + txt(a) + "," + txt(b)); C->evals();
    C->state(std::string(KN[Kind<A>::k]) + KN[Kind<B>::k] + txt(a) + "," + txt(b));
    judge("+", a, b, run([&] { return a + b; }), want('+', raw(a), raw(b), integral));
    judge("-", a, b, run([&] { return a - b; }), want('-', raw(a), raw(b), integral));
    judge("*", a, b, run([&] { return a * b; }), want('*', raw(a), raw(b), integral));
    judge("/", a, b, run([&] { return a / b; }), want('/', raw(a), raw(b), integral));
  }
}
template<class A, class B> void mod() {
  for (A a : vals<A>()) for (B b : vals<B>()) {
    if (raw(b) == 0 || inf(raw(a)) || inf(raw(b)) < 0) continue;
    C->begin(std::string("mod:") + KN[Kind<A>::k] + "," + KN[Kind<B>::k] + "|" + txt(a) + "," + txt(b)); C->evals();
    Want w = {false, 0, 0, 0}; w.lo = inf(raw(b)) ? raw(a) : (LD)((W)raw(a) % (W)raw(b));
    judge("%", a, b, run([&] { return a % b; }), w);
  }
}
// Compound assignments: value left in the variable, and value returned.
template<class A, class B> void compound(bool m) {
  for (A a : vals<A>()) for (B b : vals<B>()) {
    C->begin(std::string("compound:") + KN[Kind<A>::k] + "," + KN[Kind<B>::k] + "|" + txt(a) + "," + txt(b)); C->evals();
    bool in = std::is_same<A, eint>::value;
    { A x = a; LD ret = 0; Res r = run([&] { ret = raw(x += b); return x; }); Want w = want('+', raw(a), raw(b), in); judge("+=", a, b, r, w); if (!w.skip && !r.thrown) judge("+= (returned)", a, b, Res{0, ret}, w); if (r.thrown && raw(x) != raw(a)) flag("+=:changed", txt(a), "a failing += changed the variable"); }
    { A x = a; LD ret = 0; Res r = run([&] { ret = raw(x -= b); return x; }); Want w = want('-', raw(a), raw(b), in); judge("-=", a, b, r, w); if (!w.skip && !r.thrown) judge("-= (returned)", a, b, Res{0, ret}, w); if (r.thrown && raw(x) != raw(a)) flag("-=:changed", txt(a), "a failing -= changed the variable"); }
    { A x = a; LD ret = 0; Res r = run([&] { ret = raw(x *= b); return x; }); Want w = want('*', raw(a), raw(b), in); judge("*=", a, b, r, w); if (!w.skip && !r.thrown) judge("*= (returned)", a, b, Res{0, ret}, w); if (r.thrown && raw(x) != raw(a)) flag("*=:changed", txt(a), "a failing *= changed the variable"); }
    { A x = a; LD ret = 0; Res r = run([&] { ret = raw(x /= b); return x; }); Want w = want('/', raw(a), raw(b), in); judge("/=", a, b, r, w); if (!w.skip && !r.thrown) judge("/= (returned)", a, b, Res{0, ret}, w); if (r.thrown && raw(x) != raw(a)) flag("/=:changed", txt(a), "a failing /= changed the variable"); }
  }
}
template<class B> void modAssign() {
  for (eint a : vals<eint>()) for (B b : vals<B>()) {
    if (raw(b) == 0 || inf(raw(a)) || inf(raw(b)) < 0) continue;
    C->begin(std::string("mod=:") + KN[Kind<B>::k] + "|" + txt(a) + "," + txt(b)); C->evals();
    eint x = a; Want w = {false, 0, 0, 0}; w.lo = inf(raw(b)) ? raw(a) : (LD)((W)raw(a) % (W)raw(b));
    judge("%=", a, b, run([&] { x %= b; return x; }), w);
  }
}
template<class A, class B> void cmp1(A& a, B& b, const char* how, LD x, LD y) {
  bool got[6] = {a < b, a <= b, a == b, a >= b, a > b, a != b}, exp[6] = {x < y, x <= y, x == y, x >= y, x > y, x != y};
  static const char* N[6] = {"<", "<=", "==", ">=", ">", "!="};
  for (int i = 0; i < 6; ++i) {
    C->transitions();
    typedef typename std::remove_const<A>::type AA; typedef typename std::remove_const<B>::type BB;
    if (got[i] != exp[i]) flag(std::string(N[i]) + ":" + KN[Kind<AA>::k] + "," + KN[Kind<BB>::k], txt(a) + "," + txt(b), std::string(KN[Kind<AA>::k]) + "(" + txt(a) + ") " + N[i] + " " + KN[Kind<BB>::k] + "(" + txt(b) + ") is " + (got[i] ? "true" : "false") + how);
  }
}
// A's comparisons with B; CA: whether A is usable const with B.
template<class A, class B, bool CA> typename std::enable_if<CA>::type cmp() {
  for (A a : vals<A>()) for (B b : vals<B>()) {
    C->begin(std::string("cmp:") + KN[Kind<A>::k] + "," + KN[Kind<B>::k] + "|" + txt(a) + "," + txt(b)); C->evals();
    const A ca = a; const B cb = b; cmp1(a, b, "", raw(a), raw(b)); cmp1(ca, cb, " (const)", raw(a), raw(b));
  }
}
template<class A, class B, bool CA> typename std::enable_if<!CA>::type cmp() {
  for (A a : vals<A>()) for (B b : vals<B>()) {
    C->begin(std::string("cmp:") + KN[Kind<A>::k] + "," + KN[Kind<B>::k] + "|" + txt(a) + "," + txt(b)); C->evals();
    cmp1(a, b, "", raw(a), raw(b));
  }
}
static void eq(const char* what, LD arg, LD got, LD exp) {
  C->transitions();
  if (got != exp) { std::ostringstream a, m; a.precision(20); m.precision(20); a << arg; m << what << "(" << arg << ") gives " << got << ", expected " << exp; flag(what, a.str(), m.str()); }
}
template<class T> void unary() {
  bool in = std::is_same<T, eint>::value;
  for (T a : vals<T>()) {
    LD v = raw(a); const T c = a; C->begin(std::string("unary|") + txt(a)); C->evals();
    eq("unary +", v, raw(+c), v); eq("unary -", v, raw(-c), -v); eq("!", v, !c, v == 0);
    LD up = inf(v) ? v : (in ? v + 1 : (LD)((double)v + 1)), dn = inf(v) ? v : (in ? v - 1 : (LD)((double)v - 1));
    if (up > I) up = I; if (dn < -I) dn = -I;
    bool lost = !in && !inf(v) && ((LD)(double)up != up || (double)v + 1 > I || (double)v - 1 < -I);
    if (!lost) {
      { T x = a; eq("pre ++", v, raw(++x), up); eq("pre ++ (left)", v, raw(x), up); }
      { T x = a; eq("pre --", v, raw(--x), dn); eq("pre -- (left)", v, raw(x), dn); }
      { T x = a; eq("post ++", v, raw(x++), v); eq("post ++ (left)", v, raw(x), up); }
      { T x = a; eq("post --", v, raw(x--), v); eq("post -- (left)", v, raw(x), dn); }
    }
    eq("cast_int", v, cast_int(c), truncl(v)); eq("cast_long", v, cast_long(c), truncl(v)); eq("cast_double", v, cast_double(c), v);
    eq("cast_llong", v, cast_llong(c), truncl(v)); eq("cast_ldouble", v, cast_ldouble(c), v); eq("cast_basis", v, cast_basis(c), v);
    eq("finite", v, EUROPA::finite(a), inf(v) == 0);
    { T x = a; T y(x); eq("copy", v, raw(y), v); y = T(0); y = x; eq("assign", v, raw(y), v); }
  }
}
static void misc() {
  for (eint a : vals<eint>()) {
    LD v = raw(a); edouble d(a); eq("eint to edouble", v, raw(d), v); eint b = d; eq("eint to edouble and back", v, raw(b), v);
    std::ostringstream o; o << a; std::istringstream i(o.str()); eint r; i >> r; eq("eint through text", v, raw(r), v); eq("asLong", v, a.asLong(), v);
  }
  for (edouble a : vals<edouble>()) {
    LD v = raw(a); eint b = a; eq("edouble to eint", v, raw(b), truncl(v));
    eq("abs", v, raw(std::abs(a)), fabsl(v)); eq("ceil", v, raw(std::ceil(a)), ceill(v)); eq("floor", v, raw(std::floor(a)), floorl(v));
    if (v >= 0) eq("sqrt", v, raw(std::sqrt(a)), inf(v) ? v : (LD)std::sqrt((double)v));
    for (edouble c : vals<edouble>()) {
      LD w = raw(c); C->transitions(3);
      if (raw(std::max(a, c)) != std::max(v, w)) flag("max", txt(a) + "," + txt(c), "max(" + txt(a) + "," + txt(c) + ") gives " + txt(std::max(a, c)));
      if (raw(std::min(a, c)) != std::min(v, w)) flag("min", txt(a) + "," + txt(c), "min(" + txt(a) + "," + txt(c) + ") gives " + txt(std::min(a, c)));
      if (!inf(v) && !inf(w) && w != 0 && raw(std::fmod(a, c)) != (LD)std::fmod((double)v, (double)w)) flag("fmod", txt(a) + "," + txt(c), "fmod(" + txt(a) + "," + txt(c) + ") gives " + txt(std::fmod(a, c)));
    }
    for (long e : {0L, 1L, 2L, 3L, 10L, -1L, -2L, 51L, 52L, 4294967296L, 4294967297L}) {
      if (v == 0 && e <= 0) continue;
      C->begin("pow|" + txt(a) + "," + std::to_string(e)); C->transitions();
      Res r = run([&] { return std::pow(a, eint(e)); });
      Res x = {0, 0};
      if (inf(v)) x.v = e == 0 ? 1 : e < 0 ? 0 : (v > 0 || e % 2 == 0) ? (LD)I : -(LD)I;
      else { x.v = std::pow((double)v, (double)e); if (x.v > I) { x.thrown = 1; } else if (x.v < -I) { x.thrown = -1; } }
      if (x.thrown != r.thrown || (!x.thrown && x.v != r.v)) flag("pow", txt(a) + "," + std::to_string(e), "pow(" + txt(a) + "," + std::to_string(e) + ") gives " + show(r) + ", expected " + show(x));
    }
  }
  eq("infinity", 0, raw(std::numeric_limits<eint>::infinity()), I); eq("infinity", 1, raw(std::numeric_limits<edouble>::infinity()), I);
  eq("minus_infinity", 0, raw(std::numeric_limits<eint>::minus_infinity()), -I); eq("minus_infinity", 1, raw(std::numeric_limits<edouble>::minus_infinity()), -I);
  eq("max", 0, raw(std::numeric_limits<eint>::max()), I - 1); eq("max", 1, raw(std::numeric_limits<edouble>::max()), I - 1);
  eq("min", 0, raw(std::numeric_limits<eint>::min()), 1 - I); eq("min", 1, raw(std::numeric_limits<edouble>::min()), 1 - I);
}

typedef void (*Fn)();
int main(int argc, char** argv) {
  mc::Runner r("C19", argc, argv); WIDE = !r.quick;
  std::vector<Fn> items = {
    [] { arith<eint, eint>(true); }, [] { arith<eint, int>(true); }, [] { arith<eint, long>(true); }, [] { arith<eint, unsigned long>(true); },
    [] { arith<long, eint>(true); }, [] { arith<eint, edouble>(false); }, [] { arith<eint, double>(false); }, [] { arith<edouble, edouble>(false); },
    [] { arith<double, edouble>(false); }, [] { arith<edouble, eint>(false); },
    [] { mod<eint, eint>(); }, [] { mod<eint, long>(); }, [] { mod<long, eint>(); }, [] { modAssign<eint>(); modAssign<long>(); },
    [] { compound<eint, eint>(true); }, [] { compound<eint, long>(true); }, [] { compound<edouble, edouble>(false); },
    [] { cmp<eint, eint, true>(); }, [] { cmp<eint, edouble, true>(); }, [] { cmp<eint, double, true>(); },
    [] { cmp<edouble, edouble, true>(); }, [] { cmp<eint, long, false>(); }, [] { cmp<eint, int, false>(); },
    [] { cmp<edouble, double, false>(); }, [] { cmp<edouble, long, false>(); }, [] { cmp<edouble, int, false>(); }, [] { cmp<edouble, unsigned int, false>(); },
    [] { cmp<edouble, long long int, false>(); }, [] { cmp<edouble, LD, false>(); }, [] { cmp<eint, LD, false>(); }, [] { cmp<eint, long long int, false>(); },
    [] { cmp<long, eint, true>(); }, [] { cmp<int, eint, true>(); }, [] { cmp<double, eint, true>(); }, [] { cmp<LD, eint, true>(); }, [] { cmp<long long int, eint, true>(); },
    [] { cmp<int, edouble, true>(); }, [] { cmp<long, edouble, true>(); }, [] { cmp<double, edouble, true>(); }, [] { cmp<unsigned int, edouble, true>(); }, [] { cmp<long long int, edouble, true>(); }, [] { cmp<LD, edouble, true>(); },
    [] { unary<eint>(); unary<edouble>(); }, [] { misc(); }};
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string&) { C = &c; for (Fn f : items) f(); });
  r.parallel(items.size(), [&](size_t i, mc::Ctx& c) { C = &c; items[i](); });
  r.sh->traces = r.sh->evals.load();
  r.rule = "all ordered pairs of boundary operands (0, small, around 2^16, 2^26, sqrt(2^53), 2^31, 2^32, 2^50..2^52, the infinities and fractions) through every operator overload, compound assignment, comparison (const and non-const), unary operator, conversion and numeric function, against 128-bit and IEEE arithmetic with saturation at the infinities";
  r.assumptions = {"undefined forms are outside the claim: inf/inf, 0/0, x modulo 0, modulo with an infinite dividend or a minus-infinite divisor; inf-inf and 0*inf are 0", "a finite result beyond the infinities raises std::overflow_error/underflow_error"};
  r.sample("eint(2^51) + eint(2^51) raises overflow; eint(inf) * -3 = -inf"); r.sample("edouble(-inf) < eint(1-inf)");
  return r.finish();
}
