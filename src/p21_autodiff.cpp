#include "rt_common.hpp"
#include <stator/symbolic/ad.hpp>

// -------------------------------------------------------------- reference
// Truncated power series over values with error bounds. Functions are composed
// by Horner's rule on their own Taylor coefficients (the library uses
// differential recurrences).
typedef std::vector<Q> Ser;
static Q M(Q a, Q b) { if (isZero(a) && a.ok && b.ok) return zero(); if (isZero(b) && a.ok && b.ok) return zero(); return binaryQ(Mul, a, b); }
static Q A(Q a, Q b) { return binaryQ(Add, a, b); }
static Q V(Q a, Q b) { if (isZero(a) && a.ok && b.ok && b.v != 0) return zero(); return binaryQ(Div, a, b); }
static Q N(Q a) { return unaryQ(Neg, a); }
static bool okS(const Ser &a) { for (auto &q : a) if (!q.ok) return false; return !a.empty(); }
static Ser sadd(const Ser &a, const Ser &b, bool minus = false) { Ser r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = A(a[i], minus ? N(b[i]) : b[i]); return r; }
static Ser smul(const Ser &a, const Ser &b) {
  Ser r(a.size(), zero());
  for (size_t k = 0; k < a.size(); ++k) for (size_t i = 0; i <= k; ++i) r[k] = A(r[k], M(a[i], b[k - i]));
  return r;
}
// sum_n t[n] (h)^n with h = g - g0
static Ser compose(const std::vector<Q> &t, Ser g) {
  g[0] = zero();
  Ser r(g.size(), zero());
  for (size_t n = g.size(); n-- > 0;) { r = smul(r, g); r[0] = A(r[0], t[n]); }
  return r;
}
static Ser sexp(const Ser &g) { Q e = unaryQ(Exp, g[0]); std::vector<Q> t; Q f = e; for (size_t n = 0; n < g.size(); ++n) { t.push_back(f); f = V(f, cst(n + 1)); } return compose(t, g); }
static Ser slog(const Ser &g) {
  std::vector<Q> t{unaryQ(Log, g[0])}; Q inv = V(cst(1), g[0]), p = inv;
  for (size_t n = 1; n < g.size(); ++n) { t.push_back(M(p, V(cst(n % 2 ? 1 : -1), cst(n)))); p = M(p, inv); }
  return compose(t, g);
}
static Ser sinv(const Ser &g) {
  Q inv = V(cst(1), g[0]), p = inv; std::vector<Q> t;
  for (size_t n = 0; n < g.size(); ++n) { t.push_back(p); p = N(M(p, inv)); }
  return compose(t, g);
}
static Ser strig(const Ser &g, bool sine) {
  Q s = unaryQ(Sin, g[0]), c = unaryQ(Cos, g[0]); std::vector<Q> t; long double f = 1;
  for (size_t n = 0; n < g.size(); ++n) {
    if (n) f *= n;
    Q d = sine ? (n % 4 == 0 ? s : n % 4 == 1 ? c : n % 4 == 2 ? N(s) : N(c)) : (n % 4 == 0 ? c : n % 4 == 1 ? N(s) : n % 4 == 2 ? N(c) : s);
    t.push_back(V(d, cst(f)));
  }
  return compose(t, g);
}
static Ser spow(const Ser &g, const Ser &b) {
  bool constant = true; for (size_t i = 1; i < b.size(); ++i) constant = constant && isZero(b[i]);
  Ser bad(g.size(), badQ());
  bool near0 = true; for (size_t i = 1; i < b.size(); ++i) near0 = near0 && std::fabs(b[i].v) <= b[i].e;
  if (!constant) { if (!(g[0].v > 0) || near0) return bad; // (constant only after rounding: either rule may be used) 
    Ser r = sexp(smul(b, slog(g)));
    if (!okS(r)) return r;
    // Magnitude of the terms of a recurrence for a^b, which may cancel.
    Ser ga = g, la, ba = b; auto ab = [](Ser &v) { for (auto &q : v) q.v = std::fabs(q.v); }; ab(ga); ab(ba); la = slog(g); ab(la);
    Ser m = sexp(smul(ba, la)); m = smul(m, smul(ga, sinv(g))); ab(m); Q c0 = r[0];
    for (size_t i = 0; i < r.size(); ++i) if (m[i].ok) r[i].e += 64 * EPS * m[i].v; else r[i].ok = false;
    (void)c0; return r; }
  long double a = b[0].v; bool integer = b[0].e == 0 && a == std::floor(a);
  if (integer && a >= 0 && a <= 12) { // multiplied out; the recurrences' division by g0 is allowed for below
    Ser r(g.size(), zero()); r[0] = cst(1);
    for (int i = 0; i < a; ++i) r = smul(r, g);
    if (g[0].v == 0 && g[0].e == 0) return r;
  } else if (isZero(g[0]) && integer && a > 0) return Ser(g.size(), zero()); // enough factors vanish
  if (std::fabs(g[0].v) <= 8 * g[0].e || g[0].v == 0) return bad;
  if (g[0].v < 0 && !integer) return bad;
  Q inv = V(cst(1), g[0]), p = binaryQ(Pow, g[0], b[0]); std::vector<Q> t;
  for (size_t n = 0; n < g.size(); ++n) {
    t.push_back(p);
    Q f = A(b[0], cst(-(long double)n)); if (integer && a == n) f = zero();
    p = M(M(p, inv), V(f, cst(n + 1)));
  }
  Ser r = compose(t, g);
  // Rounding of the usual recurrence, which divides by g0 at every order.
  Ser w(g.size(), zero()); w[0] = binaryQ(Pow, g[0], b[0]);
  for (size_t k = 1; k < g.size(); ++k) {
    for (size_t i = 1; i <= k; ++i) { Q f = cst((a + 1) * i / k - 1); f.e = 4 * EPS * (std::fabs(a) + 2); if (!isZero(g[i])) w[k] = A(w[k], M(M(f, g[i]), w[k - i])); }
    w[k] = V(w[k], g[0]);
  }
  for (size_t i = 0; i < r.size(); ++i) { if (!w[i].ok) r[i].ok = false; r[i].e = std::max(r[i].e, w[i].e); }
  return r;
}
static Ser series(const NP &n, const std::string &x, double at, size_t N1) {
  Ser bad(N1, badQ());
  switch (n->k) {
  case Num: { Ser r(N1, zero()); r[0] = cst(n->num); return r; }
  case Var: { if (n->name != x) return bad; Ser r(N1, zero()); r[0] = cst(at); if (N1 > 1) r[1] = cst(1); return r; }
  default: break;
  }
  Ser a = series(n->c[0], x, at, N1); if (!okS(a)) return bad;
  switch (n->k) {
  case Neg: for (auto &q : a) q = ::N(q); return a;
  case Sin: return strig(a, true);
  case Cos: return strig(a, false);
  case Exp: return sexp(a);
  case Log: if (!(a[0].v > 0)) return bad; return slog(a);
  default: break;
  }
  if (n->c.size() < 2) return bad;
  Ser b = series(n->c[1], x, at, N1); if (!okS(b)) return bad;
  switch (n->k) {
  case Add: return sadd(a, b);
  case Sub: return sadd(a, b, true);
  case Mul: return smul(a, b);
  case Div: if (b[0].v == 0) return bad; return smul(a, sinv(b));
  case Pow: return spow(a, b);
  default: return bad;
  }
}

// -------------------------------------------------------------- the library
constexpr char n_x[] = "x", n_y[] = "y", n_ab[] = "ab";
template <const char *NM, size_t Nd, class F> static std::vector<double> adv(const F &f, double at) {
  sym::Var<NM> v; auto r = sym::ad<Nd>(f, v = at);
  return std::vector<double>(r.data(), r.data() + r.size());
}
template <const char *NM, class F> static std::vector<double> adn(const F &f, double at, int nd) {
  switch (nd) {
  case 0: return adv<NM, 0>(f, at); case 1: return adv<NM, 1>(f, at); case 2: return adv<NM, 2>(f, at);
  case 3: return adv<NM, 3>(f, at); case 4: return adv<NM, 4>(f, at); case 5: return adv<NM, 5>(f, at);
  case 6: return adv<NM, 6>(f, at); default: return adv<NM, 9>(f, at);
  }
}
template <class F> static std::vector<double> lib(const F &f, const std::string &x, double at, int nd) {
  return x == "x" ? adn<n_x>(f, at, nd) : x == "y" ? adn<n_y>(f, at, nd) : adn<n_ab>(f, at, nd);
}
static const int ORD[] = {0, 1, 2, 3, 4, 5, 6, 9};
static int order(Src &s) { return ORD[s.range(0, 7)]; }

static int judge(const std::vector<double> &got, const Ser &want, const std::string &what, const char *rule) {
  check(got.size() == want.size(), cat(what, ": ", got.size(), " coefficients for order ", want.size() - 1));
  int concl = 0;
  // Each order is built from all lower ones, so stop at the first undefined one.
  for (size_t k = 0; k < want.size(); ++k) {
    if (!want[k].ok) break;
    long double w = want[k].v, e = want[k].e * 16 + 1e-13L * std::fabs(w) + 1e-110L;
    if (e > 1e-4L * (std::fabs(w) + 1e-2L)) continue;
    if (!(std::fabs(got[k] - w) <= e)) fail(cat(what, ": coefficient ", k, " (derivative/", k, "!) is ", got[k], ", ", rule, " gives ", (double)w, " (tolerance ", (double)e, ")"));
    ++concl;
  }
  return concl;
}
static double at(Src &s, bool zeros = true) {
  switch (s.weighted({5, 4, 3, (unsigned)(zeros ? 2 : 0)})) {
  case 0: return s.range(1, 4);
  case 1: return s.range(1, 256) / 64.0;
  case 2: return -(s.range(1, 256) / 64.0);
  default: return 0;
  }
}

PROP(runtime, 150000, 5000000) {
  GenOpts o; o.names = {s.pick(std::vector<std::string>{"x", "y", "ab"})};
  std::string x = o.names[0];
  NP n = genScalar(s, o, (int)s.range(1, 5));
  int nd = order(s); double a = at(s);
  c.describe(cat("ad<", nd, ">(", show(n), ", ", x, "=", a, ")"));
  std::vector<double> got = lib(toExpr(n), x, a, nd);
  int k = judge(got, series(n, x, a, nd + 1), c.desc, "power series arithmetic");
  if (k >= 2 && contains(n, x) && n->k != Var) c.nontrivial();
  if (k >= 4) c.label("four or more orders compared");
  if (a == 0) c.label("at zero");
  if (a < 0) c.label("negative point");
  if (!contains(n, x)) c.label("constant");
}

// polynomials and rational functions of the variable, in any point including roots
PROP(rational, 60000, 2000000) {
  GenOpts o; o.names = {"x"}; o.trig = false; o.depth = 4;
  struct G { static NP g(Src &s, int d) {
    if (d <= 0) return s.chance(1, 2) ? var("x") : num((double)s.range(-4, 4));
    switch (s.weighted({4, 4, 5, 2, 4, 1})) {
    case 0: return bin(Add, g(s, d - 1), g(s, d - 1));
    case 1: return bin(Sub, g(s, d - 1), g(s, d - 1));
    case 2: return bin(Mul, g(s, d - 1), g(s, d - 1));
    case 3: return bin(Div, g(s, d - 1), g(s, d - 1));
    case 4: return bin(Pow, g(s, d - 1), num((double)s.range(-2, 5)));
    default: return un(Neg, g(s, d - 1));
    } } };
  NP n = G::g(s, (int)s.range(1, 5));
  int nd = order(s); double a = s.chance(1, 3) ? at(s) : (double)s.range(-3, 3);
  c.describe(cat("ad<", nd, ">(", show(n), ", x=", a, ")"));
  int k = judge(lib(toExpr(n), "x", a, nd), series(n, "x", a, nd + 1), c.desc, "power series arithmetic");
  if (k >= 2 && contains(n, "x") && n->k != Var) c.nontrivial();
  if (a == 0) c.label("at zero");
}

// anything without a rule has to be reported, not miscomputed
PROP(unsupported, 15000, 300000) {
  GenOpts o; o.names = {"x"}; o.lists = o.dicts = o.eq = o.units = o.unc = o.absarb = o.acc = true;
  NP n = genAny(s, o, 4);
  std::set<K> no{Abs, Arb, Eq, Acc, Units, Unc, List, Dict};
  bool un = false; for (K k : no) un = un || has(n, k);
  int nd = order(s); double a = at(s);
  c.describe(cat("ad<", nd, ">(", show(n), ", x=", a, ")"));
  std::vector<double> got;
  try { got = lib(toExpr(n), "x", a, nd); }
  catch (stator::Exception &) { check(un, "exception for an expression in which every operator has a rule"); c.nontrivial(); c.label("reported"); return; }
  if (!un) { judge(got, series(n, "x", a, nd + 1), c.desc, "power series arithmetic"); return; }
  // a rule may exist for absolute values (away from zero); nothing else has one
  no.erase(Abs); un = false; for (K k : no) un = un || has(n, k);
  check(!un, "no error for an expression containing an operator with no derivative rule");
}

// product, quotient, chain: relations between the library's own results
PROP(relations, 40000, 1200000) {
  GenOpts o; o.names = {"x"};
  NP f = genScalar(s, o, 3), g = genScalar(s, o, 3); int nd = order(s); double a = at(s);
  c.describe(cat("f=", show(f), " g=", show(g), " order ", nd, " at ", a));
  Ser F = series(f, "x", a, nd + 1), G = series(g, "x", a, nd + 1);
  if (!okS(F) || !okS(G)) { c.label("undefined"); return; }
  // lower orders do not depend on the order asked for
  std::vector<double> hi = lib(toExpr(f), "x", a, 9), lo = lib(toExpr(f), "x", a, nd);
  Ser F9 = series(f, "x", a, 10);
  for (size_t k = 0; okS(F9) && k < lo.size(); ++k) check(std::fabs(lo[k] - hi[k]) <= 16 * F[k].e + 1e-13 * std::fabs(lo[k]) + 1e-110, cat("coefficient ", k, " is ", lo[k], " at order ", nd, " but ", hi[k], " at order 9"));
  // substituting x -> x + h: f(x+h) at a-h has the same coefficients as f at a
  double h = s.range(-8, 8) / 4.0; NP fs = subst(f, {{"x", bin(Add, var("x"), num(h))}});
  int k = judge(lib(toExpr(fs), "x", a - h, nd), F, cat("f(x+", h, ") at ", a - h), "f itself");
  // x -> c x scales coefficient k by c^k
  double sc = s.pick(std::vector<double>{2, -1, 0.5, -4}); NP fc = subst(f, {{"x", bin(Mul, num(sc), var("x"))}});
  Ser FS = F; long double p = 1; for (auto &q : FS) { q.v *= p; q.e *= std::fabs(p); p *= sc; }
  judge(lib(toExpr(fc), "x", a / sc, nd), FS, cat("f(", sc, "x) at ", a / sc), "scaling of f");
  judge(lib(toExpr(bin(Sub, bin(Mul, f, g), bin(Div, g, num(4)))), "x", a, nd), sadd(smul(F, G), smul(G, series(num(0.25), "x", a, nd + 1)), true), "f*g-g/4", "the product of the series");
  if (k >= 2 && contains(f, "x")) c.nontrivial();
}

// ------------------------------------------------------ compile-time expressions
// One generic definition, read once as a symbolic type and once as a reference tree.
struct R { NP n; };
static R wrap(double d) { return {num(d)}; }
#define BINOP(OP, KIND) static R operator OP(R a, R b) { return {bin(KIND, a.n, b.n)}; } static R operator OP(R a, double b) { return a OP wrap(b); } static R operator OP(double a, R b) { return wrap(a) OP b; }
BINOP(+, Add) BINOP(-, Sub) BINOP(*, Mul) BINOP(/, Div)
static R operator-(R a) { return {un(Neg, a.n)}; }
static R sin(R a) { return {un(Sin, a.n)}; } static R cos(R a) { return {un(Cos, a.n)}; }
static R exp(R a) { return {un(Exp, a.n)}; } static R log(R a) { return {un(Log, a.n)}; }
static R pow(R a, R b) { return {bin(Pow, a.n, b.n)}; } static R pow(R a, double b) { return pow(a, wrap(b)); } static R pow(double a, R b) { return pow(wrap(a), b); }
template <std::intmax_t P, std::intmax_t D> static R pow(R a, sym::C<P, D>) { return pow(a, (double)P / D); }
template <std::intmax_t P, std::intmax_t D> static R operator*(sym::C<P, D>, R a) { return ((double)P / D) * a; }
template <std::intmax_t P, std::intmax_t D> static R operator+(R a, sym::C<P, D>) { return a + ((double)P / D); }
template <std::intmax_t P, std::intmax_t D> static R operator-(sym::C<P, D>, R a) { return ((double)P / D) - a; }
template <std::intmax_t P, std::intmax_t D> static R operator/(sym::C<P, D>, R a) { return ((double)P / D) / a; }

template <const char *NM, class L> static int ct(Src &s, const L &f, const std::string &x, double p, double q, int nd, double a, const std::string &what) {
  NP n = f(R{var(x)}, p, q).n;
  auto e = f(sym::Var<NM>(), p, q);
  (void)s;
  return judge(adn<NM>(e, a, nd), series(n, x, a, nd + 1), what + " i.e. " + show(n), "power series arithmetic");
}
static const sym::C<1, 3> third{};
#define FUNCS(X) \
  X(0, x*p + q) X(1, sin(x*p) * cos(q - x)) X(2, exp(p*x) / (x + q)) X(3, log(x*x + p*p) - x) \
  X(4, pow(x, sym::C<3>()) - q*pow(x, sym::C<2>())) X(5, pow(x + p, sym::C<-2>())) X(6, pow(x*x + q*q, sym::C<1,2>())) X(7, pow(x*x + 1.0, x)) \
  X(8, pow(x, p)) X(9, pow(2.0 + q*q, x)) X(10, sin(exp(x/4.0)) * (p - x)) X(11, cos(x)*cos(x) + sin(x)*sin(x)) \
  X(12, exp(-(x*x)*0.25)) X(13, (x*x - p) / (x*x + 1.0)) X(14, third * x + sym::C<2>()) X(15, sym::C<1>() / x - (sym::C<2>() - x)) \
  X(16, pow(sin(x), sym::C<2>())) X(17, log(exp(x*p))) X(18, exp(log(x)*q)) X(19, pow(p*p + x*x, sin(x))) \
  X(20, pow(x - p, sym::C<4>())) X(21, sin(cos(sin(x)))) X(22, x/(q - x)/(p + x)) X(23, (p + x)*(q*x)*(x - 1.0)*x) \
  X(24, pow(x*x + p*p, q)) X(25, pow(p, 2.0)*x + pow(x, sym::C<0>())) X(26, -sin(-x) - (-x)) X(27, pow(x, sym::C<5>())*exp(x))
PROP(compiletime, 60000, 2000000) {
  static const char *T[] = {
#define X(i, ...) #__VA_ARGS__,
    FUNCS(X)
#undef X
  };
  int i = (int)s.range(0, 27), nd = order(s);
  double p = s.chance(1, 4) ? (double)s.range(-3, 3) : s.range(-128, 128) / 32.0, q = s.chance(1, 4) ? (double)s.range(-3, 3) : s.range(-128, 128) / 32.0, a = at(s);
  bool other = s.chance(1, 3);
  c.describe(cat("ad<", nd, ">(", T[i], ", x=", a, ") with p=", p, " q=", q)); c.label(T[i]);
  int k = 0;
  switch (i) {
#define X(i, e) case i: { auto f = [](auto x, double p, double q) { (void)p; (void)q; (void)x; return e; }; k = other ? ct<n_y>(s, f, "y", p, q, nd, a, c.desc) : ct<n_x>(s, f, "x", p, q, nd, a, c.desc); break; }
    FUNCS(X)
#undef X
  }
  if (k >= 2) c.nontrivial();
  // other variables are constants of unknown value: undefined value, zero derivatives
  if (other) {
    auto r = lib(sym::Var<n_x>(), "y", a, nd); check(std::isnan(r[0]), "a variable that is not substituted has a value");
    for (size_t j = 1; j < r.size(); ++j) check(r[j] == 0, "a different variable has a derivative");
    auto r2 = lib(toExpr(var("x")), "y", a, nd); check(std::isnan(r2[0]), "a runtime variable that is not substituted has a value");
    for (size_t j = 1; j < r2.size(); ++j) check(r2[j] == 0, "a different runtime variable has a derivative");
  }
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Runtime expressions over + - * / ^ unary minus, sin, cos, exp, ln in one variable and 28 compile-time function families with random parameters, at random points (including 0, roots and negative points), orders 0-6 and 9; every Taylor coefficient compared with a power-series reference composed by Horner's rule with running error bounds. Non-trivial: depends on the variable, not the bare variable, at least two orders compared conclusively.");
}
