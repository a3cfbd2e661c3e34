// Aids built on polynomials: evaluation error estimates, Moebius maps, quadratic factors, substitution of expressions.
#include "poly_common.hpp"
using pbt::Case;
static constexpr char y_name[] = "y"; typedef sym::Var<> X; typedef sym::Var<y_name> Y;
template <class R> static void precisionCase(Src &s, Case &c, const char *type) {
  size_t n = s.range(0, 8); V a = coefs(s, n); double x = point(s); if (s.chance(1, 20)) x = s.chance(1, 2) ? HUGE_VAL : -HUGE_VAL;
  if (std::isfinite(x) && qpow(qabs(Q(x)), (int)n) > Q(std::numeric_limits<R>::max()) / Q(1e6)) discard();
  // cancellation: a constant term which makes x nearly a root
  for (double &v : a) v = (R)v; x = (R)x; if (n && std::isfinite(x) && s.chance(1, 2)) { V b = a; b[0] = 0; a[0] = (R)(double)-eval(q(b), x); }
  c.describe(cat(type, " precision of ", str(a), " at ", x));
  double E = 0, val = 0;
  dispatch<0, 8>(n, [&](auto N) { sym::Polynomial<N.value, R> f; for (size_t i = 0; i <= N.value; ++i) f[i] = (R)a[i]; E = (double)sym::precision(f, (R)x); val = (double)sym::sub(f, X() = (R)x); });
  check(E == E && E >= 0, cat("the error estimate is ", E));
  if (!std::isfinite(x)) { check(E == 0, cat("the estimate at infinity is ", E)); return; }
  Q want = eval(q(a), x), mag = eval(absq(q(a)), qabs(Q(x))), u = std::numeric_limits<R>::epsilon() / 2; if (mag > Q(std::numeric_limits<R>::max()) / 1e6) discard();
  Q err = qabs(Q(val) - want); check(err <= Q(E) + mag * Q(1e-30), cat("the evaluation error ", (double)err, " exceeds the estimate ", E));
  check(Q(E) <= (2 * Q((long)n) + 2) * u * mag * Q(1.2) + Q(1e-300), cat("the estimate ", E, " is far above any rounding error, as the terms sum to ", (double)mag));
  if (n > 0 && terms(a) >= 2 && x != 0) c.nontrivial(); c.label(err > 0 ? "inexact" : "exact");
}
PROP(precision, 300000, 4000000) { precisionCase<double>(s, c, "double"); }
PROP(precision_float, 100000, 1500000) { precisionCase<float>(s, c, "float"); }
PROP(moebius, 200000, 3000000) {
  sym::MobiusTransform<double> m(1, 0, 0, 1); int k = (int)s.range(0, 7); std::vector<std::pair<int, double>> ops; std::string d; bool signs = s.chance(1, 3);
  for (int i = 0; i < k; ++i) { int o = (int)s.range(0, 2); double t = o == 0 ? s.grid(signs ? -8 : 0, 8, 4) : o == 1 ? std::ldexp(1.0 + s.range(0, 3) / 4.0, (int)s.range(-3, 3)) : 0; ops.push_back({o, t}); d += cat(o == 0 ? " shift " : o == 1 ? " scale " : " invert ", t);
    if (o == 0) m.shift(t); else if (o == 1) m.scale(t); else m.invert_taylor_shift(); }
  bool inf = s.chance(1, 8); double t = inf ? HUGE_VAL : signs ? s.grid(-8, 8, 8) : s.grid(0, 16, 8);
  c.describe(cat("map", d, " evaluated at ", t));
  // numerator and denominator of the composed map, exactly: p/q with t = p/q, infinity being 1/0
  Q p = inf ? 1 : Q(t), den = inf ? 0 : 1;
  for (size_t i = ops.size(); i-- > 0;) { if (ops[i].first == 0) p += Q(ops[i].second) * den; else if (ops[i].first == 1) p *= Q(ops[i].second); else { Q n = den; den = p + den; p = n; } }
  for (double v : m) if (Q(v) > Q(1e15)) discard();
  double got = m.eval(t);
  if (den == 0) { if (p != 0) check(std::isinf(got), cat("evaluated to ", got, " at a pole")); else discard(); return; }
  Q want = p / den; check(got == got && qabs(Q(got) - want) <= qabs(want) * Q(1e-14), cat("evaluated to ", got, ", expected ", (double)want));
  if (k >= 2) c.nontrivial(); if (inf) c.label("infinity");
}
static QV monicRemainder(QV f, Q b, Q cc) { for (size_t i = f.size(); i-- > 2;) { Q l = f[i]; f[i] = 0; f[i - 1] -= l * b; f[i - 2] -= l * cc; } f.resize(2); return f; }
PROP(quadratic_factor, 60000, 1000000) {
  size_t pairs = s.range(1, 3); size_t odd = s.chance(1, 3); if (pairs == 1) odd = 1; QV f{1}; std::vector<std::pair<double, double>> qs; std::string d;
  for (size_t i = 0; i < pairs; ++i) { double re = s.uniform(-1, 1) + 3.0 * i * (i % 2 ? -1 : 1), im = s.uniform(0.3, 1.5); bool real = s.chance(1, 3); double b = -2 * re, cc = real ? re * re - im * im / 4 : re * re + im * im; qs.push_back({b, cc}); f = mul(f, QV{cc, b, 1}); d += cat(" x^2+", b, "x+", cc); }
  if (odd) { double r = s.uniform(8, 10); f = mul(f, QV{-Q(r), 1}); d += cat(" x-", r); }
  Q k = s.pick(std::vector<int>{1, -2, 3}); for (Q &x : f) x *= k; size_t n = f.size() - 1, N = n + (s.chance(1, 4) ? 1 : 0); V a; for (Q x : f) a.push_back((double)x); a.resize(N + 1, 0.0);
  bool near = s.chance(1, 2) && N == n; auto g0 = s.pick(qs); sym::Polynomial<2> guess{0, 0, 1}; if (near) guess = sym::Polynomial<2>{g0.second * (1 + s.uniform(-1e-4, 1e-4)), g0.first * (1 + s.uniform(-1e-4, 1e-4)), 1.0}; double tol = s.pick(std::vector<double>{1e-6, 1e-8, 1e-10});
  c.describe(cat("quadratic factor of ", str(a), " =", d, near ? cat(" from ", str(vec(guess))) : "", " tolerance ", tol));
  V got; bool conv = true;
  dispatch<3, 8>(N, [&](auto M) { try { if (near) got = vec(sym::LinBairstowSolve(poly<M.value>(a), tol, guess)); else got = vec(sym::LinBairstowSolve(poly<M.value>(a), tol)); } catch (std::runtime_error &) { conv = false; } });
  if (!conv) { check(!near, "no convergence from a guess next to a factor"); c.label("not converged"); return; }
  check(got.size() == 3 && got[2] == 1, "the factor is not monic: " + str(got)); check(std::isfinite(got[0]) && std::isfinite(got[1]), "the factor is " + str(got));
  Q r = 1 + qabs(Q(got[1])) + qabs(Q(got[0])); QV rem = monicRemainder(q(V(a.begin(), a.begin() + n + 1)), got[1], got[0]); Q mag = 0; for (size_t i = 0; i <= n; ++i) mag += qabs(Q(a[i])) * qpow(r, (int)i);
  for (Q x : rem) check(qabs(x) <= mag * Q(tol) + mag * Q(1e-12), cat("dividing by ", str(got), " leaves ", (double)x, " (terms sum to ", (double)mag, ")"));
  if (near) check(std::fabs(got[1] - g0.first) <= 1e-3 * (1 + std::fabs(g0.first)) && std::fabs(got[0] - g0.second) <= 1e-3 * (1 + std::fabs(g0.second)), "converged to " + str(got) + " instead of the neighbouring factor");
  c.nontrivial(); c.label(near ? "near start" : "default start");
}
PROP(factor_low_order, 20000, 200000) {
  size_t n = s.range(0, 2); V a = coefs(s, n, -1, false); c.describe("quadratic factor of the low-order " + str(a)); V got;
  dispatch<0, 2>(n, [&](auto N) { got = vec(sym::LinBairstowSolve(poly<N.value>(a), 1e-8)); });
  a.resize(3, 0.0); check(got == a, "returned " + str(got)); if (n == 2) c.nontrivial();
}
// a polynomial with another polynomial, an expression or a variable in place of its variable
PROP(compose, 100000, 1500000) {
  size_t n = s.range(0, 5); V a = coefs(s, n, (int)s.range(0, 3)), b = coefs(s, 2, (int)s.range(0, 3)); double y = s.chance(1, 2) ? s.grid(-3, 3, 4) : s.uniform(-2, 2); int form = (int)s.range(0, 3);
  c.describe(cat("substituting ", form == 0 ? "the polynomial " + str(b) + " in y" : form == 1 ? cat("y*", b[1], "+", b[0]) : form == 2 ? "y" : "sin(y)", " into ", str(a), " at y=", y));
  double got = 0; Q X0 = form == 0 ? eval(q(b), y) : form == 1 ? Q(y) * b[1] + b[0] : form == 2 ? Q(y) : Q(std::sin(y)); Q mx = form == 0 ? eval(absq(q(b)), qabs(Q(y))) : form == 1 ? qabs(Q(y) * b[1]) + qabs(Q(b[0])) : qabs(X0);
  dispatch<0, 5>(n, [&](auto N) { auto f = poly<N.value>(a); Y vy;
    if (form == 0) { auto g = poly<2, Y>(b); got = double(sym::sub(sym::sub(f, X() = g), vy = y)); }
    else if (form == 1) got = double(sym::sub(sym::sub(f, X() = vy * b[1] + b[0]), vy = y));
    else if (form == 2) got = double(sym::sub(sym::sub(f, X() = vy), vy = y));
    else got = double(sym::sub(sym::sub(f, X() = sym::sin(vy)), vy = y)); });
  Q want = eval(q(a), X0), mag = eval(absq(q(a)), mx); near(got, want, mag * Q(EPS) * (8 * (long)n + 16), "the value");
  if (n >= 2 && terms(a) >= 2) c.nontrivial(); c.label(form == 0 ? "polynomial" : form == 1 ? "expression" : form == 2 ? "variable" : "function");
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when the polynomial has at least two terms (for the composition, degree two or more) and the argument is not zero, a map is made of two or more operations, or a quadratic factor was found."); }
