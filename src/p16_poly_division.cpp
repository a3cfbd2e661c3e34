#include "poly_common.hpp"
// quotient x divisor + remainder must give the dividend back to rounding
template <size_t N, size_t M> static void divide(const V &a, const V &b, V &quo, V &rem) {
  auto r = sym::gcd(poly<N>(a), poly<M>(b)); quo = vec(std::get<0>(r)); rem = vec(std::get<1>(r));
}
template <size_t N> static void divideBy(size_t m, const V &a, const V &b, V &quo, V &rem) {
  if constexpr (N == 1) { divide<1, 0>(a, b, quo, rem); }
  else dispatch<0, N - 1>(m, [&](auto M) { divide<N, M.value>(a, b, quo, rem); });
}
static void judge(const V &a, const V &b, const V &quo, const V &rem) {
  size_t n = a.size() - 1; int db = degree(b);
  for (double x : quo) if (!std::isfinite(x)) { if (db >= 0 && std::fabs(b[db]) > 1e-6) { bool big = false; for (double y : a) big = big || std::fabs(y) > 1e12; if (!big) fail("quotient " + str(quo)); } discard(); }
  for (size_t i = 0; i < rem.size(); ++i) if ((int)i >= std::max(db, 0) ) check(rem[i] == 0, "remainder " + str(rem) + " has a term of order not below that of the divisor");
  QV back = add(mul(q(quo), q(b)), q(rem)), mag = add(add(mul(absq(q(quo)), absq(q(b))), absq(q(rem))), absq(q(a)));
  for (size_t i = 0; i < back.size(); ++i) {
    Q want = i < a.size() ? Q(a[i]) : Q(0), tol = mag[i] * Q(EPS) * (4 * n + 8);
    check(qabs(back[i] - want) <= tol + Q(1e-290), cat("quotient x divisor + remainder gives ", (double)back[i], " instead of ", (double)want, " at order ", i, " (quotient ", str(quo), " remainder ", str(rem), ")"));
  }
}
PROP(divide, 300000, 4000000) {
  size_t n = s.range(1, 7), m = s.range(0, n - 1); int st = (int)s.range(0, 4); V a = coefs(s, n, st), b = coefs(s, m, st);
  if (degree(b) < 0) b[s.range(0, m)] = 1 + s.range(0, 3);
  c.describe(str(a) + " / " + str(b));
  V quo, rem; dispatch<1, 7>(n, [&](auto N) { divideBy<N.value>(m, a, b, quo, rem); });
  check(quo.size() == n + 1 && rem.size() == (m ? m : 1), "orders of the results");
  judge(a, b, quo, rem);
  if (degree(a) >= degree(b) && terms(b) > 1) c.nontrivial();
  c.label(degree(b) < (int)m ? "vanishing leading coefficient" : "full divisor");
}
// exact products: quotient and remainder are recovered exactly
PROP(product, 300000, 4000000) {
  size_t m = s.range(1, 4), e = s.range(1, 3); V b, h, r;
  for (size_t i = 0; i <= m; ++i) b.push_back((double)s.sym(6)); for (size_t i = 0; i <= e; ++i) h.push_back((double)s.sym(6));
  int db = (int)s.range(0, m); for (size_t i = db + 1; i <= m; ++i) b[i] = 0; b[db] = s.pick(V{1, -1, 2, -2, 0.5, 4});
  for (int i = 0; i < db; ++i) r.push_back((double)s.sym(9));
  QV f = add(mul(q(b), q(h)), q(r)); V a; for (Q x : f) a.push_back((double)x); size_t n = a.size() - 1; size_t extra = s.range(0, 1); for (size_t i = 0; i < extra; ++i) a.push_back(0); n += extra;
  c.describe("(" + str(b) + " x " + str(h) + " + " + str(r) + ") / " + str(b));
  V quo, rem; dispatch<2, 8>(n, [&](auto N) { divideBy<N.value>(m, a, b, quo, rem); });
  for (size_t i = 0; i < quo.size(); ++i) check(quo[i] == (i < h.size() ? h[i] : 0.0), "quotient " + str(quo));
  for (size_t i = 0; i < rem.size(); ++i) check(rem[i] == (i < r.size() ? r[i] : 0.0), "remainder " + str(rem));
  if (terms(b) > 1 && terms(h) > 1) c.nontrivial();
}
static double rootVal(Src &s, int style) {
  switch (style) { case 0: return (double)s.sym(7); case 1: return s.grid(-4, 4, 4); case 2: return s.uniform(-5, 5); default: return (s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-40, 16)); }
}
// roots and cofactors with exact products: deflation recovers the cofactor
PROP(deflate_exact, 300000, 4000000) {
  size_t n = s.range(0, 6); V h; for (size_t i = 0; i <= n; ++i) h.push_back((double)s.sym(9)); double r = s.chance(1, 6) ? 0.0 : s.chance(1, 3) ? s.pick(V{0.5, -0.5, 0.25, 2, -2, 4, 1, -1, 8, 16}) : (double)s.sym(12);
  int k = (int)s.range(-30, 30); for (double &x : h) x = std::ldexp(x, k);
  QV f = mul(QV{-Q(r), 1}, q(h)); V a; for (Q x : f) { a.push_back((double)x); if (Q(a.back()) != x) discard(); }
  c.describe("(x - " + cat(r) + ") x " + str(h) + " deflated");
  V got; dispatch<1, 7>(n + 1, [&](auto N) { got = vec(sym::deflate_polynomial(poly<N.value>(a), r)); });
  check(got.size() == n + 1, "order of the result");
  for (size_t i = 0; i <= n; ++i) near(got[i], h[i], qabs(Q(h[i])) * Q(1e-9), "deflated " + str(got) + cat(" coefficient ", i));
  if (r == 0) { V z; dispatch<1, 7>(n + 1, [&](auto N) { z = vec(sym::deflate_polynomial(poly<N.value>(a), sym::Null())); }); check(z == h, "deflation at zero " + str(z)); }
  if (degree(h) >= 2 && r != 0) c.nontrivial();
  c.label(r == 0 ? "root zero" : std::fabs(r) < 1 ? "small root" : "large root");
}
// real roots: the product with the linear factor is the original as far as the data allow
PROP(deflate_real, 200000, 3000000) {
  size_t n = s.range(1, 5); int st = (int)s.range(2, 3); std::vector<double> roots; for (size_t i = 0; i < n; ++i) roots.push_back(rootVal(s, s.chance(1, 5) ? 0 : st));
  // roots of nearly opposite value cancel in every coefficient, whatever the method
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (roots[i] * roots[j] < 0 && std::fabs(roots[i] + roots[j]) < 0.05 * std::fabs(roots[i])) discard();
  size_t pick = s.draw(n); double r = roots[pick];
  QV f{1}, h{1}; for (size_t i = 0; i < n; ++i) { f = mul(f, QV{-Q(roots[i]), 1}); if (i != pick) h = mul(h, QV{-Q(roots[i]), 1}); }
  V a; for (Q x : f) a.push_back((double)x);
  c.describe(cat("deflate ", str(a), " at its root ", r));
  V got; dispatch<1, 5>(n, [&](auto N) { got = vec(sym::deflate_polynomial(poly<N.value>(a), r)); });
  // the product with the linear factor, relative to the coefficients of prod (x + |r_i|)
  QV E{1}; for (double z : roots) E = mul(E, QV{qabs(Q(z)), 1});
  for (size_t i = 0; i <= n; ++i) {
    Q lo = i ? Q(got[i - 1]) : Q(0), hi = i < n ? Q(r) * Q(got[i]) : Q(0), res = lo - hi - Q(a[i]), m = E[i];
    check(qabs(res) <= m * Q(1e-3) + Q(1e-300), "cofactor " + str(got) + cat(" times (x - ", r, ") differs by ", (double)res, " at order ", i));
  }
  // coefficients that both recurrences determine well must be right
  std::vector<Q> up(n), dn(n); Q ar = qabs(Q(r));
  for (size_t i = n; i-- > 0;) up[i] = qabs(Q(a[i + 1])) + (i + 1 < n ? ar * up[i + 1] : Q(0));
  for (size_t i = 0; i < n; ++i) dn[i] = r == 0 ? up[i] : (qabs(Q(a[i])) + (i ? dn[i - 1] : Q(0))) / ar;
  for (size_t i = 0; i < n; ++i) near(got[i], h[i], (up[i] + dn[i]) * Q(EPS) * 64, "deflated " + str(got) + cat(" coefficient ", i));
  if (n >= 3 && r != 0) c.nontrivial();
}
// Lin-Bairstow: a returned quadratic divides the polynomial
PROP(bairstow, 4000, 60000) {
  int k = (int)s.range(1, 3); QV f{1}; std::string what; std::set<std::pair<double, double>> used;
  for (int i = 0; i < k; ++i) { double b = s.grid(-6, 6, 2), d = s.grid(-9, 9, 2); if (!used.insert({b, d}).second) discard(); f = mul(f, QV{d, b, 1}); what += cat("(x^2+", b, "x+", d, ")"); }
  if (s.chance(1, 3)) { double r = s.grid(-5, 5, 2); f = mul(f, QV{-r, 1}); what += cat("(x-", r, ")"); }
  V a; for (Q x : f) a.push_back((double)x); size_t n = a.size() - 1; c.describe("quadratic factor of " + what);
  bool ok = true; V g; dispatch<2, 7>(n, [&](auto N) { try { g = vec(sym::LinBairstowSolve(poly<N.value>(a), 1e-12)); } catch (std::runtime_error &) { ok = false; } });
  c.label(ok ? "converged" : "gave up"); if (!ok) return;
  check(g.size() == 3, "order");
  for (double x : g) check(std::isfinite(x), "factor " + str(g));
  check(g[2] != 0, "factor is not quadratic");
  // remainder of the division by the factor, in quad precision, relative to the terms involved
  QV r = f, m = absq(f); for (size_t i = n; i >= 2; --i) { Q t = r[i] / Q(g[2]); for (int j = 0; j <= 2; ++j) { r[i + j - 2] -= t * Q(g[j]); m[i + j - 2] += qabs(t * Q(g[j])); } }
  for (int i = 0; i < 2; ++i) check(qabs(r[i]) <= m[i] * Q(1e-6), "factor " + str(g) + cat(" leaves the remainder ", (double)r[i]));
  if (n > 2) c.nontrivial();
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when the divisor and quotient both have several terms (deflation: cofactor of degree two or more and a non-zero root; factors: order above two)."); }
