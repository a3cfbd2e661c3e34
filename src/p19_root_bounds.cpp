#include "poly_common.hpp"
using namespace pc; using pbt::Case;
// Polynomials with integer coefficients are built from rational roots k/8 (with multiplicity) and irreducible quadratics, so every
// coefficient is exact and the exact root multiset is known; transformed coefficients are checked to stay exact.
struct Built { QV f; V roots; std::string d; size_t n; };
static bool exact(const QV &f) { for (Q x : f) { double d = (double)x; if (Q(d) != x) return false; } return true; }
static V dbl(const QV &f) { V r; for (Q x : f) r.push_back((double)x); return r; }
static Built build(Src &s, size_t maxOrder, bool distinct, bool zeroOk, size_t minReal = 0) {
  Built b; size_t n = s.range(1, maxOrder), pairs = s.range(0, n / 2); if (n - 2 * pairs < minReal) pairs = (n - minReal) / 2; b.f = QV{1}; b.n = n; int den = s.pick(std::vector<int>{1, 1, 2, 8}); bool pos = s.chance(1, 4); int range = s.chance(1, 3) ? den : 10 * den;
  for (size_t i = 0; i < n - 2 * pairs; ++i) {
    int k = (int)s.range(zeroOk ? 0 : 1, range); if (!pos && s.chance(1, 2)) k = -k; double r = (double)k / den;
    if (!distinct && !b.roots.empty() && s.chance(1, 4)) { r = b.roots.back(); k = (int)(r * den); }
    for (double o : b.roots) if (distinct && o == r) discard();
    b.roots.push_back(r); b.f = mul(b.f, QV{Q(-k), Q(den)}); b.d += cat(" ", r);
  }
  for (size_t i = 0; i < pairs; ++i) { int p = (int)s.sym(6), m = (int)s.range(1, 9); int e = s.chance(1, 2) ? 1 : 8; b.f = mul(b.f, QV{Q(p * p + m), Q(-2 * p * e), Q(e * e)}); b.d += cat(" (", p, "+-sqrt(-", m, "))/", e); }
  int k = s.pick(std::vector<int>{1, -1, 3, -2}); for (Q &x : b.f) x *= k; if (!exact(b.f)) discard();
  return b;
}
static size_t countIn(const V &roots, double a, double b, bool closedB) { size_t k = 0; for (double r : roots) k += r > a && (closedB ? r <= b : r < b); return k; }
// polynomials of order n stored at order N >= n
template <class F> static void at(size_t N, F fn) { dispatch<1, 9>(N, fn); }
PROP(descartes, 150000, 2500000) {
  Built b = build(s, 7, false, true); size_t N = b.n + (s.chance(1, 4) ? s.range(1, 2) : 0); V a = dbl(b.f); c.describe(cat("Descartes' rule for ", str(a), " with roots", b.d, ", stored order ", N));
  size_t pos = countIn(b.roots, 0, HUGE_VAL, false), got = 0; at(N, [&](auto M) { got = sym::descartes_rule_of_signs(poly<M>(a)); });
  check(got >= pos, cat("counted ", got, " but there are ", pos, " positive roots")); check((got - pos) % 2 == 0, cat("counted ", got, ", differs from the ", pos, " positive roots by an odd number"));
  c.nontrivial(pos > 0); c.label(cat("excess ", got - pos));
}
PROP(budan01, 150000, 2500000) {
  Built b = build(s, 7, false, true); size_t N = b.n + (s.chance(1, 4) ? s.range(1, 2) : 0); V a = dbl(b.f); c.describe(cat("Budan's (0,1) test for ", str(a), " with roots", b.d, ", stored order ", N));
  size_t in = countIn(b.roots, 0, 1, false), got = 0; at(N, [&](auto M) { got = sym::budan_01_test(poly<M>(a)); });
  check(got >= in, cat("counted ", got, " but there are ", in, " roots in (0,1)")); check((got - in) % 2 == 0, cat("counted ", got, ", differs from the ", in, " roots in (0,1) by an odd number"));
  c.nontrivial(in > 0); c.label(cat("excess ", got - in));
}
PROP(alesina_galuzzi, 150000, 2500000) {
  Built b = build(s, 6, false, true); V a = dbl(b.f); double lo = s.grid(-40, 40, 4), hi = lo + s.grid(1, 40, 4); size_t N = b.n + (s.chance(1, 4) ? 1 : 0);
  if (!b.roots.empty() && s.chance(1, 4)) { lo = b.roots[0]; hi = lo + s.grid(1, 40, 4); } else if (!b.roots.empty() && s.chance(1, 4)) { hi = b.roots[0]; lo = hi - s.grid(1, 40, 4); }
  c.describe(cat("Alesina-Galuzzi test for ", str(a), " with roots", b.d, " on (", lo, ",", hi, "), stored order ", N));
  QV t = shift(b.f, lo); Q p = 1; for (Q &x : t) { x *= p; p *= Q(hi - lo); } if (!exact(t) || !exact(shift(b.f, lo))) discard(); Q total = 0; for (Q x : absq(t)) total += x; if (total * 1024 > Q(9e15)) { Q sc = 1; for (int i = 0; i < 30; ++i) sc *= 2; if (total * sc > Q(9e15) * sc) discard(); }
  size_t in = countIn(b.roots, lo, hi, false), got = 0; at(N, [&](auto M) { got = sym::alesina_galuzzi_test(poly<M>(a), lo, hi); });
  check(got >= in, cat("counted ", got, " but there are ", in, " roots in (", lo, ",", hi, ")")); check((got - in) % 2 == 0, cat("counted ", got, ", differs from the ", in, " roots by an odd number"));
  c.nontrivial(in > 0); c.label(cat("excess ", got - in));
}
static double bound(Src &s, const V &roots) {
  switch (s.range(0, 5)) { case 0: return s.chance(1, 2) ? HUGE_VAL : -HUGE_VAL; case 1: return roots.empty() ? 0 : roots[s.range(0, roots.size() - 1)]; case 2: return s.grid(-100, 100, 8) + 1.0 / 32; case 3: return s.sym(12); case 4: return s.uniform(-12, 12); default: return (s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-10, 20)); }
}
static bool tooNear(const V &roots, double x) { for (double r : roots) if (r != x && std::fabs(r - x) < 1e-3 * std::max(std::fabs(r), 0.1)) return true; return false; }
PROP(sturm, 400000, 2000000) {
  Built b = build(s, 6, true, true); V a = dbl(b.f); for (size_t i = 0; i < b.roots.size(); ++i) for (size_t j = 0; j < i; ++j) if (std::fabs(b.roots[i] - b.roots[j]) < 0.02 * std::fabs(b.roots[i])) discard();
  double lo = bound(s, b.roots), hi = bound(s, b.roots); if (tooNear(b.roots, lo) || tooNear(b.roots, hi)) discard(); if (lo > hi) std::swap(lo, hi); size_t N = b.n + (s.chance(1, 5) ? 1 : 0);
  c.describe(cat("Sturm count of ", str(a), " with roots", b.d, " in (", lo, ",", hi, "], stored order ", N));
  size_t in = countIn(b.roots, lo, hi, true), got = 0, rev = 0; at(N, [&](auto M) { auto ch = sym::sturm_chain(poly<M>(a)); got = ch.roots(lo, hi); rev = ch.roots(hi, lo); });
  check(got == in, cat("counted ", got, " roots, there are ", in)); check(rev == got, cat("the count ", rev, " of the reversed interval differs from ", got));
  c.nontrivial(in > 0); c.label(cat(in, " roots"));
}
// positive roots of any magnitude against the upper and lower bounds
PROP(lmq, 150000, 2500000) {
  size_t n = s.range(1, 7), pairs = s.range(0, n / 2); QV f{1}; V rs; std::string d;
  for (size_t i = 0; i < n - 2 * pairs; ++i) { double r = std::ldexp(1 + s.unit(), (int)s.range(-20, 20)); if (s.chance(1, 8)) r = 1; if (s.chance(1, 2)) r = -r; rs.push_back(r); f = mul(f, QV{-Q(r), 1}); d += cat(" ", r); }
  for (size_t i = 0; i < pairs; ++i) { double re = s.uniform(-8, 8), im = s.uniform(0.1, 8); f = mul(f, QV{Q(re) * re + Q(im) * im, -2 * Q(re), 1}); d += cat(" ", re, "+-", im, "i"); }
  double k = s.pick(V{1, -1, 1e5, -1e-5}); V a; for (Q x : f) a.push_back((double)(x * Q(k))); size_t lead = s.chance(1, 4) ? s.range(1, 2) : 0, zeros = s.chance(1, 6) ? 1 : 0; a.insert(a.begin(), zeros, 0.0); a.insert(a.end(), lead, 0.0);
  c.describe(cat("root bounds of ", str(a), " with roots", d)); double ub = -1, lb = -1; size_t pos = 0; double mx = 0, mn = HUGE_VAL; for (double r : rs) if (r > 0) { ++pos; mx = std::max(mx, r); mn = std::min(mn, r); }
  dispatch<1, 10>(n + lead + zeros, [&](auto M) { ub = sym::LMQ_upper_bound(poly<M>(a)); lb = sym::LMQ_lower_bound(poly<M>(a)); });
  check(ub == ub && lb == lb, cat("bounds are nan: ", lb, ", ", ub));
  if (pos) { check(ub >= mx * (1 - 1e-6), cat("upper bound ", ub, " is below the root ", mx)); check(lb <= mn * (1 + 1e-6), cat("lower bound ", lb, " is above the root ", mn)); check(lb >= 0 && ub > 0 && std::isfinite(ub), cat("bounds ", lb, ", ", ub)); if (!zeros) check(lb > 0, "lower bound is zero although zero is no root"); }
  c.nontrivial(pos > 0); c.label(cat(pos, " positive roots"));
}
// the bounding methods isolate every positive root once
PROP(isolate, 60000, 1000000) {
  Built b = build(s, 7, true, false); V a = dbl(b.f), pos; for (double r : b.roots) if (r > 0) pos.push_back(r); for (size_t i = 0; i < b.roots.size(); ++i) for (size_t j = 0; j < i; ++j) if (std::fabs(b.roots[i] - b.roots[j]) < 0.03 * std::fabs(b.roots[i])) discard();
  for (double r : b.roots) { double cond = (double)(eval(absq(b.f), qabs(Q(r))) / qabs(Q(r) * eval(deriv(b.f), r))); if (cond * EPS > 1e-10) discard(); }
  bool vca = s.chance(1, 2); c.describe(cat(vca ? "VCA" : "VAS", " bounds of ", str(a), " with roots", b.d)); std::vector<std::pair<double, double>> got;
  at(b.n, [&](auto M) { auto f = poly<M>(a); auto r = vca ? sym::VCA_real_root_bounds(f) : sym::VAS_real_root_bounds(f); for (size_t i = 0; i < r.size(); ++i) got.push_back(r[i]); });
  std::string t; for (auto &x : got) t += cat(" (", x.first, ",", x.second, ")");
  check(got.size() == pos.size(), cat("returned ", got.size(), " intervals", t, ", there are ", pos.size(), " positive roots"));
  for (double r : pos) { size_t k = 0; for (auto &x : got) k += x.first <= r * (1 + 1e-9) && r <= x.second * (1 + 1e-9); check(k >= 1, cat("root ", r, " is in no interval:", t)); }
  for (auto &x : got) { check(x.first <= x.second && x.first >= 0 && std::isfinite(x.second), "not an interval:" + t); size_t k = countIn(pos, x.first * (1 + 1e-9), x.second * (1 - 1e-9), false); check(k <= 1, cat("interval (", x.first, ",", x.second, ") holds ", k, " roots")); }
  c.nontrivial(pos.size() >= 2); c.label(cat(vca ? "VCA " : "VAS ", pos.size(), " positive roots"));
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when at least one real root lies in the range that is counted or bounded (isolation: at least two positive roots)."); }
