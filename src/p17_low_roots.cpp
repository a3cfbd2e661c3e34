#include "poly_common.hpp"
using pbt::Case;
// all real roots of a polynomial of order <= 3 in quad precision; sets `shady` when a critical value is too close to zero to call
static Q qsqrt(Q x) { if (x <= 0) return 0; int e = 0; while (x > 4) { x /= 4; ++e; } while (x < 1) { x *= 4; --e; } Q r = std::sqrt((double)x); for (int i = 0; i < 4; ++i) r = (r + x / r) / 2; while (e > 0) { r *= 2; --e; } while (e < 0) { r /= 2; ++e; } return r; }
static Q mag(const QV &f, Q x) { return eval(absq(f), qabs(x)); }
static QV quadRoots(const QV &f, bool &shady, double margin) {
  Q a = f[2], b = f[1], c = f[0], d = b * b - 4 * a * c, sc = b * b + 4 * qabs(a * c);
  if (c == 0) { if (b == 0) return QV{0}; QV r{0, -b / a}; std::sort(r.begin(), r.end()); return r; }
  if (qabs(d) <= sc * Q(margin)) { shady = true; return QV{-b / (2 * a)}; }
  if (d < 0) return QV();
  Q t = -(b + (b < 0 ? -qsqrt(d) : qsqrt(d))) / 2; QV r{t / a, c / t}; std::sort(r.begin(), r.end()); return r;
}
static QV refRoots(QV f, bool &shady, double margin) {
  while (!f.empty() && f.back() == 0) f.pop_back();
  if (f.size() <= 1) return QV();
  if (f.size() == 2) return QV{-f[0] / f[1]};
  if (f.size() == 3) return quadRoots(f, shady, margin);
  if (f[0] == 0) { QV g(f.begin() + 1, f.end()); QV r = refRoots(g, shady, margin); bool has = false; for (Q x : r) has = has || x == 0; if (!has) r.push_back(0); std::sort(r.begin(), r.end()); return r; }
  bool dummy = false; QV crit = quadRoots(deriv(f), dummy, 0);
  Q big = 0; for (int i = 0; i < 3; ++i) big = qmax(big, qabs(f[i] / f[3])); big = 2 * big + 1;
  for (Q x : crit) if (qabs(eval(f, x)) <= mag(f, x) * Q(margin)) shady = true;
  QV pts{-big}; for (Q x : crit) pts.push_back(x); pts.push_back(big); QV roots;
  for (size_t i = 0; i + 1 < pts.size(); ++i) {
    Q lo = pts[i], hi = pts[i + 1], fl = eval(f, lo), fh = eval(f, hi); if ((fl < 0) == (fh < 0)) continue;
    for (int k = 0; k < 2000; ++k) {
      Q mid; // bisect on the exponent first
      if (lo > 0 && hi / lo > 4) mid = qsqrt(lo) * qsqrt(hi); else if (hi < 0 && lo / hi > 4) mid = -qsqrt(-lo) * qsqrt(-hi);
      else if (lo < 0 && hi > 0) { Q z = qmax(-lo, hi) * Q(1e-30); mid = f[0] == 0 ? Q(0) : ((eval(f, 0) < 0) == (fl < 0) ? (eval(f, z) < 0) == (fl < 0) ? z : Q(0) : -z); if (mid <= lo || mid >= hi) mid = (lo + hi) / 2; else if (mid == 0) mid = (lo + hi) / 2; }
      else if (lo == 0) mid = hi * Q(1e-3); else if (hi == 0) mid = lo * Q(1e-3); else mid = (lo + hi) / 2;
      if (mid <= lo || mid >= hi) break;
      Q fm = eval(f, mid); if (fm == 0) { lo = hi = mid; break; } if ((fm < 0) == (fl < 0)) lo = mid; else hi = mid;
      if (qabs(hi - lo) <= qmax(qabs(lo), qabs(hi)) * Q(1e-28)) break;
    }
    Q x = (lo + hi) / 2; for (int k = 0; k < 3; ++k) { Q d = eval(deriv(f), x); if (d == 0) break; Q nx = x - eval(f, x) / d; if (nx < pts[i] || nx > pts[i + 1]) break; x = nx; }
    roots.push_back(x);
  }
  return roots;
}
template <size_t N> static V solve(const V &a) { auto r = sym::solve_real_roots(poly<N>(a)); V v; for (size_t i = 0; i < r.size(); ++i) v.push_back(r[i]); return v; }
static V solveN(size_t n, const V &a) { switch (n) { case 0: return solve<0>(a); case 1: return solve<1>(a); case 2: return solve<2>(a); default: return solve<3>(a); } }
static double K1 = getenv("K1") ? atof(getenv("K1")) : 1e-9, K2 = getenv("K2") ? atof(getenv("K2")) : 1e3;
static double tolRel(const QV &f, Q x) { // relative tolerance of a simple root
  if (x == 0) return 0; Q d = qabs(x * eval(deriv(f), x)); if (d == 0) return 1e300; return K1 + (double)(mag(f, x) / d) * EPS * K2;
}
static std::string showRoots(const QV &r) { return strq(r); }
static void judge(size_t n, const V &a, V got, const QV &want, const QV &f) {
  // a repeated root of a cubic may be reported more than once
  if (degree(a) == 3 && a[0] == 0 && a[1] == 0) got.erase(std::unique(got.begin(), got.end()), got.end());
  check(got.size() == want.size(), cat("returned ", got.size(), " roots ", str(got), ", there are ", want.size(), " ", showRoots(want)));
  for (size_t i = 0; i + 1 < got.size(); ++i) check(got[i] <= got[i + 1], "roots not in ascending order: " + str(got));
  for (size_t i = 0; i < got.size(); ++i) {
    double t = tolRel(f, want[i]); if (t > 1e-2) { discard(); }
    check(qabs(Q(got[i]) - want[i]) <= qabs(want[i]) * Q(t), cat("root ", got[i], " should be ", (double)want[i], " (relative tolerance ", t, "; roots ", str(got), ")"));
  }
}
static double wide(Src &s, int e) { switch (s.range(0, 3)) { case 0: return (double)s.sym(9); case 1: return s.uniform(-10, 10); case 2: return s.grid(-50, 50, 4); default: return (s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-e, e)); } }
static void run(Src &s, Case &c, size_t n, V a, double margin) {
  QV f = q(a); bool shady = false; QV want = refRoots(f, shady, margin); if (shady) { c.label("near-multiple"); discard(); }
  V got = solveN(n, a); while (f.size() > 1 && f.back() == 0) f.pop_back();
  judge(n, a, got, want, f);
  c.label(cat("order ", degree(a), " with ", want.size(), " roots")); if (degree(a) >= 2 && !want.empty()) c.nontrivial();
}
// polynomials given by their coefficients
PROP(coefficients, 300000, 4000000) {
  size_t n = s.range(1, 3); V a; for (size_t i = 0; i <= n; ++i) a.push_back(s.chance(1, 8) ? 0.0 : wide(s, 40));
  if (s.chance(1, 8)) { a[n] = 0; if (n > 1 && s.chance(1, 3)) a[n - 1] = 0; } if (s.chance(1, 8)) { a[0] = 0; if (s.chance(1, 3)) a[1] = 0; }
  c.describe("roots of " + str(a)); if (degree(a) < 0) { check(solveN(n, a).empty(), "zero polynomial"); return; }
  run(s, c, n, a, 1e-9);
}
// polynomials given by their roots, rounded to double, on any scale
PROP(roots, 300000, 4000000) {
  size_t n = s.range(2, 3); bool pair = s.chance(1, 3); QV f{1}; std::string d; int e = (int)s.range(-30, 30); size_t k = pair ? n - 2 : n;
  for (size_t i = 0; i < k; ++i) { double r = std::ldexp(s.chance(1, 10) ? 0.0 : wide(s, 8), e); f = mul(f, QV{-Q(r), 1}); d += cat(" ", r); }
  if (pair) { double re = std::ldexp(wide(s, 6), e), im = std::ldexp(std::fabs(wide(s, 6)), e); if (im == 0) discard(); f = mul(f, QV{Q(re) * re + Q(im) * im, -2 * Q(re), 1}); d += cat(" ", re, "+-", im, "i"); }
  double k2 = (s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-40, 40)); V a; for (Q x : f) a.push_back((double)(x * Q(k2)));
  if (s.chance(1, 6) && n == 2) { a.push_back(0); n = 3; }
  c.describe("roots of " + str(a) + " built from" + d);
  run(s, c, n, a, 1e-9);
}
// exactly repeated roots
PROP(multiple, 60000, 1000000) {
  double r = (double)s.sym(20), t = s.chance(1, 3) ? r : (double)s.sym(20); size_t n = s.range(2, 3); int e = (int)s.range(-20, 20); double k = s.pick(V{1, -1, 2, -4, 0.5, 3});
  QV f{k}; f = mul(f, QV{-r, 1}); f = mul(f, QV{-r, 1}); if (n == 3) f = mul(f, QV{-t, 1}); V a; for (size_t i = 0; i <= n; ++i) a.push_back(std::ldexp((double)f[i], -e * (int)i));
  double R = std::ldexp(r, e), T = std::ldexp(t, e);
  c.describe("roots of " + str(a) + cat(": ", R, " twice", n == 3 ? cat(" and ", T) : ""));
  V got = solveN(n, a); double loose = 2e-3 * std::max({std::fabs(R), std::fabs(T) * (n == 3)});
  for (size_t i = 0; i + 1 < got.size(); ++i) check(got[i] <= got[i + 1], "roots not in ascending order: " + str(got));
  for (double x : got) check(std::fabs(x - R) <= loose || (n == 3 && std::fabs(x - T) <= loose), cat("root ", x, " is not a root; returned ", str(got)));
  if (n == 3) { bool found = false; for (double x : got) found = found || std::fabs(x - T) <= (t == r ? loose : 1e-6 * std::fabs(T) ) + 1e-300; check(found, cat("root ", T, " is missing from ", str(got))); }
  if (n == 2) check(got.size() == 1, "repeated root of a quadratic should be returned once, got " + str(got));
  c.nontrivial(r != 0);
}
// extreme magnitudes, where squares or cubes of the coefficients overflow
PROP(extreme, 60000, 1000000) {
  size_t n = s.range(1, 3); int e = n == 3 ? 115 : 300; V a; for (size_t i = 0; i <= n; ++i) a.push_back((s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-e, e)));
  if (s.chance(1, 4)) a[s.range(0, n)] = s.uniform(-3, 3); if (a[n] == 0) discard();
  c.describe("roots of " + str(a)); 
  run(s, c, n, a, 1e-9);
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when the polynomial is of order two or three and has a real root (repeated roots: a non-zero one)."); }
