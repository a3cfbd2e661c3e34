#include "poly_common.hpp"
#include <complex>
using namespace pc; using pbt::Case;
// A polynomial is generated from well separated roots; its coefficients are rounded to double and the roots are then polished
// in quad precision on the rounded coefficients, so the reference is the exact root set of the polynomial that is solved.
struct Spec { V a; QV want; double worst; };
static bool polish(const QV &f, Q &x) { QV d = deriv(f); for (int k = 0; k < 6; ++k) { Q dd = eval(d, x); if (dd == 0) return false; x -= eval(f, x) / dd; } return true; }
typedef std::complex<long double> CL;
static CL evalc(const QV &f, CL x) { CL s = 0; for (size_t i = f.size(); i-- > 0;) s = s * x + CL((long double)f[i]); return s; }
template <size_t N, sym::PolyRootBounder B> static V run1(const V &a) { auto r = sym::solve_real_roots<B, sym::PolyRootBisector::BISECTION>(poly<N>(a)); V v; for (size_t i = 0; i < r.size(); ++i) v.push_back(r[i]); return v; }
static V solve(size_t n, int method, const V &a) {
  V r;
  dispatch<4, 9>(n, [&](auto N) {
    if (method == 0) r = run1<N, sym::PolyRootBounder::STURM>(a); else if (method == 1) r = run1<N, sym::PolyRootBounder::VCA>(a); else if (method == 2) r = run1<N, sym::PolyRootBounder::VAS>(a);
    else { auto x = sym::solve_real_roots(poly<N>(a)); for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i]); }
  });
  return r;
}
static const char *NAMES[] = {"Sturm", "VCA", "VAS", "default"};
static double CONDMAX = getenv("CM") ? atof(getenv("CM")) : 1e-10, SEP = getenv("SEP") ? atof(getenv("SEP")) : 0.03;
static void judge(const Spec &sp, size_t n, Case &c) {
  for (int m = 0; m < 4; ++m) {
    V got; try { got = solve(n, m, sp.a); } catch (std::exception &e) { fail(cat(NAMES[m], " method raised ", std::string(e.what()).substr(0, 200), "; the roots are ", strq(sp.want))); }
    check(got.size() == sp.want.size(), cat(NAMES[m], " method returned ", got.size(), " roots ", str(got), ", there are ", sp.want.size(), " ", strq(sp.want)));
    for (size_t i = 0; i + 1 < got.size(); ++i) check(got[i] < got[i + 1], cat(NAMES[m], " method: roots not in ascending order: ", str(got)));
    for (size_t i = 0; i < got.size(); ++i) check(qabs(Q(got[i]) - sp.want[i]) <= qabs(sp.want[i]) * Q(1e-6), cat(NAMES[m], " method: root ", got[i], " should be ", (double)sp.want[i], "; roots ", str(got)));
  }
}
static double root(Src &s, int style, bool positive) {
  double r; switch (style) {
    case 0: r = (double)s.range(1, 12); break;
    case 1: r = s.grid(1, 100, 8); break;
    case 2: r = 0.1 + 9.9 * s.unit(); break;
    default: r = std::ldexp(1 + s.unit(), (int)s.range(-6, 6)); }
  return positive || s.chance(1, 2) ? r : -r;
}
static Spec build(Src &s, Case &c, size_t lead, size_t zeros, size_t reals, size_t pairs, int scale) {
  int style = (int)s.range(0, 3); bool pos = s.chance(1, 4); V rs; std::string d; QV f{1};
  for (size_t i = 0; i < reals; ++i) { double r = root(s, style, pos); for (double o : rs) if (std::fabs(o - r) <= SEP * std::max(std::fabs(o), std::fabs(r))) discard(); rs.push_back(r); f = mul(f, QV{-Q(r), 1}); d += cat(" ", r); }
  std::vector<CL> cs; for (size_t i = 0; i < pairs; ++i) { double re = s.chance(1, 4) ? 0.0 : root(s, style, false), im = std::fabs(root(s, style, true)); if (im < 0.05 * std::fabs(re)) im = 0.05 * std::fabs(re); f = mul(f, QV{Q(re) * re + Q(im) * im, -2 * Q(re), 1}); cs.push_back(CL(re, im)); d += cat(" ", re, "+-", im, "i"); }
  double k = s.pick(V{1, -1, 2, -3, 0.25, 7}); V a; for (size_t i = 0; i < f.size(); ++i) a.push_back(std::ldexp((double)(f[i] * Q(k)), -scale * (int)i));
  QV g = q(a); Spec sp; sp.worst = 0;
  for (double r : rs) { Q x = std::ldexp(r, scale); if (!polish(g, x)) discard(); double cond = (double)(eval(absq(g), qabs(x)) / qabs(x * eval(deriv(g), x))); sp.worst = std::max(sp.worst, cond * EPS); if (qabs(x - Q(std::ldexp(r, scale))) > qabs(x) * Q(1e-6)) discard(); sp.want.push_back(x); }
  for (CL z : cs) { z = CL(std::ldexp(z.real(), scale), std::ldexp(z.imag(), scale)); long double num = (long double)eval(absq(g), Q(std::abs(z))), den = std::abs(evalc(deriv(g), z)); sp.worst = std::max(sp.worst, (double)(num / den / z.imag()) * EPS); }
  if (sp.worst > CONDMAX) { c.label("ill-conditioned"); discard(); }
  if (zeros) { a.insert(a.begin(), zeros, 0.0); sp.want.push_back(0); d += " 0"; if (zeros > 1) d += cat(" (", zeros, " times)"); }
  a.insert(a.end(), lead, 0.0); std::sort(sp.want.begin(), sp.want.end()); sp.a = a;
  c.describe(cat("roots of ", str(a), " built from", d, " scaled by 2^", scale));
  return sp;
}
PROP(separated, 120000, 400000) {
  size_t n = s.range(4, 8), pairs = s.range(0, n / 2), reals = n - 2 * pairs; int scale = s.chance(1, 2) ? 0 : (int)s.range(-12, 12);
  Spec sp = build(s, c, 0, 0, reals, pairs, scale); judge(sp, n, c);
  c.label(cat("order ", n)); c.label(cat(sp.want.size(), " real roots")); c.nontrivial(sp.want.size() >= 1);
}
// roots at zero and vanishing leading coefficients
PROP(degenerate, 100000, 400000) {
  size_t lead = s.range(0, 3), zeros = s.range(0, 2), core = s.range(0, 6), n = lead + zeros + core; if (n < 4 || n > 9 || lead + zeros == 0) discard();
  size_t pairs = s.range(0, core / 2); Spec sp = build(s, c, lead, zeros, core - 2 * pairs, pairs, (int)s.range(-6, 6)); 
  if (core == 0 && zeros == 0) discard();
  judge(sp, n, c); c.label(cat(zeros, " zero roots, ", lead, " vanishing leading coefficients")); c.nontrivial(sp.want.size() >= 1);
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when the polynomial has at least one real root."); }
