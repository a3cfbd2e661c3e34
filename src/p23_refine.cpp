// P23: Newton-Raphson, Halley and bisection refinement.
#include "pbt.hpp"
#include <stator/symbolic/numeric.hpp>
#include <array>
using namespace pbt; using std::size_t; namespace sn = stator::numeric;
// A generated function: value and two derivatives, its roots (with the number of
// coinciding or nearby ones), and the number of evaluations made.
template <class R> struct Fn {
  int kind; R scale, k, r; std::vector<R> roots; R c = 0; mutable size_t calls = 0; size_t limit = 400000; std::string text; bool monotone = false, global = false;
  std::array<R, 3> eval(R x) const {
    R t = k * (x - r);
    auto out = [&](R a, R b, R d) { return std::array<R, 3>{{scale * a, scale * k * b, scale * k * k * d}}; };
    switch (kind) {
    case 0: return out(t, 1, 0);
    case 1: return out(t + t * t * t, 1 + 3 * t * t, 6 * t);
    case 2: return out(std::sinh(t), std::cosh(t), std::sinh(t));
    case 3: return out(std::atan(t), 1 / (1 + t * t), -2 * t / ((1 + t * t) * (1 + t * t)));
    case 4: return out(std::expm1(t), std::exp(t), std::exp(t));
    case 5: { R h = std::tanh(t), q = 1 - h * h; return out(h, q, -2 * h * q); }
    case 6: return out(t * t * t, 3 * t * t, 6 * t);
    case 7: { R a = std::sqrt(1 + t * t); return out(t / a, 1 / (a * a * a), -3 * t / (a * a * a * a * a)); }
    case 8: { R p = 1, d = 0, e = 0; for (R q : roots) { R w = x - q; e = e * w + 2 * d; d = d * w + p; p *= w; } return {{scale * p, scale * d, scale * e}}; }
    case 9: return out(std::sin(t), std::cos(t), -std::sin(t));
    case 10: return out(t * t + c, 2 * t, 2);
    case 11: return out(std::exp(t) + c, std::exp(t), std::exp(t));
    case 12: return out(std::log(t + 1), 1 / (t + 1), -1 / ((t + 1) * (t + 1))); // only defined for t > -1
    case 13: { R g = std::exp(-t * t); return out(g + c, -2 * t * g, (4 * t * t - 2) * g); }
    default: return out(std::cos(t) + 1 + c, -std::sin(t), -std::cos(t));
    }
  }
  std::array<R, 3> operator()(R x) const { if (++calls > limit) pbt::fail("still iterating after " + cat(limit) + " evaluations"); return eval(x); }
  // distance from x to the nearest true root and how far one step of delta can be from it
  bool near(R x, R p, std::string &why) const {
    long double d = HUGE_VALL; long double X = x; long double m = 1;
    if (kind < 8 || kind == 12) { d = std::fabs(X - r); m = kind == 6 ? 3 : 1; }
    else if (kind == 8) { for (R q : roots) d = std::min(d, std::fabs(X - q)); m = roots.size(); }
    else if (kind == 9) { const long double pi = 3.14159265358979323846264338327950288L; long double n = std::round((X - r) * k / pi); d = std::fabs(X - r - n * pi / k); }
    else d = HUGE_VALL;
    long double tol = 4 * m * p * std::fabs(X) + 64 * std::numeric_limits<R>::epsilon() * (std::fabs(X) + std::fabs((long double)r)) + std::numeric_limits<R>::min() * 1e3L;
    if (kind != 8 && std::fabs((long double)k * X) * p > 0.02L) return true; // wandered off to where the precision exceeds the scale of the function
    why = cat("nearest root at distance ", (double)d, ", tolerance ", (double)tol);
    if (d <= tol) return true;
    return eval(x)[0] == 0; // zero as far as the arithmetic goes (underflow)
  }
};
template <class R> static R num(Src &s) { switch (s.range(0, 3)) { case 0: return R(s.sym(10)); case 1: return R(s.grid(-20, 20, 8)); case 2: return R(s.uniform(-5, 5)); default: return R(std::ldexp(s.uniform(-1, 1), (int)s.sym(8))); } }
template <class R> static Fn<R> gen(Src &s, int kinds) {
  Fn<R> f; f.kind = kinds == 0 ? (int)s.range(0, 7) : kinds == 1 ? (int)s.weighted({0, 0, 0, 0, 0, 0, 0, 0, 5, 3}) : 10 + (int)s.range(0, 4);
  f.r = num<R>(s); f.k = (s.chance(1, 4) ? -1 : 1) * R(s.chance(1, 2) ? s.grid(1, 8, 2) : std::ldexp(1 + s.unit(), (int)s.range(-4, 6))); if (f.k == 0) f.k = 1;
  f.scale = (s.chance(1, 3) ? -1 : 1) * R(s.chance(1, 5) ? std::ldexp(1.0, (int)s.sym(sizeof(R) == 4 ? 20 : 300)) : s.grid(1, 16, 4)); if (f.scale == 0) f.scale = 1;
  static const char *names[] = {"t", "t+t^3", "sinh(t)", "atan(t)", "expm1(t)", "tanh(t)", "t^3", "t/sqrt(1+t^2)", "product", "sin(t)", "t^2+c", "exp(t)+c", "log(1+t)", "exp(-t^2)+c", "1+c+cos(t)"};
  f.text = names[f.kind];
  if (f.kind == 8) { size_t n = s.range(1, 5); for (size_t i = 0; i < n; ++i) { R q = i && s.chance(1, 5) ? f.roots[s.range(0, i - 1)] : num<R>(s); if (i && s.chance(1, 8)) q = f.roots.back() * (1 + R(std::ldexp(s.unit(), -(int)s.range(2, 12)))); f.roots.push_back(q); } f.r = 0; for (R q : f.roots) { f.r = std::max(f.r, std::fabs(q)); f.text += cat(" ", q); } if (std::fabs(f.scale) > 1e80 || std::fabs(f.scale) < 1e-80) f.scale = 1; }
  if (f.kind == 10 || f.kind == 11 || f.kind >= 13) f.c = R(s.grid(1, 12, 4));
  f.monotone = f.kind < 8; f.global = f.kind <= 2 && f.kind != 3;
  f.text = cat(f.scale, "*(", f.text, ")"); if (f.kind != 8) f.text += cat(", t=", f.k, "*(x-", f.r, ")"); if (f.c != 0) f.text += cat(", c=", f.c);
  return f;
}
template <class R> static void run(Src &s, Case &c, const char *name) {
  int kinds = (int)s.weighted({5, 4, 2}); Fn<R> f = gen<R>(s, kinds);
  int method = (int)s.range(0, 2); static const char *mn[] = {"Newton", "Halley", "bisection"};
  bool bounded = method == 2 || s.chance(3, 4); R lo = -HUGE_VAL, hi = HUGE_VAL, x;
  R around = f.kind == 8 ? f.roots[s.range(0, f.roots.size() - 1)] : f.kind == 9 ? f.r + R(s.sym(3)) * R(3.14159265358979L) / f.k : f.r;
  R unit = s.chance(1, 2) ? 1 / std::fabs(f.k) : 1;
  if (bounded) { lo = around - unit * R(s.chance(1, 3) ? s.range(1, 6) : s.uniform(0.001, 30)); hi = around + unit * R(s.chance(1, 3) ? s.range(1, 6) : s.uniform(0.001, 30)); if (!(lo < hi)) discard(); }
  if (s.chance(1, 12) && bounded) { if (s.chance(1, 2)) lo = around; else hi = around; }
  switch (s.range(0, 4)) {
  case 0: x = bounded ? (lo + hi) / 2 : around + unit; break; // the middle of the bracket
  case 1: { static const double at[] = {0, 1, -1, 1.5707963267948966, -1.5707963267948966, 3.141592653589793, 1e-9, -1e-9}; x = f.r + R(at[s.range(0, 7)]) / f.k; break; } // stationary points of several kinds
  case 2: x = around + unit * R(s.uniform(-1, 1)) * R(s.chance(1, 3) ? 1e-6 : 1); break;
  case 3: if (f.kind == 8 && f.roots.size() > 1) { x = (f.roots[0] + f.roots[1]) / 2; if (f.roots.size() == 3) { // a stationary point by Newton on the derivative
      for (int i = 0; i < 60; ++i) { auto e = f.eval(x); if (e[2] == 0) break; R n = x - e[1] / e[2]; if (!std::isfinite(n)) break; x = n; } } break; }
  default: x = bounded ? lo + (hi - lo) * R(s.unit()) : around + unit * R(s.uniform(-10, 10));
  }
  if (!(x > lo && x < hi)) x = bounded ? lo + (hi - lo) / 2 : around + unit; if (!(x > lo && x < hi) || !std::isfinite(x)) discard();
  int full = std::numeric_limits<R>::digits; bool dflt = s.chance(1, 2); int digits = dflt ? full / 2 : (int)s.range(8, bounded ? full - 2 : full / 2); R p = std::ldexp(R(1), 1 - digits);
  // steep compared with the precision: one step says nothing about the root
  if (std::fabs(f.k) * (std::fabs(f.r) + std::fabs(x) + (bounded ? std::fabs(lo) + std::fabs(hi) : 0)) * p > R(0.02) && f.kind != 8) { digits = full / 2; p = std::ldexp(R(1), 1 - digits); if (std::fabs(f.k) * (std::fabs(f.r) + std::fabs(x)) * p > R(0.02)) discard(); }
  size_t limit = s.chance(1, 3) ? s.range(1, 40) : 0; R start = x; bool ok;
  c.describe(cat(mn[method], "<", name, "> on ", f.text, " from ", x, " in [", lo, ",", hi, "], iterations ", limit, ", digits ", digits));
  R elo = bounded ? f.eval(lo)[0] : 0, ehi = bounded ? f.eval(hi)[0] : 0, es = f.eval(x)[0]; if (std::isnan(es) || std::isnan(elo) || std::isnan(ehi) || (f.kind == 12 && bounded && !(std::fabs(elo) < 1e300 && std::fabs(ehi) < 1e300 && f.k * (lo - f.r) > R(-0.95) && f.k * (hi - f.r) > R(-0.95))) || (f.kind == 12 && !(f.k * (x - f.r) > R(-0.95)))) discard(); // outside the domain or on the edge of it
  auto two = [&](R v) { auto a = f(v); return std::array<R, 2>{{a[0], a[1]}}; };
  if (method == 0) ok = dflt ? sn::newton_raphson(two, x, lo, hi, limit) : sn::newton_raphson(two, x, lo, hi, limit, digits);
  else if (method == 1) ok = dflt ? sn::halleys_method(f, x, lo, hi, limit) : sn::halleys_method(f, x, lo, hi, limit, digits);
  else { auto one = [&](R v) { return f(v)[0]; }; ok = dflt ? sn::bisection(one, x, lo, hi, limit) : sn::bisection(one, x, lo, hi, limit, digits); }
  if (limit) check(f.calls <= 3 + 5 * limit, cat(f.calls, " evaluations in at most ", limit, " iterations"));
  std::string why;
  if (ok) { check(x == start || (x >= lo && x <= hi), cat("the estimate ", x, " is outside the bounds")); check(f.near(x, p, why), cat("success reported at ", x, " where f=", f.eval(x)[0], "; ", why)); c.label(cat(mn[method], " success")); }
  else { c.label(cat(mn[method], " failure")); }
  bool bracket = bounded && ((elo < 0 && ehi > 0) || (elo > 0 && ehi < 0));
  if (!limit && f.monotone && bracket) { check(ok, cat("no success on a monotone function with a root bracketed in [", lo, ",", hi, "], estimate ", x)); c.label("bracketed monotone"); }
  if (!limit && method == 2 && bracket && std::isfinite(elo) && std::isfinite(ehi) && f.kind < 10) check(ok, "bisection found no root although the signs at the bounds differ");
  if (!limit && !bounded && f.global && std::fabs(f.k * (start - f.r)) < 30 && std::fabs(f.scale) < 1e30 && std::fabs(f.scale) > 1e-30) check(ok, cat("no success on a monotone function without inflection problems, estimate ", x));
  c.nontrivial(ok ? f.calls > 3 : f.calls > 1);
}
PROP(refinement, 800000, 20000000) { switch (s.range(0, 2)) { case 0: run<double>(s, c, "double"); break; case 1: run<long double>(s, c, "long double"); break; default: run<float>(s, c, "float"); } }
int main(int argc, char **argv) { return pbt::main(argc, argv, "Non-trivial: success after more than three evaluations, or failure after more than one."); }
