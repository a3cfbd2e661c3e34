#include "poly_common.hpp"
namespace { constexpr char y_str[] = "y"; constexpr char x_str[] = "x"; }
typedef sym::Var<y_str> Y; typedef sym::Var<x_str> X;
static double shiftBy(Src &s) { switch (s.range(0, 5)) { case 0: return 0; case 1: return (double)s.sym(3); case 2: return s.uniform(-2, 2); case 3: return s.grid(-30, 30, 8); case 4: return s.sym(2000); default: return (s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-25, 5)); } }
static QV tolOf(const QV &t, Q f) { QV r; for (Q x : t) r.push_back(qabs(x) * f); return r; }

PROP(derivative, 200000, 3000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n); int w = (int)s.range(0, 2);
  c.describe(cat("derivative form ", w, " of ", str(a)));
  dispatch<0, 8>(n, [&](auto N) {
    constexpr size_t O = N.value; auto f = poly<O>(a); QV want = deriv(q(a)); V got;
    if (w == 0) { auto d = sym::derivative(f, X()); if constexpr (O > 0) { got = vec(d); check(got.size() == O, "order of the derivative"); } else { static_assert(std::is_same<decltype(d), sym::Null>::value, "derivative of a constant"); got = V(); } }
    else if (w == 1) { // in another variable
      auto d = sym::derivative(f, Y()); check(double(sym::toArithmetic(d)) == 0, "derivative in another variable"); auto e = sym::derivative(poly<O, Y>(a), X()); check(double(sym::toArithmetic(e)) == 0, "derivative in another variable"); want = QV(); }
    else { auto g = poly<O, Y>(a); auto d = sym::derivative(g, Y()); if constexpr (O > 1) { auto d2 = sym::derivative(d, Y()); got = vec(d2); want = deriv(want); } else want = QV(); }
    nearV(got, want, tolOf(want, Q(EPS) * 2), "derivative " + str(got));
  });
  if (degree(a) >= 2) c.nontrivial();
}
PROP(shift, 300000, 4000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n); double t = shiftBy(s);
  c.describe("shift " + str(a) + cat(" by ", t));
  V got; dispatch<0, 8>(n, [&](auto N) { auto f = poly<N.value>(a); auto g = sym::shift_function(f, t); got = vec(g); check(vec(f) == a, "argument changed"); });
  check(got.size() == n + 1, "order");
  nearV(got, pc::shift(q(a), t), tolOf(pc::shift(absq(q(a)), qabs(Q(t))), Q(EPS) * (4 * n + 4)), "shifted " + str(got));
  if (degree(a) >= 2 && t != 0) c.nontrivial();
}
PROP(unit_shift, 200000, 3000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n);
  c.describe("shift " + str(a) + " by one");
  V got; dispatch<0, 8>(n, [&](auto N) { got = vec(sym::shift_function(poly<N.value>(a), sym::Unity())); });
  nearV(got, pc::shift(q(a), 1), tolOf(pc::shift(absq(q(a)), 1), Q(EPS) * (4 * n + 4)), "shifted " + str(got));
  if (degree(a) >= 2) c.nontrivial();
}
PROP(reciprocal, 200000, 3000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n);
  c.describe("(x+1)^n f(1/(x+1)) of " + str(a));
  V got; dispatch<0, 8>(n, [&](auto N) { got = vec(sym::invert_taylor_shift(poly<N.value>(a))); });
  QV r = q(a); std::reverse(r.begin(), r.end());
  nearV(got, pc::shift(r, 1), tolOf(pc::shift(absq(r), 1), Q(EPS) * (4 * n + 4)), "transformed " + str(got));
  // the defining identity at a point
  double x = s.uniform(-0.5, 4); Q w = qpow(Q(x) + 1, (int)n) * eval(q(a), 1 / (Q(x) + 1)), m = qpow(Q(x) + 1, (int)n) * eval(absq(q(a)), 1 / (Q(x) + 1));
  Q bound = eval(pc::shift(absq(r), 1), qabs(Q(x)));
  Q g = eval(q(got), x); check(qabs(g - w) <= qmax(bound, m) * Q(EPS) * (8 * n + 8) + Q(1e-300), cat("identity at ", x, ": ", (double)g, " and ", (double)w));
  if (degree(a) >= 2) c.nontrivial();
}
PROP(reflect, 200000, 3000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n); bool twice = s.chance(1, 3);
  c.describe("reflect " + str(a));
  V got; dispatch<0, 8>(n, [&](auto N) { auto g = sym::reflect_poly(poly<N.value>(a)); if (twice) g = sym::reflect_poly(g); got = vec(g); });
  for (size_t i = 0; i <= n; ++i) check(got[i] == (i % 2 && !twice ? -a[i] : a[i]), cat("coefficient ", i, " is ", got[i]));
  if (degree(a) >= 2) c.nontrivial();
}
PROP(scale, 200000, 3000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n); double k = s.chance(1, 10) ? 0.0 : shiftBy(s);
  c.describe("scale " + str(a) + cat(" by ", k));
  V got; dispatch<0, 8>(n, [&](auto N) { got = vec(sym::scale_poly(poly<N.value>(a), k)); });
  QV want = q(a); for (size_t i = 0; i <= n; ++i) want[i] *= qpow(k, (int)i);
  nearV(got, want, tolOf(want, Q(EPS) * (2 * n + 2)), "scaled " + str(got));
  if (degree(a) >= 2 && k != 0 && k != 1) c.nontrivial();
}
// compositions of transforms, judged at a point through the original polynomial
PROP(compose, 150000, 2000000) {
  size_t n = s.range(1, 6); V a = coefs(s, n, (int)s.range(0, 3)); int k = (int)s.range(1, 5); std::string what; QV want = q(a), mag = absq(want); V got;
  std::vector<std::pair<int, double>> ops; for (int i = 0; i < k; ++i) { int o = (int)s.range(0, 5); double t = o == 0 || o == 3 ? s.grid(-3, 3, 4) : 0; ops.push_back({o, t}); what += cat(o == 0 ? " shift " : o == 1 ? " shift1" : o == 2 ? " reflect" : o == 3 ? " scale " : o == 4 ? " reciprocal" : " derivative", t); }
  c.describe(str(a) + what);
  dispatch<1, 6>(n, [&](auto N) { auto f = poly<N.value>(a);
    for (auto &o : ops) switch (o.first) {
      case 0: f = sym::shift_function(f, o.second); want = pc::shift(want, o.second); mag = pc::shift(mag, qabs(Q(o.second))); break;
      case 1: f = sym::shift_function(f, sym::Unity()); want = pc::shift(want, 1); mag = pc::shift(mag, 1); break;
      case 2: f = sym::reflect_poly(f); for (size_t i = 1; i < want.size(); i += 2) want[i] = -want[i]; break;
      case 3: f = sym::scale_poly(f, o.second); for (size_t i = 0; i < want.size(); ++i) { want[i] *= qpow(o.second, (int)i); mag[i] *= qpow(qabs(Q(o.second)), (int)i); } break;
      case 4: f = sym::invert_taylor_shift(f); std::reverse(want.begin(), want.end()); std::reverse(mag.begin(), mag.end()); want = pc::shift(want, 1); mag = pc::shift(mag, 1); break;
      default: f = sym::Polynomial<N.value>(sym::derivative(f, X())); want = deriv(want); want.push_back(0); mag = deriv(mag); mag.push_back(0); break;
    }
    got = vec(f); });
  nearV(got, want, tolOf(mag, Q(EPS) * (8 * n * k + 8)), "result " + str(got));
  if (degree(a) >= 2 && k >= 2) c.nontrivial();
}
// integer coefficient types
PROP(integers, 60000, 800000) {
  sym::Polynomial<4, int> f; V a; for (int i = 0; i <= 4; ++i) { f[i] = (int)s.sym(20); a.push_back(f[i]); } int t = (int)s.sym(4);
  c.describe(str(a) + cat(" integer, shift ", t));
  auto exact = [&](const V &got, const QV &want, const char *w) { for (size_t i = 0; i < want.size(); ++i) check(Q(got[i]) == want[i], cat(w, " coefficient ", i, ": ", got[i], " instead of ", (double)want[i])); };
  exact(vec(sym::shift_function(f, sym::Unity())), pc::shift(q(a), 1), "unit shift"); exact(vec(sym::shift_function(f, (double)t)), pc::shift(q(a), t), "shift");
  QV r = q(a); std::reverse(r.begin(), r.end()); exact(vec(sym::invert_taylor_shift(f)), pc::shift(r, 1), "reciprocal");
  exact(vec(sym::derivative(f, X())), deriv(q(a)), "derivative");
  if (degree(a) >= 2 && t) c.nontrivial();
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when the polynomial has degree two or more and the parameter is not the neutral one."); }
