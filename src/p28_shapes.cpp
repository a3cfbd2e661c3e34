// P28: measures of balls and boxes.
#include "pbt.hpp"
#include <stator/geometry/sphere.hpp>
#include <stator/geometry/box.hpp>
#include <stator/geometry/point.hpp>
using namespace pbt; using std::size_t; namespace g = stator::geometry;
typedef long double L;
// volume of the unit ball by the recurrence V(D) = V(D-2)*2*pi/D
static L unit(size_t D) { const L pi = 3.14159265358979323846264338327950288L; return D == 0 ? 1 : D == 1 ? 2 : unit(D - 2) * 2 * pi / D; }
template <class S> static void near(S got, L want, L scale, const std::string &what) { L eps = std::numeric_limits<S>::epsilon(); check(std::fabs((L)got - want) <= 100 * eps * scale + 16 * std::numeric_limits<S>::min(), cat(what, " is ", got, ", expected ", (double)want)); }
template <class S> static S num(Src &s) { switch (s.range(0, 3)) { case 0: return S(s.grid(-20, 20, 4)); case 1: return S(s.uniform(-1, 1)); case 2: return S(s.sym(5)); default: return S(std::ldexp(s.uniform(-1, 1), (int)s.sym(12))); } }
template <class S, size_t D> static void ball(Src &s, Case &c, const char *name) {
  S r = std::fabs(num<S>(s)); stator::Vector<S, D> x; for (size_t i = 0; i < D; ++i) x[i] = num<S>(s); c.describe(cat("Ball<", name, ",", D, "> of radius ", r, " at ", x[0]));
  g::Ball<S, D> b(r, x), o(r); check(b.radius() == r && b.center() == x, "the ball does not keep its radius and centre"); check(o.center().isZero(0), "the default centre is not the origin");
  L rr = r, v = unit(D) * std::pow(rr, (L)D), a = D * unit(D) * std::pow(rr, (L)(D - 1));
  near<S>(volume(b), v, v, "the volume"); near<S>(area(b), a, a, "the surface area"); check(volume(b) == volume(o) && area(b) == area(o), "the measure depends on the position");
  S k = S(s.range(1, 4)); g::Ball<S, D> t(r * k, x); near<S>(volume(t), v * std::pow((L)k, (L)D), v * std::pow((L)k, (L)D), "the volume of the scaled ball"); near<S>(area(t), a * std::pow((L)k, (L)(D - 1)), a * std::pow((L)k, (L)(D - 1)), "the area of the scaled ball");
  // the area is the rate of change of the volume
  c.nontrivial(r > 0); c.label(cat("ball D=", D));
}
template <class S, size_t D> static void box(Src &s, Case &c, const char *name) {
  stator::Vector<S, D> lo, hi, sh; std::string d; for (size_t i = 0; i < D; ++i) { S a = num<S>(s), b = s.chance(1, 12) ? a : num<S>(s); lo[i] = std::min(a, b); hi[i] = std::max(a, b); sh[i] = s.sym(8); d += cat(" ", lo[i], "..", hi[i]); } c.describe(cat("AABox<", name, ",", D, ">", d));
  g::AABox<S, D> b(hi, lo); check(b.max() == hi && b.min() == lo, "the box does not keep its corners"); L e[D], v = 1, a = 0; bool flat = false;
  for (size_t i = 0; i < D; ++i) { S t = hi[i] - lo[i]; check(b.dimensions()[i] == t, "the extent is not max - min"); e[i] = t; v *= e[i]; if (t == 0) flat = true; }
  for (size_t i = 0; i < D; ++i) { L f = 1; for (size_t j = 0; j < D; ++j) if (j != i) f *= e[j]; a += 2 * f; }
  near<S>(volume(b), v, v, "the volume"); near<S>(area(b), a, a, "the surface area");
  S k = S(std::ldexp(1, (int)s.sym(3))); g::AABox<S, D> t(stator::Vector<S, D>(hi * k), stator::Vector<S, D>(lo * k)); L kv = std::pow((L)k, (L)D), ka = std::pow((L)k, (L)(D - 1)); near<S>(volume(t), v * kv, v * kv, "the volume of the scaled box"); near<S>(area(t), a * ka, a * ka, "the area of the scaled box");
  if (D == 1) check(area(b) == 2, "a segment has two ends"); c.nontrivial(!flat); c.label(cat("box D=", D)); if (flat) c.label("flat box");
}
template <class S> static void any(Src &s, Case &c, const char *n) {
  bool b = s.chance(1, 2);
  switch (s.range(1, 7)) {
#define K(D) case D: if (b) ball<S, D>(s, c, n); else box<S, D>(s, c, n); break;
    K(1) K(2) K(3) K(4) K(5) K(6) K(7)
  }
}
PROP(measures, 150000, 3000000) { switch (s.range(0, 2)) { case 0: any<double>(s, c, "double"); break; case 1: any<float>(s, c, "float"); break; default: any<long double>(s, c, "long double"); } }
PROP(large_dimensions, 20000, 200000) {
  double r = std::fabs(num<double>(s)); if (s.chance(1, 2)) r = 1; switch (s.range(0, 3)) {
#define B(D) { g::Ball<double, D> b(r); c.describe(cat("Ball<double,", D, "> of radius ", r)); L v = unit(D) * std::pow((L)r, (L)D), a = D * unit(D) * std::pow((L)r, (L)(D - 1)); if (v < 1e300L && a < 1e300L) { near<double>(volume(b), v, v, "the volume"); near<double>(area(b), a, a, "the area"); } break; }
  case 0: B(8) case 1: B(11) case 2: B(16) default: B(21)
  }
  c.nontrivial(r > 0);
}
int main(int argc, char **argv) { return pbt::main(argc, argv, "Non-trivial: the radius is positive, or the box has no zero extent."); }
