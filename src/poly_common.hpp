// Generation of polynomials and an independent quad-precision reference.
#pragma once
#include "pbt.hpp"
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/polynomial.hpp>
#include <utility>
namespace pc {
  using pbt::Src; using pbt::cat; using pbt::check; using pbt::fail; using pbt::discard; using std::size_t;
  typedef __float128 Q;
  typedef std::vector<double> V;
  typedef std::vector<Q> QV;
  static const double EPS = std::numeric_limits<double>::epsilon();
  static inline Q qabs(Q a) { return a < 0 ? -a : a; }
  static inline Q qmax(Q a, Q b) { return a > b ? a : b; }
  static inline Q qpow(Q a, int n) { Q r = 1; while (n-- > 0) r *= a; return r; }
  static inline QV q(const V &v) { return QV(v.begin(), v.end()); }
  static inline std::string str(const V &v) { std::ostringstream o; o.precision(17); o << "{"; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "}"; return o.str(); }
  static inline std::string strq(const QV &v) { V d; for (Q x : v) d.push_back((double)x); return str(d); }
  template <size_t N, class R, class X> V vec(const sym::Polynomial<N, R, X> &p) { V v; for (size_t i = 0; i <= N; ++i) v.push_back((double)p[i]); return v; }
  template <size_t N, class X = sym::Var<>> sym::Polynomial<N, double, X> poly(const V &v) { sym::Polynomial<N, double, X> p; for (size_t i = 0; i <= N && i < v.size(); ++i) p[i] = v[i]; return p; }
  static inline QV mul(const QV &a, const QV &b) { if (a.empty() || b.empty()) return QV(); QV r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
  static inline QV add(const QV &a, const QV &b, Q sb = 1) { QV r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (size_t i = 0; i < b.size(); ++i) r[i] += sb * b[i]; return r; }
  static inline QV absq(const QV &a) { QV r; for (Q x : a) r.push_back(qabs(x)); return r; }
  static inline Q eval(const QV &f, Q x) { Q s = 0; for (size_t i = f.size(); i-- > 0;) s = s * x + f[i]; return s; }
  static inline QV deriv(const QV &f) { QV r; for (size_t i = 1; i < f.size(); ++i) r.push_back(f[i] * Q(i)); return r; }
  static inline QV shift(const QV &f, Q t) { QV r(f.size(), 0); for (size_t i = f.size(); i-- > 0;) { QV n(r.size(), 0); for (size_t j = 0; j < r.size(); ++j) { n[j] += r[j] * t; if (j + 1 < r.size()) n[j + 1] += r[j]; } n[0] += f[i]; r = n; } return r; }
  static inline int degree(const V &v) { for (size_t i = v.size(); i-- > 0;) if (v[i] != 0) return (int)i; return -1; }
  static inline int terms(const V &v) { int n = 0; for (double x : v) n += x != 0; return n; }
  // |got - want| within tol (absolute); also handles overflow to infinity in the library by discarding
  static inline void near(double got, Q want, Q tol, const std::string &what) {
    if (qabs(want) + tol > Q(1e307)) return;
    check(got == got, what + ": got nan, expected " + cat((double)want));
    check(qabs(Q(got) - want) <= tol + Q(1e-300), what + ": got " + cat(got) + ", expected " + cat((double)want) + " within " + cat((double)tol));
  }
  static inline void nearV(const V &got, const QV &want, const QV &tol, const std::string &what) {
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
      near(i < got.size() ? got[i] : 0.0, i < want.size() ? want[i] : Q(0), i < tol.size() ? tol[i] : Q(0), what + cat(", coefficient ", i));
  }
  static inline double coef(Src &s, int style) {
    switch (style) {
    case 0: return (double)s.sym(6);
    case 1: return (double)s.sym(1000);
    case 2: return s.grid(-20, 20, 8);
    case 3: return s.uniform(-10, 10);
    default: return (s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-30, 30));
    }
  }
  // order+1 coefficients, with zeros anywhere and vanishing leading terms
  static inline V coefs(Src &s, size_t order, int style = -1, bool leadingZeros = true) {
    if (style < 0) style = (int)s.range(0, 4);
    V v; for (size_t i = 0; i <= order; ++i) v.push_back(s.chance(1, 5) ? 0.0 : coef(s, style));
    if (leadingZeros && s.chance(1, 5)) { int k = (int)s.range(1, order + 1); for (int i = 0; i < k; ++i) v[order - i] = 0; }
    return v;
  }
  static inline double point(Src &s) {
    switch (s.range(0, 4)) { case 0: return (double)s.sym(5); case 1: return s.grid(-4, 4, 4); case 2: return s.uniform(-3, 3); case 3: return s.sym(1000); default: return (s.chance(1, 2) ? 1 : -1) * std::ldexp(1 + s.unit(), (int)s.range(-20, 20)); }
  }
  // call fn(integral_constant<size_t, n>) for the runtime n in [Lo, Hi]
  template <size_t Lo, size_t Hi, class F> void dispatch(size_t n, F &&fn) {
    if (n == Lo) { fn(std::integral_constant<size_t, Lo>()); return; }
    if constexpr (Lo < Hi) dispatch<Lo + 1, Hi>(n, std::forward<F>(fn));
  }
}
using namespace pc;
