#include "poly_common.hpp"
namespace { constexpr char y_str[] = "y"; constexpr char x_str[] = "x"; constexpr char t_str[] = "t"; }
typedef sym::Var<y_str> Y; typedef sym::Var<x_str> X; typedef sym::Var<t_str> T;
static const size_t MX = 5;

template <class P> static V vecOf(const P &p) { return vec(p); }
static V vecOf(const sym::Null &) { return V{0}; }
static V vecOf(double d) { return V{d}; }

PROP(binary, 400000, 15000000) {
  size_t n = s.range(0, MX), m = s.range(0, MX); int st = (int)s.range(0, 4); V a = coefs(s, n, st), b = coefs(s, m, st); int op = (int)s.range(0, 2); bool neg = s.chance(1, 4);
  c.describe(cat(neg ? "-" : "", str(a), op == 0 ? " + " : op == 1 ? " - " : " * ", str(b)));
  dispatch<0, MX>(n, [&](auto N) { dispatch<0, MX>(m, [&](auto M) {
    auto f = poly<N.value>(a); auto g = poly<M.value>(b); V got; if (neg) f = -f;
    switch (op) { case 0: got = vecOf(sym::try_expand(f + g)); break; case 1: got = vecOf(sym::try_expand(f - g)); break; default: got = vecOf(sym::try_expand(f * g)); }
    QV qa = q(a), qb = q(b); if (neg) for (Q &x : qa) x = -x;
    QV want = op == 2 ? mul(qa, qb) : add(qa, qb, op == 1 ? -1 : 1), tol = op == 2 ? mul(absq(qa), absq(qb)) : absq(want);
    for (Q &t : tol) t *= Q(EPS) * (op == 2 ? 8 : 1);
    check(got.size() == (op == 2 ? n + m + 1 : std::max(n, m) + 1), "result has the wrong order");
    nearV(got, want, tol, "result " + str(got));
    check(vec(f)[0] == (neg ? -a[0] : a[0]) && vec(g) == b, "operand changed");
  }); });
  if (terms(a) > 1 && terms(b) > 1) c.nontrivial();
  c.label(op == 0 ? "sum" : op == 1 ? "difference" : "product");
}
// programs over several polynomials, checked by coefficients
PROP(programs, 160000, 5000000) {
  int st = (int)s.range(0, 2); size_t n = s.range(0, 3); V a = coefs(s, n, st), b = coefs(s, s.range(0, 2), st), d = coefs(s, 1, st); b.resize(3); double k = coef(s, st); int w = (int)s.range(0, 7);
  c.describe(cat("program ", w, " f=", str(a), " g=", str(b), " h=", str(d), " k=", k));
  dispatch<0, 3>(n, [&](auto N) {
    auto f = poly<N.value>(a); auto g = poly<2>(b); auto h = poly<1>(d); QV A = q(a), B = q(b), D = q(d), K{Q(k)}; V got; QV want;
    QV aA = absq(A), aB = absq(B), aD = absq(D), aK = absq(K), tol;
    switch (w) {
    case 0: got = vecOf(sym::try_expand(f * g + h)); want = add(mul(A, B), D); tol = add(mul(aA, aB), aD); break;
    case 1: got = vecOf(sym::try_expand(f * (g - h))); want = mul(A, add(B, D, -1)); tol = mul(aA, add(aB, aD)); break;
    case 2: got = vecOf(sym::try_expand((f + g) * (f - g))); want = mul(add(A, B), add(A, B, -1)); tol = mul(add(aA, aB), add(aA, aB)); break;
    case 3: got = vecOf(sym::try_expand(k * (f * h) - g)); want = add(mul(K, mul(A, D)), B, -1); tol = add(mul(aK, mul(aA, aD)), aB); break;
    case 4: got = vecOf(sym::try_expand(sym::pow(g, sym::C<2>()))); want = mul(B, B); tol = mul(aB, aB); break;
    case 5: got = vecOf(sym::try_expand(sym::pow(h, sym::C<3>()))); want = mul(D, mul(D, D)); tol = mul(aD, mul(aD, aD)); break;
    case 6: got = vecOf(sym::try_expand(f * h - h * f)); want = QV(A.size() + 1, 0); tol = mul(aA, aD); break;
    default: got = vecOf(sym::try_expand(f + k - g)); want = add(add(A, K), B, -1); tol = add(add(aA, aK), aB); break;
    }
    for (Q &t : tol) t *= Q(EPS) * 40;
    nearV(got, want, tol, "result " + str(got));
  });
  if (terms(a) && terms(b) > 1 && terms(d)) c.nontrivial();
}
PROP(scalars, 300000, 10000000) {
  size_t n = s.range(0, MX); V a = coefs(s, n); double k = s.chance(1, 8) ? 0.0 : coef(s, (int)s.range(0, 4)); int ik = (int)s.sym(9); int w = (int)s.range(0, 19);
  c.describe(cat("form ", w, " f=", str(a), " k=", k, " i=", ik));
  dispatch<0, MX>(n, [&](auto N) {
    auto f = poly<N.value>(a); V got; QV A = q(a), want = A; Q K = k, I = ik;
    auto scale = [&](Q z) { for (Q &x : want) x *= z; };
    switch (w) {
    case 0: got = vecOf(sym::try_expand(f + k)); want[0] += K; break;
    case 1: got = vecOf(sym::try_expand(k + f)); want[0] += K; break;
    case 2: got = vecOf(sym::try_expand(f - k)); want[0] -= K; break;
    case 3: got = vecOf(sym::try_expand(k - f)); scale(-1); want[0] += K; break;
    case 4: got = vecOf(sym::try_expand(f * k)); scale(K); break;
    case 5: got = vecOf(sym::try_expand(k * f)); scale(K); break;
    case 6: if (k == 0) discard(); got = vecOf(sym::try_expand(f / k)); scale(1 / K); break;
    case 7: got = vecOf(sym::try_expand(f + ik)); want[0] += I; break;
    case 8: got = vecOf(sym::try_expand(ik - f)); scale(-1); want[0] += I; break;
    case 9: got = vecOf(sym::try_expand(ik * f)); scale(I); break;
    case 10: if (ik == 0) discard(); got = vecOf(sym::try_expand(f / ik)); scale(1 / I); break;
    case 11: got = vecOf(sym::try_expand(f * sym::C<3>())); scale(3); break;
    case 12: got = vecOf(sym::try_expand(sym::C<1, 3>() * f)); scale(Q(1) / 3); break;
    case 13: got = vecOf(sym::try_expand(f + sym::C<5>())); want[0] += 5; break;
    case 14: got = vecOf(sym::try_expand(f * sym::Unity())); break;
    case 15: got = vecOf(sym::try_expand(f + sym::Null())); break;
    case 16: got = vecOf(sym::Null() * f); want = QV{0}; break;
    case 17: got = vecOf(sym::try_expand(f - sym::C<1, 4>())); want[0] -= Q(0.25); break;
    case 18: got = vecOf(sym::try_expand(sym::C<-2>() - f)); scale(-1); want[0] -= 2; break;
    default: got = vecOf(-f); scale(-1); break;
    }
    QV tol = absq(want); for (Q &t : tol) t *= Q(EPS) * 2;
    nearV(got, want, tol, "result " + str(got));
  });
  if (terms(a) > 1) c.nontrivial();
}
// multiplication by the variable and by its powers, in several variables
PROP(variables, 100000, 3000000) {
  size_t n = s.range(0, 4); V a = coefs(s, n); int w = (int)s.range(0, 9); double v = point(s);
  c.describe(cat("form ", w, " f=", str(a), " at ", v));
  dispatch<0, 4>(n, [&](auto N) {
    auto f = poly<N.value>(a); QV A = q(a), want = A; V got;
    auto up = [&](int k) { want.insert(want.begin(), k, Q(0)); };
    switch (w) {
    case 0: got = vecOf(sym::try_expand(f * X())); up(1); break;
    case 1: got = vecOf(sym::try_expand(X() * f)); up(1); break;
    case 2: got = vecOf(sym::try_expand(f * sym::pow(X(), sym::C<3>()))); up(3); break;
    case 3: got = vecOf(sym::try_expand(f + X())); want = add(want, QV{0, 1}); break;
    case 4: got = vecOf(sym::try_expand(X() * X() - f)); want = add(QV{0, 0, 1}, want, -1); break;
    case 5: { auto g = sym::sub(f, X() = Y()); got = vecOf(g); check(sym::repr(g).find('x') == std::string::npos, "renamed polynomial still prints x: " + sym::repr(g)); break; }
    case 6: { auto g = sym::sub(f, Y() = v); got = vecOf(g); break; } // another variable: untouched
    case 7: { auto g = sym::sub(poly<N.value, Y>(a), X() = v); got = vecOf(g); break; }
    case 8: { double z = sym::sub(f, X() = sym::Null()); got = V{z}; want = QV{A[0]}; break; }
    default: { auto fy = poly<2, Y>(coefs(s, 2)); V b = vec(fy); // product of polynomials in different variables
        double got2 = (double)sym::sub(sym::sub(sym::try_expand(f * fy), X() = v), Y() = 2.0);
        Q w2 = eval(A, v) * eval(q(b), 2); near(got2, w2, eval(absq(A), qabs(Q(v))) * eval(absq(q(b)), 2) * Q(EPS) * 40, "product of polynomials in x and y evaluated"); return; }
    }
    QV tol(want.size(), 0); for (size_t i = 0; i < tol.size(); ++i) tol[i] = qabs(want[i]) * Q(EPS) * 2;
    nearV(got, want, tol, "result " + str(got));
  });
  if (terms(a) > 1) c.nontrivial();
  c.label(cat("form ", w));
}
PROP(evaluate, 400000, 15000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n); double x = point(s); int kind = (int)s.range(0, 2);
  if (kind == 1) x = std::max(-1e6, std::min(1e6, std::round(x)));
  c.describe(str(a) + cat(" at ", x, kind == 1 ? " (int)" : kind == 2 ? " (float)" : ""));
  dispatch<0, 8>(n, [&](auto N) {
    auto f = poly<N.value>(a); double got;
    if (kind == 1) got = sym::sub(f, sym::Var<>() = (int)x); else if (kind == 2) { x = (float)x; got = sym::sub(f, sym::Var<>() = (float)x); } else got = sym::sub(f, sym::Var<>() = x);
    near(got, eval(q(a), x), eval(absq(q(a)), qabs(Q(x))) * Q(EPS) * (2 * n + 4), "value");
    check(vec(f) == a, "polynomial changed by evaluation");
    // a higher-order type holding the same polynomial has the same value
    sym::Polynomial<N.value + 3> g(f);
    near(sym::sub(g, sym::Var<>() = x), eval(q(a), x), eval(absq(q(a)), qabs(Q(x))) * Q(EPS) * (2 * n + 10), "value of the widened polynomial");
  });
  if (degree(a) >= 2 && x != 0) c.nontrivial();
}
PROP(infinity, 200000, 6000000) {
  size_t n = s.range(0, 8); V a = coefs(s, n); double x = s.chance(1, 2) ? HUGE_VAL : -HUGE_VAL; bool f32 = s.chance(1, 4);
  c.describe(str(a) + cat(" at ", x, f32 ? " (float)" : ""));
  int d = degree(a); double want = d <= 0 ? a[0] : (a[d] > 0 ? 1 : -1) * (x < 0 && d % 2 ? -HUGE_VAL : HUGE_VAL), got = 0;
  dispatch<0, 8>(n, [&](auto N) { auto f = poly<N.value>(a); got = f32 ? (double)sym::sub(f, sym::Var<>() = (float)x) : (double)sym::sub(f, sym::Var<>() = x); });
  check(got == want, cat("limit ", got, ", expected ", want));
  if (d > 0 && d < (int)n) c.nontrivial();
}
template <size_t D, size_t N> static V derivs(const sym::Polynomial<N> &f, double x) { auto r = sym::eval_derivatives<D>(f, x); return V(r.begin(), r.end()); }
PROP(derivatives, 200000, 6000000) {
  size_t n = s.range(0, 6), d = s.range(0, 8); V a = coefs(s, n); double x = point(s);
  c.describe(str(a) + cat(" derivatives 0..", d, " at ", x));
  V got;
  dispatch<0, 6>(n, [&](auto N) { auto f = poly<N.value>(a); dispatch<0, 8>(d, [&](auto D) { got = derivs<D.value>(f, x); }); });
  check(got.size() == d + 1, "number of derivatives");
  QV f = q(a), af = absq(f);
  for (size_t k = 0; k <= d; ++k) { near(got[k], eval(f, x), eval(af, qabs(Q(x))) * Q(EPS) * (4 * n + 8), cat("derivative ", k)); f = deriv(f); af = deriv(af); }
  if (degree(a) >= 2 && d >= 2 && x != 0) c.nontrivial();
}
template <size_t A, size_t N> static V chg(const sym::Polynomial<N> &f) { return vec(sym::change_order<A>(f)); }
PROP(storage, 200000, 5000000) {
  size_t n = s.range(0, 6), m = s.range(0, 8); V a = coefs(s, n);
  c.describe(str(a) + cat(" stored with order ", m));
  dispatch<0, 6>(n, [&](auto N) {
    auto f = poly<N.value>(a); V got; dispatch<0, 8>(m, [&](auto M) { got = chg<M.value>(f); });
    check(got.size() == m + 1, "order"); for (size_t i = 0; i <= m; ++i) check(got[i] == (i <= n ? a[i] : 0.0), cat("coefficient ", i, " became ", got[i]));
    sym::Polynomial<N.value> h(a.begin(), a.end()); check(vec(h) == a, "construction from a range"); check(h == f && !(h != f), "equal polynomials compare unequal");
    size_t i = s.draw(n + 1); h[i] += 1; if (h[i] != a[i]) check(!(h == f), "different polynomials compare equal");
    sym::Polynomial<N.value> z(a.begin(), a.begin() + i); for (size_t j = 0; j <= n; ++j) check(z[j] == (j < i ? a[j] : 0.0), "short range");
    bool threw = false; V longer = a; longer.push_back(1); try { sym::Polynomial<N.value> y(longer.begin(), longer.end()); } catch (std::exception &) { threw = true; } check(threw, "too long a range is accepted");
    check(vec(sym::Polynomial<N.value>()) == V(n + 1, 0.0), "default polynomial is not zero"); check(vec(sym::empty_sum(f)) == V(n + 1, 0.0), "empty_sum is not zero");
  });
  if (terms(a) > 1) c.nontrivial();
}
// the printed form denotes the polynomial
PROP(printing, 120000, 3000000) {
  size_t n = s.range(0, 6); V a = coefs(s, n);
  c.describe(str(a)); std::string t, u;
  dispatch<0, 6>(n, [&](auto N) { t = sym::repr(poly<N.value>(a)); u = sym::repr(poly<N.value, T>(a)); });
  check(t.size() > 3 && t.substr(0, 2) == "P(" && t.back() == ')', "form of the text: " + t);
  std::string tu = t; for (char &ch : tu) if (ch == 'x') ch = 't'; check(tu == u, "text in t: " + u + ", in x: " + t);
  // read as a sum of products of numbers and powers of x
  struct Rd { const char *p; bool ok = true; void sp() { while (*p == ' ') ++p; }
    QV sum() { QV r = term(); for (;;) { sp(); if (*p == '+') { ++p; r = add(r, term()); } else if (*p == '-') { ++p; r = add(r, term(), -1); } else return r; } }
    QV term() { QV r = pw(); for (;;) { sp(); if (*p == '*') { ++p; r = mul(r, pw()); } else return r; } }
    QV pw() { QV b = prim(); sp(); if (*p == '^') { ++p; QV e = prim(); if (e.size() != 1) { ok = false; return b; } QV r{1}; for (int i = 0; i < (int)e[0] && i < 50; ++i) r = mul(r, b); return r; } return b; }
    QV prim() { sp(); if (*p == '-') { ++p; return add(QV{0}, prim(), -1); } if (*p == 'x') { ++p; return QV{0, 1}; } if (*p == '(') { ++p; QV r = sum(); sp(); if (*p == ')') ++p; else ok = false; return r; }
      char *e; double d = strtod(p, &e); if (e == p) { ok = false; return QV{0}; } p = e; return QV{Q(d)}; } };
  Rd r{t.c_str() + 1}; QV v = r.prim(); r.sp(); check(r.ok && !*r.p, "the printed polynomial is not readable: " + t);
  QV A = q(a); nearV([&] { V d; for (Q z : v) d.push_back((double)z); return d; }(), A, QV(), "text " + t);
  if (terms(a) > 1) c.nontrivial();
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when the polynomials involved have at least two terms (evaluation: degree two or more at a non-zero point; infinity: a vanishing leading coefficient)."); }
