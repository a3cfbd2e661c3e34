#pragma once
#include "ast.hpp"
using namespace ref; using pbt::Src; using pbt::Case; using pbt::check; using pbt::fail; using pbt::cat;

// Random independent copy of an expression: shared nodes or fresh nodes.
namespace ref {
  // reference simultaneous substitution
  inline NP subst(const NP &n, const std::map<std::string, NP> &m) {
    if (n->k == Var) { auto it = m.find(n->name); return it == m.end() ? n : it->second; }
    auto r = std::make_shared<Node>(*n);
    for (auto &c : r->c) c = subst(c, m);
    return r;
  }

  // ---- first derivative by forward mode with error bounds: dual numbers over Q
  struct D { bool ok = true; Q f, d; };
  inline Q zero() { Q q; return q; }
  inline Q cst(long double v) { Q q; q.v = v; q.p = (double)v; return q; }
  inline D mk(Q f, Q d) { D r; r.f = f; r.d = d; r.ok = f.ok && d.ok; return r; }
  inline D bad() { D r; r.ok = false; return r; }
  inline bool isZero(const Q &q) { return q.v == 0 && q.e == 0; }
  inline D dual(const NP &n, const std::string &x, const Env &env) {
    switch (n->k) {
    case Num: return mk(cst(n->num), zero());
    case Var: { auto it = env.find(n->name); if (it == env.end()) return bad(); return mk(cst(it->second), cst(n->name == x ? 1 : 0)); }
    case List: case Dict: case Eq: case Acc: case Units: case Unc: return bad();
    default: break;
    }
    D a = dual(n->c[0], x, env); if (!a.ok) return bad();
    auto M = [](Q p, Q q) { return binaryQ(Mul, p, q); };
    auto A = [](Q p, Q q) { return binaryQ(Add, p, q); };
    auto S = [](Q p, Q q) { return binaryQ(Sub, p, q); };
    auto V = [](Q p, Q q) { return binaryQ(Div, p, q); };
    switch (n->k) {
    case Neg: return mk(unaryQ(Neg, a.f), unaryQ(Neg, a.d));
    case Arb: return mk(unaryQ(Arb, a.f), unaryQ(Arb, a.d));
    case Sin: return mk(unaryQ(Sin, a.f), M(unaryQ(Cos, a.f), a.d));
    case Cos: return mk(unaryQ(Cos, a.f), unaryQ(Neg, M(unaryQ(Sin, a.f), a.d)));
    case Exp: { Q e = unaryQ(Exp, a.f); return mk(e, M(e, a.d)); }
    case Log: return mk(unaryQ(Log, a.f), V(a.d, a.f));
    case Abs: if (std::fabs(a.f.v) <= 8 * a.f.e) return bad(); return mk(unaryQ(Abs, a.f), a.f.v > 0 ? a.d : unaryQ(Neg, a.d));
    default: break;
    }
    D b = dual(n->c[1], x, env); if (!b.ok) return bad();
    switch (n->k) {
    case Add: return mk(A(a.f, b.f), A(a.d, b.d));
    case Sub: return mk(S(a.f, b.f), S(a.d, b.d));
    case Mul: return mk(M(a.f, b.f), A(M(a.d, b.f), M(a.f, b.d)));
    case Div: return mk(V(a.f, b.f), V(S(M(a.d, b.f), M(a.f, b.d)), M(b.f, b.f)));
    case Pow: {
      Q f = binaryQ(Pow, a.f, b.f);
      if (!f.ok || a.f.v == 0 || (a.f.v <= 0 && contains(n->c[1], x))) return bad(); // differentiable powers of x need a positive base
      // d(a^b) = b a^(b-1) a' + ln(a) a^b b'
      Q t1 = zero(), t2 = zero();
      if (!isZero(a.d) && !isZero(b.f)) t1 = M(M(b.f, binaryQ(Pow, a.f, S(b.f, cst(1)))), a.d);
      if (!isZero(b.d)) { if (a.f.v <= 0) return bad(); t2 = M(M(unaryQ(Log, a.f), f), b.d); }
      return mk(f, A(t1, t2));
    }
    default: return bad();
    }
  }
}
