#include "rt_common.hpp"

// The plain form of a derivative may contain 0*ln(x)-like terms that only
// simplification removes; the simplified form has to be defined and correct.
static int compareAt(Src &s, Case &c, const NP &n, const NP &dn, const std::string &x, const GenOpts &o, const std::string &what) {
  int k = 0; NP simp;
  for (int i = 0; i < 5; ++i) {
    Env env = genEnv(s, o.names, i % 2 == 0);
    D d = dual(n, x, env);
    if (!d.ok || !sharp(d.d)) continue;
    Val want; want.t = Val::Scalar; want.q = d.d;
    Val got = eval(dn, env);
    if (got.t == Val::Bad) { if (!simp) simp = fromExpr(sym::simplify(toExpr(dn))); got = eval(simp, env); c.label("needed simplification"); }
    std::string why;
    Cmp r = compare(want, got, &why);
    if (r == DIFFERENT) fail(what + " at " + showEnv(env) + why);
    if (r == SAME) ++k;
  }
  return k;
}
static sym::Expr diff(Src &s, const sym::Expr &e, const std::string &x) {
  if (s.chance(1, 2)) return sym::derivative(e, toExpr(var(x)));
  auto v = sym::VarRT::create(x); return sym::derivative(e, *v);
}

PROP(first, 150000, 4000000) {
  GenOpts o; o.absarb = true; o.names = {"x", "y", "ab", "abcdefghijklm", "abcdefghijkln"};
  NP n = genScalar(s, o, (int)s.range(1, 5));
  std::string x = s.pick(o.names);
  c.describe("d/d" + x + " " + show(n));
  sym::Expr e = diff(s, toExpr(n), x);
  NP dn = fromExpr(e);
  std::set<std::string> a, b; vars(n, a); vars(dn, b);
  for (auto &v : b) check(a.count(v), "derivative mentions new variable " + v);
  int k = compareAt(s, c, n, dn, x, o, "derivative " + show(dn));
  if (s.chance(1, 2)) k += compareAt(s, c, n, fromExpr(sym::simplify(e)), x, o, "simplified derivative");
  if (k && contains(n, x) && n->k != Var) c.nontrivial();
  c.label(k ? "conclusive" : "inconclusive");
  if (!contains(n, x)) { c.label("constant"); NP sn = fromExpr(sym::simplify(e)); (void)sn; }
}

// second and third derivatives: derivative of the library's own result
PROP(repeated, 60000, 1500000) {
  GenOpts o; o.names = {"x", "y"};
  NP n = genScalar(s, o, (int)s.range(1, 3));
  std::string x = s.pick(o.names), y = s.pick(o.names);
  c.describe("d/d" + x + " d/d" + y + " " + show(n));
  sym::Expr e = diff(s, toExpr(n), y);
  if (s.chance(1, 2)) e = sym::simplify(e);
  NP dn = fromExpr(e);
  if (size(dn) > 400) pbt::discard();
  NP ddn = fromExpr(diff(s, e, x));
  int k = compareAt(s, c, dn, ddn, x, o, "derivative " + show(ddn) + " of derivative " + show(dn));
  if (k && contains(dn, x)) c.nontrivial();
}

static void structureRec(Src &s, Case &c, const NP &n, const NP &dn, const std::string &x, const GenOpts &o, int &k) {
  if (n->k == List || n->k == Eq) {
    check(dn->k == n->k && dn->c.size() == n->c.size(), "derivative of a list/equality has another shape: " + show(dn));
    for (size_t i = 0; i < n->c.size(); ++i) structureRec(s, c, n->c[i], dn->c[i], x, o, k);
  } else k += compareAt(s, c, n, dn, x, o, "element derivative " + show(dn) + " of " + show(n));
}
PROP(elementwise, 60000, 1000000) {
  GenOpts o; o.lists = o.eq = true; o.names = {"x", "y"};
  struct G { static NP any(Src &s, const GenOpts &o, int d) {
    switch (d <= 0 ? 0 : s.weighted({3, 3, 2})) {
    case 1: { std::vector<NP> v; size_t n = s.range(0, 5); for (size_t i = 0; i < n; ++i) v.push_back(any(s, o, d - 1)); return list(v); }
    case 2: return bin(Eq, any(s, o, 0), any(s, o, 0));
    default: return genScalar(s, o, 3);
    } } };
  NP n = G::any(s, o, 3);
  std::string x = s.pick(o.names);
  c.describe("d/d" + x + " " + show(n));
  NP dn = fromExpr(diff(s, toExpr(n), x));
  int k = 0; structureRec(s, c, n, dn, x, o, k);
  if (k && contains(n, x) && (n->k == List || n->k == Eq)) c.nontrivial();
}

// linearity: d(a f + b g) = a df + b dg, and constants vanish
PROP(linearity, 30000, 600000) {
  GenOpts o; o.names = {"x", "y"};
  NP f = genScalar(s, o, 3), g = genScalar(s, o, 3); double a = genNum(s), b = genNum(s);
  NP h = bin(Add, bin(Mul, num(a), f), bin(Mul, g, num(b)));
  c.describe("d/dx " + show(h));
  NP df = fromExpr(diff(s, toExpr(f), "x")), dg = fromExpr(diff(s, toExpr(g), "x")), dh = fromExpr(diff(s, toExpr(h), "x"));
  NP want = bin(Add, bin(Mul, num(a), df), bin(Mul, num(b), dg));
  int k = 0;
  for (int i = 0; i < 4; ++i) {
    Env env = genEnv(s, o.names, i % 2 == 0);
    Val w = eval(want, env), q = eval(dh, env); if (w.t == Val::Bad || q.t == Val::Bad) continue;
    std::string why; Cmp r = compare(w, q, &why); if (r == DIFFERENT) fail("not linear at " + showEnv(env) + why); k += r == SAME;
  }
  if (k && contains(h, "x")) c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Random expressions over all operators with a derivative rule, differentiated by a random variable once or repeatedly, lists and equalities elementwise; value of the result compared at 4-5 random points with forward-mode dual numbers carrying error bounds. Non-trivial: depends on the variable, is not the bare variable, and at least one point compared conclusively.");
}
