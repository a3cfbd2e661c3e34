#include "rt_common.hpp"
static GenOpts so() { GenOpts o; o.names = {"x", "y", "m", "s"}; o.trig = false; return o; }
static NP unit(Src &s) {
  switch (s.range(0, 4)) { case 0: return var("m"); case 1: return var("s"); case 2: return bin(Mul, var("m"), var("s")); case 3: return bin(Div, var("m"), bin(Pow, var("s"), num(2))); default: return bin(Pow, var("m"), num(s.range(2, 3))); }
}
static NP plain(Src &s, int d = 1) { switch (s.range(0, 3)) { case 0: return num(genNum(s)); case 1: return var(s.chance(1, 2) ? "x" : "y"); case 2: { GenOpts o; o.trig = false; o.names = {"x", "y"}; return genScalar(s, o, d); } default: return num((double)s.range(2, 9)); } }
static const std::vector<std::string> N = {"x", "y", "m", "s"};

// products and quotients of two operands where at least one carries a unit
PROP(pair, 60000, 1500000) {
  NP u1 = unit(s), u2 = unit(s), a = plain(s), b = plain(s);
  bool div = s.chance(1, 2); int which = div ? 0 : (int)s.range(0, 2); // one-sided quotients stay symbolic
  NP l = which != 2 ? bin(Units, a, u1) : a, r = which != 1 ? bin(Units, b, u2) : b;
  K k = div ? Div : Mul; NP n = bin(k, l, r);
  c.describe(show(n));
  sym::Expr e = toExpr(n); NP g = fromExpr(sym::simplify(e));
  NP val = bin(k, a, b), un_ = which == 0 ? bin(k, u1, u2) : which == 1 ? u1 : u2;
  int q = 0;
  for (int i = 0; i < 4; ++i) {
    Env env = genEnv(s, N, true); Val w = eval(val, env), u = eval(un_, env), v = eval(g, env);
    if (w.t != Val::Scalar || u.t != Val::Scalar || !sharp(w.q)) continue;
    Val want = w; want.q.u = u.q.v; want.q.ue = u.q.e;
    std::string why; Cmp r2 = compare(want, v, &why); if (r2 == DIFFERENT) fail("gave " + show(g) + ": " + why);
    if (r2 == SAME && w.q.v != 0) ++q;
  }
  // the number and the unit are combined, unless an operand vanished or was one
  if (q && val->c[0]->k == Num && val->c[1]->k == Num && val->c[0]->num != 0 && val->c[1]->num != 0) { check(g->k == Units, "the units were not combined: " + show(g)); c.label("combined"); }
  if (q) c.nontrivial();
}
// operator results before simplification already have the right meaning
PROP(programs, 60000, 1500000) {
  struct G { static NP go(Src &s, int d) {
    if (d <= 0 || s.chance(1, 5)) { NP p = plain(s, 1); return s.chance(2, 3) ? bin(Units, p, unit(s)) : p; }
    switch (s.weighted({5, 4, 2, 1, 2})) {
    case 0: return bin(Mul, go(s, d - 1), go(s, d - 1));
    case 1: return bin(Div, go(s, d - 1), go(s, d - 1));
    case 2: { NP u = unit(s); return bin(s.chance(1, 2) ? Add : Sub, bin(Units, plain(s), u), bin(Units, plain(s), u)); }
    case 3: return un(Neg, go(s, d - 1));
    default: return bin(Units, go(s, d - 1), unit(s));
    } } };
  NP n = G::go(s, (int)s.range(1, 5)); c.describe(show(n));
  sym::Expr e = toExpr(n); NP g0 = fromExpr(e), g = fromExpr(sym::simplify(e)), g2 = fromExpr(sym::simplify(sym::simplify(e)));
  GenOpts o = so();
  sameMeaning(s, n, g0, N, "building gave " + show(g0), 3);
  int q = sameMeaning(s, n, g, N, "simplify gave " + show(g), 4);
  sameMeaning(s, n, g2, N, "simplifying twice gave " + show(g2), 2);
  if (s.chance(1, 2)) { // numbers for the value variables only
    auto d = sym::DictRT::create(); double vx = genNum(s), vy = genNum(s); (*d)[toExpr(var("x"))] = sym::Expr(vx); (*d)[toExpr(var("y"))] = sym::Expr(vy);
    NP w = subst(n, {{"x", num(vx)}, {"y", num(vy)}}); NP h = fromExpr(sym::simplify(sym::sub(e, sym::Expr(d))));
    sameMeaning(s, w, h, N, "substituted gave " + show(h), 2);
  }
  if (q && has(n, Units) && size(n) >= 5) c.nontrivial();
}
// redundant annotations go, others stay
PROP(annotations, 40000, 800000) {
  NP v = s.chance(1, 2) ? var(s.chance(1, 2) ? "x" : "y") : num((double)s.range(2, 9)); int what = (int)s.range(0, 4);
  NP n, want;
  switch (what) {
  case 0: n = bin(Units, v, num(1)); want = v; break;
  case 1: n = bin(Unc, v, num(0)); want = v; break;
  case 2: n = bin(Units, v, unit(s)); want = n; break;
  case 3: n = bin(Unc, v, s.chance(1, 2) ? num((double)s.range(1, 9) / 4) : var("y")); want = n; break;
  default: { NP z = num(genNum(s)); n = bin(Unc, bin(Units, v, unit(s)), z); want = z->num == 0 ? n->c[0] : n; }
  }
  c.describe(show(n)); NP g = fromExpr(sym::simplify(toExpr(n)));
  check(same(g, want), "simplified to " + show(g) + " instead of " + show(want)); c.nontrivial();
}
// uncertainties: the pair (value, uncertainty) survives rewriting inside both parts
PROP(uncertain, 30000, 600000) {
  GenOpts o; o.names = {"x", "y"}; NP v = genScalar(s, o, (int)s.range(0, 3)), w = genScalar(s, o, (int)s.range(0, 2)); NP n = bin(Unc, v, w);
  c.describe(show(n)); NP g = fromExpr(sym::simplify(toExpr(n))); int q = 0;
  if (g->k == Unc) { q += sameMeaning(s, v, g->c[0], o.names, "value became " + show(g->c[0]), 3); q += sameMeaning(s, w, g->c[1], o.names, "uncertainty became " + show(g->c[1]), 3); }
  else { sameMeaning(s, v, g, o.names, "value became " + show(g), 3); for (int i = 0; i < 3; ++i) { Val z = eval(w, genEnv(s, o.names)); if (z.t == Val::Scalar && std::fabs(z.q.v) > 8 * z.q.e) fail("a non-zero uncertainty was dropped: " + show(g)); } }
  if (q && size(n) >= 4) c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Products and quotients of two operands with units on one or both sides, nested programs of products, quotients, sums of like units and further units with numeric and symbolic values, and redundant/non-redundant annotations; value and unit factor of the result compared at 3-4 points with an independent (value, unit) evaluator. Non-trivial: a non-zero value compared conclusively (programs: contains a unit, at least 5 nodes).");
}
