#include "ast.hpp"
using namespace ref; using pbt::Src; using pbt::Case;

static void checkSimplify(Src &s, Case &c, const NP &n, const GenOpts &o) {
  sym::Expr e = toExpr(n);
  sym::Expr r = sym::simplify(e);
  NP rn = fromExpr(r);
  c.append(" -> " + show(rn));
  std::set<std::string> a, b; vars(n, a); vars(rn, b);
  for (auto &v : b) if (!a.count(v)) pbt::fail("simplification introduced variable " + v);
  int k = sameMeaning(s, n, rn, o.names, "simplify");
  NP r2 = fromExpr(sym::simplify(r));
  sameMeaning(s, rn, r2, o.names, "simplify twice", 2);
  if (k) c.label("conclusive");
  if (!same(n, rn)) { c.label("rewritten"); if (k) c.nontrivial(); }
}

PROP(general, 60000, 1500000) {
  GenOpts o; o.lists = o.dicts = o.eq = o.units = o.unc = o.absarb = true;
  NP n = genAny(s, o, (int)s.range(1, 5));
  c.describe(show(n));
  checkSimplify(s, c, n, o);
}

// scalar expressions only, deeper
PROP(scalar, 60000, 1500000) {
  GenOpts o; o.absarb = true;
  NP n = genScalar(s, o, (int)s.range(1, 6));
  c.describe(show(n));
  checkSimplify(s, c, n, o);
}

// operands that trigger identity/zero/constant-factor rules in every position
static NP genRule(Src &s, const GenOpts &o, int depth) {
  if (depth <= 0) {
    switch (s.weighted({4, 3, 3, 2, 2})) {
    case 0: return var(s.pick(o.names));
    case 1: return num(0);
    case 2: return num(1);
    case 3: return num(-1);
    default: return num((double)s.range(2, 5) * (s.chance(1, 3) ? -1 : 1));
    }
  }
  K k = s.pick(std::vector<K>{Add, Sub, Mul, Mul, Mul, Div, Pow, Neg, Units, Unc});
  if (k == Neg) return un(Neg, genRule(s, o, depth - 1));
  NP l = genRule(s, o, depth - 1 - (int)s.range(0, 1)), r = genRule(s, o, depth - 1 - (int)s.range(0, 1));
  return bin(k, l, r);
}
PROP(rules, 80000, 2000000) {
  GenOpts o; o.names = {"x", "y"};
  NP n = genRule(s, o, (int)s.range(1, 4));
  c.describe(show(n));
  checkSimplify(s, c, n, o);
}

// variable-free scalar expressions become a number
PROP(constants, 40000, 1000000) {
  GenOpts o; o.names = {"x"};
  struct G { static NP strip(const NP &n, Src &s) {
    if (n->k == Var) return num(genNum(s));
    auto m = std::make_shared<Node>(*n); for (auto &x : m->c) x = strip(x, s); return m; } };
  NP n = G::strip(genScalar(s, o, (int)s.range(1, 5)), s);
  if (s.chance(1, 5)) n = un(Abs, n);
  c.describe(show(n));
  sym::Expr r = sym::simplify(toExpr(n));
  Val v = eval(n, Env());
  NP rn = fromExpr(r);
  if (v.t == Val::Bad) { pbt::check(rn->k == Num, "a variable-free expression did not simplify to a number: " + show(rn)); c.label("non-finite"); return; }
  pbt::check(rn->k == Num, "a variable-free expression did not simplify to a number: " + show(rn));
  std::string why;
  if (compare(v, eval(rn, Env()), &why) == DIFFERENT) pbt::fail("constant value wrong: " + why);
  c.nontrivial(size(n) > 1);
}

int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Random typed expressions (scalars, lists, dictionaries, equalities, units, uncertainties; identity/zero operands over-weighted) simplified once and twice; meaning compared at 4 random points with an error-bounded long double evaluator. Non-trivial: simplification changed the structure and at least one point compared conclusively (constants: more than one node).");
}
