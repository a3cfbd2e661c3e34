#include "rt_common.hpp"
static std::string showMap(const std::map<std::string, NP> &m) { std::string s = "{"; for (auto &p : m) s += p.first + " := " + show(p.second) + "; "; return s + "}"; }
static size_t occurrences(const NP &n, const std::map<std::string, NP> &m) { size_t k = n->k == Var && m.count(n->name); for (auto &c : n->c) k += occurrences(c, m); return k; }

static constexpr char fastY[] = "y";
static bool contains2(const NP &n, ref::K k) { if (n->k == k) return true; for (auto &c : n->c) if (contains2(c, k)) return true; return false; }
static void structural(Src &s, Case &c, const NP &n, const NP &want, const sym::Expr &got, const GenOpts &o) {
  NP g = fromExpr(got);
  if (same(want, g)) { c.label("identical"); return; }
  // the library may combine while substituting: meaning has to agree, and variables too
  std::set<std::string> a, b; vars(want, a); vars(g, b);
  for (auto &v : b) if (!a.count(v)) fail("result mentions " + v + ": " + show(g));
  int k = sameMeaning(s, want, g, o.names, "sub gave " + show(g) + " instead of " + show(want), 5);
  c.label(k ? "equal-meaning" : "inconclusive");
}
static GenOpts opts() { GenOpts o; o.lists = o.dicts = o.eq = o.units = o.unc = o.absarb = true; o.names = {"x", "y", "z", "ab", "a", "xx", "positionofx", "positionofy"}; return o; }

// single variable, replacement by number or expression, through an equality
PROP(single, 30000, 800000) {
  GenOpts o = opts();
  NP n = genAny(s, o, (int)s.range(1, 5));
  std::string v = s.pick(o.names);
  NP r = s.chance(1, 3) ? num(genNum(s)) : genScalar(s, o, (int)s.range(0, 2));
  std::map<std::string, NP> m{{v, r}};
  c.describe(show(n) + " with " + showMap(m));
  sym::Expr rep = s.chance(1, 2) ? sym::Expr(sym::equality(toExpr(var(v)), toExpr(r))) : [&] { auto d = sym::DictRT::create(); (*d)[toExpr(var(v))] = toExpr(r); return sym::Expr(d); }();
  NP want = subst(n, m);
  structural(s, c, n, want, sym::sub(toExpr(n), rep), o);
  c.nontrivial(occurrences(n, m) > 0 && n->k != Var);
}

// several variables at once: never substitutes into the replacements
PROP(simultaneous, 30000, 800000) {
  GenOpts o = opts();
  NP n = genAny(s, o, (int)s.range(1, 5));
  std::map<std::string, NP> m; size_t k = s.range(2, 4);
  auto d = sym::DictRT::create();
  for (size_t i = 0; i < k; ++i) { std::string v = s.pick(o.names); m[v] = s.chance(1, 2) ? var(s.pick(o.names)) : genScalar(s, o, (int)s.range(0, 2)); }
  for (auto &p : m) (*d)[toExpr(var(p.first))] = toExpr(p.second);
  c.describe(show(n) + " with " + showMap(m));
  sym::Expr e = toExpr(n);
  sym::Expr got = s.chance(1, 2) ? sym::sub(e, sym::Expr(d)) : sym::sub(e, *d);
  structural(s, c, n, subst(n, m), got, o);
  c.nontrivial(occurrences(n, m) > 1);
}

// numbers for every variable: the value
PROP(evaluate, 40000, 1000000) {
  GenOpts o; o.absarb = false; o.names = {"x", "y", "z"};
  NP n = genScalar(s, o, (int)s.range(1, 5));
  if (s.chance(1, 8)) n = un(Abs, n);
  Env env = genEnv(s, o.names, s.chance(1, 2));
  c.describe(show(n) + " at " + showEnv(env));
  sym::Expr e = toExpr(n);
  int how = (int)s.range(0, 2);
  if (how == 0) for (auto &p : env) e = sym::sub(e, sym::Expr(sym::equality(toExpr(var(p.first)), sym::Expr(p.second))));
  else {
    auto d = sym::DictRT::create(); for (auto &p : env) (*d)[toExpr(var(p.first))] = sym::Expr(p.second);
    e = how == 1 ? sym::sub(e, sym::Expr(d)) : sym::sub(sym::simplify(e), sym::Expr(d));
  }
  Val v = eval(n, env);
  if (v.t == Val::Bad) { c.label("non-finite"); return; }
  NP r = fromExpr(sym::simplify(e));
  check(r->k == Num, "full substitution did not evaluate to a number: " + show(r));
  std::string why;
  if (compare(v, eval(r, env), &why) == DIFFERENT) fail("wrong value " + show(r) + ": " + why);
  c.nontrivial(size(n) > 2);
}

// the fast evaluator: one variable by a number, refusing what has no numeric value
static bool plainIn(const NP &n, const std::string &x) {
  if (n->k == Num) return true; if (n->k == Var) return n->name == x;
  if (n->k == List || n->k == Dict || n->k == Eq || n->k == Acc || n->k == Units || n->k == Unc || n->k == Arb) return false;
  for (auto &c : n->c) if (!plainIn(c, x)) return false; return true;
}
PROP(fast, 30000, 600000) {
  GenOpts o; o.absarb = s.chance(1, 6); bool odd = s.chance(1, 6); o.lists = o.eq = o.dicts = o.units = o.unc = odd; std::string x = s.chance(3, 4) ? "x" : "y"; o.names = {x}; if (odd || s.chance(1, 8)) o.names = {"x", "y"};
  NP n = odd ? genAny(s, o, (int)s.range(1, 3)) : genScalar(s, o, (int)s.range(1, 5)); double v = genNum(s);
  c.describe("fast_sub of " + show(n) + cat(" with ", x, "=", v));
  sym::Expr e = toExpr(n); double got = 0; bool threw = false; std::string msg; sym::Var<> vx; sym::Var<fastY> vy;
  try { got = x == "x" ? sym::fast_sub(e, vx = v) : sym::fast_sub(e, vy = v); } catch (stator::Exception &) { threw = true; }
  bool plain = plainIn(n, x); Env env; env[x] = v;
  if (!plain) { if (!contains2(n, ref::Arb)) check(threw, cat("evaluated to ", got)); c.label("refused"); return; }
  check(!threw, "an expression of numbers and the variable was refused");
  Val w = eval(n, env); if (w.t == Val::Bad) { c.label("non-finite"); return; }
  std::string why; if (compare(w, eval(num(got), env), &why) == DIFFERENT) fail(cat("wrong value ", got, ": ") + why);
  // the same through the substitution of a compile-time equation
  sym::Expr g = sym::simplify(x == "x" ? sym::sub(e, vx = v) : sym::sub(e, vy = v)); NP r = fromExpr(g); check(r->k == Num, "substitution did not evaluate to a number: " + show(r));
  if (compare(w, eval(r, env), &why) == DIFFERENT) fail("sub gave " + show(r) + ": " + why);
  c.nontrivial(size(n) > 2 && contains(n, x)); c.label("value");
}

// text replacements, as users write them
PROP(text, 4000, 100000) {
  GenOpts o; o.names = {"x", "y"};
  NP n = genScalar(s, o, (int)s.range(1, 4));
  double v = genNum(s, false);
  c.describe(show(n) + cat(" with x=", v));
  std::string t = cat("x=", v);
  if (t.find('e') != std::string::npos || t.find('-') != std::string::npos) pbt::discard();
  sym::Expr got = sym::sub(toExpr(n), sym::Expr(s.chance(1, 2) ? t : cat("{x:", v, ", q:x}")));
  structural(s, c, n, subst(n, {{"x", num(v)}}), got, o);
  c.nontrivial(contains(n, "x"));
}

// substituting something that is not an equality or a dictionary, or an equality
// whose left side is no variable, is refused with the library's error
PROP(refused, 2000, 20000) {
  GenOpts o; o.names = {"x", "y"};
  NP n = genScalar(s, o, 2), r = s.chance(1, 2) ? bin(Eq, un(Neg, genScalar(s, o, 1)), num(1)) : genScalar(s, o, 2);
  c.describe(show(n) + " with " + show(r));
  bool threw = false;
  try { sym::sub(toExpr(n), toExpr(r)); } catch (stator::Exception &) { threw = true; }
  check(threw, "substitution of a non-replacement was accepted");
  c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Random expressions (all node kinds incl. lists and dictionaries) and replacement maps (swaps, chains, absent variables). Structure compared with simultaneous substitution on an independent AST, falling back to values at 5 points where the library combined terms; full substitution compared with an error-bounded evaluator. Non-trivial: at least one (simultaneous: two) replaced occurrence below the root.");
}
