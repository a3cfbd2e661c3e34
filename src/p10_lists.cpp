#include "ref_parse.hpp"
static GenOpts so() { GenOpts o; o.names = {"x", "y", "z"}; return o; }
static NP genList(Src &s, const GenOpts &o, int depth, int itemDepth, size_t maxn = 7) {
  std::vector<NP> v; size_t n = s.range(0, s.chance(1, 10) ? 40 : (int)maxn);
  if (n > 7) itemDepth = std::min(itemDepth, 1);
  for (size_t i = 0; i < n; ++i) v.push_back(depth > 0 && s.chance(1, 5) ? genList(s, o, depth - 1, itemDepth, 3) : genScalar(s, o, (int)s.range(0, itemDepth)));
  return list(v);
}
// a list of the same shape with other scalars
static NP sameShape(Src &s, const GenOpts &o, const NP &n, int d) {
  if (n->k != List) return genScalar(s, o, (int)s.range(0, d));
  std::vector<NP> v; for (auto &c : n->c) v.push_back(sameShape(s, o, c, d)); return list(v);
}
static sym::Expr buildList(Src &s, const NP &n) {
  if (n->k != List) return toExpr(n);
  switch (s.range(0, 2)) {
  case 0: { auto a = sym::ArrayRT::create(); for (auto &c : n->c) a->push_back(buildList(s, c)); return sym::Expr(a); }
  case 1: { auto a = sym::ArrayRT::create(n->c.size()); for (size_t i = 0; i < n->c.size(); ++i) (*a)[i] = buildList(s, n->c[i]); if (n->c.empty()) return sym::Expr(sym::ArrayRT::create()); return sym::Expr(a); }
  default: { auto a = sym::ArrayRT::create(); for (auto &c : n->c) { a->push_back(sym::Expr(7.0)); (*a)[a->store_size() - 1] = buildList(s, c); } return sym::Expr(a); }
  }
}
static void shapeEq(const NP &a, const NP &b, const std::string &what) {
  check((a->k == List) == (b->k == List), what + ": shape differs, got " + show(b) + " for " + show(a));
  if (a->k != List) return;
  check(a->c.size() == b->c.size(), what + cat(": length ", b->c.size(), " instead of ", a->c.size()));
  for (size_t i = 0; i < a->c.size(); ++i) shapeEq(a->c[i], b->c[i], what);
}
static NP zip(K k, const NP &a, const NP &b) {
  if (a->k != List) return bin(k, a, b);
  std::vector<NP> v; for (size_t i = 0; i < a->c.size(); ++i) v.push_back(zip(k, a->c[i], b->c[i])); return list(v);
}
static size_t items(const NP &n) { if (n->k != List) return 1; size_t t = 0; for (auto &c : n->c) t += items(c); return t; }
static bool congruent(const NP &a, const NP &b) { if ((a->k == List) != (b->k == List)) return false; if (a->k != List) return true; if (a->c.size() != b->c.size()) return false; for (size_t i = 0; i < a->c.size(); ++i) if (!congruent(a->c[i], b->c[i])) return false; return true; }

PROP(arithmetic, 40000, 1000000) {
  GenOpts o = so(); NP a = genList(s, o, 2, 2), b = sameShape(s, o, a, 2);
  K k = s.pick(std::vector<K>{Add, Sub, Mul, Div});
  NP want = zip(k, a, b);
  c.describe(show(a) + " " + kname(k) + " " + show(b));
  sym::Expr l = buildList(s, a), r = buildList(s, b), e;
  if (s.chance(1, 3)) e = sym::Expr(print(s, bin(k, a, b), s.chance(1, 2)));
  else { switch (k) { case Add: e = l + r; break; case Sub: e = l - r; break; case Mul: e = l * r; break; default: e = l / r; } e = sym::simplify(e); }
  NP g = fromExpr(e);
  shapeEq(want, g, "list arithmetic");
  int q = sameMeaning(s, want, g, o.names, "list arithmetic gave " + show(g), 3);
  if (a->c.size() >= 2 && q) c.nontrivial();
  c.label(cat("length ", std::min<size_t>(a->c.size(), 8)));
}
// sums and differences of several lists, mixed with substitution
PROP(programs, 20000, 500000) {
  GenOpts o = so(); NP a = genList(s, o, 1, 1, 4);
  struct G { static NP go(Src &s, const GenOpts &o, const NP &shape, int d, NP &expect) {
    if (d <= 0 || s.chance(1, 4)) { NP l = sameShape(s, o, shape, 1); expect = l; return l; }
    K k = s.pick(std::vector<K>{Add, Sub, Mul, Div}); NP e1, e2; NP l = go(s, o, shape, d - 1, e1), r = go(s, o, shape, d - 1, e2);
    expect = zip(k, e1, e2); return bin(k, l, r); } };
  NP expect; NP n = G::go(s, o, a, (int)s.range(1, 3), expect);
  double v = genNum(s); bool subst1 = s.chance(1, 2);
  c.describe(show(n) + (subst1 ? cat(" with x=", v) : ""));
  sym::Expr e = toExpr(n);
  if (subst1) { e = sym::sub(e, sym::Expr(sym::equality(toExpr(var("x")), sym::Expr(v)))); expect = subst(expect, {{"x", num(v)}}); }
  NP g = fromExpr(sym::simplify(e));
  shapeEq(expect, g, "list program");
  if (sameMeaning(s, expect, g, o.names, "list program gave " + show(g), 3) && a->c.size() >= 1 && n->k != List) c.nontrivial();
}
PROP(mismatch, 10000, 200000) {
  GenOpts o = so(); NP a = genList(s, o, 0, 1), b = genList(s, o, 0, 1);
  if (a->c.size() == b->c.size()) { if (s.chance(1, 2) && !a->c.empty()) a = list({a->c.begin(), a->c.end() - 1}); else { auto v = b->c; v.push_back(num(1)); b = list(v); } }
  K k = s.pick(std::vector<K>{Add, Sub, Mul, Div});
  c.describe(show(a) + " " + kname(k) + " " + show(b));
  bool threw = false;
  try { (void)sym::simplify(toExpr(bin(k, a, b))); } catch (stator::Exception &) { threw = true; }
  check(threw, "lists of different lengths were combined");
  c.nontrivial();
}
// simplify, substitute and differentiate act on every item
PROP(itemwise, 30000, 800000) {
  GenOpts o = so(); NP a = genList(s, o, 3, 3); std::string x = s.pick(o.names);
  int what = (int)s.range(0, 2); c.describe(cat(what, " on ", show(a), " by ", x));
  sym::Expr e = buildList(s, a);
  if (what == 0) { NP g = fromExpr(sym::simplify(e)); shapeEq(a, g, "simplify"); if (sameMeaning(s, a, g, o.names, "simplify gave " + show(g), 3) && items(a) > 1) c.nontrivial(); }
  else if (what == 1) {
    NP rep = genScalar(s, o, 1); NP want = subst(a, {{x, rep}});
    NP g = fromExpr(sym::sub(e, sym::Expr(sym::equality(toExpr(var(x)), toExpr(rep)))));
    shapeEq(want, g, "substitution"); sameMeaning(s, want, g, o.names, "substitution gave " + show(g), 3);
    if (contains(a, x) && items(a) > 1) c.nontrivial();
  } else {
    NP g = fromExpr(sym::derivative(e, toExpr(var(x))));
    shapeEq(a, g, "derivative");
    struct W { static void go(Src &s, const NP &n, const NP &d, const std::string &x, const GenOpts &o, int &k) {
      if (n->k == List) { for (size_t i = 0; i < n->c.size(); ++i) go(s, n->c[i], d->c[i], x, o, k); return; }
      for (int i = 0; i < 2; ++i) { Env env = genEnv(s, o.names, true); D q = dual(n, x, env); if (!q.ok || !sharp(q.d)) continue; Val w; w.t = Val::Scalar; w.q = q.d; std::string why; if (compare(w, eval(d, env), &why) == DIFFERENT) { Val ws = eval(fromExpr(sym::simplify(toExpr(d))), env); if (compare(w, ws, &why) == DIFFERENT) fail("item derivative " + show(d) + " of " + show(n) + ": " + why); } ++k; }
    } };
    int k = 0; W::go(s, a, g, x, o, k); if (k && items(a) > 1) c.nontrivial();
  }
}
// histories of list building against a vector model
PROP(history, 20000, 400000) {
  GenOpts o = so(); auto a = sym::ArrayRT::create(); std::vector<NP> m; int steps = (int)s.range(1, 40);
  for (int i = 0; i < steps; ++i) {
    switch (s.weighted({5, 2, 1, 1, 1})) {
    case 0: { NP n = s.chance(1, 6) ? genList(s, o, 1, 1, 3) : genScalar(s, o, (int)s.range(0, 2)); a->push_back(toExpr(n)); m.push_back(n); c.append("push " + show(n) + "; "); break; }
    case 1: if (!m.empty()) { size_t k = s.draw(m.size()); NP n = genScalar(s, o, 1); (*a)[k] = toExpr(n); m[k] = n; c.append(cat("[", k, "] = ", show(n), "; ")); } break;
    case 2: { // a copy through an expression is independent of later changes
      sym::Expr e(a); NP g = fromExpr(e); check(same(g, list(m)), "contents differ"); c.append("read; "); break; }
    case 3: { size_t k = 0; for (const auto &x : *a) { check(k < m.size() && same(fromExpr(x), m[k]), cat("iteration item ", k)); ++k; } check(k == m.size(), "iteration length"); c.append("iterate; "); break; }
    default: { sym::Expr e = sym::simplify(sym::Expr(a)); shapeEq(list(m), fromExpr(e), "simplify"); c.append("simplify; "); }
    }
    check(a->store_size() == m.size() && a->empty() == m.empty(), "length");
    if (!m.empty()) { size_t k = s.draw(m.size()); check(same(fromExpr((*a)[k]), m[k]), cat("item ", k)); }
  }
  NP got = fromExpr(sym::Expr(a)); check(same(got, list(m)), "final contents differ: " + show(got));
  c.nontrivial(m.size() >= 3);
}
PROP(equality, 30000, 600000) {
  GenOpts o = so(); NP a = genList(s, o, 2, 1, 4), b = a; std::string how = "copy";
  if (s.chance(2, 3)) {
    auto v = a->c;
    switch (s.range(0, 4)) {
    case 0: how = "drop"; if (!v.empty()) v.erase(v.begin() + s.draw(v.size())); break;
    case 1: how = "insert"; v.insert(v.begin() + s.draw(v.size() + 1), genScalar(s, o, 0)); break;
    case 2: how = "swap"; if (v.size() > 1) { size_t i = s.draw(v.size()), j = s.draw(v.size()); std::swap(v[i], v[j]); } break;
    case 3: how = "replace"; if (!v.empty()) v[s.draw(v.size())] = genScalar(s, o, 1); break;
    default: how = "nest"; { std::vector<NP> w = {list(v)}; v = w; }
    }
    b = list(v);
  }
  c.describe(show(a) + " vs " + show(b) + " by " + how);
  sym::Expr l = buildList(s, a), r = buildList(s, b); bool w = same(a, b);
  check((l == r) == w && (r == l) == w && (l != r) == !w, w ? "equal lists compare unequal" : "different lists compare equal");
  c.nontrivial(!a->c.empty()); c.label(w ? "equal" : "different");
}
// text lists keep number and order of items
PROP(text, 20000, 400000) {
  GenOpts o = so(); o.negnum = false; NP a = genList(s, o, 3, 1);
  std::string t = print(s, a, s.chance(1, 2)); c.describe(t);
  NP g = fromExpr(sym::Expr(t)); shapeEq(a, g, "text list");
  if (sameMeaning(s, a, g, o.names, "text read as " + show(g), 2) && items(a) > 1) c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Lists of 0-40 items, nested to depth 3, built by appending, by index and from text; arithmetic between lists of one shape (single operations and programs), mismatched lengths, itemwise simplify/substitute/differentiate, building histories and equality against std::vector models of independent ASTs. Non-trivial: more than one item (history: at least 3) and a conclusive comparison.");
}
