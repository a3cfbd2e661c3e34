#include "ref_parse.hpp"

static GenOpts opts() { GenOpts o; o.lists = o.dicts = o.eq = o.units = o.unc = true; o.names = {"x", "y", "z", "ab", "siny", "averylongvariablename"}; return o; }

// the text is read by the library and by the reference reader
static int readBack(Src &s, const NP &n, const std::string &text, const GenOpts &o, const std::string &what) {
  ParseResult r = RefParser::parse(text);
  if (!r.ok) fail(what + " printed as '" + text + "', which the grammar rejects: " + r.err);
  int k = sameMeaning(s, n, r.ast, o.names, what + " printed as '" + text + "', which the grammar reads as " + show(r.ast), 4);
  sym::Expr e;
  try { e = sym::Expr(text); }
  catch (stator::Exception &ex) { if (r.unspecified) return k; fail(what + " printed as '" + text + "', rejected on reading: " + ex.what()); }
  NP g = fromExpr(e);
  std::set<std::string> a, b; vars(n, a); vars(g, b);
  for (auto &v : b) check(a.count(v), "re-read expression has new variable " + v);
  k += sameMeaning(s, n, g, o.names, what + " printed as '" + text + "', re-read as " + show(g), 4);
  return k;
}
static bool finiteNums(const NP &n) { if (n->k == Num && !std::isfinite(n->num)) return false; for (auto &c : n->c) if (!finiteNums(c)) return false; return true; }
PROP(built, 100000, 2500000) {
  GenOpts o = opts();
  NP n = genAny(s, o, (int)s.range(1, 5));
  c.describe(show(n));
  std::string t = sym::repr(toExpr(n));
  int k = readBack(s, n, t, o, "expression");
  c.label(k ? "conclusive" : "inconclusive");
  if (k && size(n) >= 3) c.nontrivial();
}
// every parent/child pair of operators, with negative numbers in every position
static NP genPair(Src &s, const GenOpts &o, int depth) {
  if (depth <= 0) { switch (s.weighted({4, 2, 2, 1})) { case 0: return var(s.pick(o.names)); case 1: return num((double)s.range(2, 4)); case 2: return num(-(double)s.range(1, 3)); default: return num(s.chance(1, 2) ? 2.5e-7 : -1.5e21); } }
  K k = s.pick(std::vector<K>{Add, Sub, Mul, Div, Pow, Pow, Eq, Units, Unc, Neg, Sin, Cos, Exp, Log});
  if (isUnary(k)) return un(k, genPair(s, o, depth - 1));
  int other = s.chance(1, 3) ? depth - 1 : 0;
  if (s.chance(1, 2)) return bin(k, genPair(s, o, depth - 1), genPair(s, o, other));
  return bin(k, genPair(s, o, other), genPair(s, o, depth - 1));
}
// equalities may stand inside other operators only in brackets; they are
// compared structurally (they have no value below another operator)
static NP norm(const NP &n) {
  auto m = std::make_shared<Node>(*n); for (auto &c : m->c) c = norm(c);
  if (m->k == Neg && m->c[0]->k == Num) return num(-m->c[0]->num);
  // -a*b, (-a)*b and -(a*b) are written alike and mean the same
  if ((m->k == Mul || m->k == Div) && m->c[0]->k == Neg) return norm(un(Neg, bin(m->k, m->c[0]->c[0], m->c[1])));
  if ((m->k == Mul || m->k == Div) && m->c[0]->k == Num && std::signbit(m->c[0]->num)) return norm(un(Neg, bin(m->k, num(-m->c[0]->num), m->c[1])));
  return m;
}
PROP(pairs, 100000, 2500000) {
  GenOpts o; o.names = {"x", "y", "z"};
  NP n = genPair(s, o, (int)s.range(1, 4));
  c.describe(show(n));
  std::string t = sym::repr(toExpr(n));
  ParseResult r = RefParser::parse(t);
  if (!r.ok) fail("printed as '" + t + "', which the grammar rejects: " + r.err);
  if (!same(norm(n), norm(r.ast))) {
    int k = has(n, Eq) ? 0 : sameMeaning(s, n, r.ast, o.names, "printed as '" + t + "', which the grammar reads as " + show(r.ast), 6);
    if (k) c.label("other structure, same meaning");
    else if (has(n, Eq)) fail("printed as '" + t + "', which the grammar reads as " + show(r.ast));
    else c.label("inconclusive");
  } else c.label("same structure");
  c.nontrivial(size(n) >= 3);
}
// results of the library's own transformations
PROP(transformed, 40000, 1000000) {
  GenOpts o = opts(); o.dicts = false; o.units = o.unc = false;
  NP n = genScalar(s, o, (int)s.range(1, 4));
  sym::Expr e = toExpr(n); std::string how;
  switch (s.range(0, 2)) {
  case 0: e = sym::simplify(e); how = "simplify "; break;
  case 1: e = sym::derivative(e, toExpr(var("x"))); how = "d/dx "; break;
  default: e = sym::simplify(sym::derivative(e, toExpr(var("x")))); how = "simplify d/dx ";
  }
  NP m = fromExpr(e);
  if (size(m) > 300 || !finiteNums(m)) pbt::discard();
  c.describe(how + show(n) + " = " + show(m));
  int k = readBack(s, m, sym::repr(e), o, "result");
  if (k && size(m) >= 3) c.nontrivial();
}
// structure of lists and dictionaries, including empty and nested ones
PROP(containers, 20000, 500000) {
  GenOpts o = opts(); o.eq = false;
  struct G { static NP go(Src &s, const GenOpts &o, int d) {
    switch (d <= 0 ? 2 : s.range(0, 2)) {
    case 0: { std::vector<NP> v; size_t n = s.range(0, 4); for (size_t i = 0; i < n; ++i) v.push_back(go(s, o, d - 1)); return list(v); }
    case 1: { std::vector<std::string> ks; std::vector<NP> vs; size_t n = s.range(0, 4); for (size_t i = 0; i < n; ++i) { std::string k = s.pick(o.names); if (std::find(ks.begin(), ks.end(), k) != ks.end()) continue; ks.push_back(k); vs.push_back(go(s, o, d - 1)); } return dict(ks, vs); }
    default: return s.chance(1, 2) ? var(s.pick(o.names)) : num(genNum(s));
    } } };
  NP n = G::go(s, o, (int)s.range(1, 4));
  c.describe(show(n));
  NP g = fromExpr(sym::Expr(sym::repr(toExpr(n))));
  check(same(n, g), "re-read as " + show(g));
  c.nontrivial(size(n) > 2);
}
// numbers: no precision is lost
PROP(numbers, 120000, 4000000) {
  double d;
  switch (s.range(0, 4)) {
  case 0: d = genNum(s); break;
  case 1: d = (double)s.sym(1ll << 53); break;
  case 2: d = s.anyFinite(); break;
  case 3: { d = (double)s.range(1, 99999) * std::pow(10.0, (double)s.sym(20)); if (s.chance(1, 2)) d = -d; break; }
  default: { d = std::nextafter((double)s.range(1, 1000) / 8, s.chance(1, 2) ? 0 : 1e9); }
  }
  if (d != 0 && std::fabs(d) < 2.3e-308) d = 2.5e-308; // subnormals are read by std::stod only where it accepts them
  std::string t = sym::repr(sym::Expr(d));
  c.describe(t);
  double w = strtod(t.c_str(), nullptr);
  check(w == d, cat("printed as '", t, "' but the value is ", d));
  double r = sym::Expr(t).as<double>();
  check(r == d, cat("'", t, "' re-read as ", r));
  check(stator::repr(d) == t, "number and expression print differently");
  c.nontrivial(d != 0);
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Expressions built through the operators and factories (negative literals in all positions, all operator pairs, containers, results of simplify/derivative) printed and re-read by the library and by an independent reader; meaning compared at random points, containers structurally, numbers bit for bit. Non-trivial: at least 3 nodes and at least one conclusive comparison.");
}
