#include "ref_parse.hpp"

static void readsAs(Src &s, Case &c, const std::string &text, const NP &n, const GenOpts &o) {
  // the oracle has to agree with itself: text -> reference reader -> same meaning
  ParseResult r = RefParser::parse(text);
  if (!r.ok) throw std::logic_error("reference reader rejects its own text: " + r.err);
  if (r.unspecified) { c.label("unspecified"); return; }
  int self = 0;
  { Env env = genEnv(s, o.names, true); if (compare(eval(n, env), eval(r.ast, env)) == DIFFERENT) throw std::logic_error("reference reader and printer disagree"); (void)self; }
  sym::Expr e;
  try { e = sym::Expr(text); }
  catch (stator::Exception &ex) { fail(std::string("valid text rejected: ") + ex.what()); }
  NP got = fromExpr(e);
  std::set<std::string> a, b; vars(n, a); vars(got, b);
  for (auto &v : b) check(a.count(v), "reading invented variable " + v);
  int k = sameMeaning(s, n, got, o.names, "text read as " + show(got), 4);
  c.label(k ? "conclusive" : "inconclusive");
  if (k && size(n) >= 4) c.nontrivial();
}

PROP(scalar, 60000, 1500000) {
  GenOpts o; o.negnum = false; o.units = o.unc = true; o.names = {"x", "y", "z", "ab", "siny", "averylongvariablename", "averylongvariablenams"};
  NP n = genScalar(s, o, (int)s.range(2, 5));
  std::string t = print(s, n, s.chance(1, 2));
  c.describe(t);
  readsAs(s, c, t, n, o);
}
// every pair and triple of operators next to each other, no parentheses that are not needed
static NP chain(Src &s, const GenOpts &o, int len) {
  if (len <= 1) { if (s.chance(1, 6)) return un(s.pick(std::vector<K>{Neg, Neg, Sin, Cos, Exp}), chain(s, o, 1)); return s.chance(3, 4) ? var(s.pick(o.names)) : num((double)s.range(2, 4)); }
  if (s.chance(1, 6)) return un(Neg, chain(s, o, len));
  int k = (int)s.range(1, len - 1);
  K op = s.pick(std::vector<K>{Add, Sub, Mul, Div, Pow, Units, Unc});
  if (op == Unc || op == Units) k = std::max(1, len - 1);
  return bin(op, chain(s, o, k), chain(s, o, len - k));
}
PROP(chains, 80000, 2000000) {
  GenOpts o; o.names = {"x", "y", "z", "w"};
  NP n = chain(s, o, (int)s.range(2, 6));
  std::string t = print(s, n, false);
  c.describe(t);
  readsAs(s, c, t, n, o);
}
PROP(structured, 40000, 1000000) {
  GenOpts o; o.negnum = false; o.lists = o.dicts = o.eq = true; o.units = o.unc = true;
  NP n = genAny(s, o, (int)s.range(2, 5));
  std::string t = print(s, n, s.chance(2, 3));
  c.describe(t);
  readsAs(s, c, t, n, o);
}
// random grammatical token strings read by the reference reader
PROP(tokens, 60000, 1500000) {
  GenOpts o; o.names = {"x", "y", "z"};
  std::string t; int opens = 0;
  int n = (int)s.range(1, 6);
  for (int i = 0; i < n; ++i) {
    while (s.chance(1, 3)) { switch (s.range(0, 4)) { case 0: t += "-"; break; case 1: t += "+"; break; case 2: t += "("; ++opens; break; case 3: t += "sin "; break; default: t += "cos "; } }
    if (s.chance(2, 3)) t += s.pick(o.names); else t += std::to_string(s.range(0, 4));
    while (opens && s.chance(1, 3)) { t += ")"; --opens; }
    if (s.chance(1, 8)) t += s.chance(1, 2) ? "{z}" : "\xc2\xb1" "2";
    if (i + 1 < n) t += s.pick(std::vector<std::string>{"+", "-", "*", "/", "^", "=", "-", "*", "^"});
  }
  while (opens--) t += ")";
  c.describe(t);
  ParseResult r = RefParser::parse(t);
  if (!r.ok || r.unspecified) pbt::discard();
  sym::Expr e;
  try { e = sym::Expr(t); } catch (stator::Exception &ex) { fail(std::string("valid text rejected: ") + ex.what()); }
  int k = sameMeaning(s, r.ast, fromExpr(e), o.names, "text read as " + show(fromExpr(e)) + " instead of " + show(r.ast), 4);
  if (k && size(r.ast) >= 4) c.nontrivial();
}
// number literals
PROP(numbers, 40000, 1000000) {
  std::string t; int nd = (int)s.range(1, s.chance(1, 3) ? 25 : 6);
  for (int i = 0; i < nd; ++i) t += char('0' + s.range(0, 9));
  if (s.chance(2, 3)) { t += "."; int m = (int)s.range(0, 20); for (int i = 0; i < m; ++i) t += char('0' + s.range(0, 9)); }
  if (s.chance(1, 2)) { t += s.chance(1, 2) ? "e" : "E"; int k = (int)s.range(0, 2); t += k == 0 ? "" : k == 1 ? "-" : "+"; t += std::to_string(s.range(0, s.chance(1, 3) ? 270 : 20)); }
  c.describe(t);
  double want = strtod(t.c_str(), nullptr);
  double got = sym::Expr(t).as<double>();
  check(got == want, cat("literal read as ", got, ", nearest double is ", want));
  double neg = sym::Expr("-" + t).as<double>();
  check(neg == -want, cat("negated literal read as ", neg));
  c.nontrivial(nd > 3);
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Expression texts printed from random ASTs with minimal or redundant parentheses and spaces, operator chains, random grammatical token strings, and decimal literals; the library's reading is compared by meaning at 4 random points with the AST / with a reference recursive-descent reader, literals with strtod. Non-trivial: at least 4 nodes and a conclusive point (literals: more than 3 digits).");
}
