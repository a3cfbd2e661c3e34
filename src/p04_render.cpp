#include "ref_parse.hpp"
using stator::Latex_output; using stator::Force_parenthesis; using stator::Rounding_digits; using stator::Debug_output;
template <class... A> static std::string R(const sym::Expr &e) { return sym::repr<stator::ReprConfig<A...>>(e); }

// ---- bracket structure -------------------------------------------------------
static void balanced(const std::string &t, bool latex) {
  std::vector<std::string> st; size_t bars = 0;
  auto close = [&](const std::string &o, size_t i) { if (st.empty() || st.back() != o) fail(cat("bracket closing '", o, "' at ", i, " does not match in: ", t)); st.pop_back(); };
  for (size_t i = 0; i < t.size(); ++i) {
    if (latex && t[i] == '\\') {
      if (t.compare(i, 5, "\\left") == 0) { i += 5; std::string b(1, t[i]); if (b == "\\") b += t[++i]; st.push_back("L" + b); continue; }
      if (t.compare(i, 6, "\\right") == 0) {
        i += 6; std::string b(1, t[i]); if (b == "\\") b += t[++i];
        close(b == ")" ? "L(" : b == "]" ? "L[" : b == "\\}" ? "L\\{" : b == "|" ? "L|" : "?", i); continue;
      }
      if (i + 1 < t.size() && !isalpha((unsigned char)t[i + 1])) { ++i; continue; }
      continue;
    }
    switch (t[i]) {
    case '(': case '[': case '{': st.push_back(std::string(1, t[i])); break;
    case ')': close("(", i); break;
    case ']': close("[", i); break;
    case '}': close("{", i); break;
    case '|': ++bars; break;
    }
  }
  if (!st.empty()) fail("unclosed bracket '" + st.back() + "' in: " + t);
  if (!latex && bars % 2) fail("unpaired | in: " + t);
}

// ---- LaTeX to plain text -----------------------------------------------------
struct Plain {
  const std::string &t; size_t i = 0; std::string out;
  explicit Plain(const std::string &x) : t(x) {}
  bool at(const char *p) { return t.compare(i, strlen(p), p) == 0; }
  bool eat(const char *p) { if (at(p)) { i += strlen(p); return true; } return false; }
  // a control word extends over all following letters and swallows the spaces after it
  bool word(const char *p) { size_t n = strlen(p); if (!at(p) || (i + n < t.size() && isalpha((unsigned char)t[i + n]))) return false; i += n; while (i < t.size() && t[i] == ' ') ++i; return true; }
  std::string group() { // after an opening brace, up to the matching one
    std::string r;
    while (true) {
      if (i >= t.size()) fail("LaTeX group not closed in: " + t);
      if (t[i] == '}') { ++i; return r; }
      r += item();
    }
  }
  size_t supEnd = std::string::npos; // where the last superscript ended: TeX rejects another one directly after it
  std::string sup() { std::string r = group(); supEnd = i; return r; }
  std::string item() {
    if (at("^") && supEnd == i) fail(cat("double superscript at ", i, " in: ", t));
    if (eat("\\times10^{")) return "e" + sup();
    if (word("\\times")) return "*";
    if (eat("\\frac{")) { std::string a = group(); if (!eat("{")) fail("\\frac without denominator in: " + t); std::string b = group(); return "((" + a + ")/(" + b + "))"; }
    if (eat("\\mathrm{e}^{")) return "exp(" + sup() + ")";
    if (eat("^{")) return "^(" + sup() + ")";
    if (eat("\\left(")) return "("; if (eat("\\right)")) return ")";
    if (eat("\\left[")) return "["; if (eat("\\right]")) return "]";
    if (eat("\\left\\{")) return "{"; if (eat("\\right\\}")) return "}";
    if (word("\\sin")) return "sin "; if (word("\\cos")) return "cos "; if (word("\\ln")) return "ln ";
    if (word("\\pm")) return "\xc2\xb1";
    if (t[i] == '\\' || t[i] == '{') fail(cat("unknown LaTeX at ", i, " in: ", t));
    return std::string(1, t[i++]);
  }
  std::string run() { std::string r; while (i < t.size()) { if (t[i] == '}') fail(cat("stray closing brace at ", i, " in: ", t)); r += item(); } return r; }
};
static std::string plain(const std::string &latex) { Plain p(latex); return p.run(); }
static std::string replaceAll(std::string s, const std::string &a, const std::string &b) { for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); return s; }
static std::string undebug(const std::string &t) { // Var<"x">() -> x, ConstantRT<double>(v) -> (v)
  std::string r = replaceAll(t, "ConstantRT<double>(", "("); size_t p;
  while ((p = r.find("Var<\"")) != std::string::npos) { size_t q = r.find("\">()", p); if (q == std::string::npos) break; r = r.substr(0, p) + r.substr(p + 5, q - p - 5) + r.substr(q + 4); }
  return r;
}

static std::vector<std::string> leaves(const NP &n) {
  std::vector<std::string> r;
  if (n->k == Num) return {cat(std::fabs(n->num))};
  if (n->k == Var) return {n->name};
  for (size_t i = 0; i < n->c.size(); ++i) { if (n->k == Dict) r.push_back(n->keys[i] + ":"); auto l = leaves(n->c[i]); r.insert(r.end(), l.begin(), l.end()); }
  return r;
}
static std::string joinL(std::vector<std::string> v, bool sorted) { if (sorted) std::sort(v.begin(), v.end()); std::string r; for (auto &x : v) r += x + " "; return r; }

static void meaning(Src &s, Case &c, const NP &n, const std::string &text, const std::string &shown, const GenOpts &o) {
  ParseResult r = RefParser::parse(text);
  if (!r.ok) fail("rendering '" + shown + "' is not readable: " + r.err);
  check(joinL(leaves(n), has(n, Dict)) == joinL(leaves(r.ast), has(n, Dict)), "rendering '" + shown + "' has other operands or another order: " + joinL(leaves(r.ast), false));
  int k = sameMeaning(s, n, r.ast, o.names, "rendering '" + shown + "' means " + show(r.ast), 3);
  if (k && size(n) >= 3) c.nontrivial();
}
static GenOpts opts(bool absarb) { GenOpts o; o.lists = o.dicts = o.eq = o.units = o.unc = true; o.absarb = absarb; o.acc = absarb; o.names = {"x", "y", "z", "ab"}; return o; }

PROP(forms, 80000, 2000000) {
  GenOpts o = opts(false);
  NP n = genAny(s, o, (int)s.range(1, 4));
  sym::Expr e = toExpr(n);
  int form = (int)s.range(0, 5);
  c.describe(cat("form ", form, " of ", show(n)));
  std::string t;
  switch (form) {
  case 0: t = R<Force_parenthesis>(e); balanced(t, false); meaning(s, c, n, t, t, o); break;
  case 1: t = R<Latex_output>(e); balanced(t, true); meaning(s, c, n, plain(t), t, o); break;
  case 2: t = R<Latex_output, Force_parenthesis>(e); balanced(t, true); meaning(s, c, n, plain(t), t, o); break;
  case 3: t = R<Debug_output>(e); balanced(t, false); meaning(s, c, n, undebug(t), t, o); break;
  case 4: t = R<Debug_output, Force_parenthesis>(e); balanced(t, false); meaning(s, c, n, undebug(t), t, o); break;
  default: t = R<Debug_output, Latex_output>(e); balanced(t, true); meaning(s, c, n, undebug(plain(t)), t, o);
  }
}
// forced parentheses are also read by the library itself
PROP(forced, 40000, 1000000) {
  GenOpts o = opts(false);
  NP n = genAny(s, o, (int)s.range(1, 4));
  c.describe(show(n));
  std::string t = R<Force_parenthesis>(toExpr(n));
  sym::Expr e;
  try { e = sym::Expr(t); } catch (stator::Exception &ex) { fail("'" + t + "' rejected on reading: " + ex.what()); }
  int k = sameMeaning(s, n, fromExpr(e), o.names, "'" + t + "' re-read as " + show(fromExpr(e)), 4);
  if (k && size(n) >= 3) c.nontrivial();
}
// well-formedness with absolute values, sign choices and indexing too
PROP(wellformed, 60000, 1500000) {
  GenOpts o = opts(true);
  NP n = genAny(s, o, (int)s.range(1, 5));
  c.describe(show(n));
  sym::Expr e = toExpr(n);
  balanced(R<>(e), false); balanced(R<Force_parenthesis>(e), false); balanced(R<Debug_output>(e), false);
  balanced(R<Latex_output>(e), true); balanced(R<Latex_output, Force_parenthesis>(e), true); balanced(R<Latex_output, Rounding_digits<4>>(e), true);
  check(R<>(e) == sym::repr(e), "default configuration differs from the plain rendering");
  c.nontrivial(size(n) >= 3);
}
// rounding: every number within half a unit of its last kept digit, everything else unchanged
template <int K> static void rounded(Src &s, Case &c, const NP &n, const GenOpts &o) {
  sym::Expr e = toExpr(n);
  std::string t = R<Rounding_digits<K>>(e), u = plain(R<Latex_output, Rounding_digits<K>>(e));
  balanced(t, false);
  for (auto &x : {t, u}) {
    ParseResult r = RefParser::parse(x);
    if (!r.ok) fail(cat("rounding by ", K, " gives '", x, "', not readable: ", r.err));
    std::vector<double> a, b;
    struct W { static void nums(const NP &n, std::vector<double> &v) { if (n->k == Num) v.push_back(std::fabs(n->num)); for (auto &q : n->c) nums(q, v); } };
    W::nums(n, a); W::nums(r.ast, b);
    check(a.size() == b.size(), cat("rounding by ", K, " changes the number of literals: ", x));
    if (has(n, Dict)) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
    for (size_t i = 0; i < a.size(); ++i) check(std::fabs(a[i] - b[i]) <= a[i] * 0.5000001 * std::pow(10.0L, -(16 - K)) + a[i] * 2.3e-16L, cat("rounding by ", K, " turns ", a[i], " into ", b[i]));
  }
}
PROP(rounding, 50000, 1000000) {
  GenOpts o = opts(false); o.dicts = false;
  NP n;
  if (s.chance(1, 3)) { double d; do d = s.anyFinite(); while (std::fabs(d) < 1e-290 || std::fabs(d) > 1e290); n = num(d); }
  else if (s.chance(1, 3)) n = num(genNum(s)); else n = genAny(s, o, (int)s.range(1, 4));
  c.describe(show(n));
  switch (s.range(0, 8)) {
  case 0: rounded<1>(s, c, n, o); break; case 1: rounded<2>(s, c, n, o); break; case 2: rounded<3>(s, c, n, o); break;
  case 3: rounded<5>(s, c, n, o); break; case 4: rounded<8>(s, c, n, o); break; case 5: rounded<11>(s, c, n, o); break;
  case 6: rounded<14>(s, c, n, o); break; case 7: rounded<15>(s, c, n, o); break; default: rounded<16>(s, c, n, o);
  }
  c.nontrivial(has(n, Num));
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Random expressions of all node kinds rendered with every combination of LaTeX, forced parentheses, debug and rounding; brackets matched by a stack (with \\left/\\right pairs), LaTeX and debug forms rewritten to plain text and read by an independent reader, operands compared in order and meaning at random points; rounded literals compared with the digits requested. Non-trivial: at least 3 nodes and a conclusive comparison (rounding: contains a number).");
}
