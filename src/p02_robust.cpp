#include "ref_parse.hpp"

static bool composite(const NP &n) { if (n->k == List || n->k == Dict) return true; for (auto &c : n->c) if (composite(c)) return true; return false; }
// reading also evaluates, and evaluation may refuse operations on lists or indexing
static bool mayRefuse(const NP &n) {
  if (n->k == Acc) return true;
  if (isUnary(n->k) || isBinary(n->k)) if (composite(n)) return true;
  for (auto &c : n->c) if (mayRefuse(c)) return true;
  return false;
}
static void judge(Case &c, const std::string &t) {
  ParseResult r = RefParser::parse(t);
  bool accepted = false; std::string err;
  try { sym::Expr e(t); accepted = true; check(bool(e), "null expression"); (void)std::hash<sym::Expr>{}(e); (void)sym::repr(e); }
  catch (stator::Exception &e) { err = e.what(); }
  catch (std::exception &e) { fail(std::string("foreign exception: ") + e.what()); }
  if (!accepted) {
    sym::Expr again("1+x*2"); check(sym::repr(again) == "1+x*2" || bool(again), "later reading affected");
    NP g = fromExpr(again); Env env{{"x", 3}}; check(std::fabs((double)eval(g, env).q.v - 7) < 1e-12, "reading after a rejected text gives " + show(g));
  }
  if (r.unspecified) { c.label("unspecified"); return; }
  if (r.ok) {
    if (!accepted && mayRefuse(r.ast)) { c.label("evaluation refused"); return; }
    check(accepted, "valid text rejected: " + err);
    c.label("accepted"); c.nontrivial();
  } else {
    check(!accepted, "invalid text accepted (" + r.err + ")");
    c.label("rejected"); c.nontrivial();
  }
}
static const std::vector<std::string> TOK = {"1", "2.5", "3e2", "x", "y", "ab", "+", "-", "*", "/", "^", "=", "(", ")", "[", "]", "{", "}", ",", ":", "sin", "cos", "exp", "ln", "\xc2\xb1", " ", "0", "z", "(", ")", "-", "x", "2", "1.", ".", "e", "|", "7e", "1e-3", "sin(", "[1,2]", "{x:1}"};

PROP(token_soup, 24000, 600000) {
  std::string t; int n = (int)s.range(0, s.chance(1, 3) ? 30 : 8);
  for (int i = 0; i < n; ++i) t += s.pick(TOK);
  c.describe(t); judge(c, t);
}
PROP(mutated, 24000, 600000) {
  GenOpts o; o.negnum = false; o.lists = o.dicts = o.eq = o.units = o.unc = o.acc = true;
  std::string t = print(s, genAny(s, o, (int)s.range(1, 4)), s.chance(1, 2));
  int m = (int)s.range(0, 3);
  for (int i = 0; i < m && !t.empty(); ++i) {
    size_t p = s.draw(t.size());
    switch (s.range(0, 6)) {
    case 0: t.erase(p, 1); break;
    case 1: t.insert(p, s.pick(TOK)); break;
    case 2: t[p] = s.pick(TOK)[0]; break;
    case 3: t.resize(p); break;
    case 4: t = t.substr(p); break;
    case 5: t.insert(p, 1, t[p]); break;
    default: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]);
    }
  }
  c.describe(t); judge(c, t);
}
PROP(bytes, 16000, 400000) {
  std::string t; int n = (int)s.range(0, s.chance(1, 5) ? 200 : 12); bool hi = s.chance(1, 2);
  for (int i = 0; i < n; ++i) switch (s.weighted({4, 2, 2})) {
    case 0: t += (char)s.range(32, 126); break;
    case 1: t += s.pick(TOK); break;
    default: t += hi ? (char)s.range(0, 255) : (char)s.range(32, 126);
  }
  c.describe(t); judge(c, t);
}
// prefixes and suffixes around multi-byte characters and number edges
PROP(edges, 12000, 200000) {
  static const std::vector<std::string> E = {"\xc2", "\xc3", "\xc2\xb1", "\xb1", "1e", "1e+", "1e-", "1.", "1..2", "1.2.3", "1e5.5", "1e5e5", "0x10", "1E", "\0", "x1", "1x", "\t", "\n", "2 3", "x y", "1_0", "\xc3\xb1", "\xe2\x88\x92", "()", "[]", "{}", "{x}", "{x:}", "{:1}", "[,]", "[1,]", "sin", "sin)", "ln(", "(x]", "[x)", "{x:1]", "(x", "x)", "x}", "x]", "x,", "x:", "--x", "+-x", "x+", "x^", "^x", "*x", "x**y", "x=", "=x", "x==y", "-", "+"};
  std::string t = s.pick(E);
  if (s.chance(1, 2)) t = s.pick(TOK) + t;
  if (s.chance(1, 2)) t += s.pick(TOK);
  if (s.chance(1, 4)) t = " " + t;
  if (s.chance(1, 4)) t += " ";
  c.describe(t); judge(c, t);
}
// long and deeply nested texts
PROP(deep, 600, 8000) {
  std::string t; int n = (int)s.range(1, 300);
  static const std::vector<std::pair<std::string, std::string>> W = {{"(", ")"}, {"[", "]"}, {"-", ""}, {"sin ", ""}, {"{x:", "}"}, {"2^", ""}, {"x=", ""}, {"", "+1"}, {"", "*y"}, {"cos(", ")"}, {"3-(", ")"}, {"", "{m}"}};
  t = "x"; bool mix = s.chance(1, 2); auto w = s.pick(W);
  for (int i = 0; i < n; ++i) { if (mix) w = s.pick(W); t = w.first + t + w.second; }
  if (s.chance(1, 3) && t.size() > 1) t.erase(s.draw(t.size()), 1);
  if (t.size() > 2500) t.resize(2500);
  c.describe(t); judge(c, t);
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Token soups, mutated/truncated valid texts, raw bytes, edge fragments and deep nestings, run under AddressSanitizer and UBSan; acceptance compared with a reference reader, only the library's exception is allowed, and a fixed text is re-read after each rejection. Non-trivial: the reference reader gives a definite verdict (accept or reject) and it was compared.");
}
