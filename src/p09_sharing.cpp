#include "rt_common.hpp"
#include <unordered_map>
// A pool of live expressions; after every step each must still be what it was.
static constexpr char y_str[] = "y";
struct Held { sym::Expr e; NP ast; std::string text; size_t hash; };
static Held hold(const sym::Expr &e) { return {e, fromExpr(e), sym::repr(e), std::hash<sym::Expr>{}(e)}; }
static void verify(const Held &h, const std::string &after) {
  NP now = fromExpr(h.e);
  check(show(now) == show(h.ast), "after " + after + ": " + show(h.ast) + " became " + show(now));
  check(std::hash<sym::Expr>{}(h.e) == h.hash, "after " + after + ": hash of " + show(h.ast) + " changed");
  check(sym::repr(h.e) == h.text, "after " + after + ": text of " + h.text + " became " + sym::repr(h.e));
}
static size_t nodes(const NP &n) { return size(n); }
static bool nan_free(const NP &n) { if (n->k == Num && n->num != n->num) return false; for (auto &c : n->c) if (!nan_free(c)) return false; return true; }

PROP(history, 6000, 150000) {
  GenOpts o; o.lists = o.dicts = o.eq = o.units = o.unc = o.absarb = true; o.names = {"x", "y", "z"};
  std::vector<Held> pool; int steps = (int)s.range(3, 40); int shared = 0;
  for (int st = 0; st < steps; ++st) {
    std::string what;
    auto any = [&]() -> size_t { return s.draw(pool.size()); };
    auto add = [&](const sym::Expr &e) { if (!e) fail("a null expression was returned"); NP a = fromExpr(e); if (nodes(a) <= 60 && nan_free(a)) { if (pool.size() < 12) pool.push_back(hold(e)); else pool[any()] = hold(e); } };
    int op = pool.empty() ? 0 : (int)s.range(0, 19);
    try {
      switch (op) {
      case 0: { NP n = genAny(s, o, (int)s.range(0, 3)); what = "new " + show(n); add(toExpr(n)); break; }
      case 1: { size_t i = any(), j = any(); ++shared; what = cat("binary of ", i, ",", j); const sym::Expr &a = pool[i].e, &b = pool[j].e;
        switch (s.range(0, 8)) { case 0: add(a + b); break; case 1: add(a - b); break; case 2: add(a * b); break; case 3: add(a / b); break; case 4: add(sym::pow(a, b)); break; case 5: add(sym::equality(a, b)); break; case 6: add(sym::units(a, b)); break; case 7: add(sym::uncertainty(a, b)); break; default: add(sym::array_access(a, b)); } break; }
      case 2: { size_t i = any(); ++shared; what = cat("unary of ", i); const sym::Expr &a = pool[i].e; switch (s.range(0, 6)) { case 0: add(sym::sin(a)); break; case 1: add(sym::cos(a)); break; case 2: add(sym::exp(a)); break; case 3: add(sym::log(a)); break; case 4: add(sym::abs(a)); break; case 5: add(sym::arbsign(a)); break; default: add(-a); } break; }
      case 3: { size_t i = any(); what = cat("simplify ", i); add(sym::simplify(pool[i].e)); break; }
      case 4: { size_t i = any(); what = cat("derivative ", i); add(sym::derivative(pool[i].e, sym::Expr(sym::VarRT::create(s.pick(o.names))))); break; }
      case 5: { size_t i = any(), j = any(); what = cat("sub into ", i, " of ", j); ++shared; add(sym::sub(pool[i].e, sym::Expr(sym::equality(sym::Expr(sym::VarRT::create(s.pick(o.names))), pool[j].e)))); break; }
      case 6: { size_t i = any(), j = any(), k = any(); what = cat("dict sub into ", i); auto d = sym::DictRT::create(); (*d)[sym::Expr(sym::VarRT::create("x"))] = pool[j].e; (*d)[sym::Expr(sym::VarRT::create("y"))] = pool[k].e; sym::Expr de(d); add(sym::sub(pool[i].e, de)); add(de); break; }
      case 7: { size_t i = any(), j = any(); what = cat("copy ", i, " over ", j); pool[j].e = pool[i].e; pool[j] = hold(pool[i].e); check(pool[j].e == pool[i].e, "copy differs from its source"); break; }
      case 8: { size_t i = any(); what = cat("drop ", i); pool.erase(pool.begin() + i); break; }
      case 9: { size_t i = any(), j = any(); what = cat("list of ", i, ",", j); auto l = sym::ArrayRT::create(); l->push_back(pool[i].e); l->push_back(pool[j].e); l->push_back(pool[i].e); sym::Expr le(l); ++shared; add(le); break; }
      case 10: { size_t i = any(); what = cat("render ", i); (void)sym::repr<stator::ReprConfig<stator::Latex_output>>(pool[i].e); break; }
      case 11: { size_t i = any(); what = cat("reparse ", i); sym::Expr t(pool[i].text); add(t); break; }
      case 12: { size_t i = any(); what = cat("a=a op a, ", i); sym::Expr a = pool[i].e; ++shared; a = a + a; add(a); a = a; add(sym::simplify(a * a)); break; }
      case 13: { size_t i = any(); what = cat("move ", i); sym::Expr a = pool[i].e; sym::Expr b = std::move(a); check(same(fromExpr(b), pool[i].ast), "moved value differs"); a = b; add(a); break; }
      case 14: { what = "map of all"; std::unordered_map<sym::Expr, size_t> m; for (size_t i = 0; i < pool.size(); ++i) m[pool[i].e] = i; for (auto &h : pool) check(m.count(h.e), "lost in a map"); break; }
      case 15: { size_t i = any(); what = cat("list change ", i); auto l = sym::ArrayRT::create(); l->push_back(pool[i].e); sym::Expr le(l); sym::Expr x = sym::simplify(le); Held h = hold(x), src = hold(le); l->push_back(sym::Expr(1.0)); verify(h, what + " (simplified copy of a list that was extended)"); (void)src; break; }
      case 16: { size_t i = any(), j = any(); what = cat("equality test ", i, ",", j); bool q = pool[i].e == pool[j].e; check(q == same(pool[i].ast, pool[j].ast), "equality disagrees with structure"); break; }
      case 18: { // substitution through compile-time equations, whose values are temporaries
        size_t i = any(), j = any(); ++shared; sym::Var<> vx; sym::Var<y_str> vy; int w = (int)s.range(0, 4); what = cat("compile-time sub ", w, " into ", i, " of ", j); double d = (double)s.range(-3, 3);
        sym::Expr by = w == 0 || w == 3 ? sym::Expr(sym::repr(pool[j].e)) : w == 1 ? sym::Expr(d) : pool[j].e + pool[i].e; // the same value, kept alive
        sym::Expr want = sym::sub(pool[i].e, sym::Expr(sym::equality(sym::Expr(sym::VarRT::create(w == 3 ? "y" : "x")), by)));
        sym::Expr got = w == 0 ? sym::sub(pool[i].e, vx = sym::Expr(sym::repr(pool[j].e))) : w == 1 ? sym::sub(pool[i].e, vx = d) : w == 3 ? sym::sub(pool[i].e, vy = sym::Expr(sym::repr(pool[j].e))) : sym::sub(pool[i].e, vx = pool[j].e + pool[i].e);
        add(got); check(show(fromExpr(got)) == show(fromExpr(want)), "substitution of a temporary differs: " + show(fromExpr(got)) + " not " + show(fromExpr(want))); break; }
      case 19: { size_t i = any(); what = cat("compile-time derivative ", i); sym::Var<> vx; sym::Expr got = sym::derivative(pool[i].e, vx), want = sym::derivative(pool[i].e, sym::Expr(sym::VarRT::create("x"))); add(got); check(show(fromExpr(got)) == show(fromExpr(want)), "derivative by a compile-time variable differs"); break; }
      default: { size_t i = any(); what = cat("simplify derivative ", i); add(sym::simplify(sym::derivative(pool[i].e, sym::Expr(sym::VarRT::create("x"))))); break; }
      }
    } catch (stator::Exception &) { c.label("refused"); }
    c.append(what + "; ");
    for (size_t i = 0; i < pool.size(); ++i) verify(pool[i], what + cat(" [held ", i, "]"));
  }
  c.nontrivial(shared >= 2 && steps >= 5);
}
// deep chains share and release their nodes
PROP(chains, 200, 4000) {
  int n = (int)s.range(10, 400);
  c.describe(cat("chain of ", n));
  sym::Expr e(sym::VarRT::create("x")); std::vector<sym::Expr> keep; std::vector<std::pair<size_t, size_t>> at;
  for (int i = 0; i < n; ++i) {
    switch (s.range(0, 3)) { case 0: e = e + sym::Expr(double(i)); break; case 1: e = sym::sin(e); break; case 2: e = -e; break; default: e = sym::Expr(2.0) * e; }
    if (s.chance(1, 10)) { keep.push_back(e); at.push_back({std::hash<sym::Expr>{}(e), sym::repr(e).size()}); }
  }
  sym::Expr top = e; e = sym::Expr(1.0); top = sym::Expr(2.0);
  for (size_t i = 0; i < keep.size(); ++i) { size_t k = i; check(std::hash<sym::Expr>{}(keep[k]) == at[k].first && sym::repr(keep[k]).size() == at[k].second, "a kept part of a released chain changed"); }
  c.nontrivial(keep.size() > 1);
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Histories of 3-40 operations (build, combine, simplify, differentiate, substitute (also with temporaries and compile-time variables), copy, move, drop, render, reparse, containers) over a pool of at most 12 expressions sharing sub-expressions, under AddressSanitizer and UBSan; structure, text and hash of every held expression re-checked after every step. Non-trivial: at least 5 steps with at least two operations sharing operands.");
}
