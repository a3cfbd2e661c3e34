#include "ref_parse.hpp"
typedef std::map<std::string, NP> M;
static GenOpts so() { GenOpts o; o.names = {"x", "y", "z", "ab", "a", "b", "k", "temperaturea", "temperatureb"}; o.units = o.unc = false; return o; }
static sym::Expr key(Src &s, const std::string &n) { return s.chance(1, 3) ? sym::Expr(n) : sym::Expr(sym::VarRT::create(n)); }
static NP value(Src &s, const GenOpts &o) {
  if (s.chance(1, 8)) return dict({"x"}, {genScalar(s, o, 1)});
  if (s.chance(1, 8)) return list({genScalar(s, o, 1), genScalar(s, o, 0)});
  return genScalar(s, o, (int)s.range(0, 2));
}
static void matches(const NP &g, const M &m, const std::string &what) {
  check(g->k == Dict, what + ": not a dictionary");
  check(g->c.size() == m.size(), what + cat(": ", g->c.size(), " entries instead of ", m.size()));
  size_t i = 0; for (auto &p : m) { check(g->keys[i] == p.first, what + ": keys differ"); check(same(g->c[i], p.second), what + ": value of " + p.first + " is " + show(g->c[i]) + " instead of " + show(p.second)); ++i; }
}
PROP(history, 20000, 500000) {
  GenOpts o = so(); auto d = sym::DictRT::create(); M m; int steps = (int)s.range(1, 30); int updates = 0;
  for (int i = 0; i < steps; ++i) {
    std::string k = s.pick(o.names); 
    switch (s.weighted({5, 2, 2, 1, 1})) {
    case 0: { NP v = value(s, o); c.append(k + ":=" + show(v) + "; "); (*d)[key(s, k)] = toExpr(v); updates += m.count(k); m[k] = v; break; }
    case 1: { c.append("find " + k + "; "); auto it = d->find(key(s, k)); check((it != d->end()) == (m.count(k) > 0), "find disagrees"); if (it != d->end()) check(same(fromExpr(it->second), m[k]), "found value"); break; }
    case 2: { c.append("at " + k + "; "); if (m.count(k)) check(same(fromExpr(d->at(key(s, k))), m[k]), "at"); break; }
    case 3: { c.append("insert " + k + "; "); NP v = value(s, o); auto r = d->insert({key(s, k), toExpr(v)}); check(r.second == !m.count(k), "insert reports wrongly"); if (r.second) m[k] = v; break; }
    default: { c.append("read; "); matches(fromExpr(sym::Expr(d)), m, "contents"); }
    }
    check(d->size() == m.size() && d->empty() == m.empty(), "size");
  }
  matches(fromExpr(sym::Expr(d)), m, "final contents");
  c.nontrivial(m.size() >= 2 && updates > 0);
}
// text with repeated keys: the last one stays
PROP(text, 40000, 800000) {
  GenOpts o = so(); o.negnum = false; M m; size_t n = s.range(0, 9); bool rep = false; std::string t = "{"; NP keep;
  auto sp = [&] { return s.chance(1, 5) ? std::string(" ") : std::string(); };
  for (size_t i = 0; i < n; ++i) { std::string k = s.pick(o.names); NP v = value(s, o); rep = rep || m.count(k); m[k] = v; t += (i ? "," : "") + sp() + (s.chance(1, 8) ? "(" + k + ")" : k) + sp() + ":" + sp() + print(s, v, false) + sp(); }
  t += "}"; c.describe(t);
  NP g = fromExpr(sym::Expr(t));
  check(g->k == Dict, "not a dictionary");
  check(g->c.size() == m.size(), cat(g->c.size(), " entries instead of ", m.size()));
  size_t i = 0; for (auto &p : m) { check(g->keys[i] == p.first, "keys differ: " + show(g)); sameMeaning(s, p.second, g->c[i], o.names, "value of " + p.first, 2); ++i; }
  c.nontrivial(m.size() >= 2); if (rep) c.label("repeated key");
}
PROP(badkeys, 10000, 100000) {
  GenOpts o = so(); o.negnum = false; NP k;
  switch (s.range(0, 3)) { case 0: k = num(genNum(s, false)); break; case 1: k = bin(s.pick(std::vector<K>{Add, Mul, Pow}), genScalar(s, o, 1), genScalar(s, o, 1)); break; case 2: k = list({var("x")}); break; default: k = un(s.pick(std::vector<K>{Sin, Neg}), var("x")); }
  std::string t = "{" + (s.chance(1, 2) ? "q:1," : std::string()) + print(s, k, false) + ":" + print(s, genScalar(s, o, 1), false) + "}"; c.describe(t);
  ParseResult r = RefParser::parse(t); if (r.ok) pbt::discard();
  bool threw = false; try { sym::Expr e(t); } catch (stator::Exception &) { threw = true; }
  check(threw, "non-variable key accepted"); c.nontrivial();
}
PROP(equality, 40000, 800000) {
  GenOpts o = so(); size_t n = s.range(0, 6); std::vector<std::string> ks; std::vector<NP> vs;
  for (size_t i = 0; i < n; ++i) { std::string k = s.pick(o.names); if (std::find(ks.begin(), ks.end(), k) != ks.end()) continue; ks.push_back(k); vs.push_back(s.chance(1, 2) ? num(s.range(0, 2)) : value(s, o)); }
  std::vector<std::string> k2 = ks; std::vector<NP> v2 = vs; std::string how = "permuted";
  for (size_t i = k2.size(); i > 1; --i) { size_t j = s.draw(i); std::swap(k2[i - 1], k2[j]); std::swap(v2[i - 1], v2[j]); }
  switch (s.range(0, 4)) {
  case 1: how = "value"; if (!v2.empty()) v2[s.draw(v2.size())] = s.chance(1, 2) ? num(s.range(0, 2)) : value(s, o); break;
  case 2: how = "key"; if (!k2.empty()) { std::string k = s.pick(o.names); if (std::find(k2.begin(), k2.end(), k) == k2.end()) k2[s.draw(k2.size())] = k; } break;
  case 3: how = "drop"; if (!k2.empty()) { k2.pop_back(); v2.pop_back(); } break;
  case 4: how = "swapped values"; if (v2.size() > 1) std::swap(v2[0], v2[1]); break;
  default: break;
  }
  NP a = dict(ks, vs), b = dict(k2, v2); bool w = same(a, b); c.describe(show(a) + " vs " + show(b)); c.label(how);
  sym::Expr l = toExpr(a), r = toExpr(b);
  check((l == r) == w && (r == l) == w && (l != r) == !w, w ? "equal dictionaries compare unequal" : "different dictionaries compare equal");
  if (w) check(std::hash<sym::Expr>{}(l) == std::hash<sym::Expr>{}(r), "equal dictionaries have different hashes");
  // the concrete type too
  auto d1 = sym::DictRT::create(), d2 = sym::DictRT::create();
  for (size_t i = 0; i < ks.size(); ++i) (*d1)[sym::Expr(sym::VarRT::create(ks[i]))] = toExpr(vs[i]);
  for (size_t i = 0; i < k2.size(); ++i) (*d2)[sym::Expr(sym::VarRT::create(k2[i]))] = toExpr(v2[i]);
  check((*d1 == *d2) == w, "DictRT equality");
  c.nontrivial(ks.size() >= 2);
}
PROP(itemwise, 30000, 600000) {
  GenOpts o = so(); size_t n = s.range(0, 6); std::vector<std::string> ks; std::vector<NP> vs;
  for (size_t i = 0; i < n; ++i) { std::string k = s.pick(o.names); if (std::find(ks.begin(), ks.end(), k) != ks.end()) continue; ks.push_back(k); vs.push_back(s.chance(1, 6) ? dict({"x", "b"}, {genScalar(s, o, 1), genScalar(s, o, 1)}) : genScalar(s, o, (int)s.range(0, 3))); }
  NP a = dict(ks, vs); c.describe(show(a)); sym::Expr e = toExpr(a);
  NP g = fromExpr(sym::simplify(e)); check(g->k == Dict && g->c.size() == a->c.size(), "simplify changed the entries: " + show(g));
  int q = sameMeaning(s, a, g, o.names, "simplify gave " + show(g), 3);
  std::string x = s.pick(o.names); NP rep = genScalar(s, o, 1); std::map<std::string, NP> m{{x, rep}};
  NP want = subst(a, m), h = fromExpr(sym::sub(e, sym::Expr(sym::equality(toExpr(var(x)), toExpr(rep)))));
  check(h->k == Dict && h->c.size() == a->c.size(), "substitution changed the entries: " + show(h));
  sameMeaning(s, want, h, o.names, "substitution of " + x + " gave " + show(h), 3);
  if (q && ks.size() >= 2) c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Histories of assignment, insertion, lookup and reading against a std::map model; texts with up to nine entries and repeated keys; non-variable keys; equality and hash under permutation and single changes; simplification and substitution of every value. Non-trivial: at least two entries (history: also an update of an existing key).");
}
