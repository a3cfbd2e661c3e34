#include "rt_common.hpp"
#include <unordered_map>

static GenOpts opts() { GenOpts o; o.lists = o.dicts = o.eq = o.units = o.unc = o.absarb = o.acc = true; o.names = {"x", "y", "xy", "ab", "velocityofsphere", "velocityofsphera", "velocityofspher"}; return o; }
static size_t H(const sym::Expr &e) { return std::hash<sym::Expr>{}(e); }

// same(a,b) on ASTs is exact structural equality (dictionaries as maps)
static void relation(const sym::Expr &a, const sym::Expr &b, bool want, const std::string &what) {
  bool ab = a == b, ba = b == a;
  check(ab == want, what + (want ? ": equal structures compare unequal" : ": different structures compare equal"));
  check(ba == want, what + ": equality is not symmetric");
  check((a != b) == !want && (b != a) == !want, what + ": inequality is not the negation of equality");
  check(a == a && b == b && !(a != a), what + ": not reflexive");
  if (want) check(H(a) == H(b), what + ": equal expressions have different hashes");
  check(H(a) == H(a), what + ": hash not stable");
}
// build with shared sub-expressions, shuffled dictionary insertion, parsing, copies
static sym::Expr build(Src &s, const NP &n, std::vector<std::pair<NP, sym::Expr>> &pool) {
  for (auto &p : pool) if (p.first->k == n->k && n->c.size() <= 2 && s.chance(1, 3) && same(p.first, n)) return p.second;
  sym::Expr e;
  if (n->k == Dict) {
    std::vector<size_t> ix(n->c.size()); for (size_t i = 0; i < ix.size(); ++i) ix[i] = i;
    for (size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[s.draw(i)]);
    auto d = sym::DictRT::create();
    if (s.chance(1, 4)) for (int i = 0; i < 40; ++i) { (*d)[sym::Expr(sym::VarRT::create("q"))] = sym::Expr(1.0); (void)i; }
    bool extra = d->size() > 0;
    if (extra) { d = sym::DictRT::create(); }
    // entries may be overwritten on the way
    if (s.chance(1, 3)) for (size_t i : ix) (*d)[sym::Expr(sym::VarRT::create(n->keys[i]))] = sym::Expr((double)i);
    for (size_t i : ix) { auto k = sym::Expr(sym::VarRT::create(n->keys[i])); if (s.chance(1, 5) && d->find(k) == d->end()) d->insert(std::make_pair(k, build(s, n->c[i], pool))); else (*d)[k] = build(s, n->c[i], pool); }
    e = sym::Expr(d);
  } else if (n->k == List) {
    // every way of filling a list
    std::vector<sym::Expr> v; for (auto &x : n->c) v.push_back(build(s, x, pool));
    auto a = sym::ArrayRT::create();
    auto fill = [&] { size_t i = 0; for (auto it = a->begin(); it != a->end(); ++it) *it = v[i++]; };
    switch (s.range(0, 3)) {
    case 1: a = sym::ArrayRT::create(sym::ArrayRT::Coords(v.size())); fill(); break;
    case 2: a->resize(sym::ArrayRT::Coords(v.size())); fill(); break;
    case 3:
      switch (v.size()) {
      case 0: a = sym::ArrayRT::create({}); break; case 1: a = sym::ArrayRT::create(std::initializer_list<sym::Expr>{v[0]}); break; case 2: a = sym::ArrayRT::create({v[0], v[1]}); break;
      case 3: a = sym::ArrayRT::create({v[0], v[1], v[2]}); break; case 4: a = sym::ArrayRT::create({v[0], v[1], v[2], v[3]}); break;
      default: a->resize(sym::ArrayRT::Coords(v.size() + 3)); a->resize(sym::ArrayRT::Coords(v.size())); fill();
      } break;
    default: for (auto &x : v) a->push_back(x);
    }
    e = sym::Expr(a);
  } else if (n->c.empty() || s.chance(1, 3)) e = toExpr(n);
  else if (isUnary(n->k)) {
    sym::Expr a = build(s, n->c[0], pool);
    switch (n->k) { case Sin: e = sym::sin(a); break; case Cos: e = sym::cos(a); break; case Exp: e = sym::exp(a); break; case Log: e = sym::log(a); break; case Abs: e = sym::abs(a); break; case Arb: e = sym::arbsign(a); break; default: e = -a; }
  } else {
    sym::Expr a = build(s, n->c[0], pool), b = build(s, n->c[1], pool);
    switch (n->k) { case Add: e = a + b; break; case Sub: e = a - b; break; case Mul: e = a * b; break; case Div: e = a / b; break; case Pow: e = sym::pow(a, b); break; case Eq: e = sym::equality(a, b); break; case Acc: e = sym::array_access(a, b); break; case Units: e = sym::units(a, b); break; default: e = sym::uncertainty(a, b); }
  }
  pool.push_back({n, e});
  return e;
}
// one mutation at a random node
static NP mutate(Src &s, const NP &n, const GenOpts &o, int depth, std::string &how) {
  if (!n->c.empty() && s.chance(3, 5)) {
    auto m = std::make_shared<Node>(*n); size_t i = s.draw(m->c.size()); m->c[i] = mutate(s, m->c[i], o, depth + 1, how); return m;
  }
  auto m = std::make_shared<Node>(*n);
  switch (n->k) {
  case Num: how = "number"; m->num = s.chance(1, 2) ? std::nextafter(n->num, 1e300) : n->num + 1; return m;
  case Var: { how = "name"; m->name = s.pick(o.names); return m; }
  case List: how = "list item"; if (s.chance(1, 2) && !m->c.empty()) m->c.pop_back(); else m->c.insert(m->c.begin() + s.draw(m->c.size() + 1), num(s.range(0, 2))); return m;
  case Dict: how = "dictionary entry"; if (m->c.empty()) { m->keys.push_back("x"); m->c.push_back(num(1)); } else if (s.chance(1, 2)) { m->keys.pop_back(); m->c.pop_back(); } else { std::string k = s.pick(o.names); if (std::find(m->keys.begin(), m->keys.end(), k) == m->keys.end()) m->keys[s.draw(m->keys.size())] = k; } return m;
  default: break;
  }
  if (isUnary(n->k)) { how = "function"; m->k = s.pick(std::vector<K>{Sin, Cos, Exp, Log, Abs, Arb, Neg}); return m; }
  switch (s.range(0, 3)) {
  case 0: how = "swapped operands"; std::swap(m->c[0], m->c[1]); return m;
  case 1: how = "operator"; m->k = s.pick(std::vector<K>{Add, Sub, Mul, Div, Pow, Eq, Acc, Units, Unc}); return m;
  case 2: how = "dropped operand"; return n->c[s.draw(2)];
  default: how = "wrapped"; return un(s.pick(std::vector<K>{Neg, Sin, Abs}), n);
  }
}
PROP(copies, 60000, 1500000) {
  GenOpts o = opts(); NP n = genAny(s, o, (int)s.range(1, 5));
  c.describe(show(n));
  std::vector<std::pair<NP, sym::Expr>> p1, p2;
  sym::Expr a = build(s, n, p1), b = build(s, n, p2), d = a;
  relation(a, b, true, "independently built"); relation(a, d, true, "copy"); relation(d, b, true, "transitive");
  c.nontrivial(size(n) >= 3);
}
PROP(mutated, 80000, 2000000) {
  GenOpts o = opts(); NP n = genAny(s, o, (int)s.range(1, 5)); std::string how;
  NP m = mutate(s, n, o, 0, how);
  c.describe(show(n) + " vs " + show(m)); c.label(how);
  std::vector<std::pair<NP, sym::Expr>> p;
  sym::Expr a = build(s, n, p), b = build(s, m, p);
  bool eq = same(n, m);
  relation(a, b, eq, "mutation of " + how);
  if (eq) c.label("still equal"); else c.nontrivial();
}
// triples from a tiny space, so that equal ones are common
PROP(triples, 60000, 1500000) {
  GenOpts o = opts(); o.names = {"x", "y"};
  struct G { static NP go(Src &s, int d) {
    switch (d <= 0 ? s.range(0, 1) : s.range(0, 5)) {
    case 0: return var(s.chance(1, 2) ? "x" : "y"); case 1: return num(s.range(0, 1));
    case 2: return bin(s.chance(1, 2) ? Add : Mul, go(s, d - 1), go(s, 0)); case 3: return un(s.chance(1, 2) ? Neg : Sin, go(s, d - 1));
    case 4: { std::vector<NP> v; size_t k = s.range(0, 2); for (size_t i = 0; i < k; ++i) v.push_back(go(s, d - 1)); return list(v); }
    default: { std::vector<std::string> ks; std::vector<NP> vs; if (s.chance(1, 2)) { ks.push_back("x"); vs.push_back(go(s, 0)); } if (s.chance(1, 2)) { ks.push_back("y"); vs.push_back(go(s, 0)); } return dict(ks, vs); }
    } } };
  NP n[3]; sym::Expr e[3]; int d = (int)s.range(0, 3);
  for (int i = 0; i < 3; ++i) { n[i] = G::go(s, d); std::vector<std::pair<NP, sym::Expr>> p; e[i] = build(s, n[i], p); c.append(show(n[i]) + " | "); }
  int eq = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { bool w = same(n[i], n[j]); eq += w; relation(e[i], e[j], w, cat("pair ", i, ",", j)); }
  if (eq > 3) { c.label("equal pair"); c.nontrivial(); }
}
// expressions as map keys
PROP(mapkeys, 8000, 200000) {
  GenOpts o = opts(); std::unordered_map<sym::Expr, int> m; std::vector<std::pair<NP, int>> model;
  int steps = (int)s.range(2, 25);
  GenOpts small = o; small.names = {"x", "y"};
  for (int i = 0; i < steps; ++i) {
    NP n = (!model.empty() && s.chance(2, 5)) ? model[s.draw(model.size())].first : genAny(s, s.chance(1, 2) ? small : o, (int)s.range(0, 3));
    std::vector<std::pair<NP, sym::Expr>> p; sym::Expr e = build(s, n, p);
    size_t at = model.size(); for (size_t k = 0; k < model.size(); ++k) if (same(model[k].first, n)) at = k;
    c.append(show(n) + "; ");
    switch (s.range(0, 2)) {
    case 0: m[e] = i; if (at == model.size()) model.push_back({n, i}); else model[at].second = i; break;
    case 1: { auto it = m.find(e); check((it != m.end()) == (at < model.size()), "lookup of " + show(n) + " disagrees with the model"); if (it != m.end()) check(it->second == model[at].second, "wrong value for " + show(n)); break; }
    default: { size_t k = m.erase(e); check(k == (at < model.size()), "erase of " + show(n)); if (at < model.size()) model.erase(model.begin() + at); }
    }
    check(m.size() == model.size(), "map size");
  }
  c.nontrivial(model.size() > 1);
}
int main(int argc, char **argv) {
  return pbt::main(argc, argv, "Pairs and triples of expressions of all node kinds: independently built copies (shared sub-expressions, shuffled dictionary insertion), single mutations at random positions, triples from a tiny space, and histories of unordered_map operations with expression keys; ==, != and hash compared with exact structural equality of independent ASTs. Non-trivial: at least 3 nodes / a mutation that changed the structure / an equal pair among distinct objects / more than one key.");
}
