// Independent AST: generator, evaluator with error bounds, conversion to and
// from the library's runtime expressions, and a reference text printer.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <stator/symbolic/runtime.hpp>
#include <stator/symbolic/symbolic.hpp>

namespace ref {
  enum K { Num, Var, Sin, Cos, Exp, Log, Abs, Arb, Neg, Add, Sub, Mul, Div, Pow, Eq, Acc, Units, Unc, List, Dict };
  inline const char *kname(K k) {
    static const char *n[] = {"Num", "Var", "sin", "cos", "exp", "ln", "abs", "arb", "neg", "+", "-", "*", "/", "^", "=", "[]", "{}", "±", "List", "Dict"};
    return n[k];
  }
  struct Node; typedef std::shared_ptr<const Node> NP;
  struct Node { K k; double num = 0; std::string name; std::vector<NP> c; std::vector<std::string> keys; };
  inline NP num(double d) { auto n = std::make_shared<Node>(); n->k = Num; n->num = d; return n; }
  inline NP var(const std::string &s) { auto n = std::make_shared<Node>(); n->k = Var; n->name = s; return n; }
  inline NP un(K k, NP a) { auto n = std::make_shared<Node>(); n->k = k; n->c = {a}; return n; }
  inline NP bin(K k, NP a, NP b) { auto n = std::make_shared<Node>(); n->k = k; n->c = {a, b}; return n; }
  inline NP list(std::vector<NP> v) { auto n = std::make_shared<Node>(); n->k = List; n->c = std::move(v); return n; }
  inline NP dict(std::vector<std::string> k, std::vector<NP> v) { auto n = std::make_shared<Node>(); n->k = Dict; n->keys = std::move(k); n->c = std::move(v); return n; }
  inline bool isUnary(K k) { return k >= Sin && k <= Neg; }
  inline bool isBinary(K k) { return k >= Add && k <= Unc; }

  // unambiguous description (prefix form)
  inline std::string show(const NP &n) {
    std::ostringstream o; o << std::setprecision(17);
    if (n->k == Num) { o << n->num; return o.str(); }
    if (n->k == Var) return n->name;
    if (n->k == List) { o << "["; for (size_t i = 0; i < n->c.size(); ++i) o << (i ? ", " : "") << show(n->c[i]); o << "]"; return o.str(); }
    if (n->k == Dict) { o << "{"; for (size_t i = 0; i < n->c.size(); ++i) o << (i ? ", " : "") << n->keys[i] << ":" << show(n->c[i]); o << "}"; return o.str(); }
    if (isUnary(n->k)) { o << kname(n->k) << "(" << show(n->c[0]) << ")"; return o.str(); }
    o << "(" << show(n->c[0]) << " " << kname(n->k) << " " << show(n->c[1]) << ")";
    return o.str();
  }
  inline size_t size(const NP &n) { size_t s = 1; for (auto &c : n->c) s += size(c); return s; }
  inline void vars(const NP &n, std::set<std::string> &s) { if (n->k == Var) s.insert(n->name); for (auto &c : n->c) vars(c, s); }
  inline bool has(const NP &n, K k) { if (n->k == k) return true; for (auto &c : n->c) if (has(c, k)) return true; return false; }
  inline bool contains(const NP &n, const std::string &v) { if (n->k == Var && n->name == v) return true; for (auto &c : n->c) if (contains(c, v)) return true; return false; }

  // structural equality; dictionaries compare as maps
  inline bool same(const NP &a, const NP &b) {
    if (a->k != b->k || a->c.size() != b->c.size()) return false;
    if (a->k == Num) return a->num == b->num;
    if (a->k == Var) return a->name == b->name;
    if (a->k == Dict) {
      for (size_t i = 0; i < a->c.size(); ++i) {
        bool f = false;
        for (size_t j = 0; j < b->c.size(); ++j) if (a->keys[i] == b->keys[j]) { if (!same(a->c[i], b->c[j])) return false; f = true; }
        if (!f) return false;
      }
      return true;
    }
    for (size_t i = 0; i < a->c.size(); ++i) if (!same(a->c[i], b->c[i])) return false;
    return true;
  }

  // ---------------------------------------------------------------- evaluation
  typedef std::map<std::string, double> Env;
  struct Q { // a quantity: value with absolute error bound, unit factor with error bound
    bool ok = true; long double v = 0, e = 0, u = 1, ue = 0;
    double p = 0; // the value plain double arithmetic gives (kept when ok is false)
  };
  struct Val { enum T { Scalar, ListV, DictV, EqV, Bad } t = Bad; Q q;
    Val() { q.ok = false; q.p = NAN; } std::vector<Val> c; std::vector<std::string> keys; };
  static const long double EPS = 2.3e-16L;

  inline Q badQ() { Q q; q.ok = false; return q; }
  inline Q fin(Q q) {
    if (!q.ok) return q;
    if (!(std::fabs(q.v) < 1e120L) || !(q.e < 1e120L) || (q.v != 0 && std::fabs(q.v) < 1e-120L) || !(std::fabs(q.u) < 1e120L) || !(std::fabs(q.u) > 1e-120L) || !(q.ue < 1e120L)) q.ok = false;
    return q;
  }
  inline Q fn(Q a, long double v, long double slope) {
    Q r; r.ok = a.ok && a.u == 1; r.v = v; r.e = std::fabs(slope) * a.e + 4 * EPS * std::fabs(v); return fin(r);
  }
  inline Q unaryQ0(K k, Q a) {
    if (!a.ok) return a;
    switch (k) {
    case Neg: a.v = -a.v; return a;
    case Arb: a.v = -a.v; return a; // a fixed choice of sign
    case Abs: a.v = std::fabs(a.v); return a;
    case Sin: if (std::fabs(a.v) > 1e8L) return badQ(); { Q r = fn(a, std::sin(a.v), std::max(std::fabs(std::cos(a.v)), a.e)); r.e += EPS * 1e-3L; return r; }
    case Cos: if (std::fabs(a.v) > 1e8L) return badQ(); { Q r = fn(a, std::cos(a.v), std::max(std::fabs(std::sin(a.v)), a.e)); r.e += EPS * 1e-3L; return r; }
    case Exp: if (std::fabs(a.v) > 250 || a.e > 0.01L) return badQ(); return fn(a, std::exp(a.v), std::exp(a.v) * 1.02L);
    case Log: if (a.v <= 0 || a.e >= a.v / 4) return badQ(); { Q r = fn(a, std::log(a.v), 1.4L / a.v); return r; }
    default: return badQ();
    }
  }
  inline Q binaryQ0(K k, Q a, Q b) {
    if (!a.ok || !b.ok) return badQ();
    Q r;
    switch (k) {
    case Add: case Sub: {
      bool au = a.u == b.u || std::fabs(a.u - b.u) <= 4 * (a.ue + b.ue);
      if (!au) return badQ();
      r.v = k == Add ? a.v + b.v : a.v - b.v; r.u = a.u; r.ue = a.ue + b.ue;
      r.e = a.e + b.e + EPS * (std::fabs(r.v)); return fin(r); }
    case Mul: r.v = a.v * b.v; r.e = std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e + EPS * std::fabs(r.v);
      r.u = a.u * b.u; r.ue = std::fabs(a.u) * b.ue + std::fabs(b.u) * a.ue + (a.u == 1 || b.u == 1 ? 0 : EPS * std::fabs(r.u)); return fin(r);
    case Div: if (std::fabs(b.v) <= 8 * b.e || b.v == 0) return badQ();
      r.v = a.v / b.v; r.e = 1.3L * (a.e + std::fabs(r.v) * b.e) / std::fabs(b.v) + EPS * std::fabs(r.v);
      r.u = a.u / b.u; r.ue = (a.ue + std::fabs(r.u) * b.ue) / std::fabs(b.u) + (b.u == 1 ? 0 : EPS * std::fabs(r.u)); return fin(r);
    case Pow: {
      if (b.u != 1) return badQ();
      if (a.v == 0) { if (a.e != 0 || b.v <= 0 || b.e >= b.v / 4 || a.u != 1) return badQ(); return r; }
      if (std::fabs(a.v) <= 8 * a.e) return badQ();
      if (a.v < 0 && (b.e != 0 || b.v != std::floor(b.v) || std::fabs(b.v) > 1e6L)) return badQ();
      if (std::fabs(b.v) > 1e6L) return badQ();
      long double l = std::log(std::fabs(a.v));
      if (std::fabs(l * b.v) > 280) return badQ();
      r.v = std::pow(a.v, b.v);
      long double rel = std::fabs(b.v) * a.e / std::fabs(a.v) * 1.3L + std::fabs(l) * b.e * 1.3L;
      if (rel > 0.01L) return badQ();
      r.e = std::fabs(r.v) * (rel * 1.05L + 4 * EPS);
      if (a.u != 1) { if (a.u <= 0) return badQ(); r.u = std::pow(a.u, b.v); r.ue = r.u * (std::fabs(b.v) * a.ue / a.u + 4 * EPS); }
      return fin(r); }
    case Units:
      if (b.u != 1 || b.v == 0) return badQ();
      r = a; r.u = a.u * b.v; r.ue = std::fabs(b.v) * a.ue + std::fabs(a.u) * b.e + EPS * std::fabs(r.u); return fin(r);
    case Unc: { // v±w as the fixed combination v + w*0.37 (value preserving rewrites only)
      if (a.u != 1 || b.u != 1) return badQ();
      r.v = a.v + 0.375L * b.v; r.e = a.e + 0.375L * b.e + EPS * std::fabs(r.v); return fin(r); }
    default: return badQ();
    }
  }
  inline Q unaryQ(K k, Q a) {
    Q r = unaryQ0(k, a);
    switch (k) {
    case Neg: case Arb: r.p = -a.p; break; case Abs: r.p = std::fabs(a.p); break;
    case Sin: r.p = std::sin(a.p); break; case Cos: r.p = std::cos(a.p); break;
    case Exp: r.p = std::exp(a.p); break; case Log: r.p = std::log(a.p); break;
    default: r.p = NAN;
    }
    return r;
  }
  inline bool exactInt(const Q &q) { return q.e == 0 && q.v == std::floor(q.v) && std::fabs(q.v) < 1e9L; }
  inline Q binaryQ(K k, Q a, Q b) {
    Q r = binaryQ0(k, a, b);
    if (r.ok && (k == Add || k == Sub || k == Mul) && exactInt(a) && exactInt(b)) r.e = 0; // exact in double
    if (r.ok && (k == Sub) && a.e == 0 && b.e == 0 && r.v == 0) r.e = 0;
    switch (k) {
    case Add: r.p = a.p + b.p; break; case Sub: r.p = a.p - b.p; break;
    case Mul: r.p = a.p * b.p; break; case Div: r.p = a.p / b.p; break;
    case Pow: r.p = std::pow(a.p, b.p); break; case Units: r.p = a.p; break;
    case Unc: r.p = a.p + 0.375 * b.p; break; default: r.p = NAN;
    }
    return r;
  }
  inline Val scalar(Q q) { Val v; v.t = q.ok ? Val::Scalar : Val::Bad; v.q = q; return v; }
  inline Val mapUnary(K k, const Val &a) {
    if (a.t == Val::Scalar || a.t == Val::Bad) return scalar(unaryQ(k, a.q));
    if (a.t == Val::ListV) { Val r = a; for (auto &x : r.c) { x = mapUnary(k, x); } return r; }
    return Val();
  }
  inline Val mapBinary(K k, const Val &a, const Val &b) {
    auto sc = [](const Val &v) { return v.t == Val::Scalar || v.t == Val::Bad; };
    if (sc(a) && sc(b)) return scalar(binaryQ(k, a.q, b.q));
    if (a.t == Val::ListV && b.t == Val::ListV && a.c.size() == b.c.size()) {
      Val r; r.t = Val::ListV;
      for (size_t i = 0; i < a.c.size(); ++i) { r.c.push_back(mapBinary(k, a.c[i], b.c[i])); }
      return r;
    }
    return Val();
  }
  inline Val eval(const NP &n, const Env &env) {
    switch (n->k) {
    case Num: { Q q; q.v = n->num; q.e = 0; q.p = n->num; if (!std::isfinite(n->num)) q.ok = false; return scalar(fin(q)); }
    case Var: { auto it = env.find(n->name); Q q; if (it == env.end()) { q.ok = false; q.p = NAN; } else q.v = q.p = it->second; return scalar(q); }
    case List: { Val r; r.t = Val::ListV; for (auto &c : n->c) { r.c.push_back(eval(c, env)); } return r; }
    case Dict: { Val r; r.t = Val::DictV; r.keys = n->keys; for (auto &c : n->c) { r.c.push_back(eval(c, env)); } return r; }
    case Eq: { Val r; r.t = Val::EqV; for (auto &c : n->c) { r.c.push_back(eval(c, env)); } return r; }
    case Acc: {
      Val l = eval(n->c[0], env), i = eval(n->c[1], env);
      if (l.t != Val::ListV || i.t != Val::Scalar || i.q.e != 0) return Val();
      long double d = i.q.v; if (d < 0 || d != std::floor(d) || d >= l.c.size()) return Val();
      return l.c[(size_t)d];
    }
    default:
      if (isUnary(n->k)) return mapUnary(n->k, eval(n->c[0], env));
      return mapBinary(n->k, eval(n->c[0], env), eval(n->c[1], env));
    }
  }
  enum Cmp { SAME, DIFFERENT, INCONCLUSIVE };
  inline bool sharp(const Q &q) { return q.ok && q.e <= 1e-5L * (std::fabs(q.v) + 1e-3L); }
  // compare two meanings at one point
  inline Cmp compare(const Val &a, const Val &b, std::string *why = nullptr) {
    if (a.t == Val::Bad) return INCONCLUSIVE;
    if (b.t == Val::Bad) {
      if (std::isfinite(b.q.p)) return INCONCLUSIVE;
      if (why) *why = "result has no finite value where the original has one";
      return DIFFERENT;
    }
    if (a.t != b.t) { if (why) *why = "results of different kinds"; return DIFFERENT; }
    if (a.t == Val::Scalar) {
      if (!sharp(a.q) || !sharp(b.q)) return INCONCLUSIVE;
      long double tol = 8 * (a.q.e + b.q.e) + 1e-14L * std::min(std::fabs(a.q.v), std::fabs(b.q.v)) + 1e-118L;
      if (!(std::fabs(a.q.v - b.q.v) <= tol)) { if (why) *why = pbt::cat("values ", (double)a.q.v, " and ", (double)b.q.v, " differ by more than ", (double)tol); return DIFFERENT; }
      if (a.q.v == 0 || b.q.v == 0) return SAME;
      long double ut = 8 * (a.q.ue + b.q.ue) + 1e-12L * std::fabs(a.q.u);
      if (!(std::fabs(a.q.u - b.q.u) <= ut)) { if (why) *why = pbt::cat("unit factors ", (double)a.q.u, " and ", (double)b.q.u, " differ"); return DIFFERENT; }
      return SAME;
    }
    if (a.c.size() != b.c.size()) { if (why) *why = "different lengths"; return DIFFERENT; }
    Cmp r = SAME;
    for (size_t i = 0; i < a.c.size(); ++i) {
      size_t j = i;
      if (a.t == Val::DictV) { for (j = 0; j < b.keys.size(); ++j) if (b.keys[j] == a.keys[i]) break; if (j == b.keys.size()) { if (why) *why = "missing key " + a.keys[i]; return DIFFERENT; } }
      Cmp q = compare(a.c[i], b.c[j], why);
      if (q == DIFFERENT) return q;
      if (q == INCONCLUSIVE) r = q;
    }
    return r;
  }

  // -------------------------------------------------- conversion to the library
  // A pool of variables makes equal variables sometimes the same node.
  inline sym::Expr toExpr(const NP &n) {
    using sym::Expr;
    switch (n->k) {
    case Num: return Expr(n->num);
    case Var: return Expr(sym::VarRT::create(n->name));
    case List: { auto a = sym::ArrayRT::create(); for (auto &c : n->c) a->push_back(toExpr(c)); return Expr(a); }
    case Dict: { auto d = sym::DictRT::create(); for (size_t i = 0; i < n->c.size(); ++i) (*d)[Expr(sym::VarRT::create(n->keys[i]))] = toExpr(n->c[i]); return Expr(d); }
    default: break;
    }
    Expr a = toExpr(n->c[0]);
    switch (n->k) {
    case Sin: return Expr(sym::sin(a));
    case Cos: return Expr(sym::cos(a));
    case Exp: return Expr(sym::exp(a));
    case Log: return Expr(sym::log(a));
    case Abs: return Expr(sym::abs(a));
    case Arb: return Expr(sym::arbsign(a));
    case Neg: return Expr(-a);
    default: break;
    }
    Expr b = toExpr(n->c[1]);
    switch (n->k) {
    case Add: return Expr(a + b);
    case Sub: return Expr(a - b);
    case Mul: return Expr(a * b);
    case Div: return Expr(a / b);
    case Pow: return Expr(sym::pow(a, b));
    case Eq: return Expr(sym::equality(a, b));
    case Acc: return Expr(sym::array_access(a, b));
    case Units: return Expr(sym::units(a, b));
    case Unc: return Expr(sym::uncertainty(a, b));
    default: abort();
    }
  }
  // ------------------------------------------------ conversion from the library
  namespace d = sym::detail;
  struct Reader : d::VisitorHelper<Reader, NP> {
    size_t depth = 0;
    NP go(const sym::Expr &e) {
      if (!e) pbt::fail("a null expression appears inside a result");
      if (++depth > 20000) pbt::fail("expression too deep (cyclic?)");
      NP r = e->visit(*this); --depth; return r;
    }
    NP apply(const double &v) { return num(v); }
    NP apply(const sym::VarRT &v) { return var(v.getName()); }
    template <class Op> NP apply(const sym::UnaryOp<sym::Expr, Op> &o) {
      K k = std::is_same<Op, d::Sine>::value ? Sin : std::is_same<Op, d::Cosine>::value ? Cos : std::is_same<Op, d::Log>::value ? Log : std::is_same<Op, d::Exp>::value ? Exp : std::is_same<Op, d::Absolute>::value ? Abs : std::is_same<Op, d::Arbsign>::value ? Arb : Neg;
      return un(k, go(o.getArg()));
    }
    template <class Op> NP apply(const sym::BinaryOp<sym::Expr, Op, sym::Expr> &o) {
      K k = std::is_same<Op, d::Add>::value ? Add : std::is_same<Op, d::Subtract>::value ? Sub : std::is_same<Op, d::Multiply>::value ? Mul : std::is_same<Op, d::Divide>::value ? Div : std::is_same<Op, d::Power>::value ? Pow : std::is_same<Op, d::Equality>::value ? Eq : std::is_same<Op, d::ArrayAccess>::value ? Acc : std::is_same<Op, d::Units>::value ? Units : Unc;
      return bin(k, go(o.getLHS()), go(o.getRHS()));
    }
    NP apply(const sym::ArrayRT &a) { std::vector<NP> v; for (const auto &x : a) v.push_back(go(x)); return list(v); }
    NP apply(const sym::DictRT &a) {
      std::map<std::string, NP> m;
      for (const auto &x : a) { NP k = go(x.first); if (k->k != Var) pbt::fail("dictionary key is not a variable"); m[k->name] = go(x.second); }
      std::vector<std::string> ks; std::vector<NP> vs; for (auto &p : m) { ks.push_back(p.first); vs.push_back(p.second); }
      return dict(ks, vs);
    }
  };
  inline NP fromExpr(const sym::Expr &e) { Reader r; return r.go(e); }

  // ------------------------------------------------------------------ generator
  struct GenOpts {
    bool lists = false, dicts = false, eq = false, units = false, unc = false, absarb = false, acc = false, negnum = true, trig = true, pow = true;
    int depth = 4;
    std::vector<std::string> names = {"x", "y", "z", "ab"};
  };
  inline double genNum(pbt::Src &s, bool neg = true) {
    double v;
    switch (s.weighted({5, 4, 3, 2, 2, 1, 1})) {
    case 0: v = s.range(0, 3); break;
    case 1: v = s.range(0, 12); break;
    case 2: v = s.range(0, 40) / 8.0; break;
    case 3: v = s.range(0, 1000) / 100.0; break;
    case 4: v = s.uniform(0, 10); break;
    case 5: v = s.uniform(0, 1) * std::pow(10.0, (double)s.range(-6, 6)); break;
    default: v = 1; break;
    }
    if (neg && s.chance(1, 4)) v = -v;
    return v == 0 ? 0.0 : v;
  }
  inline NP genScalar(pbt::Src &s, const GenOpts &o, int depth) {
    if (depth <= 0 || s.chance(1, 6)) {
      if (s.chance(11, 20)) return var(s.pick(o.names));
      return num(genNum(s, o.negnum));
    }
    switch (s.weighted({6, 5, 7, 5, (unsigned)(o.pow ? 5 : 0), 3, (unsigned)(o.trig ? 6 : 0), (unsigned)(o.absarb ? 3 : 0), (unsigned)(o.units ? 3 : 0), (unsigned)(o.unc ? 3 : 0)})) {
    case 0: return bin(Add, genScalar(s, o, depth - 1), genScalar(s, o, depth - 1));
    case 1: return bin(Sub, genScalar(s, o, depth - 1), genScalar(s, o, depth - 1));
    case 2: return bin(Mul, genScalar(s, o, depth - 1), genScalar(s, o, depth - 1));
    case 3: return bin(Div, genScalar(s, o, depth - 1), genScalar(s, o, depth - 1));
    case 4: {
      NP e;
      if (s.chance(3, 4)) e = num(s.chance(1, 5) && o.negnum ? (double)-s.range(1, 3) : s.chance(1, 4) ? s.range(1, 7) / 2.0 : (double)s.range(0, 4));
      else e = genScalar(s, o, depth - 1);
      return bin(Pow, genScalar(s, o, depth - 1), e);
    }
    case 5: return un(Neg, genScalar(s, o, depth - 1));
    case 6: return un(s.pick(std::vector<K>{Sin, Cos, Exp, Log}), genScalar(s, o, depth - 1));
    case 7: return un(s.chance(1, 2) ? Arb : Abs, genScalar(s, o, depth - 1));
    case 8: return bin(Units, genScalar(s, o, depth - 1), genScalar(s, o, std::min(depth - 1, 1)));
    default: return bin(Unc, genScalar(s, o, depth - 1), genScalar(s, o, std::min(depth - 1, 2)));
    }
  }
  inline NP genAny(pbt::Src &s, const GenOpts &o, int depth) {
    unsigned wl = o.lists ? 2 : 0, wd = o.dicts ? 1 : 0, we = o.eq ? 2 : 0, wa = o.acc ? 1 : 0;
    switch (s.weighted({8, wl, wd, we, wa})) {
    case 1: {
      if (depth > 1 && s.chance(1, 3)) { // elementwise arithmetic of equal-length flat lists
        size_t n = s.range(0, 4); std::vector<NP> a, b;
        for (size_t i = 0; i < n; ++i) { a.push_back(genScalar(s, o, depth - 2)); b.push_back(genScalar(s, o, depth - 2)); }
        if (s.chance(1, 4)) return un(s.pick(std::vector<K>{Neg, Sin, Cos, Exp}), list(a));
        return bin(s.pick(std::vector<K>{Add, Sub, Mul, Div}), list(a), list(b));
      }
      size_t n = s.range(0, 4); std::vector<NP> v; for (size_t i = 0; i < n; ++i) v.push_back(genAny(s, o, depth - 1)); return list(v);
    }
    case 2: {
      size_t n = s.range(0, 3); std::vector<std::string> ks; std::vector<NP> vs;
      for (size_t i = 0; i < n; ++i) { std::string k = s.pick(o.names); if (std::find(ks.begin(), ks.end(), k) != ks.end()) continue; ks.push_back(k); vs.push_back(genAny(s, o, depth - 1)); }
      return dict(ks, vs);
    }
    case 3: return bin(Eq, genScalar(s, o, depth - 1), s.chance(1, 5) ? bin(Eq, genScalar(s, o, depth - 2), genScalar(s, o, depth - 2)) : genScalar(s, o, depth - 1));
    case 4: return bin(Acc, genScalar(s, o, depth - 1), genScalar(s, o, 1));
    default: return genScalar(s, o, depth);
    }
  }
  inline Env genEnv(pbt::Src &s, const std::vector<std::string> &names, bool positive = false) {
    Env e; for (auto &n : names) { double v = s.range(8, 200) / 64.0; if (!positive && s.chance(1, 3)) v = -v; e[n] = v; } return e;
  }
  inline std::string showEnv(const Env &e) { std::string s; for (auto &p : e) s += pbt::cat(p.first, "=", p.second, " "); return s; }

  // Compare meanings at several points. Returns number of conclusive points.
  inline int sameMeaning(pbt::Src &s, const NP &a, const NP &b, const std::vector<std::string> &names, const std::string &what, int points = 4) {
    int concl = 0;
    for (int i = 0; i < points; ++i) {
      Env env = genEnv(s, names, i == 0 || i == 2);
      std::string why; Cmp r = compare(eval(a, env), eval(b, env), &why);
      if (r == DIFFERENT) pbt::fail(what + ": at " + showEnv(env) + why);
      if (r == SAME) ++concl;
    }
    return concl;
  }
}
