"""P33: vectors, matrices and complex numbers flow through expressions and polynomials by linear algebra."""
import json, sys
from fractions import Fraction as F
import genprog
from genprog import Family

PRELUDE = r'''
#include <stator/symbolic/polynomial.hpp>
#include <complex>
namespace lin {
  using namespace sym;
  static constexpr char xs[] = "x", ys[] = "y";
  typedef Var<xs> X; typedef Var<ys> Y;
  template <int R, int C> using Mat = Eigen::Matrix<double, R, C, Eigen::DontAlign | (R == 1 && C != 1 ? Eigen::RowMajor : Eigen::ColMajor)>;
  typedef std::complex<double> Z;
  template <int R, int C> Mat<R, C> mat(std::initializer_list<double> l) { Mat<R, C> m; auto it = l.begin(); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = *it++; return m; }
  template <class T> struct is_poly : std::false_type {};
  template <size_t N, class T, class V> struct is_poly<Polynomial<N, T, V>> : std::true_type {};
  template <class T> struct is_complex : std::false_type {};
  template <class T> struct is_complex<std::complex<T>> : std::true_type {};
  template <class T> void show(int k, const std::string &t, const T &v) {
    if constexpr (std::is_arithmetic<T>::value) gp::num(k, t.c_str(), double(v));
    else if constexpr (is_C<T>::value) gp::num(k, t.c_str(), double(v));
    else if constexpr (is_complex<T>::value) { gp::num(k, (t + ".re").c_str(), v.real()); gp::num(k, (t + ".im").c_str(), v.imag()); }
    else if constexpr (is_poly<T>::value) { gp::num(k, (t + ".order").c_str(), double(v.size()) - 1); for (size_t i = 0; i < v.size(); ++i) show(k, t + "." + std::to_string(i), v[i]); }
    else if constexpr (std::is_base_of<Eigen::EigenBase<T>, T>::value) { gp::num(k, (t + ".rows").c_str(), v.rows()); gp::num(k, (t + ".cols").c_str(), v.cols()); for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.cols(); ++j) gp::num(k, (t + "." + std::to_string(i) + "_" + std::to_string(j)).c_str(), v(i, j)); }
    else gp::str(k, t.c_str(), "not a value");
  }
}
'''
BIG = F(2 ** 40)
class Bad(Exception): pass
# A value is a Fraction, a Gaussian rational ("z", re, im), or a matrix: a tuple of rows of Fractions
def kind(v): return "s" if isinstance(v, F) else "z" if v[0] == "z" else (len(v), len(v[0]))
def check(v):
    for q in ([v] if isinstance(v, F) else v[1:] if v[0] == "z" else [q for r in v for q in r]):
        if abs(q.numerator) > BIG or q.denominator > 2 ** 10: raise Bad
    return v
def mapv(f, v): return f(v) if isinstance(v, F) else ("z", f(v[1]), f(v[2])) if v[0] == "z" else tuple(tuple(f(q) for q in r) for r in v)
def cplx(v): return v if v[0] == "z" else None
def add(a, b):
    ka, kb = kind(a), kind(b)
    if {ka, kb} == {"s", "z"}: a, b = (("z", a, F(0)), b) if ka == "s" else (a, ("z", b, F(0))); ka = kb = "z"
    if ka != kb: raise Bad
    if ka == "s": return check(a + b)
    if ka == "z": return check(("z", a[1] + b[1], a[2] + b[2]))
    return check(tuple(tuple(p + q for p, q in zip(r, s)) for r, s in zip(a, b)))
def neg(a): return mapv(lambda q: -q, a)
def sub(a, b): return add(a, neg(b))
def mul(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "s": return check(mapv(lambda q: a * q, b))
    if kb == "s": return check(mapv(lambda q: q * b, a))
    if ka == "z" and kb == "z": return check(("z", a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]))
    if "z" in (ka, kb) or ka[1] != kb[0]: raise Bad
    return check(tuple(tuple(sum(a[i][t] * b[t][j] for t in range(ka[1])) for j in range(kb[1])) for i in range(ka[0])))
def div(a, b):
    if kind(b) != "s" or b == 0: raise Bad
    return check(mapv(lambda q: q / b, a))
def power(a, n):
    k = kind(a)
    if k in ("s", "z"):
        r = a
        for _ in range(n - 1): r = mul(r, a)
        return r
    if n != 2: raise Bad
    return check(sum((q * q for r in a for q in r), F(0)))
def zero(v): return mapv(lambda q: F(0), v)

# expressions: ["k", value] ["C", n, d] ["i", n] ["v", name] [op, l, r] ["neg", e] ["pow", e, n]
def leaf(n): return n[0] in ("k", "C", "i", "v")
def kids(n): return [] if leaf(n) else [c for c in n[1:] if isinstance(c, list)]
def vars_(n): return {n[1]} if n[0] == "v" else set().union(set(), *[vars_(c) for c in kids(n)])
def ops(n): return 0 if leaf(n) else 1 + sum(ops(c) for c in kids(n))
def ev(n, env):
    o = n[0]
    if o == "k": return unjson(n[1])
    if o == "C": return F(n[1], n[2])
    if o == "i": return F(n[1])
    if o == "v": return env[n[1]]
    if o == "neg": return neg(ev(n[1], env))
    if o == "pow": return power(ev(n[1], env), n[2])
    return {"+": add, "-": sub, "*": mul, "/": div}[o](ev(n[1], env), ev(n[2], env))
def dual(n, x, env):
    """value and derivative; the derivative of what does not depend on x is None"""
    v = ev(n, env)
    if x not in vars_(n): return v, None
    o = n[0]
    if o == "v": return v, F(1)
    if o == "neg": return v, neg(dual(n[1], x, env)[1])
    a, da = dual(n[1], x, env)
    if o == "pow":
        if kind(a) not in ("s", "z"): raise Bad
        return v, mul(mul(F(n[2]), da), power(a, n[2] - 1) if n[2] > 1 else F(1))
    b, db = dual(n[2], x, env)
    if o in "+-":
        if db is None: return v, da
        return v, add(da, db) if o == "+" and da is not None else sub(da, db) if da is not None else db if o == "+" else neg(db)
    if o == "*":
        l = mul(da, b) if da is not None else None; r = mul(a, db) if db is not None else None
        return v, r if l is None else l if r is None else add(l, r)
    if kind(b) != "s": raise Bad
    t = mul(da, b) if da is not None else None
    if db is not None: u = mul(a, db); t = neg(u) if t is None else sub(t, u)
    return v, div(t, mul(b, b))
def tojson(v): return [str(v)] if isinstance(v, F) else ["z", str(v[1]), str(v[2])] if v[0] == "z" else [[str(q) for q in r] for r in v]
def unjson(j): return F(j[0]) if len(j) == 1 and isinstance(j[0], str) else ("z", F(j[1]), F(j[2])) if j[0] == "z" else tuple(tuple(F(q) for q in r) for r in j)
def num(q): return repr(float(q)) if q >= 0 else "(%r)" % float(q)
def lit(v):
    k = kind(v)
    return num(v) if k == "s" else "lin::Z(%s, %s)" % (num(v[1]), num(v[2])) if k == "z" else "lin::mat<%d, %d>({%s})" % (k[0], k[1], ", ".join(num(q) for r in v for q in r))
def cpp(n):
    o = n[0]
    if o == "k": return lit(unjson(n[1]))
    if o == "C": return "sym::C<%d, %d>()" % (n[1], n[2])
    if o == "i": return "(%d)" % n[1]
    if o == "v": return n[1]
    if o == "neg": return "(-%s)" % cpp(n[1])
    if o == "pow": return "pow(%s, sym::C<%d>())" % (cpp(n[1]), n[2])
    return "(%s %s %s)" % (cpp(n[1]), o, cpp(n[2]))
def show(n):
    if n[0] == "k": return lit(unjson(n[1])).replace("lin::", "")
    return cpp(n).replace("sym::", "").replace("lin::", "")

def rnum(rng, dy=True): return F(rng.choice([0, 1, 1, 2, -1, -2, 3, -3, 4, 5, -7]), rng.choice([1, 1, 1, 2, 4]) if dy else 1)
def rval(rng, k):
    if k == "s":
        v = rnum(rng); return v if v else F(3, 2)
    if k == "z": return ("z", rnum(rng), rnum(rng))
    return tuple(tuple(rnum(rng) for _ in range(k[1])) for _ in range(k[0]))
def const(rng, k):
    if k == "s":
        r = rng.random()
        if r < 0.25: return ["i", rng.choice([2, 3, -1, -4])]
        if r < 0.45: return ["C", rng.choice([1, 2, -3, 5]), rng.choice([1, 2])] if r < 0.42 else ["C", rng.choice([0, 1]), 1]
    return ["k", tojson(rval(rng, k))]
def gen_expr(rng, k, vs, depth):
    """an expression of kind k which contains a variable; vs: name -> kind"""
    names = [v for v in vs if vs[v] == k]
    if depth == 0:
        if names: return ["v", rng.choice(names)]
        return products(rng, k, vs, 0)
    r = rng.random()
    if r < 0.15 and names: return ["v", rng.choice(names)]
    if r < 0.5:
        a = gen_expr(rng, k, vs, depth - 1); b = gen_expr(rng, k, vs, depth - 1) if rng.random() < 0.6 else const(rng, k)
        return [rng.choice("+-")] + ([a, b] if rng.random() < 0.6 else [b, a])
    if r < 0.57: return ["neg", gen_expr(rng, k, vs, depth - 1)]
    if r < 0.66: return ["/", gen_expr(rng, k, vs, depth - 1), rng.choice([["C", 2, 1], ["C", -4, 1], ["k", ["2"]], ["k", ["-1/2"]], ["i", 4]])]
    if k in ("s", "z") and r < 0.75: return ["pow", gen_expr(rng, k, vs, depth - 1), rng.choice([2, 2, 3])]
    return products(rng, k, vs, depth - 1)
def sometimes(rng, k, vs, depth): return gen_expr(rng, k, vs, depth) if depth and rng.random() < 0.5 else const(rng, k)
def products(rng, k, vs, depth):
    kinds = sorted(set(vs.values()), key=str); opts = []
    for q in kinds:
        if k == "s":
            if q == "s": opts.append(("s", "s"))
            elif q != "z" and q[1] == 1: opts.append(("norm", q))
        elif k == "z": opts += [("z", "z")] if q == "z" else [("s", "z"), ("z", "s")] if q == "s" else []
        else:
            if q == "s": opts += [("s", k), (k, "s")]
            elif q == "z": pass
            else:
                if q[0] == k[0]: opts.append((q, (q[1], k[1])))
                if q[1] == k[1]: opts.append(((k[0], q[0]), q))
                if q == k: opts += [("s", k), (k, "s")]
    if not opts: raise Bad
    a, b = rng.choice(opts)
    if a == "norm": return ["pow", gen_expr(rng, b, vs, depth), 2]
    if rng.random() < 0.5 and (a in vs.values() or depth): l, r = gen_expr(rng, a, vs, depth), sometimes(rng, b, vs, depth)
    else: l, r = sometimes(rng, a, vs, depth), gen_expr(rng, b, vs, depth)
    if not vars_(l) and not vars_(r): raise Bad
    return ["*", l, r]
def usable(n, kinds):
    """the forms C++ itself has no operation for"""
    if leaf(n): return True
    if not vars_(n): return False
    if not all(usable(c, kinds) for c in kids(n)): return False
    ks = [static(c, kinds) for c in kids(n)]
    for c, o in ((kids(n)[0], kids(n)[-1]), (kids(n)[-1], kids(n)[0])):
        # std::complex combines with double only; a rational becomes a double only next to a number
        if n[0] in "+-*/" and c is not o and c[0] in ("C", "i") and "z" in (ks[0], ks[-1]): return False
        if n[0] in "+-" and c is not o and ks[0] != ks[1]: return False
    if n[0] == "/" and static(n[1], kinds) == "z" and n[2][0] != "k": return False
    return True
def static(n, kinds):
    o = n[0]
    if o == "k": return kind(unjson(n[1]))
    if o in ("C", "i"): return "s"
    if o == "v": return kinds[n[1]]
    if o == "neg": return static(n[1], kinds)
    if o == "pow": return static(n[1], kinds) if static(n[1], kinds) in ("s", "z") else "s"
    a, b = static(n[1], kinds), static(n[2], kinds)
    if o in "+-": return "z" if "z" in (a, b) else a
    if o == "/": return a
    if "s" in (a, b): return b if a == "s" else a
    if "z" in (a, b): return "z"
    return (a[0], b[1])
def want(r, tag, v, zeros=False):
    """compare what was printed with a value; exact, as all numbers are small dyadic rationals"""
    k = kind(v)
    if zeros and k != "s" and v == zero(v) and r.get(tag) == 0: return None   # what is known to vanish is the constant zero
    if k == "s": got = {tag: v}
    elif k == "z": got = {tag + ".re": v[1], tag + ".im": v[2]}
    else:
        got = {tag + ".rows": F(k[0]), tag + ".cols": F(k[1])}
        for i in range(k[0]):
            for j in range(k[1]): got["%s.%d_%d" % (tag, i, j)] = v[i][j]
    for t, q in got.items():
        # a real number stands for a complex one
        if t.endswith(".im") and k == "z" and q == 0 and t not in r and tag in r: continue
        g = r.get(t, r.get(tag) if t.endswith(".re") else None)
        if not isinstance(g, float) or g != g or g in (float("inf"), float("-inf")) or F(g) != q: return "%s is %r, expected %s" % (t, g, float(q))
    return None

def constant_derivative(n, v):
    """the derivative when the library finds it to be a rational constant, else None"""
    o = n[0]
    if o == "v": return F(int(n[1] == v))
    if leaf(n): return F(0)
    d = [constant_derivative(c, v) for c in kids(n)]
    if o == "neg": return None if d[0] is None else -d[0]
    if o in "+-": return None if None in d else d[0] + d[1] if o == "+" else d[0] - d[1]
    if o == "*":
        if d[0] == 0 and d[1] == 0: return F(0)
        for i in (0, 1):
            if n[1 + i][0] == "C" and (n[1 + i][1] == 0 or d[1 - i] is not None): return F(n[1 + i][1], n[1 + i][2]) * (d[1 - i] or 0)
        return None
    return F(0) if all(x == 0 for x in d) else d[0] / F(n[2][1], n[2][2]) if o == "/" and n[2][0] == "C" and d[0] is not None else None
class Exprs(Family):
    name = "expressions"; per_unit = 12; quick = 700; thorough = 12000; prelude = PRELUDE
    rule = "An expression is non-trivial with three or more operations of which at least one combines vectors, matrices or complex numbers."
    def gen(self, rng):
        while True:
            n = rng.choice([2, 3, 3, 4]); V, M, W = (n, 1), (n, n), (1, n)
            mode = rng.choice(["scalar", "scalar", "vector", "matrix", "mixed", "complex", "complex"])
            if mode == "complex": vs = {"x": "z", "y": rng.choice(["z", "s"])} if rng.random() < 0.7 else {"x": "s"}; k = "z"
            elif mode == "scalar": vs = {"x": "s"} if rng.random() < 0.5 else {"x": "s", "y": "s"}; k = rng.choice([V, V, M, W])
            elif mode == "vector": vs = {"x": V, "y": rng.choice([V, "s", M])}; k = rng.choice([V, V, "s"])
            elif mode == "matrix": vs = {"x": M, "y": rng.choice([M, M, "s"])}; k = rng.choice([M, M, V])
            else: p = rng.choice([1, 2, 3]); vs = {"x": (n, p), "y": (p, n)}; k = rng.choice([M, (p, p)])
            if k == (1, 1): continue
            try: e = gen_expr(rng, k, vs, rng.choice([1, 2, 2, 3]))
            except (Bad, RecursionError): continue
            if not usable(e, vs) or ops(e) < 1 or ops(e) > 14 or (1, 1) in self.kinds_in(e, vs): continue
            env = {v: rval(rng, vs[v]) for v in vs}
            try: ev(e, env)
            except Bad: continue
            d = [v for v in sorted(vars_(e)) if vs[v] == "s" and self.diff_ok(e, v, vs, env)]
            return {"e": e, "vs": {v: list(k) if isinstance(k, tuple) else k for v, k in vs.items()}, "env": {v: tojson(env[v]) for v in env}, "order": rng.sample(sorted(vs), len(vs)), "d": d[0] if d and rng.random() < 0.7 else None}
    @staticmethod
    def kinds_in(n, vs): return [static(n, vs)] + [k for c in kids(n) for k in Exprs.kinds_in(c, vs)]
    @staticmethod
    def diff_ok(e, v, vs, env):
        def scan(n):
            if n[0] == "pow" and v in vars_(n) and static(n[1], vs) not in ("s", "z"): return False
            # derivatives have rational factors, which do not combine with std::complex
            if static(n, vs) == "z": return False
            # the derivative of a quotient which is known to vanish is the number zero, which does not add to matrices
            if n[0] == "/" and static(n[1], vs) != "s" and constant_derivative(n[1], v) == 0: return False
            return all(scan(c) for c in kids(n))
        # the kind of a variable is only known when it is substituted, so zeros left by differentiation are scalars
        if not scan(e) or any(k != "s" for k in vs.values()): return False
        try: dual(e, v, env)
        except Bad: return False
        return True
    def unpack(self, c): return {v: tuple(k) if isinstance(k, list) else k for v, k in c["vs"].items()}, {v: unjson(j) for v, j in c["env"].items()}
    def describe(self, c): return "%s at %s%s" % (show(c["e"]), ", ".join("%s = %s" % (v, lit(unjson(c["env"][v])).replace("lin::", "")) for v in c["order"]), ", differentiated by " + c["d"] if c["d"] else "")
    def key(self, c): return json.dumps([c["e"], c["d"]])
    def code(self, c, k):
        vs, env = self.unpack(c)
        def at(t):
            for v in c["order"]: t = "sym::sub(%s, %s = V%s)" % (t, v, v)
            return t
        s = "lin::X x; lin::Y y; (void)x; (void)y; auto f = stator::detail::store(%s);" % cpp(c["e"])
        for v in c["order"]: s += "auto V%s = %s;" % (v, lit(env[v]))
        s += "auto r = %s; lin::show(k, \"f\", r);" % at("f")
        if c["d"]: s += "auto g = sym::derivative(f, %s); auto dr = %s; lin::show(k, \"d\", dr);" % (c["d"], at("g"))
        return s
    def judge(self, c, r):
        vs, env = self.unpack(c)
        m = want(r, "f", ev(c["e"], env), True)
        if not m and c["d"]: m = want(r, "d", dual(c["e"], c["d"], env)[1], True)
        wide = any(k != "s" for k in self.kinds_in(c["e"], vs))
        return m, ops(c["e"]) >= 3 and wide, sorted({"%s result" % ("scalar" if static(c["e"], vs) == "s" else "complex" if static(c["e"], vs) == "z" else "matrix")} | ({"derivative"} if c["d"] else set())), None
    def shrinks(self, c):
        vs, env = self.unpack(c); out = []
        def cands(n):
            o = []
            if leaf(n):
                if n[0] == "k":
                    v = unjson(n[1])
                    if v != zero(v): o += [["k", tojson(mapv(lambda q: F(round(q)) or F(1), v))]]
                return o
            k = static(n, vs)
            o += [x for x in kids(n) if static(x, vs) == k]
            for i in range(1, len(n)):
                if isinstance(n[i], list): o += [n[:i] + [s] + n[i + 1:] for s in cands(n[i])]
            return o
        for s in cands(c["e"]):
            if s == c["e"] or leaf(s) or not usable(s, vs): continue
            try: ev(s, env)
            except Bad: continue
            d = c["d"] if c["d"] and c["d"] in vars_(s) and self.diff_ok(s, c["d"], vs, env) else None
            out.append(dict(c, e=s, d=d))
        if c["d"]: out.append(dict(c, d=None))
        return out

# polynomials: a list of coefficients of one kind
def padd(p, q): return [add(p[i], q[i]) if i < len(p) and i < len(q) else p[i] if i < len(p) else q[i] for i in range(max(len(p), len(q)))]
def pmul(p, q):
    out = [None] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            t = mul(a, b); out[i + j] = t if out[i + j] is None else add(out[i + j], t)
    return out
def peval(p, x):
    """the sum of x^i times the i-th coefficient; coefficients stand on the right, as x commutes with them in every case asked for"""
    r = p[-1]
    for a in p[-2::-1]: r = add(mul(x, r), a)
    return r
class Polys(Family):
    name = "polynomials"; per_unit = 10; quick = 600; thorough = 10000; prelude = PRELUDE
    rule = "A polynomial case is non-trivial with two or more operations on polynomials of first or higher order."
    def rand(self, rng, k): return [rval(rng, k) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
    def gen(self, rng):
        while True:
            n = rng.choice([2, 3]); k = rng.choice([(n, 1), (n, 1), (n, n), (n, n), (1, n), "z"])
            steps = []; start = self.rand(rng, k)
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                o = rng.choice(["+", "-", "r-", "neg", "scale", "lscale", "div", "times", "ltimes", "product", "lproduct", "derivative", "constant"])
                if o in "+-" or o == "r-": a = [tojson(v) for v in self.rand(rng, k)]
                elif o in ("scale", "lscale"): a = [tojson(rval(rng, "s"))]
                elif o == "div": a = [tojson(rng.choice([F(2), F(-4), F(1, 2)]))]
                elif o in ("times", "ltimes"):
                    if k != "z": a = [tojson(rval(rng, "s")) for _ in range(rng.randint(1, 3))]
                    else: a = [tojson(rval(rng, rng.choice(["s", "z"])))] * 1; a += [tojson(rval(rng, kind(unjson(a[0])))) for _ in range(rng.randint(0, 2))]
                elif o in ("product", "lproduct"):
                    if k == "z" or (o == "product" and k[1] != n) or (o == "lproduct" and k[0] != n): continue
                    a = [tojson(rval(rng, (n, n))) for _ in range(rng.randint(1, 2))]
                elif o == "constant": a = [tojson(rval(rng, k))]
                else: a = []
                if o == "derivative" and k == "z": continue
                steps.append([o, a])
            if k != "z": x = rng.choice(["s", "s", "i", "C"] + (["m"] if k[0] == k[1] else []))
            else: x = rng.choice(["s", "z", "z"])
            xv = rval(rng, "z") if x == "z" else rval(rng, k) if x == "m" else F(rng.choice([2, -1, 3, 1])) if x in "iC" else rval(rng, "s")
            c = {"k": list(k) if k != "z" else k, "start": [tojson(v) for v in start], "steps": steps, "x": [x, tojson(xv)]}
            if self.run(c) is not None: return c
    def run(self, c):
        p = [unjson(v) for v in c["start"]]
        try:
            for o, a in c["steps"]:
                q = [unjson(v) for v in a]
                if o in ("+", "constant"): p = padd(p, q)
                elif o == "-": p = padd(p, [neg(v) for v in q])
                elif o == "r-": p = padd(q, [neg(v) for v in p])
                elif o == "neg": p = [neg(v) for v in p]
                elif o == "div": p = [div(v, q[0]) for v in p]
                elif o in ("scale", "times", "product"): p = pmul(p, q)
                elif o in ("lscale", "ltimes", "lproduct"): p = pmul(q, p)
                elif o == "derivative":
                    if len(p) < 2: return None
                    p = [mul(F(i), v) for i, v in enumerate(p)][1:]
                if len(p) > 7: return None
            x = unjson(c["x"][1])
            if c["x"][0] == "m" and (kind(p[0]) != kind(x)): return None
            return p, peval(p, x)
        except Bad: return None
    def describe(self, c): return "polynomial (%s); %s; at %s" % (", ".join(lit(unjson(v)) for v in c["start"]), ", ".join(o + " (%s)" % ", ".join(lit(unjson(v)) for v in a) for o, a in c["steps"]), lit(unjson(c["x"][1])))
    def code(self, c, k):
        T = lambda kd: "double" if kd == "s" else "lin::Z" if kd == "z" else "lin::Mat<%d, %d>" % kd
        P = lambda q: "sym::Polynomial<%d, %s, lin::X>{%s}" % (len(q) - 1, T(kind(q[0])), ", ".join(lit(v) for v in q))
        s = "lin::X x; (void)x; auto p0 = %s;" % P([unjson(v) for v in c["start"]])
        for i, (o, a) in enumerate(c["steps"]):
            q = [unjson(v) for v in a]; L = "p%d" % i
            if o == "+": e = "sym::expand(%s + %s)" % (L, P(q))
            elif o == "-": e = "sym::expand(%s - %s)" % (L, P(q))
            elif o == "r-": e = "sym::expand(%s - %s)" % (P(q), L)
            elif o == "neg": e = "-" + L
            elif o == "scale": e = "sym::expand(%s * %s)" % (L, lit(q[0]))
            elif o == "lscale": e = "sym::expand(%s * %s)" % (lit(q[0]), L)
            elif o == "div": e = "sym::expand(%s / %s)" % (L, lit(q[0]))
            elif o in ("times", "product"): e = "sym::expand(%s * %s)" % (L, P(q))
            elif o in ("ltimes", "lproduct"): e = "sym::expand(%s * %s)" % (P(q), L)
            elif o == "constant": e = "sym::expand(%s + %s)" % (L, "sym::Polynomial<0, %s, lin::X>{%s}" % (T(kind(q[0])), lit(q[0])))
            else: e = "sym::derivative(%s, x)" % L
            s += "auto p%d = %s;" % (i + 1, e)
        n = "p%d" % len(c["steps"]); x, xv = c["x"][0], unjson(c["x"][1])
        at = "(%d)" % xv if x == "i" else "sym::C<%d>()" % xv if x == "C" else lit(xv)
        return s + "lin::show(k, \"p\", %s); { auto v = %s; auto r = sym::sub(%s, x = v); volatile char wipe[512]; for (int i = 0; i < 512; ++i) wipe[i] = 1; lin::show(k, \"v\", r); auto z = sym::sub(%s, x = sym::Null()); lin::show(k, \"z\", z); }" % (n, at, n, n)
    def judge(self, c, r):
        p, v = self.run(c); m = None; nt = len(c["steps"]) >= 2 and len(p) >= 2
        got = r.get("p.order")
        if got is None or int(got) + 1 < len(p): m = "the result has order %r, expected %d" % (got, len(p) - 1)
        else:
            for i in range(int(got) + 1):
                m = m or want(r, "p.%d" % i, p[i] if i < len(p) else zero(p[0]))
        m = m or want(r, "v", v) or want(r, "z", p[0])
        return m, nt, sorted({o for o, _ in c["steps"]} | {"at " + c["x"][0]}), None
    def shrinks(self, c):
        out = [dict(c, steps=c["steps"][:i] + c["steps"][i + 1:]) for i in range(len(c["steps"]))]
        if len(c["start"]) > 1: out += [dict(c, start=c["start"][:-1]), dict(c, start=c["start"][1:])]
        for i, (o, a) in enumerate(c["steps"]):
            if len(a) > 1: out.append(dict(c, steps=c["steps"][:i] + [[o, a[:-1]]] + c["steps"][i + 1:]))
        return [o for o in out if self.run(o) is not None]

if __name__ == "__main__": sys.exit(genprog.main([Exprs(), Polys()], ["-fsanitize=address", "-g0"]))
