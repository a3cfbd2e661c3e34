"""Values with rounding-error bounds, and forward-mode derivatives, for judging numerical results.

A Q is a value known to 40 digits and a bound (to first order) on the error a
double-precision evaluation of the same expression, in any of the orders
allowed by associativity, may commit."""
import math
from mpmath import mp, mpf
mp.dps = 40
U = mpf(2) ** -52
class Bad(Exception): pass
class Q:
    __slots__ = ("v", "e")
    def __init__(self, v, e=0):
        self.v = mpf(v); self.e = mpf(e)
        if not mp.isfinite(self.v) or not mp.isfinite(self.e) or abs(self.v) > 1e60 or self.e > 1e60: raise Bad("range")
        if self.v != 0 and abs(self.v) < 1e-60: raise Bad("tiny")
        if self.e > 1e-3 * (1 + abs(self.v)): raise Bad("imprecise")
def const(v): return Q(v)
def exact(q): return q.e == 0
def add(a, b):
    v = a.v + b.v
    return Q(v, a.e + b.e + (0 if a.v == 0 or b.v == 0 else U * (abs(a.v) + abs(b.v))))
def neg(a): return Q(-a.v, a.e)
def sub(a, b): return add(a, neg(b))
def mul(a, b): return Q(a.v * b.v, abs(a.v) * b.e + abs(b.v) * a.e + a.e * b.e + U * abs(a.v * b.v))
def div(a, b):
    if abs(b.v) <= 16 * b.e or b.v == 0: raise Bad("division by zero")
    v = a.v / b.v
    return Q(v, 2 * (a.e + abs(v) * b.e) / abs(b.v) + U * abs(v))
def isint(v): return v == mp.floor(v)
def pow_(a, b):
    if b.v == 0 and b.e == 0: return Q(1)
    if b.e == 0 and isint(b.v) and abs(b.v) < 1000:
        n = int(b.v)
        if a.v == 0:
            if a.e: raise Bad("zero to a power")
            if n < 0: raise Bad("pole")
            return Q(0)
        if n < 0 and abs(a.v) <= 16 * a.e: raise Bad("pole")
        v = a.v ** n
        return Q(v, abs(v) * (abs(n) * a.e / abs(a.v) * 2 + (abs(n) + 2) * U))
    if a.v <= 16 * a.e: raise Bad("power of a non-positive base")
    v = a.v ** b.v; l = abs(mp.log(a.v))
    return Q(v, abs(v) * (2 * abs(b.v) * a.e / a.v + 2 * l * b.e + U * (2 + l * abs(b.v))))
def sin(a): return Q(mp.sin(a.v), a.e + U * (1 if a.v else 0))
def cos(a): return Q(mp.cos(a.v), a.e + U)
def exp(a):
    if abs(a.v) > 120: raise Bad("range")
    v = mp.exp(a.v); return Q(v, v * (2 * a.e + U))
def log(a):
    if a.v <= 16 * a.e or a.v <= 0: raise Bad("log of a non-positive number")
    v = mp.log(a.v); return Q(v, 2 * a.e / a.v + U * (abs(v) + 1))
def abs_(a): return Q(abs(a.v), a.e)
UN = {"sin": sin, "cos": cos, "exp": exp, "log": log, "abs": abs_, "neg": neg}
BIN = {"+": add, "-": sub, "*": mul, "/": div, "pow": pow_}
def lit(n):
    if n[0] == "C": q = Q(mpf(n[1]) / n[2]); q.e = U * abs(q.v) if n[2] != 1 else mpf(0); return q
    return Q(n[1])
def is_leaf(n): return n[0] in ("C", "d", "i", "v")
def kids(n): return [c for c in n[1:] if isinstance(c, list)]
def ev(n, env):
    o = n[0]
    if o == "v":
        if n[1] not in env: raise Bad("unknown variable " + n[1])
        w = env[n[1]]; return w if isinstance(w, Q) else Q(w)
    if o in ("C", "d", "i"): return lit(n)
    if o == "poly":   # ["poly", var, c0, c1, ...]
        x = ev(["v", n[1]], env); s = ev(n[2], env); p = Q(1)
        for c in n[3:]:
            p = mul(p, x); s = add(s, mul(ev(c, env), p))
        return s
    if o in UN: return UN[o](ev(n[1], env))
    return BIN[o](ev(n[1], env), ev(n[2], env))
ZERO = Q(0)
def nz(q): return q.v != 0 or q.e != 0
def dual(n, x, env):
    """value and derivative with respect to x"""
    o = n[0]
    if o == "v": return ev(n, env), Q(1 if n[1] == x else 0)
    if is_leaf(n): return lit(n), ZERO
    a, da = dual(n[1], x, env)
    if o in UN:
        v = UN[o](a)
        if o == "abs" and abs(a.v) <= 16 * a.e: raise Bad("corner")
        if not nz(da): return v, ZERO
        if o == "neg": return v, neg(da)
        if o == "sin": return v, mul(da, cos(a))
        if o == "cos": return v, neg(mul(da, sin(a)))
        if o == "exp": return v, mul(da, v)
        if o == "log": return v, div(da, a)
        return v, div(mul(da, v), a)
    b, db = dual(n[2], x, env)
    if o == "+": return add(a, b), add(da, db)
    if o == "-": return sub(a, b), sub(da, db)
    if o == "*": return mul(a, b), add(mul(da, b), mul(a, db))
    if o == "/": return div(a, b), div(sub(mul(da, b), mul(a, db)), mul(b, b))
    v = pow_(a, b); t = ZERO
    # the exponent may have been rounded when one was subtracted from it
    if nz(da) and nz(b):
        if a.v == 0: raise Bad("power of zero")
        bm = sub(b, Q(1))
        t = mul(mul(b, da), pow_(a, bm))
        if not isint(b.v): t = Q(t.v, t.e + abs(t.v) * U * (1 + abs(b.v)) * abs(mp.log(abs(a.v))))
    elif nz(da) is False and n[2][0] not in ("C", "d", "i") and a.v == 0: raise Bad("power of zero")
    if nz(db):
        t = add(t, mul(mul(db, log(a)), v))
    return v, t
def variables(n): return {n[1]} if n[0] == "v" else set().union(*[variables(c) for c in kids(n)]) if kids(n) else set()
def ops(n): return 0 if is_leaf(n) else 1 + sum(ops(c) for c in kids(n))
def subst(n, m):
    if n[0] == "v": return m.get(n[1], n)
    return [n[0]] + [subst(c, m) if isinstance(c, list) else c for c in n[1:]]
def show(n):
    o = n[0]
    if o == "v": return n[1]
    if o == "C": return "C<%d%s>" % (n[1], ",%d" % n[2] if n[2] != 1 else "")
    if o in ("d", "i"): return repr(n[1])
    if o == "poly": return "poly(%s; %s)" % (n[1], ", ".join(show(c) for c in n[2:]))
    if o in UN: return "%s(%s)" % ("-" if o == "neg" else o, show(n[1]))
    if o == "pow": return "(%s)^(%s)" % (show(n[1]), show(n[2]))
    return "(%s %s %s)" % (show(n[1]), o, show(n[2]))
def close(got, q, extra=0, slack=16):
    if isinstance(got, Q): return abs(got.v - q.v) <= slack * (got.e + q.e + extra) + 4 * U * abs(q.v)
    if not isinstance(got, float) or math.isnan(got) or math.isinf(got): return False
    return abs(mpf(got) - q.v) <= slack * (q.e + extra) + 4 * U * abs(q.v)
# ---- C++ text
VARS = {"x": "vx", "y": "vy", "t": "vt"}
def cpp(n):
    o = n[0]
    if o == "v": return VARS[n[1]]
    if o == "C": return "sym::C<%d,%d>()" % (n[1], n[2]) if n[2] != 1 else "sym::C<%d>()" % n[1]
    if o == "d":
        s = repr(float(n[1])); return "(%s)" % s if s[0] == "-" else s
    if o == "i": return "(%d)" % n[1] if n[1] < 0 else "%d" % n[1]
    if o == "neg": return "(-%s)" % cpp(n[1])
    if o in UN: return "sym::%s(%s)" % (o, cpp(n[1]))
    if o == "pow": return "sym::pow(%s, %s)" % (cpp(n[1]), cpp(n[2]))
    return "(%s %s %s)" % (cpp(n[1]), o, cpp(n[2]))
# ---- reading the structure printed by gp::sx
def parse_sx(s):
    toks = s.replace("(", " ( ").replace(")", " ) ").split(); pos = [0]
    def node():
        t = toks[pos[0]]; pos[0] += 1
        if t == "(":
            out = []
            while toks[pos[0]] != ")": out.append(node())
            pos[0] += 1
            h = out[0]
            if h == "C": return ["C", int(out[1]), int(out[2])]
            if h == "d": return ["d", float("nan") if "nan" in out[1] else float("inf") if out[1] == "inf" else float("-inf") if out[1] == "-inf" else float.fromhex(out[1])]
            if h == "i": return ["i", int(out[1])]
            return out
        return t
    n = node()
    if pos[0] != len(toks): raise ValueError("trailing text in " + s)
    return n
SX = r'''
namespace gp {
  template <class Op> const char *opname() {
    namespace D = sym::detail;
    if constexpr (std::is_same<Op, D::Add>::value) return "+"; else if constexpr (std::is_same<Op, D::Subtract>::value) return "-"; else if constexpr (std::is_same<Op, D::Multiply>::value) return "*";
    else if constexpr (std::is_same<Op, D::Divide>::value) return "/"; else if constexpr (std::is_same<Op, D::Power>::value) return "pow"; else if constexpr (std::is_same<Op, D::Sine>::value) return "sin";
    else if constexpr (std::is_same<Op, D::Cosine>::value) return "cos"; else if constexpr (std::is_same<Op, D::Exp>::value) return "exp"; else if constexpr (std::is_same<Op, D::Log>::value) return "log";
    else if constexpr (std::is_same<Op, D::Absolute>::value) return "abs"; else if constexpr (std::is_same<Op, D::Negate>::value) return "neg"; else if constexpr (std::is_same<Op, D::Arbsign>::value) return "arb"; else return "other";
  }
  inline std::string sx(double v) { char b[64]; std::snprintf(b, sizeof b, "(d %a)", v); return b; }
  inline std::string sx(float v) { return sx(double(v)); }
  template <class T, typename = typename std::enable_if<std::is_integral<T>::value>::type> std::string sx(T v) { return "(i " + std::to_string((long long)v) + ")"; }
  template <std::intmax_t N, std::intmax_t D> std::string sx(const sym::C<N, D> &) { return "(C " + std::to_string(N) + " " + std::to_string(D) + ")"; }
  template <auto N, class... A> std::string sx(const sym::Var<N, A...> &v) { return "(v " + std::string(v.getName()) + ")"; }
  template <size_t O, class T, class V> std::string sx(const sym::Polynomial<O, T, V> &p);
  template <class L, class Op, class R> std::string sx(const sym::BinaryOp<L, Op, R> &b);
  template <class A, class Op> std::string sx(const sym::UnaryOp<A, Op> &u) { return std::string("(") + opname<Op>() + " " + sx(u._arg) + ")"; }
  template <class L, class Op, class R> std::string sx(const sym::BinaryOp<L, Op, R> &b) { return std::string("(") + opname<Op>() + " " + sx(b._l) + " " + sx(b._r) + ")"; }
  template <size_t O, class T, class V> std::string sx(const sym::Polynomial<O, T, V> &p) { std::string s = "(poly " + std::string(V::getName()); for (size_t i = 0; i <= O; ++i) s += " " + sx(p[i]); return s + ")"; }
  template <class T> void shape(int k, const char *t, const T &v) { str(k, t, sx(v)); }
}
namespace {
  constexpr char y_name[] = "y"; constexpr char t_name[] = "t";
  [[maybe_unused]] sym::Var<> vx; [[maybe_unused]] sym::Var<y_name> vy; [[maybe_unused]] sym::Var<t_name> vt;
}
'''
