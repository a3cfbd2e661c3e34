"""P25: compile-time rational constants are exact."""
import json, math
from fractions import Fraction as F
import genprog
from genprog import Family

LIM = 2 ** 31
class TooBig(Exception): pass

# ---- rational expressions: ["c", n, d] ["+", a, b] ["neg", a] ["abs", a] ["pow", a, k] ["fact", n] ["ifact", n]
def value(t):
    o = t[0]
    if o == "c": v = F(t[1], t[2])
    elif o == "fact": v = F(math.factorial(t[1]))
    elif o == "ifact": v = F(1, math.factorial(t[1]))
    elif o == "neg": v = -value(t[1])
    elif o == "pos": v = value(t[1])
    elif o == "abs": v = abs(value(t[1]))
    elif o == "pow": v = value(t[1]) ** t[2]   # ZeroDivisionError for 0^-k
    else:
        a, b = value(t[1]), value(t[2])
        v = a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a / b
    if abs(v.numerator) >= LIM or v.denominator >= LIM: raise TooBig()
    return v
# literals are reduced with a positive denominator unless written otherwise on purpose
def reduced(t):
    if t[0] == "c": return t[2] > 0 and math.gcd(t[1], t[2]) == 1
    return all(reduced(c) for c in t[1:] if isinstance(c, list))
# the type is canonical when every literal is, or when an arithmetic operation made it
def canonical(t):
    if t[0] in "+-*/": return True
    if t[0] == "c": return reduced(t)
    if t[0] in ("fact", "ifact"): return True
    if t[0] == "pow" and (t[2] > 1 or t[2] < 0 or t[2] == 0): return True
    return canonical(t[1])
def text(t):
    o = t[0]
    if o == "c": return "sym::C<%d,%d>()" % (t[1], t[2]) if t[2] != 1 else ["sym::Null()", "sym::Unity()"][t[1]] if t[1] in (0, 1) else "sym::C<%d>()" % t[1]
    if o == "fact": return "sym::Factorial<%d>::value()" % t[1]
    if o == "ifact": return "sym::InvFactorial<%d>::value()" % t[1]
    if o == "neg": return "(-%s)" % text(t[1])
    if o == "pos": return "(+%s)" % text(t[1])
    if o == "abs": return "sym::abs(%s)" % text(t[1])
    if o == "pow": return "sym::pow(%s, sym::C<%d>())" % (text(t[1]), t[2])
    return "(%s %s %s)" % (text(t[1]), o, text(t[2]))
def count(t): return 1 + sum(count(c) for c in t[1:] if isinstance(c, list)) if t[0] not in ("c", "fact", "ifact") else 0
def leaf(rng, odd=False):
    r = rng.random()
    if r < 0.06: return ["fact", rng.randint(0, 12)]
    if r < 0.12: return ["ifact", rng.randint(0, 12)]
    big = rng.random() < 0.12
    n = rng.randint(-99999, 99999) if big else rng.choice([0, 1, -1, 2, -2, 3, 4, 5, 6, -7, 10, 12, rng.randint(-30, 30)])
    d = 1 if rng.random() < 0.3 else (rng.randint(1, 99999) if big else rng.choice([2, 3, 4, 5, 6, 8, 10, 12, rng.randint(1, 30)]))
    f = F(n, d); n, d = f.numerator, f.denominator
    if odd and rng.random() < 0.25:
        m = rng.choice([2, 3, -1, -2]); n, d = n * m, d * m
    return ["c", n, d]
def tree(rng, depth, odd):
    if depth == 0 or rng.random() < 0.12: return leaf(rng, odd)
    r = rng.random()
    if r < 0.08: return ["neg", tree(rng, depth - 1, odd)]
    if r < 0.10: return ["pos", tree(rng, depth - 1, odd)]
    if r < 0.17: return ["abs", tree(rng, depth - 1, odd)]
    if r < 0.28: return ["pow", tree(rng, depth - 1, odd), rng.choice([-4, -3, -2, -1, 0, 1, 2, 3, 4, 5])]
    return [rng.choice("+-*/+-*/"), tree(rng, depth - 1, odd), tree(rng, depth - 1, odd)]
def valid(t):
    try: value(t); return True
    except (TooBig, ZeroDivisionError, OverflowError): return False
def sub_shrinks(t):
    if t[0] in ("fact", "ifact"):
        return [[t[0], t[1] - 1]] if t[1] else [["c", 1, 1]]
    if t[0] == "c":
        out = [["c", 0, 1], ["c", 1, 1], ["c", t[1], 1], ["c", t[1] // 2, t[2]], ["c", t[1], (abs(t[2]) + 1) // 2 * (1 if t[2] > 0 else -1)], ["c", -t[1], t[2]] if t[1] < 0 else None]
        f = F(t[1], t[2]); out.append(["c", f.numerator, f.denominator])
        return [o for o in out if o and o != t and abs(o[1]) + abs(o[2]) <= abs(t[1]) + abs(t[2]) and (abs(o[1]) + abs(o[2]) < abs(t[1]) + abs(t[2]) or t[1] < 0)]
    out = [c for c in t[1:] if isinstance(c, list)]
    for i in range(1, len(t)):
        if isinstance(t[i], list):
            for s in sub_shrinks(t[i]): u = list(t); u[i] = s; out.append(u)
    if t[0] == "pow":
        for k in (t[2] - 1, t[2] + 1):
            if abs(k) < abs(t[2]): out.append(["pow", t[1], k])
    return out
def nearest(f): return f.numerator / f.denominator   # true division of integers rounds correctly

PRELUDE = r'''
namespace p25 {
  template <class T> struct parts { static constexpr bool is = false; static constexpr std::intmax_t n = 0, d = 0; };
  template <std::intmax_t N, std::intmax_t D> struct parts<sym::C<N, D> > { static constexpr bool is = true; static constexpr std::intmax_t n = N, d = D; };
  template <class T> void rational(int k, const char *t, const T &) {
    if (!parts<T>::is) gp::str(k, t, "not a constant"); else gp::str(k, t, std::to_string(parts<T>::n) + "/" + std::to_string(parts<T>::d));
  }
}
'''

class Rationals(Family):
    name = "rationals"; per_unit = 25; quick = 1400; thorough = 24000; prelude = PRELUDE
    rule = "A rational case is non-trivial when it has at least two operations and the value is neither 0 nor 1."
    def gen(self, rng):
        while True:
            odd = rng.random() < 0.2
            t = tree(rng, rng.randint(1, 4), odd)
            if not valid(t) or count(t) == 0: continue
            v = value(t)
            # another expression to compare with: the same value in another form, or a nearby one
            r = rng.random()
            if r < 0.35:
                a = leaf(rng); b = ["-", t, a]; u = ["+", b, a]
                if not valid(u): continue
            elif r < 0.5: u = ["c", v.numerator * 3, v.denominator * 3]
            elif r < 0.75: u = ["+", t, ["c", 1, rng.randint(1, 50)]]
            elif r < 0.85: u = ["c", v.denominator, v.numerator] if v else ["c", 1, 1]
            elif r < 0.9: u = ["neg", t]
            else: u = tree(rng, 1, odd)
            if valid(u): break
        return {"t": t, "u": u, "x": rng.choice([0.5, -1.25, 3.0, 1e10, 7.0])}
    def key(self, c): return json.dumps([c["t"], c["u"]])
    def describe(self, c): return "%s vs %s" % (text(c["t"]), text(c["u"]))
    def code(self, c, k):
        v = value(c["t"])
        s = "auto v = %s; auto u = %s; p25::rational(k, \"type\", v); gp::num(k, \"double\", double(v)); gp::num(k, \"eq\", v == u); gp::num(k, \"eq2\", u == v); gp::num(k, \"eqself\", v == sym::C<%d,%d>());" % (text(c["t"]), text(c["u"]), v.numerator, v.denominator)
        s += "gp::str(k, \"repr\", sym::repr(v)); gp::num(k, \"simp\", double(sym::try_simplify(v))); gp::num(k, \"N\", double(sym::N(v))); gp::num(k, \"sub\", double(sym::sub(v, sym::Var<>() = 2.0))); p25::rational(k, \"deriv\", sym::derivative(v, sym::Var<>()));"
        s += "gp::num(k, \"arith\", double(sym::toArithmetic(v)));"
        x = repr(c["x"])
        s += "gp::num(k, \"m+\", double(v + %s)); gp::num(k, \"m+r\", double(%s + v)); gp::num(k, \"m-\", double(v - %s)); gp::num(k, \"m-r\", double(%s - v)); gp::num(k, \"m*\", double(v * %s)); gp::num(k, \"m*r\", double(%s * v));" % ((x,) * 6)
        s += "gp::num(k, \"m/\", double(v / %s)); " % x
        if v: s += "gp::num(k, \"m/r\", double(%s / v));" % x
        return s
    def judge(self, c, r):
        v, u = value(c["t"]), value(c["u"]); n, d = v.numerator, v.denominator
        m = None
        nt = count(c["t"]) >= 2 and v not in (0, 1)
        labels = ["equal" if u == v else "different", "canonical" if canonical(c["t"]) else "unreduced"]
        def bad(t): return "%s: %r for the rational %s" % (t, r.get(t), v)
        got = str(r.get("type", ""))
        try: gn, gd = [int(p) for p in got.split("/")]
        except ValueError: return bad("type"), nt, labels, None
        if gd == 0 or F(gn, gd) != v: return bad("type"), nt, labels, None
        if canonical(c["t"]) and (gn, gd) != (n, d): return bad("type") + " (not in lowest terms)", nt, labels, None
        want = nearest(F(gn, gd))
        for t in ("double", "simp", "N", "sub", "arith"):
            if r.get(t) != want: return bad(t), nt, labels, None
        if r.get("eq") != float(u == v): return bad("eq"), nt, labels, None
        if r.get("eq2") != float(u == v): return bad("eq2"), nt, labels, None
        if r.get("eqself") != 1: return bad("eqself"), nt, labels, None
        if r.get("deriv") != "0/1": return bad("deriv"), nt, labels, None
        try: p = str(r["repr"]).strip("()").split("/"); pv = F(int(p[0]), int(p[1]) if len(p) > 1 else 1)
        except ValueError: return bad("repr"), nt, labels, None
        if pv != v: return bad("repr"), nt, labels, None
        x = F(c["x"])
        for t, e in (("m+", v + x), ("m+r", v + x), ("m-", v - x), ("m-r", x - v), ("m*", v * x), ("m*r", v * x), ("m/", v / x), ("m/r", x / v if v else None)):
            if e is None: continue
            g = r.get(t)
            # the constant and the result are each rounded once
            if g is None or math.isnan(g) or math.isinf(g) or abs(F(g) - e) > (abs(v) + abs(x) + abs(e)) / 2 ** 51: return bad(t) + " with %r" % c["x"], nt, labels, None
        return None, nt, labels, None
    def shrinks(self, c):
        out = []
        for s in sub_shrinks(c["t"]):
            if not valid(s): continue
            for u in ([c["u"]] if value(c["u"]) != value(c["t"]) else []) + [s, ["c", value(s).numerator, value(s).denominator]]: out.append({"t": s, "u": u, "x": c["x"]})
        for s in sub_shrinks(c["u"]):
            if valid(s): out.append({"t": c["t"], "u": s, "x": c["x"]})
        return out

class Convert(Rationals):
    name = "conversion"; runtime = True; per_unit = 60; quick = 360; thorough = 3600
    rule = "A conversion case is non-trivial by the same rule."
    def code(self, c, k):
        s = "auto v = %s; gp::rt(k, \"rt\", sym::Expr(v), {}); gp::parsed(k, \"parsed\", sym::repr(v), {}); gp::rtsimplified(k, \"rts\", sym::Expr(v), {}); " % text(c["t"])
        x = repr(c["x"])
        return s + "sym::Expr q(\"q\"); gp::rt(k, \"+\", sym::Expr(v + q), {{\"q\", %s}}); gp::rt(k, \"-\", sym::Expr(q - v), {{\"q\", %s}}); gp::rt(k, \"*\", sym::Expr(q * v), {{\"q\", %s}});" % (x, x, x)
    def judge(self, c, r):
        v = value(c["t"]); x = F(c["x"]); nt = count(c["t"]) >= 2 and v not in (0, 1)
        want = nearest(v)
        for t in ("rt", "parsed", "rts"):
            g = r.get(t)
            if not isinstance(g, float) or abs(g - want) > abs(want) * 2 ** -52: return "%s: %r for the rational %s" % (t, g, v), nt, [], None
        for t, e in (("+", v + x), ("-", x - v), ("*", v * x)):
            g = r.get(t)
            if not isinstance(g, float) or math.isnan(g) or math.isinf(g) or abs(F(g) - e) > (abs(v) + abs(x) + abs(e)) / 2 ** 51: return "%s with %r: %r for the rational %s" % (t, c["x"], g, v), nt, [], None
        return None, nt, [], None

class Trig(Family):
    name = "trigonometry"; per_unit = 25; quick = 300; thorough = 4000
    rule = "A trigonometric case is non-trivial when the multiple of pi is not an integer or comes from an operation."
    def gen(self, rng):
        # a multiple of pi, written as a rational expression times pi() or as a sum of multiples
        while True:
            kind = rng.choice(["half", "half", "whole", "other", "plain"])
            if kind == "half": k = F(rng.randrange(-41, 42, 2), 2)
            elif kind == "whole": k = F(rng.randint(-20, 20))
            else: k = F(rng.randint(-30, 30), rng.choice([3, 4, 5, 6, 8]))
            if kind == "other" and k.denominator <= 2: continue
            how = rng.choice(["left", "right", "divide", "sum", "neg", "minus"])
            return {"kind": kind, "n": k.numerator, "d": k.denominator, "how": how, "m": rng.randint(-6, 6)}
    def angle(self, c):
        n, d, m = c["n"], c["d"], c["m"]
        if c["kind"] == "plain": return "sym::C<%d,%d>()" % (n, d)
        return {"left": "sym::C<%d,%d>() * sym::pi()" % (n, d), "right": "sym::pi() * sym::C<%d,%d>()" % (n, d), "divide": "sym::C<%d>() * sym::pi() / sym::C<%d>()" % (n, d),
                "sum": "(sym::C<%d,%d>() * sym::pi() + sym::C<%d>() * sym::pi())" % (n - m * d, d, m), "neg": "-(sym::C<%d,%d>() * sym::pi())" % (-n, d), "minus": "(sym::C<%d>() * sym::pi() - sym::C<%d,%d>() * sym::pi())" % (m, m * d - n, d)}[c["how"]]
    def describe(self, c): return "sin and cos of " + self.angle(c)
    def code(self, c, k):
        return "auto a = %s; gp::num(k, \"angle\", double(a)); auto s = sin(a); auto c = cos(a); gp::out(k, \"sin\", s); gp::out(k, \"cos\", c); p25::rational(k, \"tsin\", s); p25::rational(k, \"tcos\", c); gp::out(k, \"fsin\", sym::sub(sin(sym::Var<>()), sym::Var<>() = a)); gp::out(k, \"fcos\", sym::sub(cos(sym::Var<>()), sym::Var<>() = a));" % self.angle(c)
    def judge(self, c, r):
        k = F(c["n"], c["d"])
        nt = k.denominator > 1 or c["how"] not in ("left", "right"); labels = [c["kind"]]
        if c["kind"] == "plain" or k.denominator > 2:
            a = r.get("angle")
            true = float(k) * (1 if c["kind"] == "plain" else math.pi)
            if not isinstance(a, float) or abs(a - true) > 1e-12 * (1 + abs(true)): return "angle %r, expected %r" % (a, true), nt, labels, None
            for t, e in (("sin", math.sin(true)), ("cos", math.cos(true)), ("fsin", math.sin(true)), ("fcos", math.cos(true))):
                g = r.get(t)
                if k == 0: continue   # sin(0) and cos(0) are judged below
                if not isinstance(g, float) or not abs(g - e) <= 1e-12 * (1 + abs(true)): return "%s is %r, expected %r" % (t, g, e), nt, labels, None
            if k: return None, nt, labels, None
        h = k * 2
        s = [0, 1, 0, -1][int(h) % 4]; co = [1, 0, -1, 0][int(h) % 4]
        known = None; m = None
        for t, e in (("sin", s), ("fsin", s), ("cos", co), ("fcos", co)):
            g = r.get(t)
            if g != e:
                # the existing tests require the cosine of pi to be +1
                if "cos" in t and co == -1 and g == 1.0 and k.denominator == 1: known = "cos-odd-pi"; m = m or "%s is %r, expected %r" % (t, g, e); continue
                return "%s is %r, expected %r" % (t, g, e), nt, labels, None
        for t, e in (("tsin", s), ("tcos", co)):
            if r.get(t) != "%d/1" % e and not (t == "tcos" and known): return "%s is %r, expected the exact %d" % (t, r.get(t), e), nt, labels, None
        return m, nt, labels, known
    def shrinks(self, c):
        out = []
        for n in (c["n"] // 2, c["n"] - 2 * c["d"], c["n"] + 2 * c["d"]):
            if abs(n) < abs(c["n"]): f = F(n, c["d"]); out.append(dict(c, n=f.numerator, d=f.denominator))
        if c["how"] != "left": out.append(dict(c, how="left"))
        if c["m"]: out.append(dict(c, m=0))
        return out

if __name__ == "__main__":
    import sys
    sys.exit(genprog.main([Rationals(), Convert(), Trig()]))
