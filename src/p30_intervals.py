"""P30: substituting an interval for a variable encloses the values of the expression on it."""
import json, math, sys
import genprog, numref as nr
from genprog import Family
from numref import Q, Bad, show, cpp, ops, variables, mpf

def lit(rng): return ["d", rng.choice([0.5, 1.5, -0.75, 2.25, 3.0, -1.0, 0.1, 2.0, 1.0, -2.0, 0.0])]
def expr(rng, depth):
    if depth == 0 or rng.random() < 0.12: return ["v", "x" if rng.random() < 0.85 else "y"]
    r = rng.random()
    if r < 0.7:
        o = rng.choice("++--***//"); m = rng.random()
        if m < 0.45: return [o, expr(rng, depth - 1), expr(rng, depth - 1)]
        if m < 0.75:
            l = lit(rng)
            return [o, expr(rng, depth - 1), l if o != "/" or l[1] else ["d", 4.0]]
        return [o, lit(rng), expr(rng, depth - 1)]
    if r < 0.85: return ["pow", expr(rng, depth - 1), rng.choice([["C", rng.choice([2, 3, 1, 4, -1, -2]), 1], ["i", rng.choice([2, 3, 1, -1, 4, 5])]])]
    return [rng.choice(["neg", "abs"]), expr(rng, depth - 1)]
def natural(n, env):
    """the natural interval extension, powers being products, with a bound on the roundings: (lo, hi, tolerance)"""
    o = n[0]
    if o == "v": a, b = env[n[1]]; return mpf(a), mpf(b), mpf(0)
    if o == "d": return mpf(n[1]), mpf(n[1]), mpf(0)
    u = nr.U * 4
    def mul(p, q):
        c = [p[0] * q[0], p[0] * q[1], p[1] * q[0], p[1] * q[1]]; m = max(abs(p[0]), abs(p[1])); k = max(abs(q[0]), abs(q[1]))
        return min(c), max(c), m * q[2] + k * p[2] + p[2] * q[2] + u * m * k
    def inv(p):
        if p[0] - p[2] <= 0 <= p[1] + p[2]: raise Bad("zero in the divisor")
        m = min(abs(p[0]), abs(p[1]))
        if m < mpf(2) ** -20 or m < 1000 * p[2]: raise Bad("divisor near zero")
        return 1 / p[1], 1 / p[0], 2 * p[2] / (m * m) + u / m
    a = natural(n[1], env)
    if max(abs(a[0]), abs(a[1])) > 1e12: raise Bad("range")
    if o == "neg": return -a[1], -a[0], a[2]
    if o == "abs":
        if a[0] >= 0: return a
        if a[1] <= 0: return -a[1], -a[0], a[2]
        return mpf(0), max(-a[0], a[1]), a[2]
    if o == "pow":
        k = n[2][1]; r = (mpf(1), mpf(1), mpf(0))
        for _ in range(abs(k)): r = mul(r, a)
        if max(abs(r[0]), abs(r[1])) > 1e12: raise Bad("range")
        if k >= 0: return r
        if a[0] - a[2] <= 0 <= a[1] + a[2]: raise Bad("zero in the divisor")
        return inv(r)
    b = natural(n[2], env)
    if o == "+": r = (a[0] + b[0], a[1] + b[1])
    elif o == "-": r = (a[0] - b[1], a[1] - b[0])
    elif o == "*": return mul(a, b)
    else: return mul(a, inv(b))
    return r[0], r[1], a[2] + b[2] + u * max(abs(r[0]), abs(r[1]), abs(a[0]), abs(a[1]))
def symbolic_ok(n): return nr.is_leaf(n) or (bool(variables(n)) and all(symbolic_ok(c) for c in nr.kids(n)))
ENDS = [-3.0, -2.5, -1.0, -0.5, -0.1, 0.0, 0.1, 0.25, 0.7, 1.0, 1.5, 2.0, 3.3, 10.0]

class Intervals(Family):
    name = "intervals"; per_unit = 15; quick = 1200; thorough = 16000
    prelude = "#include <stator/symbolic/interval.hpp>\n#include <boost/numeric/interval.hpp>\n" + nr.SX + r'''
namespace iv { template <class T> void out(int k, const char *t, const T &v) { gp::num(k, (std::string(t) + "lo").c_str(), v.lower()); gp::num(k, (std::string(t) + "hi").c_str(), v.upper()); gp::str(k, (std::string(t) + "repr").c_str(), sym::repr(v)); } }
'''
    rule = "A case is non-trivial when its expression has at least two operations and the interval is not a point."
    def gen(self, rng):
        while True:
            n = expr(rng, rng.choice([1, 2, 2, 3, 3, 4]))
            if not symbolic_ok(n) or ops(n) == 0 or ops(n) > 12 or "x" not in variables(n): continue
            for _ in range(10):
                a, b = rng.choice(ENDS), rng.choice(ENDS)
                if rng.random() < 0.3: a = rng.uniform(-4, 4); b = a + rng.choice([0.001, 0.1, 1.0, rng.uniform(0, 5)])
                if a > b: a, b = b, a
                c = {"e": n, "lo": a, "hi": b, "y": rng.choice([2.0, -1.5, 0.5, 3.0]), "at": [0.0, 1.0, 0.5] + [rng.random() for _ in range(5)]}
                if self.good(c): return c
    def good(self, c):
        try: natural(c["e"], {"x": (c["lo"], c["hi"]), "y": (c["y"], c["y"])}); return True
        except (Bad, OverflowError): return False
    def describe(self, c): return "%s with x=[%r, %r]%s" % (show(c["e"]), c["lo"], c["hi"], ", y=%r" % c["y"] if "y" in variables(c["e"]) else "")
    def code(self, c, k):
        f = "sym::sub(f, vy = %r)" % c["y"] if "y" in variables(c["e"]) else "f"
        # under the default rounding mode of every case
        return "sym::interval<double> I(%r, %r); auto f = %s; auto r = sym::sub(%s, vx = I); iv::out(k, \"\", r);" % (c["lo"], c["hi"], cpp(c["e"]), f)
    def judge(self, c, r):
        n = c["e"]; lo, hi = r.get("lo"), r.get("hi")
        if not isinstance(lo, float) or not isinstance(hi, float): return "no interval: %s" % r, False, [], None
        if not lo <= hi: return "the result is [%r, %r]" % (lo, hi), False, [], None
        judged = 0
        for t in c["at"]:
            x = c["lo"] + t * (c["hi"] - c["lo"]) if t != 1.0 else c["hi"]
            if not c["lo"] <= x <= c["hi"]: continue
            try: v = nr.ev(n, {"x": x, "y": c["y"]})
            except Bad: continue
            judged += 1
            if not (lo <= v.v + 2 * v.e and v.v - 2 * v.e <= hi): return "the result [%r, %r] does not contain the value %s at x=%r" % (lo, hi, nr.mp.nstr(v.v, 17), x), False, [], None
        a, b, tol = natural(n, {"x": (c["lo"], c["hi"]), "y": (c["y"], c["y"])})
        if lo < a - 16 * tol or hi > b + 16 * tol: return "the result [%r, %r] is wider than interval arithmetic gives, [%s, %s]" % (lo, hi, nr.mp.nstr(a, 17), nr.mp.nstr(b, 17)), False, [], None
        s = str(r.get("repr")); p = s.split("...")
        try: q = [float(z) for z in p]
        except ValueError: q = []
        if len(q) != 2 or abs(q[0] - lo) > 1e-14 * abs(lo) or abs(q[1] - hi) > 1e-14 * abs(hi): return "[%r, %r] is printed as %s" % (lo, hi, s), False, [], None
        return None, judged > 2 and ops(n) >= 2 and c["lo"] < c["hi"], ["around zero" if c["lo"] < 0 < c["hi"] else "one sign"] + (["two variables"] if "y" in variables(n) else []), None
    def shrinks(self, c):
        out = []
        def go(n):
            if nr.is_leaf(n): return [["v", "x"]] if n == ["v", "y"] else [["d", 2.0]] if n[0] == "d" and n[1] != 2.0 else []
            o = [k for k in nr.kids(n) if not nr.is_leaf(k) or k[0] == "v"]
            for i in range(1, len(n)):
                if isinstance(n[i], list):
                    for s in go(n[i]): o.append(n[:i] + [s] + n[i + 1:])
            return o
        def ok(n): return nr.is_leaf(n) or ((n[0] != "pow" or n[2][0] in "Ci") and all(ok(k) for k in nr.kids(n)))
        for s in go(c["e"]):
            d = dict(c, e=s)
            if s != c["e"] and ok(s) and symbolic_ok(s) and ops(s) and "x" in variables(s) and self.good(d): out.append(d)
        for a, b in ((1.0, 2.0), (-1.0, 2.0), (-2.0, -1.0), (round(c["lo"]), round(c["hi"]))):
            d = dict(c, lo=float(a), hi=float(b))
            if (a, b) != (c["lo"], c["hi"]) and self.good(d): out.append(d)
        return out

if __name__ == "__main__": sys.exit(genprog.main([Intervals()]))
