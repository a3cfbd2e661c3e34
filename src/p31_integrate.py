"""P31: symbolic integrals are antiderivatives."""
import json, sys
import genprog, numref as nr
from genprog import Family
from numref import Q, Bad, show, cpp, ops, variables

POOL = [0.5, 1.25, 2.0, -0.75, 3.0, -1.5, 2.75, 0.1]
def other(v): return "y" if v == "x" else "x"
def constant(rng, v, depth=2):
    """an expression which does not contain v"""
    w = ["v", rng.choice([other(v), other(v), "t"])]; r = rng.random()
    if depth == 0 or r < 0.35: return rng.choice([w, w, ["C", rng.choice([1, 2, 3, -1, -2, 5]), 1], ["C", rng.choice([1, -3, 5]), rng.choice([2, 4])], ["d", rng.choice([0.5, -1.5, 2.25, 3.0])], ["i", rng.choice([2, -3, 1, 7])]])
    if r < 0.6: return [rng.choice("+-*"), constant(rng, v, depth - 1), w]
    if r < 0.68: return ["/", w, ["C", rng.choice([3, 2, -5]), 1]]
    if r < 0.76: return [rng.choice(["sin", "cos", "exp"]), ["*", ["d", rng.choice([0.5, 1.5])], w]]
    if r < 0.80: return ["pow", w, rng.choice([["d", 2.5], ["i", 2], ["v", "t"]])]
    if r < 0.90: return [rng.choice(["sin", "cos", "exp", "neg"]), w]
    return ["pow", w, ["C", rng.choice([2, 3, -1]), 1]]
def term(rng, v):
    r = rng.random()
    if r < 0.25: return ["v", v]
    if r < 0.6: return ["pow", ["v", v], ["C", rng.choice([2, 3, 4, 5, 1, 7, -2, -3, -4, 0, 6, 9]), 1]]
    return constant(rng, v)
def integrand(rng, v, depth):
    if depth == 0 or rng.random() < 0.15: return term(rng, v)
    return [rng.choice("+-"), integrand(rng, v, depth - 1), integrand(rng, v, depth - 1)]
def anti(n, v, env):
    """the value of the antiderivative whose every term vanishes at zero, or has no constant"""
    if v not in variables(n): return nr.mul(nr.ev(n, env), nr.ev(["v", v], env))
    if n[0] == "v": return nr.mul(Q(0.5), nr.pow_(nr.ev(n, env), Q(2)))
    if n[0] == "pow": k = n[2][1] + 1; return nr.div(nr.pow_(nr.ev(n[1], env), Q(k)), Q(k))
    return nr.BIN[n[0]](anti(n[1], v, env), anti(n[2], v, env))
def symbolic_ok(n, v):
    """every operation involves a variable, so that no operator is plain C++ arithmetic"""
    if nr.is_leaf(n): return True
    return bool(variables(n)) and all(symbolic_ok(c, v) for c in nr.kids(n))

class Integrate(Family):
    name = "integrals"; per_unit = 20; quick = 1200; thorough = 20000; prelude = nr.SX
    rule = "A case is non-trivial when the integrand has at least one sum or difference, or is a power."
    def gen(self, rng):
        while True:
            v = rng.choice(["x", "x", "y"])
            n = integrand(rng, v, rng.choice([0, 0, 1, 1, 2, 2, 3]))
            if not symbolic_ok(n, v): continue
            pts = []
            for _ in range(20):
                e = {k: rng.choice(POOL) for k in "xyt"}
                try: anti(n, v, e); nr.ev(n, e)
                except Bad: continue
                pts.append(e)
                if len(pts) == 3: return {"e": n, "v": v, "pts": pts}
    def describe(self, c): return "the integral of %s by %s" % (show(c["e"]), c["v"])
    def key(self, c): return json.dumps([c["e"], c["v"]])
    def code(self, c, k):
        return "auto f = %s; auto F = sym::integrate(f, v%s); gp::shape(k, \"F\", F); gp::shape(k, \"dF\", sym::derivative(F, v%s)); gp::shape(k, \"f\", f);" % (cpp(c["e"]), c["v"], c["v"])
    def judge(self, c, r):
        judged = 0; n, v = c["e"], c["v"]
        for env in c["pts"]:
            for tag, want in (("f", nr.ev(n, env)), ("F", anti(n, v, env)), ("dF", nr.ev(n, env))):
                if not isinstance(r.get(tag), str): return "%s is missing" % tag, False, [], None
                try: g = nr.ev(nr.parse_sx(r[tag]), env)
                except Bad: continue
                judged += 1
                if not nr.close(g, want): return "%s is %s with the value %s at %s, expected %s" % (tag, show(nr.parse_sx(r[tag])), nr.mp.nstr(g.v, 17), env, nr.mp.nstr(want.v, 17)), False, [], None
        return None, judged >= 3 and (n[0] in "+-" or n[0] == "pow"), ["power" if n[0] == "pow" else "sum" if n[0] in "+-" else "variable" if n == ["v", v] else "constant"], None
    def shrinks(self, c):
        out = []
        def go(n):
            o = []
            if n[0] in "+-" : o += [n[1], n[2]]
            if nr.is_leaf(n): return [["v", c["v"]]] if n != ["v", c["v"]] else []
            for i in range(1, len(n)):
                if isinstance(n[i], list):
                    for s in go(n[i]): o.append(n[:i] + [s] + n[i + 1:])
            if c["v"] not in variables(n): o += [["v", other(c["v"])], ["C", 2, 1]]
            return o
        for s in go(c["e"]):
            if not symbolic_ok(s, c["v"]) or (s[0] == "pow" and c["v"] in variables(s) and (s[1] != ["v", c["v"]] or s[2][0] != "C")) or s == c["e"]: continue
            try:
                for e in c["pts"]: anti(s, c["v"], e); nr.ev(s, e)
            except (Bad, IndexError, KeyError, TypeError): continue
            out.append(dict(c, e=s))
        return out

if __name__ == "__main__": sys.exit(genprog.main([Integrate()]))
