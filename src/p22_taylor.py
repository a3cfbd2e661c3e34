"""P22: Taylor expansion and conversion to polynomials."""
import json, math, sys
import genprog, numref as nr, p13_programs as p13
from genprog import Family
from mpmath import mpf, mp
from numref import Q, Bad, show, ops, variables

# ---- exact truncated power series in t, for x = a + t
def jet(n, x, N):
    """coefficients 0..N of n where the variable x is the series x"""
    o = n[0]; Z = mpf(0)
    if o == "v": return x
    if o == "poly":
        s = [mpf(0)] * (N + 1); p = [mpf(1)] + [Z] * N
        for c in n[2:]:
            w = jet(c, x, N)[0]; s = [u + w * v for u, v in zip(s, p)]; p = jmul(p, x)
        return s
    if nr.is_leaf(n): return [mpf(n[1]) / n[2] if o == "C" else mpf(n[1])] + [Z] * N
    a = jet(n[1], x, N)
    if o == "neg": return [-u for u in a]
    if o in ("sin", "cos"): s, c = jsincos(a); return s if o == "sin" else c
    if o == "exp": return jexp(a)
    if o == "log": return jlog(a)
    if o == "abs":
        if a[0] == 0: raise Bad("corner")
        return a if a[0] > 0 else [-u for u in a]
    b = jet(n[2], x, N)
    if o == "+": return [u + v for u, v in zip(a, b)]
    if o == "-": return [u - v for u, v in zip(a, b)]
    if o == "*": return jmul(a, b)
    if o == "/": return jdiv(a, b)
    if not any(b[1:]) and nr.isint(b[0]) and abs(b[0]) < 50:
        k = int(b[0])
        # numerical derivatives of a power of zero are 0*inf unless the exponent is symbolic
        if a[0] == 0 and n[2][0] != "C" and N: raise Bad("power of zero")
        r = [mpf(1)] + [Z] * N
        for _ in range(abs(k)): r = jmul(r, a)
        return r if k >= 0 else jdiv([mpf(1)] + [Z] * N, r)
    if a[0] <= 0: raise Bad("power")
    return jexp(jmul(b, jlog(a)))
def jmul(a, b): return [sum((a[j] * b[i - j] for j in range(i + 1)), mpf(0)) for i in range(len(a))]
def jdiv(a, b):
    if b[0] == 0: raise Bad("pole")
    r = []
    for i in range(len(a)): r.append((a[i] - sum((r[j] * b[i - j] for j in range(i)), mpf(0))) / b[0])
    return r
def jexp(a):
    if abs(a[0]) > 100: raise Bad("range")
    r = [mp.exp(a[0])]
    for i in range(1, len(a)): r.append(sum((j * a[j] * r[i - j] for j in range(1, i + 1)), mpf(0)) / i)
    return r
def jlog(a):
    if a[0] <= 0: raise Bad("log")
    r = [mp.log(a[0])]
    for i in range(1, len(a)): r.append((a[i] - sum((j * r[j] * a[i - j] for j in range(1, i)), mpf(0)) / i) / a[0])
    return r
def jsincos(a):
    s, c = [mp.sin(a[0])], [mp.cos(a[0])]
    for i in range(1, len(a)):
        s.append(sum((j * a[j] * c[i - j] for j in range(1, i + 1)), mpf(0)) / i)
        c.append(-sum((j * a[j] * s[i - j] for j in range(1, i + 1)), mpf(0)) / i)
    return s, c
# ---- polynomials in t with error bounds, read from the structure of an expression
def poly(n, a, var="x"):
    """the coefficients in t of an expression polynomial in x = a + t"""
    o = n[0]
    if o == "v":
        if n[1] != var: raise ValueError("unexpected variable " + n[1])
        return [Q(a), Q(1)]
    if nr.is_leaf(n):
        q = nr.lit(n); return [Q(q.v, q.e)]
    def trim(p): return p
    def add(p, q):
        m = max(len(p), len(q)); z = Q(0)
        return [nr.add(p[i] if i < len(p) else z, q[i] if i < len(q) else z) for i in range(m)]
    def mul(p, q):
        r = [Q(0)] * (len(p) + len(q) - 1)
        for i, u in enumerate(p):
            for j, v in enumerate(q):
                if nr.nz(u) and nr.nz(v): r[i + j] = nr.add(r[i + j], nr.mul(u, v))
        return r
    if o == "poly":
        if n[1] != var: raise ValueError("unexpected variable " + n[1])
        r = [Q(0)]; p = [Q(1)]
        for c in n[2:]: r = add(r, mul(p, poly(c, a, var))); p = mul(p, [Q(a), Q(1)])
        return r
    if o == "neg": return [nr.neg(q) for q in poly(n[1], a, var)]
    if o in nr.UN: raise ValueError("%s is not polynomial" % show(n))
    p, q = poly(n[1], a, var), poly(n[2], a, var)
    if o == "+": return add(p, q)
    if o == "-": return add(p, [nr.neg(v) for v in q])
    if o == "*": return mul(p, q)
    if any(nr.nz(v) for v in q[1:]): raise ValueError("%s is not polynomial" % show(n))
    if o == "/": return [nr.div(v, q[0]) for v in p]
    k = q[0]
    if o != "pow" or k.e or not nr.isint(k.v) or k.v < 0 or k.v > 12: raise ValueError("%s is not polynomial" % show(n))
    r = [Q(1)]
    for _ in range(int(k.v)): r = mul(r, p)
    return r
def horner(cs, t):
    s = Q(0); p = Q(1)
    for c in cs: s = nr.add(s, nr.mul(c, p)); p = nr.mul(p, t)
    return s
nstr = lambda v: mp.nstr(v, 17)

# Polynomial objects as operands
def cpp(n):
    if n[0] == "poly": return "sym::Polynomial<%d, %s, sym::Var<%s>>{%s}" % (len(n) - 3, "int" if all(c[0] == "i" for c in n[2:]) else "double", "" if n[1] == "x" else n[1] + "_name", ", ".join(nr.cpp(c) for c in n[2:]))
    if nr.is_leaf(n): return nr.cpp(n)
    return nr.cpp([n[0]] + [["raw", cpp(c)] if isinstance(c, list) else c for c in n[1:]]) if False else _cpp(n)
def _cpp(n):
    o = n[0]
    if o == "neg": return "(-%s)" % cpp(n[1])
    if o in nr.UN: return "sym::%s(%s)" % (o, cpp(n[1]))
    if o == "pow": return "sym::pow(%s, %s)" % (cpp(n[1]), cpp(n[2]))
    return "(%s %s %s)" % (cpp(n[1]), o, cpp(n[2]))
def kidsv(n):
    if n[0] == "v": return {n[1]}
    if n[0] == "poly": return {n[1]}
    return set().union(set(), *[kidsv(c) for c in nr.kids(n)])
def nops(n): return 0 if nr.is_leaf(n) or n[0] == "poly" else 1 + sum(nops(c) for c in nr.kids(n))

def rename(n, V):
    if n[0] == "v": return ["v", V]
    if n[0] == "poly": return ["poly", V] + n[2:]
    return [n[0]] + [rename(c, V) if isinstance(c, list) else c for c in n[1:]]
def only_x(n): return ["v", "x"] if n[0] == "v" else [n[0]] + [only_x(c) if isinstance(c, list) else c for c in n[1:]]
def polyleaf(rng, var="x"):
    deg = rng.randint(0, 4); ints = rng.random() < 0.2
    cs = [["i", rng.randint(-4, 5)] if ints else ["d", rng.choice([0.0, 1.0, -1.5, 2.0, 0.5, -3.0, 0.1, 4.0])] for _ in range(deg + 1)]
    return ["poly", var] + cs
def shrink_poly(n):
    if n[0] == "poly":
        out = [["v", n[1]]]
        if len(n) > 3: out.append(n[:-1])
        for i in range(2, len(n)):
            z = [n[i][0], type(n[i][1])(0)]; o = [n[i][0], type(n[i][1])(1)]
            if n[i] not in (z, o): out += [n[:i] + [z] + n[i + 1:], n[:i] + [o] + n[i + 1:]]
        return out
    if nr.is_leaf(n): return p13.shrink_expr(n)
    out = []
    for i in range(1, len(n)):
        if isinstance(n[i], list) and kidsv(n[i]): out.append(n[i])
    for i in range(1, len(n)):
        if isinstance(n[i], list):
            if nops(n[i]): out += [n[:i] + [["v", "x"]] + n[i + 1:], n[:i] + [["C", 2, 1]] + n[i + 1:]]
            out += [n[:i] + [s] + n[i + 1:] for s in shrink_poly(n[i])]
    def fine(m): return nr.is_leaf(m) or m[0] == "poly" or (bool(kidsv(m)) and all(fine(c) for c in nr.kids(m)))
    return [o for o in out if o != n and kidsv(o) and fine(o)]

MAXN = {0: 4, 1: 6, 2: 4, 3: 3, 4: 2, 5: 2, 6: 1}
class Taylor(Family):
    name = "taylor"; per_unit = 8; quick = 1000; thorough = 16000; prelude = nr.SX
    rule = "A Taylor case is non-trivial when the order is at least one and the expanded function has a non-zero derivative there."
    def gen(self, rng):
        while True:
            kind = rng.choice(["any", "any", "any", "poly", "object", "composed"])
            if kind == "object": n = polyleaf(rng)
            elif kind == "poly": n = only_x(gen_poly(rng, rng.choice([1, 2, 3])))
            elif kind == "composed": n = [rng.choice(["sin", "exp", "cos"]), polyleaf(rng)] if rng.random() < 0.5 else [rng.choice("+*-"), polyleaf(rng), only_x(p13.sym_expr(rng, 1))]
            else: n = only_x(p13.sym_expr(rng, rng.choice([1, 2, 2, 3])))
            k = nops(n)
            if k > 6 or not kidsv(n) or p13.powsize(n) > 14: continue
            if n[0] != "poly" and kind != "composed" and not p13.symbolic_ok(n): continue
            N = rng.randint(0, MAXN[k])
            if rng.random() < 0.12: # the elementary functions to high orders
                x = ["v", "x"]; n = rng.choice([["sin", x], ["cos", x], ["exp", x], ["pow", x, ["C", rng.choice([6, 8, 9, 11, -1, 5]), 1]], ["neg", ["cos", x]], ["+", ["sin", x], ["C", 2, 1]], ["exp", ["neg", x]]]); N = rng.randint(6, 12)
            a = rng.choice(p13.POOL + [0.0, 0.0, -0.5]) if rng.random() < 0.85 else None
            try: jet(n, [mpf(a or 0), mpf(1)] + [mpf(0)] * N, N + 1)
            except Bad: continue
            return {"e": n, "a": a, "N": N, "p": rng.choice(p13.POOL), "var": rng.choice("xxxt")}
    def key(self, c): return json.dumps([c["e"], c["a"], c["N"], c.get("var")])
    def describe(self, c): return "order %d expansion of %s about %s" % (c["N"], show(c["e"]), "Null()" if c["a"] is None else c["a"])
    def code(self, c, k):
        a = "sym::Null()" if c["a"] is None else repr(c["a"])
        V = c.get("var", "x"); n = rename(c["e"], V); v = "v" + V
        s = "auto f = %s; auto T = sym::taylor_series<%d>(f, %s, %s); gp::shape(k, \"T\", T); gp::out(k, \"at\", sym::sub(T, %s = %r)); gp::out(k, \"ata\", sym::sub(T, %s = %r));" % (cpp(n), c["N"], a, v, v, c["p"], v, float(c["a"] or 0))
        s += "auto E = sym::try_expand(T); gp::shape(k, \"E\", E); gp::out(k, \"Eat\", sym::sub(E, %s = %r));" % (v, c["p"])
        w = "f"
        s += "gp::shape(k, \"d0\", f);"
        for i in range(1, c["N"] + 1): s += "auto f%d = sym::derivative(%s, %s); gp::shape(k, \"d%d\", f%d);" % (i, w, v, i, i); w = "f%d" % i
        return s
    def judge(self, c, r):
        V = c.get("var", "x"); n, N = c["e"], c["N"]; a = mpf(c["a"] or 0)
        try:
            try: truth = jet(n, [a, mpf(1)] + [mpf(0)] * (N - 1) if N else [a], N)
            except Bad: return None, False, ["undefined"], None
            # what evaluating the derivatives in floating point may lose
            want = []
            for i in range(N + 1):
                try: e = nr.ev(nr.parse_sx(r["d%d" % i]), {V: a}).e
                except Bad: return None, False, ["ill conditioned"], None
                want.append(Q(truth[i], e / math.factorial(i) + 4 * nr.U * abs(truth[i])))
            T = nr.parse_sx(r["T"])
            shapes = [("T", T), ("E", nr.parse_sx(r["E"]))]
            for tag, sh in shapes:
                try: got = poly(sh, a, V)
                except Bad: continue
                for i in range(max(len(got), N + 1)):
                    g = got[i] if i < len(got) else Q(0); w = want[i] if i <= N else Q(0, sum(q.e + nr.U * abs(q.v) for q in want))
                    if not nr.close(g, w): return "coefficient %d of %s is %s, expected %s; it is %s" % (i, tag, nstr(g.v), nstr(w.v), show(sh)), False, [], None
            t = Q(mpf(c["p"]) - a, nr.U * (abs(c["p"]) + abs(a)))
            try: at = horner(want, t)
            except Bad: at = None
            if at is not None:
                try: extra = horner(poly(nr.parse_sx(r["E"]), mpf(0), V), Q(c["p"])).e
                except Bad: extra = None
                if not nr.close(r.get("at"), at): return "its value at %s is %r, expected %s" % (c["p"], r.get("at"), nstr(at.v)), False, [], None
                if extra is not None and not nr.close(r.get("Eat"), at, extra): return "its expansion's value at %s is %r, expected %s" % (c["p"], r.get("Eat"), nstr(at.v)), False, [], None
            if not nr.close(r.get("ata"), want[0]): return "its value at the point of expansion is %r, expected %s" % (r.get("ata"), nstr(want[0].v)), False, [], None
        except ValueError as x: return str(x), False, [], None
        return None, N >= 1 and any(v != 0 for v in truth[1:]), ["order %d" % N, "Null" if c["a"] is None else "zero" if c["a"] == 0 else "nonzero", "nonpolynomial" if any(o in json.dumps(n) for o in nr.UN if o != "neg") else "algebraic"], None
    def shrinks(self, c):
        out = []
        if c["N"]: out.append(dict(c, N=c["N"] - 1))
        for s in shrink_poly(c["e"]): out.append(dict(c, e=s))
        for a in (0.0, 2.0, 0.5):
            if c["a"] not in (0.0, None) and c["a"] != a: out.append(dict(c, a=a))
        if c["p"] != 2.0: out.append(dict(c, p=2.0))
        if c.get("var", "x") != "x": out.append(dict(c, var="x"))
        return [o for o in out if nops(o["e"]) <= 6]

def gen_poly(rng, depth):
    """polynomial expressions"""
    if depth == 0 or rng.random() < 0.1:
        return polyleaf(rng) if rng.random() < 0.12 else ["v", "x"]
    r = rng.random()
    lit = lambda: p13.literal(rng)
    if r < 0.35: return [rng.choice("+-*"), gen_poly(rng, depth - 1), gen_poly(rng, depth - 1)]
    if r < 0.55: return [rng.choice("+-*"), gen_poly(rng, depth - 1), lit()]
    if r < 0.75: return [rng.choice("+-*"), lit(), gen_poly(rng, depth - 1)]
    if r < 0.85: return ["/", gen_poly(rng, depth - 1), p13.literal(rng, False)]
    b = gen_poly(rng, depth - 1)
    return ["pow", b, ["C", rng.choice([0, 1, 2, 2, 3, 4] if nops(b) <= 1 else [1, 2, 2]), 1]]

class Expand(Family):
    name = "expand"; per_unit = 10; quick = 1200; thorough = 18000; prelude = nr.SX
    rule = "An expansion case is non-trivial when the polynomial has degree two or more and the expression at least three operations; a mixed one when it nests a function of a polynomial."
    def gen(self, rng):
        while True:
            n = gen_poly(rng, rng.choice([2, 2, 3, 3, 4]))
            if nops(n) == 0 or nops(n) > 7 or p13.powsize(n) > 16: continue
            try:
                # integer coefficients are ints: their overflow is not the library's affair
                big = poly(self.absolute(n), mpf(0))
                if any(abs(q.v) > 2 ** 28 for q in big) or len(big) > 14: continue
                poly(n, mpf(0))
            except (Bad, ValueError): continue
            return {"e": n, "p": rng.choice(p13.POOL)}
    def absolute(self, n):
        if n[0] == "C": return ["C", abs(n[1]), n[2]]
        if n[0] in ("d", "i"): return [n[0], abs(n[1])]
        if n[0] == "-": return ["+"] + [self.absolute(c) for c in n[1:]]
        if n[0] == "/": return ["*", self.absolute(n[1]), ["d", max(1.0, 1 / abs(float(nr.lit(n[2]).v)))]]
        return [n[0]] + [self.absolute(c) if isinstance(c, list) else c for c in n[1:]]
    def key(self, c): return json.dumps(c["e"])
    def describe(self, c): return "expand of %s" % show(c["e"])
    def code(self, c, k):
        return "auto f = %s; auto E = sym::try_expand(f); gp::shape(k, \"E\", E); gp::out(k, \"at\", sym::sub(E, vx = %r)); gp::out(k, \"fat\", sym::sub(f, vx = %r)); gp::shape(k, \"dE\", sym::derivative(E, vx));" % (cpp(c["e"]), c["p"], c["p"])
    def judge(self, c, r):
        n = c["e"]
        try:
            truth = poly(n, mpf(0)); E = nr.parse_sx(r["E"])
            got = poly(E, mpf(0)); dgot = poly(nr.parse_sx(r["dE"]), mpf(0))
            for i in range(max(len(truth), len(got))):
                t = truth[i] if i < len(truth) else Q(0); g = got[i] if i < len(got) else Q(0)
                if not nr.close(g, t): return "coefficient %d is %s, expected %s; it is %s" % (i, nstr(g.v), nstr(t.v), show(E)), False, [], None
            for i in range(1, max(len(truth), len(dgot) + 1)):
                t = nr.mul(truth[i], Q(i)) if i < len(truth) else Q(0); g = dgot[i - 1] if i - 1 < len(dgot) else Q(0)
                if not nr.close(g, t): return "coefficient %d of the derivative is %s, expected %s; it is %s" % (i - 1, nstr(g.v), nstr(t.v), r["dE"]), False, [], None
            at = horner(truth, Q(c["p"]))
            fe = nr.ev(n, {"x": c["p"]}).e
            for tag in ("at", "fat"):
                if not nr.close(r.get(tag), at, fe): return "%s (x=%s) is %r, expected %s" % (tag, c["p"], r.get(tag), nstr(at.v)), False, [], None
        except Bad: return None, False, ["undecided"], None
        except ValueError as x: return str(x), False, [], None
        deg = max([i for i, q in enumerate(truth) if q.v != 0] or [0])
        return None, deg >= 2 and nops(n) >= 3, ["polynomial" if E[0] == "poly" else "other form", "degree %d" % min(deg, 6)], None
    def shrinks(self, c): return [dict(c, e=s) for s in shrink_poly(c["e"]) if nops(s)] + ([dict(c, p=2.0)] if c["p"] != 2.0 else [])

class Mixed(Family):
    name = "mixed"; per_unit = 10; quick = 500; thorough = 8000; prelude = nr.SX
    def gen(self, rng):
        while True:
            n = p13.sym_expr(rng, rng.choice([2, 3, 3]))
            if rng.random() < 0.4: n = [rng.choice("+*-"), n, gen_poly(rng, 2)]
            if nops(n) == 0 or nops(n) > 6 or p13.powsize(n) > 12: continue
            pts = []
            for _ in range(20):
                e = {"x": rng.choice(p13.POOL), "y": rng.choice(p13.POOL)}
                if p13.ok(n, e): pts.append(e)
                if len(pts) == 2: break
            if pts: return {"e": n, "pts": pts}
    def key(self, c): return json.dumps(c["e"])
    def describe(self, c): return "expand of %s" % show(c["e"])
    def code(self, c, k): return "auto f = %s; auto E = sym::try_expand(f); gp::shape(k, \"E\", E);" % cpp(c["e"]) + "gp::out(k, \"at\", sym::sub(sym::sub(E, vx = %r), vy = %r));" % (c["pts"][0]["x"], c["pts"][0]["y"])
    def judge(self, c, r):
        n = c["e"]; judged = 0
        try:
            E = nr.parse_sx(r["E"])
            for i, env in enumerate(c["pts"]):
                try: want = nr.ev(n, env); g = nr.ev(E, env)
                except Bad: continue
                judged += 1
                if not nr.close(g, want): return "the value at %s is %s, expected %s; it is %s" % (env, nstr(g.v), nstr(want.v), show(E)), False, [], None
                if i == 0 and not nr.close(r.get("at"), want, g.e): return "the number at %s is %r, expected %s" % (env, r.get("at"), nstr(want.v)), False, [], None
        except ValueError as x: return str(x), False, [], None
        j = json.dumps(E)
        return None, judged > 0 and "poly" in j and nops(n) >= 3, ["has polynomials" if "poly" in j else "none"], None
    def shrinks(self, c):
        out = []
        for s in shrink_poly(c["e"]):
            pts = [p for p in c["pts"] if p13.ok(s, p)]
            if pts and nops(s): out.append(dict(c, e=s, pts=pts))
        if len(c["pts"]) > 1: out += [dict(c, pts=[p]) for p in c["pts"]]
        return out

if __name__ == "__main__":
    sys.exit(genprog.main([Taylor(), Expand(), Mixed()]))
