"""P13: compile-time expressions agree with mathematics and with runtime ones."""
import json, math, sys
import genprog, numref as nr
from genprog import Family
from numref import Q, Bad, show, cpp, ops, subst, variables

def literal(rng, zero=True):
    r = rng.random()
    if r < 0.30: return ["C", rng.choice([1, 2, 3, -1, -2, 5, 4, 7]), 1]
    if r < 0.45:
        n, d = rng.choice([1, -1, 2, 3, -3, 5, 7, -4]), rng.choice([2, 3, 4, 5, 7])
        g = math.gcd(n, d); return ["C", n // g, d // g]
    if r < 0.50: return ["C", 0, 1] if zero else ["C", 1, 1]
    if r < 0.80: return ["d", rng.choice([0.5, 1.5, -0.75, 2.25, 3.0, -1.0, 0.1, 2.0])]
    return ["i", rng.choice([1, 2, 3, -1, -2, 4, 7])]
def sym_expr(rng, depth):
    """an expression containing a variable"""
    if depth == 0 or rng.random() < 0.15: return ["v", rng.choice(["x", "x", "x", "y"])]
    r = rng.random()
    if r < 0.62:
        o = rng.choice("++--**//")
        m = rng.random()
        if m < 0.45: return [o, sym_expr(rng, depth - 1), sym_expr(rng, depth - 1)]
        if m < 0.75: return [o, sym_expr(rng, depth - 1), literal(rng, o != "/")]
        return [o, literal(rng), sym_expr(rng, depth - 1)]
    if r < 0.78:
        b = sym_expr(rng, depth - 1); m = rng.random()
        small = nr.ops(b) <= 2
        if m < 0.55: e = ["C", rng.choice([2, 3, 1, 0, -1, 2, 3, 4] if small else [2, 1, 2, 0, -1]), 1]
        elif m < 0.65: e = ["C", rng.choice([1, 3, -1]), rng.choice([2, 3])]; g = math.gcd(e[1], e[2]); e = ["C", e[1] // g, e[2] // g]
        elif m < 0.75: e = ["d", rng.choice([0.5, 2.0, 1.5, -1.0, 3.0, 0.3])]
        elif m < 0.85: e = ["i", rng.choice([2, 3, -1, 1, 0])]
        else: e = sym_expr(rng, min(1, depth - 1))
        if m > 0.95: return ["pow", ["d", rng.choice([2.0, 0.5, 1.5])], e if variables(e) else b]
        return ["pow", b, e]
    return [rng.choice(["sin", "cos", "exp", "log", "abs", "neg", "neg", "sin", "cos"]), sym_expr(rng, depth - 1)]
POOL = [0.5, 1.25, 2.0, -0.75, 3.0, 0.1, 1.5, -1.5, 2.75, 0.375, 1.1, -2.2, 5.0]
def ok(n, env, deriv=False):
    try:
        if deriv: nr.dual(n, deriv, env)
        else: nr.ev(n, env)
        return True
    except Bad: return False
def powsize(n):
    """how large integer powers of composite bases become when multiplied out"""
    if nr.is_leaf(n): return 1
    k = sum(powsize(c) for c in nr.kids(n))
    if n[0] == "pow" and n[2][0] == "C" and n[2][2] == 1 and n[1][0] != "v": return k * max(1, abs(n[2][1]))
    return k + 1
def symbolic_ok(n):
    if nr.is_leaf(n): return True
    return bool(variables(n)) and all(symbolic_ok(c) for c in nr.kids(n))

def shrink_expr(n):
    """smaller expressions which still contain a variable wherever an operator needs one"""
    out = []
    if nr.is_leaf(n):
        if n[0] == "v": return [["v", "x"]] if n[1] != "x" else []
        if n[0] == "C" and n[2] != 1: out.append(["C", n[1], 1])
        if n[0] == "C" and n[1] not in (1, 2): out += [["C", 1, 1], ["C", 2, 1]]
        if n[0] == "i": out.append(["C", n[1], 1])
        if n[0] == "d": out += [["C", 2, 1]] + ([["d", 2.0]] if n[1] != 2.0 else [])
        return out
    for i in range(1, len(n)):
        if isinstance(n[i], list) and variables(n[i]): out.append(n[i])
    for i in range(1, len(n)):
        if not isinstance(n[i], list): continue
        if not nr.is_leaf(n[i]): out += [n[:i] + [l] + n[i + 1:] for l in (["v", "x"], ["C", 2, 1])]
        out += [n[:i] + [s] + n[i + 1:] for s in shrink_expr(n[i])]
    return [o for o in out if o != n and symbolic_ok(o) and variables(o)]

class Expressions(Family):
    name = "expressions"; per_unit = 10; quick = 640; thorough = 12000; prelude = nr.SX
    rule = "A case is non-trivial when its expression has at least three operations, mentions a variable twice, or nests a function, and at least one judged point lies in its domain."
    def gen(self, rng):
        while True:
            n = sym_expr(rng, rng.choice([1, 2, 2, 3, 3, 3, 4]))
            if ops(n) == 0 or ops(n) > 12 or not symbolic_ok(n): continue
            pts = []
            for _ in range(24):
                e = {"x": rng.choice(POOL), "y": rng.choice(POOL)}
                if e not in pts and ok(n, e): pts.append(e)
                if len(pts) == 3: break
            if not pts: continue
            pts.sort(key=lambda e: not ok(n, e, "x"))
            break
        v = rng.choice(["x", "x", "y"])
        while True:
            g = sym_expr(rng, 1)
            if g != ["v", v]: break   # x = x is C++ assignment
        c = rng.choice([["C", 2, 1], ["C", 1, 1], ["C", 0, 1], ["C", -1, 1], ["C", 3, 2], ["C", 1, 3]])
        return {"e": n, "pts": pts, "g": g, "c": c, "var": v}
    def key(self, c): return json.dumps(c["e"])
    def describe(self, c): return "%s at %s" % (show(c["e"]), c["pts"][0])
    def tags(self, c):
        n = c["e"]; k = ops(n); p = powsize(n)
        t = {"val": True, "dx": True, "dy": True}
        t["simp"] = k <= 7 and p <= 14
        t["dsimp"] = k <= 4 and p <= 8
        t["dd"] = k <= 3
        t["subst"] = k <= 8 and any(ok(subst(n, {c["var"]: c["g"]}), p) for p in c["pts"])
        t["csub"] = self.cok(c)
        t["N"] = k <= 5 and p <= 10
        return t
    def cok(self, c):
        """is the expression of constants, and every part of it, inside the domain and in integer powers"""
        m = subst(c["e"], {c["var"]: c["c"]})
        def good(n):
            if nr.is_leaf(n): return True
            if not all(good(x) for x in nr.kids(n)): return False
            if not variables(n):
                if any(x[0] == "i" for x in nr.kids(n)): return False
                try: v = nr.ev(n, {})
                except Bad: return False
                return abs(v.v) < 1000
            return True
        try: return ops(c["e"]) <= 6 and good(m)
        except Bad: return False
    def code(self, c, k):
        n = c["e"]; e = c["pts"][0]; t = self.tags(c)
        sx = "sym::sub(sym::sub(%%s, vx = %r), vy = %r)" % (e["x"], e["y"]); sy = "sym::sub(sym::sub(%%s, vy = %r), vx = %r)" % (e["y"], e["x"])
        s = "auto f = %s; gp::shape(k, \"expr\", f); gp::out(k, \"val\", %s); gp::out(k, \"val2\", %s);" % (cpp(n), sx % "f", sy % "f")
        s += "auto dx = sym::derivative(f, vx); gp::shape(k, \"dx\", dx); gp::shape(k, \"dy\", sym::derivative(f, vy)); gp::out(k, \"dval\", %s);" % (sx % "dx")
        if t["simp"]: s += "auto si = sym::try_simplify(f); gp::shape(k, \"simp\", si); gp::out(k, \"sval\", %s);" % (sx % "si")
        if t["dsimp"]: s += "gp::shape(k, \"dsimp\", sym::try_simplify(dx));"
        if t["dd"]: s += "gp::shape(k, \"dxx\", sym::derivative(dx, vx)); gp::shape(k, \"dxy\", sym::derivative(dx, vy));"
        if t["subst"]: s += "gp::shape(k, \"subst\", sym::sub(f, sym::equality(v%s, %s)));" % (c["var"], cpp(c["g"]))
        if t["csub"]: s += "gp::shape(k, \"csub\", sym::sub(f, v%s = %s));" % (c["var"], cpp(c["c"]))
        if t["N"]: s += "gp::shape(k, \"N\", sym::try_N(f));"
        return s
    def judge(self, c, r):
        n = c["e"]; labels = set(); judged = 0; msg = None
        t = self.tags(c)
        def shape(tag):
            s = r.get(tag)
            if not isinstance(s, str): raise ValueError("%s is missing" % tag)
            return nr.parse_sx(s)
        try:
            for i, env in enumerate(c["pts"]):
                try: ref = nr.ev(n, env)
                except Bad: continue
                if i == 0:
                    for tag in ("val", "val2") + (("sval",) if t["simp"] else ()):
                        judged += 1
                        if not nr.close(r.get(tag), ref): return "%s is %r, expected %s" % (tag, r.get(tag), nr.mp.nstr(ref.v, 17)), False, [], None
                # the same value in another form
                for tag in ("expr", "simp", "N"):
                    if not t.get(tag, tag == "expr"): continue
                    try: g = nr.ev(shape(tag), env)
                    except Bad as b: g = None
                    judged += 1
                    if g is None: labels.add(tag + " undecided"); continue
                    if not nr.close(g, ref): return "%s gives %s at %s, expected %s; it is %s" % (tag, nr.mp.nstr(g.v, 17), env, nr.mp.nstr(ref.v, 17), show(shape(tag))), False, [], None
                    labels.add(tag)
                for tag, var in (("dx", "x"), ("dy", "y"), ("dsimp", "x")):
                    if not t.get(tag): continue
                    try: d = nr.dual(n, var, env)[1]
                    except Bad: continue
                    if tag == "dx" and i == 0 and isinstance(r.get("dval"), float):
                        judged += 1
                        if not nr.close(r["dval"], d): return "the derivative by x is %r, expected %s" % (r["dval"], nr.mp.nstr(d.v, 17)), False, [], None
                    elif tag == "dx" and i == 0: return "dval is %r" % r.get("dval"), False, [], None
                    try: g = nr.ev(shape(tag), env)
                    except Bad: labels.add(tag + " undecided"); continue
                    judged += 1; labels.add(tag)
                    if not nr.close(g, d): return "%s gives %s at %s, expected %s; it is %s" % (tag, nr.mp.nstr(g.v, 17), env, nr.mp.nstr(d.v, 17), show(shape(tag))), False, [], None
                if t["dd"]:
                    for tag, var in (("dxx", "x"), ("dxy", "y")):
                        # the derivative of the (already judged) first derivative
                        try: d = nr.dual(shape("dx"), var, env)[1]; g = nr.ev(shape(tag), env)
                        except Bad: continue
                        judged += 1; labels.add(tag)
                        if not nr.close(g, d): return "%s gives %s at %s, expected %s; it is %s" % (tag, nr.mp.nstr(g.v, 17), env, nr.mp.nstr(d.v, 17), show(shape(tag))), False, [], None
                for tag, by in (("subst", c["g"]), ("csub", c["c"])):
                    if not t[tag]: continue
                    try: want = nr.ev(subst(n, {c["var"]: by}), env); g = nr.ev(shape(tag), env)
                    except Bad: continue
                    judged += 1; labels.add(tag)
                    if not nr.close(g, want): return "%s (%s=%s) gives %s at %s, expected %s; it is %s" % (tag, c["var"], show(by), nr.mp.nstr(g.v, 17), env, nr.mp.nstr(want.v, 17), show(shape(tag))), False, [], None
                    if tag == "csub" and c["var"] in variables(shape(tag)): return "csub left %s in %s" % (c["var"], show(shape(tag))), False, [], None
        except ValueError as x: return str(x), False, [], None
        def twice(m): return 1 if m[0] == "v" else sum(twice(x) for x in nr.kids(m))
        nt = judged > 0 and ops(n) >= 2 and (ops(n) >= 3 or twice(n) >= 2)
        return None, nt, sorted(labels), None
    def shrinks(self, c):
        out = []
        for s in shrink_expr(c["e"]):
            if ops(s) == 0: continue
            pts = [p for p in c["pts"] if ok(s, p)]
            if not pts: pts = [{"x": 1.25, "y": 2.0}] if ok(s, {"x": 1.25, "y": 2.0}) else []
            if pts: out.append(dict(c, e=s, pts=pts))
        if len(c["pts"]) > 1: out += [dict(c, pts=[p]) for p in c["pts"]]
        return out

def parses(n): return n[0] != 'abs' and all(parses(c) for c in nr.kids(n))   # |x| is not part of the grammar

class Runtime(Expressions):
    name = "runtime"; runtime = True; per_unit = 24; quick = 340; thorough = 6000
    rule = "The same rule applies to conversions to runtime expressions."
    def code(self, c, k):
        n = c["e"]; e = c["pts"][0]; env = "{{\"x\", %r}, {\"y\", %r}}" % (e["x"], e["y"])
        s = "auto f = %s; gp::rt(k, \"rt\", sym::Expr(f), %s); %s gp::rtsimplified(k, \"rts\", sym::Expr(f), %s); gp::rtsimplified(k, \"rtd\", sym::derivative(sym::Expr(f), vx), %s);" % (cpp(n), env, "gp::parsed(k, \"parsed\", sym::repr(f), %s);" % env if parses(n) else "", env, env)
        s += "gp::rt(k, \"ctd\", sym::Expr(sym::derivative(f, vx)), %s);" % env
        if ops(n) <= 6 and powsize(n) <= 12: s += "gp::rt(k, \"simp\", sym::Expr(sym::try_simplify(f)), %s);" % env
        # mixing compile-time and runtime terms
        s += "sym::Expr q(\"q\"); gp::rt(k, \"mix+\", sym::Expr(f + q), {{\"x\", %r}, {\"y\", %r}, {\"q\", 1.5}}); gp::rt(k, \"mix*\", sym::Expr(q * f), {{\"x\", %r}, {\"y\", %r}, {\"q\", 1.5}});" % (e["x"], e["y"], e["x"], e["y"])
        s += "gp::rt(k, \"rtsub\", sym::sub(sym::Expr(f), sym::equality(sym::Expr(vx), sym::Expr(%r))), {{\"y\", %r}});" % (e["x"], e["y"])
        return s
    def judge(self, c, r):
        n = c["e"]; env = c["pts"][0]; judged = 0; labels = set()
        ref = nr.ev(n, env)
        try: d = nr.dual(n, "x", env)[1]
        except Bad: d = None
        def look(tag, want):
            nonlocal judged
            if want is None or (tag in ("simp", "parsed") and tag not in r): return None
            judged += 1; labels.add(tag)
            if not nr.close(r.get(tag), want): return "%s is %r, expected %s" % (tag, r.get(tag), nr.mp.nstr(want.v, 17))
        try: plus = nr.add(ref, Q(1.5)); times = nr.mul(ref, Q(1.5))
        except Bad: plus = times = None
        for tag, want in (("rt", ref), ("parsed", ref), ("rts", ref), ("simp", ref), ("rtsub", ref), ("mix+", plus), ("mix*", times), ("ctd", d), ("rtd", d)):
            m = look(tag, want)
            if m: return m, False, [], None
        return None, judged > 0 and ops(n) >= 3, sorted(labels), None

# ---- expressions of arbitrary sign: the meaning is the set of values over all choices of sign
def signs(n):
    if n[0] == "arb":
        for m in signs(n[1]): yield m; yield ["neg", m]
    elif nr.is_leaf(n): yield n
    else:
        def go(i, head):
            if i == len(n): yield head; return
            for k in signs(n[i]): yield from go(i + 1, head + [k])
        yield from go(1, [n[0]])
def count(n): return (n[0] == "arb") + (0 if nr.is_leaf(n) else sum(count(k) for k in nr.kids(n)))
def cpp_signs(n):
    """cpp() with arbitrary signs"""
    if n[0] == "arb": return "sym::arbsign(%s)" % cpp_signs(n[1])
    if nr.is_leaf(n): return cpp(n)
    k = [cpp_signs(m) for m in nr.kids(n)]
    if n[0] == "neg": return "(-%s)" % k[0]
    if n[0] == "pow": return "sym::pow(%s, %s)" % tuple(k)
    if len(k) == 1: return "sym::%s(%s)" % (n[0], k[0])
    return "(%s %s %s)" % (k[0], n[0], k[1])
def show_signs(n):
    if n[0] == "arb": return "+-(%s)" % show_signs(n[1])
    if nr.is_leaf(n): return show(n)
    k = [show_signs(m) for m in nr.kids(n)]
    return "%s(%s)" % (n[0], k[0]) if len(k) == 1 else "(%s %s %s)" % (k[0], "^" if n[0] == "pow" else n[0], k[1])
def sign_expr(rng, depth):
    if depth == 0: return ["v", rng.choice("xxy")]
    r = rng.random()
    if r < 0.35: return ["arb", sign_expr(rng, depth - 1)]
    if r < 0.75:
        o = rng.choice("**//+-"); m = rng.random()
        l, q = sign_expr(rng, depth - 1), sign_expr(rng, depth - 1)
        if m < 0.15: q = literal(rng, False)
        elif m < 0.3: l = literal(rng, False)
        return [o, l, q]
    if r < 0.9: return ["pow", sign_expr(rng, depth - 1), ["C", rng.choice([2, 3, 4, 5, 6, -1, -2, -3]), 1]]
    return [rng.choice(["sin", "cos", "exp", "abs", "neg"]), sign_expr(rng, depth - 1)]
class Signs(Expressions):
    name = "signs"; per_unit = 12; quick = 240; thorough = 5000
    rule = "Expressions of arbitrary sign are non-trivial when they have two operations besides the sign and two distinct values."
    def gen(self, rng):
        while True:
            n = sign_expr(rng, rng.choice([1, 2, 2, 3]))
            if not 1 <= count(n) <= 3 or ops(n) > 7 or powsize(n) > 14: continue
            pts = []
            for _ in range(12):
                e = {"x": rng.choice(POOL), "y": rng.choice(POOL)}
                if all(ok(m, e) for m in signs(n)): pts.append(e)
                if len(pts) == 2: break
            if pts: return {"e": n, "pts": pts}
    def key(self, c): return json.dumps(c["e"])
    def describe(self, c): return "%s at %s" % (show_signs(c["e"]), c["pts"][0])
    def code(self, c, k):
        n = c["e"]
        s = "auto f = %s; gp::shape(k, \"expr\", f); gp::shape(k, \"simp\", sym::try_simplify(f)); gp::shape(k, \"dx\", sym::derivative(f, vx));" % cpp_signs(n)
        s += "gp::shape(k, \"subst\", sym::sub(f, sym::equality(vx, vy * sym::C<2>())));"
        return s
    def judge(self, c, r):
        n = c["e"]; judged = 0; labels = set(); distinct = 1
        def values(m, env): return [nr.ev(x, env) for x in signs(m)]
        def within(a, b): return next((x for x in a if not any(nr.close(x, y) for y in b)), None)
        for env in c["pts"]:
            want = values(n, env)
            distinct = max(distinct, len({nr.mp.nstr(w.v, 12) for w in want}))
            for tag in ("expr", "simp", "subst"):
                if not isinstance(r.get(tag), str): return "%s is missing" % tag, False, [], None
                m = nr.parse_sx(r[tag])
                if count(m) > 6: continue
                w = want
                try:
                    if tag == "subst": w = values(subst(n, {"x": ["*", ["v", "y"], ["C", 2, 1]]}), env)
                    got = values(m, env)
                except Bad: continue
                judged += 1; labels.add(tag)
                x = within(w, got)
                if x is not None: return "%s has lost the value %s at %s; it is %s" % (tag, nr.mp.nstr(x.v, 17), env, show_signs(m)), False, [], None
                x = within(got, w)
                if x is not None: return "%s has the value %s at %s, which the expression has not; it is %s" % (tag, nr.mp.nstr(x.v, 17), env, show_signs(m)), False, [], None
            m = nr.parse_sx(r["dx"])
            if count(m) <= 7:
                try: d = [nr.dual(x, "x", env)[1] for x in signs(n)]; got = values(m, env)
                except Bad: continue
                judged += 1; labels.add("dx"); x = within(d, got)
                if x is not None: return "the derivative lacks the value %s at %s; it is %s" % (nr.mp.nstr(x.v, 17), env, show_signs(m)), False, [], None
        return None, judged > 0 and ops(n) >= count(n) + 2 and distinct > 1, sorted(labels), None
    def shrinks(self, c):
        out = []
        def small(n):
            if nr.is_leaf(n): return
            for i in range(1, len(n)):
                if isinstance(n[i], list):
                    yield n[i]
                    if not nr.is_leaf(n[i]): yield n[:i] + [["v", "x"]] + n[i + 1:]
                    for s in small(n[i]): yield n[:i] + [s] + n[i + 1:]
        for s in small(c["e"]):
            if not count(s) or not symbolic_ok(s): continue
            pts = [p for p in c["pts"] + [{"x": 1.25, "y": 2.0}] if all(ok(m, p) for m in signs(s))]
            if pts: out.append({"e": s, "pts": pts[:1]})
        return out

if __name__ == "__main__":
    sys.exit(genprog.main([Expressions(), Runtime(), Signs()]))
