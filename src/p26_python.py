"""P26: the Python interface is faithful to Python arithmetic and the C++ core.

The extension module is built from pysrc/stator/core.cpp in VERIF_REPO and driven,
in a worker process, by generated programs over expressions, numbers, lists and
dictionaries; a worker that dies is a failure of the case it was running."""
import argparse, json, math, os, random, shutil, subprocess, sys, sysconfig, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- judging, inside the worker
def worker(moddir):
    sys.path.insert(0, moddir)
    import numref as nr
    from numref import Q, Bad
    out = os.fdopen(os.dup(1), "w"); os.dup2(2, 1)
    from stator import Expr, sub, derivative, simplify
    X, Y = Expr("x"), Expr("y")
    def number(v):
        return {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan")}.get(v, v) if isinstance(v, str) else v
    def build(n):
        o = n[0]
        if o == "v": return Expr(n[1])
        if o == "n": return n[1]
        if o == "E": return Expr(n[1])
        if o == "t": return Expr(text(n[1]))
        a, b = build(n[1]), build(n[2])
        if o == "+": return a + b
        if o == "-": return a - b
        if o == "*": return a * b
        return a / b
    def ref(n):
        o = n[0]
        if o in ("n", "E"): return ["d", n[1]]
        if o == "t": return n[1]
        if o == "v": return n
        return [o, ref(n[1]), ref(n[2])]
    def at(r, env):
        if isinstance(r, (int, float)): return float(r)
        return sub(r, {Expr(k): v for k, v in env.items()})
    class Fail(Exception): pass
    def check(ok, *m):
        if not ok: raise Fail(" ".join(str(x) for x in m))
    def isnum(v): return type(v) in (int, float, bool)
    def program(c):
        n = c["e"]; t = ref(n); labels = set(); judged = 0
        try: r = build(n); r2 = build(n)
        except (ZeroDivisionError, OverflowError): return False, ["python arithmetic error"]
        check(isinstance(r, Expr) or isnum(r), "the result is a", type(r).__name__)
        vs = nr.variables(t)
        for env in c["pts"]:
            try: want = nr.ev(t, env)
            except Bad: continue
            if not vs: check(isnum(r), "the result %r of a constant program is no number" % r)
            g = at(r, env)
            check(isnum(g) and nr.close(float(g), want), "the value of %s at %s is %r, expected %s" % (r, env, g, nr.mp.nstr(want.v, 17)))
            judged += 1
            if isnum(r): continue
            for what, q in (("simplify()", r.simplify()), ("simplify", simplify(r)), ("to_python", r.to_python()), ("Expr(str)", Expr(str(r))), ("eval(repr)", eval(repr(r)))):
                g = at(q, env); check(isnum(g) and nr.close(float(g), want), "%s of %s has the value %r at %s, expected %s" % (what, r, g, env, nr.mp.nstr(want.v, 17)))
            # substitution one variable at a time, through equations, and by expressions
            g = sub(sub(r, X.equal(env["x"])) if "x" in vs else r, {Y: env["y"]})
            check(isnum(g) and nr.close(float(g), want), "step by step substitution in %s gives %r at %s, expected %s" % (r, g, env, nr.mp.nstr(want.v, 17)))
            g = sub(sub(r, {X: Y * 2.0, Y: X}), {Y: env["x"] / 2, X: env["y"]})
            check(isnum(g) and nr.close(float(g), want), "exchanging the variables of %s gives %r at %s, expected %s" % (r, g, env, nr.mp.nstr(want.v, 17)))
            for v, V in (("x", X), ("y", Y)):
                d = derivative(r, V)
                try: w = nr.dual(t, v, env)[1]
                except Bad: continue
                g = at(d, env)
                if isnum(g) and math.isnan(g): continue   # derivatives of powers may need simplification their parts do not get
                check(isnum(g) and nr.close(float(g), w), "the derivative of %s by %s is %r at %s, expected %s" % (r, v, g, env, nr.mp.nstr(w.v, 17))); labels.add("derivative")
        if not isnum(r) and "nan" not in str(r):   # not a number equals nothing
            check(r == r2 and not (r != r2), "the same program run twice gives unequal results", r, r2)
            check(hash(r) == hash(r2), "equal expressions with different hashes", r, r2)
            check({r: 1}[r2] == 1 and r2 in {r} and [r].index(r2) == 0, "lookup of an equal expression failed", r)
            check(type(r.latex()) is str and type(r.debug_form()) is str and type(str(r)) is str, "a rendering is no text")
            check(repr(r) == "Expr('%s')" % r, "repr is", repr(r))
        # expressions with different values are different
        u = c["u"]
        try: q = build(u)
        except (ZeroDivisionError, OverflowError): return judged > 0, sorted(labels)
        for env in c["pts"]:
            try: a, b = nr.ev(t, env), nr.ev(ref(u), env)
            except Bad: continue
            if abs(a.v - b.v) > 1e-6 * (1 + abs(a.v) + abs(b.v)) + 100 * (a.e + b.e) and (isinstance(r, Expr) or isinstance(q, Expr)):
                check(not (r == q) and r != q and not (q == r), "%s and %s compare equal" % (r, q)); labels.add("unequal")
        if not isnum(r):
            for other in (None, "x", (1, 2), object(), X.__class__):
                check(not (r == other) and r != other and not (other == r), "%s equals %r" % (r, other))
                for op in (lambda a, b: a + b, lambda a, b: b * a, lambda a, b: a - b, lambda a, b: b / a):
                    try: op(r, other); bad = True
                    except TypeError: bad = False
                    check(not bad, "arithmetic of %s with %r did not raise" % (r, other))
        return judged > 0 and nops(n) >= 2 and bool(vs), sorted(labels)
    # ---- structures
    def pyobj(n):
        if n[0] == "list": return [pyobj(c) for c in n[1:]]
        if n[0] == "dict": return {pyobj(k): pyobj(v) for k, v in n[1:]}
        if n[0] == "n": return number(n[1])
        return build(n)
    def same(a, b):
        """the same structure with the same numbers and expressions"""
        if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        if isinstance(a, dict): return isinstance(b, dict) and len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
        if isnum(a): return isnum(b) and (float(a) == float(b) or (math.isnan(a) and math.isnan(b)))
        return isinstance(a, Expr) and isinstance(b, Expr) and a == b and hash(a) == hash(b)
    def normal(o):
        """what conversion makes of the leaves: numbers become floats, expressions simplify"""
        if isinstance(o, list): return [normal(c) for c in o]
        if isinstance(o, dict): return {normal(k): normal(v) for k, v in o.items()}
        return o.to_python() if isinstance(o, Expr) else float(o)
    def convert(c):
        o = pyobj(c["s"]); want = normal(o)
        e = Expr(o); check(isinstance(e, Expr), "Expr(...) is a", type(e).__name__)
        back = e.to_python(); check(same(want, back), "Expr(%r).to_python() is %r" % (o, back))
        if not isinstance(back, Expr):
            e2 = Expr(back); check(e2 == e.simplify(), "%r converted again is %s, not %s" % (back, e2, e)); check(hash(e2) == hash(e.simplify()), "equal expressions with different hashes", e2, e)
            check(same(want, e2.to_python()), "Expr(%r).to_python() is %r" % (back, e2.to_python()))
        if c.get("text"):
            for what, f in (("Expr(str)", Expr(str(e))), ("eval(repr)", eval(repr(e)))):
                check(same(want, f.to_python()), "%s of %s is %s" % (what, e, f)); check(f == e.simplify(), "%s of %s is a different expression %s" % (what, e, f))
        check(len({e: 1, Expr(pyobj(c["s"])): 2}) == 1, "equal expressions are separate keys:", e)
        if isinstance(o, dict):
            # the dictionary as a substitution
            for k, v in o.items():
                g = sub(k, o) if isinstance(k, Expr) and str(k) in ("x", "y", "z") else None
                if g is not None and isinstance(k, Expr) and str(k) in ("x", "y", "z"): check(same(normal(v), g), "substituting %r for %s gives %r" % (o, k, g))
        return len(json.dumps(c["s"])) > 30, [c["s"][0]] + (["nested"] if depth(c["s"]) > 1 else [])
    def lists(c):
        a, b = [build(n) for n in c["a"]], [build(n) for n in c["b"]]; op = c["op"]
        F = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q}[op]
        if len(a) != len(b):
            try: r = F(Expr(a), Expr(b)); raise Fail("lists of lengths %d and %d were combined to %r" % (len(a), len(b), r))
            except RuntimeError: return True, ["mismatched"]
        r = F(Expr(a), Expr(b))
        check(isinstance(r, list) and len(r) == len(a), "%r %s %r is %r" % (a, op, b, r))
        judged = 0
        for env in c["pts"]:
            for i in range(len(a)):
                try: want = nr.ev([op, ref(c["a"][i]), ref(c["b"][i])], env)
                except Bad: continue
                g = at(r[i], env); check(isnum(g) and nr.close(float(g), want), "element %d of %r is %r at %s, expected %s" % (i, r, g, env, nr.mp.nstr(want.v, 17))); judged += 1
            # element by element for whole lists
            g = sub(Expr(r), {X: env["x"], Y: env["y"]}); check(isinstance(g, list) and len(g) == len(r) and all(same(p, at(q, env)) for p, q in zip(g, r)), "substituting into %r gives %r" % (r, g))
        d = derivative(Expr(a), X).to_python()
        check(isinstance(d, list) and len(d) == len(a), "the derivative of %r is %r" % (a, d))
        for env in c["pts"]:
            for i in range(len(a)):
                try: want = nr.dual(ref(c["a"][i]), "x", env)[1]
                except Bad: continue
                g = at(d[i], env)
                if isnum(g) and math.isnan(g): continue
                check(isnum(g) and nr.close(float(g), want), "element %d of the derivative %r is %r at %s, expected %s" % (i, d, g, env, nr.mp.nstr(want.v, 17)))
        return judged > 1 and len(a) > 1, ["length %d" % len(a)]
    def integer(c):
        """large whole numbers and special floats on either side of an operator"""
        k = number(c["k"])
        v = c["v"]
        for what, r, w in (("x+k", X + k, v + float(k)), ("k+x", k + X, v + float(k)), ("x-k", X - k, v - float(k)), ("k-x", k - X, float(k) - v), ("x*k", X * k, v * float(k)), ("k*x", k * X, v * float(k)),
                           ("x/k", X / k if k else 0.0, v / float(k) if k else 0.0), ("k/x", k / X, float(k) / v), ("Expr", Expr(k) + 0, float(k)), ("to_python", Expr(k).to_python(), float(k)), ("list", Expr([k]).to_python()[0], float(k)), ("sub", sub(X, {X: k}), float(k)), ("equation", sub(X, X.equal(k)), float(k))):
            g = at(r, {"x": v})
            check(isnum(g) and (g == w or (math.isnan(g) and math.isnan(w)) or abs(g - w) <= 1e-15 * abs(w)), "%s for k=%r is %r at x=%r, expected %r" % (what, k, g, v, w))
        if not (isinstance(k, float) and math.isnan(k)):
            check(Expr(k) == k and k == Expr(k) and not (Expr(k) != k), "Expr(%r) is not equal to its number" % k); check(hash(Expr(k)) == hash(Expr(float(k))), "hash of Expr(%r)" % k)
        check(not (X == k) and X != k, "x == %r" % k)
        return abs(k) > 2 ** 31 if not (isinstance(k, float) and math.isnan(k)) else True, [type(k).__name__]
    def errors(c):
        """any text gives an expression or an exception, and leaves the module working"""
        s = c["s"]
        try: e = Expr(s); got = "read"
        except Exception as x: e = None; got = "rejected"; check(type(x) is RuntimeError or (isinstance(x, UnicodeDecodeError) and not s.isascii()), "%r raised %s" % (s, type(x).__name__)); check("Exception thrown" in str(x) or isinstance(x, UnicodeDecodeError), "%r raised the message %r" % (s, str(x)))
        if e is not None:
            try: str(e); repr(e); e.latex(); e.debug_form(); hash(e); check(e == e or "nan" in str(e), "%s differs from itself" % e)
            except RuntimeError: pass
            for f in (lambda: derivative(e, X), lambda: e.to_python(), lambda: sub(e, {X: 2}), lambda: e + 1, lambda: 2 / e, lambda: sub(X + 1, e), lambda: derivative(X * X, e), lambda: e * e):
                try: f()
                except RuntimeError: pass
        check(sub(X * 3 - 1, {X: 2}) == 5.0, "the module stopped working")
        return len(s) > 3, [got]
    kinds = {"program": program, "convert": convert, "lists": lists, "numbers": integer, "errors": errors}
    for line in sys.stdin:
        c = json.loads(line)
        try:
            nt, labels = kinds[c["kind"]](c); res = ["pass", "", nt, labels]
        except Fail as x: res = ["fail", str(x), False, []]
        except Exception as x: res = ["fail", "%s: %s" % (type(x).__name__, str(x).replace("\n", " ")[:300]), False, []]
        out.write(json.dumps(res) + "\n"); out.flush()

# ---------------------------------------------------------------- generation, in the parent
def text(n):
    o = n[0]
    if o == "v": return n[1]
    if o == "d": return "(%r)" % n[1]
    if o == "neg": return "(-%s)" % text(n[1])
    if o in ("sin", "cos", "exp"): return "%s(%s)" % (o, text(n[1]))
    if o == "log": return "ln(%s)" % text(n[1])
    return "(%s%s%s)" % (text(n[1]), "^" if o == "pow" else o, text(n[2]))
def nops(n): return 0 if n[0] in ("v", "n", "E", "t") else 1 + nops(n[1]) + nops(n[2])
def depth(n): return 0 if n[0] not in ("list", "dict") else 1 + max([0] + [max(depth(c[0]), depth(c[1])) if n[0] == "dict" else depth(c) for c in n[1:]])
def isexpr(n): return n[0] in ("v", "E", "t") or (n[0] != "n" and (isexpr(n[1]) or isexpr(n[2])))
def pynum(rng):
    r = rng.random()
    if r < 0.45: return rng.choice([0, 1, 2, 3, -1, -2, 5, 7, 10, rng.randint(-100, 100)])
    if r < 0.85: return rng.choice([0.5, 1.5, -0.75, 2.25, 0.1, -3.0, 1e-3, 12.5, 3.0, round(rng.uniform(-10, 10), 3)])
    if r < 0.9: return rng.choice([True, False])
    return rng.choice([2 ** 31, 2 ** 31 - 1, -2 ** 31 - 1, 2 ** 40, 10 ** 12, 1e10, -2 ** 33])
def textleaf(rng):
    v = ["v", rng.choice("xxy")]; r = rng.random()
    if r < 0.4: return [rng.choice(["sin", "cos", "exp"]), v]
    if r < 0.55: return ["pow", v, ["d", rng.choice([2.0, 3.0])]]
    if r < 0.7: return ["+", ["v", "x"], ["*", ["d", 2.0], ["v", "y"]]]
    if r < 0.8: return ["neg", v]
    if r < 0.9: return ["*", ["v", "x"], ["v", "y"]]
    return ["d", 4.0]
def tree(rng, d):
    if d == 0 or rng.random() < 0.1:
        r = rng.random()
        if r < 0.4: return ["v", rng.choice("xxy")]
        if r < 0.75: return ["n", pynum(rng)]
        if r < 0.85: return ["E", pynum(rng)]
        return ["t", textleaf(rng)]
    return [rng.choice("+-*/+-*"), tree(rng, d - 1), tree(rng, d - 1)]
POOL = [0.5, 1.25, 2.0, -0.75, 3.0, 0.1, 1.5, -1.5, 2.75, 1, 2, -2]
def points(rng): return [{"x": rng.choice(POOL), "y": rng.choice(POOL)} for _ in range(2)]
def small(rng, lean=0.5):
    if rng.random() < lean: return ["n", rng.choice([0, 1, 2, -3, 0.5, -1.25, 1e6, 0.1])]
    return rng.choice([["v", "x"], ["v", "y"], ["+", ["v", "x"], ["n", 1]], ["*", ["n", 2], ["v", "x"]], ["-", ["v", "y"], ["v", "x"]], ["t", textleaf(rng)], ["E", 3]])
def struct(rng, d):
    r = rng.random()
    if d == 0 or r < 0.25: return small(rng) if rng.random() < 0.9 else ["n", rng.choice([2 ** 31, 10 ** 15, -2 ** 40, 2 ** 53])]
    if r < 0.7: return ["list"] + [struct(rng, d - 1) for _ in range(rng.randint(0, 4))]
    ks = rng.sample([["v", "x"], ["v", "y"], ["v", "z"], ["+", ["v", "x"], ["v", "y"]], ["n", 1], ["n", 2.5], ["t", ["sin", ["v", "x"]]]], rng.randint(0, 3))
    return ["dict"] + [[k, struct(rng, d - 1)] for k in ks]
def plain(n):
    """structures whose text is read back as it is"""
    if n[0] == "list": return all(plain(c) for c in n[1:])
    if n[0] == "dict": return all(k[0] == "v" and plain(v) for k, v in n[1:])
    return n[0] in ("n", "v", "E")
TOKENS = ["x", "y", "1", "2.5", "0", "+", "-", "*", "/", "^", "(", ")", "[", "]", "{", "}", ",", ":", "=", "sin", "ln ", "exp(", "e", "inf", "nan", "m", "±", "'", "|", ".", " ", "1e", "x1", "[1,2]", "{x:1}", "{m}", "\\", "\"", "π", "\u00e9", "<", ";", "x=2", "[x,y][1]"]
KINDS = [("program", 0.55), ("convert", 0.17), ("lists", 0.12), ("numbers", 0.06), ("errors", 0.10)]
def gen(rng):
    r = rng.random(); k = "errors"
    for name, w in KINDS:
        if r < w: k = name; break
        r -= w
    if k == "program":
        while True:
            n = tree(rng, rng.choice([1, 2, 2, 3, 3, 4]))
            if nops(n) and isexpr(n): break
        u = rng.choice([tree(rng, 2), ["+", n, ["n", 1]], ["-", ["n", 1], n]])
        if n[0] in "+-*/" and rng.random() < 0.3: u = [n[0], n[2], n[1]]
        return {"kind": k, "e": n, "u": u, "pts": points(rng)}
    if k == "convert":
        while True:
            s = struct(rng, rng.choice([1, 2, 2, 3]))
            if s[0] in ("list", "dict"): break
        return {"kind": k, "s": s, "text": plain(s)}
    if k == "lists":
        n = rng.randint(0, 4); m = n if rng.random() < 0.9 else rng.randint(0, 4)
        return {"kind": k, "a": [small(rng, 0.4) for _ in range(n)], "b": [small(rng, 0.4) for _ in range(m)], "op": rng.choice("+-*/"), "pts": points(rng)}
    if k == "numbers":
        v = rng.choice([rng.choice([-1, 1]) * (2 ** rng.randint(0, 70) + rng.randint(-2, 2)), rng.randint(-10 ** 18, 10 ** 18), rng.randint(-10, 10), rng.uniform(-1e3, 1e3), 10.0 ** rng.randint(-200, 200), "inf", "-inf", True])
        return {"kind": k, "k": v, "v": rng.choice([1.5, -2.0, 3.0, 0.25])}
    if rng.random() < 0.5:   # a text that almost reads
        t = text(small2(rng))
        for _ in range(rng.randint(0, 3)):
            i = rng.randint(0, len(t)); t = t[:i] + rng.choice(["", "", rng.choice(TOKENS)]) + t[i + rng.randint(0, 2):]
        return {"kind": k, "s": t}
    return {"kind": k, "s": "".join(rng.choice(TOKENS) for _ in range(rng.randint(0, 12))) if rng.random() < 0.7 else "".join(chr(rng.choice([rng.randint(1, 126), rng.randint(128, 0x2fff)])) for _ in range(rng.randint(0, 10)))}
def small2(rng, d=3):
    if d == 0 or rng.random() < 0.2: return textleaf(rng) if rng.random() < 0.6 else ["d", rng.choice([1.0, 2.0, -0.5, 0.0])]
    return [rng.choice(["+", "-", "*", "/", "pow"]), small2(rng, d - 1), small2(rng, d - 1)]
def shrink_tree(n):
    out = []
    if n[0] in ("n", "E"):
        for v in (1, 2, 0.5):
            if n[1] != v and not (type(n[1]) is int and abs(n[1]) <= v): out.append([n[0], v])
        return out
    if n[0] == "t": return [["v", "x"]]
    if n[0] == "v": return [["v", "x"]] if n[1] != "x" else []
    out = [n[1], n[2]]
    for i in (1, 2):
        for s in shrink_tree(n[i]): m = list(n); m[i] = s; out.append(m)
    return out
def shrink_struct(n):
    if n[0] == "list": return [c for c in n[1:] if c[0] in ("list", "dict")] + [n[:i] + n[i + 1:] for i in range(1, len(n))] + [n[:i] + [s] + n[i + 1:] for i in range(1, len(n)) for s in shrink_struct(n[i])]
    if n[0] == "dict": return [v for k, v in n[1:] if v[0] in ("list", "dict")] + [n[:i] + n[i + 1:] for i in range(1, len(n))] + [n[:i] + [[n[i][0], s]] + n[i + 1:] for i in range(1, len(n)) for s in shrink_struct(n[i][1])]
    return shrink_tree(n)
def shrinks(c):
    k = c["kind"]
    if k == "program":
        out = [dict(c, e=s) for s in shrink_tree(c["e"]) if nops(s) and isexpr(s)] + [dict(c, u=s) for s in shrink_tree(c["u"])] + [dict(c, pts=[p]) for p in c["pts"] if len(c["pts"]) > 1]
        return out + ([dict(c, u=["n", 12345])] if c["u"] != ["n", 12345] else []) + ([dict(c, pts=[{"x": 2.0, "y": 3.0}])] if c["pts"] != [{"x": 2.0, "y": 3.0}] else [])
    if k == "convert": return [dict(c, s=s, text=c["text"] and plain(s)) for s in shrink_struct(c["s"]) if s[0] in ("list", "dict")]
    if k == "lists":
        out = []
        for i in range(len(c["a"])):
            if len(c["a"]) == len(c["b"]): out.append(dict(c, a=c["a"][:i] + c["a"][i + 1:], b=c["b"][:i] + c["b"][i + 1:]))
            out += [dict(c, a=c["a"][:i] + [s] + c["a"][i + 1:]) for s in shrink_tree(c["a"][i])]
        for i in range(len(c["b"])): out += [dict(c, b=c["b"][:i] + [s] + c["b"][i + 1:]) for s in shrink_tree(c["b"][i])]
        return out + [dict(c, pts=[p]) for p in c["pts"] if len(c["pts"]) > 1]
    if k == "numbers":
        v = c["k"]
        if isinstance(v, str) or isinstance(v, bool): return [dict(c, k=2)]
        return [dict(c, k=w) for w in ((v // 2, 2 ** 31, 2, 1) if isinstance(v, int) else (2.0, 0.5)) if w != v and abs(w) < abs(v)]
    s = c["s"]; return [dict(c, s=s[:i] + s[i + 1:]) for i in range(len(s))] + [dict(c, s=s[:len(s) // 2]), dict(c, s=s[len(s) // 2:])] * (len(s) > 3)
def show(n):
    o = n[0]
    if o == "v": return "Expr('%s')" % n[1]
    if o == "n": return "(%r)" % n[1] if not isinstance(n[1], bool) and n[1] < 0 else repr(n[1])
    if o == "E": return "Expr(%r)" % n[1]
    if o == "t": return "Expr(%r)" % text(n[1])
    if o == "list": return "[" + ", ".join(show(c) for c in n[1:]) + "]"
    if o == "dict": return "{" + ", ".join("%s: %s" % (show(k), show(v)) for k, v in n[1:]) + "}"
    return "(%s %s %s)" % (show(n[1]), o, show(n[2]))
def describe(c):
    k = c["kind"]
    if k == "program": return "%s at %s, other %s" % (show(c["e"]), c["pts"][0], show(c["u"]))
    if k == "convert": return "Expr(%s)" % show(c["s"])
    if k == "lists": return "Expr([%s]) %s Expr([%s])" % (", ".join(map(show, c["a"])), c["op"], ", ".join(map(show, c["b"])))
    if k == "numbers": return "the number %r with x=%r" % (c["k"], c["v"])
    return "Expr(%r)" % c["s"]

class Worker:
    def __init__(self, moddir): self.moddir = moddir; self.p = None
    def start(self):
        env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", self.moddir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    def run(self, c, seconds=60):
        if self.p is None: self.start()
        import select
        try: self.p.stdin.write(json.dumps(c) + "\n"); self.p.stdin.flush()
        except BrokenPipeError: self.p = None; return ["fail", "the interpreter died", False, []]
        r, _, _ = select.select([self.p.stdout], [], [], seconds)
        line = self.p.stdout.readline() if r else None
        if not line:
            self.p.kill(); st = self.p.wait(); self.p = None
            return ["fail", "no answer in %d s" % seconds if line is None else "the interpreter died (status %d)" % st, False, []]
        return json.loads(line)
    def stop(self):
        if self.p: self.p.stdin.close(); self.p.wait()

def build(where):
    d = os.path.join(where, "stator"); os.makedirs(d)
    shutil.copy(os.path.join(REPO, "pysrc/stator/__init__.py"), d)
    inc = sysconfig.get_paths(vars={"base": "/usr", "installed_base": "/usr"})["include"]
    inc = [i for i in (inc, sysconfig.get_paths()["include"], "/usr/include/python%d.%d" % sys.version_info[:2]) if os.path.exists(os.path.join(i, "Python.h"))][0]
    log = ""
    for cc in ("clang++", "g++"):
        r = subprocess.run([cc, "-O0", "-w", "-std=c++17", "-shared", "-fPIC", "-fvisibility=hidden", "-I" + REPO, "-isystem", "/usr/include/eigen3", "-isystem", inc, os.path.join(REPO, "pysrc/stator/core.cpp"), "-o", os.path.join(d, "core" + sysconfig.get_config_var("EXT_SUFFIX"))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: return True, ""
        log += r.stdout
    return False, log

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--worker": return worker(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("--replay-out")
    ap.add_argument("--replay"); ap.add_argument("--known", default=""); ap.add_argument("--scale", type=float, default=1); ap.add_argument("--only")
    a = ap.parse_args()
    base = os.environ.get("VERIF_BUILD") or tempfile.mkdtemp(prefix="p26-")
    mod = tempfile.mkdtemp(prefix="mod", dir=base)
    try:
        ok, log = build(mod)
        if not ok: print(log[:3000], file=sys.stderr); print("the module does not compile"); return 3
        if a.replay:
            c = json.loads([l for l in open(a.replay) if l.startswith("{")][0]); w = Worker(mod); r = w.run(c); w.stop()
            print(describe(c)); print(r[0], r[1]); return 1 if r[0] == "fail" else 0
        from concurrent.futures import ThreadPoolExecutor
        jobs = os.cpu_count() or 4; total = int((24000 if a.tier == "quick" else 400000) * a.scale); maxsec = 100 if a.tier == "quick" else 1200
        stats = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "unconfirmed": 0, "truncated": False, "rule": "A program is non-trivial with two operations and a variable; a conversion with a structure of more than one element; a list case with two judged elements; a number beyond 32 bits; an error text of more than three characters.", "samples": [], "subtests": {}, "labels": {}, "message": "", "known": []}
        import threading
        lock = threading.Lock(); seen = set(); failures = []; t0 = time.time()
        def run(j):
            rng = random.Random("%d/%d" % (a.seed, j)); w = Worker(mod)
            for _ in range(total // jobs):
                if failures: break
                if time.time() - t0 > maxsec: stats["truncated"] = True; break
                c = gen(rng)
                if a.only and c["kind"] != a.only: continue
                key = json.dumps(c)
                r = w.run(c)
                with lock:
                    stats["evaluations"] += 1; s = stats["subtests"].setdefault(c["kind"], {"evaluations": 0, "nontrivial": 0}); s["evaluations"] += 1
                    for l in r[3]: stats["labels"][c["kind"] + "/" + l] = stats["labels"].get(c["kind"] + "/" + l, 0) + 1
                    if r[0] == "fail": failures.append((c, r[1]))
                    elif r[2] and key not in seen:
                        seen.add(key); stats["distinct_nontrivial"] += 1; s["nontrivial"] += 1
                        if s["nontrivial"] <= 5: stats["samples"].append(c["kind"] + ": " + describe(c))
            w.stop()
        with ThreadPoolExecutor(jobs) as pool: list(pool.map(run, range(jobs)))
        rc = 0; w = Worker(mod)
        for c, msg in failures:
            if any(w.run(c)[0] != "fail" for _ in range(2)): stats["unconfirmed"] += 1; continue
            rc = 1; print("FAILURE %s => %s" % (describe(c), msg))
            end = time.time() + 60; progress = True
            while progress and time.time() < end:
                progress = False
                for s in shrinks(c):
                    if len(json.dumps(s)) > len(json.dumps(c)) or s == c or time.time() > end: continue
                    r = w.run(s)
                    if r[0] == "fail" and (len(json.dumps(s)) < len(json.dumps(c)) or json.dumps(s) < json.dumps(c)): c, msg, progress = s, r[1], True; break
            stats["message"] = "%s => %s" % (describe(c), msg); print("shrunk: " + stats["message"])
            if a.replay_out: open(a.replay_out, "w").write("# %s\n%s\n" % (stats["message"].replace("\n", " "), json.dumps(c)))
            break
        w.stop()
        if a.out: json.dump(stats, open(a.out, "w"), indent=1)
        else: print(json.dumps(stats, indent=1))
        return rc
    finally:
        shutil.rmtree(mod, ignore_errors=True)
        if not os.environ.get("VERIF_BUILD"): shutil.rmtree(base, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
