"""Property-based testing of compile-time code: random C++ programs.

A case is a JSON value. A family (subclass of Family) generates cases, writes a
C++ function for each, judges the values it prints against a reference computed
here, and proposes smaller cases. The engine compiles many cases per program in
parallel against the library in VERIF_REPO, runs them, and shrinks failures.

A case whose code does not compile (although the library does) is a failure:
every generated program uses only the documented interface. A compiler that runs
out of its time or memory allowance gives no verdict for that case.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PREAMBLE = r'''
#include <stator/symbolic/symbolic.hpp>
#include <cstdio>
#include <map>
#include <string>
#include <exception>
namespace gp {
  inline void str(int k, const char *t, const std::string &s) { std::string o; for (char c : s) { if (c == '\n') o += ' '; else o += c; } std::printf("%d %s s %s\n", k, t, o.c_str()); }
  inline void num(int k, const char *t, double v) { std::printf("%d %s d %a\n", k, t, v); }
  // the number an expression has become after substitution
  template <class T> void out(int k, const char *t, const T &v) {
    if constexpr (std::is_arithmetic<T>::value) num(k, t, (double)v);
    else if constexpr (sym::is_C<T>::value) num(k, t, double(v));
    else str(k, t, "not a number: " + sym::repr(v));
  }
  template <class F> void run(int k, F f) {
    try { f(); } catch (std::exception &e) { str(k, "EXC", e.what()); } catch (...) { str(k, "EXC", "unknown"); }
    std::printf("%d END s end\n", k);
  }
}
'''
# for the units which use runtime expressions
RUNTIME = r'''
#include <stator/symbolic/runtime.hpp>
#include "rt_common.hpp"
namespace gp {
  typedef std::map<std::string, double> Env;
  // the value of a runtime expression under an assignment of its variables
  inline void rt(int k, const char *t, const sym::Expr &e, const Env &env) {
    ref::NP n = ref::fromExpr(e); ref::Val v = ref::eval(n, env);
    if (v.t == ref::Val::Scalar) num(k, t, (double)v.q.v);
    else if (v.t == ref::Val::Bad) num(k, t, v.q.p);
    else str(k, t, "not a number: " + ref::show(n));
  }
  inline void parsed(int k, const char *t, const std::string &s, const Env &env) { rt(k, t, sym::Expr(s), env); }
  inline void rtsimplified(int k, const char *t, const sym::Expr &e, const Env &env) { rt(k, t, sym::simplify(e), env); }
}
'''

class Family:
    name = "family"; rule = ""; per_unit = 12; prelude = ""; runtime = False
    quick = 200; thorough = 2000
    def gen(self, rng): raise NotImplementedError
    def code(self, case, k): raise NotImplementedError   # statements; may use gp::out(k, tag, value)
    def judge(self, case, res): raise NotImplementedError  # -> (message or None, nontrivial, labels, known key or None)
    def shrinks(self, case): return []
    def describe(self, case): return json.dumps(case)
    def key(self, case): return json.dumps(case)

class Engine:
    def __init__(self, build, jobs=8):
        self.build = build; self.jobs = jobs; self.flags = ["-O0", "-w", "-std=c++17", "-I" + HERE, "-I" + REPO, "-isystem", "/usr/include/eigen3"]
        self.cc = "clang++"; self.n = 0; self.ok = True
    def limit(self, cpu, running=False):
        import resource
        def f():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            if not (running and any("sanitize" in x for x in self.flags)): resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        return f
    def prepare(self, families):
        """precompile the headers; units using runtime expressions share one object with their code"""
        jobs = []
        for kind in ("light", "runtime"):
            fs = [f for f in families if f.runtime == (kind == "runtime")]
            if not fs: continue
            h = os.path.join(self.build, kind + ".hpp")
            preludes = []
            for f in fs:
                if f.prelude not in preludes: preludes.append(f.prelude)
            open(h, "w").write("#pragma once\n" + PREAMBLE + (RUNTIME if kind == "runtime" else "") + "".join(preludes))
            cmd = [self.cc] + self.flags + (["-fpch-codegen", "-Xclang", "-building-pch-with-obj"] if kind == "runtime" else []) + ["-fpch-instantiate-templates", "-x", "c++-header", h, "-o", h + ".pch"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: return False, r.stdout
            if kind == "runtime":
                r = subprocess.run([self.cc] + self.flags + ["-c", h + ".pch", "-o", h + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode: return False, r.stdout
        return True, ""
    def unit(self, bodies):
        s = []
        for k, b in bodies: s.append("static void case_%d() { gp::run(%d, [] { const int k = %d; (void)k; %s }); }\n" % (k, k, k, b))
        s.append("int main() { std::setvbuf(stdout, 0, _IOLBF, 1 << 16); %s return 0; }\n" % " ".join("case_%d();" % k for k, _ in bodies))
        return "".join(s)
    def compile_run(self, bodies, cpu=60, runtime=False):
        """-> (status, text, results); status in ok, error, expensive, crash"""
        d = tempfile.mkdtemp(prefix="u", dir=self.build)
        try:
            pch = os.path.join(self.build, "runtime.hpp" if runtime else "light.hpp")
            src = os.path.join(d, "u.cpp"); open(src, "w").write(self.unit(bodies))
            try: r = subprocess.run([self.cc] + self.flags + ["-ferror-limit=3", "-ftemplate-backtrace-limit=2", "-include-pch", pch + ".pch", src] + (["-x", "none", pch + ".o"] if runtime else []) + ["-o", os.path.join(d, "u")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=self.limit(cpu), timeout=6 * cpu)
            except subprocess.TimeoutExpired: return "expensive", "", {}
            if r.returncode != 0:
                # running out of the allowance says nothing about the program
                if " error: " not in r.stdout or r.returncode < 0 or "out of memory" in r.stdout.lower() or "bad_alloc" in r.stdout or "CPU time limit" in r.stdout or "due to signal" in r.stdout or "unable to execute" in r.stdout: return "expensive", r.stdout[:2000], {}
                return "error", r.stdout[:4000], {}
            try: q = subprocess.run([os.path.join(d, "u")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=self.limit(30, True), timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0"))
            except subprocess.TimeoutExpired: return "crash", "did not end", {}
            res = {}
            for line in q.stdout.splitlines():
                m = re.match(r"(\d+) (\S+) ([ds]) (.*)$", line)
                if not m: continue
                v = m.group(4)
                if m.group(3) == "d":
                    v = float("nan") if "nan" in v else float("-inf") if v.startswith("-inf") else float("inf") if v.startswith("inf") else float.fromhex(v)
                res.setdefault(int(m.group(1)), {})[m.group(2)] = v
            if q.returncode != 0: return "crash", "status %d: %s" % (q.returncode, " ".join(re.findall(r"SUMMARY: .*|Assertion .*", q.stdout)[:2]) or q.stdout[-500:]), res
            return "ok", "", res
        finally:
            shutil.rmtree(d, ignore_errors=True)

def verdict(fam, case, status, text, res):
    """-> (kind, message, nontrivial, labels, known); kind in pass, fail, none"""
    if status == "expensive": return "none", "", False, ["too expensive to compile"], None
    if status == "error": return "fail", "does not compile: " + " | ".join(l.strip() for l in text.splitlines() if "error:" in l)[:600], False, [], None
    if status == "crash" and "END" not in (res or {}): return "fail", "the program crashed: " + text[:300], False, [], None
    if "EXC" in res: return "fail", "exception: " + str(res["EXC"])[:400], False, [], None
    m, nt, labels, known = fam.judge(case, res)
    return ("fail" if m else "pass"), m, nt, labels, known

def run_one(eng, fam, case, cpu=40):
    st, tx, rs = eng.compile_run([(0, fam.code(case, 0))], cpu, fam.runtime)
    return verdict(fam, case, st, tx, rs.get(0, {}))

def shrink(eng, fam, case, message, seconds):
    end = time.time() + seconds
    best, msg = case, message
    with ThreadPoolExecutor(eng.jobs) as pool:
        progress = True
        while progress and time.time() < end:
            progress = False
            cand = []; seen = {fam.key(best)}
            for c in fam.shrinks(best):
                if fam.key(c) not in seen: seen.add(fam.key(c)); cand.append(c)
            for i in range(0, len(cand), eng.jobs):
                if time.time() > end: break
                group = cand[i:i + eng.jobs]
                for c, v in zip(group, pool.map(lambda c: run_one(eng, fam, c), group)):
                    if v[0] == "fail" and not v[4]:
                        best, msg, progress = c, v[1], True; break
                if progress: break
    return best, msg

def main(families, flags=()):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("--replay-out")
    ap.add_argument("--replay"); ap.add_argument("--known", default=""); ap.add_argument("--only"); ap.add_argument("--scale", type=float, default=1); ap.add_argument("--maxsec", type=float, default=0)
    a = ap.parse_args()
    base = os.environ.get("VERIF_BUILD") or tempfile.mkdtemp(prefix="gp-")
    build = tempfile.mkdtemp(prefix="gp", dir=base)
    maxsec = a.maxsec or (150 if a.tier == "quick" else 1500)
    known = set(x for x in a.known.split(",") if x)
    try:
        eng = Engine(build, os.cpu_count() or 4); eng.flags += list(flags)
        ok, log = eng.prepare([f for f in families if not a.only or f.name == a.only])
        if not ok:
            print(log[:3000], file=sys.stderr)
            print("the headers do not compile"); return 3
        if a.replay:
            d = json.loads([l for l in open(a.replay) if l.startswith("{")][0])
            fam = [f for f in families if f.name == d["family"]][0]
            v = run_one(eng, fam, d["case"], 120)
            print(fam.name, fam.describe(d["case"])); print(v[0], v[1] or "")
            return 1 if v[0] == "fail" and not (v[4] and v[4] in known) else 0
        t0 = time.time()
        units = []
        for f in families:
            if a.only and f.name != a.only: continue
            rng = random.Random("%s/%d" % (f.name, a.seed)); n = int((f.quick if a.tier == "quick" else f.thorough) * a.scale)
            cases = []; seen = set()
            for _ in range(4 * n):
                if len(cases) >= n: break
                c = f.gen(rng)
                if f.key(c) in seen: continue
                seen.add(f.key(c)); cases.append(c)
            for i in range(0, len(cases), f.per_unit): units.append((f, cases[i:i + f.per_unit]))
        random.Random(a.seed).shuffle(units)
        stats = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "unconfirmed": 0, "truncated": False, "rule": " ".join(f.rule for f in families), "samples": [], "subtests": {}, "labels": {}, "message": "", "known": []}
        for f in families: stats["subtests"][f.name] = {"evaluations": 0, "discarded": 0}
        failures = []; knownseen = set()
        def record(f, c, v):
            kind, msg, nt, labels, kn = v
            if kind == "none": stats["discarded"] += 1; stats["subtests"][f.name]["discarded"] += 1
            else: stats["evaluations"] += 1; stats["subtests"][f.name]["evaluations"] += 1
            for l in labels: stats["labels"][f.name + "/" + l] = stats["labels"].get(f.name + "/" + l, 0) + 1
            if kind == "pass" and nt:
                stats["distinct_nontrivial"] += 1
                if stats["subtests"][f.name].setdefault("nontrivial", 0) < 8: stats["samples"].append(f.name + ": " + f.describe(c))
                stats["subtests"][f.name]["nontrivial"] += 1
            if kn and kn in known: knownseen.add(kn)
            if kind == "fail" and not (kn and kn in known): failures.append((f, c, msg))
        stop = []
        def do(u):
            f, cs = u
            if stop or time.time() - t0 > maxsec: return f, [(c, None) for c in cs]
            st, tx, rs = eng.compile_run([(i, f.code(c, i)) for i, c in enumerate(cs)], 60, f.runtime)
            if st == "ok": return f, [(c, verdict(f, c, st, tx, rs.get(i, {}))) for i, c in enumerate(cs)]
            if len(cs) > 3:   # find out which case it is
                h = (len(cs) + 1) // 2
                return f, do((f, cs[:h]))[1] + do((f, cs[h:]))[1]
            out = []
            for c in cs:
                if stop or time.time() - t0 > maxsec + 60: out.append((c, None)); continue
                v = run_one(eng, f, c, 30); out.append((c, v))
                if v[0] == "fail" and not v[4]: stop.append(1)
            return f, out
        with ThreadPoolExecutor(eng.jobs) as pool:
            futs = [pool.submit(do, u) for u in units]
            for fu in futs:
                if failures: fu.cancel()
                if fu.cancelled(): continue
                f, out = fu.result()
                for c, v in out:
                    if v is None: stats["truncated"] = True; continue
                    record(f, c, v)
        rc = 0; fam_case = None
        for f, c, msg in failures:
            again = [run_one(eng, f, c, 90) for _ in range(2)]
            if all(v[0] == "fail" for v in again): fam_case = (f, c, msg); break
            stats["unconfirmed"] += 1
        if fam_case:
            f, c, msg = fam_case; rc = 1
            print("FAILURE %s: %s => %s" % (f.name, f.describe(c), msg))
            c, msg = shrink(eng, f, c, msg, 90)
            stats["message"] = "%s: %s => %s" % (f.name, f.describe(c), msg)
            print("shrunk: " + stats["message"])
            if a.replay_out:
                with open(a.replay_out, "w") as o:
                    o.write("# %s\n" % stats["message"].replace("\n", " "))
                    o.write(json.dumps({"family": f.name, "case": c}) + "\n")
                    o.write("# program:\n" + "".join("#   " + l + "\n" for l in f.code(c, 0).splitlines()))
        stats["known"] = sorted(knownseen)
        stats["samples"] = stats["samples"][:24]
        if a.out: json.dump(stats, open(a.out, "w"), indent=1)
        else: print(json.dumps(stats, indent=1))
        return rc
    finally:
        shutil.rmtree(build, ignore_errors=True)
        if not os.environ.get("VERIF_BUILD"): shutil.rmtree(base, ignore_errors=True)
