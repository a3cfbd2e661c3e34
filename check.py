#!/usr/bin/env python3
"""Run the check of one property: check.py P05 [--replay FILE]

Builds the harness of the property against /repo's current working tree, runs
it for the tier in VERIF_TIER (quick/thorough) with the seed in VERIF_SEED,
writes evidence/<id>.json, and exits 0 (held) or 1 with a VIOLATION line.
"""
import json, os, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]

# property -> list of parts; a part is a C++ harness or a Python program
def cpp(src, flags=(), stack=1000, maxsec=(100, 600), env=None):
    return {"kind": "cpp", "src": src, "flags": list(flags), "stack": stack, "maxsec": maxsec, "env": env or {}}
def py(src, python="python3"):
    return {"kind": "py", "src": src, "python": python}

ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:symbolize=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0"}
CHECKS = {
    "P01": [cpp("p01_grammar.cpp")],
    "P02": [cpp("p02_robust.cpp", SAN, 256, env=ASAN)],
    "P03": [cpp("p03_roundtrip.cpp")],
    "P04": [cpp("p04_render.cpp")],
    "P05": [cpp("p05_simplify.cpp")],
    "P06": [cpp("p06_substitute.cpp")],
    "P07": [cpp("p07_derivative.cpp")],
    "P08": [cpp("p08_equality.cpp")],
    "P09": [cpp("p09_sharing.cpp", SAN, 256, env=ASAN)],
    "P10": [cpp("p10_lists.cpp")],
    "P11": [cpp("p11_dicts.cpp")],
    "P12": [cpp("p12_units.cpp")],
    "P13": [py("p13_programs.py", "python3-vt")],
    "P14": [cpp("p14_poly_ring.cpp")],
    "P15": [cpp("p15_poly_transform.cpp")],
    "P16": [cpp("p16_poly_division.cpp", SAN, 256, env=ASAN)],
    "P17": [cpp("p17_low_roots.cpp")],
    "P18": [cpp("p18_high_roots.cpp")],
    "P19": [cpp("p19_root_bounds.cpp")],
    "P20": [cpp("p20_arrays.cpp", SAN, 256, env=ASAN)],
    "P21": [cpp("p21_autodiff.cpp")],
    "P22": [py("p22_taylor.py", "python3-vt")],
    "P23": [cpp("p23_refine.cpp")],
    "P24": [cpp("p24_stackvector.cpp", SAN, 256, env=ASAN)],
    "P25": [py("p25_rationals.py")],
    "P26": [py("p26_python.py", "python3-vt")],
    "P27": [cpp("p27_text.cpp", SAN, 256, env=ASAN)],
    "P28": [cpp("p28_shapes.cpp")],
    "P29": [cpp("p29_poly_tools.cpp")],
    "P30": [py("p30_intervals.py", "python3-vt")],
    "P31": [py("p31_integrate.py", "python3-vt")],
    "P32": [py("p32_lists.py", "python3-vt")],
    "P34": [cpp("p34_errors.cpp", SAN, 256, env=ASAN)],
    "P33": [py("p33_linear.py"), cpp("p33_matrix_text.cpp", SAN, 256, env=ASAN)],
}

def known_keys(prop):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(None, 2)[2].strip()
                key, _, text = rest.partition(" ")
                if key.startswith("key="):
                    keys[key[4:]] = text
    return keys

def limits(stack_mb):
    def f():
        os.setsid()
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, resource.RLIM_INFINITY))
        except (ValueError, OSError):
            try: resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, stack_mb << 20))
            except (ValueError, OSError): pass
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

INC = ["-I" + REPO, "-isystem", "/usr/include/eigen3"]
def compile_cpp(src, out, flags):
    cmds = [["clang++", "-O0", "-w", "-std=c++17"], ["g++", "-O0", "-w", "-std=c++17"]]
    log = ""
    for c in cmds:
        r = subprocess.run(c + flags + ["-I" + SRC] + INC + [src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: return True, log
        log += " ".join(c) + "\n" + r.stdout[:20000] + "\n"
    return False, log

def api_compiles(build):
    p = os.path.join(build, "probe.cpp")
    open(p, "w").write("#include <stator/symbolic/runtime.hpp>\n#include <stator/symbolic/symbolic.hpp>\n#include <stator/symbolic/ad.hpp>\n#include <stator/symbolic/taylor.hpp>\n#include <stator/symbolic/polynomial.hpp>\n#include <stator/symbolic/numeric.hpp>\nint main(){ sym::Expr e(\"x+1\"); return sym::repr(e).empty(); }\n")
    return compile_cpp(p, os.path.join(build, "probe"), [])[0]

def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    if not os.path.isdir(os.path.join(REPO, "stator")):
        print("no source tree at " + REPO); return 2
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    build = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
    known = known_keys(prop)
    try:
        total = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "rule": [], "samples": [], "subtests": {}, "labels": {}, "unconfirmed": 0, "truncated": False}
        seen_known = set(); violations = 0; message = ""; replay_path = None; assumptions = []
        for i, part in enumerate(CHECKS[prop]):
            name = os.path.splitext(part["src"])[0]
            if replay and len(CHECKS[prop]) > 1 and name not in open(replay, errors="replace").readline() + os.path.basename(replay): continue
            out = os.path.join(build, name + ".json")
            rp = os.path.join(VERIF, "replays", "%s-%s.txt" % (prop, name))
            if os.path.exists(rp) and rp != replay: os.unlink(rp)
            env = dict(os.environ); env.update(part.get("env", {})); env["PYTHONPATH"] = SRC; env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["VERIF_REPO"] = REPO; env["VERIF_BUILD"] = build
            args = ["--seed", str(seed), "--tier", tier, "--out", out, "--replay-out", rp]
            if known: args += ["--known", ",".join(sorted(known))]
            if replay: args = ["--replay", replay]
            if part["kind"] == "cpp":
                exe = os.path.join(build, name)
                ok, log = compile_cpp(os.path.join(SRC, part["src"]), exe, part["flags"])
                if not ok:
                    sys.stderr.write(log[:6000])
                    if not api_compiles(build):
                        print("the library does not compile"); return 2
                    # the documented interface used by this check no longer compiles
                    open(rp, "w").write("# the public interface exercised by %s no longer compiles\n%s" % (part["src"], log))
                    violations += 1; message = "harness no longer compiles against the library"; replay_path = rp; break
                cmd = [exe] + args + ["--maxsec", str(part["maxsec"][tier == "thorough"])]
                stack = part["stack"]
            else:
                cmd = [part["python"], os.path.join(SRC, part["src"])] + args
                stack = 1000
            errf = open(os.path.join(build, name + ".err"), "w")
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=errf, text=True, preexec_fn=limits(stack), cwd=build)
            errf.close()
            sys.stdout.write(r.stdout)
            if replay:
                return r.returncode
            if not os.path.exists(out) or r.returncode not in (0, 1):
                sys.stderr.write(open(errf.name).read()[-4000:])
                print("harness %s ended with status %s" % (name, r.returncode)); return 2
            j = json.load(open(out))
            for k in ("evaluations", "distinct_nontrivial", "discarded", "unconfirmed"): total[k] += int(j.get(k, 0))
            total["truncated"] = total["truncated"] or bool(j.get("truncated"))
            total["rule"].append(j.get("rule", "")); total["samples"] += j.get("samples", [])
            total["subtests"].update(j.get("subtests", {})); total["labels"].update(j.get("labels", {}))
            assumptions += j.get("assumptions", [])
            seen_known |= set(j.get("known", []))
            if r.returncode == 1:
                violations += 1; message = j.get("message", ""); replay_path = rp; break
        total["rule"] = " ".join(x for x in total["rule"] if x)
        total["samples"] = total["samples"][:24]
        if not total["samples"]: total["samples"] = [message or "none"]
        total["message"] = message
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": total, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, total["evaluations"], total["distinct_nontrivial"], time.time() - t0))
        if violations:
            print("VIOLATION property=%s replay=%s" % (prop, replay_path))
            return 1
        return 0
    finally:
        shutil.rmtree(build, ignore_errors=True)

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True, errors="replace")
    sys.exit(main())
