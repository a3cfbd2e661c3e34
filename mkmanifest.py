#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = json.load(open(os.path.join(here, "techniques.json")))
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)' && clang++ --version",
     "checks": [], "not_applicable": [], "notes": "Every check is a seeded generated-input search; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i]["technique"], "level": "exploration", "level_note": TECH[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "harness not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
