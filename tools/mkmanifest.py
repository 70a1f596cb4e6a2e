#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the harness files that exist."""
import json, os, re, glob
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(v + "/harness/h/*.go"):
    have |= set(re.findall(r"^func (C\d\d)_\w+\(\)", open(f).read(), re.M))
NA = {}
if os.path.exists(v + "/tools/na.json"):
    NA = json.load(open(v + "/tools/na.json"))
checks, na = [], []
for l in open(v + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in have and i not in NA:
        checks.append({"property": i, "quick_cmd": "./run %s quick" % i, "thorough_cmd": "./run %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the tool's Go SSA with SMT (z3) obligations; counterexamples replayed on the built binary",
            "level": "model_checking",
            "level_note": "Exhaustive over every value of the symbolic inputs within the bounds of the harnesses (sizes and choices, see DESIGN.md). Trusts the engine's Go semantics and its contracts for third-party code, which sampled paths check against the real binary on every run."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses drive the tool through main() and its files; they enter the build by overlay. ./replay FILE reruns a counterexample."}
json.dump(m, open(v + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
