#!/usr/bin/env python3
"""kf.py fixed PROP WHAT [COMMIT] | kf.py find ID PROP LABEL TAG WHAT | kf.py rm ID : edit known_findings.json by hand (never run by a check)."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
a = sys.argv[1:]
if a[0] == "fixed":
    c = a[3] if len(a) > 3 else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=10", "HEAD"], text=True).strip()
    d["fixed"].append("fixed: property=%s %s %s" % (a[1], c, a[2]))
elif a[0] == "find":
    d["findings"] = [f for f in d["findings"] if f["id"] != a[1]]
    d["findings"].append(dict(id=a[1], property=a[2], label=a[3], tag=a[4], what=a[5]))
elif a[0] == "rm":
    d["findings"] = [f for f in d["findings"] if f["id"] != a[1]]
with open(p, "w") as f:
    f.write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(x) for x in d["findings"]) + '\n ],\n "fixed": [\n' + ",\n".join("  " + json.dumps(x) for x in d["fixed"]) + "\n ]\n}\n")
