#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py (kept in step by construction)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": p.get("na", "no check built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
                   "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "./tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the monitors use the public API, the listener interfaces and compiler instrumentation", "source_commits": []},
     "notes": "Runtime monitoring: each check links a harness with the sources in /repo, runs a seeded workload and judges every observed state with an independent oracle. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
