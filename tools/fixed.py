#!/usr/bin/env python3
"""fixed.py <property> <commit-ish> <what failed>: record a repair in known_findings.json"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=7", sys.argv[2]], text=True).strip()
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[3]))
json.dump(d, open(p, "w"), indent=1)
