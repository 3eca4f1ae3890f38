#!/usr/bin/env python3
"""Warms the compiler cache: builds every harness the checks use, from /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS
done = set()
for pid, spec in sorted(CHECKS.items()):
    for s in spec["parts"]:
        k = (s["variant"], s["harness"])
        if k not in done:
            done.add(k)
            B.build(s["variant"], s["harness"], "setup")
print("built", len(done), "harnesses")
