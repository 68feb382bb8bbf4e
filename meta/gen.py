#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/meta")
from props import PROPS, NA

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s quick" % p["id"], "thorough_cmd": "python3-vt check.py %s thorough" % p["id"],
                   "technique": "contracts on the real functions, discharged by a deductive verifier over rustc MIR (mirv + z3); failed obligations replayed by executable contracts",
                   "level": "proof", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the verifier reads the compiler's MIR of the unmodified crates (RUSTC_WRAPPER adds --emit=mir)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks")
