#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
NOT = {}
checks = []
for i in ids:
    if i not in props.PROPS:
        NOT.setdefault(i, "check not built yet")
        continue
    p = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
        "technique": "TLA+ specification checked with TLC, bound to the code by validating recorded executions of the library against it",
        "level": "model_checking",
        "level_note": p.get("note", "Every recorded operation of the real code is accepted by the TLA+ state machine; bounded to the generated problems and points."),
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
     "notes": "No hooks in /repo: the executors use the public API only. The commits in /repo are repairs (see known_findings.txt)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
