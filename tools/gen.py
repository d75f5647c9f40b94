#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NA, PROPS

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real source (AST-instrumented) + z3, counterexamples replayed on the unmodified code"
NOTE = ("Every path of the harness within the stated bounds is explored and each assertion is discharged by z3 for all values on the "
        "path; floats are modelled as reals, transcendental functions by true axioms, random draws and native optimisers by their "
        "contract. Violations are reported only when they reproduce on the unmodified code.")
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(q) + "\n")
        if p["id"] in NA:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                       "technique": TECH, "level": "model_checking", "level_note": NOTE + (" " + p["note"] if p.get("note") else ""),
                       "evidence_file": f"evidence/{p['id']}.json"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks: the source is instrumented in memory when it is imported", "source_commits": []},
           "notes": "see DESIGN.md"}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
