#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
         "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
        for p in PROPS if p["id"] not in na],
    "not_applicable": NOT_APPLICABLE,
    "notes": "All checks are one bounded explicit-state explorer (harness/mc) that executes /repo's code on every element of a finite space and compares each run with an independent reference model (harness/ref). No hooks are compiled into /repo. known_findings.txt lists genuine defects: fixed ones (suppress nothing) and recorded ones.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
