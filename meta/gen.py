#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below (committed output)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash /verif/check.sh quick " + p["id"],
        "thorough_cmd": "bash /verif/check.sh thorough " + p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Static analysis only: the checks type-check and analyse /repo's current source and run none of it. No hooks in /repo.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
