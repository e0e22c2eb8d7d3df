#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in this folder."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from table import PROPS, NA, NOTES

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")
