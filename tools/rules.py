#!/usr/bin/env python3
"""Collects rule texts and counts from the evidence of the last runs into tools/design/rules.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = {}
for f in sorted(glob.glob(root + "/evidence/*.json")):
    e = json.load(open(f)); c = e["coverage"]
    r[e["property"]] = dict(rule=c["explanation"].split("Rule: ", 1)[1], min=c["minimum_obligations"], obs=c["obligations"],
                            fns=c["function_count"], wall=round(e["wall_s"], 1))
json.dump(r, open(root + "/tools/design/rules.json", "w"), indent=1, sort_keys=True)
