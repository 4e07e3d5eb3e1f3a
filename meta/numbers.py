#!/usr/bin/env python3
"""Collects the numbers of the last quick run from the evidence."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    out = json.load(open(root + "/meta/numbers.json"))
except OSError:
    out = {}
for f in sorted(glob.glob(root + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e.get("tier", "quick") != "quick":
        continue
    out[os.path.basename(f)[:-5]] = {"executions": c["evaluations"], "states": c.get("states", 0), "transitions": c.get("transitions", 0), "sec": e.get("wall_s", c.get("wall_s", 0)), "exhaustive": c.get("exhaustive")}
json.dump(out, open(root + "/meta/numbers.json", "w"), indent=1)
