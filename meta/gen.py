#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and checks.json from props.py."""
import json, os
from props import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda p: p["id"])
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        an = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            an["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": an}, ensure_ascii=False) + "\n")
checks, cj, na = [], {}, []
for p in P:
    if not p["pkg"]:
        na.append({"property": p["id"], "reason": p["na"] or "its check is under construction"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check --quick " + p["id"], "thorough_cmd": "./check --thorough " + p["id"],
                   "technique": p["technique"], "level": p["level"],
                   "level_note": (p["note"] or "") + (" Assumes: " + " ".join(p["assumptions"]) if p["assumptions"] else "")})
    c = {"pkg": p["pkg"], "level": p["level"]}
    if p["race"]:
        c["race"] = True
    if p["rule"]:
        c["rule"] = p["rule"]
    if p["assumptions"]:
        c["assumptions"] = p["assumptions"]
    for k in ("quick", "thorough"):
        if p[k]:
            c[k + "_sec"] = p[k]
    cj[p["id"]] = c
json.dump({"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
           "notes": "The checks instrument a copy of /repo's working tree (outside /repo); nothing is added to /repo for them."}, open(root + "/MANIFEST.json", "w"), indent=1)
json.dump(cj, open(root + "/checks.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
