#!/usr/bin/env python3
"""Generates DESIGN.md: design.md, the plan per property, findings and planted bugs."""
import json, os, glob
from props import P
from plan import PLAN, AFTER
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(root + "/meta/design.md").read().rstrip(), ""]
w = out.append
w("## 4. The properties and how each is decided\n")
w("Bounds are written quick/thorough: *d* is the number of deviations from the base schedules. "
  "The numbers of executions are those of one quick run; the evidence has them for every run.\n")
P.sort(key=lambda p: p["id"])
nums = json.load(open(root + "/meta/numbers.json"))
for p in P:
    i = p["id"]
    w(f"### {i} {p['title']}\n")
    w(f"*Technique:* {p['technique']}.\n")
    w(PLAN[i].strip() + "\n")
    n = nums.get(i)
    if n:
        w(f"*Cost (quick):* {n['executions']} executions, {n['states']} model states, {n['transitions']} transitions, {n['sec']:.0f} s.\n")
w(AFTER.strip() + "\n")
w("## 6. Defects found\n")
f = json.load(open(root + "/known_findings.json"))["findings"]
w("Each was shown by a replayable execution of the real code. Fixed ones are commits in /repo; the check reports them again if they return.\n")
for x in f:
    if x["status"] == "fixed":
        w("* " + x["what"][len("fixed: "):])
w("\nOpen (recorded, the repair is not small and safe):\n")
for x in f:
    if x["status"] != "fixed":
        w("* " + x["property"] + ": " + x["what"])
w("\n## 7. Planted bugs\n")
w("In `seeded/`; each was written from the property and the code, has a demonstration, passes the existing tests, "
  "and is applied to a scratch copy only. The last column is the check that reports it (found by running the checks against it).\n")
w("| bug | property | what it needs | caught by |\n|---|---|---|---|")
caught = json.load(open(root + "/meta/bugs.json"))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    w(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '—')} |")
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
