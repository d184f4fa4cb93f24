#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/ (development helper; no check uses it)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
a = t.index("| planted change | needs |")
b = t.index("\n\n", a)
rows = ["| planted change | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["needs"], m.get("caught_by", m["property"])))
n = sum(1 for l in open(V + "/known-findings.jsonl") if l.strip())
import re
t = t[:a] + "\n".join(rows) + t[b:]
t = re.sub(r"has the list \(\d+ entries\)", "has the list (%d entries)" % n, t)
open(V + "/DESIGN.md", "w").write(t)
