#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("## Seeded bugs")
out = ["## Seeded bugs", "",
       "Each was written from the property and the code, confirmed by its demo, and",
       "run against the check of its property (`tools/mkseed.py --check`); all are caught",
       "by that check, with a failed obligation, and most with a failing input as well.", "",
       "| seed (check) | what it breaks | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    out.append("| %s (%s) | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
open(p, "w").write(s[:i] + "\n".join(out) + "\n")
