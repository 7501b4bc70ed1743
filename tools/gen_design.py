#!/usr/bin/env python3
"""rewrite the property table of DESIGN.md from properties.jsonl, plan.py and the evidence files"""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NA
rows = []
for l in open(here + "/properties.jsonl"):
    q = json.loads(l); i = q["id"]
    if i in PLAN:
        n = ""
        try:
            c = json.load(open(here + "/evidence/%s.json" % i))["coverage"]
            n = " %d obligations%s." % (c["obligations"], (", %d undecided" % c["undecided"]) if c["undecided"] else ", all decided")
        except Exception:
            pass
        rows.append("| %s | **%s** — %s | %s%s |" % (i, q["title"], q["statement"], PLAN[i]["explain"], n))
    else:
        rows.append("| %s | **%s** — %s | *not applicable*: %s |" % (i, q["title"], q["statement"], NA[i]))
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
