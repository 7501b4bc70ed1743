#!/usr/bin/env python3
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NA
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    p = PLAN[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s thorough" % i,
                       technique=p["technique"], level="other",
                       level_note=p.get("note") or "Every obligation in scope (" + p["explain"].rstrip(".") + ") is discharged for all members of its abstract state, or listed as undecided in the evidence (never alarmed). Trusts rustc's MIR, the analyser's transfer functions and the reference semantics in engine/probe/src."))
na = [dict(property=i, reason=NA.get(i, "check under construction")) for i in ids if i not in PLAN]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
