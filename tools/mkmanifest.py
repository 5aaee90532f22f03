#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MBT = "TLA+ specification explored by TLC (exhaustive small scopes + random behaviours); every behaviour replayed on the real code and compared call by call"
NOTE = "Exhaustive over all behaviours of the specification within the stated small bounds, random beyond them; the implementation is bound by replay of every explored behaviour (ASan/UBSan build), not by proof."
C = {}
for i in range(1, 15): C["U%02d" % i] = dict(technique=MBT, level="model_checking", note=NOTE)
exec(open(V + "/tools/claims.py").read())
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = "checks/%s.py" % p.lower()
    if p in C and os.path.exists(V + "/" + f):
        checks.append({"property": p, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "technique": C[p]["technique"], "level": C[p]["level"], "level_note": C[p]["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "Not claimed yet: the check is still being built.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
