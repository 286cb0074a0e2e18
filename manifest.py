#!/usr/bin/env python3
"""Rewrite MANIFEST.json from sim/claims.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(os.path.join(H, "sim", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    if p in c["claims"]:
        x = c["claims"][p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                       "technique": x["technique"], "level": "exploration", "level_note": x["note"]})
    else:
        na.append({"property": p, "reason": c["not_applicable"].get(p, "No check has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "hooks": c["hooks"], "checks": checks, "not_applicable": na, "notes": c["notes"]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
