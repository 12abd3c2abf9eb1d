#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below: one entry per check that exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LV = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LV and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                       "thorough_cmd": "python3 checks/%s.py" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": LV[i][0], "level": "model_checking", "level_note": LV[i][1]})
    else:
        na.append({"property": i, "reason": LV.get("NA", {}).get(i, "check not built yet; planned in DESIGN.md")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks link /repo/src with --wrap stand-ins and import /repo/horusdemodlib as it is", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; conformance harnesses in harness/ and lib/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
