#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set(re.findall(r"^def (c\d\d)\(check\)", open(os.path.join(V, "harness", "check.py")).read(), re.M))
T = json.load(open(os.path.join(V, "tools", "claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i.lower() in have:
        t = T[i]
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh " + i, evidence_file="evidence/%s.json" % i,
                           technique=t["technique"], level="model_checking", level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=T.get(i, {}).get("na", "no check has been built for it yet")))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="the checks need no hooks in /repo; they use observers and public attributes", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; harness/ runs the code from /repo and TLC judges the recordings. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
