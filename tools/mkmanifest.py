#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (govc: VCs from go/ssa of /repo, z3/cvc5)"
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMS:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": CLAIMS[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "contracts not written yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
