#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property registry."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "engine"))
import props
allp = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for p in allp:
    if p in props.PROPS:
        c = props.PROPS[p]
        checks.append({"property": p, "quick_cmd": "./run.py %s quick" % p, "thorough_cmd": "./run.py %s thorough" % p,
                       "technique": c.get("technique", props.TECHNIQUE), "level": "proof", "level_note": c["note"]})
na = [{"property": p, "reason": props.NOT_APPLICABLE.get(p, "no check has been built for this property yet")} for p in allp if p not in props.PROPS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Contracts in specs/*.cpp over the real headers; verifier in engine/; see DESIGN.md. Defects found and repaired: known-findings.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
