#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    has = os.path.exists(os.path.join(HERE, "contracts", p.lower() + ".py"))
    checks.append({
        "property": p, "level": "proof" if has else "exploration",
        "technique": ("contract-based deductive verification of the real code (pyvc: sidecar contracts, verification conditions from "
                      "/repo's current source, z3)" + ("; bounded executable contracts as replay search and stand-in" if has else
                      ": executable contracts on the real functions, bounded stand-in")),
        "level_note": ("Obligations generated from the current source and discharged by z3; functions and inputs outside the contracts "
                       "rest on the bounded stand-in, which is reported separately." if has else
                       "Bounded: the contracts are evaluated on enumerated and seeded inputs, nothing is proved."),
        "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
