#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "contracts on the real Go functions, verification conditions from its SSA form, discharged by SMT solvers"),
                       "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no contract discharged yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: contracts are kept in /verif/contracts and attached to the functions by name."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
