#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from proof/units.py (what each check decides and how)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "proof"))
import units as U
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in U.NOT_APPLICABLE:
        continue
    u = U.PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                       thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=u["technique"], level=u["level"], level_note=u["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in U.NOT_APPLICABLE.items()],
         notes="Each check re-extracts the functions under contract from /repo, discharges them with Verus, and runs the bounded harness beside the proof. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
