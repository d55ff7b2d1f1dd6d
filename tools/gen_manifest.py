#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "stateless model checking of the real code: exhaustive enumeration of call histories against a reference model"),
            "level": "model_checking",
            "level_note": "Exhaustive within bounds: %s. Lanes: %s. Assumes the reference sequence, element registry and checking allocator in /verif/mc are right; nothing is claimed beyond the bounds." % (c["bounds"], ", ".join(c["lanes"])),
        })
    else:
        out["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built yet")})
out["notes"] = "No hooks: every check drives the public API of the crate at /repo through a path dependency."
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
