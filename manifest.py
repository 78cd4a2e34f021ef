#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
import os
from checks import CHECKS, NOT_APPLICABLE

checks = []
for p, c in sorted(CHECKS.items()):
    checks.append({
        "property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
     "notes": "No hooks in /repo: everything is observed through the public interface, the sanitizers, replaced allocation functions, and the stand-ins for the absent git submodules in shim/. See DESIGN.md."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
