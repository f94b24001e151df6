#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and the table of properties not claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
from plan import PLAN
from texts import NA, NOTES, TECH
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s" % i,
            "thorough_cmd": "./check %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, TECH["*"]),
            "level": "exploration",
            "level_note": NOTES.get(i, NOTES["*"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library's calls to libc and pthread are redirected to the simulator in its object files, after "
              "compilation of the unmodified sources. See DESIGN.md."}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
