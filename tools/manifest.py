#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {"C34": "the first-generation layer needs the third-party emp-sh2pc library, which is not installed and cannot be fetched, so none of its code can be built or executed here; its circuits run inside that library"}
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                   "technique": c.get("technique", "stateless model checking of the implementation (exhaustive bounded enumeration of choice sequences)"), "level": "model_checking",
                   "level_note": c.get("note", "Exhaustive within the bounds listed in the evidence file, executed on the real code. ") + ("Assumes: " + "; ".join(c["assumptions"]) + "." if c.get("assumptions") else "")})
na = [{"property": i, "reason": NA.get(i, "no check has been built yet")} for i in ids if i not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the checks replace third-party libraries (shim/) and the standard synchronisation types (mc/) at compile time."},
          open(H + "/MANIFEST.json", "w"), indent=1)
