#!/usr/bin/env python3
"""writes MANIFEST.json from bin/plans.py and properties.jsonl"""
import json, sys, subprocess
sys.path.insert(0, "/verif/bin")
from plans import PLANS
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOTE = {}
exec(open("/verif/tools/notes.py").read())
m = {"version": 1, "setup_cmd": "bin/setup.sh",
     "checks": [{"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {p}",
                 "technique": NOTE[p][0], "level": "model_checking", "level_note": NOTE[p][1]} for p in props if p in PLANS],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in PLANS],
     "notes": "TLA+ with TLC. spec/ holds the specification, harness/ drives the real library through its public API, bin/check <id> runs both and lets TLC judge. No hooks in /repo are needed."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
