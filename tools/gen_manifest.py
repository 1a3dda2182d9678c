#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from manifest_src import CHECKS, NA, HOOKS, NOTES
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()], "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
for pid, (tech, note) in CHECKS.items():
    m["checks"].append({"property": pid, "quick_cmd": "python3 run.py %s" % pid,
                        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % pid,
                        "technique": tech, "level": "exploration", "level_note": note})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
