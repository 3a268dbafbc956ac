#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py and checks/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path[:0] = [H, V + "/checks"]
from meta import ALL
from registry import PROPS
import meta
NOT = getattr(meta, "NOT_APPLICABLE", {})
with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(ALL):
        f.write(json.dumps(ALL[k]["prop"]) + "\n")
checks = [{"property": k, "quick_cmd": "python3 run_check.py %s quick" % k, "thorough_cmd": "python3 run_check.py %s thorough" % k,
           "technique": ALL[k]["technique"], "level": "exploration", "level_note": ALL[k]["note"]} for k in sorted(PROPS) if k in ALL]
na = [{"property": k, "reason": NOT.get(k, "check still being built; no claim is made yet")} for k in sorted(ALL) if k not in PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check regenerates the stand-in ROS headers and recompiles its harness with /repo's sources on each run. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
assert not set(PROPS) - set(ALL), set(PROPS) - set(ALL)
print(len(checks), "checks;", len(na), "not claimed")
