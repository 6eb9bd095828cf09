#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py, props.py and the list of properties that are not claimed."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
import props

NA = {}
PENDING = "Check not built yet."

checks = []
for pid in sorted(CHECKS):
    s = CHECKS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s" % pid, "thorough_cmd": "python3 tools/check.py %s" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": s["technique"], "level": "exploration", "level_note": s["note"]})
na = [{"property": x["id"], "reason": NA.get(x["id"], PENDING)} for x in props.P if x["id"] not in CHECKS]
commits = []
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "SIMULATION", "enable": "none needed: no hook was added to /repo; the harnesses compile its sources with -fsanitize=thread instrumentation, THREAD_SAFE on, against the simulator runtime", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Deterministic simulation of carl in one process: see DESIGN.md. Replay a violation with: python3 tools/check.py --replay <file>."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
