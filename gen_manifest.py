#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks_config import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "deterministic simulation with seeded search over schedules, histories and faults"
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {"guard": "PYMATCHING_SIM_HOOKS",
              "enable": "check.py compiles /repo's sources with -DPYMATCHING_SIM_HOOKS; without it the seam is absent",
              "source_commits": ["3583675"]},
    "checks": [], "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH + NOTES[i][0], "level": CHECKS[i]["level"],
                            "level_note": NOTES[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
