#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from tools/props.py and the check modules that exist"""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P
have = {os.path.basename(f).split("_")[0].upper() for f in glob.glob(os.path.join(ROOT, "checks", "c[0-9]*_*.py"))}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
TECH = "runtime monitoring: the real code is driven with generated (hostile, randomised, history-bearing) workloads while a monitor compares every observed result with an independent oracle / metamorphic relation"
SPECIAL = {"C26": "sanitizer-style differential execution: the compiled kernels run with bounds checking and with compilation disabled, and every result is compared by a monitor"}
checks = []
for p in P:
    i = p["id"]
    if i not in have:
        continue
    checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python /verif/run.py %s quick" % i,
                       thorough_cmd="/opt/venv/bin/python /verif/run.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=SPECIAL.get(i, TECH), level="exploration",
                       level_note="held on the executions observed (counts in the evidence file); no claim about inputs or histories not driven"))
M = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy, numba, astropy\"",
         hooks=dict(guard="", enable="", source_commits=[]), checks=checks,
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in have],
         notes="All monitors attach from outside the repository (no hooks in /repo); see DESIGN.md and known_findings.json.")
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
