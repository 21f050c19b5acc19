#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules (LEVEL_NOTE) that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, workloads and faults"
NOTE = ("Seeded search over simulated executions of the real code; a violation is reported with a minimised replay file. "
        "No exhaustiveness is claimed. Trusts the simulator's seams and the reference model. ")
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    f = os.path.join(HERE, "sim/props", p.lower() + ".py")
    if not os.path.exists(f):
        continue
    consts = {}
    for st in ast.parse(open(f).read()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            try:
                consts[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    checks.append({
        "property": p,
        "quick_cmd": f"bin/check {p}",
        "thorough_cmd": f"bin/check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": consts.get("TECHNIQUE", TECH),
        "level": consts.get("LEVEL", "exploration"),
        "level_note": NOTE + "Cases: " + consts["RULE"] + " Assumes: " + "; ".join(consts.get("ASSUMPTIONS", [])) + ".",
    })
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {"guard": "none", "enable": "No hooks were added to /repo: every seam is installed from /verif at import time "
                                         "(sim/kernel.py, sim/fsim.py).", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. Replay a violation with: bin/check <property> --replay <file>.",
}
missing = [p for p in props if p not in {c["property"] for c in checks}]
for p in missing:
    m["not_applicable"].append({"property": p, "reason": "check under construction"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks; missing", missing)
