"""Writes /verif/MANIFEST.json: a check for every property that has a module in mc/props."""
import importlib.util
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C25": "stateless model checking of the real code under a controlled scheduler (line-level preemption placement, enumerated exhaustively)",
}
HIST = {"C02", "C03", "C04", "C08", "C09", "C10", "C20", "C26"}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    path = os.path.join(V, "mc", "props", i.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    tech = TECH.get(i) or (
        "explicit-state model checking: exhaustive enumeration of all bounded operation histories on the real code against a reference model" if i in HIST else
        "bounded model checking by exhaustive enumeration of the input/configuration space on the real code against an independent reference model")
    checks.append({
        "property": i,
        "quick_cmd": "bash /verif/run.sh %s quick" % i,
        "thorough_cmd": "bash /verif/run.sh %s thorough" % i,
        "evidence_file": "/verif/evidence/%s.json" % i,
        "technique": tech,
        "level": "model_checking",
        "level_note": "every element of the bounded space named in DESIGN.md (and in the evidence's bounds) is executed on the code in /repo; nothing outside those bounds is claimed",
    })
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
