#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
checks, no = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if i not in PLAN:
        no.append({"property": i, "reason": "its check is not built yet"})
        continue
    p = PLAN[i]
    mods = ", ".join(sorted({j["module"] for j in p.get("mc", [])} | {s["trace"] for s in p["suites"]}))
    checks.append({
        "property": i,
        "quick_cmd": "bin/check " + i,
        "thorough_cmd": "bin/check %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC (%s); behaviours of the specification are replayed in the real code "
                     "and the recorded traces of the real code are validated against the specification by TLC" % mods,
        "level": "model_checking",
        "level_note": p.get("note", "The specification is explored exhaustively within its bounds; the real code is judged on the cases "
                      "generated from it and on seeded random ones, event by event, by TLC. Trusted: the driver's record of what the "
                      "library did, TLC."),
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": no,
     "notes": "No hooks in /repo: everything is observed through the public interface. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(no), "not applicable")
