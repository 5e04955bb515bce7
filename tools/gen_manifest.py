#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
PURE = ("A pure function of its arguments: no thread, clock, I/O, stream state or fault can change its value, so there is no "
        "schedule or fault sequence for a simulator to search; running it on generated inputs would be input fuzzing, not "
        "simulation. (That concurrent callers and failing allocations do not disturb these functions is claimed separately in "
        "C01 and C02.)")
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "technique": PROPS[i].get("technique", "deterministic simulation with fault injection: seeded search over histories and fault sequences"),
            "level": "exploration",
            "level_note": PROPS[i].get("note", "Samples executions: a clean batch is evidence, not proof. ") +
            " Assumes: " + "; ".join(PROPS[i]["assumptions"]) + ".",
        })
    else:
        na.append({"property": i, "reason": PURE if int(i[1:]) >= 20 else "no check yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is a link-time or compile-time interposition made by /verif's own build. "
              "run.py builds from /repo's working tree into /verif/build (git-ignored) and prints VIOLATION lines with a "
              "replay file under /verif/out (git-ignored); replay with `python3 run.py <id> --replay <file>`."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "a").write("\n")
