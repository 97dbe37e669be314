#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "stateless explicit-state model checking of the real code: exhaustive enumeration of bounded inputs/operation sequences against an independent reference model"
CONC = "stateless model checking of the real code under a controlled scheduler: exhaustive enumeration of goroutine interleavings up to a preemption bound"
built = open(os.path.join(here, "tools", "built.txt")).read().split()
conc = {l.split()[0] for l in open(os.path.join(here, "tools", "conc.txt")) if l.strip()} if os.path.exists(os.path.join(here,"tools","conc.txt")) else set()
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in built:
        checks.append({"property": i,
            "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": CONC if i in conc else SEQ,
            "level": "model_checking",
            "level_note": ("Every execution inside the bounds listed in the evidence file is run on the code in /repo and compared with a reference model; "
              + ("schedules are complete up to the stated preemption bound, at the granularity of synchronisation operations (data races are caught by the race detector on each schedule); "
                 if i in conc else "") +
              "assurance is bounded: larger inputs or deeper histories are not covered. Trusts the reference model in mc/ and the Go toolchain.")})
    else:
        na.append({"property": i, "reason": "check still being built: not claimed yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Checks build from /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
