#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(here, "tools", "claimed.txt")).read().split()
NA = {"X01": "the packages eosSignature and signatureSet do not compile at this commit with the modules available offline (missing dependencies), so no execution of them can be enumerated; nothing else in the repository imports them"}
TECH = {"S02": "stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound)",
        "S01": "exhaustive enumeration of operation sequences on the real code (stateless model checking), differential oracle"}
NOTE = "Complete within the stated alphabets and deviation bounds (see DESIGN.md); go-owcrypt's curve and hash primitives and the reference model written from the published formats are trusted."
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, "stateless model checking: exhaustive enumeration of the executions of a closed driver on the real code, within deviation bounds, against a reference model"),
            "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: harnesses are compiled with go build -overlay as virtual packages."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
