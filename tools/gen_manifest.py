#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
SEQ = "bounded exhaustive exploration of operation sequences on the real code"
NOTE, REASON = {}, {}
exec(open(os.path.join(here, "manifest_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": REASON.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation is a build overlay made from /repo's current sources on every run."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
