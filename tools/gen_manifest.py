#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 -m py_compile run.py checks.py", checks=checks, not_applicable=na,
         notes="All checks run the real mdflib sources of /repo (built by run.py, no hooks in /repo) under a bounded exhaustive explorer; see DESIGN.md.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
