#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid}",
                           thorough_cmd=f"python3 check.py {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=c["technique"], level=c["level"],
                           level_note=c["note"]))
    else:
        na.append(dict(property=pid, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
