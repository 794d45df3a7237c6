#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
  notes="Every check rebuilds /repo's working tree under sanitizers with libc calls interposed at link time (-Wl,--wrap); no hooks in /repo are needed. "
        "check.py CXX runs one property, check.py --replay FILE re-runs a recorded violation.")
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason="no check yet")); continue
    m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
