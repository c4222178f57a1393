#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=c.get("technique", "runtime monitoring: reference-model oracle over seeded workloads under ASan/UBSan"),
                       level=c.get("level", "exploration"),
                       level_note=c.get("note", "Held on the executions the seeded workload produced; says nothing about paths it does not drive.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all observation is at the library's public API and at the (stand-in) solver interface. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
