#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
from specs import SPECS
NA = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -c 'import specs' && gcc --version >/dev/null && g++ --version >/dev/null",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's own sources unmodified and call their public functions", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "technique": SPECS[p]["technique"], "level": SPECS[p]["level"], "level_note": SPECS[p]["note"] + ". Bounds: " + SPECS[p]["bounds"]} for p in props if p in SPECS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in SPECS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "unclaimed")
