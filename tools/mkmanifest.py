#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from tools/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": s.get("technique", "contracts on the extracted real code, discharged function by function by Verus; bounded search only for counterexamples and trusted shims"),
                       "level": s.get("level", "proof"), "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; checks build the extractor and the search crate themselves in .build/"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
