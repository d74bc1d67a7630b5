#!/usr/bin/env python3
"""writes MANIFEST.json from the tables in engine/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -m engine.extract",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % i,
                 "technique": props.TECH[i], "level": "other", "level_note": props.NOTE[i]} for i in ids if i in props.TECH],
     "not_applicable": [{"property": i, "reason": props.NA[i]} for i in ids if i not in props.TECH]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
