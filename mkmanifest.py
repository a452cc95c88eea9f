#!/usr/bin/env python3
"""regenerates MANIFEST.json from the registry"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from contracts.registry import PROPS, NOTES, NOT_APPLICABLE, TECH
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in PROPS:
        checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p}", "thorough_cmd": f"python3-vt check.py {p} --thorough",
                       "technique": TECH, "level": "proof", "level_note": NOTES[p]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "contracts not written yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
