#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PROPS, ROOT, TITLE

claimed = sorted(PROPS)
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "technique": PROPS[p]["technique"],
            "level": PROPS[p]["level"],
            "level_note": PROPS[p]["note"],
        }
        for p in claimed
    ],
    "not_applicable": [],
}
missing = [p for p in TITLE if p not in PROPS]
if missing:
    m["not_applicable"] = [{"property": p, "reason": "the check is being built"} for p in missing]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
