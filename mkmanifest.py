#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS, NOTES, NA
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert set(ids) == set(PROPS) | set(NA), set(ids) ^ (set(PROPS) | set(NA))
m = {"version": 1, "setup_cmd": "python3 check.py --build-only",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i,
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": NOTES[i][0], "level": "exploration",
                 "level_note": NOTES[i][1]} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "No hooks in /repo: threads, allocation, clocks and entropy are taken over at link time, and scheduling "
              "points come from compiler instrumentation of the working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
