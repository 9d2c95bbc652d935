#!/usr/bin/env python3
"""Collects the wall times of the last quick runs into tools/costs.json."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__)); f = H + "/costs.json"
c = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(H + "/../evidence/C*.json")):
    d = json.load(open(e))
    if d["tier"] == "quick" and d["wall_s"] > 5: c[d["property"]] = round(d["wall_s"])
json.dump(c, open(f, "w"), indent=1)
