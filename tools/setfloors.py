#!/usr/bin/env python3
"""sets the floors below which a run decided too little, from the evidence of runs on the clean tree"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "tools", "floors.json")
f = json.load(open(p))
for e in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    d = json.load(open(e)); c = d["coverage"]
    if "conversions" in c and "discharged" in c and not d.get("violations"):
        f.setdefault(d["property"], {})[d["tier"]] = {"conversions": int(c["conversions"] * 0.8), "discharged": int(c["discharged"] * 0.35)}
json.dump(f, open(p, "w"), indent=1, sort_keys=True)
