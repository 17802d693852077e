#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from meta/props.py."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
sys.path.insert(0, "meta")
from props import P
try:
    from props import NA
except ImportError:
    NA = []
P.sort(key=lambda p: p["id"])
LN = {}
with open("properties.jsonl", "w") as f:
    for p in P:
        q = dict(p); q.pop("note")
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        for a in q["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), (q["id"], a)
        f.write(json.dumps(q) + "\n")
na = {n["property"] for n in NA}
m = dict(version=1, setup_cmd="bash build.sh && bash py/build.sh", checks=[
    dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}",
         thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
         technique="property-based testing: " + p["note"],
         level="exploration",
         level_note="Generated-input search against an explicit oracle; holds on every case generated (counts, distribution and samples in the evidence file), not a proof.")
    for p in P if p["id"] not in na], not_applicable=NA)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(P), "properties")
