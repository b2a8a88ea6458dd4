#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from qsa/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from qsa import props      # noqa

assert all(len(p["title"]) <= 80 for p in props.PROPS), [
    p["title"] for p in props.PROPS if len(p["title"]) > 80]
ps = sorted(props.PROPS, key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in ps:
        f.write(json.dumps({k: v for k, v in p.items()
                            if not k.startswith("_")}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 -c \"import ast, qsa.props\"",
     "checks": [], "not_applicable": []}
for p in ps:
    if p["_claimed"]:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": p["_technique"], "level": "other",
            "level_note": p["_note"]})
    else:
        m["not_applicable"].append({"property": p["id"],
                                    "reason": p["_note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
