#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique=c["technique"], level=c.get("level", "proof"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check registered yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="See DESIGN.md. check.py extracts the functions from /repo's working tree on every run, splices the contracts of units/*.rs and lets Verus discharge every obligation; harness/ is the bounded stand-in and replays failing inputs on the compiled crate."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
