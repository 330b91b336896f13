#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.props import AREA_OF, LEVEL, NOTE, TECH
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in AREA_OF:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           technique=TECH.get(i, "TLA+ specification; TLC trace validation of recorded histories of the real code"),
                           level=LEVEL[i], level_note=NOTE.get(i, NOTE["*"])))
    else:
        na.append(dict(property=i, reason="check under construction; not claimed yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="TLA+ specification in spec/, checked with TLC; see DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
