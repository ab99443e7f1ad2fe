#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/suites.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from suites import SUITES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i in SUITES:
        c = SUITES[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}", technique=c["technique"],
                           level=c.get("level", "model_checking"), level_note=c["note"]))
na = [dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in SUITES]
hooks = open(os.path.join(V, "tools", "hooks.txt")).read().split()
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="cfg(stabby_verif)", enable="RUSTFLAGS='--cfg stabby_verif' (set by tools/check.py)", source_commits=hooks),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
