#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CHECKS
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
         notes="No hooks: all checks use the public API of /repo through the module in /verif/harness. thorough_cmd is the same program with VERIF_TIER=thorough.")
for i in ids:
    if i not in CHECKS:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
        continue
    k = CHECKS[i]
    m["checks"].append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                            evidence_file="evidence/%s.json" % i, technique=k["technique"], level=k["level"], level_note="Generated-input search, not proof: " + k["note"]))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
