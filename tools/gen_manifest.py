#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the notes below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import check
from notes import NOTES, NA
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
have = check.all_checks()
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interfaces of the unmodified sources", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have and i in NOTES:
        tech, note = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
