#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

POLY = ["src/bgem/polygons/polygons.py", "src/bgem/polygons/decomp.py", "src/bgem/polygons/polygon.py",
        "src/bgem/polygons/segment.py", "src/bgem/polygons/point.py", "src/bgem/polygons/aabb_lookup.py",
        "src/bgem/polygons/idmap.py"]
ROWS = []


def prop(id, title, statement, over, text, why, files, mechanism, note, observe=None, state=None,
         technique="TLA+ specification checked with TLC; trace validation of the real code and replay of its behaviours"):
    ROWS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                     why_tests_cant=why, anchors={"files": files,
                                                  "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                                                  "observe_at": observe or [],
                                                  "state": state or [], "hook_needed": None},
                     _note=note, _technique=technique))


NA = []


def na(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for r in ROWS:
        f.write(json.dumps({k: v for k, v in r.items() if not k.startswith("_")}) + "\n")
na_ids = {n["property"] for n in NA}
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": r["id"], "quick_cmd": "python3 run_check.py %s" % r["id"],
                   "thorough_cmd": "python3 run_check.py %s thorough" % r["id"],
                   "evidence_file": "evidence/%s.json" % r["id"], "technique": r["_technique"],
                   "level": "model_checking", "level_note": r["_note"]} for r in ROWS if r["id"] not in na_ids],
       "not_applicable": NA,
       "notes": "No hooks in /repo: the public API exposes the state. /repo carries fix: commits only. "
                "Known and fixed findings: known_findings.json."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(ROWS), "properties")
