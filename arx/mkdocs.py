#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.py (one entry per property)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V); sys.dont_write_bytecode = True
from properties import PROPS, NOT_APPLICABLE

with open(V + "/properties.jsonl", "w") as fh:
    for p in PROPS:
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}
        assert len(o["title"]) <= 80, o["title"]
        for f in p["files"] + [w for n, w in p["mechanism"]]:
            assert os.path.exists("/repo/" + f), f
        fh.write(json.dumps(o) + "\n")
checks = []
na = []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 /verif/run.py " + p["id"],
                   "thorough_cmd": "python3 /verif/run.py " + p["id"], "technique": p["technique"], "level": p.get("level", "proof"),
                   "level_note": p.get("note", "decided from the resolved program (Clang AST/CFG of the instantiated templates) on every run")})
m = {"version": 1, "setup_cmd": "bash /verif/arx/build_arx.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: arx (libTooling extractor) + abstract interpreter; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
