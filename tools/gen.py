#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA, NOTES

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + [n for n in NA]:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

checks = []
for p in PROPS:
    checks.append(dict(property=p["id"],
        quick_cmd="python3 vf.py check " + p["id"],
        thorough_cmd="VERIF_TIER=thorough python3 vf.py check " + p["id"],
        technique=p.get("technique", "code contracts discharged by CBMC on the real source (goto-instrument --dfcc)"),
        level=p["level"], level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 vf.py list",
               checks=checks,
               not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
               notes=NOTES), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
