#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa

with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        fh.write(json.dumps(d) + "\n")

checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(VERIF, "harness", "props", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}",
                           thorough_cmd=f"./check {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p.get("na", "check not built yet")))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="Every check is a Hypothesis-driven generated-input search over the hera_cal package imported from "
                 "/repo, against an explicit oracle; failures are shrunk to a JSON replay (./check --replay FILE). "
                 "No hooks in /repo are used.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
