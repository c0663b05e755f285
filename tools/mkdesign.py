#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.head.md, tools/props.py, tools/design_notes.py, the property modules, known_findings.json and seeded/."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa
from design_notes import NOTES, NOTFIXED  # noqa


def module(pid):
    out = {}
    tree = ast.parse(open(os.path.join(VERIF, "harness", "props", pid.lower() + ".py")).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ("RULE", "ASSUMPTIONS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
        if isinstance(node, ast.Assign) and node.targets[0].id == "SUBS":
            subs = []
            for c in ast.walk(node.value):
                if isinstance(c, ast.Call) and getattr(c.func, "id", "") == "Sub":
                    kw = {k.arg: k.value.value for k in c.keywords if isinstance(k.value, ast.Constant)}
                    subs.append(f"{c.args[0].value} ({kw.get('quick')}/{kw.get('thorough')})")
            out["SUBS"] = subs
    return out


o = [open(os.path.join(VERIF, "DESIGN.head.md")).read().rstrip(), "", "## Properties", ""]
kf = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
seeds = {}
for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
for p in sorted(PROPS, key=lambda q: q["id"]):
    m = module(p["id"])
    o += [f"### {p['id']} {p['title']}", "", p["statement"], "",
          f"* Decided by: {p['technique'].split(': ', 1)[1]}. Sub-checks (cases quick/thorough): {', '.join(m['SUBS'])}.",
          f"* What is generated, and what counts as non-trivial: {m.get('RULE')}",
          f"* Over {p['quant']}. {p['note']}",
          f"* Why tests cannot settle it: {p['why']}",
          f"* Assumes: {'; '.join(m.get('ASSUMPTIONS', ['nothing beyond the generated inputs']))}."]
    for n in NOTES.get(p["id"], []):
        o.append(f"* Corrections of the check (false alarms met while building it) and what it does not judge: {n}")
    n = sum(1 for k in kf if k["property"] == p["id"] and k["status"] == "fixed")
    if n:
        o.append(f"* Genuine defects found and repaired: {n} (see Findings).")
    for k in kf:
        if k["property"] == p["id"] and k["status"] == "known":
            o.append(f"* Known finding: {k['what']}.")
    o.append("")
o += ["## Findings", "", "Every entry was reproduced by a generated case against the real code; `fixed` ones are \"fix:\" commits in /repo (the check reports them again if they return).", ""]
for k in sorted(kf, key=lambda k: k["property"]):
    o.append(f"* {k['property']} {k['status']}{' ' + k['commit'] if 'commit' in k else ''}: {k['what']}")
o += ["", "Oddities seen and left alone (documented, demanded by tests, or without a right answer; no check judges them):", ""]
o += [f"* {x}" for x in NOTFIXED]
o += ["", "## Planted bugs", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for pid in sorted(seeds):
    for name, m in seeds[pid]:
        o.append(f"| {name} | {pid} | {m['needs']} | {m.get('caught_by', pid)} |")
extra = os.path.join(VERIF, "DESIGN.tail.md")
if os.path.exists(extra):
    o += ["", open(extra).read().rstrip()]
with open(os.path.join(VERIF, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(o) + "\n")
print(len(o), "lines")
