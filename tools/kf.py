#!/usr/bin/env python3
"""add a 'fixed' entry: kf.py PROPERTY COMMIT 'what failed'"""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d["findings"].append(dict(status="fixed", property=prop, commit=commit, what=what,
                          line=f"fixed: property={prop} {commit} {what}"))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
