#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (property table, planted bugs) from props.py, vlib's registry and seeded/*/meta.json."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.path.insert(0, root)
from props import P
import vlib.checks
from vlib.core import CHECKS
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
M = "<!-- generated below by tools/design.py -->\n"
s = s.split(M)[0] + M + "\n## Properties\n\n"
for q in P:
    if q["claim"]:
        c = CHECKS[q["id"]]
        s += "**%s %s.** How: %s. Decides: %s. Why tests cannot: %s\n\n" % (q["id"], q["title"], q["claim"][0], c["rule"], q["why"])
s += "## Not applicable\n\n"
for q in P:
    if not q["claim"]:
        s += "- **%s %s**: %s\n" % (q["id"], q["title"], q["na"])
s += "\n## Planted bugs and what catches them\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
res = json.load(open(os.path.join(here, "bugs.json"))) if os.path.exists(os.path.join(here, "bugs.json")) else {}
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    b = os.path.basename(d)
    s += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], res.get(b, "?"))
open(p, "w").write(s)
