#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="python3 vlib/setup.py",
         checks=[dict(property=p["id"], quick_cmd="python3 vlib/run.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 vlib/run.py %s" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p["claim"][0], level="other", level_note=p["claim"][1])
                 for p in P if p["claim"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not p["claim"]],
         notes="Static analysis only: a rustc driver extracts the resolved, type-checked MIR of both crates from /repo's working tree on every run; "
               "the rules in vlib/checks decide each property over it. /repo needs no hooks.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
