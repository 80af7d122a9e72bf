#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (development tool; no check uses it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "mkdir -p out evidence && clang++ --version >/dev/null && /opt/veriftools/pyvenv/bin/python -c 'import z3'",
     "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in NA:
        m["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                            "technique": p.get("technique", "deductive verification of contracts on the extracted functions (LLVM IR -> verification conditions -> Z3/cvc5)"),
                            "level": p.get("level", "proof"), "level_note": p["note"]})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
