#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec                                     # noqa: E402

ROOT = os.path.dirname(HERE)
TECH = "symbolic execution of the Python source with z3 (SMT)"
NOTE = ("Bounded: every path of the real code is executed symbolically within "
        "the stated bounds and z3 decides each branch and assertion; path "
        "witnesses are replayed on the unmodified code. Trusts the symbolic "
        "models of Python's int, Fraction, str and re operations (compared "
        "with CPython by the replays) and the reference model in props/. ")

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="UTF-8") as f:
    for p in spec.PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        mech = [{"name": n, "where": w} for n, w in p["mechanism"]]
        d = {"id": p["id"], "title": p["title"],
             "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": sorted({w.split(":")[0].split(" ")[0]
                                          for _, w in p["mechanism"]}),
                         "mechanism": mech,
                         "observe_at": p["observe"]}}
        f.write(json.dumps(d) + "\n")

checks = []
for p in spec.PROPERTIES:
    if p.get("na"):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s --tier quick" % p["id"],
        "thorough_cmd": "./check %s --tier thorough" % p["id"],
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTE + p["note"]})
man = {"version": 1,
       "setup_cmd": "./setup.sh",
       "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["na"]}
                          for p in spec.PROPERTIES if p.get("na")]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="UTF-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
