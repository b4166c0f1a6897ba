#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, for the checks registered in sa."""
import importlib, json, os, pkgutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import chk, checks
for m in pkgutil.iter_modules(checks.__path__): importlib.import_module("sa.checks." + m.name)
from tools.table import PROPS, NA
VG = "gated value graphs of the code compared with the stated formula (value numbering + random interpretation of the graphs)"
props, cks = [], []
for p in PROPS:
    if p["id"] not in chk.REG: continue
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("at", []), "hook_needed": None}})
    cmd = "python3 -m sa check %s --tier %%s" % p["id"]
    cks.append({"property": p["id"], "quick_cmd": cmd % "quick", "thorough_cmd": cmd % "thorough",
                "technique": p["tech"] if "tech" in p else VG, "level": "other", "level_note": p["note"]})
for p in NA:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}})
for p in props:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m sa front", "checks": cks,
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
       "notes": "Static analysis only: a clang-based extractor (extractor/extract.cpp) dumps the type-checked program of /repo's current tree, sa/ builds gated value graphs of the functions a property is anchored in and compares them with the specification. See DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
missing = sorted(set(chk.REG) - {p["id"] for p in PROPS})
print(len(props), "properties,", len(cks), "checks; checks without text:", missing)
