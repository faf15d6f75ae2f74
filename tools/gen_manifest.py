#!/usr/bin/env python3
"""MANIFEST.json and vlib/props.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (Verus) of the extracted real code"
T = {}
def p(id, units, level="proof", theorems=(), note="", secs=22):
    T[id] = dict(units=units, level=level, theorems=list(theorems), note=note, secs=secs)
exec(open(os.path.join(V, "tools/table.py")).read())
props = json.load(open(os.path.join(V, "vlib/props.json")))
out = {"_assumptions": props["_assumptions"]}
out.update(T)
json.dump(out, open(os.path.join(V, "vlib/props.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in T:
        c = dict(property=i, quick_cmd=f"python3 vlib/check.py {i}", thorough_cmd=f"python3 vlib/check.py {i} --thorough",
                 technique=TECH if T[i]["level"] == "proof" else TECH + "; bounded stand-in where DESIGN.md says so",
                 level=T[i]["level"], level_note=T[i]["note"] or "all obligations of the functions the property depends on and of its theorems discharged by Verus for all inputs; contracts of dependencies assumed")
        if T[i]["theorems"]: c["theorems"] = T[i]["theorems"]
        checks.append(c)
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
