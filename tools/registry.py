#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table in this file."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = "symbolic execution of the Python source into SMT (z3), counterexamples replayed on the real code"
BASE_NOTE = ("Solver verdict over all real values of the inputs within the bounds in props/{m}.py and the evidence file; "
             "exact-real semantics (no rounding), library stand-ins of engine/shims.py trusted and validated on path witnesses.")


def prop(id, title, statement, over, q, why, files, mech, note="", na=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")

m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    m["checks"].append(dict(
        property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="model_checking",
        level_note=BASE_NOTE.format(m=p["id"].lower()) + (" " + p["note"] if p["note"] else "")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
