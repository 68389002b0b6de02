#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below (run by hand)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/rxn_network/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note="", na=None, technique=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
        "_note": note, "_na": na, "_tech": technique,
    })


exec(open(os.path.join(ROOT, "tools", "properties_table.py")).read())

TECH = "symbolic execution of the real Python code, obligations decided by z3, counterexamples replayed"
NOTE = ("Bounded: every path of the real code over the symbolic inputs within the bounds listed in the evidence file; "
        "real arithmetic stands for floating point; ray/numpy/numba are replaced by stand-ins (DESIGN.md). ")
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: the checks import the working tree and replace module globals in their own process."}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        if p["_na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
        else:
            assert os.path.exists(os.path.join(ROOT, "harness", p["id"] + ".py")), p["id"]
            man["checks"].append({
                "property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
                "thorough_cmd": f"./check {p['id']} --tier thorough",
                "technique": p["_tech"] or TECH, "level": "model_checking", "level_note": NOTE + p["_note"],
            })
assert len({p["id"] for p in P}) == len(P)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(line), sch)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("no jsonschema here; run with python3-vt to validate")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
