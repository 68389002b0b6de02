#!/usr/bin/env python3
"""Writes DESIGN.md (run with /opt/venv/bin/python)."""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT]
T = os.path.join(ROOT, "tools")
ns = {}
exec(open(os.path.join(T, "design_notes.py")).read(), ns)
out = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## 2. The properties", ""]
res = json.load(open(os.path.join(T, "seeded_results.json")))
bugs = {}
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    bugs.setdefault(m["property"], []).append((b, m))
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
kf = [l.rstrip("\n") for l in open(os.path.join(ROOT, "known_findings.jsonl")) if l.strip() and not l.startswith("#")]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out += [f"### {i}: {p['title']}", "", p["statement"], ""]
    if i in na:
        out += [f"**Not applicable:** {na[i]}", ""]
        continue
    m = importlib.import_module("harness." + i)
    out += [ns["N"][i], "", "Anchors: " + ", ".join(f"`{a['name']}` ({a['where'].replace('src/rxn_network/', '')})" for a in p["anchors"]["mechanism"]) + ".", ""]
    out += ["Why tests cannot: " + p["why_tests_cant"], "", "Harnesses and bounds:", ""]
    for h in m.HARNESSES:
        q, t = len(h.quick), len(h.thorough or h.quick)
        out.append(f"* `{h.name}` ({q} configurations" + (f", thorough {t}" if t != q else "") + f"): {h.bounds}.")
    if getattr(m, "ASSUMPTIONS", None):
        out += ["", "Assumptions and exclusions:", ""] + [f"* {a}" for a in m.ASSUMPTIONS]
    try:
        e = json.load(open(os.path.join(ROOT, "evidence", i + ".json")))
    except OSError:
        e = None
    if bugs.get(i):
        out += ["", "Seeded changes: " + "; ".join(f"`{b}` ({x['what_it_breaks']}; needs {x['needs']}): {res.get(b, 'not run')}" for b, x in bugs[i]) + "."]
    out.append("")
out += [open(os.path.join(T, "design_tail.md")).read().rstrip(), "", "## 5. Defects found in the original code", "",
        "Repaired in `/repo` by `fix:` commits (the checks raise the violation again if one is reverted):", ""]
for l in kf:
    if l.startswith("fixed:"):
        out.append("* " + l[7:])
out += ["", "Recorded, not repaired:", ""]
for l in kf:
    if l.startswith("{"):
        d = json.loads(l)
        out.append(f"* {d['property']} (`{d['harness']}`, `{d['label']}`): {d['what']}")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
