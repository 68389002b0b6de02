#!/usr/bin/env python3
"""Applies each seeded change to /repo, runs its property's quick check, restores; records the outcome (run by hand)."""
import json, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(ROOT, "tools", "seeded_results.json")
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
res = json.load(open(RES)) if os.path.exists(RES) else {}
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try:
        r = subprocess.run(["./check", p], cwd=ROOT, capture_output=True, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    ok = r.returncode == 1 and any(l.startswith(f"VIOLATION property={p}") for l in r.stdout.splitlines())
    res[i] = "caught" if ok else "missed"
    print(i, p, res[i], r.returncode, f"{time.time() - t:.0f}s", flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:], r.stderr[-1500:])
    json.dump(dict(sorted(res.items())), open(RES, "w"), indent=1)
