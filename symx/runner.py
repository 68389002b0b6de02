"""Run the harnesses of one property: symbolic exploration, replay, evidence."""
from __future__ import annotations

import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _load(prop):
    return importlib.import_module(f"harness.{prop}")


# ---------------------------------------------------------------- workers

_PATCHED = {"done": False, "setups": set()}


def sym_task(args):
    prop, hname, cfg, deadline, tier = args
    from . import inject
    from .core import Explorer
    from .fakeray import RAY
    from .harness import SymH

    mod = _load(prop)
    hs = {h.name: h for h in mod.HARNESSES}[hname]
    if not _PATCHED["done"]:
        inject.patch_ray()
        extra = list(getattr(mod, "EXTRA_MODULES", lambda: [])())
        if hasattr(mod, "setup_symbolic"):
            mod.setup_symbolic()
        inject.patch_symbolic(extra)
        _PATCHED["done"] = True
    if hs.setup and hname not in _PATCHED["setups"]:
        hs.setup()
        _PATCHED["setups"].add(hname)

    profiled = set()

    def fn(h):
        RAY.reset()
        hs.fn(h)

    t0 = time.time()
    ex = Explorer(fn, timeout_ms=hs.timeout_ms, deadline=deadline)
    h = SymH(ex, cfg)
    err = None
    try:
        with _Profiler(profiled, ex):
            ex.run(h)
    except BaseException as e:  # engine failure
        err = "".join(traceback.format_exception(e))[-4000:]
    return {
        "harness": hname,
        "cfg": cfg,
        "stats": ex.stats.as_dict(),
        "failures": ex.failures,
        "labels_failed": ex.labels_failed,
        "reached": ex.reached,
        "witnesses": ex.witnesses,
        "functions": sorted(profiled),
        "wall": time.time() - t0,
        "error": err,
        "undischarged": ex.stats.obligations
        - ex.stats.discharged
        - sum(ex.labels_failed.values()),
    }


class _Profiler:
    """Records which functions of /repo were executed symbolically (first 3 paths)."""

    def __init__(self, out, ex):
        self.out = out
        self.ex = ex

    def __enter__(self):
        def prof(frame, event, arg):
            if event == "call":
                c = frame.f_code
                f = c.co_filename
                if "/rxn_network/" in f:
                    self.out.add(f.split("/rxn_network/")[-1] + ":" + c.co_qualname)
                if self.ex.stats.paths >= 3:
                    sys.setprofile(None)

        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        return False


def concrete_task(args):
    prop, hname, cfg, assignment = args
    from . import inject
    from .fakeray import RAY
    from .core import PathTimeout, alarm
    from .harness import AssumeFailed, ConcreteH

    if not _PATCHED["done"]:
        inject.patch_ray()
        _PATCHED["done"] = True
    mod = _load(prop)
    hs = {h.name: h for h in mod.HARNESSES}[hname]
    RAY.reset()
    h = ConcreteH(assignment, cfg)
    out = {"failed": [], "obs": [], "exc": None, "assume": False}
    try:
        with alarm(40):
            hs.fn(h)
    except AssumeFailed:
        out["assume"] = True
    except (Exception, PathTimeout) as e:
        out["exc"] = f"{type(e).__name__}: {e}"[:500]
        out["tb"] = traceback.format_exc()[-1500:]
        h.failed.append(f"no-exception:{type(e).__name__}")
    out["failed"] = h.failed
    out["details"] = h.details
    out["obs"] = h.obs
    return out


def _init_worker():
    os.environ["TQDM_DISABLE"] = "1"


# ---------------------------------------------------------------- comparison


def obs_close(a, b, tol=1e-4):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(obs_close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_close(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    return a == b


def cfgkey(cfg):
    return json.dumps(cfg, sort_keys=True, default=str)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == prop:
                out.append(d)
    return out


def is_known(known, hname, cfg, label):
    for k in known:
        if k["harness"] == hname and k["label"] == label:
            if k.get("config") is None or cfgkey(k["config"]) == cfgkey(cfg):
                return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    os.environ["TQDM_DISABLE"] = "1"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from . import inject

    inject.load_all()
    import rxn_network

    src = os.path.dirname(rxn_network.__file__)
    if not os.path.realpath(src).startswith(os.environ.get("SYMX_REPO", "/repo")):
        print("not running against /repo:", src)
        return 2
    mod = _load(a.prop)
    harnesses = [h for h in mod.HARNESSES if not a.only or a.only in h.name]
    if a.replay:
        r = json.load(open(a.replay))
        out = concrete_task((a.prop, r["harness"], r["config"], r["assignment"]))
        print(json.dumps(out, indent=1, default=str))
        return 1 if out["failed"] else 0

    budget = a.budget or (2400 if a.tier == "thorough" else 420)
    deadline = time.time() + budget
    shards = [
        (a.prop, h.name, c, deadline, a.tier) for h in harnesses for c in h.configs(a.tier)
    ]
    weights = {h.name: i for i, h in enumerate(harnesses)}
    mpc = mp.get_context("fork")
    # unpatched replay pool is forked first
    cpool = mpc.Pool(max(1, min(a.jobs, 4)), initializer=_init_worker)
    spool = mpc.Pool(min(a.jobs, len(shards)) or 1, initializer=_init_worker)
    results = []
    pend = []
    lost = 0
    it = spool.imap_unordered(sym_task, shards, chunksize=1)
    while True:
        try:
            r = it.next(timeout=max(30, deadline + 90 - time.time()))
        except StopIteration:
            break
        except mp.TimeoutError:
            lost = len(shards) - len(results)
            break
        results.append(r)
        jobs = [("f", f) for f in r["failures"]] + [("w", w) for w in r["witnesses"]]
        ar = cpool.map_async(
            concrete_task,
            [(a.prop, r["harness"], r["cfg"], j["assignment"]) for _, j in jobs],
            chunksize=4,
        )
        pend.append((r, jobs, ar))
        if a.v:
            s = r["stats"]
            print(
                f"  {r['harness']} {cfgkey(r['cfg'])[:100]} paths={s['paths']} forks={s['forks']} "
                f"obl={s['obligations']}/{s['discharged']} q={s['queries']} t={r['wall']:.1f} "
                f"conc={s['concretized']} unk={s['unknown']} nondet={s['nondet']} unfin={s['unfinished']} "
                f"fail={r['labels_failed']}",
                flush=True,
            )
            if r["error"]:
                print(r["error"])
    if lost:
        spool.terminate()
    spool.close()

    known = load_known(a.prop)
    violations, unconfirmed, known_hit, mism, validated = [], [], {}, [], 0
    wfail = []
    for r, jobs, ar in pend:
        try:
            outs = ar.get(timeout=max(60, deadline + 120 - time.time()))
        except mp.TimeoutError:
            unconfirmed.append((r["harness"], r["cfg"], "replay-timeout", {}))
            continue
        by_label = {}
        for (kind, j), o in zip(jobs, outs):
            if kind == "f":
                by_label.setdefault(j["label"], []).append((j, o))
            else:
                if o["assume"]:
                    continue
                if o["failed"]:
                    wfail.append((r, j, o))
                elif len(j["obs"]) != len(o["obs"]) or not all(
                    x[0] == y[0] and obs_close(x[1], y[1]) for x, y in zip(j["obs"], o["obs"])
                ):
                    mism.append((r["harness"], r["cfg"], j, o["obs"]))
                else:
                    validated += 1
        for label, lst in by_label.items():
            good = [(j, o) for j, o in lst if label in o["failed"]] or [
                (j, o) for j, o in lst if o["failed"]
            ]
            if good:
                j, o = good[0]
                k = is_known(known, r["harness"], r["cfg"], label)
                if k:
                    known_hit[k["what"]] = k
                else:
                    violations.append((r["harness"], r["cfg"], label, j, o))
            else:
                unconfirmed.append((r["harness"], r["cfg"], label, lst[0][0]))
    for r, j, o in wfail:
        labs = [l for l in o["failed"] if not is_known(known, r["harness"], r["cfg"], l)]
        if labs:
            violations.append((r["harness"], r["cfg"], labs[0], j, o))
    cpool.terminate()

    # ---- evidence
    agg = {"unfinished": lost}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                agg[k] = agg.get(k, 0) + v
    conc = {}
    funcs = set()
    for r in results:
        for k, v in r["stats"]["concretized"].items():
            conc[k] = conc.get(k, 0) + v
        funcs.update(r["functions"])
    per_h = {}
    for r in results:
        d = per_h.setdefault(
            r["harness"],
            {"configs": 0, "paths": 0, "forks": 0, "obligations": 0, "discharged": 0, "queries": 0, "solver_s": 0.0, "reached": {}},
        )
        d["configs"] += 1
        for k in ("paths", "forks", "obligations", "discharged", "queries"):
            d[k] += r["stats"][k]
        d["solver_s"] = round(d["solver_s"] + r["stats"]["solver_s"], 2)
        for k, v in r["reached"].items():
            d["reached"][k] = d["reached"].get(k, 0) + v
    for h in harnesses:
        per_h.setdefault(h.name, {})["bounds"] = h.bounds
    errors = [(r["harness"], r["cfg"], r["error"]) for r in results if r["error"]]
    vacuous = [
        r["harness"] + " " + cfgkey(r["cfg"])
        for r in results
        if r["stats"]["paths"] == 0 and not r["failures"] and not r["stats"]["unfinished"] and not r["error"]
    ]
    samples = []
    for r in results:
        for w in r["witnesses"][:1]:
            if len(samples) < 6:
                samples.append(
                    {"harness": r["harness"], "config": r["cfg"], "inputs": w["assignment"], "observed": w["obs"]}
                )
    undis = sum(max(0, r["undischarged"]) for r in results)
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": agg.get("paths", 0),
            "transitions": agg.get("decisions", 0),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "rule": "states = complete execution paths of the real code over symbolic inputs; transitions = solver-decided branch/value decisions on them; traces validated = path models replayed on the unpatched code with the same observations",
            "forks": agg.get("forks", 0),
            "infeasible_paths_cut": agg.get("aborted", 0),
            "obligations": agg.get("obligations", 0),
            "discharged": agg.get("discharged", 0),
            "discharged_by_simplification": agg.get("trivial", 0),
            "solver_queries": agg.get("queries", 0),
            "solver_seconds": round(agg.get("solver_s", 0), 2),
            "solver_unknown": agg.get("unknown", 0),
            "undecided_obligations": undis,
            "concretised_sites": conc,
            "nondeterministic_replays": agg.get("nondet", 0),
            "shards_unfinished_in_budget": agg.get("unfinished", 0),
            "observation_mismatches": len(mism),
            "inconclusive_paths": [f"{hn} {cfgkey(cfg)} {label}" for hn, cfg, label, _ in unconfirmed[:20]],
            "engine_errors": [f"{e[0]} {cfgkey(e[1])} {e[2][-300:]}" for e in errors[:10]],
            "shards_without_feasible_path": vacuous[:20],
            "exhaustive_within_bounds": not (
                conc or agg.get("unfinished") or undis or agg.get("nondet") or unconfirmed or errors
            ),
            "functions_encoded": sorted(funcs),
            "harnesses": per_h,
            "known_findings": sorted(known_hit),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(
        f"{a.prop} [{a.tier}] harnesses={len(harnesses)} shards={len(shards)} paths={agg.get('paths',0)} "
        f"obligations={agg.get('obligations',0)} discharged={agg.get('discharged',0)} queries={agg.get('queries',0)} "
        f"solver_s={agg.get('solver_s',0):.1f} validated={validated} wall={time.time()-t0:.1f}"
    )
    if conc:
        print("NOTE concretised (generality lost) at:", conc)
    if agg.get("unfinished"):
        print(f"NOTE {agg['unfinished']} shard(s) not finished within the budget")
    if undis or agg.get("unknown"):
        print(f"NOTE {undis} obligations undecided, {agg.get('unknown')} unknown solver answers")
    if agg.get("nondet"):
        print(f"NOTE {agg['nondet']} non-deterministic re-executions")
    for m in mism[:3]:
        print("NOTE observation mismatch:", m[0], cfgkey(m[1]), m[2]["assignment"], "sym:", m[2]["obs"], "real:", m[3])
    for k in sorted(known_hit):
        print(f"KNOWN-FINDING: property={a.prop} {k}")
    rc = 0
    outdir = os.path.join(VERIF, "out", "replay")
    seen = set()
    for i, (hn, cfg, label, j, o) in enumerate(violations):
        key = (hn, label)
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(outdir, exist_ok=True)
        p = os.path.join(outdir, f"{a.prop}-{len(seen)}.json")
        with open(p, "w") as f:
            json.dump(
                {"property": a.prop, "harness": hn, "config": cfg, "label": label, "assignment": j["assignment"],
                 "result": o, "symbolic": {k: v for k, v in j.items() if k != "assignment"},
                 "rerun": f"./check {a.prop} --replay {p}"},
                f, indent=1, default=str)
        print(f"VIOLATION property={a.prop} replay={p}")
        print(f"   {hn} {cfgkey(cfg)} label={label} inputs={j['assignment']} {o.get('details')} {o.get('exc') or ''}")
        rc = 1
    if rc:
        return 1
    for hn, cfg, label, j in unconfirmed[:10]:
        print(f"INCONCLUSIVE symbolic path not reproduced on the real code (treated as unexplored): {hn} {cfgkey(cfg)} {label} {j}")
    for e in errors[:5]:
        print("ENGINE-ERROR", e[0], cfgkey(e[1]), e[2])
    for v in vacuous[:5]:
        print("VACUOUS: no feasible path in", v)
    empty = [h.name for h in harnesses if not per_h.get(h.name, {}).get("discharged")]
    if empty:
        print("NOTHING-EXPLORED in harness", empty)
        return 2
    print(f"{a.prop}: held on everything explored")
    return 0


COMMON_ASSUMPTIONS = [
    "floating point is treated as exact real arithmetic; literals are read as their decimal value, rounding is outside the claim",
    "ray is replaced by an in-process stand-in (deep-copying object store, harness-controlled completion order)",
    "numpy array routines run on proxy objects; isclose/allclose/log/exp/sqrt/linalg are replaced by exact or axiomatised versions (symx/npshim.py)",
]

if __name__ == "__main__":
    sys.exit(main())
