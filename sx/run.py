"""
python -m sx.run P01 [--tier quick|thorough]     decide a property
python -m sx.run --replay FILE.json              re-run one counterexample on the real code
Exit status: 0 held on everything explored, 1 violation (VIOLATION line), 2 no answer.
"""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    warnings.simplefilter("ignore")
    import no_rust_bindings  # noqa: F401
    import cratermaker  # noqa: F401

    from . import ctx

    importlib.import_module(f"props.{prop}")
    return ctx


def _task(args):
    prop, idx, tier, deadline, shard = args
    from . import ctx

    h = ctx.REGISTRY[prop][idx]
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    try:
        r = ctx.explore(h, tier, deadline, shard=shard)
    except BaseException as e:  # noqa: BLE001
        return {"harness": h.name, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-2000:]}
    d = dict(vars(r))
    d["stats"] = r.stats.as_dict()
    d["harness"] = h.name
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--harness")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    a = ap.parse_args()
    os.chdir(os.environ.get("SX_SCRATCH", "/tmp"))
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(check(a))


def replay(path):
    with open(path) as f:
        d = json.load(f)
    ctx = load(d["property"])
    h = next((h for h in ctx.REGISTRY[d["property"]] if h.name == d["harness"]), None)
    if h is None:
        print("unknown harness", d["harness"])
        return 2
    fails, cc = ctx.run_concrete(h, d["inputs"], d.get("tier", "quick"))
    for lab, det in fails:
        print(f"FAIL {lab}: {det}")
    if not fails:
        print("replay: property holds on these inputs", getattr(cc, "gap", ""))
    return 1 if fails else 0


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.strip():
                    out.append(json.loads(line))
    return out


def check(a):
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = load(prop)
    hs = [(i, h) for i, h in enumerate(ctx.REGISTRY[prop]) if (tier == "thorough" or not h.thorough_only) and (not a.harness or a.harness == h.name)]
    limit = (780 if tier == "quick" else 3000)
    deadline = t0 + limit
    tasks = []
    for i, h in sorted(hs, key=lambda x: -x[1].time):
        n = h.shard[1] if h.shard else 1
        tasks += [(prop, i, tier, deadline, (h.shard[0], n, k) if h.shard else None) for k in range(n)]
    results = []
    if a.j <= 1:
        results = [_task(t) for t in tasks]
    else:
        mpc = mp.get_context("fork")
        with mpc.Pool(min(a.j, len(tasks)), maxtasksperchild=1) as pool:
            handles = [(t, pool.apply_async(_task, (t,))) for t in tasks]
            for t, hnd in handles:
                name = ctx.REGISTRY[prop][t[1]].name
                try:
                    results.append(hnd.get(timeout=max(5.0, deadline + 60 - time.time())))
                except mp.TimeoutError:
                    results.append({"harness": name, "error": "timeout"})
                except Exception as e:  # noqa: BLE001
                    results.append({"harness": name, "error": repr(e)})
            pool.terminate()
    # ---- verdict
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    vio, kf = [], []
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    seen = set()
    for r in results:
        for v in r.get("violations", []):
            m = [k for k in known if k["harness"] == r["harness"] and k["label"] == v["label"]]
            if m:
                if (r["harness"], v["label"]) not in seen:
                    kf.append((m[0], v))
                    seen.add((r["harness"], v["label"]))
                continue
            rp = os.path.join(VERIF, "evidence", "replays", f"{prop}-{r['harness']}-{len(vio)}.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "harness": r["harness"], "label": v["label"], "detail": v["detail"], "inputs": v["inputs"], "tier": tier, "how": f"bash {VERIF}/check.sh --replay {rp}"}, f, indent=1, default=str)
            # final word: a fresh process, nothing patched
            ok = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), "--replay", rp], cwd=VERIF, capture_output=True, text=True, timeout=300)
            if ok.returncode == 1:
                vio.append((r["harness"], v, rp))
            else:
                r.setdefault("unconfirmed", []).append({"label": v["label"], "why": "fresh-process replay did not reproduce", "out": ok.stdout[-300:]})
    tot = {}
    funcs, samples = {}, []
    labels, decided = {}, {}
    undecided, errors, bounds, stubs, notes, unsupported = [], [], [], [], [], {}
    exhausted = True
    validated = obs = mis = 0
    for r in results:
        if "error" in r:
            errors.append({"harness": r["harness"], "error": r["error"], "tb": r.get("tb", "")})
            exhausted = False
            continue
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k == "max_decisions" else tot.get(k, 0) + v
            else:
                for kk, vv in v.items():
                    unsupported[f"{r['harness']}: {kk}"] = vv
        for k, v in r["funcs"].items():
            funcs[k] = funcs.get(k, 0) + v
        samples += r["samples"][:2]
        for k, v in r["labels"].items():
            labels[f"{r['harness']}/{k}"] = labels.get(f"{r['harness']}/{k}", 0) + v
        for k, v in r["decided"].items():
            decided[f"{r['harness']}/{k}"] = decided.get(f"{r['harness']}/{k}", 0) + v
        undecided += [{"harness": r["harness"], **u} for u in r["undecided"] + r["unconfirmed"]]
        exhausted &= bool(r["exhausted"])
        if f"{r['harness']}: {r['bounds']}" not in bounds:
            bounds.append(f"{r['harness']}: {r['bounds']}")
            if r["stubs"]:
                stubs.append(f"{r['harness']}: {r['stubs']}")
        notes += [f"{r['harness']}: {n}" for n in r["notes"]]
        for g, n in r["gaps"].items():
            unsupported[f"{r['harness']}: gap {g}"] = n
        validated += r["validated"]
        obs += r["obs_checked"]
        mis += r["obs_mismatch"]
    tot["solver_s"] = round(tot.get("solver_s", 0), 2)
    wall = time.time() - t0
    cov = {
        "explanation": "Symbolic execution of the real functions imported from /repo with z3: every branch is decided by a solver query, every assertion is a query over all inputs of the path inside the stated bounds.",
        "obligations": tot.get("obligations", 0),
        "discharged": tot.get("discharged", 0),
        "queries": tot.get("queries", 0),
        "solver_seconds": tot["solver_s"],
        "paths": tot.get("paths", 0),
        "infeasible_prefixes": tot.get("infeasible", 0),
        "max_decisions_on_a_path": tot.get("max_decisions", 0),
        "all_paths_within_bounds_explored": exhausted,
        "undecided": undecided[:40],
        "unsupported": unsupported,
        "reals_concretised": tot.get("concretised", 0),
        "path_models_replayed_on_real_code": validated,
        "translator_observations_compared": obs,
        "translator_mismatches": mis,
        "functions_encoded": dict(sorted(funcs.items())),
        "assertions_reached": labels,
        "assertions_decided": decided,
        "bounds": bounds,
        "stubs": stubs,
        "samples": samples[:12],
        "notes": notes[:20],
        "errors": errors,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": [
            "Python/numpy floats are modelled as mathematical reals; every counterexample is replayed in IEEE arithmetic before it is reported",
            "exp/log/trigonometric functions are axiomatised (monotonicity, inverses, signs, tangent facts), not evaluated, for symbolic arguments",
            "inputs outside the listed bounds are not covered",
        ],
        "wall_s": round(wall, 2),
        "violations": len(vio),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v or errors:
        for r in results:
            print(json.dumps({k: v for k, v in r.items() if k not in ("funcs", "samples", "tb")}, default=str)[:3500])
            if "tb" in r:
                print(r["tb"])
    print(f"{prop} {tier}: paths={cov['paths']} obligations={cov['obligations']} discharged={cov['discharged']} undecided={len(undecided)} unsupported={sum(unsupported.values())} concretised={cov['reals_concretised']} queries={cov['queries']} solver={cov['solver_seconds']}s exhausted={exhausted} wall={wall:.1f}s")
    for u in undecided[:20]:
        print(f"UNDECIDED {u['harness']}: {u['label']} ({u['why']})")
    for k, n in list(unsupported.items())[:20]:
        print(f"NOT-ENCODED {k} x{n}")
    for k, v in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if vio:
        for hn, v, rp in vio:
            print(f"  {hn}: {v['label']}: {v['detail']}  inputs={json.dumps(v['inputs'], default=str)[:600]}")
        print(f"VIOLATION property={prop} replay={vio[0][2]}")
        return 1
    if not decided and tot.get("discharged", 0) == 0:
        print("NO-ANSWER: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    main()
