"""Worker process: runs the monitors of one group / shard and records what they observed."""

from __future__ import annotations

import argparse
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    ap = argparse.ArgumentParser()
    for a in ("prop", "tier", "out", "only"):
        ap.add_argument(f"--{a}")
    for a in ("group", "shard", "nshards", "seed", "case"):
        ap.add_argument(f"--{a}", type=int)
    a = ap.parse_args()
    faulthandler.enable()
    warnings.simplefilter("ignore")

    import numpy as np

    np.seterr(all="ignore")
    from mmv import core

    mod = importlib.import_module(f"mmv.checks.{a.prop.lower()}")
    g = mod.groups(a.tier)[a.group]
    backend = g.get("backend", "numpy")
    result = {"monitors": {}, "violations": [], "samples": [], "fatal": None}

    import mrmustard
    from mrmustard import math, settings

    repo = os.environ.get("MMV_REPO", "/repo")
    if not os.path.abspath(mrmustard.__file__).startswith(os.path.abspath(repo) + os.sep):
        print("mrmustard imported from", mrmustard.__file__)
        sys.exit(3)
    settings.PROGRESSBAR = False
    settings.CACHE_DIR = os.path.join(os.environ["MMV_SCRATCH"], "ser", f"g{a.group}s{a.shard}")
    if backend == "jax":
        math.change_backend("jax")
    if hasattr(mod, "setup"):
        mod.setup(backend, a.tier)

    names = [n for n in g["monitors"]]
    if a.only:
        names = [a.only]
    budget = g.get("budget", {"quick": 150, "thorough": 3600})[a.tier]
    budget = float(os.environ.get("MMV_BUDGET", budget))
    t0 = time.time()
    plan = {}
    for n in names:
        m = core.REGISTRY[n]
        total = m.quick if a.tier == "quick" else m.thorough
        if g.get("scale"):
            total = max(1, int(total * g["scale"]))
        label = n if backend == "numpy" and not g.get("label") else f"{n}@{g.get('label', backend)}"
        idx = [a.case] if a.case is not None else list(range(a.shard, total, a.nshards))
        plan[n] = (m, label, idx)
        result["monitors"][label] = {
            "cases": 0, "skipped": 0, "oracle_events": 0, "distinct": [], "planned": len(idx),
            "max_dev": 0.0, "time": 0.0,
        }
    dist = {n: set() for n in names}
    bad = {n: 0 for n in names}
    # proportional interleaving, so that a time limit hits all the monitors evenly
    order = sorted(
        ((k + 0.5) / len(idx), n, i) for n, (m, label, idx) in plan.items() for k, i in enumerate(idx)
    )
    if a.case is None and g.get("order") == "sequential":
        order = [(0, n, i) for n, (m, label, idx) in plan.items() for i in idx]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _, n, i in order:
            if time.time() - t0 > budget:
                result["monitors"][plan[n][1]]["time_limited"] = True
                break
            if bad[n] >= 40:
                continue
            m, label, _ = plan[n]
            rng = np.random.default_rng([a.seed, zlib.crc32(n.encode()), i])
            ctx = core.Ctx(rng, a.tier, backend, i)
            R = result["monitors"][label]
            tc = time.time()
            try:
                m.fn(ctx)
            except core.Skip:
                R["skipped"] += 1
            except core.Violation as e:
                bad[n] += 1
                result["violations"].append(viol(a, n, i, e.key, e.msg))
            except Exception as e:  # the code under test must not raise on inputs of the domain
                bad[n] += 1
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if repo in f.filename]
                where = f"{loc[-1].name}" if loc else "harness"
                result["violations"].append(
                    viol(a, n, i, f"exc:{type(e).__name__}:{where}",
                         f"{type(e).__name__}: {e} (note={ctx.note})\n" + "".join(traceback.format_exc()[-1800:])),
                )
            R["time"] += time.time() - tc
            R["cases"] += 1
            R["oracle_events"] += ctx.events
            R["max_dev"] = max(R["max_dev"], ctx.max_dev)
            dist[n] |= ctx.distinct
            if len(result["samples"]) < 3 and ctx.note and i % 7 == 3:
                result["samples"].append({"monitor": n, "case": i, "inputs": str(ctx.note)[:400]})
            if hasattr(mod, "after_case"):
                mod.after_case()
    for n, (m, label, idx) in plan.items():
        result["monitors"][label]["distinct"] = sorted(dist[n])
    if not result["samples"]:
        for n, d in dist.items():
            if d:
                result["samples"].append({"monitor": n, "signature": sorted(d)[0]})
                break
    with open(a.out + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(a.out + ".tmp", a.out)
    if os.environ.get("MMV_TIMES"):
        for k, v in result["monitors"].items():
            print(k, v["cases"], round(v["time"], 2))
    if a.case is not None:
        for v in result["violations"]:
            print(v["key"], "\n", v["msg"])
        sys.exit(1 if result["violations"] else 0)
    sys.stdout.flush()
    os._exit(0)


def viol(a, n, i, key, msg):
    return {"prop": a.prop, "monitor": n, "group": a.group, "seed": a.seed, "tier": a.tier,
            "case": i, "key": key, "msg": msg, "hashseed": os.environ.get("PYTHONHASHSEED", "0")}


if __name__ == "__main__":
    main()
