"""Driver of the monitors: one invocation decides one property.

It creates a scratch directory, starts worker processes (fresh interpreters with fresh numba /
XDG cache directories, so that the code of /repo's working tree is what is compiled and run),
merges what their monitors observed, rewrites evidence/<id>.json and gives the verdict:

  exit 0   held on everything that was observed
  exit 1   at least one violation not listed in known_findings.json (VIOLATION line printed)
  exit 2   inconclusive: a worker died / a monitor saw (almost) nothing
"""

from __future__ import annotations

import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
REPO = Path(os.environ.get("MMV_REPO", "/repo"))
PY = "/opt/venv/bin/python"


def worker_env(scratch: Path, tag: str, extra: dict) -> dict:
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": str(scratch),
        "LANG": "C.UTF-8",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONPATH": f"{REPO}:{VERIF}",
        "MPLBACKEND": "Agg",
        "JAX_PLATFORMS": "cpu",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "2",
        "NUMBA_CPU_NAME": "generic",
        "NUMBA_CPU_FEATURES": "",
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        "NUMBA_CACHE_DIR": str(scratch / f"numba-{tag}"),
        "XDG_CACHE_HOME": str(scratch / f"xdg-{tag}"),
        "MPLCONFIGDIR": str(scratch / "mpl"),
        "TMPDIR": str(scratch / "tmp"),
        "MMV_SCRATCH": str(scratch),
        "MMV_REPO": str(REPO),
    }
    env.update(extra)
    return env


def load_known() -> list[dict]:
    p = VERIF / "known_findings.json"
    return json.loads(p.read_text())["findings"] if p.exists() else []


def match_known(known, prop, viol):
    for k in known:
        if k["property"] == prop and k["monitor"] == viol["monitor"] and k["key"] == viol["key"]:
            return k
    return None


def run(prop: str, tier: str, seed: int) -> int:
    t0 = time.time()
    mod = importlib.import_module(f"mmv.checks.{prop.lower()}")
    groups = mod.groups(tier)
    scratch = Path(tempfile.mkdtemp(prefix=f"mmv_{prop}_"))
    (scratch / "tmp").mkdir()
    (scratch / "out").mkdir()
    hard = getattr(mod, "HARD", {"quick": 700, "thorough": 6 * 3600})[tier]
    jobs = []
    for gi, g in enumerate(groups):
        for sh in range(g["shards"]):
            jobs.append((gi, g, sh))
    cap = int(os.environ.get("MMV_JOBS", "8"))
    running, done = [], []
    rc = 2
    try:
        pending = list(jobs)
        while pending or running:
            while pending and len(running) < cap:
                gi, g, sh = pending.pop(0)
                out = scratch / "out" / f"g{gi}s{sh}.json"
                log = open(scratch / "out" / f"g{gi}s{sh}.log", "wb")
                cmd = [
                    PY, "-u", str(VERIF / "mmv" / "worker.py"),
                    "--prop", prop, "--group", str(gi), "--shard", str(sh),
                    "--nshards", str(g["shards"]), "--seed", str(seed), "--tier", tier,
                    "--out", str(out),
                ]
                p = subprocess.Popen(
                    cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                    env=worker_env(scratch, g.get("cache", g.get("backend", "numpy")),
                                   {"PYTHONHASHSEED": str((131 * seed + 17 * sh + gi) % 2**32), **g.get("env", {})}),
                    cwd=str(scratch / "tmp"),
                )
                running.append((p, gi, g, sh, out, log))
            time.sleep(0.05)
            for r in list(running):
                if r[0].poll() is not None:
                    running.remove(r)
                    r[5].close()
                    done.append(r)
            if time.time() - t0 > hard:
                for r in running:
                    try:
                        os.killpg(r[0].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    r[0].wait()
                    r[5].close()
                    done.append(r)
                running, pending = [], []
        rc = conclude(prop, tier, seed, mod, done, len(jobs), t0)
    finally:
        for r in running:
            try:
                os.killpg(r[0].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def conclude(prop, tier, seed, mod, done, njobs, t0) -> int:
    known = load_known()
    monitors: dict[str, dict] = {}
    viols, problems, samples = [], [], []
    for p, gi, g, sh, out, log in done:
        if not out.exists():
            tail = Path(log.name).read_bytes()[-1500:].decode(errors="replace")
            problems.append(f"worker group {gi} shard {sh} died (rc={p.returncode}): {tail}")
            continue
        data = json.loads(out.read_text())
        for name, m in data["monitors"].items():
            a = monitors.setdefault(
                name, {"cases": 0, "skipped": 0, "oracle_events": 0, "distinct": set(), "planned": 0,
                       "max_dev": 0.0},
            )
            for k in ("cases", "skipped", "oracle_events", "planned"):
                a[k] += m[k]
            a["distinct"].update(m["distinct"])
            a["max_dev"] = max(a["max_dev"], m["max_dev"])
        viols.extend(data["violations"])
        samples.extend(data["samples"])
        if data.get("fatal"):
            problems.append(f"worker group {gi} shard {sh}: {data['fatal']}")
    if len(done) < njobs:
        problems.append("time limit reached before all workers were started")
    for name, m in monitors.items():
        if m["oracle_events"] == 0 or m["distinct"] == set():
            problems.append(f"monitor {name} observed nothing")
        elif m["cases"] - m["skipped"] < 0.2 * m["planned"] and m["cases"] < m["planned"] * 0.5:
            problems.append(f"monitor {name} observed only {m['cases']} of {m['planned']} planned cases")
    new, old = [], {}
    for v in viols:
        k = match_known(known, prop, v)
        if k is None:
            new.append(v)
        else:
            old.setdefault((v["monitor"], v["key"]), (k, v))
    ev_total = sum(m["oracle_events"] for m in monitors.values())
    distinct = sum(len(m["distinct"]) for m in monitors.values())
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(m["cases"] for m in monitors.values()),
            "distinct_nontrivial": distinct,
            "rule": mod.RULE,
            "oracle_events": ev_total,
            "monitors": {
                n: {
                    "cases": m["cases"], "skipped_ill_conditioned": m["skipped"],
                    "oracle_events": m["oracle_events"], "distinct_signatures": len(m["distinct"]),
                    "largest_deviation_over_tolerance": round(m["max_dev"], 6),
                }
                for n, m in sorted(monitors.items())
            },
            "workers": len(done),
            "samples": samples[:12],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "known_findings_seen": sorted(f"{a}:{b}" for a, b in old),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "problems": problems,
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for (mon, key), (k, v) in sorted(old.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']} [monitor={mon} key={key}]")
    for n, m in sorted(monitors.items()):
        print(f"  {n:<34} cases={m['cases']:<6} events={m['oracle_events']:<8} "
              f"distinct={len(m['distinct']):<6} skipped={m['skipped']} dev={m['max_dev']:.2e}")
    if new:
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        seen = set()
        for v in new:
            if (v["monitor"], v["key"]) in seen:
                continue
            seen.add((v["monitor"], v["key"]))
            path = rdir / f"{prop}_{v['monitor']}_{len(seen)}.json"
            path.write_text(json.dumps(v, indent=1))
            if len(seen) <= 15:
                print(f"-- {v['monitor']} key={v['key']} case={v['case']}: {v['msg'][:600]}")
                print(f"VIOLATION property={prop} replay={path}")
        print(f"{len(new)} violating cases, {len(seen)} distinct; wall {time.time() - t0:.1f}s")
        return 1
    if problems:
        for q in problems:
            print("INCONCLUSIVE:", q)
        return 2
    print(f"{prop} {tier} seed={seed}: held on {ev_total} oracle events "
          f"({distinct} distinct signatures); wall {time.time() - t0:.1f}s")
    return 0


def replay(path: str) -> int:
    v = json.loads(Path(path).read_text())
    scratch = Path(tempfile.mkdtemp(prefix="mmv_replay_"))
    (scratch / "tmp").mkdir()
    try:
        mod = importlib.import_module(f"mmv.checks.{v['prop'].lower()}")
        g = mod.groups(v["tier"])[v["group"]]
        return subprocess.call(
            [PY, "-u", str(VERIF / "mmv" / "worker.py"), "--prop", v["prop"], "--group", str(v["group"]),
             "--shard", "0", "--nshards", "1", "--seed", str(v["seed"]), "--tier", v["tier"],
             "--only", v["monitor"], "--case", str(v["case"]), "--out", str(scratch / "o.json")],
            env=worker_env(scratch, "r", {"PYTHONHASHSEED": v.get("hashseed", "0"), **g.get("env", {})}), cwd=str(scratch / "tmp"),
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
