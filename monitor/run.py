#!/usr/bin/env python3
"""Check driver.  run.py --property C01 [--tier quick|thorough] [--seed N] | --replay FILE | --list

Spawns worker processes which execute seeded workloads on the code in /repo under the property's monitors, merges what they
observed into evidence/<id>.json and prints the verdict: exit 0 held on what was observed, 1 VIOLATION, 2 inconclusive/error.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
MAXV = 5  # stop a worker after this many distinct violations


def env_for_child():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", TF_CPP_MIN_LOG_LEVEL="3")
    e["PYTHONPATH"] = os.pathsep.join([REPO, VERIF])
    return e


def info(pid):
    sys.path.insert(0, VERIF)
    from monitor.catalog import CATALOG
    for c in CATALOG:
        if c["id"] == pid:
            return c
    raise SystemExit(f"unknown property {pid}")


# ------------------------------------------------------------------------------------------------ worker
def case_rng(seed, pid, i):
    import numpy as np
    return np.random.default_rng([seed, int(pid[1:]), i])


def run_case(mod, case, ctx, pid):
    """Execute one case; returns a violation record or None."""
    import warnings
    from monitor.core import BoundedWork, Runaway, Violation, Watchdog, describe, jsonable
    ctx.begin()
    try:
        with Watchdog(getattr(mod, "WATCHDOG", 180)), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, ctx)
    except Violation as v:
        return {"what": v.what, "detail": jsonable(v.detail), "case": jsonable(case)}
    except Runaway:
        return {"what": "an operation did not finish within any legitimate amount of work", "detail": {}, "case": jsonable(case)}
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as ex:  # pylint: disable=broad-except
        from monitor.core import Inconclusive
        if isinstance(ex, Inconclusive):
            raise
        return {"what": "valid operation raised " + type(ex).__name__, "detail": describe(ex), "case": jsonable(case)}
    return None


def worker(pid, tier, seed, w, nw, out, cap):
    import collections
    from monitor.core import Ctx, Inconclusive, digest, jsonable
    from monitor.kinds import strew
    mod = importlib.import_module("monitor.props." + info(pid)["module"])
    t0 = time.time()
    ctx = Ctx()
    n = mod.N[tier]
    res = {"ran": 0, "distinct": [], "violations": [], "inconclusive": 0, "samples": [], "capped": False}
    seen = set()
    whats = collections.Counter()
    for i in range(w, n, nw):
        if time.time() - t0 > cap:
            res["capped"] = True
            break
        case = json.loads(json.dumps(jsonable(mod.make(case_rng(seed, pid, i), i, tier))))
        strew(case, case_rng(seed + 7919, pid, i))
        try:
            v = run_case(mod, case, ctx, pid)
        except Inconclusive:
            res["inconclusive"] += 1
            continue
        res["ran"] += 1
        if ctx.take_nontrivial():
            d = digest(case)
            if d not in seen:
                seen.add(d)
                if len(res["samples"]) < 2:
                    res["samples"].append(case)
        if v is not None:
            whats[v["what"]] += 1
            if whats[v["what"]] <= 2:
                v["index"] = i
                res["violations"].append(v)
            if sum(whats.values()) >= MAXV * 4 or len(whats) >= MAXV:
                break
    res["distinct"] = sorted(seen)
    res["events"] = dict(ctx.events)
    res["worst"] = ctx.worst
    res["sets"] = {k: sorted(v) for k, v in ctx.sets.items()}
    with open(out, "w", encoding="utf-8") as f:
        json.dump(res, f)


# ------------------------------------------------------------------------------------------------ parent
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def check(pid, tier, seed):
    c = info(pid)
    t0 = time.time()
    cap = 240 if tier == "quick" else 720
    sys.path.insert(0, VERIF)
    procs = []
    tmp = tempfile.mkdtemp(prefix="vmon_")
    try:
        for w in range(WORKERS):
            out = os.path.join(tmp, f"w{w}.json")
            err = open(os.path.join(tmp, f"w{w}.err"), "w", encoding="utf-8")
            procs.append((subprocess.Popen(
                [PY, os.path.join(HERE, "run.py"), "--worker", f"{w}/{WORKERS}", "--property", pid, "--tier", tier, "--seed", str(seed),
                 "--out", out, "--cap", str(cap)], env=env_for_child(), stdout=err, stderr=err, cwd=tmp), out, err))
        results, broken = [], []
        deadline = time.time() + cap + 90
        for p, out, err in procs:
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            err.close()
            if rc == 0 and os.path.exists(out):
                results.append(json.load(open(out, encoding="utf-8")))
            else:
                tail = open(err.name, encoding="utf-8", errors="replace").read()[-1500:]
                broken.append(f"worker ended with {rc}: {tail}")
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    events, worst, distinct, violations, samples, sets = {}, {}, set(), [], [], {}
    ran = inconclusive = 0
    capped = False
    for r in results:
        ran += r["ran"]
        inconclusive += r["inconclusive"]
        capped |= r["capped"]
        distinct.update(r["distinct"])
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(v, worst.get(k, 0))
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        violations += r["violations"]
        samples += r["samples"]
    violations.sort(key=lambda v: v["index"])

    meta = json.load(open(os.path.join(HERE, "required.json"), encoding="utf-8")).get(pid, {})
    known = [k for k in known_findings() if k["property"] == pid]
    fresh, listed = [], {}
    for v in violations:
        k = next((k for k in known if k["what"] == v["what"]), None)
        if k:
            listed[k["what"]] = k
        else:
            fresh.append(v)

    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(distinct),
            "rule": meta.get("rule", "seeded random cases; non-trivial when the deciding monitor evaluated its oracle on the case; distinct by case digest"),
            "samples": samples[:3],
            "monitor_events": dict(sorted(events.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(sets.items())},
            "closest_to_tolerance": {k: round(v, 6) for k, v in sorted(worst.items(), key=lambda kv: -kv[1])[:12]},
            "watchdog_inconclusive": inconclusive,
            "stopped_by_time_cap": capped,
        },
        "assumptions": [c["note"]],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(evid, f, indent=1)

    for k in listed.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}: {k.get('text', '')}")
    if fresh:
        shown = {}
        for v in fresh:
            shown.setdefault(v["what"], v)
        for j, v in enumerate(list(shown.values())[:MAXV]):
            path = os.path.join("evidence", "replays", f"{pid}-{j}.json")
            with open(os.path.join(VERIF, path), "w", encoding="utf-8") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, **v}, f, indent=1)
            print(f"  {v['what']}: {json.dumps(v['detail'])[:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    problems = list(broken)
    if inconclusive:
        problems.append(f"{inconclusive} cases hit the watchdog")
    need = meta.get("min", {})
    for k, n in need.items():
        if events.get(k, 0) < n:
            problems.append(f"monitor event '{k}' observed {events.get(k, 0)} times, needs {n}")
    if ran == 0 or len(distinct) < 2:
        problems.append("nothing observed")
    if problems:
        print("INCONCLUSIVE property=" + pid)
        for p in problems:
            print("  " + p)
        return 2
    print(f"held property={pid} tier={tier} seed={seed} cases={ran} distinct={len(distinct)} wall={evid['wall_s']}s")
    return 0


def replay(path):
    rec = json.load(open(path, encoding="utf-8"))
    pid = rec["property"]
    code = f"""
import json,sys
sys.path.insert(0,{HERE!r})
import importlib
from monitor import run
from monitor.core import Ctx
mod=importlib.import_module('monitor.props.'+run.info({pid!r})['module'])
v=run.run_case(mod, json.load(open({path!r}))['case'], Ctx(), {pid!r})
print(json.dumps(v,indent=1) if v else 'held')
sys.exit(1 if v else 0)
"""
    return subprocess.call([PY, "-c", code], env=env_for_child())


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--worker")
    a.add_argument("--out")
    a.add_argument("--cap", type=float, default=240)
    a.add_argument("--replay")
    o = a.parse_args()
    if o.replay:
        return replay(os.path.abspath(o.replay))
    if o.worker:
        sys.path[:0] = [VERIF] if VERIF not in sys.path else []
        w, nw = map(int, o.worker.split("/"))
        worker(o.property, o.tier, o.seed, w, nw, o.out, o.cap)
        return 0
    return check(o.property, o.tier, o.seed)


if __name__ == "__main__":
    sys.exit(main())
