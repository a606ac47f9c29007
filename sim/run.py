"""Command line of the simulator.

  run.py check  C01 [--tier quick|thorough]   search; exit 0 / 1 (+VIOLATION) / 2
  run.py replay FILE                          re-execute a replay file; exit 1 if it fails
  run.py one    C01 INDEX                     execute one run and print its result
  run.py selftest [C01 ...] [--runs N]        determinism test of the simulator
Internal: worker, shrink.
"""

from __future__ import annotations

import argparse
import contextlib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
WORLDS = [f"C{i:02d}" for i in range(1, 15)]


OTHER_HASH = "4242"
CACHE = None  # set by the parent; a scratch directory that goes with the command


def child_env(hashseed="0"):
    keep = ("PATH", "HOME", "LANG", "TMPDIR", "VERIF_SEED", "VERIF_TIER")
    env = {k: os.environ[k] for k in keep if k in os.environ}
    env.update(
        PYTHONPATH=f"{REPO}:{VERIF}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=hashseed,
        PYTHONWARNINGS="ignore",
        JAX_PLATFORMS="cpu",
        XLA_FLAGS="--xla_backend_optimization_level=0 "
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
        "--xla_cpu_use_thunk_runtime=false",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MPLBACKEND="Agg",
    )
    if CACHE:  # XLA executables shared by the processes of one command
        env.update(
            JAX_COMPILATION_CACHE_DIR=CACHE,
            JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
            JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
        )
    return env


# ---------------------------------------------------------------------------
#  Inside a simulation process
# ---------------------------------------------------------------------------


def load_world(prop):
    import importlib
    import pkgutil

    import jax  # noqa: F401  its locks stay real

    from sim.core import install_jit, install_locks

    install_locks(str(REPO / "laplax"))
    install_jit(str(REPO / "laplax"), str(HERE))
    import laplax

    for m in pkgutil.walk_packages(laplax.__path__, "laplax."):
        with contextlib.suppress(ImportError):
            importlib.import_module(m.name)  # no import lock inside a schedule
    src = pathlib.Path(laplax.__file__).resolve()
    if REPO / "laplax" not in src.parents:
        raise SystemExit(f"laplax imported from {src}, not from {REPO}")
    from loguru import logger
    from tqdm import tqdm

    logger.remove()
    tqdm.monitor_interval = 0
    sys.modules[tqdm.__module__].time = progress_clock
    return importlib.import_module(f"sim.worlds.{prop.lower()}")


TICKS = [0]


def progress_clock():
    """The time a progress display sees: it decides when it writes."""
    TICKS[0] += 1
    return 0.06 * TICKS[0]


def run_plan(world, plan):
    """Execute one plan; classify whatever happens."""
    import traceback

    import jax

    from sim.core import HarnessError, Sim, Violation

    sim = Sim(plan)
    TICKS[0] = 0
    x64 = bool(jax.config.read("jax_enable_x64"))
    violation = None
    t0 = time.perf_counter()
    res = {}
    try:
        res = world.execute(sim, plan) or {}
    except Violation as v:
        violation = {"kind": v.kind, "detail": v.detail}
    except HarnessError as e:
        return {"harness_error": f"{e}\n{traceback.format_exc()[-3000:]}"}
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        chain = e
        in_pkg = False
        while chain is not None:
            frames = traceback.extract_tb(chain.__traceback__)
            in_pkg |= any(f.filename.startswith(str(REPO / "laplax")) for f in frames)
            chain = chain.__cause__ or chain.__context__
        del tb
        # functools.singledispatch leaves no frame of the package when a rule does
        # not take what its caller hands on.
        in_pkg |= isinstance(e, TypeError) and bool(re.search(
            r"unexpected keyword argument|missing \d+ required|positional argument",
            str(e)))
        if not in_pkg:
            return {"harness_error": traceback.format_exc()[-4000:]}
        violation = {
            "kind": "unexpected-exception",
            "detail": f"{type(e).__name__}: {str(e)[:500]}",
        }
        if os.environ.get("SIM_DEBUG"):
            traceback.print_exc()
    finally:
        if bool(jax.config.read("jax_enable_x64")) != x64:
            jax.config.update("jax_enable_x64", x64)
    from sim.core import fingerprint

    # Coverage of a run: what actually happened, not what was configured.
    state = fingerprint([
        sorted(sim.probes), sorted(sim.faults), res.get("state", None)
    ])
    return {
        "violation": violation,
        "faults": sim.faults,
        "probes": sim.probes,
        "sim_time": round(sim.now, 6),
        "steps": sim.steps,
        "events": len(sim.events),
        "digest": sim.digest(),
        "decisions": sim.sched.decisions if sim.sched else res.get("decisions"),
        "interleaving": fingerprint(sim.sched.points) if sim.sched else None,
        "state": state,
        "nontrivial": bool(res.get("nontrivial", False)),
        "values": res.get("values"),
        "prefer": bool(res.get("prefer")),
        "wall": round(time.perf_counter() - t0, 4),
    }


def plan_for(world, seed, prop, i, tier):
    import random

    rng = random.Random(f"{seed}:{prop}:{i}")
    plan = world.generate(rng, i, tier)
    return json.loads(json.dumps(plan))


def cmd_worker(a):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # nothing else may write into the result stream
    world = load_world(a.prop)
    deadline = time.time() + a.wall
    done = []
    for i in range(a.start, a.runs, a.stride):
        if time.time() > deadline:
            out.write(json.dumps({"stopped": i}) + "\n")
            break
        plan = plan_for(world, a.seed, a.prop, i, a.tier)
        r = run_plan(world, plan)
        r["i"] = i
        r["plan_fp"] = _fp(plan)
        if r.get("violation") or r.get("harness_error"):
            r["plan"] = plan
            r["history"] = list(done)
        elif i < 3:
            r["plan"] = plan
        out.write(json.dumps(r, default=str) + "\n")
        done.append(i)
        if a.recycle and worn_out():
            out.write(json.dumps({"continue": i + a.stride}) + "\n")
            break
    out.write(json.dumps({"done": True}) + "\n")


def worn_out():
    """Compiled programs never go away; a process may have 65530 memory maps."""
    with open("/proc/self/maps", "rb") as f:
        return sum(1 for _ in f) > 25000


def _fp(o):
    from sim.core import fingerprint

    return fingerprint(o)


def explicit(plan, r):
    """Turn a recorded schedule into an explicit one."""
    if r.get("decisions") is not None and isinstance(plan.get("schedule"), dict) \
            and plan["schedule"].get("mode") == "random":
        p = json.loads(json.dumps(plan))
        p["schedule"] = {
            "mode": "explicit",
            "switches": r["decisions"],
            "first": plan["schedule"].get("first", 0),
            "traced": plan["schedule"].get("traced", False),
        }
        return p
    return plan


def generic_shrinks(world, plan):
    sch = plan.get("schedule")
    if isinstance(sch, dict) and sch.get("mode") == "explicit":
        sw = sch["switches"]
        n = len(sw)
        size = n
        while size >= 1:
            for o in range(0, n, size):
                yield {**plan, "schedule": {**sch, "switches": sw[:o] + sw[o + size:]}}
            size //= 2
    if isinstance(plan.get("faults"), list):
        for k in range(len(plan["faults"])):
            yield {**plan, "faults": plan["faults"][:k] + plan["faults"][k + 1:]}
    if isinstance(plan.get("ops"), list) and len(plan["ops"]) > 1:
        n = len(plan["ops"])
        size = n // 2
        while size >= 1:
            for o in range(0, n, size):
                ops = plan["ops"][:o] + plan["ops"][o + size:]
                if ops:
                    yield {**plan, "ops": ops}
            size //= 2
    if hasattr(world, "shrink"):
        yield from world.shrink(plan)


def cmd_shrink(a):
    """stdin: {plan, kind}; stdout: minimised plan."""
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    req = json.load(sys.stdin)
    world = load_world(a.prop)
    deadline = time.time() + a.wall
    plan = req["plan"]
    kind = req["kind"]
    r = run_plan(world, plan)
    tried = 1
    if not r.get("violation"):
        out.write(json.dumps({"plan": req["plan"], "result": r, "tried": 1}) + "\n")
        return
    kind = r["violation"]["kind"]
    ex = explicit(plan, r)
    if ex is not plan:
        r2 = run_plan(world, ex)
        tried += 1
        if r2.get("violation") and r2["violation"]["kind"] == kind:
            plan, r = ex, r2
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for cand in generic_shrinks(world, plan):
            if time.time() > deadline:
                break
            if cand == plan:
                continue
            try:
                rc = run_plan(world, json.loads(json.dumps(cand)))
            except Exception:  # noqa: BLE001, S112  an ill-formed candidate
                continue
            tried += 1
            if rc.get("violation") and rc["violation"]["kind"] == kind:
                plan, r, progress = cand, rc, True
                break
    out.write(json.dumps({"plan": plan, "result": r, "tried": tried}, default=str) + "\n")


def cmd_replay_inner(a):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    rep = json.loads(pathlib.Path(a.file).read_text())
    world = load_world(rep["property"])
    for i in rep.get("history", []):
        run_plan(world, plan_for(world, rep["seed"], rep["property"], i, rep["tier"]))
    out.write(json.dumps(run_plan(world, rep["plan"]), default=str) + "\n")


def cmd_plan(a):
    print(json.dumps(plan_for(load_world(a.prop), a.seed, a.prop, a.index, a.tier)))


def cmd_one(a):
    world = load_world(a.prop)
    plan = plan_for(world, a.seed, a.prop, a.index, a.tier)
    print(json.dumps(plan, indent=None))
    r = run_plan(world, plan)
    print(json.dumps(r, indent=1, default=str))


# ---------------------------------------------------------------------------
#  Parent side
# ---------------------------------------------------------------------------


def sub(args, hashseed="0", **kw):
    return subprocess.Popen(
        [PY, "-W", "ignore", str(HERE / "run.py"), *map(str, args)],
        env=child_env(hashseed), cwd="/", text=True, **kw,
    )


def replay_once(path, hashseed="0"):
    p = sub(["replay-inner", path], hashseed, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE)
    try:
        o, e = p.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        return {"harness_error": "replay timed out"}
    lines = [l for l in o.splitlines() if l.startswith("{")]
    if not lines:
        return {"harness_error": f"replay died rc={p.returncode}: {e[-1500:]}"}
    return json.loads(lines[-1])


def load_known():
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else []


def match_known(known, prop, v):
    import re

    for k in known:
        if k.get("status") == "open" and k["property"] == prop \
                and k["kind"] == v["kind"] and re.search(k["detail"], v["detail"]):
            return k
    return None


def cmd_check(a):
    t0 = time.time()
    prop, tier, seed = a.prop, a.tier, a.seed
    cfg = json.loads((HERE / "budget.json").read_text())[prop]
    runs, wall = cfg[tier]["runs"], cfg[tier]["wall"]
    if a.runs:
        runs = a.runs
    nw = max(1, min(int(os.environ.get("SIM_WORKERS", "8")), runs))
    procs = []
    logdir = VERIF / "out"
    logdir.mkdir(exist_ok=True)

    def start(w, first, wall, mode="w"):
        with open(logdir / f"{prop}.w{w}.err", mode) as err:
            return sub(
                ["worker", prop, "--tier", tier, "--seed", seed, "--start", first,
                 "--stride", nw, "--runs", runs, "--wall", wall, "--recycle"],
                stdout=subprocess.PIPE, stderr=err)

    procs = [start(w, w, wall) for w in range(nw)]
    import queue
    import threading

    q = queue.Queue()

    def pump(w, p):
        for line in p.stdout:
            q.put((w, line))
        q.put((w, None))

    for w, p in enumerate(procs):
        threading.Thread(target=pump, args=(w, p), daemon=True).start()
    results, bad, known_hits, herr = [], None, {}, []
    known = load_known()
    finished, alive, stopped, nworkers = 0, nw, 0, nw
    hard = time.time() + wall + 240
    while alive:
        try:
            w, line = q.get(timeout=max(1, hard - time.time()))
        except queue.Empty:
            herr.append("workers exceeded the hard wall limit")
            break
        if line is None:
            alive -= 1
            continue
        try:
            r = json.loads(line)
        except ValueError:
            continue
        if "continue" in r:
            left = t0 + wall - time.time()
            if r["continue"] < runs and left > 2:
                alive, again = alive + 1, start(w, r["continue"], round(left), "a")
                nworkers += 1
                procs.append(again)
                threading.Thread(target=pump, args=(w, again), daemon=True).start()
            continue
        if r.get("done"):
            finished += 1
            continue
        if "stopped" in r:
            stopped += 1
            continue
        if r.get("harness_error"):
            herr.append(f"run {r['i']}: {r['harness_error']}")
            if len(herr) > 5:
                break
            continue
        results.append(r)
        v = r.get("violation")
        if v:
            k = match_known(known, prop, v)
            if k:
                known_hits[k["id"]] = known_hits.get(k["id"], 0) + 1
            elif bad is None or r["i"] < bad["i"]:
                bad = r
                break
    for p in procs:
        if p.poll() is None and (bad or herr or alive):
            p.kill()
    for p in procs:
        p.wait()
    # Ended from outside, for want of memory: its runs are lost, the others count.
    lost = 0 if bad or herr else sum(p.returncode == -9 for p in procs)
    if finished + min(lost, nw // 2) < nworkers and not bad and not herr:
        errs = "".join((logdir / f"{prop}.w{w}.err").read_text()[-800:]
                       for w in range(nw))
        herr.append(f"{nworkers - finished} workers died: {errs}")

    det, other = {"rechecked": 0, "mismatched": 0}, None
    if not bad and not herr and results:
        det, other = recheck(prop, tier, seed, results, cfg.get("recheck", 4))

    replay = None
    if other:
        bad = other
        replay = report_process(prop, tier, seed, bad, herr)
    elif bad:
        replay = report(prop, tier, seed, bad, a, herr)
    write_evidence(prop, tier, seed, results, bad, known_hits, det, t0, stopped, cfg,
                   runs)
    for k in known:
        if k.get("status") == "open" and k["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if bad and replay:
        print(f"violation: {bad['violation']['kind']}: {bad['violation']['detail']}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if herr:
        print("HARNESS ERROR\n" + "\n".join(herr[:6]), file=sys.stderr)
        return 2
    n_nt = sum(r["nontrivial"] for r in results)
    if n_nt < cfg.get("min_nontrivial", 1):
        print(f"HARNESS ERROR: only {n_nt} non-trivial runs", file=sys.stderr)
        return 2
    print(f"{prop}: {len(results)} runs, {n_nt} non-trivial, no violation, "
          f"{time.time() - t0:.1f}s")
    return 0


def differs(a, b):
    """Do two processes disagree about the same run?"""
    if a is None or b is None:
        return False
    if len(a) != len(b):
        return True
    s = max([abs(x) for x in a] + [1e-6])
    return any(not abs(x - y) <= 1e-3 * s for x, y in zip(a, b))


def recheck(prop, tier, seed, results, n):
    """Re-execute some runs in a fresh interpreter with another hash seed."""
    pick = sorted(results, key=lambda r: (r["wall"], r["i"]))[: max(1, len(results) // 2)]
    pick = sorted(pick, key=lambda r: r["plan_fp"])[:n]
    pick += [r for r in results if r.get("prefer") and r not in pick][:n]
    mism, bad = 0, None
    procs = []
    for r in pick:
        procs.append((r, sub(
            ["worker", prop, "--tier", tier, "--seed", seed, "--start", r["i"],
             "--stride", 10**9, "--runs", r["i"] + 1, "--wall", 200],
            OTHER_HASH, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
    for r, p in procs:
        try:
            o, _ = p.communicate(timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
            mism += 1
            continue
        got = [json.loads(l) for l in o.splitlines() if '"digest"' in l]
        if not got or got[0]["digest"] != r["digest"]:
            mism += 1
            print(f"note: run {r['i']} digest differs in a fresh process",
                  file=sys.stderr)
        if got and (got[0].get("violation") or differs(got[0].get("values"), r["values"])):
            bad = {**got[0], "plan": r.get("plan"), "tier": tier}
    return {"rechecked": len(pick), "mismatched": mism}, bad


def report_process(prop, tier, seed, bad, herr):
    """The same run gives other results in another process (or under its hash seed)."""
    path = VERIF / "out" / f"replay-{prop}-process-{bad['plan_fp']}.json"
    p = sub(["plan", prop, "--tier", tier, "--seed", seed, "--index", bad["i"]],
            stdout=subprocess.PIPE)
    plan = json.loads(p.communicate()[0].splitlines()[-1])
    v = bad.get("violation") or {
        "kind": "process-dependent", "detail": "two processes executing the same run "
        "(hash seeds 0 and " + OTHER_HASH + ") compute different values"}
    c = {"property": prop, "seed": seed, "tier": tier, "run": bad["i"], "violation": v,
         "history": [], "processes": ["0", OTHER_HASH], "plan": plan}
    path.write_text(json.dumps(c, indent=1, default=str))
    r = replay_any(c, path)
    if r.get("violation"):
        bad["violation"] = r["violation"]
        return path
    herr.append(f"process-dependent run {bad['i']} did not replay")
    return None


def replay_any(rep, path):
    """Replay a file; with `processes`, in each of them, comparing their results."""
    hs = rep.get("processes")
    if not hs:
        return replay_once(path)
    rs = [replay_once(path, h) for h in hs]
    for r in rs:
        if r.get("harness_error") or r.get("violation"):
            return r
    if differs(rs[0].get("values"), rs[1].get("values")):
        rs[0]["violation"] = rep["violation"]
    return rs[0]


def report(prop, tier, seed, bad, a, herr):
    """Minimise, write the replay file, and replay it in a fresh process."""
    outdir = VERIF / "out"
    outdir.mkdir(exist_ok=True)
    path = outdir / f"replay-{prop}-{bad['plan_fp']}.json"
    kind = bad["violation"]["kind"]
    base = {"property": prop, "seed": seed, "tier": tier, "run": bad["i"],
            "violation": bad["violation"], "history": []}
    cands = []
    p = sub(["shrink", prop, "--wall", 60], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        o, _ = p.communicate(json.dumps({"plan": bad["plan"], "kind": kind}), timeout=300)
        sh = json.loads([l for l in o.splitlines() if l.startswith("{")][-1])
        if sh["result"].get("violation"):
            cands.append({**base, "plan": sh["plan"],
                          "violation": sh["result"]["violation"],
                          "digest": sh["result"]["digest"],
                          "shrink_executions": sh["tried"]})
    except (subprocess.TimeoutExpired, IndexError, ValueError):
        p.kill()
    cands.append({**base, "plan": bad["plan"], "digest": bad["digest"]})
    if bad.get("history"):
        h = bad["history"]
        for k in (1, 4, len(h)):
            cands.append({**base, "plan": bad["plan"], "digest": bad["digest"],
                          "history": h[-k:]})
    for c in cands:
        path.write_text(json.dumps(c, indent=1, default=str))
        r = replay_once(path)
        if r.get("violation"):
            if r["violation"]["kind"] == c["violation"]["kind"]:
                c["violation"] = r["violation"]
                c["reproduced"] = True
                c["digest_equal"] = r.get("digest") == c.get("digest")
                path.write_text(json.dumps(c, indent=1, default=str))
                bad["violation"] = r["violation"]
                return path
    herr.append(f"violation of run {bad['i']} did not replay: {bad['violation']}")
    return None


def write_evidence(prop, tier, seed, results, bad, known_hits, det, t0, stopped, cfg, runs):
    wall = time.time() - t0
    meta = json.loads((HERE / "worlds" / "meta.json").read_text())[prop]
    faults, probes = {}, {}
    for r in results:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    states = {r["state"] for r in results}
    inter = {r["interleaving"] for r in results if r["interleaving"]}
    digests = {r["digest"] for r in results}
    distinct_nt = len({r["digest"] for r in results if r["nontrivial"]})
    samples = [{"run": r["i"], "plan": r["plan"], "digest": r["digest"]}
               for r in results if r.get("plan")][:2]
    n = len(results)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": distinct_nt,
            "rule": meta["rule"],
            "samples": samples,
            "runs_requested": runs,
            "workers_stopped_by_wall": stopped,
            "runs_per_hour": round(3600 * n / max(wall, 1e-9)),
            "seeds_per_hour": round(3600 * n / max(wall, 1e-9)),
            "simulated_seconds": round(sum(r["sim_time"] for r in results), 3),
            "seam_crossings": sum(r["steps"] for r in results),
            "recorded_events": sum(r["events"] for r in results),
            "faults_injected": dict(sorted(faults.items())),
            "faults_total": sum(faults.values()),
            "probes": dict(sorted(probes.items())),
            "distinct_event_histories": len(digests),
            "distinct_states": len(states),
            "distinct_states_measure": "set of probes, faults fired and world state",
            "distinct_interleavings": len(inter),
            "preemptions": sum(len(r["decisions"] or []) for r in results),
            "determinism_recheck": det,
            "components_real": meta["real"],
            "components_stub": meta["stub"],
            "known_findings_hit": known_hits,
            "exhaustive": False,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if bad else 0,
    }
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))


def cmd_replay(a):
    rep = json.loads(pathlib.Path(a.file).read_text())
    r = replay_any(rep, a.file)
    if r.get("harness_error"):
        print(r["harness_error"], file=sys.stderr)
        return 2
    same = r.get("digest") == rep.get("digest")
    if r.get("violation"):
        print(json.dumps(rep["plan"]))
        print(f"violation: {r['violation']['kind']}: {r['violation']['detail']}")
        print(f"event log digest {r['digest']} "
              f"({'identical to' if same else 'differs from'} the recorded one)")
        print(f"VIOLATION property={rep['property']} replay={a.file}")
        return 1
    print("no violation")
    return 0


def cmd_setup(a):
    """Nothing is compiled: check that the tools and the package are in place."""
    p = subprocess.run(
        [PY, "-W", "ignore", "-c",
         "import jax, laplax, laplax.api, laplax.register, sim.core, sim.seams, sim.zoo"],
        env=child_env(), cwd="/")
    return p.returncode


def cmd_selftest(a):
    """Same seeds, different process layouts and hash seeds: identical logs."""
    bad = 0
    for prop in a.props or WORLDS:
        logs = []
        for nw, hs in ((1, "0"), (3, "7"), (7, "99")):
            procs = [sub(["worker", prop, "--tier", "quick", "--seed", a.seed, "--start",
                          w, "--stride", nw, "--runs", a.runs, "--wall", 3000], hs,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                     for w in range(nw)]
            d = {}
            for p in procs:
                o, _ = p.communicate()
                for l in o.splitlines():
                    r = json.loads(l)
                    if "i" in r:
                        d[r["i"]] = (r.get("digest"), r.get("violation"),
                                     r.get("harness_error"), r.get("interleaving"))
            logs.append(d)
        diff = [i for i in logs[0] if any(l.get(i) != logs[0][i] for l in logs[1:])]
        viol = [i for i in logs[0] if logs[0][i][1] or logs[0][i][2]]
        print(f"{prop}: {len(logs[0])} runs x3 layouts, {len(diff)} differ {diff[:8]}, "
              f"{len(viol)} failing {viol[:8]}", flush=True)
        bad += bool(diff) + bool(viol)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"

    def common(p):
        p.add_argument("--tier", default=tier)
        p.add_argument("--seed", type=int, default=seed)

    for name in ("check", "worker", "shrink"):
        p = sp.add_parser(name)
        p.add_argument("prop")
        common(p)
        p.add_argument("--runs", type=int, default=0)
        p.add_argument("--recycle", action="store_true")
        p.add_argument("--start", type=int, default=0)
        p.add_argument("--stride", type=int, default=1)
        p.add_argument("--wall", type=float, default=60)
    p = sp.add_parser("one")
    p.add_argument("prop")
    p.add_argument("index", type=int)
    common(p)
    p = sp.add_parser("plan")
    p.add_argument("prop")
    p.add_argument("--index", type=int, default=0)
    common(p)
    sp.add_parser("setup")
    for name in ("replay", "replay-inner"):
        p = sp.add_parser(name)
        p.add_argument("file")
    p = sp.add_parser("selftest")
    p.add_argument("props", nargs="*")
    p.add_argument("--runs", type=int, default=30)
    common(p)
    a = ap.parse_args()
    fn = {
        "check": cmd_check, "worker": cmd_worker, "shrink": cmd_shrink,
        "replay": cmd_replay, "replay-inner": cmd_replay_inner, "one": cmd_one,
        "plan": cmd_plan,
        "selftest": cmd_selftest, "setup": cmd_setup,
    }[a.cmd]
    global CACHE
    if a.cmd in ("check", "selftest", "replay"):
        CACHE = tempfile.mkdtemp(prefix="simcc-")
    try:
        rc = fn(a) or 0
    finally:
        if CACHE:
            shutil.rmtree(CACHE, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
