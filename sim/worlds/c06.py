"""C06 - concurrent callers do not influence one another."""

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FaultBook, NullStream, Sim, Violation, gen_problem, global_x64,
    loader_spec, np, stderr_as,
)
from ..core import HarnessError, REPO, Scheduler, random_mode
from .pipeline import OPS, STREAM_OPS, Arts, compare, gen_arts

MIX = ("mv", "mv", "flatmv", "wrap", "dense", "diag", "full", "diagonal", "lanczos",
       "post", "postshared", "pred", "pred", "ownpred", "sample", "eval", "eval",
       "calib", "register", "reduce", "reduce")
EXC = ("io", "timeout", "runtime", "value", "interrupt", "crash", "xla",
       "exit", "cancel")


def gen_op(rng, n, t):
    op = {"op": rng.choice(MIX), "seed": rng.getrandbits(31),
          "loader": loader_spec(rng, n), "fault": None, "name": f"sim-{t}"}
    if op["op"] in STREAM_OPS:
        op["seed"] = (op["seed"] & ~2) | 4 if op["op"] == "eval" else op["seed"] | 4
        if rng.random() < 0.25:
            op["fault"] = {"seam": "next", "at": rng.randint(1, 3),
                           "kind": rng.choice(EXC)}
    return op


def generate(rng, i, tier):
    pr = gen_problem(rng, big=0.04, big_n=24, n_lo=3, n_hi=6, models=("mlp", "lin", "vec", "list"),
                     losses=("mse", "mse", "cross_entropy", "custom"))
    nt = rng.choice([2, 2, 3])
    arts = gen_arts(rng, pr, loader_spec(rng, pr["n"]))
    tasks = [[gen_op(rng, pr["n"], t) for _ in range(rng.choice([1, 2, 2, 3]))]
             for t in range(nt)]
    if rng.random() < 0.5:  # everybody inside the same code at the same time
        kind = rng.choice([*sorted(set(MIX)), "eval", "eval", "eval", "pred", "ownpred",
                           "sample", "reduce", "calib", "register"])
        for t, ops in enumerate(tasks):
            while True:
                op = gen_op(rng, pr["n"], t)
                if op["op"] == kind:
                    break
            tasks[t] = [op]
    if rng.random() < 0.2:  # work started by a callback of other work
        tasks = [[gen_op(rng, pr["n"], 0) for _ in range(rng.choice([1, 2]))]]
        for op in tasks[0]:
            op["inner"] = [[rng.randint(1, 6), gen_op(rng, pr["n"], 1)]
                           for _ in range(rng.choice([1, 1, 2]))]
            for _, q in op["inner"]:
                if q["op"] in REENTERED and rng.random() < 0.7:
                    q["op"] = rng.choice([op["op"], "mv", "reduce", "eval"])
    return {
        "arts": arts, "x64": rng.random() < 0.4, "tasks": tasks,
        "schedule": random_mode(rng, len(tasks)),
    }


REENTERED = ("register", "calib", "post", "lanczos")  # the expensive ones


def run_op(A, op, sim, inner=None):
    """-> ("ok", result) | ("fault", type name); `inner` collects reentrant results."""
    todo = [] if inner is None else [list(q) for q in op.get("inner", ())]
    if todo:
        crossings = [0]

        def reenter(label):
            crossings[0] += 1
            due = [q for q in todo if q[0] <= crossings[0]]
            if due:
                todo.remove(due[0])
                sim.reenter = None
                sim.probe("reentered")
                sim.log("reenter", label, due[0][1]["op"])
                inner.append((due[0][1], run_op(A, due[0][1], sim)))
                sim.reenter = reenter

        sim.reenter = reenter
    try:
        return run_op_(A, op, sim)
    finally:
        sim.reenter = None


def run_op_(A, op, sim):
    book = FaultBook(sim, [op["fault"]] if op["fault"] else None)
    try:
        res = OPS[op["op"]](A, op, book)
    except ALL_SIM as e:
        if not book.fired:
            raise Violation("fault-crossed-over", f"{op['op']} of a caller without "
                            f"a fault failed with {e!r}") from e
        return "fault", type(e).__name__
    if book.fired:
        raise Violation("fault-swallowed", f"{op['op']}: {book.fired}")
    return "ok", res


def execute(sim: Sim, plan):
    tables = snapshot_tables()
    try:
        return _execute(sim, plan)
    finally:
        restore_tables(tables)


def _execute(sim, plan):
    x64 = plan["x64"]
    with global_x64(x64), stderr_as(NullStream()):
        A = Arts(sim, plan["arts"], x64)
        if len(plan["tasks"]) == 1:
            return reentrant(sim, plan, A)
        sch = Scheduler(sim, plan["schedule"], line_level=True, pkg=f"{REPO}/laplax/")
        got = [[] for _ in plan["tasks"]]

        def task(t):
            for op in plan["tasks"][t]:
                sim.log("begin", op["op"])
                got[t].append(run_op(A, op, sim))
                sim.log("end", op["op"], got[t][-1][0])

        for t in range(len(plan["tasks"])):
            sch.add(lambda t=t: task(t))
        sim.sched = sch
        sch.run()
        failed = [(t, e.exc) for t, e in enumerate(sch.tasks) if e.exc is not None]
        sim.sched = None
        # The same work, each caller on its own, on artefacts nobody else touched.
        solo = Sim(plan)
        B = Arts(solo, plan["arts"], x64)
        for t, ops in enumerate(plan["tasks"]):
            for j, op in enumerate(ops):
                ref = run_op(B, op, solo)
                if j >= len(got[t]):
                    e = dict(failed).get(t)
                    if isinstance(e, (Violation, HarnessError)):
                        raise e
                    raise Violation("concurrent-exception", f"caller {t}, {op['op']}: "
                                    f"{type(e).__name__}: {str(e)[:300]}")
                st, res = got[t][j]
                if st != ref[0]:
                    raise Violation("concurrent-outcome",
                                    f"caller {t}, {op['op']}: {st} instead of {ref[0]}")
                if st == "ok":
                    compare(f"caller {t}, {op['op']}", res, ref[1], B,
                            "concurrent-result")
                else:
                    sim.probe("isolated-fault")
                sim.probe(f"op:{op['op']}")
        sim.sched = sch
    return {
        "nontrivial": len(sch.decisions) >= 2,
        "state": [sorted({o["op"] for o in t}) for t in plan["tasks"]],
    }


def reentrant(sim, plan, A):
    """One caller, whose callbacks and streams do work on the same objects."""
    got = []
    for op in plan["tasks"][0]:
        inner = []
        sim.log("begin", op["op"])
        got.append((op, run_op(A, op, sim, inner)))
        sim.log("end", op["op"], got[-1][1][0])
        got += inner
    solo = Sim(plan)
    B = Arts(solo, plan["arts"], A.x64)
    for op, (st, res) in got:
        ref = run_op(B, op, solo)
        if st != ref[0]:
            raise Violation("reentrant-outcome", f"{op['op']}: {st} not {ref[0]}")
        if st == "ok":
            compare(f"{op['op']} around or inside other work", res, ref[1], B,
                    "reentrant-result")
    return {"nontrivial": len(got) > len(plan["tasks"][0]),
            "state": [[o["op"], [q[1]["op"] for q in o.get("inner", ())]]
                      for o in plan["tasks"][0]]}


def _tables():
    """The process-wide tables a caller may add to."""
    import laplax.api
    from laplax.curv import cov
    from laplax.eval import likelihood

    return [cov.CURVATURE_METHODS, cov.CURVATURE_PRECISION_METHODS,
            cov.CURVATURE_TO_POSTERIOR_STATE, cov.CURVATURE_STATE_TO_SCALE,
            cov.CURVATURE_STATE_TO_COV, likelihood.CURVATURE_MARGINAL_LOG_LIKELIHOOD,
            laplax.api.calibration_options]


def snapshot_tables():
    """Every module level table: one run does not start where another one ended."""
    import laplax.api
    from laplax.curv import cov
    from laplax.eval import likelihood

    ts = [t for m in (cov, likelihood, laplax.api) for k, t in sorted(vars(m).items())
          if isinstance(t, dict) and not k.startswith("__")]
    return [(t, dict(t)) for t in ts]


def restore_tables(saved):
    for t, s in saved:
        t.clear()
        t.update(s)


def shrink(plan):
    ts = plan["tasks"]
    if len(ts) > 2:
        for k in range(len(ts)):
            yield {**plan, "tasks": ts[:k] + ts[k + 1:]}
    for k, t in enumerate(ts):
        for j in range(len(t)):
            if len(t) > 1:
                yield {**plan, "tasks": [*ts[:k], t[:j] + t[j + 1:], *ts[k + 1:]]}
            for q in range(len(t[j].get("inner", ()))):
                o = {**t[j], "inner": t[j]["inner"][:q] + t[j]["inner"][q + 1:]}
                yield {**plan, "tasks": [*ts[:k], [*t[:j], o, *t[j + 1:]], *ts[k + 1:]]}
            if t[j]["fault"]:
                yield {**plan, "tasks": [*ts[:k], [*t[:j], {**t[j], "fault": None},
                                                  *t[j + 1:]], *ts[k + 1:]]}
