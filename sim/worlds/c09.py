"""C09 - a calibration search returns the best point it tried, come what may."""

import math
import time
from functools import partial

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FAULT_TYPES, FaultBook, NullStream, Sim, SimClock, Violation, check_close,
    contextlib, gen_problem, global_x64, jax, jnp, np, problem, stderr_as,
)
from ..core import REPO, Scheduler, make_fault, random_mode

OTHER = [k for k in FAULT_TYPES if k not in ("value", "stopiter")]
TYPES = ("float", "float", "np32", "np64", "jnp", "jnp0", "int")


def gen_script(rng, k):
    """What the objective does at each grid point."""
    base = rng.choice(["bowl", "noise", "rise", "fall", "flat", "steps"])
    out = []
    c = rng.uniform(0, k)
    scale = rng.choice([1.0, 1.0, 2.0 ** -27, 2.0 ** -40, 2.0 ** 30])
    for j in range(k):
        v = {"bowl": (j - c) ** 2, "noise": rng.uniform(-5, 5), "rise": j * 1.5,
             "fall": -2.0 * j, "flat": 1.0, "steps": float(j // 2)}[base]
        e = {"v": round(v * 8) / 8 * scale,
             "t": rng.choice(TYPES if scale == 1.0 else TYPES[:-1])}
        u = rng.random()
        if u < 0.12:
            e["act"] = "valueerror"
            e["exc"] = rng.choice(["value", "linalg", "unicode", "json"])
        elif u < 0.24:
            e["act"] = "nan"
        elif u < 0.30:
            e["act"] = "inf"
        elif u < 0.33:
            e["act"] = "-inf"
        elif u < 0.36:
            e["act"] = "raise"
            e["exc"] = rng.choice(OTHER)
        elif u < 0.41:
            e["act"] = "nested"
        e["stall"] = rng.choice([0.0, 0.0, 1.0, 1e6])
        out.append(e)
    return out


def gen_search(rng):
    k = rng.choice([1, 2, 3, 4, 6, 9, 12])
    return {
        "op": rng.choice(["grid", "grid", "grid", "optimize"]), "k": k,
        "script": gen_script(rng, k),
        "patience": rng.choice([None, None, 1, 1, 2, 3, 5]),
        "max_iterations": rng.choice([None, None, None, 1, 2, 3, k, k + 3]),
        "interval": rng.choice(["jnp", "np", "list", "desc"]),
        "lo": rng.choice([-3.0, -1.0, 0.0]), "span": rng.choice([1.0, 3.0, 5.0]),
        "retry": rng.random() < 0.7,
    }


def gen_calib(rng, n):
    op = gen_calib_(rng, n)
    op["order"] = None
    if rng.random() < 0.35:  # the score runs over the grid as arranged
        k = rng.choice([6, 8, 10])
        order = list(range(k))
        if rng.random() < 0.6:  # the second best, a long ascent, then the best
            m = rng.randint(k // 2, k - 2)
            up = sorted(rng.sample(range(2, k), m))
            tail = [0, *(r for r in range(2, k) if r not in up)]
            rng.shuffle(tail)
            order = [1, *up, *tail]
        else:
            rng.shuffle(order)
        op |= {"objective": rng.choice(["nll", "chi_squared"]) if not op["classify"]
               else "nll", "k": k, "lo": -1.0, "span": 3.0, "max_iterations": None,
               "patience": rng.choice([None, None, None, 2, 3, 4]), "fault": None,
               "wave": None, "order": order}
    return op


def gen_calib_(rng, n):
    cls = rng.random() < 0.4
    return {
        "op": "calib", "classify": cls,
        "pt": rng.choice(["mc_bridge", "laplace_bridge", "mean_field_0", "mean_field_1",
                          "mean_field_2"]) if cls else "none",
        "pf": "linear" if cls else rng.choice(["linear", "linear", "nonlinear"]),
        "objective": rng.choice(["nll", "ece"] if cls else
                                ["nll", "nll", "chi_squared", "marginal_log_likelihood"]),
        "k": rng.choice([2, 4, 6, 12]), "lo": rng.choice([-2.0, -1.0, 0.0]),
        "span": rng.choice([1.0, 3.0]), "patience": rng.choice([None, None, 1, 2]),
        "max_iterations": rng.choice([None, None, None, 2, 3]),
        # The posterior is the caller's: it may reparametrise the prior, so that
        # the score has several valleys.
        "wave": [rng.choice([1.0, 2.5, 4.0]), rng.choice([0.6, 1.2, 2.5]),
                 rng.choice([0.0, 1.0, 2.0, 4.0])] if rng.random() < 0.6 else None,
        "jit": rng.random() < 0.5, "key": rng.randrange(50),
        "fault": {"seam": "posterior", "at": rng.choice([1, 1, 2]),
                  "kind": rng.choice(["value", "value", "value", "io", "crash"])}
        if rng.random() < 0.4 else None,
        "data": rng.choice(["tuple", "dict", "list2", "list", "dict+"]),
        "custom": rng.random() < 0.2,  # a search of the caller's own as well
        "spell": rng.choice(["lower", "lower", "enum", "upper", "title"]),
    }


def generate(rng, i, tier):
    calib = rng.random() < 0.4
    nt = 1 if calib else rng.choice([1, 1, 2, 3])
    return {
        "problem": gen_problem(rng, many=0.2 if calib else 0.0, n_lo=3, n_hi=6, models=("mlp", "lin", "list"),
                               losses=("mse",), vmap_choice=False),
        "curv": rng.choice(["full", "diagonal"]), "x64": rng.random() < 0.6, "nt": nt,
        "tasks": [[gen_calib(rng, 4)]] if calib else
        [[gen_search(rng) for _ in range(rng.randint(2, 4) if nt == 1 else 1)]
         for _ in range(nt)],
        "jumps": [rng.choice([0.0, 0.0, -3600.0, 1e9, -1e9, math.pi])
                  for _ in range(rng.randint(0, 12))],
        "schedule": random_mode(rng, nt),
    }


@contextlib.contextmanager
def sim_clock(clock):
    """laplax sees the simulated clock, however it imported the real one."""
    import sys

    saved = []
    fns = {getattr(time, f): f for f in ("perf_counter", "monotonic", "time",
                                         "perf_counter_ns", "sleep")}
    for name, mod in list(sys.modules.items()):
        if not name.startswith("laplax"):
            continue
        for k, v in list(vars(mod).items()):
            new = None
            if v is time:
                new = clock
            elif callable(v) and type(v).__name__ == "builtin_function_or_method" \
                    and v in fns:
                new = getattr(clock, fns[v])
            if new is not None:
                saved.append((mod, k, v))
                setattr(mod, k, new)
    try:
        yield
    finally:
        for mod, k, v in saved:
            setattr(mod, k, v)


# -- reference model -----------------------------------------------------------------


def model_search(results, patience, max_iterations):
    """-> (number of points evaluated, results seen, index of the best)"""
    seen, up = [], 0
    for j, r in enumerate(results):
        r = math.inf if math.isnan(r) else r
        seen.append(r)
        if patience is not None and j:
            up = up + 1 if r > seen[j - 1] else 0
            if up >= patience:
                break
        if max_iterations is not None and j + 1 >= max_iterations:
            break
    best = min(range(len(seen)), key=lambda j: (seen[j], j))
    return len(seen), seen, best


def raise_value(kind):
    if kind == "value":
        raise make_fault("value", "objective")
    if kind == "linalg":
        raise np.linalg.LinAlgError("injected value: singular matrix")
    if kind == "json":
        import json

        json.loads("{")
    b"\xff".decode("utf-8")


def as_type(t, v):
    return {"float": float, "np32": np.float32, "np64": np.float64, "jnp": jnp.asarray,
            "jnp0": lambda x: jnp.zeros(()) + x,
            "int": lambda x: int(x) if math.isfinite(x) else float(x)}[t](v)


def do_search(sim, plan, op, depth=0):
    from laplax.eval.calibrate import grid_search, optimize_prior_prec

    k = op["k"]
    grid = np.logspace(op["lo"], op["lo"] + op["span"], k)
    if op["interval"] == "desc" and op["op"] == "grid":
        grid = grid[::-1]
    armed = [True]
    calls = []

    def objective(prior_arguments):
        j = len(calls)
        sim.point("objective")
        if set(prior_arguments) != {"prior_prec"}:
            raise Violation("bad-call", f"objective got {prior_arguments}")
        calls.append(float(prior_arguments["prior_prec"]))
        if j >= k:
            raise Violation("too-many-points", f"{j + 1} evaluations of {k} points")
        e = op["script"][j]
        sim.advance(e["stall"])
        act = e.get("act")
        if act in ("valueerror", "nan", "inf", "-inf", "raise"):
            if act != "raise" or armed[0]:
                sim.fired(f"objective:{e.get('exc', act)}")
        if act == "valueerror":
            raise_value(e["exc"])
        if act == "nan":
            return as_type(e["t"], math.nan)
        if act in ("inf", "-inf"):
            return as_type(e["t"], float(act))
        if act == "raise" and armed[0]:
            raise make_fault(e["exc"], "objective")
        if act == "nested" and depth == 0:
            do_search(sim, plan, {
                "op": "grid", "k": 3, "interval": "np", "lo": 0.0, "span": 1.0,
                "script": [{"v": 2.0, "t": "float", "stall": 0.0},
                           {"v": 1.0, "t": "float", "stall": 0.0},
                           {"v": 3.0, "t": "float", "stall": 0.0}],
                "patience": 1, "max_iterations": None, "retry": False}, depth=1)
            sim.probe("nested")
        v = e["v"]
        return as_type(e["t"], float(int(v)) if e["t"] == "int" else v)

    def run():
        calls.clear()
        kw = {}
        if op["patience"] is not None:
            kw["patience"] = op["patience"]
        if op["max_iterations"] is not None:
            kw["max_iterations"] = op["max_iterations"]
        if op["op"] == "optimize":
            return optimize_prior_prec(
                objective, log_prior_prec_min=op["lo"],
                log_prior_prec_max=op["lo"] + op["span"], grid_size=k, **kw)
        g = {"jnp": jnp.asarray, "np": np.asarray, "desc": np.asarray,
             "list": lambda a: [float(x) for x in a]}[op["interval"]](grid)
        return grid_search(g, objective, **kw)

    def val(e):
        act = e.get("act")
        if act == "valueerror":
            return math.inf
        if act in ("nan", "inf", "-inf"):
            return float(act)
        return float(int(e["v"])) if e["t"] == "int" else e["v"]

    values = [val(e) for e in op["script"]]
    n, seen, best = model_search(values, op["patience"], op["max_iterations"])
    stop = next((j for j in range(n) if op["script"][j].get("act") == "raise"), None)
    if stop is not None:
        want = FAULT_TYPES[op["script"][stop]["exc"]]
        try:
            got = run()
        except want:
            sim.probe("propagated")
        except ALL_SIM as e:
            raise Violation("fault-replaced", f"{want.__name__} became {e!r}") from e
        else:
            raise Violation("fault-swallowed",
                            f"{want.__name__} at point {stop}, returned {got}")
        if len(calls) != stop + 1:
            raise Violation("wrong-points", f"{len(calls)} evaluations before the fault")
        if not op["retry"]:
            return
        armed[0] = False
        sim.probe("retried")
    got = float(run())
    tol = 1e-9 if plan["x64"] else 1e-4
    if len(calls) != n:
        raise Violation("wrong-points", f"{len(calls)} points evaluated instead of {n}: "
                        f"results {seen}, patience {op['patience']}, "
                        f"max_iterations {op['max_iterations']}")
    check_close("grid points", calls, grid[:n], max(tol, 1e-5), "wrong-points")
    if all(s == math.inf for s in seen):
        sim.probe("nothing-finite")
        if not any(abs(got - g) <= 1e-4 * g for g in grid[:n]):
            raise Violation("wrong-choice", f"{got} is not a point of the grid")
        return
    if abs(got - grid[best]) > 1e-4 * grid[best]:
        raise Violation("wrong-choice", f"chose {got}, best is {grid[best]} of "
                        f"{list(zip(calls, seen))}")
    sim.log("search", n, best)
    sim.probe(f"stopped:{'early' if n < k else 'end'}")


def spelt(op, name, enum):
    """A choice as a caller may write it."""
    how = op.get("spell", "lower")
    return enum(name) if how == "enum" else name.upper() if how == "upper" else \
        name.title() if how == "title" else name


# -- whole calibration ---------------------------------------------------------------


def do_calib(sim, plan, op):
    import laplax
    from laplax.enums import CalibrationObjective, Predictive, Pushforward
    from laplax.eval import metrics as M

    pr = problem(plan["problem"])
    params = pr.params
    X = jnp.asarray(pr.X, dtype=float)
    labels = np.random.default_rng(pr.n).integers(0, pr.out, pr.n).astype(np.int32)
    Y = jnp.asarray(labels) if op["classify"] else jnp.asarray(pr.Y, dtype=float)
    pf0, est = laplax.laplace(pr.model_fn, params, (X, jnp.asarray(pr.Y, dtype=float)),
                              loss_fn="mse", curv_type=plan["curv"])

    grid = np.logspace(op["lo"], op["lo"] + op["span"], op["k"])
    table = None

    def pf(prior_arguments, loss_scaling_factor=1.0):
        if table is not None:  # grid point j stands for the prior table[j]
            j = jnp.argmin(jnp.abs(jnp.log(jnp.asarray(grid))
                                   - jnp.log(prior_arguments["prior_prec"])))
            prior_arguments = {**prior_arguments, "prior_prec": jnp.asarray(table)[j]}
        if op["wave"]:
            a, b, c = op["wave"]
            g = prior_arguments["prior_prec"]
            g = g * jnp.exp(a * jnp.sin(b * jnp.log(g) + c))
            prior_arguments = {**prior_arguments, "prior_prec": g}
        return pf0(prior_arguments, loss_scaling_factor)

    book = FaultBook(sim, [op["fault"]] if op["fault"] else None)

    def posterior(prior_arguments, loss_scaling_factor=1.0):
        book.hit("posterior")
        return pf(prior_arguments, loss_scaling_factor)

    data = {"tuple": (X, Y), "dict": {"input": X, "target": Y},
            "list2": {"target": Y, "input": X}, "list": [X, Y],
            "dict+": {"id": jnp.arange(pr.n), "input": X, "target": Y}}[op["data"]]
    kw = {}
    for a in ("patience", "max_iterations"):
        if op[a] is not None:
            kw[a] = op[a]

    def calibrate(**kw):
        return laplax.calibration(
            posterior, pr.model_fn, params, data, loss_fn="mse", curv_estimate=est,
            curv_type=plan["curv"], predictive_type=spelt(op, op["pt"], Predictive),
            pushforward_type=spelt(op, op["pf"], Pushforward),
            sample_key=jax.random.key(op["key"]), num_samples=4,
            calibration_objective=spelt(op, op["objective"], CalibrationObjective),
            objective_jit=op["jit"],
            **kw)

    def run():
        return calibrate(log_prior_prec_min=op["lo"], grid_size=op["k"],
                         log_prior_prec_max=op["lo"] + op["span"], **kw)

    @partial(jax.jit, static_argnums=1)
    def columns(g, arranged):
        del arranged  # compiled anew
        p = reference_predictive(pr, plan, op, pf, params, {"prior_prec": g})
        if pr.n > 8:
            return jax.lax.map(p, X)
        rows = [p(x) for x in X]
        return {k: jnp.stack([r[k] for r in rows]) for k in rows[0]}

    # Every point of the grid, evaluated one by one without the search.
    def score(g):
        pa = {"prior_prec": g}
        if op["objective"] == "marginal_log_likelihood":
            from laplax.eval.likelihood import marginal_log_likelihood

            return -float(marginal_log_likelihood(
                est, pa, {"input": X, "target": Y}, pr.model_fn, params, "mse",
                plan["curv"], vmap_over_data=True))
        col = columns(pa["prior_prec"], table)
        if op["objective"] == "chi_squared":
            return float(M.chi_squared_zero(**col, target=Y))
        if op["objective"] == "ece":
            return float(M.expected_calibration_error(
                confidence=jnp.max(col["pred_act"], axis=-1),
                correctness=M.correctness(col["map"], Y) * 1, num_bins=15))
        T = jax.nn.one_hot(Y, pr.out) if op["classify"] else Y
        return float(M.nll_gaussian(col["pred_mean"], col["pred_std"], T))

    if op["order"]:
        book.armed = False
        by_score = [float(g) for _, g in sorted((score(g), g) for g in grid)]
        table = tuple(by_score[r] for r in op["order"])
        book.armed = True
        sim.probe("arranged")

    try:
        prior, setp = run()
    except ALL_SIM as e:
        if not book.fired or isinstance(e, ValueError):
            raise Violation("fault-escaped", f"{e!r} ended the calibration") from e
        sim.probe("propagated")
        prior, setp = run()
    else:
        if book.fired and not isinstance(make_fault(book.fired[0]["kind"], ""),
                                         ValueError):
            raise Violation("fault-swallowed", f"{book.fired}")
    book.armed = False
    valued = [f for f in book.fired if f["kind"] == "value"]
    got = float(prior["prior_prec"])
    values = [score(g) for g in grid]
    # A ValueError hits whichever grid point triggers that call of the posterior.
    cands = [list(values)]
    if valued:
        cands = [[*values[:j], math.inf, *values[j + 1:]] for j in range(op["k"])]
        if op["objective"] != "marginal_log_likelihood" and op["fault"]["at"] == 1:
            cands = cands[:1]
    tol = 1e-7 if plan["x64"] else 1e-3
    ok = False
    for vals in cands:
        fin = [v for v in vals if math.isfinite(v)]
        spread = (max(fin) - min(fin)) if fin else 0.0
        eps = tol * max(1.0, *(abs(v) for v in fin)) if fin else 1.0
        close = any(abs(a - b) <= 4 * eps for a, b in zip(vals, vals[1:]))
        if close and op["patience"] is not None:
            ok = True  # a tie decides how far the search goes
            break
        n, seen, best = model_search(vals, op["patience"], op["max_iterations"])
        good = [g for g, s in zip(grid[:n], seen) if s <= seen[best] + 4 * eps]
        if any(abs(got - g) <= 1e-3 * g for g in good):
            ok = True
            if spread > 10 * eps:
                sim.probe("informative")
            break
    if not ok:
        raise Violation("wrong-choice", f"{op['objective']} chose {got}; grid "
                        f"{[float(f'{g:.4g}') for g in grid]} scores "
                        f"{[float(f'{v:.5g}') for v in values]} patience "
                        f"{op['patience']} max {op['max_iterations']} fault {valued}")
    # The returned predictive uses the prior it is given.
    for pa in (prior, {"prior_prec": 3.0}):
        r = setp(prior_arguments=pa)(X[0])
        ref = reference_predictive(pr, plan, op, pf, params, pa)(X[0])
        for k in ref:
            check_close(f"calibrated predictive {k}", r[k], ref[k],
                        1e-7 if plan["x64"] else 5e-3, "wrong-predictive")
    if op.get("custom") or pr.n > 8:
        custom_method(sim, plan, op, calibrate, score, grid)
    sim.probe(f"calib:{op['objective']}")
    if valued:
        sim.probe("point-failed")


def custom_method(sim, plan, op, calibrate, score, grid):
    """A search of the caller's own is given the same objective, and its say is final."""
    from laplax import api

    got = {}

    def method(objective, data, **kwargs):
        got["kw"] = kwargs
        got["values"] = [float(objective({"prior_prec": g}, data)) for g in grid]
        return {"prior_prec": 0.75}

    name = f"simulated-{id(op)}"  # callers run at the same time
    api.calibration_options[name] = method
    try:
        prior, _ = calibrate(calibration_method=name, steps=3, grid_size=7)
    finally:
        del api.calibration_options[name]
    if prior != {"prior_prec": 0.75} or got["kw"] != {"steps": 3, "grid_size": 7}:
        raise Violation("custom-search", f"returned {prior}, given {got['kw']}")
    tol = 1e-7 if plan["x64"] else 1e-3
    for g, v in zip(grid, got["values"]):
        want = score(g)
        if not (abs(v - want) <= 4 * tol * max(1.0, abs(want)) or v == want
                or math.isnan(v) and math.isnan(want)):
            raise Violation("custom-search", f"objective at {g} is {v} instead of {want}")
    sim.probe("custom-method")


def reference_predictive(pr, plan, op, pf, params, pa):
    setp, fns = setup_pushforward(op["pf"], op["pt"])
    return setp(model_fn=pr.model_fn, mean_params=params, posterior_fn=pf,
                prior_arguments=pa, pushforward_fns=fns,
                key=jax.random.key(op["key"]), num_samples=4)


def execute(sim: Sim, plan):
    clock = SimClock(sim, plan["jumps"])
    with global_x64(plan["x64"]), stderr_as(NullStream()), sim_clock(clock):
        def task(ops):
            for op in ops:
                sim.log("begin", op["op"])
                (do_calib if op["op"] == "calib" else do_search)(sim, plan, op)

        if len(plan["tasks"]) == 1:
            task(plan["tasks"][0])
        else:
            sch = Scheduler(sim, plan["schedule"], line_level=True,
                            pkg=f"{REPO}/laplax/")
            for ops in plan["tasks"]:
                sch.add(lambda ops=ops: task(ops))
            sim.sched = sch
            sch.run()
            for t in sch.tasks:
                if t.exc is not None:
                    raise t.exc
    return {"nontrivial": bool(sim.faults) or len(plan["tasks"]) > 1
            or "informative" in sim.probes,
            "state": [[(o["op"], o["k"], o["patience"]) for o in t]
                      for t in plan["tasks"]]}


def shrink(plan):
    ts = plan["tasks"]
    if any(plan["jumps"]):
        yield {**plan, "jumps": []}
    if len(ts) > 1:
        for k in range(len(ts)):
            yield {**plan, "tasks": ts[:k] + ts[k + 1:]}
    for k, t in enumerate(ts):
        for j, op in enumerate(t):
            if len(t) > 1:
                yield {**plan, "tasks": [*ts[:k], t[:j] + t[j + 1:], *ts[k + 1:]]}
            for q, e in enumerate(op.get("script", [])):
                if "act" in e:
                    s = [*op["script"]]
                    s[q] = {"v": e["v"], "t": "float", "stall": 0.0}
                    yield {**plan, "tasks": [*ts[:k], [*t[:j], {**op, "script": s},
                                                      *t[j + 1:]], *ts[k + 1:]]}
