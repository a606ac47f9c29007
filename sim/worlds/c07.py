"""C07 - registering methods is all-or-nothing and touches nothing else."""

import dataclasses

from .common import *  # noqa: F403
from .common import (
    FaultBook, NullStream, Sim, Violation, check_close, gen_problem, global_x64, jax,
    jnp, loader_spec, make_loader, np, problem, stderr_as, vec_for,
)
from .c06 import _tables, restore_tables, snapshot_tables
from ..core import HarnessError, REPO, Scheduler, random_mode

SLOTS = ("create", "prec", "post", "scale", "cov", "mll")
ARG = {"create": "create_curvature_fn", "prec": "curvature_to_precision_fn",
       "post": "prec_to_posterior_fn", "scale": "posterior_state_to_scale_fn",
       "cov": "posterior_state_to_cov_fn", "mll": "marginal_log_likelihood_fn"}
BUILTIN = ("full", "diagonal", "lanczos", "lobpcg")
NAMES = ("my-curv", "Kron", "x_1", "FULL2")
BAD_DEFAULT = ("nope", "Full ", "kfac", "")


def gen_register(rng, names, known, fam):
    kind = rng.choice(["inherit", "inherit", "inherit", "custom", "missing",
                       "unknown", "badname"])
    op = {"op": "register", "name": rng.choice(names), "given": {}, "default": None,
          "enum": rng.random() < 0.3}
    if kind == "badname":
        op["name"] = None
        kind = "inherit"
    if kind == "inherit":
        op["default"] = rng.choice([*("full", "diagonal", "diagonal", "lanczos"), *known]) if known else \
            rng.choice(BUILTIN[:3])
        k = rng.choice([0, 1, 1, 2, 3, 5])
    elif kind == "custom":
        k = 6
        if rng.random() < 0.3:
            op["default"] = rng.choice(["nope", "full", *known])
    else:
        k = rng.choice([0, 1, 3, 5])
        if kind == "unknown":
            op["default"] = rng.choice(BAD_DEFAULT)
    # Custom functions belong to one family so that they compose with the default's.
    f = fam.get(op["default"], op["default"])
    if f not in BUILTIN:
        f = rng.choice(["full", "diagonal"])
    op["family"] = f
    op["given"] = {s: rng.randint(1, 6) for s in rng.sample(SLOTS, k)}
    if op["name"] and (op["default"] in (*BUILTIN, *known) or k == 6):
        fam[op["name"]] = f
        if op["name"] not in known:
            known.append(op["name"])
    return op


def gen_task(rng, names, k):
    ops, known, fam = [], [], {}
    for _ in range(k):
        u = rng.random()
        if u < 0.5 or not ops:
            ops.append(gen_register(rng, names, known, fam))
        elif u < 0.82:
            ops.append({"op": "use", "name": rng.choice([*names, *known, *BUILTIN[:3],
                                                         *known, *known]),
                        "prior": rng.choice([0.5, 1.0, 2.0]), "layout": rng.random() < 0.6,
                        "seed": rng.getrandbits(31), "late": rng.random() < 0.4,
                        "laplace": rng.random() < 0.3})
        elif u < 0.92:
            ops.append({"op": "calmethod", "name": "opt-" + names[0],
                        "value": rng.choice([0.25, 0.5, 3.0]),
                        "seed": rng.getrandbits(31)})
        else:
            ops.append({"op": "calibrate", "seed": rng.getrandbits(31),
                        "curv": rng.choice(["diagonal", *known, *known]),
                        "name": rng.choice(["opt-" + names[0], "grid_search",
                                            "not-registered"])})
    ops += [{"op": "use", "name": n, "prior": 1.0, "layout": True, "late": False,
             "laplace": rng.random() < 0.4, "seed": rng.getrandbits(31)} for n in known]
    return ops


def generate(rng, i, tier):
    pr = gen_problem(rng, n_lo=2, n_hi=4, models=("vec", "lin", "list"),
                     losses=("mse",), vmap_choice=False)
    nt = rng.choice([1, 1, 2, 3])
    names = list(NAMES)
    rng.shuffle(names)
    per = [[f"{n}"] if nt > 1 else names[:3] for n in names[:nt]]
    return {
        "problem": pr, "loader": loader_spec(rng, pr["n"]), "x64": rng.random() < 0.7,
        "bseed": rng.getrandbits(31), "nt": nt,
        "tasks": [gen_task(rng, per[t], rng.randint(3, 7)) for t in range(nt)],
        "schedule": random_mode(rng, nt),
    }


# -- the functions the user registers ---------------------------------------------


def base(family):
    from laplax.curv import diagonal as d, full as f, low_rank as l
    from laplax.eval import likelihood as k

    m, p = {"full": (f, "full"), "diagonal": (d, "diagonal"),
            "lanczos": (l, "low_rank"), "lobpcg": (l, "low_rank")}[family]
    out = {
        "create": getattr(m, f"create_{p}_curvature"),
        "prec": getattr(m, f"{p}_curvature_to_precision"),
        "post": getattr(m, f"{p}_prec_to_posterior_state"),
        "scale": getattr(m, f"{p}_posterior_state_to_scale"),
        "cov": getattr(m, f"{p}_posterior_state_to_cov"),
        "mll": getattr(k, f"{p}_marginal_log_likelihood"),
    }
    if family == "lobpcg":
        from functools import partial

        from laplax.enums import LowRankMethod

        out["create"] = partial(out["create"], low_rank_method=LowRankMethod.LOBPCG)
    return out


def scale_tree(c, t):
    return jax.tree.map(lambda x: c * x, t)


def custom(slot, family, tag):
    """A user function: the family's own, times a factor only it has."""
    c = 1.0 + tag / 4.0
    b = base(family)[slot]
    low = family in ("lanczos", "lobpcg")

    def mul(t):
        return dataclasses.replace(t, S=c * t.S) if low and hasattr(t, "S") else scale_tree(c, t)

    def fn(*a, **k):
        return mul(b(*a, **k))

    def factory(state):
        mv = b(state)
        return lambda v: c * mv(v)

    def mll(*a, **k):
        return b(*a, **k) + tag

    return {"scale": factory, "cov": factory, "mll": mll}.get(slot, fn)


# -- reference model ----------------------------------------------------------------


class Model:
    """What the tables should mean: name -> slot -> function."""

    def __init__(self):
        self.m = {f: base(f) for f in BUILTIN}
        self.fam = {f: f for f in BUILTIN}
        self.opt = {}

    def register(self, op, fns):
        """None if the registration must succeed, else the set of allowed errors."""
        if op["default"] is None and len(fns) < len(SLOTS):
            return "missing"
        if len(fns) < len(SLOTS) and op["default"] not in self.m:
            return "unknown-default"
        if op["name"] is None:
            return "bad-name"
        self.m[op["name"]] = {s: fns.get(s) or self.m[op["default"]][s] for s in SLOTS}
        self.fam[op["name"]] = op["family"]
        return None


class Caller:
    def __init__(self, sim, plan, pr, x64):
        from laplax.api import GGN

        self.sim, self.pr, self.plan = sim, pr, plan
        self.model = Model()
        self.params = pr.params
        ld = make_loader(sim, pr.X, pr.Y, {**plan["loader"], "x64": x64})
        self.mv = GGN(pr.model_fn, self.params, ld, pr.loss_fn(),
                      vmap_over_data=True, verbose_logging=False)
        self.data = {"input": jnp.asarray(pr.X, dtype=float),
                     "target": jnp.asarray(pr.Y, dtype=float)}
        self.b = jnp.asarray(vec_for(pr.P, plan["bseed"]))
        self.tol = 1e-8 if x64 else 2e-3
        self.failed = 0
        self.held = []  # (name, posterior, functions at that time, ...)


def do_register(C: Caller, op):
    from laplax.enums import CurvApprox
    from laplax.register import register_curvature_method

    fns = {s: custom(s, op["family"], t) for s, t in op["given"].items()}
    before = snapshot_mine(C)
    want = C.model.register(op, fns)
    default = op["default"]
    if op["enum"] and default in BUILTIN:
        default = CurvApprox(default)
    name = op["name"] if op["name"] is not None else ["unhashable"]
    try:
        register_curvature_method(name, default=default,
                                  **{ARG[s]: f for s, f in fns.items()})
        err = None
    except (ValueError, KeyError, TypeError) as e:
        err = e
    if want is None and err is not None:
        raise Violation("registration-rejected",
                        f"{op['name']} default={op['default']} given={sorted(fns)}: "
                        f"{type(err).__name__}: {err}")
    if want is not None:
        C.failed += 1
        C.sim.probe(f"rejected:{want}")
        if err is None:
            raise Violation("registration-accepted", f"{want}: {op}")
        after = snapshot_mine(C)
        if after != before:
            raise Violation("partial-registration",
                            f"{want}: a failed registration of {op['name']} changed "
                            f"the tables: {diff(before, after)}")
    else:
        C.sim.probe("registered")
    C.sim.log("register", op["name"], op["default"], sorted(fns), want or "ok")


def owned(C):
    """Names this caller is responsible for."""
    return {o["name"] for o in C.ops if o["op"] == "register"} | set(BAD_DEFAULT)


def snapshot_mine(C):
    mine = owned(C) | set(BUILTIN)
    return [{str(k): id(v) for k, v in list(t.items()) if str(k) in mine or k is None}
            for t in _tables()[:6]]


def diff(a, b):
    return [f"table {i}: {sorted(set(x.items()) ^ set(y.items()))[:4]}"
            for i, (x, y) in enumerate(zip(a, b)) if x != y]


def do_use(C: Caller, op):
    from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
    from laplax.eval.likelihood import marginal_log_likelihood

    name = op["name"]
    fns = C.model.m.get(name)
    low = C.model.fam.get(name) in ("lanczos", "lobpcg")
    kw = {"b": C.b, "rank": 1} if low else {}
    whole = op.get("laplace") and op["layout"]
    if fns is None:
        try:
            if whole:
                run_laplace(C, name, kw)
            else:
                create_posterior_fn(name, C.mv, layout=C.params)
        except (KeyError, ValueError):
            C.sim.probe("unknown-refused")
            return
        raise Violation("unregistered-accepted", f"{name} has never been registered")
    layout = C.params if op["layout"] else C.pr.P
    mv = C.mv
    if not op["layout"]:
        from laplax.util.flatten import create_pytree_flattener, wrap_function

        fl, un = create_pytree_flattener(C.params)
        mv = wrap_function(C.mv, input_fn=un, output_fn=fl)
    prior = {"prior_prec": op["prior"]}
    if whole:
        post_fn, est = run_laplace(C, name, kw)
        C.sim.probe("through-laplace")
    else:
        est = estimate_curvature(name, mv, layout=layout, **kw)
        post_fn = set_posterior_fn(name, est, layout=layout)
    p = post_fn(prior)
    # Reference: the six functions, called in the documented order.
    est_r = fns["create"](mv, layout=layout, **kw)
    prec_r = fns["prec"](curv_estimate=est_r, prior_arguments=prior,
                         loss_scaling_factor=1.0)
    state_r = fns["post"](prec_r)
    v = jnp.asarray(vec_for(C.pr.P, op["seed"]))
    close(C, f"{name}: curvature", est, est_r)
    close(C, f"{name}: posterior state", p.state, state_r)
    for s in ("scale", "cov"):
        f = p.scale_mv(p.state) if s == "scale" else p.cov_mv(p.state)
        got = f(C.pr.tree(np.asarray(v))) if op["layout"] else f(v)
        got = C.pr.flat(got) if op["layout"] else np.asarray(got)
        check_close(f"{name}: {s}", got, np.asarray(fns[s](state_r)(v)), C.tol,
                    "wrong-method")
    if op["late"]:
        from laplax.curv.utils import concatenate_model_and_loss_fn

        got = marginal_log_likelihood(est, prior, C.data, C.pr.model_fn, C.params,
                                      C.pr.loss_fn(), name, vmap_over_data=True)
        full = concatenate_model_and_loss_fn(C.pr.model_fn, C.pr.loss_fn(),
                                             vmap_over_data=True)
        ref = fns["mll"](fns["prec"](est_r, prior, loss_scaling_factor=1.0), prior, full,
                         C.params, C.data)
        check_close(f"{name}: marginal likelihood", got, ref, C.tol, "wrong-method")
    if C.model.fam[name] == "full" and name in BUILTIN:
        G = C.pr.ggn() / C.pr.factor
        check_close("full: curvature vs reference", est, G, max(C.tol, 1e-7),
                    "builtin-changed")
    C.sim.probe("used-builtin" if name in BUILTIN else "used-custom")
    C.sim.log("use", name, op["layout"])


def run_laplace(C, name, kw):
    import laplax

    return laplax.laplace(C.pr.model_fn, C.params, C.data, loss_fn=C.pr.loss_fn(),
                          curv_type=name, vmap_over_data=True, **kw)


def close(C, what, got, ref):
    g, r = jax.tree.leaves(got), jax.tree.leaves(ref)
    if len(g) != len(r):
        raise Violation("wrong-method", f"{what}: {len(g)} leaves instead of {len(r)}")
    for a, b in zip(g, r):
        check_close(what, a, b, C.tol, "wrong-method")


def do_calmethod(C: Caller, op):
    from laplax.register import register_calibration_method

    val, sim = op["value"], C.sim

    def method(objective, data, **kw):
        sim.point("calibration-method")
        o = objective({"prior_prec": val}, data)
        return {"prior_prec": val, "objective": float(o), "kw": sorted(kw)}

    register_calibration_method(op["name"], method)
    C.model.opt[op["name"]] = val
    C.sim.log("calmethod", op["name"], val)


def do_calibrate(C: Caller, op):
    import laplax
    from laplax.curv.utils import concatenate_model_and_loss_fn

    curv = op.get("curv", "diagonal")
    if curv not in C.model.m:
        curv = "diagonal"
    kw = {"b": C.b, "rank": 1} if C.model.fam[curv] in ("lanczos", "lobpcg") else {}
    pf, est = run_laplace(C, curv, kw)

    def run():
        return laplax.calibration(
            pf, C.pr.model_fn, C.params, C.data, loss_fn=C.pr.loss_fn(),
            curv_estimate=est, curv_type=curv, calibration_objective=(
                "marginal_log_likelihood"), calibration_method=op["name"],
            vmap_over_data=True, objective_jit=bool(op["seed"] & 1),
            **({"grid_size": 3} if op["name"] == "grid_search" else {"extra": 1}))[0]

    if op["name"] != "grid_search" and op["name"] not in C.model.opt:
        try:
            run()
        except (ValueError, KeyError):
            C.sim.probe("unknown-refused")
            return
        raise Violation("unregistered-accepted", f"calibration method {op['name']}")
    got = run()
    fns = C.model.m[curv]
    full = concatenate_model_and_loss_fn(C.pr.model_fn, C.pr.loss_fn(),
                                         vmap_over_data=True)
    est_r = fns["create"](C.mv, layout=C.params, **kw)

    def score(p):
        prior = {"prior_prec": p}
        return -float(fns["mll"](
            fns["prec"](est_r, prior, loss_scaling_factor=1.0), prior, full, C.params,
            C.data))

    if op["name"] == "grid_search":
        grid = np.logspace(-3, 3, 3)
        near = np.abs(np.asarray(got["prior_prec"]) / grid - 1) < 1e-3
        if not np.any(near):
            raise Violation("builtin-changed", f"grid_search returned {got}")
        vals = [score(jnp.asarray(g)) for g in grid]
        chosen = vals[int(np.argmax(near))]
        if np.all(np.isfinite(vals)) and \
                chosen - min(vals) > 10 * C.tol * max(1.0, *np.abs(vals)):
            raise Violation("wrong-method",
                            f"calibrating {curv}: {got} scores {chosen}, {vals}")
    else:
        if got.get("prior_prec") != C.model.opt[op["name"]] or got.get("kw") != ["extra"]:
            raise Violation("wrong-method", f"calibration by {op['name']}: {got}")
        check_close(f"objective of {curv}", got["objective"],
                    score(got["prior_prec"]), C.tol, "wrong-method")
        C.sim.probe("custom-calibration")
    C.sim.probe("calibrated-builtin" if curv in BUILTIN else "calibrated-custom")
    C.sim.log("calibrate", op["name"], curv)


DO = {"register": do_register, "use": do_use, "calmethod": do_calmethod,
      "calibrate": do_calibrate}


def execute(sim: Sim, plan):
    tables = snapshot_tables()
    before = [dict(t) for t in _tables()]
    try:
        return _execute(sim, plan, before)
    finally:
        restore_tables(tables)


def _execute(sim, plan, tables):
    x64 = plan["x64"]
    with global_x64(x64), stderr_as(NullStream()):
        pr = problem(plan["problem"])
        callers = [Caller(sim, plan, pr, x64) for _ in plan["tasks"]]
        for C, ops in zip(callers, plan["tasks"]):
            C.ops = ops

        def task(t):
            for op in plan["tasks"][t]:
                sim.log("begin", op["op"])
                DO[op["op"]](callers[t], op)

        if len(plan["tasks"]) == 1:
            task(0)
        else:
            sch = Scheduler(sim, plan["schedule"], line_level=True,
                            pkg=f"{REPO}/laplax/")
            for t in range(len(plan["tasks"])):
                sch.add(lambda t=t: task(t))
            sim.sched = sch
            sch.run()
            for t in sch.tasks:
                if t.exc is not None:
                    raise t.exc
        # The tables hold exactly what was there plus what was registered.
        want = set()
        for C in callers:
            want |= {n for n in C.model.m if n not in BUILTIN}
        opts = {n for C in callers for n in C.model.opt}
        for i, (t, s) in enumerate(zip(_tables(), tables)):
            exp = set(map(str, s)) | (opts if i == 6 else want)
            if set(map(str, t)) != exp:
                raise Violation("table-content", f"table {i}: {sorted(map(str, t))} "
                                                 f"instead of {sorted(exp)}")
            for k, v in s.items():
                if t[k] is not v:
                    raise Violation("builtin-changed", f"table {i}, {k}")
        n_fail = sum(C.failed for C in callers)
    return {
        "nontrivial": bool(want) and (n_fail > 0 or len(plan["tasks"]) > 1
                                      or len(want) > 1),
        "state": [sorted(want), n_fail, len(callers)],
    }


def shrink(plan):
    ts = plan["tasks"]
    if len(ts) > 1:
        for k in range(len(ts)):
            yield {**plan, "tasks": ts[:k] + ts[k + 1:]}
    for k, t in enumerate(ts):
        for j in range(len(t)):
            if len(t) > 1:
                yield {**plan, "tasks": [*ts[:k], t[:j] + t[j + 1:], *ts[k + 1:]]}
