"""C10 - results do not depend on history, and a caller's objects stay its own."""

import copy
import os
import random as pyrandom
import types

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FAULT_TYPES, FaultBook, NullStream, Sim, Violation, alloc_faults,
    caused_by_sim, check_close, fresh_laplax, gen_problem, global_x64, jax, jnp,
    loader_spec, np, partition, stderr_as, vec_for, x64_enabled,
)
from .c06 import restore_tables, snapshot_tables
from .pipeline import OPS, STREAM_OPS, Arts, compare, dict_np, gen_arts, tol_for, tree_np

EXC = [k for k in FAULT_TYPES if k != "stopiter"]
PIPE = tuple(OPS)
DEFAULTS = (  # package constants every later call depends on
    ("laplax.api", "EMPTY_DICT"), ("laplax.api", "calibration_options"),
    ("laplax.api", "_SPECIAL_PREDICTIVES"),
    ("laplax.curv.cov", "CURVATURE_METHODS"),
    ("laplax.curv.cov", "CURVATURE_PRECISION_METHODS"),
    ("laplax.curv.cov", "CURVATURE_TO_POSTERIOR_STATE"),
    ("laplax.curv.cov", "CURVATURE_STATE_TO_SCALE"),
    ("laplax.curv.cov", "CURVATURE_STATE_TO_COV"),
    ("laplax.eval.likelihood", "CURVATURE_MARGINAL_LOG_LIKELIHOOD"),
    ("laplax.eval.pushforward", "DEFAULT_NONLIN_FINALIZE_FNS"),
    ("laplax.eval.pushforward", "DEFAULT_LIN_FINALIZE_FNS"),
    ("laplax.eval.metrics", "DEFAULT_REGRESSION_METRICS"),
    ("laplax.eval.metrics", "DEFAULT_REGRESSION_METRICS_DICT"),
    ("laplax.util.ops", "DEFAULT_PRECOMPUTE_LIST"),
)


# -- objects that belong to the caller ------------------------------------------------


class Owned:
    """Mutable objects a caller keeps and hands to several calls."""

    def __init__(self, A):
        from laplax.eval import pushforward as pf
        from laplax.eval.utils import transfer_entry

        pr = A.pr
        lin = A.a["pf"] == "linear"
        self.fns = [pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_var, pf.lin_pred_std] \
            if lin else [pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_var,
                         pf.nonlin_pred_std]
        self.metrics = [transfer_entry(["map", "pred_mean", "pred_std", "target"])]
        self.metrics_dict = {
            "gap": lambda map, target, **kw: jnp.sum(map * 1.0) + 0 * jnp.sum(target),
            "spread": lambda pred_std, **kw: jnp.sum(pred_std),
        }
        self.prior = {"prior_prec": 1.5}
        dt = np.float64 if A.x64 else np.float32
        self.data = {"input": np.array(pr.X, dtype=dt), "target": np.array(
            pr.Y, dtype=dt)}
        k = max(1, pr.n // 2)
        self.batches = Batches(
            [{"input": self.data["input"][i:i + k].copy(),
              "target": self.data["target"][i:i + k].copy(), "note": np.arange(k)[:len(self.data["input"][i:i + k])]}
             for i in range(0, pr.n, k)])
        self.params = jax.tree.map(lambda l: np.array(l), A.params)
        self.grid = np.logspace(-1.0, 1.0, 3)
        self.vec = jax.tree.map(lambda l: np.array(l), pr.tree(vec_for(pr.P, 7)))
        self.estimate = np.array(A.curv) if A.a["curv"] != "lanczos" else None
        self.curv_kw = {"rank": A.rank, "b": np.array(A.b, dtype=dt)}
        self.sample_kw = {"precompute": True, "precompute_list_batch_size": 2}
        self.names = ["map", "pred_mean"]
        self.aux = {"map": np.array(pr.Y, dtype=dt) + 1.0,
                    "target": np.array(pr.Y, dtype=dt)}


class Batches:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def snap(o, depth=0):
    if isinstance(o, dict):
        return ("dict", [(str(k), id(v), snap(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple, set)):
        it = sorted(o, key=repr) if isinstance(o, set) else o
        return (type(o).__name__, [(id(v), snap(v, depth + 1)) for v in it])
    if isinstance(o, np.ndarray):
        return ("np", o.dtype.str, o.shape, o.flags.writeable, o.tobytes())
    if isinstance(o, jax.Array):
        if jnp.issubdtype(o.dtype, jax.dtypes.prng_key):
            o = jax.random.key_data(o)
        return ("jax", o.is_deleted(), np.asarray(o).tobytes())
    if isinstance(o, Batches):
        return snap(o.items, depth)
    if isinstance(o, (int, float, str, bool, type(None))):
        return repr(o)
    return (type(o).__name__, id(o))


def snap_defaults(skip_tables):
    import importlib

    out = {}
    for mod, name in DEFAULTS:
        if skip_tables and (name.startswith("CURVATURE") or name.startswith("calib")):
            continue
        o = getattr(importlib.import_module(mod), name, None)
        if o is not None:
            out[f"{mod}.{name}"] = snap(o)
    return out


def snap_process():
    """Process-wide state that belongs to the application."""
    import warnings

    r = np.random.get_state()
    return {
        "x64": x64_enabled(),
        "matmul precision": jax.config.jax_default_matmul_precision,
        "disable_jit": jax.config.jax_disable_jit,
        "debug_nans": jax.config.jax_debug_nans,
        "numpy random state": (r[0], r[1].tobytes(), *r[2:]),
        "python random state": hash(pyrandom.getstate()),
        "numpy error state": tuple(sorted(np.geterr().items())),
        "environment": tuple(sorted(os.environ.items())),
        "directory": os.getcwd(),
        "warning filters": len(warnings.filters),
    }


def snap_owned(own):
    return {k: snap(v) for k, v in vars(own).items()}


def differences(a, b):
    return [k for k in a if a[k] != b.get(k)]


# -- operations on them ---------------------------------------------------------------


def x_eval(A, op, book, own):
    import laplax

    met = own.metrics if op["seed"] & 1 else [*own.metrics][0]
    if op["seed"] & 4:
        met = "regression"
    data = own.data if op["seed"] & 2 else own.batches
    tr = {"pushforward_fns": own.fns} if op["seed"] & 8 else {}
    r, _ = laplax.evaluation(
        A.posterior_fn, A.pr.model_fn, own.params, own.prior, data, metrics=met,
        pushforward_type=A.a["pf"], sample_key=jax.random.key(3),
        num_samples=A.a["ns"], predictive_jit=bool(op["seed"] & 16), **tr)
    if isinstance(data, dict):
        return r
    return {k: np.concatenate([np.asarray(v)]) for k, v in r.items()}


def x_metrics(A, op, book, own):
    from laplax.eval.utils import (
        evaluate_metrics_on_dataset, evaluate_metrics_on_generator, evaluate_on_dataset,
        transfer_entry,
    )

    pred = A.set_push(
        model_fn=A.pr.model_fn, mean_params=own.params, posterior_fn=A.posterior_fn,
        prior_arguments=own.prior, pushforward_fns=own.fns, key=jax.random.key(1),
        num_samples=A.a["ns"])
    m = {0: {"metrics": own.metrics}, 1: {"metrics_dict": own.metrics_dict},
         2: {"metrics": own.metrics, "metrics_dict": own.metrics_dict}}[op["seed"] % 3]
    if op["seed"] & 4:
        m["metrics"] = [*m.get("metrics", []), transfer_entry(own.names)]
    if op["seed"] & 8:
        r = evaluate_metrics_on_generator(
            pred, ({k: b[k] for k in ("input", "target")} for b in own.batches),
            reduce=jnp.concatenate, **m)
    else:
        r = evaluate_metrics_on_dataset(pred, own.data, **m)
    if op["seed"] & 16:
        r = {**r, **{f"on:{k}": v for k, v in evaluate_on_dataset(
            pred, own.data).items()}}
    return r


def x_apply(A, op, book, own):
    from laplax.eval.utils import apply_fns, finalize_fns

    def total(map, target, **kw):
        return jnp.sum(map) - jnp.sum(target) + 100.0 * len(kw)

    def every(**kw):  # sees what the call gave it and nothing else
        return jnp.asarray(float(len(kw)))

    def pair(a, b, **kw):
        return jnp.sum(a * 1.0) * 2 + jnp.sum(b) + 100.0 * len(kw)

    fns = [apply_fns(total, every, names=["t", "e"], field="results"),
           apply_fns(pair, names=["p"], a="map", b="target"),
           apply_fns(total, every)]
    if op["seed"] & 1:
        fns.append(apply_fns(pair, names=["q"], a="p", b="map"))
    if op["seed"] & 2:
        fns = fns[::-1] if not op["seed"] & 1 else [fns[1], fns[3], fns[0], fns[2]]
    one = finalize_fns(fns=fns, results={}, aux=own.aux)
    two = finalize_fns(fns=fns, results={}, aux=own.aux)
    return {**one, **{f"again:{k}": v for k, v in two.items()}}


def x_calib(A, op, book, own):
    import laplax

    prior, sp = laplax.calibration(
        A.posterior_fn, A.pr.model_fn, own.params, own.data, loss_fn=A.pr.loss_fn(),
        curv_estimate=A.curv, curv_type=A.a["curv"], pushforward_type=A.a["pf"],
        pushforward_fns=own.fns, sample_key=jax.random.key(2), num_samples=A.a["ns"],
        calibration_objective="nll", grid_size=3, log_prior_prec_min=-1.0,
        log_prior_prec_max=1.0, objective_jit=bool(op["seed"] & 1))
    r = sp(prior_arguments=own.prior)(own.data["input"][0])
    r["prior"] = prior.pop("prior_prec")
    return r


def x_push(A, op, book, own):
    p = A.set_push(
        model_fn=A.pr.model_fn, mean_params=own.params, posterior_fn=A.posterior_fn,
        prior_arguments=own.prior, key=jax.random.key(1), num_samples=A.a["ns"],
        **({"pushforward_fns": own.fns} if op["seed"] & 1 else {}))
    if op["seed"] & 2:
        p = jax.jit(p)
    r = p(own.data["input"][op["seed"] % A.pr.n])
    return {k: r[k] for k in r if not callable(r[k]) and k != "samples"}


def x_laplace(A, op, book, own):
    import laplax

    c = ["full", "diagonal", "lanczos"][op["seed"] % 3]
    kw = own.curv_kw if c == "lanczos" else {}
    data = own.data if op["seed"] & 4 else own.batches
    pf, est = laplax.laplace(
        A.pr.model_fn, own.params, data, loss_fn=A.pr.loss_fn(), curv_type=c,
        vmap_over_data=A.a["problem"]["vmap"], **kw)
    p = pf(own.prior, 1.0)
    return {"lanczos" if c == "lanczos" else "cov": A.pr.flat(p.cov_mv(p.state)(own.vec))}


def x_estimate(A, op, book, own):
    from laplax.curv.cov import estimate_curvature

    c = ["full", "diagonal", "lanczos", "lobpcg"][op["seed"] % 4]
    if c == "lobpcg" and A.pr.P < 6:
        c = "full"
    # without a key: the package's own starting block
    kw = {"lanczos": own.curv_kw, "lobpcg": {"rank": 1}}.get(c, {})
    e = estimate_curvature(c, A.mv, layout=own.params, **kw)
    if c in ("lanczos", "lobpcg"):
        from .common import lr_dense

        return {"lanczos": lr_dense(e)}
    return {"M": np.asarray(e)}


def x_posterior(A, op, book, own):
    from laplax.curv.cov import set_posterior_fn

    if own.estimate is None:
        est = A.curv
    else:
        est = own.estimate if op["seed"] & 1 else jnp.asarray(own.estimate)
    pf = set_posterior_fn(A.a["curv"], est, layout=own.params)
    p = pf(own.prior)
    q = pf({"prior_prec": 9.0}, 2.0)
    before = snap(dict(p.state) if isinstance(p.state, dict) else p.state)
    r = {"cov": A.pr.flat(p.cov_mv(p.state)(own.vec)),
         "scale": A.pr.flat(p.scale_mv(p.state)(jnp.arange(1.0, 1.0 + A.pr.P))),
         "other": A.pr.flat(q.cov_mv(q.state)(own.vec))}
    if before != snap(dict(p.state) if isinstance(p.state, dict) else p.state):
        raise Violation("mutated", "using a posterior changed its state")
    return r


def x_search(A, op, book, own):
    from laplax.eval.calibrate import grid_search

    return {"best": grid_search(
        own.grid, lambda prior_arguments: abs(
            float(prior_arguments.pop("prior_prec")) - 1.1), patience=2)}


def x_mv(A, op, book, own):
    from laplax.api import GGN
    from laplax.util.mv import diagonal

    data = own.data if op["seed"] & 1 else own.batches
    mv = GGN(A.pr.model_fn, own.params, data, A.pr.loss_fn(), verbose_logging=False,
             vmap_over_data=A.a["problem"]["vmap"])
    return {"v": A.pr.flat(mv(own.vec)), "d": np.asarray(diagonal(mv, layout=own.params))}


def x_sample(A, op, book, own):
    from laplax.eval.pushforward import set_get_weight_sample

    key = jax.random.key(op["seed"] % 9) if op["seed"] % 9 > 3 else None
    g = set_get_weight_sample(key, own.params,
                              A.post.scale_mv(A.post.state), 3, **own.sample_kw)
    return {f"s{i}": A.pr.flat(g(i)) for i in (2, 0)}


def x_kernel(A, op, book, own):
    from laplax.eval.pushforward import set_posterior_gp_kernel

    k, _ = set_posterior_gp_kernel(
        A.pr.model_fn, own.params, A.posterior_fn, own.prior,
        dense=True, output_layout=A.pr.out)
    X = own.data["input"]
    return {"k": np.asarray(k(X[0], X[-1]))}


def x_mll(A, op, book, own):
    if A.a["problem"]["loss"] not in ("mse", "custom"):
        return {}
    from laplax.eval.likelihood import marginal_log_likelihood

    est = A.curv
    return {"mll": marginal_log_likelihood(
        est, own.prior, own.data, A.pr.model_fn, own.params, A.pr.loss_fn(),
        A.a["curv"], vmap_over_data=A.a["problem"]["vmap"])}


def x_hessian(A, op, book, own):
    from laplax.curv.hessian import create_hessian_mv

    loss = A.pr.loss_fn()
    if not callable(loss):  # a Hessian is offered for few losses only
        loss = "mse"
    mv = create_hessian_mv(A.pr.model_fn, own.params, own.data, loss)
    return {"h": A.pr.flat(mv(own.vec))}


def x_reduce(A, op, book, own):
    from laplax.util.loader import (
        execute_with_data_loader, reduce_concat, reduce_online_mean, reduce_sum,
    )
    from laplax.util.utils import identity

    red = [reduce_concat, reduce_online_mean, reduce_sum][op["seed"] % 3]

    def f(data):
        return {"x": data["input"], "same": data["target"]}

    return execute_with_data_loader(f, own.batches, transform=identity, reduce=red,
                                    jit=False)


X_OPS = {f.__name__: f for f in (
    x_eval, x_metrics, x_apply, x_calib, x_push, x_laplace, x_estimate, x_posterior, x_search,
    x_mv, x_sample, x_kernel, x_mll, x_hessian, x_reduce)}
# These aggregate over whole streams in the caller's order, nothing random.


# -- plans ---------------------------------------------------------------------------


def gen_op(rng, n):
    name = rng.choice(list(X_OPS)) if rng.random() < 0.6 else rng.choice(PIPE)
    op = {"op": name, "seed": rng.getrandbits(31), "loader": loader_spec(rng, n),
          "fault": None, "name": f"sim-{rng.randrange(2)}"}
    if name == "eval":
        op["seed"] = (op["seed"] & ~2) | 4
    if name == "reduce":
        op["seed"] |= 4
    if rng.random() < 0.25:
        seam = "next" if name in STREAM_OPS else "alloc"
        op["fault"] = {"seam": seam, "at": rng.randint(1, 3) if seam == "next"
                       else rng.choice([1, 2, 3, 5, 9, 20]), "kind": rng.choice(EXC)}
    return op


def generate(rng, i, tier):
    pr = gen_problem(rng, many=0.06, big_n=40, n_lo=3, n_hi=6, models=("mlp", "lin", "list", "img"),
                     losses=("mse", "mse", "cross_entropy", "custom"),
                     vmap_choice=False)
    arts = gen_arts(rng, pr, loader_spec(rng, pr["n"]))
    # The decoy looks alike (same shapes) but is another problem.
    dec = copy.deepcopy(arts)
    u = rng.random()
    if u < 0.6:
        dec["problem"]["seed"] = rng.getrandbits(31)
    if u > 0.5:
        dec["problem"]["loss"] = rng.choice(["mse", "custom", "none"])
    dec["key"] = rng.randrange(1000)
    dec["prior"] = rng.choice([0.25, 4.0])
    dec["curv"] = rng.choice([arts["curv"], "full", "diagonal"])
    ops = [gen_op(rng, pr["n"]) for _ in range(rng.randint(3, 6))]
    return {
        "arts": arts, "decoy": dec, "x64": rng.random() < 0.4,
        "before": [rng.choice([gen_op(rng, pr["n"]), dict(rng.choice(ops))])
                   for _ in range(rng.randint(0, 3))],
        "ops": ops, "repeat": rng.randrange(len(ops)) if rng.random() < 0.6 else None,
    }


def fault_modules():
    import importlib

    return [importlib.import_module(m) for m in (
        "laplax.util.tree", "laplax.util.mv", "laplax.util.flatten", "laplax.util.loader",
        "laplax.curv.full", "laplax.curv.diagonal", "laplax.curv.low_rank",
        "laplax.curv.lanczos", "laplax.curv.ggn", "laplax.eval.pushforward",
        "laplax.eval.metrics", "laplax.eval.calibrate", "laplax.eval.likelihood")]


def run_op(A, own, op, sim, fault=True):
    """-> result dict of float64 arrays, or None if an injected fault hit."""
    f = op["fault"] if fault else None
    book = FaultBook(sim, [f] if f else None)
    try:
        with alloc_faults(fault_modules() if f and f["seam"] == "alloc" else [], book):
            if op["op"] in X_OPS:
                r = X_OPS[op["op"]](A, op, book, own)
            else:
                r = OPS[op["op"]](A, op, book)
    except Violation:
        raise
    except BaseException as e:
        if not book.fired or not (isinstance(e, ALL_SIM) or caused_by_sim(e)):
            raise
        sim.probe("fault-hit")
        return None
    if book.fired:
        return None  # e.g. a ValueError at one grid point
    out = {k: np.array(v, dtype=np.float64) for k, v in r.items()
           if not callable(v)}
    vandalise(r)
    return out


def vandalise(r):
    """The caller does with a result what it likes."""
    for v in list(r.values()):
        if isinstance(v, np.ndarray) and v.flags.writeable and v.flags.owndata:
            v[...] = -77
        elif isinstance(v, (dict, list)):
            v.clear()
    r.clear()


def execute(sim: Sim, plan):
    tables = snapshot_tables()
    try:
        return _execute(sim, plan)
    finally:
        restore_tables(tables)


def _execute(sim, plan):
    x64 = plan["x64"]
    got = {}
    with global_x64(x64), stderr_as(NullStream()):
        proc0 = snap_process()
        full0 = snap_defaults(False)
        D = Arts(sim, plan["decoy"], x64)
        dec_own = Owned(D)
        for op in plan["before"]:
            guarded(D, dec_own, op, sim, proc0)
        A = Arts(sim, plan["arts"], x64)
        own = Owned(A)
        held = {"predictive": A.pred(A.X[0]),
                "posterior": tree_np(A.post.cov_mv(A.post.state)(
                    A.pr.tree(vec_for(A.pr.P, 5))))}
        held = {k: {a: np.array(b, dtype=np.float64) for a, b in v.items()}
                for k, v in held.items()}
        for j, op in enumerate(plan["ops"]):
            sim.log("op", op["op"])
            r = guarded(A, own, op, sim, proc0)
            if r is None and op["fault"]:
                sim.probe("retry")
                r = guarded(A, own, {**op, "fault": None}, sim, proc0)
            got[j] = r
        if plan["repeat"] is not None:
            op = plan["ops"][plan["repeat"]]
            if op["op"] not in STREAM_OPS:
                r = guarded(A, own, {**op, "fault": None}, sim, proc0)
                same(f"repeated {op['op']}", r, got[plan["repeat"]], A,
                     1e-9 if x64 else 1e-5)
                sim.probe("repeat")
        now = {"predictive": dict_np(A.pred(A.X[0])),
               "posterior": tree_np(A.post.cov_mv(A.post.state)(
                   A.pr.tree(vec_for(A.pr.P, 5))))}
        for k, v in held.items():
            same(f"{k} made before the history", now[k], v, A, 1e-9 if x64 else 1e-5)
        registered = any(o["op"] == "register" for o in plan["before"] + plan["ops"])
        if not registered:
            d = differences(full0, snap_defaults(False))
            if d:
                raise Violation("default-changed", f"{d} after {names(plan)}")
        # The same operations in another order in a process without a history.
        with fresh_laplax():
            solo = Sim(plan)
            B = Arts(solo, plan["arts"], x64)
            own_b = Owned(B)
            for j in reversed(range(len(plan["ops"]))):
                op = plan["ops"][j]
                ref = run_op(B, own_b, op, solo, fault=False)
                if got[j] is None or ref is None:
                    continue
                compare(f"{op['op']} after {names(plan)}", got[j], ref, B,
                        "history-dependent")
                sim.probe(f"op:{op['op']}")
    return {
        "nontrivial": len(plan["before"]) > 0 or len({o["op"] for o in plan["ops"]}) > 2,
        "state": [sorted(o["op"] for o in plan["before"]),
                  [(o["op"], o["seed"] % 16) for o in plan["ops"]]],
    }


def names(plan):
    return "+".join(o["op"] for o in plan["before"] + plan["ops"])


def same(what, got, ref, A, rtol):
    if got is None or ref is None:
        return
    if set(got) != set(ref):
        raise Violation("history-dependent",
                        f"{what}: keys {sorted(got)} instead of {sorted(ref)}")
    for k in ref:
        t = max(rtol, tol_for(k, A)) if A.a["curv"] == "lanczos" or k == "lanczos" \
            else rtol
        check_close(f"{what}[{k}]", got[k], ref[k], t, "history-dependent")


def guarded(A, own, op, sim, proc0):
    before = snap_owned(own)
    defs = snap_defaults(op["op"] == "register")
    r = run_op(A, own, op, sim)
    d = differences(before, snap_owned(own))
    if d:
        raise Violation("mutated", f"{op['op']} (fault {op['fault']}) changed the "
                        f"caller's {d}")
    d = differences(defs, snap_defaults(op["op"] == "register"))
    if d:
        raise Violation("default-changed", f"{op['op']} (fault {op['fault']}) changed {d}")
    d = differences(proc0, snap_process())
    if d:
        raise Violation("process-state", f"{op['op']} (fault {op['fault']}) changed {d}")
    return r


def shrink(plan):
    if plan["before"]:
        yield {**plan, "before": []}
        for j in range(len(plan["before"])):
            yield {**plan, "before": plan["before"][:j] + plan["before"][j + 1:]}
    for j in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            yield {**plan, "repeat": None,
                   "ops": plan["ops"][:j] + plan["ops"][j + 1:]}
        if plan["ops"][j]["fault"]:
            o = {**plan["ops"][j], "fault": None}
            yield {**plan, "ops": [*plan["ops"][:j], o, *plan["ops"][j + 1:]]}
    if plan["repeat"] is not None:
        yield {**plan, "repeat": None}
