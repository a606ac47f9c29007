"""C11 - work resumes after a crash from its saved artefacts alone."""

import io
import json
import pickle

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FaultBook, NullStream, Sim, Violation, alloc_faults, caused_by_sim,
    check_close, fresh_laplax, gen_problem, global_x64, jax, jnp, lanczos_rank,
    loader_spec, make_loader, np, problem, stderr_as, vec_for,
)
from .c06 import restore_tables, snapshot_tables
from .c10 import fault_modules
from .pipeline import CLASSIFY

DEATHS = ("crash", "crash", "oom", "interrupt", "io", "runtime")
STAGES = ("estimate", "posterior", "calibrate", "samples", "predict", "evaluate",
          "reduce")


def generate(rng, i, tier):
    pr = gen_problem(rng, many=0.06, big_n=40, n_lo=4, n_hi=7, models=("mlp", "lin", "list", "img"),
                     losses=("mse", "mse", "cross_entropy", "custom"),
                     vmap_choice=False)
    pf = rng.choice(["linear", "linear", "nonlinear"])
    curv = rng.choice(["full", "diagonal", "lanczos", "lobpcg", "registered"])
    if curv == "lobpcg" and (pr["model"] == "img" or rng.random() < 0.4):
        curv = "full"
    pt = "none"
    if pr["model"] != "img" and rng.random() < 0.35:
        pt = rng.choice(CLASSIFY if pf == "linear" else ("mc_bridge",))
    x64 = rng.random() < 0.5
    deaths = [{"seam": s, "at": {"stage": rng.randint(1, 10), "next": rng.randint(1, 12),
                                 "alloc": rng.choice([1, 2, 4, 8, 16, 30, 60])}[s],
               "kind": rng.choice(DEATHS)}
              for s in [rng.choice(["stage", "stage", "next", "alloc"])
                        for _ in range(rng.choice([1, 1, 2, 3]))]]
    return {
        "problem": pr, "loader": loader_spec(rng, pr["n"]), "curv": curv, "pf": pf,
        "pt": pt, "x64": x64, "deaths": deaths,
        "format": rng.choice(["pickle", "numpy", "leaves"]),
        "key": rng.randrange(1000),
        "order": [rng.random() < 0.4 for _ in range(len(deaths) + 1)],
        "host": rng.random() < 0.5,  # loaded arrays are used as they are
        "ns": rng.choice([3, 4]), "prior": rng.choice([0.5, 1.0, 2.0]),
        "rank": rng.randint(1, 3), "bseed": rng.getrandbits(31),
        "objective": rng.choice(["nll", "marginal_log_likelihood"]),
        "stages": [s for s in STAGES if s in ("estimate", "posterior", "predict")
                   or rng.random() < 0.6],
        "rebuild": rng.choice(["set_posterior_fn", "state"]),
    }


# -- durable storage: bytes only ------------------------------------------------------


class Store:
    """What survives a crash; a write is atomic, everything else is lost."""

    def __init__(self, fmt, host=False):
        self.fmt, self.host, self.d = fmt, host, {}

    def __contains__(self, k):
        return k in self.d

    def put(self, key, tree):
        if self.fmt == "pickle":  # the artefact as the package returned it
            self.d[key] = pickle.dumps(tree)
        elif self.fmt == "numpy":
            self.d[key] = pickle.dumps(jax.device_get(tree))
        else:  # leaves alone, the structure is known to the program
            b = io.BytesIO()
            np.savez(b, *[np.asarray(l) for l in jax.tree.leaves(tree)])
            self.d[key] = b.getvalue()

    def load(self, a):
        return a if self.host else jnp.asarray(a)

    def get(self, key, like=None):
        if self.fmt != "leaves":
            t = pickle.loads(self.d[key])
            return t if self.host else jax.tree.map(jnp.asarray, t)
        z = np.load(io.BytesIO(self.d[key]))
        leaves = [self.load(z[f"arr_{j}"]) for j in range(len(z.files))]
        return jax.tree.unflatten(like, leaves)


def structure(curv, state=False):
    if curv in ("lanczos", "lobpcg"):
        from laplax.curv.utils import LowRankTerms

        t = LowRankTerms(U=0, S=0, scalar=0)
    else:
        t = 0
    return jax.tree.structure({"scale": t} if state else t)


def register():
    from laplax.register import register_curvature_method
    from laplax.util.mv import diagonal

    def create(mv, layout, **kw):
        del kw
        return 2.0 * diagonal(mv, layout=layout) + 0.25

    register_curvature_method("resumed", create_curvature_fn=create, default="diagonal")


def f32(x):
    """The shortest text of a number the program writes to its configuration."""
    return float(json.loads(json.dumps(float(x))))


def reordered(t):
    """The same tree, its dictionaries filled in the opposite order."""
    if isinstance(t, dict):
        return {k: reordered(t[k]) for k in reversed(list(t))}
    if isinstance(t, (list, tuple)):
        return type(t)(map(reordered, t))
    return t


def life(sim, plan, store, book, rank, flip=False):
    """One process: does whatever the store says is missing."""
    import laplax
    from laplax.api import GGN
    from laplax.curv.cov import Posterior, estimate_curvature, set_posterior_fn
    from laplax.eval.pushforward import set_get_weight_sample
    from laplax.eval.utils import evaluate_metrics_on_dataset, transfer_entry
    from laplax.util import loader as L

    pr = problem(plan["problem"])
    # A new process may build its dictionaries in another order.
    rebuilt = reordered if flip else (lambda t: t)
    params = rebuilt(pr.params)
    cls = plan["pt"] != "none"
    labels = np.random.default_rng(plan["problem"]["seed"]).integers(0, pr.out, pr.n)
    X = jnp.asarray(pr.X, dtype=float)
    Y = jnp.asarray(labels) if cls else jnp.asarray(pr.Y, dtype=float)
    curv = plan["curv"]
    name = curv if curv != "registered" else "resumed"
    if curv == "registered":
        register()
    spec = {**plan["loader"], "x64": plan["x64"]}

    def stage(s):
        sim.log("stage", s)
        book.hit("stage")

    # estimate ------------------------------------------------------------------
    if "estimate" not in store:
        stage("estimate")
        mv = GGN(pr.model_fn, params, make_loader(sim, pr.X, pr.Y, spec, book),
                 pr.loss_fn(), verbose_logging=False)
        kw = {}
        if curv == "lanczos":
            kw = {"rank": rank, "b": jnp.asarray(vec_for(pr.P, plan["bseed"]))}
        if curv == "lobpcg":
            kw = {"rank": 1}
            if plan["key"] % 3 == 0:  # else the package's own starting block
                kw["key"] = jax.random.key(plan["key"])
        est = estimate_curvature(name, mv, layout=params, **kw)
        stage("estimated")
        store.put("estimate", est)
        sim.probe("wrote:estimate")
    est = store.get("estimate", structure(curv))
    posterior_fn = set_posterior_fn(name, est, layout=params)
    # posterior -----------------------------------------------------------------
    if "state" not in store:
        stage("posterior")
        store.put("state", posterior_fn({"prior_prec": plan["prior"]}, 1.0).state)
        sim.probe("wrote:state")
    state = store.get("state", structure(curv, state=True))
    post = posterior_fn({"prior_prec": plan["prior"]}, 1.0)
    if plan["rebuild"] == "state":  # the stored state instead of a recomputed one
        proto = posterior_fn({"prior_prec": 17.0}, 1.0)
        post = Posterior(state=state, cov_mv=proto.cov_mv, scale_mv=proto.scale_mv)
    # calibrate -----------------------------------------------------------------
    setp, fns = setup_pushforward(plan["pf"], plan["pt"])
    if "calibrate" in plan["stages"]:
        if "prior" not in store:
            stage("calibrate")
            obj = plan["objective"]
            if obj == "marginal_log_likelihood" and (
                    plan["problem"]["loss"] not in ("mse", "custom")
                    or curv == "registered"):
                obj = "nll"
            data = (X, jnp.asarray(pr.Y, dtype=float)) if obj != "nll" else (X, Y)
            if curv == "registered":
                prior = {"prior_prec": 1.25}
            else:
                prior, _ = laplax.calibration(
                    posterior_fn, pr.model_fn, params, data, loss_fn=pr.loss_fn(),
                    curv_estimate=est, curv_type=name, predictive_type=plan["pt"],
                    pushforward_type=plan["pf"], num_samples=plan["ns"],
                    sample_key=jax.random.key(plan["key"]), calibration_objective=obj,
                    grid_size=4, log_prior_prec_min=-1.0, log_prior_prec_max=2.0)
            stage("calibrated")
            store.d["prior"] = json.dumps(float(prior["prior_prec"])).encode()
            sim.probe("wrote:prior")
        prior = {"prior_prec": json.loads(store.d["prior"])}
    else:
        prior = {"prior_prec": plan["prior"]}
    # samples, one at a time ------------------------------------------------------
    key = jax.random.wrap_key_data(jax.random.key_data(jax.random.key(plan["key"])))
    if "samples" in plan["stages"]:
        get = set_get_weight_sample(key, params, post.scale_mv(post.state), plan["ns"])
        for j in range(plan["ns"]):
            if f"sample{j}" not in store:
                stage(f"sample{j}")
                store.d[f"sample{j}"] = pickle.dumps(pr.flat(get(j)))
    # predictions, one at a time ---------------------------------------------------
    kw = dict(model_fn=pr.model_fn, mean_params=params, prior_arguments=prior,
              pushforward_fns=fns, key=key, num_samples=plan["ns"])
    if plan["rebuild"] == "state" and "calibrate" not in plan["stages"]:
        pred = setp(posterior_fn=lambda pa, lsf=1.0: post, **kw)
    else:
        pred = setp(posterior_fn=posterior_fn, **kw)
    for j in range(min(3, pr.n)):
        if f"pred{j}" not in store:
            stage(f"predict{j}")
            r = pred(X[j])
            store.d[f"pred{j}"] = pickle.dumps(
                {k: np.asarray(v, dtype=np.float64) for k, v in r.items()
                 if k != "samples"})
    # evaluation, one part of the data at a time --------------------------------------
    if "evaluate" in plan["stages"]:
        cut = max(1, pr.n // 2)
        for j, (a, b) in enumerate(((0, cut), (cut, pr.n))):
            if f"eval{j}" not in store and b > a:
                stage(f"evaluate{j}")
                r = evaluate_metrics_on_dataset(
                    pred, {"input": X[a:b], "target": Y[a:b]},
                    metrics=[transfer_entry(["map", "pred_mean", "pred_std", "target"])])
                store.d[f"eval{j}"] = pickle.dumps(jax.device_get(r))
    # a reduction carried over from batch to batch --------------------------------------
    if "reduce" in plan["stages"]:
        for nm, red in (("mean", L.reduce_online_mean), ("add", L.reduce_add),
                        ("concat", L.reduce_concat), ("sum", L.reduce_sum)):
            o = 0
            for j, z in enumerate(plan["loader"]["sizes"]):
                part, o = rebuilt({"x": X[o:o + z], "m": X[o:o + z] ** 2}), o + z
                if nm == "add":
                    part = jax.tree.map(lambda t: t.sum(0), part)
                if f"red-{nm}{j}" in store:
                    continue
                prev = pickle.loads(store.d[f"red-{nm}{j - 1}"])[1] if j else None
                stage(f"reduce-{nm}{j}")
                out = red(part, prev)
                store.d[f"red-{nm}{j}"] = pickle.dumps(
                    jax.device_get(out) if plan["format"] != "pickle" else out)
    stage("done")


def results(store):
    out = {}
    for k, v in store.d.items():
        if k in ("estimate", "state"):
            continue
        if k == "prior":
            out[k] = np.asarray(json.loads(v))
            continue
        o = pickle.loads(v)
        if k.startswith("red-"):
            o = o[0]
        for q, l in enumerate(jax.tree.leaves(o)):
            out[f"{k}.{q}"] = np.asarray(l, dtype=np.float64)
    return out


def execute(sim: Sim, plan):
    tables = snapshot_tables()
    try:
        return _execute(sim, plan)
    finally:
        restore_tables(tables)


def _execute(sim, plan):
    pr = problem(plan["problem"])
    rank, _ = lanczos_rank(pr.ggn() / pr.factor, vec_for(pr.P, plan["bseed"]),
                           plan["rank"], 1e-3 if plan["x64"] else 5e-2)
    if plan["curv"] == "lobpcg":
        rank = 1
    lives, died = 0, 0
    store = Store(plan["format"], plan["host"])
    with stderr_as(NullStream()), global_x64(plan["x64"]):
        for death, flip in zip([*plan["deaths"], None],
                               plan.get("order", [False] * 9), strict=False):
            if flip:
                sim.probe("reordered")
            book = FaultBook(sim, [death] if death else None)
            lives += 1
            try:
                with fresh_laplax(), alloc_faults(
                        fault_modules() if death and death["seam"] == "alloc" else [],
                        book):
                    life(sim, plan, store, book, rank, flip)
                if book.fired:
                    raise Violation("fault-swallowed", f"{book.fired}")
                break
            except Violation:
                raise
            except BaseException as e:
                if not book.fired or not (isinstance(e, ALL_SIM) or caused_by_sim(e)):
                    raise
                died += 1
                sim.probe(f"died:{sorted(store.d)[-1] if store.d else 'first'}"[:14])
        got = results(store)
        # One process that was never interrupted.
        calm = Sim(plan)
        ref_store = Store("pickle")
        with fresh_laplax():
            life(calm, plan, ref_store, FaultBook(calm, None), rank)
        ref = results(ref_store)
    if set(got) != set(ref):
        raise Violation("lost-work", f"{sorted(set(got) ^ set(ref))}")
    low = plan["curv"] in ("lanczos", "lobpcg")
    rtol = (1e-3 if low else 1e-7) if plan["x64"] else (5e-2 if low else 2e-3)
    for k in sorted(ref):
        check_close(f"{k} after {died} crashes", got[k], ref[k],
                    1e-3 if k == "prior" else rtol, "resumed-differs")
    values = []
    if not low:
        for k in ("pred0.1", "sample0.0", "prior"):
            if k in got:
                values += [float(v) for v in np.ravel(got[k])[:3]]
    if plan["curv"] == "lobpcg":
        U, S, _ = jax.tree.leaves(store.get("estimate", structure("lobpcg")))
        # Its direction (and sign) comes from the starting block.
        values = [float(v) for v in np.ravel(U)[:24]]
    if not low:
        check_numbers(sim, plan, pr, got)
    sim.log("lives", lives, died)
    if died:
        sim.probe(f"crashes:{died}")
    return {
        "nontrivial": died > 0,
        "state": [plan["curv"], plan["pf"], plan["pt"], plan["format"], died,
                  sorted(d["seam"] for d in plan["deaths"])],
        "values": values, "prefer": plan["curv"] == "lobpcg" and bool(plan["key"] % 3),
    }


def check_numbers(sim, plan, pr, got):
    """Linear predictions of a resumed run against numpy, in float64."""
    if plan["pf"] != "linear" or plan["curv"] not in ("full", "diagonal") or \
            plan["pt"] != "none":
        return
    G = pr.ggn() / pr.factor
    prior = float(got["prior"]) if "prior" in got else plan["prior"]
    if plan["curv"] == "diagonal":
        G = np.diag(np.diag(G))
    cov = np.linalg.inv(G + prior * np.eye(pr.P))
    if np.linalg.cond(G + prior * np.eye(pr.P)) > (1e9 if plan["x64"] else 1e3):
        return
    for j in range(min(3, pr.n)):
        J = pr.jac(pr.X[j])
        std = np.sqrt(np.diag(J @ cov @ J.T))
        vals = [got[k] for k in sorted(got) if k.startswith(f"pred{j}.")]
        if not any(v.shape == std.shape and np.allclose(
                v, std, rtol=1e-5 if plan["x64"] else 2e-2, atol=1e-6) for v in vals):
            raise Violation("wrong-value", f"no entry of the prediction of input {j} is "
                            f"the standard deviation {std}: {vals}")
    sim.probe("checked-numbers")


def shrink(plan):
    for j in range(len(plan["deaths"])):
        if len(plan["deaths"]) > 1:
            yield {**plan, "deaths": plan["deaths"][:j] + plan["deaths"][j + 1:]}
    for s in plan["stages"]:
        if s not in ("estimate", "posterior", "predict"):
            yield {**plan, "stages": [t for t in plan["stages"] if t != s]}
    if plan["format"] != "pickle":
        yield {**plan, "format": "pickle"}
