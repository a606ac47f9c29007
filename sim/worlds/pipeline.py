"""The whole laplax workflow as a set of operations on shared artefacts.

Used by the worlds that compare one way of running the same work with another:
concurrently or alone, fresh or after a history, before and after a crash, with
one set of execution knobs or another.
"""

from .common import *  # noqa: F403
from .common import (
    FaultBook, jax, jnp, krylov, lanczos_rank, lr_dense, make_loader, np, problem,
    setup_pushforward, vec_for,
)

CLASSIFY = ("mc_bridge", "laplace_bridge", "mean_field_0", "mean_field_1",
            "mean_field_2")


def gen_arts(rng, pr, loader, **extra):
    pf = rng.choice(["linear", "linear", "nonlinear"])
    pt = "none"
    if pr["model"] != "vec" and rng.random() < 0.4:
        pt = rng.choice(CLASSIFY if pf == "linear" else ("mc_bridge",))
    d = {
        "problem": pr, "loader": loader, "curv": rng.choice(
            ["full", "diagonal", "full", "lanczos"]),
        "pf": pf, "pt": pt, "key": rng.randrange(1000), "ns": rng.choice([3, 5]),
        "prior": rng.choice([0.5, 1.0, 2.0]), "pred_jit": rng.random() < 0.6,
        "bseed": rng.getrandbits(31), "rank": rng.randint(1, 3),
    }
    d.update(extra)
    return d


class Arts:
    """Artefacts of one simulated process (or caller)."""

    def __init__(self, sim, a, x64, knobs=None, pf_ce=None, loader=None):
        import laplax
        from laplax.api import GGN
        from functools import partial

        self.sim, self.a, self.x64 = sim, a, x64
        self.k = knobs or {}
        pr = self.pr = problem(a["problem"])
        self.rng_y = np.random.default_rng(a["problem"]["seed"])
        self.Yc = self.rng_y.integers(0, pr.out, pr.n).astype(np.int32)
        self.classify = a["pt"] != "none"
        self.spec = {**a["loader"], "x64": x64}
        self.params = pr.params
        self.loader = loader if loader is not None else make_loader(
            sim, pr.X, pr.Y, self.spec)
        self.X = jnp.asarray(pr.X, dtype=float)
        self.Y = jnp.asarray(self.Yc if self.classify else pr.Y)
        self.G = pr.ggn() / pr.factor
        self.b = vec_for(pr.P, a["bseed"])
        self.rank, _ = lanczos_rank(self.G, self.b, a["rank"], 1e-3 if x64 else 5e-2)
        self.mv = GGN(pr.model_fn, self.params, self.loader, pr.loss_fn(),
                      vmap_over_data=a["problem"]["vmap"], verbose_logging=False)
        if pf_ce is None:
            kw = {"rank": self.rank, "b": jnp.asarray(self.b)} \
                if a["curv"] == "lanczos" else {}
            pf_ce = laplax.laplace(
                pr.model_fn, self.params, self.loader, loss_fn=pr.loss_fn(),
                curv_type=a["curv"], vmap_over_data=a["problem"]["vmap"], **kw)
        self.posterior_fn, self.curv = pf_ce
        self.set_push, fns = setup_pushforward(a["pf"], a["pt"])
        self.prior = {"prior_prec": a["prior"]}
        self.set_pred = partial(
            self.set_push, model_fn=pr.model_fn, mean_params=self.params,
            posterior_fn=self.posterior_fn, pushforward_fns=fns,
            key=jax.random.key(a["key"]), num_samples=a["ns"])
        self.pred = self.set_pred(prior_arguments=self.prior)
        if a["pred_jit"]:
            self.pred = jax.jit(self.pred)
        self.post = self.posterior_fn(self.prior, 1.0)
        from laplax.util.flatten import create_pytree_flattener, wrap_function

        self.flatten, self.unflatten = create_pytree_flattener(self.params)
        self.flat_mv = wrap_function(self.mv, input_fn=self.unflatten,
                                     output_fn=self.flatten)

    def own_loader(self, op, book=None, classify=None):
        spec = {**op["loader"], "x64": self.x64}
        c = self.classify if classify is None else classify
        return make_loader(self.sim, self.pr.X, self.Yc if c else self.pr.Y, spec,
                           book or FaultBook(self.sim, None))


def tree_np(t):
    return {str(i): np.asarray(l, dtype=np.float64)
            for i, l in enumerate(jax.tree.leaves(t))}


def dict_np(d):
    return {k: np.asarray(v, dtype=np.float64) for k, v in d.items()}


def op_mv(A, op, book):
    return {"v": A.pr.flat(A.mv(A.pr.tree(vec_for(A.pr.P, op["seed"]))))}


def op_flatmv(A, op, book):
    return {"v": np.asarray(A.flat_mv(jnp.asarray(vec_for(A.pr.P, op["seed"]))))}


def op_wrap(A, op, book):
    """A caller wraps the shared operator again for its own scaling."""
    from laplax.util.flatten import wrap_function

    c = 1.0 + op["seed"] % 7
    m = wrap_function(A.flat_mv, input_fn=lambda x: c * x, output_fn=lambda y: y / c)
    return {"v": np.asarray(m(jnp.asarray(vec_for(A.pr.P, op["seed"]))))}


def op_dense(A, op, book):
    from laplax.util.mv import to_dense

    return {"M": np.asarray(to_dense(A.flat_mv, layout=A.pr.P))}


def op_diag(A, op, book):
    from laplax.util.mv import diagonal

    return {"d": np.asarray(diagonal(A.mv, layout=A.params))}


def op_full(A, op, book):
    from laplax.curv.cov import estimate_curvature

    return {"M": np.asarray(estimate_curvature("full", A.mv, layout=A.params))}


def op_diagonal(A, op, book):
    from laplax.curv.cov import estimate_curvature

    return {"d": np.asarray(estimate_curvature("diagonal", A.mv, layout=A.params))}


def op_lanczos(A, op, book):
    from laplax.curv.cov import estimate_curvature

    t = estimate_curvature("lanczos", A.mv, layout=A.params, b=jnp.asarray(A.b),
                           rank=A.rank, mv_jit=bool(op["seed"] & 1))
    return {"lanczos": lr_dense(t)}


def op_post(A, op, book):
    p = A.posterior_fn({"prior_prec": 0.5 + op["seed"] % 5}, 1.0)
    v = A.pr.tree(vec_for(A.pr.P, op["seed"]))
    s = p.scale_mv(p.state)
    n = A.pr.P if A.a["curv"] != "lanczos" else A.pr.P
    S = np.asarray(jax.vmap(lambda e: A.flatten(s(e)))(jnp.eye(n)))
    return {"cov": A.pr.flat(p.cov_mv(p.state)(v)), "scale": S.T @ S}


def op_postshared(A, op, book):
    p = A.post
    v = A.pr.tree(vec_for(A.pr.P, op["seed"]))
    return {"cov": A.pr.flat(p.cov_mv(p.state)(v))}


def op_pred(A, op, book):
    return dict_np(A.pred(A.X[op["seed"] % A.pr.n]))


def op_ownpred(A, op, book):
    p = A.set_pred(prior_arguments={"prior_prec": 0.5 + op["seed"] % 5})
    return dict_np(p(A.X[op["seed"] % A.pr.n]))


def op_sample(A, op, book):
    from laplax.eval.pushforward import set_get_weight_sample

    get = set_get_weight_sample(
        jax.random.key(op["seed"] % 100), A.params, A.post.scale_mv(A.post.state),
        num_samples=4, precompute=bool(op["seed"] & 1))
    return {f"s{i}": A.pr.flat(get(i)) for i in (2, 0, 3)}


def op_eval(A, op, book):
    import laplax
    from laplax.eval.utils import transfer_entry

    m = [transfer_entry(["map", "pred_mean", "pred_std", "target"])]
    if op["seed"] & 1:
        m = "classification" if A.classify else "regression"
    data = A.own_loader(op, book)
    if op["seed"] & 2:
        data = (A.X, A.Y)
    res, _ = laplax.evaluation(
        A.posterior_fn, A.pr.model_fn, A.params, A.prior, data, metrics=m,
        predictive_type=A.a["pt"], pushforward_type=A.a["pf"],
        sample_key=jax.random.key(op["seed"] % 50), num_samples=A.a["ns"],
        predictive_jit=bool(op["seed"] & 4))
    if isinstance(data, tuple):
        return dict_np(res)
    order = [i for b in data._plan_pass(data.passes - 1) for i in b]  # noqa: SLF001
    return {k: np.asarray(v, dtype=np.float64)[np.argsort(order)] for k, v in res.items()}


def op_calib(A, op, book):
    import laplax

    # Classification predictives are calibrated on class labels.
    obj = op.get("objective") or ["nll", "marginal_log_likelihood", "chi_squared"][
        op["seed"] % 3]
    if obj == "chi_squared" and A.classify:
        obj = "nll"
    if obj == "marginal_log_likelihood" and A.a["problem"]["loss"] not in (
            "mse", "custom"):
        obj = "nll"  # the only losses whose summed form the package provides
    Y = A.Y
    if obj == "marginal_log_likelihood":
        Y = jnp.asarray(A.pr.Y)
    prior, sp = laplax.calibration(
        A.posterior_fn, A.pr.model_fn, A.params, (A.X, Y), loss_fn=A.pr.loss_fn(),
        curv_estimate=A.curv, curv_type=A.a["curv"], predictive_type=A.a["pt"],
        pushforward_type=A.a["pf"], sample_key=jax.random.key(op["seed"] % 50),
        num_samples=A.a["ns"], calibration_objective=obj,
        vmap_over_data=A.a["problem"]["vmap"],
        objective_jit=op.get("objective_jit", True), grid_size=4,
        log_prior_prec_min=-1.0, log_prior_prec_max=2.0)
    x = A.X[op["seed"] % A.pr.n]
    return {"prior": np.asarray(prior["prior_prec"], dtype=np.float64),
            **dict_np(sp(prior_arguments={"prior_prec": 1.0})(x))}


def op_register(A, op, book):
    from laplax.curv.cov import create_posterior_fn
    from laplax.register import register_curvature_method

    name = op.get("name", "sim-method")
    c = 1.0 + op["seed"] % 5

    def create(mv, layout, **kw):
        from laplax.util.mv import diagonal

        del kw
        return c * diagonal(mv, layout=layout)

    register_curvature_method(name, create_curvature_fn=create, default="diagonal")
    pf = create_posterior_fn(name, A.mv, layout=A.params)
    p = pf({"prior_prec": 1.0}, 1.0)
    v = vec_for(A.pr.P, op["seed"])
    return {"cov": A.pr.flat(p.cov_mv(p.state)(A.pr.tree(v)))}


def op_reduce(A, op, book):
    from laplax.util.loader import (
        execute_with_data_loader, reduce_add, reduce_online_mean,
        wrap_function_with_data_loader,
    )

    w = jnp.asarray(vec_for(A.pr.X[0].size, op["seed"]))
    mean = bool(op["seed"] & 1)

    def f(data):
        x = data["input"]
        x = x.reshape(x.shape[0], int(np.prod(x.shape[1:])))
        return {"a": x @ w if mean else jnp.sum(x @ w), "b": x if mean else x.sum(0)}

    ld = A.own_loader(op, book, classify=False) if op["seed"] & 4 else A.loader
    tr = (lambda b: b) if ld is not A.loader and "dict" in op["loader"]["batch"] or \
        ld is A.loader and "dict" in A.spec["batch"] else None
    kw = {"transform": tr} if tr else {}
    red = reduce_online_mean if mean else reduce_add
    if op["seed"] & 2:
        r = wrap_function_with_data_loader(f, ld, reduce=red, jit=bool(op["seed"] & 8),
                                           **kw)()
    else:
        r = execute_with_data_loader(f, ld, reduce=red, jit=bool(op["seed"] & 8), **kw)
    return dict_np(r)


OPS = {
    "mv": op_mv, "flatmv": op_flatmv, "wrap": op_wrap, "dense": op_dense,
    "diag": op_diag, "full": op_full, "diagonal": op_diagonal, "lanczos": op_lanczos,
    "post": op_post, "postshared": op_postshared, "pred": op_pred,
    "ownpred": op_ownpred, "sample": op_sample, "eval": op_eval, "calib": op_calib,
    "register": op_register, "reduce": op_reduce,
}
STREAM_OPS = ("eval", "reduce")  # ops with a loader of their own


def tol_for(key, A):
    if A.x64:
        return 1e-3 if key == "lanczos" or A.a["curv"] == "lanczos" else 1e-7
    if key == "lanczos" or A.a["curv"] == "lanczos":
        return 5e-2
    return 5e-3


def compare(what, got, ref, A, kind):
    if set(got) != set(ref):
        raise Violation(kind, f"{what}: keys {sorted(got)} instead of {sorted(ref)}")
    for k in ref:
        check_close(f"{what}[{k}]", got[k], ref[k], tol_for(k, A), kind)


from .common import Violation, check_close  # noqa: E402
