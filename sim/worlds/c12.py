"""C12 - chunk sizes, precomputation and compilation are invisible in the results."""

from .common import *  # noqa: F403
from .common import (
    FAULT_TYPES, FaultBook, NullStream, Sim, Violation, check_close, contextlib,
    gen_problem, global_x64, jax, jnp, lanczos_rank, loader_spec, lr_dense, make_loader,
    np, problem, stderr_as, vec_for,
)
from ..core import caused_by_sim, make_fault

CHUNKS = (None, 1, 1, 2, 2, 3, 4, "n-1", "n", "n+3")
NOISE = ("to_dense_batch_size", "diagonal_batch_size", "precompute_list_batch_size",
         "data_batch_size", "evaluate_on_dataset_batch_size", "unrelated_option")


def chunk(rng):
    return rng.choice(CHUNKS)


def gen_step(rng, n, streamed):
    site = rng.choice([*SITES, "lanczos", "lanczos"])
    k = {}
    for name, what in SITES[site][1].items():
        if rng.random() < 0.65:
            k[name] = chunk(rng) if what == "chunk" else rng.random() < 0.5
    noise = rng.sample(NOISE, rng.choice([0, 0, 1, 2]))
    return {
        "site": site, "knobs": k, "seed": rng.getrandbits(16),
        "noise": {m: rng.choice([1, 2, 3]) for m in noise} if SITES[site][2] else {},
        "budget": rng.choice([None, None, 1, 1, 2]),
        "fault": {"seam": "next", "at": rng.randint(1, 4), "kind": rng.choice(
            [k for k in FAULT_TYPES if k != "stopiter"])}
        if rng.random() < 0.15 else None,
    }


def generate(rng, i, tier):
    pr = gen_problem(rng, big=0.04, big_n=24, n_lo=3, n_hi=7, models=("mlp", "lin", "list", "img"),
                     losses=("mse", "cross_entropy", "custom"), vmap_choice=False)
    return {
        "problem": pr, "x64": rng.random() < 0.5, "key": rng.randrange(1000),
        "ns": rng.choice([3, 5, 6]), "curv": rng.choice(["full", "diagonal", "lanczos"]),
        "prior": rng.choice([0.5, 1.0, 2.0]), "rank": rng.randint(1, 3),
        "bseed": rng.getrandbits(31),
        "loader": loader_spec(rng, pr["n"], batch=rng.choice(["tuple", "list", "dict"])),
        "steps": [gen_step(rng, pr["n"], True) for _ in range(rng.randint(3, 6))],
    }


# -- memory: how many items are in flight at once ---------------------------------------


class Memory:
    """Counts the items vectorised together; refuses more than a budget."""

    def __init__(self, sim, budget=None):
        self.sim, self.budget, self.peak = sim, budget, 1

    def probe(self):
        mem = self

        @jax.custom_batching.custom_vmap
        def p(x):
            return x

        @p.def_vmap
        def rule(axis_size, in_batched, x):
            mem.peak = max(mem.peak, axis_size)
            if mem.budget is not None and axis_size > mem.budget:
                mem.sim.fired("memory:oom")
                raise make_fault("oom", f"{axis_size} items at once")
            return p(x), in_batched[0]

        return p


# -- sites ------------------------------------------------------------------------------


class Ctx:
    def __init__(self, sim, plan):
        import laplax

        self.sim, self.plan = sim, plan
        pr = self.pr = problem(plan["problem"])
        self.params = pr.params
        self.X = jnp.asarray(pr.X, dtype=float)
        self.Y = jnp.asarray(pr.Y, dtype=float)
        self.data = {"input": self.X, "target": self.Y}
        self.G = pr.ggn() / pr.factor
        self.b = vec_for(pr.P, plan["bseed"])
        self.rank, _ = lanczos_rank(self.G, self.b, plan["rank"],
                                    1e-3 if plan["x64"] else 5e-2)
        kw = {"rank": self.rank, "b": jnp.asarray(self.b)} \
            if plan["curv"] == "lanczos" else {}
        self.posterior_fn, self.est = laplax.laplace(
            pr.model_fn, self.params, self.data, loss_fn=pr.loss_fn(),
            curv_type=plan["curv"], **kw)
        self.prior = {"prior_prec": plan["prior"]}

    def batch_mv(self, mem):
        """mv(vec, data) on trees with the memory probe inside."""
        from laplax.curv.ggn import create_ggn_mv_without_data

        mv = create_ggn_mv_without_data(
            model_fn=self.pr.model_fn, params=self.params, loss_fn=self.pr.loss_fn(),
            factor=1.0, vmap_over_data=True)
        p = mem.probe()
        return lambda vec, data: mv(jax.tree.map(p, vec), data)

    def operator(self, mem, step, book):
        """-> (operator, layout) in one of the forms callers use."""
        from laplax.util.flatten import create_pytree_flattener, wrap_function
        from laplax.util.loader import (
            DataLoaderMV, identity, input_target_split, reduce_add,
        )

        form = step["seed"] % 6
        mv = self.batch_mv(mem)
        if form < 3:
            op = DataLoaderMV(
                mv, make_loader(self.sim, self.pr.X, self.pr.Y,
                                {**self.plan["loader"], "x64": self.plan["x64"]}, book),
                transform=identity if self.plan["loader"]["batch"] == "dict"
                else input_target_split, reduce=reduce_add)
        else:
            op = lambda vec: mv(vec, self.data)  # noqa: E731
        if form % 3 == 0:
            return op, self.params
        f, u = create_pytree_flattener(self.params)
        op = wrap_function(op, input_fn=u, output_fn=f)
        return op, self.pr.P

    def predictive(self, mem, linear, fns, kw, over):
        """A pushforward whose `over` dimension goes through the memory probe."""
        from laplax.curv.cov import Posterior
        from laplax.eval.pushforward import set_lin_pushforward, set_nonlin_pushforward

        p = mem.probe()

        def posterior_fn(pa, lsf=1.0):
            post = self.posterior_fn(pa, lsf)
            if over != "weights":
                return post

            def scale_mv(state):
                mv = post.scale_mv(state)
                return lambda v: mv(p(v))

            return Posterior(state=post.state, cov_mv=post.cov_mv, scale_mv=scale_mv)

        def model_fn(input, params):  # noqa: A002
            return self.pr.model_fn(input=input, params=params)

        setp = set_lin_pushforward if linear else set_nonlin_pushforward
        return setp(model_fn=model_fn, mean_params=self.params,
                    posterior_fn=posterior_fn, prior_arguments=self.prior,
                    pushforward_fns=fns, key=jax.random.key(self.plan["key"]),
                    num_samples=self.plan["ns"], **kw)


def np_dict(r):
    return {k: np.asarray(v, dtype=np.float64) for k, v in r.items() if not callable(v)}


def s_dense(C, step, k, mem, book):
    from laplax.util.mv import to_dense

    op, layout = C.operator(mem, step, book)
    if not isinstance(layout, int):
        D = to_dense(op, layout, **k)
        return {f"{i}": np.asarray(l) for i, l in enumerate(jax.tree.leaves(D))}
    return {"M": np.asarray(to_dense(op, layout, **k))}


def s_diagonal(C, step, k, mem, book):
    from laplax.util.mv import diagonal

    op, layout = C.operator(mem, step, book)
    return {"d": np.asarray(diagonal(op, layout, **k))}


def s_estimate(C, step, k, mem, book):
    from laplax.curv.cov import estimate_curvature

    mem.limited = False
    op, layout = C.operator(mem, step, book)
    c = ["full", "diagonal"][step["seed"] // 8 % 2]
    return {"e": np.asarray(estimate_curvature(c, op, layout=layout, **k))}


def s_lanczos(C, step, k, mem, book):
    from laplax.curv.cov import estimate_curvature

    op, layout = C.operator(mem, step, book)
    rank, b = C.rank, C.b
    if C.plan["x64"] and step["seed"] // 8 % 4:
        # A starting vector from a few eigenvectors, and a rank beyond its Krylov space.
        w, V = np.linalg.eigh(C.G)
        gaps = [i for i in range(len(w)) if w[i] > 1e-2 * w[-1] and all(
            abs(w[i] - w[j]) > 1e-2 * w[-1] for j in range(len(w)) if j != i)]
        m = gaps[-(1 + step["seed"] // 32 % 3):]
        if m:
            b = V[:, m].sum(1)
            rank = min(len(w), len(m) + step["seed"] // 128 % 4)
            C.sim.probe("exhausted" if rank > len(m) else "whole-space")
    t = estimate_curvature("lanczos", op, layout=layout, rank=rank,
                           b=jnp.asarray(b), **k)
    return {"lanczos": lr_dense(t), "rank": np.asarray(t.U.shape)}


def s_laplace(C, step, k, mem, book):
    import laplax

    c = ["full", "diagonal", "lanczos"][step["seed"] % 3]
    kw = {"rank": C.rank, "b": jnp.asarray(C.b)} if c == "lanczos" else {}
    pf, est = laplax.laplace(C.pr.model_fn, C.params, C.data, loss_fn=C.pr.loss_fn(),
                             curv_type=c, **kw, **k)
    p = pf(C.prior, 1.0)
    v = C.pr.tree(vec_for(C.pr.P, step["seed"]))
    return {"lanczos" if c == "lanczos" else "cov": C.pr.flat(p.cov_mv(p.state)(v))}


def s_samples(C, step, k, mem, book):
    from laplax.eval.pushforward import set_get_weight_sample

    post = C.posterior_fn(C.prior, 1.0)
    p = mem.probe()
    mv = post.scale_mv(post.state)
    ns = C.plan["ns"]
    get = set_get_weight_sample(jax.random.key(step["seed"]), C.params,
                                lambda v: mv(p(v)), ns, **k)
    order = np.random.default_rng(step["seed"]).permutation(ns)
    return {f"s{i}": C.pr.flat(get(int(i))) for i in order}


def s_list(C, step, k, mem, book):
    from laplax.util.ops import precompute_list

    p = mem.probe()
    W = jnp.asarray(vec_for(6, step["seed"]))

    def fn(i):
        return {"a": jnp.sin(p(W[i]) * (i + 1.0)), "b": (W * i, i)}

    g = precompute_list(fn, jnp.arange(6), **k)
    out = {}
    for i in (3, 0, 5, 3):
        for q, l in enumerate(jax.tree.leaves(g(i))):
            out[f"{i}.{q}"] = np.asarray(l, dtype=np.float64)
    return out


def s_nonlin(C, step, k, mem, book):
    from laplax.eval import pushforward as pf

    fns = [pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_cov, pf.nonlin_pred_var,
           pf.nonlin_pred_std, pf.nonlin_samples]
    pred = C.predictive(mem, False, fns, k, "weights")
    return np_dict(pred(C.X[step["seed"] % C.pr.n]))


def s_lin(C, step, k, mem, book):
    from laplax.eval import pushforward as pf

    fns = [pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_var, pf.lin_pred_std,
           pf.lin_samples]
    if step["seed"] & 64:
        fns.insert(2, pf.lin_pred_cov)
    pred = C.predictive(mem, True, fns, k, "weights")
    if step["seed"] & 128:
        pred = jax.jit(pred)
    return np_dict(pred(C.X[step["seed"] % C.pr.n]))


def data_pred(C, mem, prior=1.0):
    p = mem.probe()
    w = jnp.asarray(vec_for(int(np.prod(C.pr.X.shape[1:])), 3))

    def pred(x):
        z = p(x).reshape(-1) @ w / prior
        return {"map": jnp.stack([z, z + 1]), "pred_mean": jnp.stack([z, z * z]),
                "pred_std": jnp.stack([1 + z * z, 2 + z * z])}

    return pred


def s_on_dataset(C, step, k, mem, book):
    from laplax.eval.utils import evaluate_on_dataset

    return np_dict(evaluate_on_dataset(data_pred(C, mem), C.data, **k))


def s_metrics(C, step, k, mem, book):
    from laplax.eval.utils import evaluate_metrics_on_dataset, transfer_entry

    m = {"metrics": [transfer_entry(["map", "pred_std", "target"])]}
    if step["seed"] & 1:
        m["metrics_dict"] = {
            "gap": lambda pred_mean, target, **kw: jnp.sum(pred_mean) - jnp.sum(target)}
    return np_dict(evaluate_metrics_on_dataset(data_pred(C, mem), C.data, **m, **k))


def s_score(C, step, k, mem, book):
    from laplax.eval.calibrate import evaluate_for_given_prior_arguments

    out = {}
    for pa in (1.0, 2.5):
        out[str(pa)] = np.asarray(evaluate_for_given_prior_arguments(
            data=C.data, set_prob_predictive=lambda prior_arguments, **kw: data_pred(
                C, mem, prior_arguments["prior_prec"]),
            metric=lambda pred_mean, pred_std, target, **kw: jnp.sum(
                pred_mean / pred_std) + jnp.sum(target ** 2),
            prior_arguments={"prior_prec": pa}, **k))
    return out


def s_evaluation(C, step, k, mem, book):
    import laplax

    data = C.data
    if step["seed"] & 1:
        data = make_loader(C.sim, C.pr.X, C.pr.Y, {
            **C.plan["loader"], "x64": C.plan["x64"], "reshuffle": False}, book)
    r, pred = laplax.evaluation(
        C.posterior_fn, C.pr.model_fn, C.params, C.prior, data, metrics="regression",
        pushforward_type=["linear", "nonlinear"][step["seed"] // 2 % 2],
        sample_key=jax.random.key(C.plan["key"]), num_samples=3, **k)
    return {**np_dict(r), **{f"p:{a}": b for a, b in np_dict(pred(C.X[0])).items()}}


def s_calibration(C, step, k, mem, book):
    import laplax

    obj = ["nll", "chi_squared"][step["seed"] % 2]
    prior, setp = laplax.calibration(
        C.posterior_fn, C.pr.model_fn, C.params, C.data, loss_fn=C.pr.loss_fn(),
        curv_estimate=C.est, curv_type=C.plan["curv"], calibration_objective=obj,
        sample_key=jax.random.key(C.plan["key"]), num_samples=3, grid_size=3,
        log_prior_prec_min=-1.0, log_prior_prec_max=1.0, **k)
    return {"prior": np.asarray(prior["prior_prec"], dtype=np.float64)}


def s_stream(C, step, k, mem, book):
    from laplax.util.loader import (
        execute_with_data_loader, identity, input_target_split, reduce_add,
        reduce_concat, reduce_online_mean, reduce_sum, wrap_function_with_data_loader,
    )

    red = [reduce_add, reduce_concat, reduce_online_mean, reduce_sum][step["seed"] % 4]
    ld = make_loader(C.sim, C.pr.X, C.pr.Y, {
        **C.plan["loader"], "x64": C.plan["x64"], "reshuffle": False}, book)
    tr = identity if C.plan["loader"]["batch"] == "dict" else input_target_split

    def f(data, scale=2.0):
        x = data["input"]
        x = x.reshape(x.shape[0], int(np.prod(x.shape[1:])))
        y = jnp.tanh(x) * scale
        if red is reduce_add:
            y = y.sum(0)
        return {"y": y, "t": data["target"].sum(0) if red is reduce_add
                else data["target"]}

    kw = {"scale": 0.5} if step["seed"] & 32 else {}
    if step["seed"] & 16:
        r = wrap_function_with_data_loader(f, ld, tr, red, **k)(**kw)
    else:
        r = execute_with_data_loader(f, ld, tr, red, **k, **kw)
    return np_dict(r)


# site -> function, knobs, accepts options meant for other sites, chunk that bounds memory
SITES = {
    "dense": (s_dense, {"to_dense_batch_size": "chunk"}, True, "P"),
    "diagonal": (s_diagonal, {"diagonal_batch_size": "chunk", "mv_jittable": "flag"},
                 True, "P"),
    "estimate": (s_estimate, {"to_dense_batch_size": "chunk",
                              "diagonal_batch_size": "chunk"}, True, None),
    "lanczos": (s_lanczos, {"mv_jit": "flag"}, False, None),
    "laplace": (s_laplace, {"curv_mv_jit": "flag"}, False, None),
    "samples": (s_samples, {"set_get_weight_sample_precompute": "flag",
                            "precompute": "flag",
                            "precompute_list_batch_size": "chunk"}, True, "ns"),
    "list": (s_list, {"precompute": "flag", "precompute_list_batch_size": "chunk"},
             True, "6"),
    "nonlin": (s_nonlin, {"nonlin_setup_batch_size": "chunk", "weight_batch_size": "chunk",
                          "set_get_weight_sample_precompute": "flag",
                          "precompute_list_batch_size": "chunk"}, True, "ns"),
    "lin": (s_lin, {"lin_samples_batch_size": "chunk", "weight_batch_size": "chunk",
                    "set_get_weight_sample_precompute": "flag", "mv_jittable": "flag",
                    "precompute_list_batch_size": "chunk"}, True, "ns"),
    "on_dataset": (s_on_dataset, {"evaluate_on_dataset_batch_size": "chunk",
                                  "data_batch_size": "chunk"}, True, "n"),
    "metrics": (s_metrics, {"evaluate_metrics_on_dataset_batch_size": "chunk",
                            "data_batch_size": "chunk"}, True, "n"),
    "score": (s_score, {"evaluate_for_given_prior_arguments_batch_size": "chunk",
                        "data_batch_size": "chunk"}, True, "n"),
    "evaluation": (s_evaluation, {"predictive_jit": "flag"}, False, None),
    "calibration": (s_calibration, {"objective_jit": "flag"}, False, None),
    "stream": (s_stream, {"jit": "flag"}, False, None),
}
# The chunk that decides at each site, most specific first, and when it does.
DECIDES = {
    "dense": ["to_dense_batch_size"], "diagonal": ["diagonal_batch_size"],
    "samples": ["precompute_list_batch_size"], "list": ["precompute_list_batch_size"],
    "on_dataset": ["evaluate_on_dataset_batch_size", "data_batch_size"],
    "metrics": ["evaluate_metrics_on_dataset_batch_size", "data_batch_size"],
    "score": ["evaluate_for_given_prior_arguments_batch_size", "data_batch_size"],
}


def size_of(C, site):
    s = SITES[site][3]
    return {"P": C.pr.P, "ns": C.plan["ns"], "n": C.pr.n, "6": 6}.get(s, 4)


def resolve(C, site, knobs):
    n = size_of(C, site)
    out = {}
    for k, v in knobs.items():
        if isinstance(v, str):
            v = max(1, n + {"n-1": -1, "n": 0, "n+3": 3}[v])
        if v is None and not SITES[site][1][k] == "chunk":
            continue
        out[k] = v
    return out


def limit(site, k):
    """Largest number of items the caller agreed to have in flight, or None."""
    if site in DECIDES:
        for name in DECIDES[site]:
            if k.get(name) is not None:
                return k[name]
            if name in k:  # an explicit None decides as well
                return None
        return None
    if site in ("lin", "nonlin"):
        pre = k.get("set_get_weight_sample_precompute", True)
        if pre or pre is None:
            return k.get("precompute_list_batch_size")
        name = "lin_samples_batch_size" if site == "lin" else "nonlin_setup_batch_size"
        return k[name] if name in k else k.get("weight_batch_size")
    return None


def perform(C, step, sim):
    site = step["site"]
    fn = SITES[site][0]
    base_step = {**step}
    mem0 = Memory(sim)
    ref = fn(C, base_step, {}, mem0, FaultBook(sim, None))
    k = {**{a: b for a, b in step["noise"].items() if a not in SITES[site][1]},
         **resolve(C, site, step["knobs"])}
    if site in ("samples", "list", "lin", "nonlin"):
        k.setdefault("precompute_list_batch_size",
                     step["knobs"].get("precompute_list_batch_size")
                     if not isinstance(step["knobs"].get("precompute_list_batch_size"),
                                       str) else None)
    elif site == "score" or site == "on_dataset" or site == "metrics":
        k = {a: b for a, b in k.items() if a != "data_batch_size"
             or "data_batch_size" in step["knobs"]}
    mem = Memory(sim, step["budget"])
    book = FaultBook(sim, [step["fault"]] if step["fault"] else None)
    tries = 0
    while True:
        tries += 1
        mem.peak = 1
        try:
            got = fn(C, step, k, mem, book)
            break
        except BaseException as e:
            if tries > 8 or not caused_by_sim(e):
                raise
            if book.fired and len(book.fired) == 1 and not getattr(book, "seen", 0):
                book.seen, book.armed = 1, False
                sim.probe("retried-fault")
                continue
            # Out of memory: the caller halves its chunks and tries again.
            small = {a: (b + 1) // 2 if SITES[site][1].get(a) == "chunk" and b else b
                     for a, b in k.items()}
            if small == k:
                raise Violation("memory", f"{site} {k}: more than {step['budget']} "
                                "items in flight") from e
            k = small
            sim.probe("retried-oom")
    if book.fired and not getattr(book, "seen", 0):
        raise Violation("fault-swallowed", f"{site}: {book.fired}")
    lim = limit(site, k)
    if lim is not None:
        sim.probe("bounded")
        if mem.peak > lim:
            raise Violation("memory", f"{site} {k}: {mem.peak} items in flight at once")
        if lim > 1 and mem.peak > 1:
            sim.probe("vectorised")
    if set(got) != set(ref):
        raise Violation("knob-changes-result", f"{site} {k}: keys {sorted(got)} instead "
                        f"of {sorted(ref)}")
    low = "lanczos" in ref or (C.plan["curv"] == "lanczos" and site in (
        "lin", "nonlin", "samples", "evaluation", "calibration"))
    rtol = (1e-4 if low else 1e-8) if C.plan["x64"] else (3e-2 if low else 2e-3)
    for a in ref:
        check_close(f"{site} {k} [{a}]", got[a], ref[a],
                    1e-3 if a == "prior" else rtol, "knob-changes-result")
    if site in ("dense", "diagonal", "estimate") and step["seed"] % 6 % 3 != 0 and \
            "M" in got:
        check_close(f"{site} {k} against numpy", got["M"], C.G,
                    1e-8 if C.plan["x64"] else 2e-3)
    if site == "diagonal":
        check_close(f"{site} {k} against numpy", got["d"], np.diag(C.G),
                    1e-8 if C.plan["x64"] else 2e-3)
    sim.probe(f"site:{site}")
    sim.log("site", site, sorted(k), tries)


def execute(sim: Sim, plan):
    with global_x64(plan["x64"]), stderr_as(NullStream()):
        C = Ctx(sim, plan)
        for step in plan["steps"]:
            perform(C, step, sim)
    return {
        "nontrivial": any(s["knobs"] for s in plan["steps"]),
        "state": [[s["site"], sorted(map(str, s["knobs"].items())), s["budget"]]
                  for s in plan["steps"]],
    }


def shrink(plan):
    for j, s in enumerate(plan["steps"]):
        if len(plan["steps"]) > 1:
            yield {**plan, "steps": plan["steps"][:j] + plan["steps"][j + 1:]}
        for a, v in (("fault", None), ("budget", None), ("noise", {})):
            if s[a]:
                yield {**plan, "steps": [*plan["steps"][:j], {**s, a: v},
                                         *plan["steps"][j + 1:]]}
        for k in s["knobs"]:
            kn = {a: b for a, b in s["knobs"].items() if a != k}
            yield {**plan, "steps": [*plan["steps"][:j], {**s, "knobs": kn},
                                     *plan["steps"][j + 1:]]}
