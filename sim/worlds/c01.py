"""C01 - a curvature computed from a stream equals the whole-data curvature."""

from .common import *  # noqa: F403
from .common import (
    NullStream, Sim, Violation, check_close, check_ritz, enable_x64, gen_problem, jnp,
    jax, krylov, lanczos_rank, loader_spec, lr_dense, make_loader, np, partition,
    problem, stderr_as, transform_for, vec_for,
)

OPS = ("mv", "mv", "mv", "dense", "dense", "diag", "diag", "full", "full", "diagonal",
       "diagonal", "lanczos", "lanczos", "posterior", "posterior", "lobpcg", "hessian",
       "batchwise", "batchwise", "whole", "bad")


SMALL = ("img",)  # LOBPCG needs size > 5


def generate(rng, i, tier):
    pr = gen_problem(rng, alike=("twins", "same", "halves", "zero"), big=0.05)
    nops = rng.choice([1, 2, 2, 3])
    ops = []
    for _ in range(nops):
        kind = rng.choice(OPS)
        if kind == "lobpcg" and pr["model"] in SMALL:
            kind = "full"
        if kind == "hessian":
            if pr["n"] > 7 or pr["model"] == "wide":
                kind = "mv"
            else:
                pr["loss"] = "mse"
        ops.append({
            "whole": rng.choice(["tuple", "list", "dict", "dict+"]),
            "op": kind, "seed": rng.getrandbits(31), "rank": rng.randint(1, 5),
            "mv_jit": rng.random() < 0.5, "curv_jit": rng.random() < 0.3,
            "api": rng.choice(["laplace", "GGN"]), "use_b": rng.random() < 0.5,
            "curv": rng.choice(["full", "diagonal", "lanczos"]),
            "prior": rng.choice([0.5, 1.0, 4.0]),
            "as_str": rng.random() < 0.5, "over": rng.random() < 0.4,
        })
    if rng.random() < 0.15:
        pr["n"] = 1
    spec = loader_spec(rng, pr["n"], max_parts=7)
    if rng.random() < 0.1:
        spec["batch"] = "raw"
    return {"problem": pr, "loader": spec, "ops": ops, "x64": rng.random() < 0.4}


def exhausted(G, b, floor, x64):
    """G (scaled to 1) projected on the whole Krylov space of b.

    None where the end of the space is numerically ambiguous.  Without x64 the
    products carry noise that may restart an exhausted space, so there the space
    has to contain all of G (no repeated eigenvalues).
    """
    s = np.abs(G).max()
    A, V = G / s, []
    v = b / np.linalg.norm(b)
    while True:
        V.append(v)
        w = A @ v
        for _ in range(3):
            for u in V:
                w = w - (u @ w) * u
        beta = np.linalg.norm(w)
        if beta < 1e-11:
            break
        if beta < 3 * floor or len(V) == len(b):
            return None
        v = w / beta
    V = np.stack(V, 1)
    M = V @ (V.T @ A @ V) @ V.T
    return M if x64 or np.abs(M - A).max() < 1e-9 else None


def execute(sim: Sim, plan):
    import laplax
    from laplax.api import GGN
    from laplax.curv.cov import estimate_curvature, set_posterior_fn
    from laplax.enums import CurvApprox
    from laplax.util.loader import input_target_split
    from laplax.util.mv import diagonal, to_dense

    x64 = plan["x64"]
    prd = plan["problem"]
    with enable_x64(x64), stderr_as(NullStream()):
        pr = problem(prd)
        spec = {**plan["loader"], "x64": x64}
        loader = make_loader(sim, pr.X, pr.Y, spec)
        params = pr.params
        G = pr.ggn()
        rt = 1e-8 if x64 else 3e-4
        tr = transform_for(spec)
        mv = GGN(pr.model_fn, params, loader, pr.loss_fn(), factor=pr.factor,
                 vmap_over_data=prd["vmap"], transform=tr,
                 verbose_logging=bool(plan["ops"][0]["seed"] & 1))
        mvs = {"GGN": (mv, G)}
        worlds = []

        def curvature(op, ct, **kw):
            """Through laplace() (factor 1) or GGN + estimate_curvature."""
            key = jax.random.key(op["seed"] % 1000)
            name = ct if op["as_str"] else CurvApprox(ct)
            if op["api"] == "laplace" and tr is None:
                # ratio of the two sample counts is the overall scaling factor
                pf, ce = laplax.laplace(
                    pr.model_fn, params, loader, loss_fn=pr.loss_fn(), curv_type=name,
                    num_curv_samples=pr.n, num_total_samples=pr.n,
                    vmap_over_data=prd["vmap"], curv_mv_jit=op["curv_jit"], key=key, **kw)
                return pf, ce, G / pr.factor
            ce = estimate_curvature(name, mv=mv, layout=params, key=key, **kw)
            return set_posterior_fn(name, ce, layout=params), ce, G

        for op in plan["ops"]:
            k = op["op"]
            sim.probe(f"op:{k}")
            if k == "mv":
                v = vec_for(pr.P, op["seed"])
                check_close("operator applied to a vector", pr.flat(mv(pr.tree(v))),
                            G @ v, rt)
            elif k == "dense":
                from laplax.util.flatten import create_pytree_flattener, wrap_function

                f, u = create_pytree_flattener(params)
                M = to_dense(wrap_function(mv, input_fn=u, output_fn=f), layout=pr.P)
                check_close("dense matrix of the streamed operator", M, G, rt)
            elif k == "diag":
                check_close("diagonal of the streamed operator",
                            diagonal(mv, layout=params), np.diag(G), rt)
            elif k == "hessian":
                from laplax.curv.hessian import create_hessian_mv_without_data
                from laplax.util.loader import DataLoaderMV, reduce_add

                split = tr or (input_target_split if spec["batch"] in {"tuple", "list"}
                               else lambda b: b)
                hmv = DataLoaderMV(
                    create_hessian_mv_without_data(pr.model_fn, params, "mse",
                                                   pr.factor),
                    loader, transform=split, reduce=reduce_add)
                H = pr.hessian()
                v = vec_for(pr.P, op["seed"])
                check_close("streamed Hessian applied to a vector",
                            pr.flat(hmv(pr.tree(v))), H @ v, 1e-6 if x64 else 1e-3)
                check_close("diagonal of the streamed Hessian",
                            diagonal(hmv, layout=params), np.diag(H),
                            1e-6 if x64 else 1e-3)
            elif k == "batchwise":
                batchwise(pr, prd, loader, tr or (input_target_split if spec["batch"] in
                          {"tuple", "list"} else lambda b: b), op, rt)
            elif k == "whole":
                whole(pr, prd, op, rt)
            elif k == "bad":
                bad(sim, pr, prd, spec, tr, op)
            elif k == "full":
                _, ce, Gr = curvature(op, "full")
                check_close("full curvature", ce, Gr, rt)
            elif k == "diagonal":
                _, ce, Gr = curvature(op, "diagonal")
                check_close("diagonal curvature", ce, np.diag(Gr), rt)
            elif k == "lanczos":
                kw = {}
                with enable_x64(True):
                    b = np.asarray(jax.random.normal(
                        jax.random.key(op["seed"] % 1000), (pr.P,), dtype=jnp.float64))
                if op["use_b"]:
                    b = vec_for(pr.P, op["seed"])
                    kw["b"] = jnp.asarray(b)
                floor = 1e-3 if x64 else 3e-2
                M = None
                if op["over"]:  # more iterations than the Krylov space has dimensions
                    M = exhausted(G, b, floor, x64)
                if M is not None:
                    r = np.linalg.matrix_rank(G, tol=1e-9 * np.abs(G).max()) + op["rank"]
                    sim.probe("krylov-exhausted")
                    M = M * np.abs(G).max()
                else:
                    r, _ = lanczos_rank(G, b, op["rank"], floor)
                _, ce, Gr = curvature(op, "lanczos", rank=r, mv_jit=op["mv_jit"], **kw)
                if M is None:
                    M = krylov(Gr, b, r)[0]
                else:
                    M *= np.abs(Gr).max() / np.abs(G).max()
                check_close("Lanczos approximation U S U^T", lr_dense(ce), M,
                            1e-5 if x64 else 2e-2)
                if np.asarray(ce.U).shape != (pr.P, r):
                    raise Violation("wrong-shape", f"rank {r}: U {ce.U.shape}")
            elif k == "lobpcg":
                _, ce, Gr = curvature(op, "lobpcg", rank=op["rank"], mv_jit=op["mv_jit"])
                check_ritz("LOBPCG", ce, Gr, 1e-6 if x64 else 2e-3)
            elif k == "posterior":
                ct = op["curv"]
                kw = {}
                if ct == "lanczos":
                    b = vec_for(pr.P, op["seed"])
                    r, _ = lanczos_rank(G, b, op["rank"], 1e-3 if x64 else 3e-2)
                    kw = {"b": jnp.asarray(b), "rank": r, "mv_jit": op["mv_jit"]}
                pf, ce, Gr = curvature(op, ct, **kw)
                post = pf({"prior_prec": op["prior"]}, 1.0)
                v = vec_for(pr.P, op["seed"] + 1)
                C = {"full": Gr, "diagonal": np.diag(np.diag(Gr))}.get(ct)
                if C is None:
                    C, _, _ = krylov(Gr, b, r)
                ref = np.linalg.solve(C + op["prior"] * np.eye(pr.P), v)
                got = pr.flat(post.cov_mv(post.state)(pr.tree(v)))
                check_close(f"posterior covariance ({ct}) applied to a vector", got, ref,
                            1e-4 if x64 else 3e-2)
            worlds.append(k)
        sim.probe("reshuffled" if spec["reshuffle"] else "fixed-order")
        sim.probe("passes", loader.passes)
    return {
        "nontrivial": len(spec["sizes"]) > 1 and loader.passes > 1,
        "state": [prd["model"], prd["loss"], spec["kind"], spec["batch"], worlds,
                  len(spec["sizes"]), x64, prd["vmap"]],
    }


def batchwise(pr, prd, loader, split, op, rt):
    """The caller's own accumulation: one operator per batch of the stream."""
    from laplax.curv.ggn import create_ggn_mv
    from laplax.util.mv import diagonal

    def hess_mv(jv, pred, target):
        del target
        return 2 * jv if pr.loss == "mse" else jv

    v = pr.tree(vec_for(pr.P, op["seed"]))
    kw = {"loss_fn": pr.loss_fn()}
    if op["as_str"] and pr.loss in {"mse", "none"}:
        kw = {"loss_hessian_mv": hess_mv}
    got = diag = 0.0
    times = op["rank"]  # each batch stands for this many like it
    for b in loader:
        data = split(b)
        m = len(data["input"])
        if not m:
            continue
        if op["use_b"]:  # a share of the batch counts as its samples
            kw |= {"num_curv_samples": m, "num_total_samples": times * m}
        elif times > 1:
            kw["num_total_samples"] = times * m
        mv = create_ggn_mv(pr.model_fn, pr.params, data, vmap_over_data=prd["vmap"], **kw)
        got = got + pr.flat(mv(v))
        if op["over"]:
            diag = diag + np.asarray(diagonal(mv, layout=pr.params), dtype=np.float64)
    G = pr.ggn() / pr.factor * times
    check_close("sum of the batches' operators", got, G @ pr.flat(v), rt)
    if op["over"]:
        check_close("sum of the batches' diagonals", diag, np.diag(G), rt)


def whole(pr, prd, op, rt):
    """All the data in one container instead of a stream."""
    import laplax
    from laplax.api import GGN

    x, y = jnp.asarray(pr.X, dtype=float), jnp.asarray(pr.Y)
    if jnp.issubdtype(y.dtype, jnp.floating):
        y = y.astype(x.dtype)
    data = {"tuple": (x, y), "list": [x, y], "dict": {"input": x, "target": y},
            "dict+": {"input": x, "target": y, "id": jnp.arange(pr.n)}}[op["whole"]]
    G = pr.ggn()
    mv = GGN(pr.model_fn, pr.params, data, pr.loss_fn(), factor=pr.factor,
             vmap_over_data=prd["vmap"], verbose_logging=False)
    v = vec_for(pr.P, op["seed"])
    check_close(f"operator of all the data as a {op['whole']}", pr.flat(mv(pr.tree(v))),
                G @ v, rt)
    _, ce = laplax.laplace(pr.model_fn, pr.params, data, loss_fn=pr.loss_fn(),
                           curv_type="diagonal", vmap_over_data=prd["vmap"],
                           curv_mv_jit=op["curv_jit"])
    check_close(f"diagonal curvature of all the data as a {op['whole']}", ce,
                np.diag(G) / pr.factor, rt)


def bad(sim, pr, prd, spec, tr, op):
    """A point that is not a number makes the whole curvature not a number."""
    from laplax.api import GGN
    from laplax.curv.cov import estimate_curvature

    X = np.array(pr.X)
    X[op["seed"] % pr.n].ravel()[0] = np.inf if op["over"] else np.nan
    loader = make_loader(sim, X, pr.Y, spec)
    mv = GGN(pr.model_fn, pr.params, loader, pr.loss_fn(), factor=pr.factor,
             vmap_over_data=prd["vmap"], transform=tr, verbose_logging=False)
    got = {"product": pr.flat(mv(pr.tree(vec_for(pr.P, op["seed"]))))}
    if op["use_b"]:
        ct = "diagonal" if op["curv"] == "diagonal" else "full"
        got[ct] = np.asarray(estimate_curvature(ct, mv=mv, layout=pr.params))
    for what, g in got.items():
        if np.all(np.isfinite(g)):
            raise Violation("wrong-value", f"{what}: finite although one point is not")


def shrink(plan):
    s = plan["loader"]
    n = plan["problem"]["n"]
    for m in range(1, n):
        sizes, left = [], m
        for z in s["sizes"]:
            if left > 0:
                sizes.append(min(z, left))
                left -= sizes[-1]
        yield {**plan, "problem": {**plan["problem"], "n": m},
               "loader": {**s, "sizes": sizes}}
    for k, v in (("reshuffle", False), ("stall", 0.0), ("kind", "gen"),
                 ("batch", "tuple"), ("array", "np")):
        if s.get(k) != v:
            yield {**plan, "loader": {**s, k: v}}
    if len(s["sizes"]) > 1:
        yield {**plan, "loader": {**s, "sizes": [sum(s["sizes"])]}}
        yield {**plan, "loader": {**s, "sizes": [1, sum(s["sizes"]) - 1]}}
    if plan["problem"]["factor"] != 1.0:
        yield {**plan, "problem": {**plan["problem"], "factor": 1.0}}
    if plan["problem"]["loss"] != "mse":
        yield {**plan, "problem": {**plan["problem"], "loss": "mse"}}
