"""C02 - a failing stream never yields a partial result, and a retry is exact.

Every public entry point that consumes a stream is called while the plan makes
the source, the user callbacks, the data or the progress display fail at a chosen
seam crossing.  A call during which an injected failure fired must raise it (or
carry the corruption as NaN); a call during which none fired must be exact; once
the faults stop, the very next call on the same objects must be exact.
"""

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, BrokenStderr, FaultBook, NullStream, Sim, Violation, caused_by_sim,
    check_close, check_ritz, enable_x64, gen_problem, jax, jnp, krylov, lanczos_rank,
    loader_spec, lr_dense, make_loader, np, problem, stderr_as, vec_for,
)

KINDS = ("io", "timeout", "conn", "oom", "runtime", "value", "key", "type", "attr",
         "index", "arith", "interrupt", "crash", "xla", "exit", "cancel", "eof", "notimpl",
         "assert")
OPS = ("mv", "mv", "dense", "diag", "full", "diagonal", "lanczos", "laplace", "laplace",
       "GGN", "evaluation", "metrics_gen", "execute", "wrapped", "wrapped", "process")


def gen_faults(rng, n_parts, op):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        seam = rng.choice(["next", "next", "next", "next", "iter", "iter()", "next.nan",
                           "next.nan", "transform", "model", "reduce", "display", "metric"])
        # `at` counts crossings since the attempt started: reach late passes too
        at = rng.choice([1, 2, 3, n_parts, n_parts + 1, rng.randint(1, 3 * n_parts)])
        if seam in ("iter", "iter()"):
            at = rng.choice([1, 1, 2, 3])
        if seam == "display":
            at = rng.choice([1, 2, 3, 5])
        kinds = list(KINDS)
        if seam in ("transform", "reduce", "model", "metric"):
            kinds += ["stopiter"] * 5 + ["oom", "xla", "interrupt"] * 3
        out.append({"seam": seam, "at": at, "kind": rng.choice(kinds)})
    return out


def generate(rng, i, tier):
    pr = gen_problem(rng, alike=("twins", "same", "halves"), big=0.04, n_lo=2, vmap_choice=False, losses=("mse", "cross_entropy",
                                                             "binary_cross_entropy"))
    spec = loader_spec(rng, pr["n"], max_parts=7)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice(OPS)
        ops.append({
            "op": k, "seed": rng.getrandbits(31), "rank": rng.randint(1, 4),
            "curv": rng.choice(["full", "diagonal", "lanczos"]),
            "attempts": [gen_faults(rng, len(spec["sizes"]), k)
                         for _ in range(rng.choice([1, 1, 2]))],
            "red": rng.choice(["add", "sum", "concat", "mean"]),
            "jit": rng.random() < 0.4,
            "empty": rng.random() < 0.06, "one_shot": rng.random() < 0.1,
            "mv_jit": rng.random() < 0.5,
        })
    return {"problem": pr, "loader": spec, "ops": ops, "x64": rng.random() < 0.3,
            "verbose": rng.random() < 0.5}


class Stop(StopIteration):
    pass


def execute(sim: Sim, plan):
    import laplax
    from laplax.api import GGN, evaluation
    from laplax.curv.cov import estimate_curvature
    from laplax.eval.utils import evaluate_metrics_on_generator
    from laplax.util import loader as L
    from laplax.util.flatten import create_pytree_flattener, wrap_function
    from laplax.util.mv import diagonal, to_dense

    x64, prd = plan["x64"], plan["problem"]
    hits = 0
    done = []
    with enable_x64(x64):
        pr = problem(prd)
        rt = 1e-8 if x64 else 5e-4
        G = pr.ggn()
        params = pr.params
        book = FaultBook(sim, None)
        spec = {**plan["loader"], "x64": x64}

        def hook(seam):
            def h():
                book.hit(seam)
            return h

        model_fn = pr.make_model_fn(hook("model"))
        base_tr = (lambda b: b) if spec["batch"].startswith("dict") else (
            lambda b: {"input": b[0], "target": b[1]})

        def transform(b):
            book.hit("transform")
            return base_tr(b)

        def red(fn):
            def r(new, state=None):
                book.hit("reduce")
                return fn(new, state)
            return r

        def fresh_loader(op, sp=spec):
            ld = make_loader(sim, pr.X, pr.Y, sp, book)
            if op["empty"]:
                return EmptyLoader(sim)
            return iter(ld) if op["one_shot"] else ld

        def build(op):
            """Return (call, check): `call` may fail, `check(result)` is the oracle."""
            k = op["op"]
            ld = fresh_loader(op)
            if k in ("mv", "dense", "diag", "full", "diagonal", "lanczos"):
                # an operator built in healthy times, then hit by faults
                book.armed = False
                src = SwitchLoader(ld)
                mv = L.DataLoaderMV(_vp_mv(pr, prd, model_fn), src, transform=transform,
                                    reduce=red(L.reduce_add),
                                    verbose_logging=plan["verbose"])
                book.armed = True
                if k == "mv":
                    v = vec_for(pr.P, op["seed"])
                    return (lambda: pr.flat(mv(pr.tree(v)))), close(G @ v, rt)
                if k == "dense":
                    f, u = create_pytree_flattener(params)
                    w = wrap_function(mv, input_fn=u, output_fn=f)
                    return (lambda: np.asarray(to_dense(w, layout=pr.P))), close(G, rt)
                if k == "diag":
                    return (lambda: np.asarray(diagonal(mv, layout=params))), \
                        close(np.diag(G), rt)
                if k in ("full", "diagonal"):
                    ref = G if k == "full" else np.diag(G)
                    return (lambda: np.asarray(estimate_curvature(k, mv=mv, layout=params))
                            ), close(ref, rt)
                b = vec_for(pr.P, op["seed"])
                r, M = lanczos_rank(G, b, op["rank"], 1e-3 if x64 else 3e-2)
                return (lambda: lr_dense(estimate_curvature(
                    "lanczos", mv=mv, layout=params, rank=r, b=jnp.asarray(b),
                    mv_jit=op["mv_jit"]))), close(M, 1e-5 if x64 else 2e-2)
            if k == "GGN":
                v = vec_for(pr.P, op["seed"])
                return (lambda: pr.flat(GGN(
                    model_fn, params, ld, pr.loss_fn(), factor=pr.factor,
                    transform=transform, verbose_logging=plan["verbose"])(pr.tree(v)))
                ), close(G @ v, rt)
            if k == "laplace":
                ct = op["curv"]
                kw, post = {}, np.asarray
                ref = {"full": G, "diagonal": np.diag(G)}.get(ct)
                tolr = rt
                if ct == "lanczos":
                    b = vec_for(pr.P, op["seed"])
                    r, ref = lanczos_rank(G, b, op["rank"], 1e-3 if x64 else 3e-2)
                    kw = {"b": jnp.asarray(b), "rank": r, "mv_jit": op["mv_jit"]}
                    post, tolr = lr_dense, (1e-5 if x64 else 2e-2)
                return (lambda: post(laplax.laplace(
                    model_fn, params, ld, loss_fn=pr.loss_fn(), curv_type=ct, **kw)[1])
                ), close(ref / pr.factor, tolr)
            if k in ("execute", "wrapped", "process"):
                return reduction(op, ld)
            # streamed evaluation: reference from the whole data set at once
            return evaluation_op(op, ld)

        def reduction(op, ld):
            reds = {"add": L.reduce_add, "sum": L.reduce_sum, "concat": L.reduce_concat,
                    "mean": L.reduce_online_mean}
            rname = op["red"]
            Xr = pr.X.reshape(pr.n, -1)

            def per_batch(data, scale=1.0):
                book.hit("model")
                x = jnp.asarray(data["input"])
                rows = x.reshape(x.shape[0], int(np.prod(x.shape[1:]))) * scale
                return {"s": jnp.sum(rows, axis=0)} if rname == "add" else {"s": rows}

            ref = {"add": Xr.sum(0), "sum": Xr.sum(0, keepdims=True), "concat": Xr,
                   "mean": Xr.mean(0)}[rname]
            k = op["op"]
            order_free = rname != "concat"
            if k == "wrapped":
                fn = L.wrap_function_with_data_loader(
                    per_batch, ld, transform, red(reds[rname]), jit=op["jit"])
            elif k == "execute":
                def fn():
                    return L.execute_with_data_loader(
                        per_batch, ld, transform, red(reds[rname]), jit=op["jit"])
            else:
                def fn():
                    return L.process_batches(per_batch, ld, transform, red(reds[rname]),
                                             verbose_logging=plan["verbose"])

            def check(got):
                if order_free:
                    check_close("streamed reduction", got, ref, rt)
                else:
                    a, b = np.asarray(got), ref
                    if a.shape != b.shape:
                        raise Violation("partial-result", f"{a.shape} rows of {b.shape}")
                    a = a[np.lexsort(a.T[::-1])]
                    b = b[np.lexsort(b.T[::-1])]
                    check_close("streamed concatenation", a, b, rt)

            return (lambda: np.asarray(fn()["s"])), check

        def evaluation_op(op, ld):
            def sq(results, aux, **kw):
                book.hit("metric")
                d = aux["map"] - aux["target"]
                results["sq"] = jnp.sum(d * d)
                return results, aux

            sqr = np.array([np.sum((pr.forward(x) - y) ** 2)
                            for x, y in zip(pr.X, pr.Y)])
            if op["op"] == "metrics_gen":
                def fn():
                    return evaluate_metrics_on_generator(
                        lambda x: {"map": model_fn(x, params)}, iter_of(ld),
                        metrics=[sq], transform=transform, reduce=jnp.concatenate)["sq"]
            else:
                pf = laplax.laplace(pr.model_fn, params, (jnp.asarray(pr.X),
                                    jnp.asarray(pr.Y)), loss_fn=pr.loss_fn(),
                                    curv_type="diagonal")[0]

                def fn():
                    return evaluation(pf, model_fn, params, {"prior_prec": 1.0}, ld,
                                      metrics=[sq])[0]["sq"]

            def check(got):
                got = np.asarray(got)
                if got.shape != sqr.shape:
                    raise Violation("partial-result",
                                    f"{got.shape} metric entries for {pr.n} points")
                check_close("streamed metric", np.sort(got), np.sort(sqr), rt)

            return (lambda: np.asarray(fn())), check

        def close(ref, rtol):
            def check(got):
                check_close("streamed result", got, ref, rtol)
            return check

        for op in plan["ops"]:
            k = op["op"]
            if op["one_shot"] or op["empty"]:
                sim.probe("one-shot" if op["one_shot"] else "empty")
            disp = BrokenStderr(sim, book)
            with stderr_as(NullStream()):
                book.armed = False
                call, check = build(op)
            if op["empty"] and k in ("mv", "dense", "diag", "full", "diagonal",
                                     "lanczos", "GGN", "laplace", "execute", "wrapped",
                                     "process"):
                book.armed = False
                try:
                    got = call()
                except Exception as e:  # noqa: BLE001
                    sim.log("empty raises", type(e).__name__)
                else:
                    raise Violation("empty-stream", f"{k} on an empty stream returned "
                                                    f"{np.asarray(got).ravel()[:3]}")
                continue
            if op["empty"]:
                continue
            for faults in op["attempts"]:
                if op["one_shot"]:
                    with stderr_as(NullStream()):
                        book.armed = False
                        call, check = build(op)
                        book.armed = True
                book.pending = [dict(f) for f in faults]
                book.count, book.fired, book.armed = {}, [], True
                err = got = None
                try:
                    with stderr_as(disp):
                        got = call()
                except (Exception, *ALL_SIM) as e:  # noqa: BLE001
                    err = e
                fired = list(book.fired)
                book.armed, book.pending = False, []
                corrupt = [f for f in fired if f["seam"].endswith(".nan")]
                hard = [f for f in fired if not f["seam"].endswith(".nan")
                        and f["seam"] != "display"]
                soft = [f for f in fired if f["seam"] == "display"]
                hits += bool(fired)
                sim.log(k, "attempt", [f["seam"] + f["kind"] for f in fired],
                        type(err).__name__ if err else "ok")
                if err is not None:
                    if not fired:
                        if op["one_shot"]:  # refusing a one-shot stream is fine
                            sim.probe("one-shot-refused")
                            continue
                        raise err
                    if (hard or soft) and not corrupt and not caused_by_sim(err):
                        raise Violation(
                            "masked-failure",
                            f"{k}: injected {hard or soft} surfaced as "
                            f"{type(err).__name__}: {str(err)[:200]}")
                    sim.probe("fault-surfaced")
                    continue
                if hard:
                    raise Violation("swallowed-failure",
                                    f"{k}: {hard} fired but the call returned a value")
                if corrupt:
                    if not np.all(np.isfinite(got)):
                        sim.probe("corruption-visible")
                        continue
                    # Only a pass whose result is discarded (the shape probe of an
                    # entry point) may have met the bad batch.
                    sim.probe("corruption-in-discarded-pass")
                if soft:
                    sim.probe("display-fault-tolerated")
                check(got)
                sim.probe("unfired-exact")
            # Faults have stopped: progress within one call (a fresh one-shot source).
            with stderr_as(NullStream()):
                book.armed = False
                if op["one_shot"]:
                    call, check = build(op)
                    book.armed = False
                try:
                    got = call()
                except Exception:
                    if op["one_shot"]:
                        continue
                    raise
                check(got)
            sim.probe("recovered")
            done.append(k)
    return {"nontrivial": hits > 0, "state": [done, spec["kind"], spec["batch"], x64]}


class EmptyLoader:
    def __init__(self, sim):
        self.sim = sim

    def __iter__(self):
        return iter(())


class SwitchLoader:
    """Plain pass-through iterable (keeps one-shot sources one-shot)."""

    def __init__(self, src):
        self.src = src

    def __iter__(self):
        return iter(self.src)


def iter_of(ld):
    return (b for b in ld)


def _vp_mv(pr, prd, model_fn):
    from laplax.curv.ggn import create_ggn_mv_without_data

    return create_ggn_mv_without_data(model_fn=model_fn, params=pr.params,
                                      loss_fn=pr.loss_fn(), factor=pr.factor,
                                      vmap_over_data=True)


def shrink(plan):
    for j, op in enumerate(plan["ops"]):
        for a in range(len(op["attempts"])):
            if len(op["attempts"]) > 1:
                o = {**op, "attempts": op["attempts"][:a] + op["attempts"][a + 1:]}
                yield {**plan, "ops": plan["ops"][:j] + [o] + plan["ops"][j + 1:]}
            for f in range(len(op["attempts"][a])):
                fs = op["attempts"][a][:f] + op["attempts"][a][f + 1:]
                at = list(op["attempts"])
                at[a] = fs
                yield {**plan, "ops": plan["ops"][:j] + [{**op, "attempts": at}]
                       + plan["ops"][j + 1:]}
    s = plan["loader"]
    for k, v in (("reshuffle", False), ("stall", 0.0), ("kind", "gen"),
                 ("batch", "tuple"), ("array", "np")):
        if s.get(k) != v:
            yield {**plan, "loader": {**s, k: v}}
    if len(s["sizes"]) > 2:
        yield {**plan, "loader": {**s, "sizes": [1, sum(s["sizes"]) - 1]}}
    if plan["x64"]:
        yield {**plan, "x64": False}
    if plan["verbose"]:
        yield {**plan, "verbose": False}
