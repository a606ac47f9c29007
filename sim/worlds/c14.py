"""C14 - a stream larger than memory.

The simulated process has memory for a few batches.  A batch occupies it from the
moment the loader hands it out until nothing refers to any of its arrays any more;
one batch too many and the loader's allocation fails.  The stream is a resource of
its own: an iterator that was started and neither exhausted nor closed is a leak.
"""

import gc
import weakref

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FaultBook, NullStream, Sim, Violation, caused_by_sim, check_close,
    check_ritz, enable_x64, gen_problem, jax, jnp, krylov, lanczos_rank, loader_spec,
    lr_dense, make_loader, np, problem, setup_pushforward, stderr_as, vec_for,
)
from ..core import FAULT_TYPES

# Loops that are compiled as a whole (mv_jit, curv_mv_jit) inline the stream by design.
OPS = ("mv", "mv", "wrapped", "dense", "diag", "full", "diagonal", "laplace", "lanczos",
       "lobpcg", "hessian", "mean", "sum", "add", "concat", "wrapexec", "evaluation",
       "evaluation", "generator")
SLOW = ("wrapped", "dense", "diag", "full", "diagonal", "laplace", "lanczos", "lobpcg")
USES_SPLIT = ("hessian", "mean", "sum", "add", "concat", "wrapexec", "generator")
USES_MODEL = ("mv", "wrapped", "diag", "laplace", "hessian")
LIMIT = 5  # what an operation may hold at a time
KEEP = 2   # what may outlive it, say in a variable nobody cleared


def generate(rng, i, tier):
    deep = tier == "thorough"
    pr = gen_problem(rng, alike=("twins", "same", "halves"), n_lo=9, n_hi=24 if deep else 16,
                     models=("mlp", "lin", "list", "img"),
                     losses=("mse", "mse", "cross_entropy", "custom"),
                     vmap_choice=False)
    n = pr["n"]
    spec = loader_spec(rng, n, reuse=False)
    k = rng.randint(7, min(n, 18 if deep else 10))
    cut = sorted(rng.sample(range(1, n), k - 1))
    sizes = [b - a for a, b in zip([0, *cut], [*cut, n])]
    spec["sizes"] = sizes
    spec["resplit"] = False
    ops = []
    for _ in range(rng.randint(1, 4 if deep else 3)):
        o = rng.choice(OPS)
        if o == "lobpcg" and pr["model"] == "img":
            o = "lanczos"  # LOBPCG needs more than five parameters
        # compiled once per batch and repetition, or once per stream
        times = rng.choice([1, 2]) if o in SLOW else rng.choice([1, 2, 3, 5])
        op = {"op": o, "seed": rng.getrandbits(31), "fault": None,
              "jit": rng.random() < 0.5, "times": times,
              "one_shot": rng.random() < 0.4, "verbose": rng.random() < 0.2}
        if rng.random() < 0.35:
            # the loader fails, or what the caller does with a batch it delivered
            seam = rng.choice(["next", "split"] if o in USES_SPLIT else
                              ["next", "model"] if o in USES_MODEL else ["next"])
            op["fault"] = {"seam": seam, "at": rng.randint(1, len(sizes)),
                           "kind": rng.choice([x for x in FAULT_TYPES
                                               if x != "stopiter"])}
        ops.append(op)
    return {"problem": pr, "loader": spec, "ops": ops, "x64": rng.random() < 0.4}


class Memory:
    """Who still holds a batch."""

    def __init__(self, sim):
        self.sim, self.live, self.n = sim, {}, 0
        self.open = 0
        self.parts = 0
        self.exhausted = None

    def held(self):
        return len(self.live)

    def take(self, batch):
        """Allocate a batch, or fail."""
        if self.held() >= LIMIT:
            gc.collect()
        if self.held() >= LIMIT:
            self.exhausted = self.held()
            self.sim.fired("out-of-memory")
            raise FAULT_TYPES["oom"](f"injected: {self.held()} batches are still held")
        self.n += 1
        k, out = self.n, []
        leaves = jax.tree.leaves(batch)
        self.live[k] = len(leaves)

        def gone():
            self.live[k] -= 1
            if not self.live[k]:
                del self.live[k]

        for l in leaves:
            c = np.array(l) if isinstance(l, np.ndarray) else jnp.array(l, copy=True)
            weakref.finalize(c, gone)
            out.append(c)
        return jax.tree.unflatten(jax.tree.structure(batch), out)


    def reducing(self, reduce):
        """The reduction `reduce`, each partial result of which takes memory too."""
        def gone():
            self.parts -= 1

        def counted(res, state=None):
            for l in jax.tree.leaves(res):
                if isinstance(l, jax.Array) and not isinstance(l, jax.core.Tracer):
                    self.parts += 1
                    weakref.finalize(l, gone)
            leaves = max(1, len(jax.tree.leaves(res)))
            if self.parts >= LIMIT * leaves:
                gc.collect()
            if self.parts >= LIMIT * leaves:
                self.exhausted = self.parts // leaves
                self.sim.fired("out-of-memory")
                raise FAULT_TYPES["oom"](f"injected: {self.exhausted} partial results")
            return reduce(res, state)

        return counted


class Stream:
    """The simulated loader, with its batches and iterators accounted for."""

    def __init__(self, inner, mem):
        self.inner, self.mem = inner, mem
        self.taken = 0

    def __iter__(self):
        return self._gen()

    def _gen(self):
        self.mem.open += 1
        try:
            for batch in self.inner:
                self.taken += 1
                yield self.mem.take(batch)
                batch = None
        finally:
            self.mem.open -= 1


class SizedStream(Stream):
    def __len__(self):
        return len(self.inner.spec["sizes"])


def execute(sim: Sim, plan):
    gc.collect()
    gc.freeze()  # what exists is not ours: collections look at this run only
    try:
        return _execute(sim, plan)
    finally:
        gc.unfreeze()


def _execute(sim, plan):
    import laplax

    x64 = plan["x64"]
    done = []
    with enable_x64(x64), stderr_as(NullStream()):
        pr = problem(plan["problem"])
        spec = {**plan["loader"], "x64": x64}
        W = World(sim, pr, plan, spec, x64)
        X, Y = jnp.asarray(pr.X, dtype=float), jnp.asarray(pr.Y)
        W.posterior_fn, _ = laplax.laplace(pr.model_fn, pr.params, (X, Y),
                                           loss_fn=pr.loss_fn(), curv_type="diagonal")
        for op in plan["ops"]:
            for t in range(op["times"]):
                W.run(op, op["fault"] if t == 0 else None)
            done.append(op["op"])
    return {"nontrivial": len(spec["sizes"]) > LIMIT + 1,
            "state": [sorted(done), spec["kind"], spec["batch"], spec["array"],
                      len(spec["sizes"]) > 12, x64,
                      [bool(o["fault"]) for o in plan["ops"]]]}


class World:
    def __init__(self, sim, pr, plan, spec, x64):
        self.sim, self.pr, self.plan, self.spec, self.x64 = sim, pr, plan, spec, x64
        self.rt = 1e-7 if x64 else 2e-3
        self.G = pr.ggn()
        self.raw = self.G / pr.factor
        self.ops = {}  # operators live as long as a program keeps them

    def stream(self, book, mem):
        inner = make_loader(self.sim, self.pr.X, self.pr.Y, self.spec, book)
        cls = SizedStream if self.spec["kind"] == "sized" else Stream
        return cls(inner, mem)

    def run(self, op, fault):
        sim = self.sim
        sim.log("op", op["op"], bool(fault))
        book = FaultBook(sim, [fault] if fault else None)
        mem = Memory(sim)
        error = None
        try:
            self.do(op, book, mem)
        except Violation:
            raise
        except BaseException as e:
            if mem.exhausted:
                raise Violation(
                    "memory", f"{op['op']}: {mem.exhausted} batches or partial results of "
                    f"a stream of {len(self.spec['sizes'])} are held at once") from None
            if not book.fired or not (isinstance(e, ALL_SIM) or caused_by_sim(e)):
                raise
            error = type(e).__name__
            e.__traceback__ = None
        if book.fired and error is None:
            raise Violation("fault-swallowed", f"{op['op']}: {book.fired}")
        # The operator is still there (self.ops), the stream has to be free again.
        gc.collect()
        if mem.held() > KEEP:
            raise Violation("retained", f"{op['op']} is over ({error or 'ok'}), and "
                            f"{mem.held()} of {mem.n} batches are still held")
        if mem.open:
            raise Violation("left-open", f"{op['op']} is over ({error or 'ok'}), and "
                            f"{mem.open} iterators of the stream are still open")
        sim.probe(f"op:{op['op']}")
        if error:
            sim.probe("released-after-fault")

    def do(self, op, book, mem):
        import laplax
        from laplax.api import GGN
        from laplax.curv.cov import estimate_curvature
        from laplax.eval.utils import (
            apply_fns, evaluate_metrics_on_generator, transfer_entry,
        )
        from laplax.util import loader as L
        from laplax.util.flatten import create_pytree_flattener, wrap_function
        from laplax.util.mv import diagonal, to_dense

        pr, rt, G = self.pr, self.rt, self.G
        params = pr.params
        k = op["op"]
        ld = self.stream(book, mem)
        v = vec_for(pr.P, op["seed"])
        key = jax.random.key(op["seed"] % 1000)

        def split(b):
            book.hit("split")
            return b if isinstance(b, dict) else {"input": b[0], "target": b[1]}

        model_fn = pr.model_fn
        if op["fault"] and op["fault"]["seam"] == "model":
            def model_fn(input, params):  # noqa: A002
                book.hit("model")
                return pr.model_fn(input, params)

        def ggn():
            book.armed = False
            mv = self.ops[k] = GGN(model_fn, params, ld, pr.loss_fn(), factor=pr.factor,
                     verbose_logging=op["verbose"])
            book.armed = True
            ld.taken = 0
            return mv

        if k == "mv":
            mv = ggn()
            for _ in range(2):
                check_close("product", pr.flat(mv(pr.tree(v))), G @ v, rt)
            if ld.taken != 2 * len(self.spec["sizes"]):
                raise Violation("wrong-passes", f"two products took {ld.taken} batches "
                                f"of a stream of {len(self.spec['sizes'])}")
        elif k == "wrapped":
            f, u = create_pytree_flattener(params)
            mv = wrap_function(ggn(), input_fn=u, output_fn=f)
            check_close("wrapped product", mv(jnp.asarray(v)), G @ v, rt)
            check_close("wrapped diagonal", diagonal(mv, layout=pr.P), np.diag(G), rt)
        elif k == "dense":
            f, u = create_pytree_flattener(params)
            M = to_dense(wrap_function(ggn(), input_fn=u, output_fn=f), layout=pr.P)
            check_close("dense matrix", M, G, rt)
        elif k == "diag":
            kw = {} if op["seed"] & 1 else {"diagonal_batch_size": 3}
            check_close("diagonal", diagonal(ggn(), layout=params, **kw), np.diag(G), rt)
        elif k in ("full", "diagonal"):
            e = estimate_curvature(k, ggn(), layout=params)
            check_close(f"{k} curvature", e, G if k == "full" else np.diag(G), rt)
        elif k == "laplace":
            ct = ["full", "diagonal"][op["seed"] & 1]
            pf, e = laplax.laplace(model_fn, params, ld, loss_fn=pr.loss_fn(),
                                   curv_type=ct, num_curv_samples=pr.n,
                                   num_total_samples=pr.n)
            check_close(f"laplace {ct}", e, self.raw if ct == "full" else
                        np.diag(self.raw), rt)
        elif k == "lanczos":
            r, M = lanczos_rank(G, v, 1 + op["seed"] % 3, 1e-3 if self.x64 else 5e-2)
            e = estimate_curvature("lanczos", ggn(), layout=params, rank=r, key=key,
                                   b=jnp.asarray(v), mv_jit=False)
            check_close("Lanczos", lr_dense(e), krylov(G, v, r)[0],
                        1e-5 if self.x64 else 2e-2)
        elif k == "lobpcg":
            e = estimate_curvature("lobpcg", ggn(), layout=params, rank=1, key=key,
                                   mv_jit=False)
            check_ritz("LOBPCG", e, G, 1e-6 if self.x64 else 2e-3)
        elif k == "hessian":
            from laplax.curv.hessian import create_hessian_mv_without_data

            mv = self.ops[k] = L.DataLoaderMV(
                create_hessian_mv_without_data(model_fn, params, "mse", 1.0,
                                               vmap_over_data=True),
                ld, transform=split, reduce=mem.reducing(L.reduce_add))
            if plan_mse(self.plan):
                check_close("Hessian product", pr.flat(mv(pr.tree(v))),
                            pr.hessian() @ v / pr.factor, 1e-6 if self.x64 else 2e-3)
            else:
                mv(pr.tree(v))
        elif k in ("mean", "sum", "add", "concat", "wrapexec"):
            self.reduce(op, ld, split, L, mem)
        else:
            self.evaluate(op, ld, split, key, laplax, apply_fns,
                          evaluate_metrics_on_generator, transfer_entry)

    def reduce(self, op, ld, split, L, mem):
        pr, k = self.pr, op["op"]
        red = {"mean": L.reduce_online_mean, "sum": L.reduce_sum, "add": L.reduce_add,
               "concat": L.reduce_concat, "wrapexec": L.reduce_online_mean}[k]
        if k != "concat":  # which has to keep them all
            red = mem.reducing(red)

        def f(scale=2.0, *, data):
            x = data["input"] * scale
            return {"x": x.sum(0) if k == "add" else x}

        rows = self.rows()
        want = {"mean": rows.mean(0), "wrapexec": rows.mean(0),
                "sum": rows.sum(0, keepdims=True),
                "add": rows.sum(0), "concat": rows}[k] * 2.0
        if k == "wrapexec":
            g = self.ops[k] = L.wrap_function_with_data_loader(f, ld, split, red, jit=op["jit"])
            for s in (2.0, 4.0):
                check_close("wrapped reduction", g(s)["x"], want * s / 2, self.rt)
            return
        got = L.execute_with_data_loader(f, ld, split, red, jit=op["jit"])["x"]
        if k == "concat" and self.spec["reshuffle"]:
            got, want = np.sort(np.asarray(got).ravel()), np.sort(want.ravel())
        check_close(f"{k} over the stream", got, want, self.rt)

    def rows(self):
        return np.asarray(self.pr.X, dtype=np.float64)

    def evaluate(self, op, ld, split, key, laplax, apply_fns, on_generator,
                 transfer_entry):
        pr = self.pr
        met = [transfer_entry(["map", "target"]),
               apply_fns(lambda m, t, **kw: jnp.sum(m), names=["s"], m="map",
                         t="target")]
        if op["op"] == "evaluation":
            src = iter(ld) if op["one_shot"] else ld
            r, self.ops["pred"] = laplax.evaluation(
                self.posterior_fn, pr.model_fn, pr.params, {"prior_prec": 1.0}, src,
                metrics=met, predictive_jit=op["jit"], sample_key=key, num_samples=3)
        else:
            setter, fns = setup_pushforward("linear", "none")
            pred = setter(model_fn=pr.model_fn, mean_params=pr.params,
                          posterior_fn=self.posterior_fn, pushforward_fns=fns, key=key,
                          prior_arguments={"prior_prec": 1.0}, num_samples=3)
            src = (b for b in ld) if op["one_shot"] else ld
            r = on_generator(pred, src, metrics=met, transform=split,
                             reduce=jnp.concatenate)
        src = None
        want = np.stack([pr.forward(x) for x in pr.X])
        got = np.asarray(r["map"], dtype=np.float64)
        if got.shape != want.shape:
            raise Violation("wrong-count", f"{got.shape} instead of {want.shape}")
        if self.spec["reshuffle"]:
            got, want = np.sort(got.ravel()), np.sort(want.ravel())
        check_close("predictions of the stream", got, want, self.rt)
        if ld.taken != len(self.spec["sizes"]):
            raise Violation("wrong-passes", f"an evaluation took {ld.taken} batches of "
                            f"{len(self.spec['sizes'])}")


def plan_mse(plan):
    return plan["problem"]["loss"] == "mse"


def shrink(plan):
    ops = plan["ops"]
    for k, o in enumerate(ops):
        for a in ({"times": 1}, {"fault": None}, {"verbose": False}, {"jit": False}):
            if any(o[x] != y for x, y in a.items()):
                yield {**plan, "ops": [*ops[:k], {**o, **a}, *ops[k + 1:]]}
    s = plan["loader"]
    for k, w in (("reshuffle", False), ("stall", 0.0), ("kind", "gen"),
                 ("batch", "tuple"), ("array", "np")):
        if s[k] != w:
            yield {**plan, "loader": {**s, k: w}}
