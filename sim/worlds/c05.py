"""C05 - mixed precision stays inside the call that asked for it."""

import gc
import threading

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FaultBook, NullStream, Sim, Violation, alloc_faults, caused_by_sim,
    check_close, contextlib, enable_x64, global_x64, jax, jnp, krylov, lanczos_rank,
    lr_dense, np, random, stderr_as, vec_for, x64_enabled,
)
from ..core import HarnessError, REPO, Scheduler, random_mode
from ..seams import SimLoader

SHAPES = {"a": (3, 2), "b": (5,), "c": ()}  # P = 12
P = 12
EXC = ("io", "oom", "runtime", "value", "type", "interrupt", "crash", "key", "arith",
       "xla", "exit", "cancel", "notimpl", "assert")
DT = {"f32": jnp.float32, "f64": jnp.float64}


def _op(rng, sess, depth=0):
    fn = rng.choice(["lanczos"] * 3 + ["lobpcg"] * 2 + ["estimate", "posterior", "laplace"])
    op = {
        "fn": fn, "method": rng.choice(["lanczos", "lanczos", "lobpcg"]),
        "A": rng.choice(["matrix", "flat", "flat", "tree"]),
        "rank": rng.randint(1, 3), "seed": rng.getrandbits(31),
        "calc": rng.choice(["default", "default", "f64", "f32"]),
        "mv": rng.choice([None, None, "f32", "f64"]),
        "ret": rng.choice([None, None, "f32", "f64"]),
        "mv_jit": rng.random() < 0.4, "use_b": rng.random() < 0.4,
        "reorth": rng.random() < 0.8, "fault": None, "nested": None,
        "watch": rng.random() < 0.5,
    }
    if fn == "lanczos":
        op["method"] = "lanczos"
    if fn == "lobpcg":
        op["method"] = "lobpcg"
    if op["calc"] == "f32":  # double products cannot exist inside a float32 scope
        op["mv"] = "f32"
    if fn in ("estimate", "posterior", "laplace"):
        op["A"] = "tree"
    if fn == "posterior" and not sess and op["ret"] == "f64":
        op["ret"] = None  # JAX cannot compute with float64 arrays while x64 is off
    if fn == "laplace":  # the model is linearised at parameters of the session's dtype
        op["mv"], op["calc"] = None, rng.choice(["default", "f64"])
    u = rng.random()
    if u < 0.40 and op["A"] != "matrix":
        op["fault"] = {"seam": "mv", "at": 1 if op["mv_jit"] else rng.randint(1, 4),
                       "kind": rng.choice(EXC)}
    elif u < 0.55:
        op["fault"] = {"seam": "alloc", "at": rng.randint(1, 14),
                       "kind": rng.choice(["oom", "runtime", "interrupt"])}
    elif u < 0.68:
        op["fault"] = {"seam": "args", "at": 0, "kind": rng.choice(["nokey", "nolayout"])}
    if depth == 0 and op["A"] != "matrix" and not op["mv_jit"] and rng.random() < 0.25 \
            and fn != "laplace":
        op["nested"] = _op(rng, sess, 1)
        op["nested"].update(mv_jit=False, fn=rng.choice(["lanczos", "lobpcg"]), A="flat",
                            watch=False)
        op["nested"]["method"] = op["nested"]["fn"]
    return op


def generate(rng, i, tier):
    nt = 1 if rng.random() < 0.6 else 2
    g = rng.random() < 0.5
    tasks = []
    for _ in range(nt):
        ctx = [rng.random() < 0.5 for _ in range(rng.choice([0, 0, 1, 2]))]
        tasks.append({"ctx": ctx, "ops": [_op(rng, ctx[-1] if ctx else g)
                                          for _ in range(rng.randint(1, 3))]})
    return {
        "x64": g, "tasks": tasks,
        "schedule": random_mode(rng, nt) if nt > 1 else None,
    }


def _config():
    jax.config.read("jax_enable_x64")
    return {k: v for k, v in jax.config.values.items()}


def _thread_view():
    out = {}

    def look():
        out["dtype"] = str(jnp.asarray(1.5).dtype)
        out["flag"] = x64_enabled()

    t = threading.Thread(target=look)
    t.start()
    t.join()
    return out


def _trees(v):
    from ..zoo import _is_shape

    leaves, o = [], 0
    ls, td = jax.tree.flatten(SHAPES, is_leaf=_is_shape)
    for s in ls:
        k = int(np.prod(s, dtype=int))
        leaves.append(jnp.reshape(v[o:o + k], s))
        o += k
    return jax.tree.unflatten(td, leaves)


def _flat(t):
    return jnp.concatenate([jnp.ravel(l) for l in jax.tree.leaves(t)])


class Task:
    def __init__(self, sim, plan, spec, idx):
        self.sim, self.plan, self.spec, self.idx = sim, plan, spec, idx
        self.conc = len(plan["tasks"]) > 1
        self.fired = self.checked = 0

    def run(self):
        with contextlib.ExitStack() as st:
            for c in self.spec["ctx"]:
                st.enter_context(enable_x64(c))
            self.session = self.spec["ctx"][-1] if self.spec["ctx"] else self.plan["x64"]
            for op in self.spec["ops"]:
                self.step(op)

    # -- invariants ------------------------------------------------------------

    def see(self, what):
        """The configuration as this thread and a fresh one see it."""
        want = "float64" if self.session else "float32"
        if x64_enabled() != self.session:
            raise Violation("precision-leak", f"after {what}: x64 flag is "
                            f"{x64_enabled()}, the session runs with {self.session}")
        got = str(jnp.asarray(1.5).dtype)
        if got != want:
            raise Violation("precision-leak", f"after {what}: new arrays are {got}, "
                            f"the session runs with {want}")
        self.others(f"after {what}")

    def others(self, when):
        v = _thread_view()
        if v["flag"] != self.plan["x64"]:
            raise Violation("precision-leak-thread", f"{when}: another thread sees "
                            f"x64={v['flag']}, process runs with {self.plan['x64']}")
        want = "float64" if self.plan["x64"] else "float32"
        if v["dtype"] != want:
            raise Violation("precision-leak-thread",
                            f"{when}: another thread creates {v['dtype']}")

    # -- one operation ------------------------------------------------------------

    def step(self, op):
        name = f"{op['fn']}/{op['method']}"
        cfg = _config()
        f = op["fault"]
        book = FaultBook(self.sim, [f] if f and f["seam"] != "args" else [])
        mods = []
        if f and f["seam"] == "alloc" and not self.conc:
            from laplax.curv import cov, lanczos, lobpcg, utils

            mods = [lanczos, lobpcg, utils, cov]
        failed = None
        with alloc_faults(mods, book):
            try:
                self.call(op, book, name)
            except Violation:
                raise
            except HarnessError:
                raise
            except BaseException as e:  # noqa: BLE001
                failed = e
        bad_args = f and f["seam"] == "args" and self.bad_args(op)
        if failed is not None:
            if bad_args:
                want = (ValueError, TypeError)
                if not isinstance(failed, want):
                    raise Violation("wrong-exception", f"{name}: {failed!r}")
                self.sim.fired(f"args:{f['kind']}")
                self.fired += 1
            elif book.fired or caused_by_sim(failed):
                if not isinstance(failed, ALL_SIM) and not caused_by_sim(failed):
                    raise Violation("fault-masked", f"{name}: injected "
                                    f"{book.fired} surfaced as {failed!r}")
                self.fired += 1
            else:
                raise failed
        elif bad_args:
            raise Violation("missing-exception", f"{name}: {f['kind']} accepted")
        elif book.fired and f["seam"] == "mv":
            raise Violation("fault-swallowed", f"{name}: {book.fired} vanished")
        del failed
        what = f"{name} ({'failed ' + str(f['kind']) if book.fired or bad_args else 'ok'})"
        self.see(what)
        if not self.conc:
            new = _config()
            diff = {k: (cfg.get(k), new.get(k)) for k in new if new[k] != cfg.get(k)}
            if diff:
                raise Violation("config-leak", f"after {what}: {diff}")
        if book.fired or bad_args:
            gc.collect()
            self.call({**op, "fault": None}, FaultBook(self.sim, []), name + " retry")
            self.see(name + " retry")
        self.checked += 1

    @staticmethod
    def bad_args(op):
        k = op["fault"]["kind"]
        if k == "nokey":
            return op["method"] == "lanczos" and not op["use_b"]
        return op["A"] != "matrix" and op["fn"] != "laplace"

    def call(self, op, book, name):
        from laplax.curv.cov import create_posterior_fn, estimate_curvature
        from laplax.curv.lanczos import lanczos_lowrank
        from laplax.curv.lobpcg import lobpcg_lowrank

        sim, session = self.sim, self.session
        r = np.random.default_rng(op["seed"])
        Q = np.linalg.qr(r.normal(size=(P, P)))[0]
        lam = np.array([9.0, 6.5, 4.5, 3.0, 2.0, 1.4, 1.0, 0.7, 0.5, 0.3, 0.2, 0.1])
        M = (Q * lam) @ Q.T
        M = (M + M.T) / 2
        inner64 = op["calc"] != "f32"
        calc = jnp.float32 if not inner64 else jnp.float64
        seen = []

        def matvec(v):
            seen.append(str(v.dtype))
            sim.log("mv", name, v.dtype, v.shape)
            book.hit("mv")
            if op["watch"] and len(seen) == 1:
                self.others(f"inside a product of {name}")
                if x64_enabled() != inner64:
                    raise Violation("precision-inside", f"{name}: x64 is "
                                    f"{x64_enabled()} inside the calculation")
            if op["nested"] and len(seen) <= 2:
                keep, self.session = self.session, x64_enabled()
                try:
                    self.call({**op["nested"], "fault": None}, book, "nested")
                finally:
                    self.session = keep
                if x64_enabled() != inner64:
                    raise Violation("precision-leak", f"nested call inside {name} left "
                                    f"x64={x64_enabled()}")
                self.sim.probe("nested")
            return jnp.asarray(M.astype(v.dtype)) @ v

        kw = {"rank": op["rank"], "mv_jit": op["mv_jit"]}
        if op["calc"] != "default":
            kw["calc_dtype"] = DT[op["calc"]]
        if op["mv"]:
            kw["mv_dtype"] = DT[op["mv"]]
        if op["ret"]:
            kw["return_dtype"] = DT[op["ret"]]
        bad = op["fault"] and op["fault"]["seam"] == "args" and self.bad_args(op) \
            and op["fault"]["kind"]
        key = jax.random.key(op["seed"] % 997)
        G, n = M, P
        if op["fn"] == "laplace":
            G, n = self.laplace_G(op)
        if op["method"] == "lanczos":
            kw["full_reorthogonalize"] = op["reorth"]
            if op["use_b"]:
                b = vec_for(n, op["seed"])
                kw["b"] = jnp.asarray(b)
            else:
                with enable_x64(inner64):
                    b = np.asarray(jax.random.normal(key, (n,), dtype=calc), np.float64)
                if bad != "nokey":
                    kw["key"] = key
        else:
            kw["key"] = key
        low = not inner64 or op["mv"] == "f32" or (op["mv"] is None and not session)
        if op["method"] == "lanczos":
            rk, _ = lanczos_rank(G, b, op["rank"], 5e-2 if low else 1e-3)
            kw["rank"] = rk
        layout = {"matrix": None, "flat": P, "tree": _trees(np.arange(P) * 1.0)}[op["A"]]
        if bad == "nolayout":
            layout = None
        post = None
        if op["fn"] in ("lanczos", "lobpcg"):
            fn = lanczos_lowrank if op["fn"] == "lanczos" else lobpcg_lowrank
            A = {"matrix": jnp.asarray(M), "flat": matvec,
                 "tree": lambda t: _trees(matvec(_flat(t)))}[op["A"]]
            t = fn(A, layout=layout, **kw)
        elif op["fn"] == "laplace":
            import laplax

            t = laplax.laplace(*self.laplace_args, curv_type=op["method"], loss_fn="mse",
                               **kw)[1]
        else:
            A = lambda t: _trees(matvec(_flat(t)))  # noqa: E731
            if op["fn"] == "estimate":
                t = estimate_curvature(op["method"], mv=A, layout=layout, **kw)
            else:
                post = create_posterior_fn(op["method"], mv=A, layout=layout, **kw)
                p = post({"prior_prec": 1.0}, 1.0)
                v = vec_for(P, op["seed"] + 1)
                got = np.asarray(_flat(p.cov_mv(p.state)(_trees(jnp.asarray(v)))))
                if op["method"] == "lanczos":
                    C = krylov(G, b, kw["rank"])[0]
                    check_close(f"{name}: covariance times vector", got,
                                np.linalg.solve(C + np.eye(P), v), 3e-2 if low or
                                not session or op["ret"] == "f32" else 1e-4)
                t = None
        if seen:
            if inner64 or op["mv"] == "f32":
                want = op["mv"] or ("f64" if session else "f32")
                if set(seen) != {str(np.dtype(DT[want]))}:
                    raise Violation("product-dtype", f"{name}: products were asked in "
                                    f"{sorted(set(seen))}, expected {want}")
        if t is None:
            return
        want = np.dtype(DT[op["ret"] or ("f64" if session else "f32")])
        for leaf, what in ((t.U, "U"), (t.S, "S"), (t.scalar, "scalar")):
            if np.dtype(leaf.dtype) != want:
                raise Violation("return-dtype",
                                f"{name}: {what} is {leaf.dtype}, expected {want}")
        outlow = low or want == np.float32
        if op["method"] == "lanczos":
            # A single-precision product reorthogonalises less accurately.
            check_close(f"{name}: U S U^T", lr_dense(t), krylov(G, b, kw["rank"])[0],
                        3e-2 if low else 1e-4 if outlow else 1e-6)
        else:
            U, S = np.asarray(t.U, np.float64), np.asarray(t.S, np.float64)
            rt = 3e-3 if outlow else 1e-6
            check_close(f"{name}: U^T U", U.T @ U, np.eye(U.shape[1]), rt, "bad-basis")
            ray = np.einsum("pr,pq,qr->r", U, G, U)
            check_close(f"{name}: Ritz values", S, ray, rt)

    def laplace_G(self, op):
        from ..zoo import Problem

        pr = Problem("mlp", 3, op["seed"] % 2**31, "mse")
        ld = SimLoader(self.sim, pr.X, pr.Y, {"sizes": [2, 1], "x64": self.session})
        ld.__class__ = _Gen
        self.laplace_args = (pr.model_fn, pr.params, ld)
        return pr.ggn(), pr.P


class _Gen(SimLoader):
    def __iter__(self):
        return self._gen()


def execute(sim: Sim, plan):
    tasks = [Task(sim, plan, t, i) for i, t in enumerate(plan["tasks"])]
    with global_x64(plan["x64"]), stderr_as(NullStream()):
        if len(tasks) == 1:
            tasks[0].run()
        else:
            sch = Scheduler(sim, plan["schedule"], line_level=True, pkg=f"{REPO}/laplax/")
            for t in tasks:
                sch.add(t.run)
            sim.sched = sch
            sch.run()
            for t in sch.tasks:
                if t.exc is not None:
                    raise t.exc
    fired = sum(t.fired for t in tasks)
    dtypes = {(op["calc"], op["mv"], op["ret"]) for t in plan["tasks"] for op in t["ops"]}
    return {
        "nontrivial": fired > 0 or bool(sim.sched and sim.sched.decisions)
        or any(t["ctx"] for t in plan["tasks"]),
        "state": [plan["x64"], [t["ctx"] for t in plan["tasks"]], sorted(map(str, dtypes)),
                  [[o["fn"], o["method"], o["A"]] for t in plan["tasks"] for o in t["ops"]]],
    }


def shrink(plan):
    ts = plan["tasks"]
    if len(ts) > 1:
        for k in range(len(ts)):
            yield {**plan, "tasks": [ts[k]], "schedule": None}
    for k, t in enumerate(ts):
        for j in range(len(t["ops"])):
            if len(t["ops"]) > 1:
                yield _with(plan, k, {**t, "ops": t["ops"][:j] + t["ops"][j + 1:]})
            o = t["ops"][j]
            for key, v in (("nested", None), ("watch", False), ("fault", None), ("mv", None),
                           ("ret", None), ("calc", "default"), ("A", "flat"), ("rank", 1)):
                if o.get(key) != v and not (key == "mv" and o["calc"] == "f32"):
                    yield _with(plan, k, {**t, "ops": [*t["ops"][:j], {**o, key: v},
                                                       *t["ops"][j + 1:]]})
        for j in range(len(t["ctx"])):
            yield _with(plan, k, {**t, "ctx": t["ctx"][:j] + t["ctx"][j + 1:]})


def _with(plan, k, t):
    ts = list(plan["tasks"])
    ts[k] = t
    return {**plan, "tasks": ts}
