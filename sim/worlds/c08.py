"""C08 - samples are a pure function of key and index, and truly posterior samples."""

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FaultBook, NullStream, Sim, Violation, check_close, gen_problem,
    global_x64, jax, jnp, lr_dense, np, problem, random, stderr_as,
)
from ..core import REPO, Scheduler, random_mode

PUSH = {"linear": ["samples", "pred_mean", "mc"], "nonlinear": ["samples", "pred_mean", "mc"]}


def gen_op(rng, n, ns):
    u = rng.random()
    knobs = {}
    if rng.random() < 0.6:
        knobs["precompute"] = rng.choice([True, False])
    if rng.random() < 0.5:
        knobs["batch"] = rng.choice([1, 2, 3, ns, ns + 2])
    if u < 0.42:
        idx = [rng.randrange(ns) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.4:  # how many samples there are is no matter either
            knobs["count"] = rng.choice([ns + 1, 9, 33, 70, 130, 260])
        return {"op": "weights", "knobs": knobs, "idx": idx,
                "how": rng.choice(["eager", "eager", "jit", "vmap", "map", "neg"])}
    if u < 0.76:
        return {"op": "push", "pf": rng.choice(["linear", "nonlinear"]), "knobs": knobs,
                "xs": [rng.randrange(n) for _ in range(rng.randint(1, 3))],
                "how": rng.choice(["eager", "jit", "vmap"]),
                "fault": {"seam": "model", "at": rng.randint(1, 4), "kind": rng.choice(
                    ["runtime", "oom", "interrupt", "crash", "value"])}
                if rng.random() < 0.3 else None}
    if u < 0.88:
        return {"op": "noise", "seed": rng.getrandbits(31)}
    return {"op": "api", "pf": rng.choice(["linear", "nonlinear"]),
            "jit": rng.random() < 0.5, "knobs": knobs}


def generate(rng, i, tier):
    pr = gen_problem(rng, big=0.04, big_n=24, n_lo=3, n_hi=6, vmap_choice=False,
                     losses=("mse", "mse", "cross_entropy", "none"))
    ns = rng.choice([2, 4, 6])
    nt = rng.choice([1, 1, 1, 2])
    return {
        "problem": pr, "x64": rng.random() < 0.6, "ns": ns,
        "curv": rng.choice(["full", "diagonal", "full", "full", "lanczos"]),
        "prior": rng.choice([0.5, 1.0, 4.0]), "key": rng.choice([0, 1, rng.getrandbits(31)]),
        "keykind": rng.choice(["new", "new", "old"]), "nt": nt,
        "tasks": [[gen_op(rng, pr["n"], ns) for _ in range(rng.randint(3, 6) // nt + 1)]
                  for _ in range(nt)],
        "stats": rng.random() < 0.4, "schedule": random_mode(rng, nt),
    }


def mkkey(kind, seed):
    return jax.random.key(seed) if kind == "new" else jax.random.PRNGKey(seed)


class World:
    def __init__(self, sim, plan):
        import laplax

        self.sim, self.plan = sim, plan
        pr = self.pr = problem(plan["problem"])
        self.x64 = plan["x64"]
        self.params = pr.params
        X = jnp.asarray(pr.X, dtype=float)
        Y = jnp.asarray(pr.Y, dtype=float)
        self.X = X
        self.posterior_fn, self.est = laplax.laplace(
            pr.model_fn, self.params, (X, Y), loss_fn=pr.loss_fn(),
            curv_type=plan["curv"], **({"rank": 2, "key": jax.random.key(7)}
                                          if plan["curv"] == "lanczos" else {}))
        self.prior = {"prior_prec": plan["prior"]}
        self.post = self.posterior_fn(self.prior, 1.0)
        self.ns = plan["ns"]
        self.mean = pr.flat(self.params)
        sc = self.post.scale_mv(self.post.state)
        self.S = np.stack([pr.flat(sc(pr.tree(e))) for e in np.eye(pr.P)], 1)
        self.check_scale()
        self.W = np.stack(self.weights(range(self.ns), {}, "eager"))
        self.tol = 1e-8 if self.x64 else 2e-3

    def check_scale(self):
        G = self.pr.ggn() / self.pr.factor
        if self.plan["curv"] == "lanczos":
            G = lr_dense(self.est)
        prec = (np.diag(np.diag(G)) if self.plan["curv"] == "diagonal" else G) \
            + self.plan["prior"] * np.eye(self.pr.P)
        cov = np.linalg.inv(prec)
        check_close("scale of the samples", self.S @ self.S.T, cov,
                    1e-7 if self.x64 else 1e-2, "wrong-distribution")

    def sampler(self, knobs, key=None, ns=None, mean=None):
        from laplax.eval.pushforward import set_get_weight_sample

        kw = {}
        if "precompute" in knobs:
            kw["set_get_weight_sample_precompute"] = knobs["precompute"]
        if "batch" in knobs:
            kw["precompute_list_batch_size"] = knobs["batch"]
        if key is None:
            key = mkkey(self.plan["keykind"], self.plan["key"])
        return set_get_weight_sample(
            key, mean_params=self.params if mean is None else mean,
            scale_mv=self.post.scale_mv(self.post.state),
            num_samples=ns or self.ns, **kw)

    def weights(self, idx, knobs, how):
        get = self.sampler(knobs, ns=max(self.ns, knobs.get("count", 0)))
        if how == "jit":
            get = jax.jit(get)
        if how in ("vmap", "map"):
            ii = jnp.asarray(list(idx))
            t = jax.vmap(get)(ii) if how == "vmap" else jax.lax.map(get, ii)
            return [self.pr.flat(jax.tree.map(lambda l: l[j], t))
                    for j in range(len(ii))]
        out = []
        for i in idx:
            self.sim.point("draw")
            out.append(self.pr.flat(get(i)))
        return out

    # -- operations ------------------------------------------------------------------

    def do_weights(self, op):
        got = self.weights(op["idx"], op["knobs"], "eager" if op["how"] == "neg"
                           else op["how"])
        for i, w in zip(op["idx"], got):
            check_close(f"weight sample {i} ({op['how']}, {op['knobs']})", w, self.W[i],
                        self.tol, "impure-sample")
        self.sim.probe(f"weights:{op['how']}")

    def predictive(self, op, book):
        from laplax.eval import pushforward as pf

        lin = op["pf"] == "linear"
        kn = op["knobs"]
        kw = {}
        if "precompute" in kn:
            kw["set_get_weight_sample_precompute"] = kn["precompute"]
        if "batch" in kn:
            kw["weight_batch_size"] = kn["batch"]
        fns = [pf.lin_setup, pf.lin_pred_mean, pf.lin_samples, pf.lin_mc_pred_act] \
            if lin else [pf.nonlin_setup, pf.nonlin_pred_mean,
                         pf.nonlin_samples, pf.nonlin_mc_pred_act]
        setp = pf.set_lin_pushforward if lin else pf.set_nonlin_pushforward
        return setp(
            model_fn=self.pr.make_model_fn(lambda: book.hit("model")),
            mean_params=self.params, posterior_fn=self.posterior_fn,
            prior_arguments=self.prior, pushforward_fns=fns,
            key=mkkey(self.plan["keykind"], self.plan["key"]), num_samples=self.ns, **kw)

    def expect(self, pfk, x):
        pr = self.pr
        f0 = pr.forward(x)
        if pfk == "linear":
            J = pr.jac(x)
            s = f0 + (self.W - self.mean) @ J.T
            mean = f0
        else:
            s = np.stack([pr._np_fwd(x, w) for w in self.W])  # noqa: SLF001
            mean = s.mean(0)
        k = s if pfk == "linear" else s[:5]  # the non-linear bridge uses five at most
        e = np.exp(k - k.max(1, keepdims=True))
        return {"samples": s if pfk == "linear" else s[:5], "pred_mean": mean,
                "mc_pred_act": (e / e.sum(1, keepdims=True)).mean(0), "all": s}

    def do_push(self, op):
        book = FaultBook(self.sim, [op["fault"]] if op["fault"] else None)
        res = None
        for attempt in range(3):
            try:
                pred = self.predictive(op, book)
                xs = jnp.stack([self.X[j] for j in op["xs"]])
                if op["how"] == "vmap":
                    r = jax.vmap(pred)(xs)
                    res = [jax.tree.map(lambda l, j=j: l[j], r)
                           for j in range(len(op["xs"]))]
                else:
                    f = jax.jit(pred) if op["how"] == "jit" else pred
                    res = []
                    for x in xs:
                        self.sim.point("predict")
                        res.append(f(x))
                break
            except ALL_SIM:
                if not book.fired or attempt:
                    raise Violation("fault-crossed-over", "second attempt failed") \
                        from None
                self.sim.probe("retried")
        if book.fired and not attempt:
            raise Violation("fault-swallowed", f"{book.fired}")
        for j, r in zip(op["xs"], res):
            ref = self.expect(op["pf"], self.pr.X[j])
            for k in ("samples", "pred_mean", "mc_pred_act"):
                check_close(f"{op['pf']} {k} at point {j} ({op['how']}, {op['knobs']})",
                            r[k], ref[k], 10 * self.tol, "incoherent-samples")
        self.sim.probe(f"push:{op['pf']}")

    def do_noise(self, op):
        """Unrelated randomness in the same process."""
        rng = np.random.default_rng(op["seed"])
        np.random.seed(op["seed"] % 2**31)  # noqa: NPY002
        np.random.rand(3)  # noqa: NPY002
        state = random.getstate()
        random.seed(op["seed"])
        random.random()
        random.setstate(state)
        jax.random.normal(mkkey(self.plan["keykind"], self.plan["key"]), (3,))
        other = mkkey(self.plan["keykind"], (self.plan["key"] + 1 + op["seed"] % 7) % 2**31)
        w = self.pr.flat(self.sampler({"precompute": bool(op["seed"] & 1)}, key=other)(0))
        if np.allclose(w, self.W, rtol=1e-3, atol=1e-5).any() if w.ndim > 1 else any(
                np.allclose(w, v, rtol=1e-3, atol=1e-5) for v in self.W):
            raise Violation("repeated-sample", "two keys give the same sample")
        del rng
        self.sim.probe("noise")

    def do_api(self, op):
        """The key given to `evaluation` decides the samples it uses."""
        import laplax
        from laplax.eval.utils import transfer_entry

        out = []
        ns = self.ns
        # `evaluation` forwards its own key; samples show in the Monte Carlo predictive.
        cls = self.pr.out > 1
        pt = "mc_bridge" if cls else "none"
        keys = ["map", "pred_mean"] + (["pred_act"] if cls else [])
        for _ in range(2):
            r, _u = laplax.evaluation(
                self.posterior_fn, self.pr.model_fn, self.params, self.prior,
                (self.X, jnp.zeros(len(self.X), dtype=int) if cls
                 else jnp.asarray(self.pr.Y, dtype=float)),
                metrics=[transfer_entry(keys)], predictive_type=pt,
                pushforward_type=op["pf"],
                sample_key=mkkey(self.plan["keykind"], self.plan["key"]),
                num_samples=ns, predictive_jit=op["jit"])
            out.append(r)
        for j in range(len(self.X)):
            ref = self.expect(op["pf"], self.pr.X[j])
            for r in out:
                check_close(f"evaluation pred_mean {j}", r["pred_mean"][j],
                            ref["pred_mean"], 10 * self.tol, "incoherent-samples")
                if cls:
                    check_close(f"evaluation pred_act {j}", r["pred_act"][j],
                                ref["mc_pred_act"], 10 * self.tol, "incoherent-samples")
        self.sim.probe(f"api:{op['pf']}")

    def run(self, op):
        getattr(self, "do_" + op["op"])(op)

    # -- distribution --------------------------------------------------------------

    def stats(self):
        pr, N = self.pr, 1500
        Sinv = np.linalg.inv(self.S)
        eps = []
        for k in (0, 1):
            key = mkkey(self.plan["keykind"], (self.plan["key"] + 17 * k) % 2**31)
            get = self.sampler({"precompute": False}, key=key, ns=N)
            t = jax.vmap(get)(jnp.arange(N))
            w = np.concatenate([np.asarray(l, dtype=np.float64).reshape(N, -1)
                                for l in jax.tree.leaves(t)], 1)
            eps.append((w - self.mean) @ Sinv.T)
        e = eps[0]
        z = 7.0
        P = pr.P

        def bad(what, val, lim):
            if not np.all(np.abs(val) < lim):
                raise Violation("wrong-distribution",
                                f"{what}: {np.max(np.abs(val)):.3g} (limit {lim:.3g})")

        bad("mean of the whitened samples", e.mean(0), z / np.sqrt(N))
        C = e.T @ e / N
        bad("correlation between parameters", C - np.diag(np.diag(C)), z / np.sqrt(N))
        bad("variance of the whitened samples", np.diag(C) - 1, z * np.sqrt(2 / N))
        bad("fourth moment", (e**4).mean() - 3, z * np.sqrt(96 / (N * P)))
        bad("skewness", (e**3).mean(), z * np.sqrt(15 / (N * P)))
        bad("correlation of successive samples", (e[1:] * e[:-1]).mean(),
            z / np.sqrt(N * P))
        bad("correlation of two keys", (e * eps[1]).mean(), z / np.sqrt(N * P))
        first = eps[0][:len(self.W)] @ self.S.T + self.mean
        check_close(f"the first of {N} samples", first, self.W, 10 * self.tol,
                    "impure-sample")
        if len(np.unique(np.round(e, 4), axis=0)) < N:
            raise Violation("repeated-sample", "two indices give the same sample")
        self.sim.probe("stats")


def execute(sim: Sim, plan):
    with global_x64(plan["x64"]), stderr_as(NullStream()):
        np_state = np.random.get_state()  # noqa: NPY002
        try:
            W = World(sim, plan)
            for i in range(W.ns):
                for j in range(i):
                    if np.allclose(W.W[i], W.W[j], rtol=1e-3, atol=1e-6):
                        raise Violation("repeated-sample", f"samples {i} and {j} agree")
            if len(plan["tasks"]) == 1:
                for op in plan["tasks"][0]:
                    sim.log("op", op["op"])
                    W.run(op)
            else:
                sch = Scheduler(sim, plan["schedule"], line_level=True,
                                pkg=f"{REPO}/laplax/")
                for ops in plan["tasks"]:
                    sch.add(lambda ops=ops: [W.run(o) for o in ops])
                sim.sched = sch
                sch.run()
                for t in sch.tasks:
                    if t.exc is not None:
                        raise t.exc
            # Whatever happened in between, the first sampler still answers the same.
            again = np.stack(W.weights(range(W.ns), {}, "eager"))
            check_close("weight samples at the end", again, W.W, W.tol, "impure-sample")
            if plan["stats"]:
                W.stats()
        finally:
            np.random.set_state(np_state)  # noqa: NPY002
    kinds = {o["op"] for t in plan["tasks"] for o in t}
    return {"nontrivial": len(kinds) > 1 or plan["stats"],
            "state": [sorted(kinds), plan["curv"], plan["stats"]],
            "values": [float(x) for x in W.W.ravel()[:24]]}


def shrink(plan):
    ts = plan["tasks"]
    if plan["stats"]:
        yield {**plan, "stats": False}
    if len(ts) > 1:
        for k in range(len(ts)):
            yield {**plan, "tasks": ts[:k] + ts[k + 1:]}
    for k, t in enumerate(ts):
        for j in range(len(t)):
            if len(t) > 1 or len(ts) > 1:
                yield {**plan, "tasks": [*ts[:k], t[:j] + t[j + 1:], *ts[k + 1:]]}
