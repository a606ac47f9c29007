"""C13 - transforming an operator composes and leaves the original alone."""

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FAULT_TYPES, FaultBook, NullStream, Sim, Violation, caused_by_sim,
    check_close, gen_problem, global_x64, jax, jnp, lanczos_rank, loader_spec,
    lr_dense, make_loader, np, problem, stderr_as, vec_for,
)
from ..core import REPO, Scheduler, random_mode

EXC = [k for k in FAULT_TYPES if k != "stopiter"]
SEAMS = ("next", "next", "mv", "transform", "reduce", "in", "out", "iter")


# -- plans: a tree of operators -----------------------------------------------------------


def gen_base(rng, pr):
    form = rng.choice(["stream", "stream", "stream", "api", "whole", "matrix"])
    red = rng.choice(["add", "add", "add", "avg"]) if form == "stream" else "add"
    ld = loader_spec(rng, pr["n"], batch=rng.choice(["tuple", "list", "dict", "raw"]))
    if red == "avg":  # averages over batches: their number has to stay
        ld["resplit"] = False
    return {"form": form, "flat": form == "matrix", "loader": ld, "reduce": red}


def gen_wrap(rng, nodes):
    j = rng.randrange(len(nodes))
    return {
        "parent": j, "kind": rng.choice(
            ["congruence", "congruence", "in", "out", "both", "none", "nonlinear-out",
             "nonlinear-in", "rect"]),
        "seed": rng.getrandbits(16), "via": rng.choice(["wrap", "wrap", "factory"]),
        "to_flat": rng.random() < 0.6,
    }


def gen_use(rng, k):
    u = {"node": rng.randrange(k), "how": rng.choice(
        ["call", "call", "call", "dense", "dense", "diagonal", "diagonal", "full",
         "lanczos", "posterior", "jit", "twice"]), "seed": rng.getrandbits(16),
        "chunk": rng.choice([None, None, 1, 2, 3]), "fault": None}
    if rng.random() < 0.25:
        u["fault"] = {"seam": rng.choice(SEAMS), "at": rng.randint(1, 4),
                      "kind": rng.choice(EXC)}
    return u


def generate(rng, i, tier):
    pr = gen_problem(rng, big=0.04, big_n=24, n_lo=2, n_hi=6, vmap_choice=False,
                     models=("mlp", "lin", "list", "vec"),
                     losses=("mse", "cross_entropy", "custom"))
    bases = [gen_base(rng, pr) for _ in range(rng.choice([1, 1, 2]))]
    nodes = list(bases)
    for _ in range(rng.randint(1, 5)):
        nodes.append(gen_wrap(rng, nodes))
    nt = rng.choice([1, 1, 1, 2, 3])
    return {
        "problem": pr, "x64": rng.random() < 0.6, "nodes": nodes, "nt": nt,
        "late": rng.random() < 0.5,
        "tasks": [[gen_use(rng, len(nodes)) for _ in range(rng.randint(2, 5) if nt == 1
                                                          else rng.randint(1, 2))]
                  for _ in range(nt)],
        "schedule": random_mode(rng, nt),
        "multi": {"seed": rng.getrandbits(16), "wraps": [
            {"arg": rng.randrange(3), "in": rng.random() < 0.8, "out": rng.random() < 0.8,
             "kw": rng.random() < 0.5} for _ in range(rng.randint(1, 3))],
            "factory": rng.random() < 0.4, "fault": rng.random() < 0.3}
        if rng.random() < 0.5 else None,
    }


def check_multi(sim, m, tol):
    """Functions of several arguments: one of them is transformed."""
    from laplax.util.flatten import wrap_factory, wrap_function

    r = np.random.default_rng(m["seed"])
    calls, boom = [], {"left": 1 if m["fault"] else 0}

    def base(a, b, c, *, scale=1.0, shift=0.0):
        calls.append("f")
        if boom["left"]:
            boom["left"] = 0
            sim.fired("mv:runtime")
            raise FAULT_TYPES["runtime"]("injected runtime at mv")
        return scale * (a * 2 + b * c) + shift

    def factory(u, *, k):
        calls.append("make")
        return lambda a, b, c, **kw: base(a + u, b, c + k, **kw)

    op = base
    chain = []
    for j, w in enumerate(m["wraps"]):
        ci, co = r.integers(1, 5, 2) / 2.0

        def fi(v, j=j, ci=ci):
            calls.append(f"i{j}")
            return v * ci + j

        def fo(v, j=j, co=co):
            calls.append(f"o{j}")
            return v * co - j

        arg = w["arg"]
        if m["factory"] and j == 0:
            arg = 0
            op = wrap_factory(factory, fi if w["in"] else None,
                              output_fn=fo if w["out"] else None)(0.25, k=0.5)
        elif arg == 0 and w["kw"]:
            op = wrap_function(op, fi if w["in"] else None, fo if w["out"] else None)
        else:
            op = wrap_function(op, input_fn=fi if w["in"] else None,
                               output_fn=fo if w["out"] else None, argnums=arg)
        chain.append((arg, ci if w["in"] else None, co if w["out"] else None, j))
    x = [jnp.asarray(r.integers(-8, 9, 4) / 4.0) for _ in range(3)]
    kw = {"scale": 1.5, "shift": 0.5} if m["seed"] % 2 else {}
    if m["fault"]:
        try:
            op(*x, **kw)
        except FAULT_TYPES["runtime"]:
            sim.probe("retried")
        else:
            raise Violation("fault-swallowed", "function of several arguments")
    calls.clear()
    got = op(*x, **kw)
    y = [np.asarray(v, dtype=np.float64) for v in x]
    want = []
    for arg, ci, _, j in reversed(chain):
        if ci is not None:
            y[arg] = y[arg] * ci + j
            want.append(f"i{j}")
    if m["factory"]:
        y[0], y[2] = y[0] + 0.25, y[2] + 0.5
    want.append("f")
    z = kw.get("scale", 1.0) * (y[0] * 2 + y[1] * y[2]) + kw.get("shift", 0.0)
    for _, _, co, j in chain:
        if co is not None:
            z = z * co - j
            want.append(f"o{j}")
    check_close("function of several arguments", got, z, tol, "not-composed")
    if calls != want:
        raise Violation("not-composed", f"calls {calls}, expected {want}")
    sim.probe("multi")


# -- operators ---------------------------------------------------------------------------


def lin_map(seed, m, n=None):
    """A well-conditioned matrix with entries exact in float32."""
    r = np.random.default_rng(seed)
    n = n or m
    if n == m and seed % 2:
        M = np.zeros((m, m))
        M[np.arange(m), r.permutation(m)] = r.choice([-2.0, -1.0, 0.5, 1.0, 2.0], m)
        return M
    M = r.integers(-4, 5, (m, n)) / 4.0
    for k in range(min(m, n)):
        M[k, k] += 2.0
    return M


class Node:
    """An operator of the code under test with its numpy meaning."""

    def __init__(self, op, ref, n_in, n_out, tree_in, tree_out, linear, sym, book,
                 parent=None, streamed=False, pure=False):
        self.op, self.ref = op, ref
        self.n_in, self.n_out = n_in, n_out
        self.tree_in, self.tree_out = tree_in, tree_out
        self.linear, self.sym, self.book = linear, sym, book
        self.parent, self.streamed, self.pure = parent, streamed, pure


class World:
    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.pr = problem(plan["problem"])
        self.G = self.pr.ggn() / self.pr.factor
        self.book = {}
        self.nodes = []
        self.specs = plan["nodes"]

    def grow(self, upto):
        while len(self.nodes) < upto:
            s = self.specs[len(self.nodes)]
            n = self.wrap(s) if "parent" in s else self.base(s)
            self.nodes.append(n)

    # a base operator on trees (or a flat matrix product)
    def base(self, s):
        from laplax.api import GGN
        from laplax.curv.ggn import create_ggn_mv_without_data
        from laplax.util.loader import DataLoaderMV, reduce_add

        pr, sim = self.pr, self.sim
        w = self
        params = pr.params

        class Book:  # whichever use is running decides
            sim = self.sim
            armed = True
            fired = []

            def hit(self, seam):
                b = w.book.get(current(sim))
                if b is not None:
                    b.hit(seam)
                else:
                    sim.point(seam)

            def nan_now(self, seam):
                return False

        book = Book()
        G, P = self.G, pr.P
        mv = create_ggn_mv_without_data(
            model_fn=pr.model_fn, params=params, loss_fn=pr.loss_fn(), factor=1.0,
            vmap_over_data=True)
        X = jnp.asarray(pr.X, dtype=float)
        Y = jnp.asarray(pr.Y, dtype=float)
        spec = {**s["loader"], "x64": self.plan["x64"]}
        k = len(s["loader"]["sizes"])
        if s["form"] == "matrix":
            M = jnp.asarray(G, dtype=float)
            return Node(lambda v: M @ v, lambda v: G @ v, P, P, False, False, True, True,
                        book, pure=True)
        if s["form"] == "whole":
            data = {"input": X, "target": Y}
            return Node(lambda vec: mv(vec, data), lambda v: G @ v, P, P, True, True,
                        True, True, book, pure=True)
        ld = make_loader(sim, pr.X, pr.Y, spec, book)
        if s["form"] == "api":
            if spec["batch"] == "raw":
                ld.spec = {**spec, "batch": "tuple"}
            op = GGN(pr.model_fn, params, ld, pr.loss_fn(), verbose_logging=False)
            return Node(op, lambda v: G @ v, P, P, True, True, True, True, book,
                        streamed=True)

        def batch_mv(vec, data):
            book.hit("mv")
            return mv(vec, data)

        def transform(b):
            book.hit("transform")
            if isinstance(b, dict):
                return {"input": b["input"], "target": b["target"]}
            if len(b) == 3:
                return {"input": b[2], "target": b[1]}
            return {"input": b[0], "target": b[1]}

        def avg(new, state=None):
            """Average of the batches' results."""
            book.hit("reduce")
            c, t = (0, None) if state is None else state
            t = new if t is None else jax.tree.map(jnp.add, t, new)
            return jax.tree.map(lambda x: x / (c + 1), t), (c + 1, t)

        def add(new, state=None):
            book.hit("reduce")
            return reduce_add(new, state)

        f = 1.0 / k if s["reduce"] == "avg" else 1.0
        op = DataLoaderMV(batch_mv, ld, transform,
                          avg if s["reduce"] == "avg" else add)
        return Node(op, lambda v: f * (G @ v), P, P, True, True, True, True, book,
                    streamed=True)

    def wrap(self, s):
        from laplax.util.flatten import (
            create_pytree_flattener, wrap_factory, wrap_function,
        )

        p = self.nodes[s["parent"]]
        book = p.book
        flat, unflat = create_pytree_flattener(self.pr.params)
        kind, seed = s["kind"], s["seed"]
        n_in, n_out = p.n_in, p.n_out
        A = B = None  # numpy maps on the input and on the output
        if kind == "congruence":
            A = lin_map(seed, n_in)
            B = A.T if n_in == n_out and p.tree_in == p.tree_out else None
        elif kind in ("in", "both"):
            A = lin_map(seed, n_in)
        if kind in ("out", "both"):
            B = lin_map(seed + 1, n_out)
        if kind == "rect":
            A = lin_map(seed, n_in, max(1, n_in - 1 - seed % 2))
            B = lin_map(seed + 1, 1 + seed % 3, n_out)
        go_flat_in = p.tree_in and (s["to_flat"] or kind == "rect")
        go_flat_out = p.tree_out and (s["to_flat"] or kind == "rect")
        nl = {"nonlinear-in": "in", "nonlinear-out": "out"}.get(kind)

        Aj = None if A is None else jnp.asarray(A, dtype=float)
        Bj = None if B is None else jnp.asarray(B, dtype=float)

        def j_in(v):
            book.hit("in")
            if nl == "in":
                v = jax.tree.map(jnp.tanh, v)
            if A is not None:
                if p.tree_in and not go_flat_in:
                    return unflat(Aj @ flat(v))
                v = Aj @ v
            return unflat(v) if go_flat_in else v

        def j_out(v):
            book.hit("out")
            if go_flat_out:
                v = flat(v)
            if B is not None:
                v = unflat(Bj @ flat(v)) if p.tree_out and not go_flat_out else Bj @ v
            if nl == "out":
                v = jax.tree.map(lambda x: jnp.tanh(x) + 0.5, v)
            return v

        need_in = A is not None or go_flat_in or nl == "in"
        need_out = B is not None or go_flat_out or nl == "out"
        fi = j_in if need_in else None
        fo = j_out if need_out else None
        if s["via"] == "factory":
            op = wrap_factory(lambda state: state["op"], fi, fo)({"op": p.op})
        else:
            op = wrap_function(p.op, input_fn=fi, output_fn=fo)

        def ref(v):
            if nl == "in":
                v = np.tanh(v)
            v = p.ref(A @ v if A is not None else v)
            v = B @ v if B is not None else v
            return np.tanh(v) + 0.5 if nl == "out" else v

        return Node(op, ref, A.shape[1] if A is not None else n_in,
                    B.shape[0] if B is not None else n_out,
                    p.tree_in and not go_flat_in, p.tree_out and not go_flat_out,
                    p.linear and nl is None,
                    p.sym and kind in ("congruence", "none"), book, parent=p,
                    streamed=p.streamed, pure=p.pure)


def current(sim):
    return sim.sched.cur if getattr(sim, "sched", None) is not None else 0


def matrix(n):
    return np.stack([n.ref(e) for e in np.eye(n.n_in)], 1)


def use(W, u, tol):
    """One use of one operator -> (got, expected, tolerance)."""
    from laplax.curv.cov import estimate_curvature, set_posterior_fn
    from laplax.util.mv import diagonal, to_dense

    n = W.nodes[u["node"] % len(W.nodes)]
    how = u["how"]
    square = n.n_in == n.n_out and n.tree_in == n.tree_out
    if not n.linear or (not square and how not in ("dense", "call", "twice", "jit")):
        how = "call" if how not in ("twice",) else how
    if how == "dense" and (n.tree_in or n.tree_out):
        how = "diagonal" if square else "call"
    if how in ("lanczos", "posterior") and not n.sym:
        how = "diagonal"
    if how == "jit" and not n.pure:
        how = "call"
    layout = W.pr.params if n.tree_in else n.n_in
    v = vec_for(n.n_in, u["seed"]) / 4.0
    # The values are on a coarse grid, tanh and products are not.
    arg = W.pr.tree(v) if n.tree_in else jnp.asarray(v, dtype=float)

    def out(r):
        return W.pr.flat(r) if n.tree_out else np.asarray(r, dtype=np.float64)

    W.sim.probe(f"how:{how}")
    if how in ("call", "twice", "jit"):
        f = jax.jit(n.op) if how == "jit" else n.op
        r = out(f(arg))
        if how == "twice":
            r = out(f(arg))
        return how, r, n.ref(v), tol
    M = matrix(n)
    if how == "dense":
        kw = {"to_dense_batch_size": u["chunk"]} if u["chunk"] else {}
        return how, np.asarray(to_dense(n.op, layout, **kw)), M, tol
    if how == "diagonal":
        kw = {"diagonal_batch_size": u["chunk"]} if u["chunk"] else {}
        return how, np.asarray(diagonal(n.op, layout, **kw)), np.diag(M), tol
    if how == "full":
        return how, np.asarray(estimate_curvature("full", n.op, layout=layout)), M, tol
    scale = np.abs(M).max()
    if how == "lanczos":
        b = vec_for(n.n_in, u["seed"] + 1)
        r, K = lanczos_rank(M, b, 2, 1e-3 if W.plan["x64"] else 5e-2)
        t = estimate_curvature("lanczos", n.op, layout=layout, rank=r, b=jnp.asarray(b),
                               mv_jit=False)
        return how, lr_dense(t), K, 1e-5 if W.plan["x64"] else 5e-2
    prior = float(max(0.5, 2.0 ** np.round(np.log2(scale + 1e-9)) / 8))
    p = set_posterior_fn(
        "full", estimate_curvature("full", n.op, layout=layout), layout=layout)(
            {"prior_prec": prior})
    cov = np.linalg.inv(M + prior * np.eye(n.n_in))
    t = tol if W.plan["x64"] else 2e-2
    return how, out(p.cov_mv(p.state)(arg)), cov @ v, t


def perform(W, u, sim, label):
    tol = 1e-8 if W.plan["x64"] else 2e-3
    me = current(sim)
    book = FaultBook(sim, [u["fault"]] if u["fault"] else None)
    W.book[me] = book
    sim.log("use", u["node"], u["how"])
    try:
        how, got, ref, t = use(W, u, tol)
    except BaseException as e:
        if isinstance(e, Violation) or not book.fired or not (
                isinstance(e, ALL_SIM) or caused_by_sim(e)):
            raise
        sim.probe("fault-hit")
        book.armed = False
        how, got, ref, t = use(W, u, tol)
        sim.probe("retried")
    else:
        if book.fired:
            raise Violation("fault-swallowed", f"{u['how']}: {book.fired}")
    finally:
        W.book[me] = None
    check_close(f"{label} {how} of operator {u['node']}", got, ref, t, "not-composed")


def execute(sim: Sim, plan):
    with global_x64(plan["x64"]), stderr_as(NullStream()):
        if plan["multi"]:
            check_multi(sim, plan["multi"], 1e-8 if plan["x64"] else 1e-4)
        W = World(sim, plan)
        nb = sum("parent" not in s for s in plan["nodes"])
        W.grow(nb if plan["late"] and plan["nt"] == 1 else len(plan["nodes"]))
        before = [(j, vec_for(W.nodes[j].n_in, 9)) for j in range(nb)]

        def task(ops):
            for u in ops:
                if len(W.nodes) < len(plan["nodes"]):
                    W.grow(len(W.nodes) + 1)
                perform(W, u, sim, "use:")

        if len(plan["tasks"]) == 1:
            task(plan["tasks"][0])
        else:
            sch = Scheduler(sim, plan["schedule"], line_level=True,
                            pkg=f"{REPO}/laplax/")
            for ops in plan["tasks"]:
                sch.add(lambda ops=ops: task(ops))
            sim.sched = sch
            sch.run()
            sim.sched = None
            for t in sch.tasks:
                if t.exc is not None:
                    raise t.exc
        # Whatever was derived from them, all operators mean what they meant.
        W.grow(len(plan["nodes"]))
        for j, v in before:
            perform(W, {"node": j, "how": "call", "seed": 9, "chunk": None,
                        "fault": None}, sim, "original afterwards:")
        for j in range(len(W.nodes)):
            perform(W, {"node": j, "how": "diagonal", "seed": 11 + j, "chunk": None,
                        "fault": None}, sim, "afterwards:")
        if len(plan["tasks"]) > 1:
            sim.sched = sch
    return {
        "nontrivial": any(n.streamed for n in W.nodes) and len(W.nodes) > 1,
        "state": [[(s.get("form"), s.get("kind"), s.get("parent"), s.get("to_flat"))
                   for s in plan["nodes"]],
                  [[(u["node"], u["how"]) for u in t] for t in plan["tasks"]]],
    }


def shrink(plan):
    ts = plan["tasks"]
    if plan["multi"]:
        yield {**plan, "multi": None}
    if len(ts) > 1:
        for k in range(len(ts)):
            yield {**plan, "tasks": ts[:k] + ts[k + 1:], "nt": len(ts) - 1}
    for k, t in enumerate(ts):
        for j, u in enumerate(t):
            if len(t) > 1:
                yield {**plan, "tasks": [*ts[:k], t[:j] + t[j + 1:], *ts[k + 1:]]}
            if u["fault"]:
                yield {**plan, "tasks": [*ts[:k], [*t[:j], {**u, "fault": None},
                                                  *t[j + 1:]], *ts[k + 1:]]}
    last = len(plan["nodes"]) - 1
    if last > 0 and not any(s.get("parent") == last for s in plan["nodes"]) and \
            "parent" in plan["nodes"][last]:
        yield {**plan, "nodes": plan["nodes"][:-1]}
