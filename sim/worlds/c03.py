"""C03 - streaming reductions are exact on every prefix, for every split.

Several folds (one per simulated worker) run interleaved step by step.  A worker
may crash between two steps and resume from the state it last persisted (a pickle
of the state only); the model is numpy on the concatenated prefix.
"""

import pickle

from ..core import SimCrash

from .common import *  # noqa: F403
from .common import (
    FaultBook, NullStream, Sim, Violation, enable_x64, jax, jnp, np,
    partition, stderr_as,
)

REDS = ("sum", "sum_nokeep", "sum_axis1", "add", "concat", "concat_axis1", "mean")
TREES = ("array", "dict", "nested", "tuple", "scalar", "ragged")


def generate(rng, i, tier):
    folds = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        red = rng.choice(REDS)
        tree = rng.choice(TREES)
        if tree == "scalar" and red not in ("add", "mean"):
            tree = "dict"
        n = rng.randint(1, 12) if rng.random() < 0.94 else rng.randint(20, 70)
        sizes = partition(rng, n, 6)
        if rng.random() < 0.3 and red != "add":
            sizes.insert(rng.randrange(len(sizes) + 1), 0)
        if rng.random() < 0.1:  # batches of hundreds of rows
            z = rng.choice([23, 90, 300, 401])
            sizes = [x * z for x in sizes]
        dtype = rng.choice(["float32", "float32", "int32", "float64"])
        if red != "add" and rng.random() < 0.2:  # images: sums need a wider type
            dtype = rng.choice(["uint8", "int8"])
        folds.append({
            "red": red, "tree": tree, "sizes": sizes, "seed": rng.getrandbits(31),
            "dtype": dtype,
            "np_in": rng.random() < 0.5, "via": rng.choice(["direct", "direct", "process",
                                                           "execute", "wrap"]),
            "jit": rng.random() < 0.4, "width": rng.randint(1, 3),
            "persist": [rng.random() < 0.4 for _ in sizes],
            "mix": rng.random() < 0.2,
            "bad": rng.choice(["nan", "inf"]) if rng.random() < 0.12 else None,
            "fork": [rng.randrange(12) for _ in range(rng.choice([0, 1, 2]))],
        })
    order = [k for k, f in enumerate(folds) for _ in f["sizes"]]
    rng.shuffle(order)
    return {"ops": folds, "order": order, "x64": rng.random() < 0.4,
            "faults": [{"seam": f"step{rng.randrange(len(folds))}",
                        "at": rng.randint(1, 8), "kind": "crash"}
                       for _ in range(rng.choice([0, 1, 2, 3]))]}


SCALE = 32.0  # of single rows; a mean may be the small rest of large ones


def make_rows(f):
    r = np.random.default_rng(f["seed"])
    n, w = sum(f["sizes"]), f["width"]
    dt = np.dtype(f["dtype"])

    def arr(*s):
        a = r.integers(-500, 501, s)
        if dt.kind in "iu":
            return a.astype(dt)
        a = (a / 16.0).astype(dt)
        if f.get("bad") and not f["mix"]:  # one value that is not a number, or infinite
            a.ravel()[f["seed"] % a.size] = float(f["bad"])
        return a

    t = f["tree"]
    if t == "array":
        return arr(n, w + 1)
    if t == "dict":
        return {"b": arr(n, w), "a": arr(n, w, 2)}
    if t == "nested":
        return {"x": [arr(n, w), {"y": arr(n, 1, w)}], "z": arr(n, 3)}
    if t == "tuple":
        return (arr(n, w), arr(n, w + 1))
    if t == "ragged":
        return [arr(n, w), {"twice": arr(n, w), "once": arr(n)}]
    return {"loss": arr(n), "w": arr(n, w)}  # "scalar": 0-d leaf per step


def batches(f, rows):
    o, out = 0, []
    for s in f["sizes"]:
        b = jax.tree.map(lambda a: a[o:o + s], rows)  # noqa: B023
        if f["mix"] and f["seed"] >> len(out) & 1:  # chunks of different types
            b = jax.tree.map(lambda a: np.rint(a).astype(
                "int32" if a.dtype.kind == "f" else "float32"), b)
        if f["tree"] == "scalar":
            # one 0-d leaf per batch: the batch total
            b = {"loss": b["loss"].sum(dtype=b["loss"].dtype), "w": b["w"]}
        if f["tree"] == "ragged":
            # an array with more rows per batch than its siblings
            b[1]["twice"] = np.repeat(b[1]["twice"], 2, axis=0)
            if f["red"] in ("sum_axis1", "concat_axis1"):
                b[1]["once"] = b[1]["once"][:, None]
        if f["red"] == "add":
            b = jax.tree.map(lambda a: a.sum(0, dtype=a.dtype) if a.ndim else a, b)
        out.append(b)
        o += s
    return out


def fold_fn(L, red):
    from functools import partial

    return {
        "sum": L.reduce_sum, "sum_nokeep": partial(L.reduce_sum, keepdims=False),
        "sum_axis1": partial(L.reduce_sum, axis=1),
        "add": L.reduce_add, "concat": L.reduce_concat,
        "concat_axis1": partial(L.reduce_concat, axis=1), "mean": L.reduce_online_mean,
    }[red]


def reference(red, seen):
    """numpy on the batches seen so far (lists of leaves)."""
    leaves = [jax.tree.leaves(b) for b in seen]
    out = []
    for col in zip(*leaves):
        col = [np.asarray(c, dtype=np.float64) for c in col]
        if red == "add":
            out.append(sum(col))
        elif red == "sum":
            out.append(sum(c.sum(0, keepdims=True) for c in col))
        elif red == "sum_nokeep":
            out.append(sum(c.sum(0) for c in col))
        elif red == "sum_axis1":
            out.append(sum(c.sum(1, keepdims=True) for c in col))
        elif red == "concat":
            out.append(np.concatenate(col, 0))
        elif red == "concat_axis1":
            out.append(np.concatenate(col, 1))
        elif col[0].ndim == 0:
            out.append(np.mean(col))
        else:
            c = np.concatenate(col, 0)
            out.append(c.mean(0) if len(c) else np.full(c.shape[1:], np.nan))
    return out


def check(what, got, ref, exact, rt):
    if any(b.size and np.isnan(b).all() for b in ref):
        return  # the mean of nothing is not defined; later prefixes are
    g = jax.tree.leaves(got)
    if len(g) != len(ref):
        raise Violation("wrong-structure", f"{what}: {len(g)} leaves, expected {len(ref)}")
    for a, b in zip(g, ref):
        a = np.asarray(a, dtype=np.float64)
        if a.shape != b.shape:
            raise Violation("wrong-shape", f"{what}: {a.shape} expected {b.shape}")
        fin = np.isfinite(b)
        odd = np.array_equal(a[~fin], b[~fin], equal_nan=True)
        x, y = a[fin], b[fin]
        if not odd or (exact and not np.array_equal(x, y)) or not np.all(
                np.abs(x - y) <= rt * max(SCALE, np.abs(y).max(initial=0.0))):
            raise Violation("wrong-value", f"{what}: got {a.ravel()[:4]} "
                                           f"expected {b.ravel()[:4]}")


def snap(t):
    return [np.array(np.asarray(x), copy=True) for x in jax.tree.leaves(t)]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) and x.dtype == y.dtype
                                    for x, y in zip(a, b))


def execute(sim: Sim, plan):
    from laplax.util import loader as L

    x64 = plan["x64"]
    book = FaultBook(sim, plan["faults"])
    crashes = 0
    with enable_x64(x64), stderr_as(NullStream()):
        workers = []
        for j, f in enumerate(plan["ops"]):
            f = dict(f)
            if f["red"] in ("sum_axis1", "concat_axis1"):
                # every batch must agree on axis 0
                z = max(1, f["sizes"][0])
                f["sizes"] = [z] * len(f["sizes"])
                if f["tree"] == "scalar":
                    f["tree"] = "dict"
            rows = make_rows(f)
            bs = batches(f, rows)
            mk = (lambda x: x) if f["np_in"] else jnp.asarray
            bs = [jax.tree.map(mk, b) for b in bs]
            workers.append(dict(f=f, bs=bs, raw=[snap(b) for b in bs], state=None, at=0,
                                seen=[], old=[], states={}, saved=None, saved_at=0, j=j))
        rts = [1e-12 if x64 and f["dtype"] == "float64" else 2e-6 for f in plan["ops"]]
        for j in plan["order"]:
            if j >= len(workers):
                continue
            w = workers[j]
            f = w["f"]
            if f["via"] != "direct" or w["at"] >= len(w["bs"]):
                continue
            fn = fold_fn(L, f["red"])
            try:
                book.hit(f"step{j}")
                k = w["at"]
                sim.log("step", j, k)
                before = snap(w["state"]) if w["state"] is not None else None
                res, st = fn(w["bs"][k], w["state"])
                if before is not None and not same(before, snap(w["state"])):
                    raise Violation("mutated-state", f"{f['red']} changed the state it "
                                                     "was given")
            except SimCrash:
                # the worker dies; only the pickled state survives
                crashes += 1
                w["state"] = pickle.loads(w["saved"]) if w["saved"] else None
                w["at"] = w["saved_at"]
                w["seen"] = w["bs"][: w["at"]]
                w["old"], w["states"] = [], {}
                continue
            w["state"], w["at"] = st, k + 1
            w["states"][k] = st
            w["seen"] = w["bs"][: k + 1]
            exact = f["red"] != "mean"
            check(f"{f['red']} prefix {k + 1}/{len(w['bs'])}", res,
                  reference(f["red"], w["seen"]), exact, rts[w["j"]])
            w["old"].append((res, snap(res)))
            if f["persist"][k % len(f["persist"])]:
                w["saved"], w["saved_at"] = pickle.dumps(jax.device_get(st)), k + 1
        for w in workers:
            f = w["f"]
            fn = fold_fn(L, f["red"])
            if f["via"] == "direct":
                while w["at"] < len(w["bs"]):  # run to completion after the faults
                    k = w["at"]
                    res, w["state"] = fn(w["bs"][k], w["state"])
                    w["at"] = k + 1
                    check(f"{f['red']} resumed prefix {k + 1}", res,
                          reference(f["red"], w["bs"][: k + 1]), f["red"] != "mean",
                          rts[w["j"]])
                for z in f.get("fork", ()):  # go on from an earlier live state again
                    if not w["states"]:
                        break
                    k = sorted(w["states"])[z % len(w["states"])]
                    st = w["states"][k]
                    for m in range(k + 1, len(w["bs"])):
                        res, st = fn(w["bs"][m], st)
                        check(f"{f['red']} forked at {k} prefix {m + 1}", res,
                              reference(f["red"], w["bs"][: m + 1]), f["red"] != "mean",
                              rts[w["j"]])
                        sim.probe("forked")
                for res, s0 in w["old"]:
                    if not same(s0, snap(res)):
                        raise Violation("aliased-result", f"{f['red']}: an earlier result "
                                                          "changed later")
            else:
                def per_batch(data, scale=1):
                    return jax.tree.map(lambda a: a * scale, data)

                src = Replayable(sim, w["bs"])
                ident = lambda b: b  # noqa: E731
                for rep in range(2):
                    if f["via"] == "process":
                        res = L.process_batches(per_batch, src, ident, fn)
                    elif f["via"] == "execute":
                        res = L.execute_with_data_loader(per_batch, src, ident, fn,
                                                         jit=f["jit"])
                    else:
                        if rep == 0:
                            wrapped = L.wrap_function_with_data_loader(
                                per_batch, src, ident, fn, jit=f["jit"])
                        # extra keyword arguments reach every batch
                        res = wrapped(scale=1)
                    check(f"{f['red']} via {f['via']} pass {rep}", res,
                          reference(f["red"], w["bs"]), f["red"] != "mean",
                          rts[w["j"]])
            for b, s0 in zip(w["bs"], w["raw"]):
                if not same(s0, snap(b)):
                    raise Violation("mutated-input", f"{f['red']} changed a batch")
            sim.probe(f"red:{f['red']}")
            sim.probe(f"via:{f['via']}")
    return {"nontrivial": any(len(w["bs"]) > 1 for w in workers),
            "state": [[(f["red"], f["tree"], f["via"], f["dtype"], len(f["sizes"]),
                        max(f["sizes"]) > 12)
                       for f in plan["ops"]], crashes]}


class Replayable:
    def __init__(self, sim, bs):
        self.sim, self.bs = sim, bs

    def __iter__(self):
        for k, b in enumerate(self.bs):
            self.sim.point("next")
            self.sim.log("yield", k)
            yield b


def shrink(plan):
    if plan["x64"]:
        yield {**plan, "x64": False}
    for j, f in enumerate(plan["ops"]):
        for k, v in (("tree", "array"), ("dtype", "float32"), ("np_in", False),
                     ("via", "direct"), ("jit", False), ("width", 1), ("mix", False)):
            if f[k] != v and not (k == "tree" and f["red"] == "add"):
                yield {**plan, "ops": plan["ops"][:j] + [{**f, k: v}] + plan["ops"][j + 1:]}
        for z in range(len(f["sizes"])):
            s = f["sizes"][:z] + f["sizes"][z + 1:]
            if s:
                yield {**plan, "ops": plan["ops"][:j] + [{**f, "sizes": s}]
                       + plan["ops"][j + 1:]}
