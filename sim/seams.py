"""The seams: simulated loaders, clocks, displays and allocation failures."""

from __future__ import annotations

import contextlib
import random
import sys

import jax
import jax.numpy as jnp
import numpy as np

from .core import HarnessError, Sim, make_fault

# ---------------------------------------------------------------------------
#  Data streams
# ---------------------------------------------------------------------------


class FaultBook:
    """Decides, from the plan, at which seam crossing a fault fires.

    `faults`: list of {"seam": name, "at": k, "kind": exception kind}; the k-th
    crossing (1-based, counted since arming) of that seam raises.  Each fires once.
    """

    def __init__(self, sim: Sim, faults: list[dict] | None):
        self.sim = sim
        self.pending = [dict(f) for f in faults or []]
        self.count: dict[str, int] = {}
        self.fired: list[dict] = []
        self.armed = True

    def hit(self, seam: str) -> None:
        self.sim.point(seam)
        if not self.armed:
            return
        self.count[seam] = self.count.get(seam, 0) + 1
        for f in self.pending:
            if f["seam"] == seam and f["at"] == self.count[seam]:
                self.pending.remove(f)
                self.fired.append(f)
                self.sim.fired(f"{seam}:{f['kind']}")
                raise make_fault(f["kind"], f"{seam}#{f['at']}")

    def nan_now(self, seam: str) -> bool:
        """Data-corruption faults are counted on the same seam."""
        if not self.armed:
            return False
        k = self.count.get(seam, 0)
        for f in self.pending:
            if f["seam"] == seam + ".nan" and f["at"] == k:
                self.pending.remove(f)
                self.fired.append(f)
                self.sim.fired(f"{seam}:corrupt")
                return True
        return False


class SimLoader:
    """A re-iterable data loader whose every pass is decided by the plan.

    Per pass it may reorder the points, repartition them, stall (simulated
    time) and fail.  It always yields every point exactly once per pass.
    """

    def __init__(self, sim: Sim, X, Y, spec: dict, book: FaultBook | None = None):
        self.sim, self.X, self.Y, self.spec = sim, X, Y, spec
        self.book = book or FaultBook(sim, None)
        self.passes = 0
        self.completed = 0
        self.yielded = 0

    def _plan_pass(self, p: int):
        n = len(self.X)
        order = list(range(n))
        sizes = list(self.spec["sizes"])
        if self.spec.get("reshuffle"):
            r = random.Random(f"{self.spec['seed']}:{p}")
            r.shuffle(order)
            r.shuffle(sizes)
            if self.spec.get("resplit") and n > 1:  # another number of batches, too
                from .zoo import partition

                sizes = partition(r, n, 7)
        out, o = [], 0
        for s in sizes:
            out.append(order[o:o + s])
            o += s
        if o != n:
            raise HarnessError("partition does not cover the data")
        return out

    def _batch(self, idx):
        arr = np.asarray if self.spec.get("array") == "np" else jnp.asarray
        X = self.X[idx]
        if self.book.nan_now("next"):
            X = np.array(X, copy=True)
            X[0] = np.nan
        X, Y = arr(X), arr(self.Y[idx])
        if not self.spec.get("x64"):
            if arr is np.asarray:
                X = X.astype(np.float32)
                Y = Y if Y.dtype.kind == "i" else Y.astype(np.float32)
        kind = self.spec.get("batch", "tuple")
        if kind == "tuple":
            return X, Y
        if kind == "list":
            return [X, Y]
        if kind == "dict":
            return {"input": X, "target": Y}
        if kind == "dict+":
            return {"target": Y, "input": X, "weight": np.ones(len(idx))}
        if kind == "raw":  # needs a custom transform
            return ("meta", Y, X)
        raise HarnessError(f"batch kind {kind}")

    def _boxed(self, box, batch):
        """One container refilled for every batch of a pass, as some loaders do."""
        if not self.spec.get("reuse") or isinstance(batch, tuple):
            return batch
        box.clear()
        box.update(batch) if isinstance(box, dict) else box.extend(batch)
        return box

    def _gen(self):
        self.book.hit("iter")
        p = self.passes
        self.passes += 1
        box = {} if "dict" in self.spec.get("batch", "tuple") else []
        for idx in self._plan_pass(p):
            self.sim.advance(self.spec.get("stall", 0.0))
            self.book.hit("next")
            self.sim.log("yield", p, idx)
            self.yielded += 1
            yield self._boxed(box, self._batch(idx))
        self.completed += 1


class GenLoader(SimLoader):
    def __iter__(self):
        return self._gen()


class IterObjLoader(SimLoader):
    """__iter__ returns a fresh iterator object; faults may hit iter() itself."""

    def __iter__(self):
        self.book.hit("iter()")
        return _It(self._gen())


class SizedLoader(SimLoader):
    """torch-like: __len__ and batch_size attributes besides __iter__."""

    batch_size = 3
    dataset = None

    def __len__(self):
        return len(self._plan_pass(self.passes))

    def __iter__(self):
        return self._gen()


class RoughLoader(SimLoader):
    """Its length is an estimate, and indexing it gives single data points."""

    def __len__(self):
        return [0, 1, len(self.X) // 3, len(self.X)][self.spec["seed"] % 4]

    def __bool__(self):
        return True

    def __getitem__(self, i):
        self.sim.log("getitem", i)
        return self.X[i], self.Y[i]

    def __iter__(self):
        return self._gen()


class _It:
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.g)


LOADERS = {"gen": GenLoader, "iterobj": IterObjLoader, "sized": SizedLoader,
           "rough": RoughLoader}
BATCHES = ("tuple", "list", "dict", "dict+")


def make_loader(sim, X, Y, spec, book=None):
    ld = LOADERS[spec.get("kind", "gen")](sim, X, Y, spec, book)
    return iter(ld) if spec.get("one_shot") else ld


def loader_spec(rng: random.Random, n: int, max_parts: int = 4, **extra) -> dict:
    from .zoo import partition

    sizes = partition(rng, n, max_parts)
    for _ in range(rng.choice([0, 0, 0, 0, 0, 0, 0, 1, 1, 2])):  # filtered-out batches
        sizes.insert(rng.randint(0, len(sizes)), 0)
    d = {
        "kind": rng.choice(list(LOADERS)),
        "reuse": rng.random() < 0.3,
        "batch": rng.choice(BATCHES),
        "array": rng.choice(["np", "jnp"]),
        "sizes": sizes,
        "reshuffle": rng.random() < 0.5,
        "resplit": rng.random() < 0.4,
        "seed": rng.getrandbits(32),
        "stall": rng.choice([0.0, 0.5, 30.0]),
    }
    d.update(extra)
    return d


def transform_for(spec):
    if spec.get("batch") == "raw":
        return lambda b: {"input": b[2], "target": b[1]}
    return None


# ---------------------------------------------------------------------------
#  Clock, display, logging
# ---------------------------------------------------------------------------


class SimClock:
    """Stand-in for the `time` module as seen by laplax; may jump backwards."""

    def __init__(self, sim: Sim, jumps: list[float] | None = None):
        self.sim, self.jumps, self.i = sim, jumps or [], 0

    def _read(self):
        if self.i < len(self.jumps):
            j = self.jumps[self.i]
            self.i += 1
            if j:
                self.sim.fired("clock-jump" if j > 0 else "clock-backwards")
            self.sim.advance(j)
        self.sim.advance(0.001)
        return self.sim.now

    perf_counter = monotonic = time = _read

    def perf_counter_ns(self):
        return int(self._read() * 1e9)

    def sleep(self, s):
        self.sim.advance(s)


class BrokenStderr:
    """stderr of a detached terminal: writes fail from the k-th on."""

    encoding = "utf-8"

    def __init__(self, sim: Sim, book: FaultBook):
        self.sim, self.book, self.chars = sim, book, 0

    def write(self, s):
        self.book.hit("display")
        self.chars += len(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class NullStream:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


@contextlib.contextmanager
def stderr_as(stream):
    old = sys.stderr
    sys.stderr = stream
    try:
        yield
    finally:
        sys.stderr = old


# ---------------------------------------------------------------------------
#  Failing allocations: the k-th eager array operation issued by laplax raises
# ---------------------------------------------------------------------------


class _Proxy:
    """Attribute proxy over a module that counts calls into it as a seam."""

    def __init__(self, target, book: FaultBook, seam: str, depth=0):
        object.__setattr__(self, "_t", target)
        object.__setattr__(self, "_b", book)
        object.__setattr__(self, "_s", seam)

    def __getattr__(self, name):
        val = getattr(self._t, name)
        if name in ("linalg",):
            return _Proxy(val, self._b, self._s)
        if callable(val) and not isinstance(val, type) and name[:1].islower() \
                and name not in _NOT_OPS and not hasattr(val, "dtype"):
            book, seam = self._b, self._s

            def op(*a, **k):
                from jax._src.core import trace_state_clean

                if trace_state_clean():
                    book.hit(seam)
                return val(*a, **k)

            return op
        return val


_NOT_OPS = {
    "float32", "float64", "int32", "finfo", "iinfo", "issubdtype", "dtype",
    "result_type", "promote_types", "ndim", "shape", "size", "vectorize",
}


@contextlib.contextmanager
def alloc_faults(modules, book: FaultBook):
    """Route `jnp` of the given laplax modules through the allocation seam."""
    saved = []
    for m in modules:
        if getattr(m, "jnp", None) is not None:
            saved.append((m, m.jnp))
            m.jnp = _Proxy(m.jnp, book, "alloc")
    try:
        yield
    finally:
        for m, v in saved:
            m.jnp = v


# ---------------------------------------------------------------------------
#  Precision flag
# ---------------------------------------------------------------------------


def x64_enabled() -> bool:
    return bool(jax.config.read("jax_enable_x64"))


@contextlib.contextmanager
def global_x64(value: bool):
    """Set the process-wide flag for one simulated process, then put it back."""
    old = x64_enabled()
    jax.config.update("jax_enable_x64", value)
    try:
        yield
    finally:
        jax.config.update("jax_enable_x64", old)
