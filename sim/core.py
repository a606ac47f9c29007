"""Deterministic-simulation core: plans, event log, baton scheduler, clock.

One integer seed decides everything in a run.  A world turns the seed into a
JSON *plan* (workload, knobs, faults and, for concurrent worlds, the seed of the
scheduler); executing a plan is a pure function of the plan and of the code
under test.  Every scheduling decision taken is recorded, so a replay file holds
the explicit list of preemptions instead of the scheduler seed.
"""

from __future__ import annotations

import asyncio
import functools
import hashlib
import json
import random
import sys
import threading
import zlib

from jax._src.core import trace_state_clean
from jax.errors import JaxRuntimeError

REPO = "/repo"


# ---------------------------------------------------------------------------
#  Outcomes
# ---------------------------------------------------------------------------


class Violation(Exception):
    """The property was observed to be broken."""

    def __init__(self, kind: str, detail: str):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself went wrong (never reported as a violation)."""


class SimFault(Exception):
    """Base of the exceptions the simulator injects as ordinary errors."""


class SimIOError(OSError):
    pass


class SimTimeout(TimeoutError):
    pass


class SimConnection(ConnectionResetError):
    pass


class SimOOM(MemoryError):
    pass


class SimRuntime(RuntimeError):
    pass


class SimValue(ValueError):
    pass


class SimKey(KeyError):
    pass


class SimType(TypeError):
    pass


class SimAttr(AttributeError):
    pass


class SimIndex(IndexError):
    pass


class SimArith(FloatingPointError):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


class SimCrash(BaseException):
    """A process crash/cancellation delivered as a BaseException."""


class SimXla(JaxRuntimeError):
    """The accelerator runtime gives up (RESOURCE_EXHAUSTED, a lost device)."""


class SimExit(SystemExit):
    """A signal handler of the host program ends the process in an orderly way."""


class SimCancel(asyncio.CancelledError):
    pass


class SimEof(EOFError):
    pass


class SimNotImpl(NotImplementedError):
    pass


class SimAssert(AssertionError):
    pass


class SimStop(StopIteration):
    """A user callback leaking StopIteration (e.g. a bare next() inside it)."""


FAULT_TYPES = {
    "io": SimIOError,
    "timeout": SimTimeout,
    "conn": SimConnection,
    "oom": SimOOM,
    "runtime": SimRuntime,
    "value": SimValue,
    "key": SimKey,
    "type": SimType,
    "attr": SimAttr,
    "index": SimIndex,
    "arith": SimArith,
    "interrupt": SimInterrupt,
    "crash": SimCrash,
    "xla": SimXla,
    "exit": SimExit,
    "cancel": SimCancel,
    "eof": SimEof,
    "notimpl": SimNotImpl,
    "assert": SimAssert,
    "stopiter": SimStop,
}
ALL_SIM = tuple(FAULT_TYPES.values())


def make_fault(kind: str, where: str) -> BaseException:
    return FAULT_TYPES[kind](f"injected {kind} at {where}")


def caused_by_sim(exc: BaseException | None) -> bool:
    """True if an injected fault is the exception or is in its cause chain."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, ALL_SIM) or "injected " in str(exc):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


# ---------------------------------------------------------------------------
#  Event log and simulated clock
# ---------------------------------------------------------------------------


class Sim:
    """Per-run context: event log, simulated time, fault statistics."""

    def __init__(self, plan: dict):
        self.plan = plan
        self.events: list[str] = []
        self.now = 0.0
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.steps = 0
        self.sched: Scheduler | None = None
        self.reenter = None  # called at seams outside traces: work within work

    def log(self, *parts) -> None:
        t = self.sched.current_name() if self.sched else "-"
        self.events.append(f"{len(self.events)} {t} " + " ".join(map(str, parts)))

    def fired(self, kind: str) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("FAULT", kind)

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] = self.probes.get(name, 0) + n

    def advance(self, dt: float) -> None:
        self.now += dt

    def point(self, label: str) -> None:
        """A seam: a place where another task may be scheduled."""
        self.steps += 1
        if self.sched is not None:
            self.sched.point(label)
        if self.reenter is not None and trace_state_clean():
            self.reenter(label)

    def digest(self) -> str:
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------
#  Baton scheduler: real threads, one runs at a time, the simulator decides who
# ---------------------------------------------------------------------------


class Scheduler:
    """Runs tasks as real threads handing one baton around.

    Switches can occur at seams (`Sim.point`) and, when `line_level`, before any
    source line of the package under test.  While a JAX trace is active in the
    running thread they occur only if the mode says "traced", and never between
    two callers of one jitted function (JAX lets the second one wait; `SimJit`).
    `mode` is either
    {"mode": "random", "seed": s, "p": p} or
    {"mode": "explicit", "switches": [[step, task], ...]}.
    """

    WATCHDOG_S = 240.0

    def __init__(self, sim: Sim, mode: dict, *, line_level: bool, pkg: str):
        self.sim = sim
        self.mode = mode
        self.rng = random.Random(mode.get("seed", 0))
        self.switch_at = {int(s): int(t) for s, t in mode.get("switches", [])}
        self.line_level = line_level
        self.traced = bool(mode.get("traced"))
        self.pkg = pkg
        self.tasks: list[_Task] = []
        self.cur: int | None = None
        self.step = 0
        self.decisions: list[list[int]] = []
        self.cv = threading.Condition()
        self.failed: BaseException | None = None
        self.max_steps = mode.get("max_steps", 200_000)
        self.trace_hits = 0
        self.points: list[tuple[int, str]] = []
        self.blocked = 0

    def current_name(self) -> str:
        return "-" if self.cur is None else f"T{self.cur}"

    def add(self, fn) -> int:
        self.tasks.append(_Task(len(self.tasks), fn))
        return len(self.tasks) - 1

    def _open(self) -> bool:
        return self.traced or trace_state_clean()

    # -- called by task threads ------------------------------------------------

    def point(self, label: str) -> None:
        me = threading.get_ident()
        task = self.tasks[self.cur] if self.cur is not None else None
        if task is None or task.ident != me or not self._open():
            return
        self._step(task, label)

    def _step(self, task, label: str) -> None:
        self.step += 1
        if self.step > self.max_steps:
            raise HarnessError("scheduler step cap exceeded")
        others = [t.i for t in self.tasks if not t.done and t.i != task.i]
        if not others:
            return
        nxt = None
        if self.mode["mode"] == "random":
            p = self.mode["p_seam"] if not label.startswith("L:") else self.mode["p"]
            zone = self.mode.get("zone")
            if zone and label.startswith("L:"):
                # Callers meet in a few functions and take turns inside them.
                p = 0.4 if zlib.crc32(label.encode()) % 8 in zone else 0.001
            if self.rng.random() < p:
                nxt = self.rng.choice(others)
        else:
            nxt = self.switch_at.get(self.step)
            if nxt is not None and nxt not in others:
                nxt = None
        if nxt is None:
            return
        self.decisions.append([self.step, nxt])
        self.points.append((task.i, label))
        self.sim.log("SWITCH", label, "->", f"T{nxt}")
        self._hand(task, nxt)

    def block(self, label: str) -> bool:
        """A lock is taken: let another task run (False if not under control)."""
        if self.cur is None:
            return False
        task = self.tasks[self.cur]
        if task.ident != threading.get_ident():
            return False
        self.step += 1
        self.blocked += 1
        others = [t.i for t in self.tasks if not t.done and t.i != task.i]
        if not others or self.blocked > 5000:
            raise Violation("deadlock", f"no task can make progress at {label}")
        nxt = min(others, key=lambda i: (i - task.i) % len(self.tasks))
        self.sim.log("BLOCK", label, "->", f"T{nxt}")
        self._hand(task, nxt)
        return True

    def _hand(self, task, nxt: int) -> None:
        with self.cv:
            self.cur = nxt
            self.cv.notify_all()
            self._await(task)

    def _await(self, task) -> None:
        if not self.cv.wait_for(lambda: self.cur == task.i, timeout=self.WATCHDOG_S):
            raise HarnessError("baton watchdog expired")

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.pkg):
            return None
        if event == "line":
            self._line(frame)
        return self._trace

    def _line(self, frame) -> None:
        task = self.tasks[self.cur]
        if task.ident == threading.get_ident() and self._open():
            self.trace_hits += 1
            name = frame.f_code.co_filename[len(self.pkg):]
            self._step(task, f"L:{name}:{frame.f_code.co_name}")

    # -- main ------------------------------------------------------------------

    def _main(self, task) -> None:
        task.ident = threading.get_ident()
        with self.cv:
            self._await(task)
        if self.line_level:
            sys.settrace(self._trace)
        try:
            task.result = task.fn()
        except BaseException as e:  # noqa: BLE001
            task.exc = e
        finally:
            sys.settrace(None)
        with self.cv:
            task.done = True
            rest = [t.i for t in self.tasks if not t.done]
            if rest:
                # Which task continues after one ends is a decision as well.
                self.step += 1
                if self.mode["mode"] == "random":
                    nxt = self.rng.choice(rest)
                    self.decisions.append([self.step, nxt])
                else:
                    nxt = self.switch_at.get(self.step, rest[0])
                    if nxt not in rest:
                        nxt = rest[0]
                self.cur = nxt
            else:
                self.cur = None
            self.cv.notify_all()

    def run(self) -> None:
        global ACTIVE
        threads = []
        self.cur = None
        ACTIVE = self
        try:
            self._run(threads)
        finally:
            ACTIVE = None

    def _run(self, threads) -> None:
        for t in self.tasks:
            th = threading.Thread(target=self._main, args=(t,), daemon=True)
            th.start()
            threads.append(th)
        for t in self.tasks:  # wait until each is parked (ident set)
            while t.ident is None:
                threading.Event().wait(0.0005)
        with self.cv:
            self.cur = self.mode.get("first", 0) % len(self.tasks)
            self.cv.notify_all()
            ok = self.cv.wait_for(
                lambda: all(t.done for t in self.tasks), timeout=self.WATCHDOG_S
            )
        if not ok:
            raise HarnessError("tasks did not finish under the watchdog")
        for th in threads:
            th.join(timeout=30)
        for t in self.tasks:
            if isinstance(t.exc, HarnessError):
                raise t.exc


ACTIVE: Scheduler | None = None


class CoopLock:
    """A lock of the package under test: blocking hands the baton on."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        while not self._real.acquire(False):
            if not blocking:
                return False
            if ACTIVE is None or not ACTIVE.block("lock"):
                return self._real.acquire(True, timeout)
        if ACTIVE is not None:
            ACTIVE.blocked = 0
        return True

    def release(self):
        self._real.release()

    def locked(self):
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install_locks(pkg: str) -> None:
    """Locks created by the package are cooperative; everybody else's are real."""
    lock, rlock = threading.Lock, threading.RLock

    def factory(real):
        def make(*a, **k):
            f = sys._getframe(1)  # noqa: SLF001
            while f is not None and f.f_code.co_filename == threading.__file__:
                f = f.f_back
            ours = f is not None and f.f_code.co_filename.startswith(pkg)
            return CoopLock(real()) if ours else real(*a, **k)

        return make

    threading.Lock, threading.RLock = factory(lock), factory(rlock)


class SimJit:
    """A jitted function: a second task waits while another one is inside.

    JAX does the same inside its tracing and compilation caches, where the
    scheduler would not see that the task is blocked.
    """

    def __init__(self, fn, sig):
        self._fn, self._owner, self._depth = fn, None, 0
        functools.update_wrapper(self, sig)

    def __call__(self, *a, **k):
        if ACTIVE is None:
            return self._fn(*a, **k)
        me = threading.get_ident()
        while self._depth and self._owner != me:
            if not ACTIVE.block("jit"):
                break
        if self._depth and self._owner != me:
            return self._fn(*a, **k)
        ACTIVE.blocked = 0
        self._owner = me
        self._depth += 1
        try:
            return self._fn(*a, **k)
        finally:
            self._depth -= 1

    def __getattr__(self, name):
        if name == "_fn":
            raise AttributeError(name)
        return getattr(self._fn, name)


def install_jit(*pkgs: str) -> None:
    """`jax.jit` as seen by the package under test and by the harness."""
    import jax

    real = jax.jit

    @functools.wraps(real)
    def jit(*a, **k):
        f = real(*a, **k)
        caller = sys._getframe(1).f_code.co_filename  # noqa: SLF001
        return SimJit(f, f) if caller.startswith(pkgs) else f

    jax.jit = jit


class _Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.ident = None
        self.done = False
        self.result = None
        self.exc: BaseException | None = None


def random_mode(rng: random.Random, n_tasks: int) -> dict:
    """A PCT-like mixture of preemption densities (swarm style)."""
    p = rng.choice([0.002, 0.01, 0.03, 0.1])
    return {
        "mode": "random",
        "seed": rng.getrandbits(48),
        "p": p,
        "p_seam": rng.choice([0.05, 0.2, 0.5]),
        "first": rng.randrange(n_tasks),
        "traced": rng.random() < 0.5,
        "zone": rng.sample(range(8), rng.choice([1, 2])) if rng.random() < 0.4 else None,
    }


def canonical(obj) -> str:
    return json.dumps(obj, sort_keys=True, separators=(",", ":"), default=str)


def fingerprint(obj) -> str:
    return hashlib.sha256(canonical(obj).encode()).hexdigest()[:16]
