"""Helpers shared by the worlds."""

from __future__ import annotations

import contextlib
import random

import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import enable_x64

from ..core import ALL_SIM, FAULT_TYPES, Sim, Violation, caused_by_sim, fingerprint
from ..seams import (
    BATCHES, BrokenStderr, FaultBook, NullStream, SimClock, alloc_faults, global_x64,
    loader_spec, make_loader, stderr_as, transform_for, x64_enabled,
)
from ..zoo import LOSSES, MODELS, Problem, max_rel, partition, tol

BATCH_OK = ("mlp", "lin", "list", "wide")  # forward passes that broadcast over a batch axis


def gen_problem(rng: random.Random, n_lo=3, n_hi=7, models=tuple(MODELS), losses=LOSSES,
                vmap_choice=True, big=0.0, big_n=70, many=0.0,
                alike=()) -> dict:
    """`big`: share of problems with many points, and of those with many parameters.

    `many`: share of problems with many points only.
    `alike`: ways in which points may repeat one another (see `Problem.repeat`).
    """
    model = rng.choice(models)
    if rng.random() < big:
        model = "wide"
    loss = rng.choice(losses)
    if rng.random() < (many or big):
        n_lo, n_hi = 17, big_n
    if model == "vec" and loss == "cross_entropy":
        loss = "binary_cross_entropy"
    d = {
        "model": model, "n": rng.randint(n_lo, n_hi), "seed": rng.getrandbits(31),
        "loss": loss, "factor": rng.choice([1.0, 1.0, 0.25, 3.0]), "vmap": True,
    }
    if vmap_choice and model in BATCH_OK and loss in (
            "mse", "none", "binary_cross_entropy") and rng.random() < 0.3:
        d["vmap"] = False
    if alike and rng.random() < 0.2:
        d["alike"] = rng.choice(alike)
    return d


def problem(d: dict) -> Problem:
    pr = Problem(d["model"], d["n"], d["seed"], d["loss"], d["factor"])
    if d.get("alike"):
        pr.repeat(d["alike"])
    return pr


def vec_for(P: int, seed: int) -> np.ndarray:
    r = np.random.default_rng(seed)
    v = r.integers(-12, 13, P).astype(np.float64) / 8.0
    v[v == 0] = 0.5
    return v


def check_close(what, got, ref, rtol, kind="wrong-value"):
    got = np.asarray(got, dtype=np.float64)
    err = max_rel(got, ref)
    if not err <= rtol:
        raise Violation(kind, f"{what}: relative error {err:.3g} > {rtol:.1g}; "
                              f"got {_short(got)} expected {_short(ref)}")


def _short(a):
    a = np.asarray(a)
    return f"{a.shape} {np.array2string(a.ravel()[:4], precision=5)}"


# ---------------------------------------------------------------------------
#  Krylov reference for Lanczos
# ---------------------------------------------------------------------------


def krylov(G: np.ndarray, b: np.ndarray, r: int):
    """Lanczos with full reorthogonalisation in float64.

    Returns V V^T G V V^T for the r-dimensional Krylov space and the smallest
    relative off-diagonal coefficient met (the conditioning of the projection).
    """
    V = []
    v = b / np.linalg.norm(b)
    worst = 1.0
    scale = max(np.abs(np.linalg.eigvalsh(G)).max(), 1e-30)
    for i in range(r):
        V.append(v)
        w = G @ v
        for _ in range(3):
            for u in V:
                w = w - (u @ w) * u
        beta = np.linalg.norm(w)
        if i < r - 1:
            worst = min(worst, beta / scale)
            if beta / scale < 1e-12:
                break
            v = w / beta
    V = np.stack(V, 1)
    T = V.T @ G @ V
    return V @ T @ V.T, worst, scale


def lanczos_rank(G, b, want: int, floor: float):
    """Largest rank <= want whose Krylov projection is well conditioned."""
    for r in range(want, 0, -1):
        M, worst, _ = krylov(G, b, r)
        if worst > floor:
            return r, M
    M, _, _ = krylov(G, b, 1)
    return 1, M


def lr_dense(t) -> np.ndarray:
    U = np.asarray(t.U, dtype=np.float64)
    S = np.asarray(t.S, dtype=np.float64)
    return (U * S) @ U.T + float(t.scalar) * np.eye(U.shape[0])


def check_ritz(what, t, G, rtol):
    """Whatever the convergence, LOBPCG returns orthonormal Ritz pairs of G."""
    U = np.asarray(t.U, dtype=np.float64)
    S = np.asarray(t.S, dtype=np.float64)
    check_close(f"{what}: U^T U", U.T @ U, np.eye(U.shape[1]), rtol, "bad-basis")
    scale = np.abs(np.linalg.eigvalsh(G)).max()
    ray = np.einsum("pr,pq,qr->r", U, G, U)
    if np.max(np.abs(ray - S)) > rtol * scale:
        raise Violation("wrong-value", f"{what}: Ritz values {S} but U^T G U = {ray}")


def state_of(*parts):
    return fingerprint(parts)


# ---------------------------------------------------------------------------
#  A new process: the package is imported afresh, nothing in memory survives
# ---------------------------------------------------------------------------


def setup_pushforward(pushforward_type, predictive_type):
    """The setter and functions of a predictive, from the public building blocks."""
    from functools import partial

    from laplax.eval import pushforward as P

    def pred_act(results, aux, **kwargs):
        """The averaged output is the probability."""
        del kwargs
        for name in ("mc_pred_act", "special_pred_act"):
            if name in results:
                results["pred_act"] = results[name]
        return results, aux

    if pushforward_type == "linear":
        setter = P.set_lin_pushforward
        fns = [P.lin_setup, P.lin_pred_mean, P.lin_pred_std]
        if predictive_type == "mc_bridge":
            fns += [P.lin_mc_pred_act, pred_act]
        elif predictive_type != "none":
            fns += [partial(P.lin_special_pred_act, special_pred_type=predictive_type),
                    pred_act]
    else:
        setter = P.set_nonlin_pushforward
        fns = [P.nonlin_setup, P.nonlin_pred_mean, P.nonlin_pred_std]
        if predictive_type == "mc_bridge":
            fns += [P.nonlin_mc_pred_act, pred_act]
    return setter, fns


@contextlib.contextmanager
def fresh_laplax():
    """Inside, `import laplax` gives a new instance of every module of it."""
    import importlib
    import sys

    old = {k: sys.modules.pop(k) for k in list(sys.modules)
           if k == "laplax" or k.startswith("laplax.")}
    try:
        importlib.import_module("laplax")
        for k in old:
            with contextlib.suppress(ImportError):
                importlib.import_module(k)
        yield
    finally:
        for k in [k for k in sys.modules if k == "laplax" or k.startswith("laplax.")]:
            del sys.modules[k]
        sys.modules.update(old)
