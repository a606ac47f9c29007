"""Small models, datasets and losses with an independent numpy reference.

The models run in laplax through JAX.  The reference is computed without JAX
transformations: forward passes in numpy, Jacobians by complex-step
differentiation, loss Hessians in closed form, everything in float64.
"""

from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

# ---------------------------------------------------------------------------
#  Models: (param spec as a pytree of shapes) + forward written once over `xp`
# ---------------------------------------------------------------------------


def _mlp(xp, x, p):
    h = xp.tanh(x @ p["l1"]["w"] + p["l1"]["b"])
    return h @ p["l2"]["w"] + p["l2"]["b"]


def _lin(xp, x, p):
    return x @ p["theta"] + p["b"]


def _list(xp, x, p):
    (w1, b1), (w2,) = p
    return xp.tanh(x @ w1 + b1) @ w2


def _vec(xp, x, p):
    return xp.sin(x @ p[:3]) [None] * p[3] + (x @ p[4:7])[None]


def _img(xp, x, p):
    # x: (2, 2); mixes both axes, two outputs, a scalar (0-d) parameter leaf
    row = x @ p["r"]  # (2,)
    col = p["c"] @ x  # (2,)
    return xp.tanh(row) * p["s"] + col


MODELS = {
    "mlp": dict(
        shapes={"l1": {"w": (2, 3), "b": (3,)}, "l2": {"w": (3, 2), "b": (2,)}},
        x=(2,), out=2, fwd=_mlp,
    ),
    "lin": dict(shapes={"theta": (4, 2), "b": (2,)}, x=(4,), out=2, fwd=_lin),
    "list": dict(shapes=[((2, 2), (2,)), ((2, 3),)], x=(2,), out=3, fwd=_list),
    "vec": dict(shapes=(7,), x=(3,), out=1, fwd=_vec),
    "img": dict(shapes={"r": (2,), "c": (2,), "s": ()}, x=(2, 2), out=2, fwd=_img),
}
# Rarely used: more parameters than any chunk, block or bucket size is likely to be.
EXTRA = {
    "wide": dict(
        shapes={"l1": {"w": (2, 24), "b": (24,)}, "l2": {"w": (24, 2), "b": (2,)}},
        x=(2,), out=2, fwd=_mlp,
    ),
}
LOSSES = ("mse", "cross_entropy", "binary_cross_entropy", "none", "custom")


def _is_shape(s):
    return isinstance(s, tuple) and all(isinstance(i, int) for i in s)


class Problem:
    """A model with parameters and a finite data set, plus its reference."""

    def __init__(self, model: str, n: int, seed: int, loss: str = "mse",
                 factor: float = 1.0, scale: float = 1.0):
        spec = {**MODELS, **EXTRA}[model]
        self.name, self.n, self.loss, self.factor = model, n, loss, factor
        rng = np.random.default_rng(seed)
        leaves, self.treedef = jax.tree.flatten(spec["shapes"], is_leaf=_is_shape)
        self.shapes = [tuple(s) for s in leaves]
        self.P = int(sum(np.prod(s, dtype=int) for s in self.shapes))
        # Values on a coarse grid: exactly representable in float32.
        self.theta = scale * rng.integers(-12, 13, self.P).astype(np.float64) / 8.0
        self.theta[self.theta == 0] = 0.375
        self.X = rng.integers(-12, 13, (n, *spec["x"])).astype(np.float64) / 8.0
        # No two inputs alike and none near zero: every point contributes.
        self.X += np.where(np.abs(self.X) < 0.2, 0.5, 0.0)
        self.out = spec["out"]
        self._fwd = spec["fwd"]
        if loss == "cross_entropy" and self.out > 1:
            self.Y = np.eye(self.out)[rng.integers(0, self.out, n)]
        elif loss == "binary_cross_entropy":
            self.Y = rng.integers(0, 2, (n, self.out)).astype(np.float64)
        else:
            self.Y = rng.integers(-12, 13, (n, self.out)).astype(np.float64) / 8.0

    def repeat(self, how):
        """Points that look like redeliveries or padding, but are points all the same."""
        for k in range(1, self.n):
            if how == "same" or (how == "twins" and k % 2) or (
                    how == "halves" and k >= (self.n + 1) // 2):
                j = {"same": 0, "twins": k - 1, "halves": k - (self.n + 1) // 2}[how]
                self.X[k], self.Y[k] = self.X[j], self.Y[j]
        if how == "zero" and self.n > 2:
            k = 1 + int(np.abs(self.theta).sum() * 8) % (self.n - 1)
            self.X[k] = 0.0

    # -- laplax side -------------------------------------------------------------

    @property
    def params(self):
        return self.tree(self.theta)

    def tree(self, vec, dtype=None):
        out, o = [], 0
        for s in self.shapes:
            k = int(np.prod(s, dtype=int))
            out.append(jnp.asarray(np.asarray(vec[o:o + k]).reshape(s),
                                   dtype=dtype or float))
            o += k
        return jax.tree.unflatten(self.treedef, out)

    def flat(self, tree) -> np.ndarray:
        return np.concatenate(
            [np.asarray(l, dtype=np.float64).ravel() for l in jax.tree.leaves(tree)]
        )

    def model_fn(self, input, params):  # noqa: A002
        return self._fwd(jnp, input, params)

    def make_model_fn(self, hook=None):
        fwd = self._fwd

        def model_fn(input, params):  # noqa: A002
            if hook is not None:
                hook()
            return fwd(jnp, input, params)

        return model_fn

    def loss_fn(self):
        return custom_loss if self.loss == "custom" else self.loss

    # -- reference side ----------------------------------------------------------

    def _np_fwd(self, x, vec):
        leaves, o = [], 0
        for s in self.shapes:
            k = int(np.prod(s, dtype=int))
            leaves.append(vec[o:o + k].reshape(s))
            o += k
        return self._fwd(np, x, jax.tree.unflatten(self.treedef, leaves))

    def forward(self, x):
        return self._np_fwd(np.asarray(x, dtype=np.float64), self.theta)

    def jac(self, x):
        J = np.empty((self.out, self.P))
        h = 1e-30
        x = np.asarray(x, dtype=np.float64)
        for j in range(self.P):
            v = self.theta.astype(np.complex128)
            v[j] += 1j * h
            J[:, j] = np.imag(self._np_fwd(x, v)) / h
        return J

    def loss_hess(self, f, y):
        if self.loss == "mse":
            return 2 * np.eye(self.out)
        if self.loss == "none":
            return np.eye(self.out)
        if self.loss == "cross_entropy":
            p = np.exp(f - f.max())
            p /= p.sum()
            return np.diag(p) - np.outer(p, p)
        if self.loss == "binary_cross_entropy":
            s = 1 / (1 + np.exp(-f))
            return np.diag(s * (1 - s))
        return np.diag(1.0 + (f - y) ** 2) + 0.25  # custom_loss

    def ggn_terms(self):
        """One (P, P) float64 contribution per data point, factor included."""
        if not hasattr(self, "_terms"):
            ts = []
            for x, y in zip(self.X, self.Y):
                J = self.jac(x)
                ts.append(self.factor * J.T @ self.loss_hess(self.forward(x), y) @ J)
            self._terms = np.stack(ts)
        return self._terms

    def ggn(self):
        return self.ggn_terms().sum(0)

    def hessian(self):
        """Hessian of the summed squared error: differences of exact gradients."""
        def grad(vec):
            keep, self.theta = self.theta, vec
            g = sum(2 * self.jac(x).T @ (self.forward(x) - y)
                    for x, y in zip(self.X, self.Y))
            self.theta = keep
            return g

        def col(j, h):
            e = np.zeros(self.P)
            e[j] = h
            return (grad(self.theta + e) - grad(self.theta - e)) / (2 * h)

        H = np.stack([(4 * col(j, 1e-3) - col(j, 2e-3)) / 3 for j in range(self.P)])
        return self.factor * 0.5 * (H + H.T)


def custom_loss(pred, target):
    d = pred - target
    return jnp.sum(0.5 * d**2 + d**4 / 12.0) + 0.125 * jnp.sum(pred) ** 2


# ---------------------------------------------------------------------------
#  Comparison
# ---------------------------------------------------------------------------


def tol(x64: bool) -> float:
    return 1e-9 if x64 else 2e-4


def max_rel(got, ref) -> float:
    got = np.asarray(got, dtype=np.float64)
    ref = np.asarray(ref, dtype=np.float64)
    if got.shape != ref.shape:
        return float("inf")
    if got.size == 0:
        return 0.0
    if not np.all(np.isfinite(got)):
        fin = np.isfinite(got)
        if not np.array_equal(fin, np.isfinite(ref)):
            return float("inf")
        got, ref = got[fin], ref[fin]
        if got.size == 0:
            return 0.0
    scale = max(float(np.max(np.abs(ref))), 1e-6)
    return float(np.max(np.abs(got - ref))) / scale


def partition(rng, n: int, max_parts: int) -> list[int]:
    """Random composition of n into positive sizes.

    Mostly sizes up to 3 (few distinct shapes keep the compile caches warm),
    sometimes one whole-data batch or an arbitrary split.
    """
    u = rng.random()
    if n == 1 or max_parts == 1 or u < 0.08:
        return [n]
    if u < 0.25:
        k = rng.randint(2, min(n, max_parts))
        cuts = sorted(rng.sample(range(1, n), k - 1))
        edges = [0, *cuts, n]
        return [b - a for a, b in zip(edges, edges[1:])]
    out, left = [], n
    while left:
        z = rng.randint(1, min(3, left))
        if not out and z == n:
            z -= 1
        out.append(z)
        left -= z
    return out
