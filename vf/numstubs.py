"""Concrete operands of the contracts (runtime reading): convex functions with exact prox."""
from __future__ import annotations

import hashlib

import numpy as np


def _h(B, name):
    return np.random.default_rng(int(hashlib.md5(('%s/%d' % (name, B.seed)).encode()).hexdigest()[:8], 16))


def make_prox(B, name, grad=True, inplace=False, dual=True, value='real', check=False):
    base = B.P.ProxOperator
    r = _h(B, name)
    w, s = float(r.uniform(0.2, 1.0)), float(r.uniform(0.05, 0.6)) * (0 if grad == 'smooth' else 1)
    ph = float(r.uniform(0, 6))

    class NumProx(base):
        """f(x) = w/2 |x|^2 + s |x|_1 + c.x with c varying along the components"""

        def __init__(self):
            super().__init__(None, bool(grad))
            self.ncalls = 0

        def _c(self, x):
            n = np.asarray(x).size
            return (np.cos(ph + 1.7 * np.arange(n)) * 0.7).reshape(np.shape(x))

        def prox(self, x, tau, **k):
            if check and np.any(np.asarray(tau) <= 0):
                raise ValueError('tau must be positive')
            self.ncalls += 1
            if inplace:
                return x
            y = x - tau * self._c(x)
            return np.sign(y) * np.maximum(np.abs(y) - tau * s, 0) / (1.0 + tau * w)

        def proxdual(self, x, tau, **k):
            if check and np.any(np.asarray(tau) <= 0):
                raise ValueError('tau must be positive')
            if inplace:
                return x
            return x - tau * NumProx.prox(self, x / tau, 1.0 / tau)

        def __call__(self, x):
            if value == 'bool':
                return bool(np.sum(x) > -0.5)
            return float(w / 2 * np.sum(x * x) + s * np.sum(np.abs(x)) + np.sum(self._c(x) * x) + 0.01)

        def grad(self, x):
            return w * x + s * np.tanh(3 * x) + self._c(x)
    p = NumProx()
    return p


def make_linop(B, name, m, n, explicit, identity, orth):
    import pylops
    m = B.dim(m) if isinstance(m, str) else int(m)
    n = B.dim(n) if isinstance(n, str) else int(n)
    if identity:
        return pylops.Identity(n, inplace=True)
    r = _h(B, name)
    A = r.normal(size=(m, n)) / max(1.0, np.sqrt(max(m, n)))
    if orth is not None:
        # A A^H = orth I needs m <= n
        q, _ = np.linalg.qr(r.normal(size=(n, n)))
        mm = min(m, n)
        A = q[:mm] * np.sqrt(float(orth))
    B.inputs[name] = A
    op = pylops.MatrixMult(A)
    if not explicit:
        op = pylops.LinearOperator(op) if False else _Free(A)
    return op


def _Free(A):
    import pylops

    class Free(pylops.LinearOperator):
        def __init__(self):
            super().__init__(dtype=np.dtype('float64'), shape=A.shape)
            self.explicit = False

        def _matvec(self, x):
            return A @ x

        def _rmatvec(self, x):
            return A.T @ x
    return Free()


def make_bilinear(B, name):
    """1/2 |X Y - D|^2 written independently of the package"""
    base = B.mod('utils.bilinear').BilinearOperator
    n, k, m = B.dim(name + '.n', 1, 4), B.dim(name + '.k', 1, 3), B.dim(name + '.m', 1, 4)
    D = _h(B, name).normal(size=(n, m))

    class NumBilinear(base):
        def __init__(self):
            super().__init__()
            self.x = self.y = None
            self.sizex, self.sizey = n * k, k * m

        def gx(self, x, y):
            Y = y.reshape(k, m)
            return ((x.reshape(n, k) @ Y - D) @ Y.T).ravel()

        def gy(self, x, y):
            X = x.reshape(n, k)
            return (X.T @ (X @ y.reshape(k, m) - D)).ravel()

        def val(self, x, y):
            return float(0.5 * np.sum((x.reshape(n, k) @ y.reshape(k, m) - D) ** 2))

        def gradx(self, x):
            return self.gx(x, self.y)

        def grady(self, y):
            return self.gy(self.x, y)

        def __call__(self, x, y=None):
            if y is None:
                x, y = x[:n * k], x[n * k:]
            return self.val(x, y)

        def grad(self, x):
            return np.hstack([self.gx(x[:n * k], self.y), self.gy(self.x, x[n * k:])])

        def lx(self, x):
            X = x.reshape(n, k)
            return float(np.sqrt(np.sum((X.T @ X) ** 2))) + 0.1

        def ly(self, y):
            Y = y.reshape(k, m)
            return float(np.sqrt(np.sum((Y @ Y.T) ** 2))) + 0.1
    h = NumBilinear()
    h.nx, h.ny = n * k, k * m
    return h
