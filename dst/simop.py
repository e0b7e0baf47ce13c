"""A SciPy linear operator under the control of the simulator.

Every product is an event. Faults are scheduled by the index of the product (counted since
``arm``): exceptions, NaN- or garbage-corrupted results.
"""

import numpy
from scipy.sparse.linalg import LinearOperator

from dst.core import EXCEPTIONS


class SimOp(LinearOperator):
    def __init__(self, A, ctx=None, inner=None, record=False):
        """``A``: dense matrix (float64). ``inner``: operator that does the real work."""
        self.A = A
        self.ctx = ctx
        self.inner = inner
        self.calls = []  # inputs of all products since the last reset
        self.record = record
        self.fault = None
        self.n = 0
        self.fired = False
        self.on_product = None
        super().__init__(A.dtype, A.shape)

    def arm(self, fault):
        """``{"n": index, "times": count, "k": "raise"|"nan"|"inf", "exc": name}``"""
        self.fault, self.n, self.fired = fault, 0, False
        if fault is not None and fault["k"] == "raise":
            self.exc = EXCEPTIONS[fault["exc"]](f"injected at product {fault['n']}")

    def _product(self, x, adjoint):
        i = self.n
        self.n += 1
        if self.on_product is not None:
            self.on_product(i)
        if self.record:
            self.calls.append((numpy.array(x, copy=True), adjoint))
        f = self.fault
        hit = f is not None and f["n"] <= i < f["n"] + f.get("times", 1)
        if hit and f["k"] == "raise":
            self._fire("product-raises")
            raise self.exc
        if self.inner is not None and not adjoint:
            y = self.inner @ x
        elif self.inner is not None and hasattr(self.inner, "adjoint"):
            y = self.inner.adjoint() @ x
        else:
            y = (self.A.conj().T if adjoint else self.A) @ x
        if hit:
            self._fire("product-" + f["k"])
            y = numpy.array(y, copy=True)
            if y.dtype.kind in "iub":
                y = y.astype(float)
            flat = y.reshape(-1)
            flat[f.get("at", 0) % flat.size] = {
                "nan": numpy.nan,
                "inf": numpy.inf,
            }[f["k"]]
        return y

    def _fire(self, kind):
        self.fired = True
        if self.ctx is not None:
            self.ctx.fired(kind)

    def _matvec(self, x):
        return self._product(x, False)

    def _rmatvec(self, x):
        return self._product(x, True)

    def _matmat(self, X):
        return self._product(X, False)

    def _rmatmat(self, X):
        return self._product(X, True)


def rand(shape, seed, dtype=numpy.float64):
    """Deterministic Gaussian array, independent of all global generators."""
    rng = numpy.random.Generator(numpy.random.PCG64(seed))
    return rng.standard_normal(shape).astype(dtype)


def spectrum_matrix(lam, seed):
    """Symmetric matrix with the given eigenvalues and random eigenvectors."""
    n = len(lam)
    Q, R = numpy.linalg.qr(rand((n, n), seed))
    Q = Q * numpy.sign(numpy.diag(R))
    A = (Q * numpy.asarray(lam, dtype=float)) @ Q.T
    return (A + A.T) / 2
