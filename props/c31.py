"""Nearest positive semi-definite matrices."""
import jax.numpy as jnp
import numpy as np
from gpcm.util import closest_psd
from matrix import Dense
from symx import array as A
from symx import patch
from symx.explore import Harness

patch.JAX[0] = True


def rotation(c, n, stem="r"):
    """Any rotation (but by exactly a half turn in a plane), with rational entries."""
    V = c.const(np.eye(n))
    for i in range(n):
        for j in range(i):
            t = c.real(f"{stem}_{i}{j}")
            co, si = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            I = np.eye(n)
            rows = []
            one, zero = 1 + 0 * t, 0 * t
            for a in range(n):
                rows.append(c.stack([co if (a, b) in ((i, i), (j, j)) else -si if (a, b) == (i, j) else si if (a, b) == (j, i) else one if a == b else zero for b in range(n)]))
            V = V @ c.out(np.stack(rows))
    return V


def spectral(c, n, axes=False):
    """A symmetric matrix with its eigenvalues, in increasing order, and eigenvectors."""
    w = c.real("w_0")
    ws = [w]
    for i in range(1, n):
        w = w + c.pos(f"w_d{i}")
        ws.append(w)
    V = c.const(np.eye(n)) if axes else rotation(c, n)
    w = c.stack(ws)
    return w, V, (V * w[None, :]) @ V.T


class Eigh:
    """What the spectral decompositions of LAPACK promise, for the matrix that was registered."""

    def __init__(self, c, w, V, S):
        self.c, self.w, self.V, self.S, self.calls = c, w, V, S, 0

    def eigh(self, a):
        # reads the lower triangle
        self.calls += 1
        n = len(self.w)
        a = A.sym(a)
        for i in range(n):
            for j in range(i + 1):
                self.c.eq("decomposes the symmetric part", a[i, j], self.S[i, j])
        return A.plain(A.sym(self.w)), A.plain(A.sym(self.V))


def install(c, e):
    if not c.symbolic:
        return []
    A.EIGH[0] = e.eigh
    A.UNDEF[0] = lambda: c.fresh("undefined")  # division by zero: infinite or not a number, whatever is made of it
    return [(jnp.linalg, nm, patch._sym_or(getattr(jnp.linalg, nm), getattr(np.linalg, nm))) for nm in ("eigh", "svd", "eigvalsh")]


class Decompositions:
    def __init__(self, c, e):
        self.c, self.e = c, e

    def __enter__(self):
        self.old = []
        for obj, nm, f in install(self.c, self.e):
            self.old.append((obj, nm, getattr(obj, nm)))
            setattr(obj, nm, f)

    def __exit__(self, *a):
        for obj, nm, f in self.old:
            setattr(obj, nm, f)
        A.EIGH[0] = A.UNDEF[0] = None


def project(c, n, inv, skew, zero, wrapped, sign=None):
    w, V, S = spectral(c, n, axes=inv and zero is not None)
    if inv and zero is None:
        # an exactly singular matrix only with axis-aligned eigenvectors: rounding decides otherwise
        for i in range(n):
            c.assume("ne", w[i], 0)
    if zero is not None:
        c.assume("eq", w[zero], 0)
    if sign is not None:
        for i, s in enumerate(sign):
            c.assume("lt", *((0, w[i]) if s > 0 else (w[i], 0)))
    a = S
    if skew:
        K = c.mat("k", n, n)
        a = S + K - K.T
    keep = 1 * a
    kw = dict(inv=inv) if inv is not None else {}
    with Decompositions(c, Eigh(c, w, V, S)):
        got = closest_psd(Dense(a) if wrapped else a, **kw)
    c.eq("the matrix is left alone", a, keep)
    d = []
    for i in range(n):
        if w[i] > 0:
            d.append(1 / w[i] if inv else w[i])
        else:
            d.append(0 * w[i])
    want = (V * c.stack(d)[None, :]) @ V.T
    c.true("shape", np.shape(got) == (n, n))
    c.eq("projection", got, want)
    if inv:
        return
    # nearest: the remainder is negative semi-definite and orthogonal to the projection, by construction;
    # and a matrix without negative eigenvalues is returned as it is
    if all(not w[i] < 0 for i in range(n)):
        c.eq("a PSD matrix is returned unchanged", got, S)


_b = "matrices of up to three dimensions with distinct eigenvalues (of all signs) and any eigenvectors; LAPACK's spectral decomposition by its contract"
_k = [dict(n=n, inv=i, skew=s, zero=z, wrapped=x) for n, i, s, z, x in ((1, None, False, None, False), (1, True, False, None, False), (1, True, False, 0, False), (2, None, False, None, False), (2, True, False, None, True), (2, False, True, None, True),
                                                                (2, True, True, None, False), (2, True, False, 0, False), (2, True, False, 1, False), (2, None, True, 1, False))]
HARNESSES = [
    Harness(project, _k, [dict(n=3, inv=i, skew=s, zero=None, wrapped=False) for i in (False, True) for s in (False, True)] + [dict(n=3, inv=True, skew=False, zero=1, wrapped=False)], bounds=_b, timeout_ms=60000),
]
