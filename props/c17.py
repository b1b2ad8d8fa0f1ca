"""Moments of normals given by natural parameters."""
import itertools
import lab as B
import numpy as np
from matrix import Dense, Diagonal
from stheno import Normal
from gpcm.normal import NaturalNormal
from symx.explore import Harness


def precision(c, stem, n, how):
    """(what is passed, the dense matrix, its Cholesky factor)"""
    if how == "diag":
        l = c.vec(stem, n, positive=True)
        return Diagonal(l * l), np.diag(l * l), np.diag(l)
    L = c.tril(stem, n)
    P = L @ L.T
    return (Dense(P) if how == "dense" else P), P, L


def eye(n):
    return np.eye(n) * 1.0


def check(c, tag, q, what, lam, P, n):
    one = c.const(np.eye(n))
    if what == "mean":
        c.eq(f"{tag}: P mean = lam", P @ B.dense(q.mean), lam)
    elif what == "var":
        c.eq(f"{tag}: P var = I", P @ B.dense(q.var), one)
        c.eq(f"{tag}: var is symmetric", B.dense(q.var), B.dense(q.var).T)
    elif what == "m2":
        # P m2 P = P + lam lam^T  <=>  m2 = var + mean mean^T
        c.eq(f"{tag}: second moment", P @ B.dense(q.m2) @ P, P + lam @ lam.T)
    elif what == "dim":
        c.true(f"{tag}: dim", q.dim == n)


def moments(c, n, how, order):
    prec, P, L = precision(c, "l", n, how)
    lam = c.mat("b", n, 1)
    q = NaturalNormal(lam, prec)
    for i, what in enumerate(order):
        check(c, f"{what} after {'-'.join(order[:i])}", q, what, lam, P, n)
    for what in order:
        check(c, f"{what} again", q, what, lam, P, n)
    c.eq("second moment is var + mean mean^T", B.dense(q.m2), B.dense(q.var) + B.dense(q.mean) @ B.dense(q.mean).T)
    c.eq("the precision is left alone", B.dense(q.prec), P)
    c.eq("lam is left alone", B.dense(q.lam), lam)


def roundtrip(c, n, how):
    prec, P, L = precision(c, "l", n, how)
    lam, m = c.mat("b", n, 1), c.mat("m", n, 1)
    q = NaturalNormal(lam, prec)
    d = q.to_normal()
    c.eq("to normal: mean", P @ B.dense(d.mean), lam)
    c.eq("to normal: var", P @ B.dense(d.var), c.const(np.eye(n)))
    r = NaturalNormal.from_normal(d)
    c.eq("there and back: lam", B.dense(r.lam), lam)
    c.eq("there and back: prec", B.dense(r.prec), P)
    # the other way around
    d = Normal(m, prec)
    r = NaturalNormal.from_normal(d)
    c.eq("from normal: prec", P @ B.dense(r.prec), c.const(np.eye(n)))
    c.eq("from normal: lam", P @ B.dense(r.lam), m)
    c.eq("from normal: mean", B.dense(r.mean), m)
    e = r.to_normal()
    c.eq("back and there: mean", B.dense(e.mean), m)
    c.eq("back and there: var", B.dense(e.var), P)
    c.true("dimension", r.dim == n)


_orders = list(itertools.permutations(("mean", "var", "m2")))
_b = "dimension one to three, general precision by its Cholesky factor, every order of access"
HARNESSES = [
    Harness(moments, [dict(n=n, how=h, order=list(o)) for n, h in ((1, "array"), (2, "dense"), (2, "diag")) for o in _orders] +
            [dict(n=3, how="array", order=["m2", "dim", "mean", "var"])],
            [dict(n=3, how=h, order=list(o)) for h in ("dense", "diag") for o in _orders], bounds=_b),
    Harness(roundtrip, [dict(n=n, how=h) for n in (1, 2) for h in ("array", "dense", "diag")] + [dict(n=3, how="diag")],
            [dict(n=3, how="dense")], bounds=_b),
]
