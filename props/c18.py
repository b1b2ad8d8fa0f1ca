"""KL divergence and log-density of normals given by natural parameters."""
import lab as B
import numpy as np
from gpcm.normal import NaturalNormal
from symx.explore import Harness
from props.c17 import precision


def solve_lower(L, b, n):
    x = []
    for i in range(n):
        r = b[i]
        for j in range(i):
            r = r - L[i, j] * x[j]
        x.append(r / L[i, i])
    return x


def inv_lower(c, L, n):
    cols = [solve_lower(L, [c.const(1.0 if i == j else 0.0) for i in range(n)], n) for j in range(n)]
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def logdet(L, n):
    r = 0
    for i in range(n):
        r = r + 2 * np.log(L[i, i])
    return r


def kl(c, n, how1, how2):
    p1, P1, L1 = precision(c, "k", n, how1)
    p2, P2, L2 = precision(c, "l", n, how2)
    m1, m2 = c.mat("a", n, 1), c.mat("b", n, 1)
    q1, q2 = NaturalNormal(P1 @ m1, p1), NaturalNormal(P2 @ m2, p2)
    W = inv_lower(c, L1, n)  # S1 = W^T W
    tr = 0
    for i in range(n):
        for j in range(n):
            for k in range(n):
                tr = tr + P2[i, j] * W[k][j] * W[k][i]
    d = m1 - m2
    quad = (d.T @ P2 @ d)[0, 0]
    want = 0.5 * (tr - logdet(L2, n) + logdet(L1, n) + quad - n)
    c.eq("KL", q1.kl(q2), want)
    c.eq("KL to itself", q1.kl(NaturalNormal(P1 @ m1, p1)), c.const(0.0))
    c.eq("KL, means already used", (q1.mean, q1.var, q1.kl(q2))[-1], want)


def logpdf(c, n, how):
    p, P, L = precision(c, "l", n, how)
    m, x = c.mat("m", n, 1), c.mat("x", n, 1)
    q = NaturalNormal(P @ m, p)
    d = x - m
    quad = (d.T @ P @ d)[0, 0]
    want = 0.5 * logdet(L, n) - 0.5 * n * np.log(2 * c.pi) - 0.5 * quad
    c.eq("log-density", q.logpdf(x), want)
    # the corresponding normal says the same
    c.eq("log-density of the mean/variance form", q.to_normal().logpdf(x), want)
    # ratio of densities is the tilt by lam
    y = c.mat("y", n, 1)
    c.eq("ratio", q.logpdf(x) - q.logpdf(y), ((P @ m).T @ (x - y))[0, 0] - 0.5 * (x.T @ P @ x - y.T @ P @ y)[0, 0])


_b = "dimension one to three, general precisions by their Cholesky factors"
_k = [("dense", "dense"), ("diag", "diag"), ("array", "diag"), ("diag", "dense")]
HARNESSES = [
    Harness(kl, [dict(n=n, how1=a, how2=b) for n in (1, 2) for a, b in _k] + [dict(n=3, how1="diag", how2="diag"), dict(n=3, how1="diag", how2="dense")],
            [dict(n=3, how1=a, how2=b) for a, b in _k], bounds=_b, timeout_ms=30000),
    Harness(logpdf, [dict(n=n, how=h) for n in (1, 2) for h in ("array", "dense", "diag")] + [dict(n=3, how="diag")],
            [dict(n=3, how="dense")], bounds=_b),
]
