"""The conditional posteriors q(u|z) and q(z|u)."""
import lab.jax as B
import numpy as np
from gpcm.approx import MeanField, Structured
from symx.explore import Harness
from props.toy import times, toy


def log_density(q, x):
    return (B.dense(q.lam).T @ x)[0, 0] - 0.5 * (x.T @ B.dense(q.prec) @ x)[0, 0]


def conditional(c, of, n_u, n_z, n, dims=None, scheme="structured"):
    model, s = toy(c, n_u, n_z, scheme, diag_u=n_u > 2, diag_z=n_z > 2)
    a = model().approximation
    t, y = times(c, s, "t", n), c.arr("y", n)
    ts = a.construct_terms(t, y)
    u, z = c.mat("u", n_u, 1), c.mat("z", n_z, 1)
    if of == "u":
        q = a.q_u_optimal(ts, z)
        x, K, at = u, s.K_u, lambda x: s.loglik(t, y, x, x @ x.T, z, z @ z.T)
    else:
        q = a.q_z_optimal(ts, u)
        x, K, at = z, s.K_z, lambda x: s.loglik(t, y, u, u @ u.T, x, x @ x.T)
    want = at(x) - at(0 * x) - 0.5 * (x.T @ K @ x)[0, 0]
    c.eq(f"log q({of}|.) up to a constant", log_density(q, x), want)
    c.eq("the precision is symmetric", B.dense(q.prec), B.dense(q.prec).T)
    c.true("dimension", q.dim == (n_u if of == "u" else n_z))


def again(c, of):
    """Another value, and other observations, with the same approximation."""
    model, s = toy(c, 1, 1)
    a = model().approximation
    t, y = times(c, s, "t", 2), c.arr("y", 2)
    t2, y2 = times(c, s, "r", 1), c.arr("w", 1)
    ts = a.construct_terms(t, y)
    first = getattr(a, f"q_{of}_optimal")(ts, c.mat("x", 1, 1))
    rs = a.construct_terms(t2, y2)
    v, x = c.mat("v", 1, 1), c.mat("p", 1, 1)
    K = s.K_u if of == "u" else s.K_z
    for terms, tt, yy in ((rs, t2, y2), (ts, t, y)):
        q = getattr(a, f"q_{of}_optimal")(terms, v)
        at = (lambda x: s.loglik(tt, yy, x, x @ x.T, v, v @ v.T)) if of == "u" else (lambda x: s.loglik(tt, yy, v, v @ v.T, x, x @ x.T))
        c.eq("log q up to a constant", log_density(q, x), at(x) - at(0 * x) - 0.5 * (x.T @ K @ x)[0, 0])


_b = "arbitrary integrals, covariances of one to three inducing variables (three: diagonal), one to three observations, any noise and data"
HARNESSES = [
    Harness(conditional, [dict(of=of, n_u=a, n_z=b, n=n) for of in "uz" for a, b, n in ((1, 1, 1), (1, 1, 3), (2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 2, 2))]
            + [dict(of=of, n_u=1, n_z=2, n=1, scheme="mean-field") for of in "uz"],
            [dict(of=of, n_u=a, n_z=b, n=n) for of in "uz" for a, b, n in ((2, 2, 4), (3, 2, 2), (2, 3, 2), (3, 3, 1))], bounds=_b),
    Harness(again, [dict(of=of) for of in "uz"], bounds=_b),
]
