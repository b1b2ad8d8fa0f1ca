"""Mean-field coordinate updates."""
import lab.jax as B
import numpy as np
import gpcm.approx
from gpcm.normal import NaturalNormal
from symx.explore import Harness
from props.c20 import log_density
from props.toy import times, toy


def normal(c, stem, n, mean=None):
    """(the normal, mean, second moment, precision)"""
    L = np.diag(c.vec("Lq" + stem, n, positive=True)) if n > 2 else c.tril("Lq" + stem, n)
    m = c.mat("m" + stem, n, 1) if mean is None else mean
    P = L @ L.T
    L = c.out(L)
    from props.toy import Spec
    W = Spec.inverse(_C(c), L)
    return NaturalNormal(P @ m, P), m, W + m @ m.T, P


class _C:
    def __init__(self, c):
        self.c = c


def set_prior(c, a, s, k):
    """Condition `k` times and fit arbitrary posteriors; returns log prior densities (up to constants)."""
    pu = lambda x: -0.5 * (x.T @ s.K_u @ x)[0, 0]
    pz = lambda x: -0.5 * (x.T @ s.K_z @ x)[0, 0]
    for i in range(k):
        qu, _, _, _ = normal(c, f"pu{i}", s.n_u)
        qz, _, _, _ = normal(c, f"pz{i}", s.n_z)
        a.q_u, a.q_z = qu, qz
        a.condition(times(c, s, f"old{i}", 1), c.arr(f"yold{i}", 1))
        pu, pz = (lambda x, q=qu: log_density(q, x)), (lambda x, q=qz: log_density(q, x))
    return pu, pz


def update(c, of, n_u, n_z, n, k):
    model, s = toy(c, n_u, n_z, "mean-field-ca", diag_u=n_u > 2, diag_z=n_z > 2)
    a = model().approximation
    pu, pz = set_prior(c, a, s, k)
    t, y = times(c, s, "t", n), c.arr("y", n)
    ts = a.construct_terms(t, y)
    if of == "u":
        o, m, m2, _ = normal(c, "q", n_z)
        q = a.q_u_optimal_mean_field(ts, o)
        x, prior, at = c.mat("u", n_u, 1), pu, lambda x: s.loglik(t, y, x, x @ x.T, m, m2)
    else:
        o, m, m2, _ = normal(c, "q", n_u)
        q = a.q_z_optimal_mean_field(ts, o)
        x, prior, at = c.mat("z", n_z, 1), pz, lambda x: s.loglik(t, y, m, m2, x, x @ x.T)
    # the maximiser is proportional to prior times exponentiated expected log-likelihood
    c.eq(f"log q({of}) up to a constant", log_density(q, x), at(x) - at(0 * x) + prior(x))
    c.eq("the precision is symmetric", B.dense(q.prec), B.dense(q.prec).T)
    c.eq("the other factor is left alone", B.dense(o.lam), B.dense(o.prec) @ m)


class Steps:
    """Arbitrary outcomes of the updates, and what was asked."""

    def __init__(self, c, a):
        self.c, self.log, self.a = c, [], a
        a.q_u_optimal_mean_field = lambda ts, q: self.step("u", ts, q)
        a.q_z_optimal_mean_field = lambda ts, q: self.step("z", ts, q)

    def step(self, of, ts, q):
        c, i = self.c, len(self.log)
        lam, prec = c.mat(f"lam{i}", 1, 1), c.mat(f"prec{i}", 1, 1, positive=True)
        self.log.append((of, ts, 1 * B.dense(q.lam), 1 * B.dense(q.prec), lam, prec))
        return NaturalNormal(lam, prec)


def order(c, iters, callback, k=0):
    model, s = toy(c, 1, 1, "mean-field-ca")
    inst = model()
    a = inst.approximation
    set_prior(c, a, s, k)
    t, y = times(c, s, "t", 1), c.arr("y", 1)
    q_u, _, _, _ = normal(c, "u", 1)
    q_z, _, _, _ = normal(c, "z", 1)
    a.q_u, a.q_z = q_u, q_z
    want_ts = a.construct_terms(t, y)
    st = Steps(c, a)
    calls = []
    kw = dict(callback=lambda u, z: calls.append((u, z))) if callback else {}
    gpcm.approx._fit_mean_field_ca(inst, t, y, iters, **kw)
    n = len(st.log)
    c.true("pairs of updates, at most as many as asked", n % 2 == 0 and 2 <= n <= 2 * iters)
    last_u, last = q_u, q_z
    for i, (of, ts, lam, prec, nlam, nprec) in enumerate(st.log):
        c.true("alternates", of == "uz"[i % 2])
        c.eq("data", ts.y, y)
        c.eq("terms at the new times", ts.I_uz_sum, want_ts.I_uz_sum)
        c.eq("terms at the new times", ts.A_sum, want_ts.A_sum)
        c.eq("terms at the new times", ts.B_sum, want_ts.B_sum)
        given = (B.dense(q_z.lam), B.dense(q_z.prec)) if i == 0 else st.log[i - 1][4:]
        c.eq("from the other factor's latest lam", lam, given[0])
        c.eq("from the other factor's latest precision", prec, given[1])
    for nm, got, want in (("u", a.q_u, st.log[-2]), ("z", a.q_z, st.log[-1])):
        c.eq(f"stored lam of {nm}", B.dense(got.lam), want[4])
        c.eq(f"stored precision of {nm}", B.dense(got.prec), want[5])
    # stopping early needs that nothing moved (by more than a millionth)
    if n < 2 * iters:
        prev = (B.dense(q_u.lam), B.dense(q_u.prec), B.dense(q_z.lam), B.dense(q_z.prec)) if n == 2 else st.log[-4][4:] + st.log[-3][4:]
        for x, w in zip(st.log[-2][4:] + st.log[-1][4:], prev):
            c.always("converged", "le", (x - w)[0, 0], 1e-5)
            c.always("converged", "le", (w - x)[0, 0], 1e-5)
    if callback:
        c.true("callback after every round", len(calls) == n // 2)
        for i, (u, z) in enumerate(calls):
            c.eq("callback u", B.dense(u.lam), st.log[2 * i][4])
            c.eq("callback z", B.dense(z.prec), st.log[2 * i + 1][5])


_b = "arbitrary integrals; one to three inducing variables (three: diagonal covariances), one to three observations; prior of the model or one or two earlier posteriors"
_s = [(1, 1, 1), (1, 1, 3), (2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 2, 2)]
HARNESSES = [
    Harness(update, [dict(of=of, n_u=a, n_z=b, n=n, k=k) for of in "uz" for a, b, n in _s for k in (0, 1) if k == 0 or n < 3] + [dict(of=of, n_u=1, n_z=1, n=1, k=2) for of in "uz"],
            [dict(of=of, n_u=a, n_z=b, n=n, k=k) for of in "uz" for a, b, n, k in ((2, 2, 4, 0), (3, 2, 2, 0), (2, 3, 2, 0), (2, 2, 2, 2))], bounds=_b),
    Harness(order, [dict(iters=i, callback=cb) for i in (1, 2) for cb in (False, True)] + [dict(iters=1, callback=False, k=1)], [dict(iters=3, callback=True), dict(iters=2, callback=True, k=2)], bounds="at most three rounds with arbitrary outcomes"),
]
