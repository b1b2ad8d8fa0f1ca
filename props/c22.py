"""The mean-field evidence lower bound."""
import lab.jax as B
import numpy as np
from gpcm.normal import NaturalNormal
from symx.explore import Harness
from props.c18 import logdet
from props.c21 import normal
from props.toy import times, toy, tr


def kl(c, n, m, W, L, P0, m0, L0):
    """KL(N(m, W W') || N(m0, P0^-1)), where the precisions are L L' and P0 = L0 L0'."""
    d = m - m0
    return 0.5 * (tr(P0 @ W) + (d.T @ P0 @ d)[0, 0] - n - logdet(L0, n) + logdet(L, n))


def posterior(c, stem, n):
    """(normal, mean, variance, Cholesky factor of the precision, precision)"""
    L = np.diag(c.vec("Lq" + stem, n, positive=True)) if n > 2 else c.tril("Lq" + stem, n)
    q, m, m2, P = normal(c, stem, n)
    return q, m, m2, m2 - m @ m.T, L, P


def setting(c, n_u, n_z, n, k, scheme="mean-field-ca"):
    model, s = toy(c, n_u, n_z, scheme)
    inst = model()
    a = inst.approximation
    prior = [(0 * c.mat("mu", n_u, 1), s.Lu, s.K_u), (0 * c.mat("mz", n_z, 1), s.Lz, s.K_z)]
    for i in range(k):
        qu, mu, _, _, Lu, Pu = posterior(c, f"pu{i}", n_u)
        qz, mz, _, _, Lz, Pz = posterior(c, f"pz{i}", n_z)
        a.q_u, a.q_z = qu, qz
        inst.condition(times(c, s, f"old{i}", 1), c.arr(f"yold{i}", 1))
        prior = [(mu, Lu, Pu), (mz, Lz, Pz)]
    return model, inst, a, s, prior


def elbo(c, n_u, n_z, n, k, how):
    model, inst, a, s, (pu, pz) = setting(c, n_u, n_z, n, k)
    t, y = times(c, s, "t", n), c.arr("y", n)
    qu, mu, mu2, Vu, Lu, _ = posterior(c, "u", n_u)
    qz, mz, mz2, Vz, Lz, _ = posterior(c, "z", n_z)
    a.q_u, a.q_z = qu, qz
    want = s.loglik(t, y, mu, mu2, mz, mz2) - kl(c, n_u, mu, Vu, Lu, pu[2], pu[0], pu[1]) - kl(c, n_z, mz, Vz, Lz, pz[2], pz[0], pz[1])
    state = B.create_random_state(inst.dtype, seed=3)
    if how == "model":
        c.eq("ELBO", inst.elbo(t, y), want)
    elif how == "model, none":
        c.eq("ELBO", inst.elbo(t, y, collapsed=None), want)
    else:
        st, r = a.elbo(state, t, y)
        c.eq("ELBO", r, want)
        c.eq("the state still gives the same draws", B.randn(st, inst.dtype, 1)[1], B.randn(state, inst.dtype, 1)[1])
    for nm, got, q in (("u", a.q_u, qu), ("z", a.q_z, qz)):
        c.eq(f"q({nm}) is left alone", B.dense(got.lam), B.dense(q.lam))
        c.eq(f"q({nm}) is left alone", B.dense(got.prec), B.dense(q.prec))


def natural(s, of, t, y, prior, m, m2):
    """Natural parameters of prior times exponentiated expected log-likelihood."""
    m0, _, P0 = prior
    lam, prec = P0 @ m0, P0
    Ux = s.I_ux(None, None)
    for i in range(len(y)):
        uz, hz = s.I_uz(t[i]), s.I_hz(t[i])
        if of == "z":
            lam = lam + y[i] * (uz.T @ m) / s.noise
            prec = prec + (hz + uz.T @ (m2 - s.iK_u) @ uz) / s.noise
        else:
            lam = lam + y[i] * (uz @ m) / s.noise
            prec = prec + (Ux + uz @ (m2 - s.iK_z) @ uz.T) / s.noise
    return lam, prec


def collapsed(c, over, n_u, n_z, n, k, how):
    model, inst, a, s, (pu, pz) = setting(c, n_u, n_z, n, k)
    t, y = times(c, s, "t", n), c.arr("y", n)
    qu, mu, mu2, Vu, Lu, _ = posterior(c, "u", n_u)
    qz, mz, mz2, Vz, Lz, _ = posterior(c, "z", n_z)
    a.q_u, a.q_z = qu, qz
    if over == "z":
        lam, prec = natural(s, "z", t, y, pz, mu, mu2)
        m, po, keep = NaturalNormal(lam, prec), pz, kl(c, n_u, mu, Vu, Lu, pu[2], pu[0], pu[1])
        ll = s.loglik(t, y, mu, mu2, B.dense(m.mean), B.dense(m.m2))
    else:
        lam, prec = natural(s, "u", t, y, pu, mz, mz2)
        m, po, keep = NaturalNormal(lam, prec), pu, kl(c, n_z, mz, Vz, Lz, pz[2], pz[0], pz[1])
        ll = s.loglik(t, y, B.dense(m.mean), B.dense(m.m2), mz, mz2)
    want = ll - keep - m.kl(NaturalNormal(po[2] @ po[0], po[2]))
    if how == "model":
        got = inst.elbo(t, y, collapsed=over)
    else:
        _, got = a.elbo(B.create_random_state(inst.dtype, seed=3), t, y, collapsed=over)
    c.eq(f"ELBO collapsed over {over}", got, want)


def refused(c, what):
    model, s = toy(c, 1, 1, "mean-field")
    t, y = times(c, s, "t", 1), c.arr("y", 1)
    c.raises("refused", ValueError, lambda: model.elbo(t, y, collapsed=what))


_b = "one or two inducing variables each, one or two observations; prior of the model or an earlier posterior; arbitrary integrals"
_s = [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 1), (2, 2, 2)]
HARNESSES = [
    Harness(elbo, [dict(n_u=a, n_z=b, n=n, k=k, how=["model", "approximation", "model, none"][(a + b + n + k) % 3]) for a, b, n in _s for k in (0, 1)],
            [dict(n_u=a, n_z=b, n=n, k=k, how="model") for a, b, n, k in ((2, 2, 3, 1), (3, 2, 2, 0), (2, 3, 1, 1), (1, 1, 1, 2))], bounds=_b, timeout_ms=30000),
    Harness(collapsed, [dict(over=o, n_u=1, n_z=1, n=n, k=k, how="model" if n == 1 else "approximation") for o in "uz" for n in (1, 2) for k in (0, 1)], [], bounds=_b, timeout_ms=30000),
    Harness(refused, [dict(what=w) for w in ("x", "zu", "", "Z")], bounds=_b),
]
