"""Posterior-predictive moments."""
import lab.jax as B
import numpy as np
from symx.explore import Harness
from props.c21 import normal
from props.c22 import natural, posterior
from props.c23 import pinned
from props.toy import flat, fresh, times, toy


def check(c, s, got, t, mixture):
    """`mixture` are the first and second moments of u and z, all equally likely."""
    mean, var = got
    c.true("shapes", np.shape(mean) == np.shape(t) and np.shape(var) == np.shape(t))
    for i, x in enumerate(flat(t)):
        m1, m2 = 0, 0
        for u, uu, z, zz in mixture:
            a, b = s.moments(x, u, uu, z, zz)
            m1, m2 = m1 + a / len(mixture), m2 + b / len(mixture)
        c.eq("mean", mean[i], m1)
        c.eq("variance", var[i], m2 - m1**2 + s.noise)


def setup(c, n_u, n_z, scheme, n):
    model, s = toy(c, n_u, n_z, scheme, diag_u=n_u > 2, diag_z=n_z > 2)
    t, y, r = times(c, s, "t", n), c.arr("y", n), times(c, s, "r", 2)
    return model, s, t, y, r


def mean_field(c, n_u, n_z, n, k, how):
    model, s, t, y, r = setup(c, n_u, n_z, "mean-field", n)
    zero = [0 * c.mat("mu", n_u, 1), 0 * c.mat("mz", n_z, 1)]
    mix = (zero[0], s.iK_u, zero[1], s.iK_z)
    post = model
    for i in range(k):
        a = post().approximation
        qu, mu, mu2, _ = normal(c, f"u{i}", n_u)
        qz, mz, mz2, _ = normal(c, f"z{i}", n_z)
        a.q_u, a.q_z = qu, qz
        post = post.condition(t, y)
        mix = (mu, mu2, mz, mz2)
    if how == "given times":
        got = post.predict(t)
        check(c, s, got, t, [mix])
    elif how == "instance":
        inst = post()
        check(c, s, inst.predict(r), r, [mix])
        check(c, s, inst.predict(r[::-1]), r[::-1], [mix])  # as many, but elsewhere
        check(c, s, inst.predict(r[:1]), r[:1], [mix])
    else:
        check(c, s, post.predict(r), r, [mix])


def structured(c, n_u, n, stored, num, how):
    """Under the posterior, with one inducing variable of z."""
    model, s, t, y, r = setup(c, n_u, 1, "structured", n)
    us = [c.mat(f"u{j}", n_u, 1) for j in range(stored)]
    a = model().approximation
    a.q_u_samples = us
    a.q_z_samples = [c.mat(f"z{j}", 1, 1) for j in range(stored)]
    mix = []
    for u in us[:num]:
        lam, prec = natural(s, "z", t, y, (0 * c.mat("m0", 1, 1), None, s.K_z), u, u @ u.T)
        c.assume("lt", 0, prec[0, 0])
        m, v = lam / prec, 1 / prec
        mix.append((u, u @ u.T, m, v + m @ m.T))
    post = model.condition(t, y)
    kw = {} if num >= stored and how == "default" else dict(num_samples=num)
    p = post() if how == "instance" else post
    check(c, s, p.predict(r, **kw), r, mix)
    if how == "instance":
        check(c, s, p.predict(r[::-1], **kw), r[::-1], mix)


def structured_pinned(c, n_u, n_z, n):
    """One sample of u, any number of inducing variables of z."""
    model, s, t, y, r = setup(c, n_u, n_z, "structured", n)
    u, M = c.mat("u", n_u, 1), c.tril("M", n_z)
    pinned(c, s, t, y, u, M)
    model().approximation.q_u_samples = [u]
    lam, _ = natural(s, "z", t, y, (0 * c.mat("m0", n_z, 1), None, s.K_z), u, u @ u.T)
    W = s.inverse(M)
    m = W @ lam
    post = model.condition(t, y)
    check(c, s, post.predict(r, num_samples=1), r, [(u, u @ u.T, m, W + m @ m.T)])


def structured_prior(c, n_u, n_z, num, how):
    model, s, t, y, r = setup(c, n_u, n_z, "structured", 1)
    inst = model()
    _, us = inst.approximation.p_u.sample(B.global_random_state(inst.dtype), num)
    zero = 0 * c.mat("mz", n_z, 1)
    mix = [(us[:, j:j + 1], us[:, j:j + 1] @ us[:, j:j + 1].T, zero, s.iK_z) for j in range(num)]
    p = model if how == "model" else inst
    check(c, s, p.predict(r, num_samples=num), r, mix)



def repeated(c, n_u, n_z, num):
    """Under the prior, predictions take fresh draws every time."""
    model, s, t, y, r = setup(c, n_u, n_z, "structured", 1)
    fresh(c, lambda: model.predict(r, num_samples=num))


_b = "one or two inducing variables each, one or two observations, two prediction times, up to three samples; arbitrary integrals"
_s = [(1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1)]
HARNESSES = [
    Harness(mean_field, [dict(n_u=a, n_z=b, n=n, k=k, how=h) for a, b, n in _s for k, h in ((0, "new times"), (1, "new times"), (1, "given times"))] + [dict(n_u=1, n_z=1, n=1, k=2, how="instance")],
            [dict(n_u=a, n_z=b, n=1, k=1, how="instance") for a, b in ((2, 2), (3, 2), (2, 3))], bounds=_b, timeout_ms=30000),
    Harness(structured, [dict(n_u=1, n=1, stored=1, num=1, how="num"), dict(n_u=1, n=2, stored=2, num=2, how="default"), dict(n_u=2, n=1, stored=2, num=1, how="num"), dict(n_u=1, n=1, stored=3, num=2, how="num"), dict(n_u=1, n=1, stored=2, num=2, how="instance")],
            [dict(n_u=2, n=2, stored=3, num=3, how="num")], bounds=_b, timeout_ms=30000),
    Harness(structured_pinned, [dict(n_u=1, n_z=2, n=1), dict(n_u=2, n_z=2, n=2)], [dict(n_u=2, n_z=3, n=1)], bounds=_b, timeout_ms=30000),
    Harness(repeated, [dict(n_u=1, n_z=1, num=2), dict(n_u=2, n_z=1, num=1)], [], bounds=_b),
    Harness(structured_prior, [dict(n_u=1, n_z=1, num=1, how="model"), dict(n_u=2, n_z=2, num=1, how="instance"), dict(n_u=1, n_z=2, num=3, how="model")], [], bounds=_b, timeout_ms=30000),
]
