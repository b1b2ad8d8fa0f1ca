"""Predictions of kernels, spectra and features."""
import lab.jax as B
import numpy as np
from symx.explore import Harness
from props.c21 import normal
from props.c36 import coarse, summaries
from props.toy import flat, fresh, replaced, times, toy


def conditioned(c, n_u, n_z, scheme, k):
    """Prior, or posterior after one round; `k` Gibbs samples."""
    model, s = toy(c, n_u, n_z, scheme, diag_u=n_u > 2, diag_z=n_z > 2)
    info = None
    if k:
        a = model().approximation
        if scheme == "structured":
            us, zs = [c.mat(f"u{j}", n_u, 1) for j in range(k)], [c.mat(f"z{j}", n_z, 1) for j in range(k)]
            a.q_u_samples, a.q_z_samples = us, zs
            info = zs
        else:
            a.q_u = normal(c, "qu", n_u)[0]
            q, m, m2, P = normal(c, "qz", n_z)
            a.q_z = q
            info = (m, m2)
        model = model.condition(times(c, s, "d", 1), c.arr("y", 1))
    return model, s, info


def samples_of(c, m, t, num):
    c.global_state.set_state(("sym", "g", 0))
    r = m.sample_kernel(*t, num_samples=num)
    c.global_state.set_state(("sym", "g", 0))
    return r


def grid(c, s, given, n):
    s.table.give(c.const(np.zeros(1)))
    if given:
        t = times(c, s, "t", n)
        return [t], t
    return [], None


def kernel(c, n_u, scheme, k, num, given, how="model"):
    m, s, _ = conditioned(c, n_u, 1, scheme, k)
    if how == "instance":
        m = m()
    ar, t = grid(c, s, given, 2)
    sizes = []
    with coarse(c, sizes):
        if not given:
            t = c.stack([0 * s.extent, 0.5 * s.extent, 1 * s.extent])
            times_given = s.table.give(t[1:])
        x0, ks = samples_of(c, m, ar, num)
        with summaries() as seen:
            r = m.predict_kernel(*ar, num_samples=num)
    c.true("grid", sizes == ([] if given else [300, 300]))
    c.true("one summary, which is returned", len(seen) == 1 and r is seen)
    x, got, db = seen[0]
    c.eq("times", x, t)
    c.eq("times of the samples", x0, t)
    c.eq("the samples", got, ks)
    c.true("not in decibels", not db)


class Spectra:
    """Any estimate of the spectrum: determined by the kernel."""

    def __init__(self, c, t):
        self.c, self.t = c, t

    def __call__(self, t, k, n_zero=2000, db=False):
        c = self.c
        c.eq("lags", t, self.t)
        n = k.shape[0]
        psd = c.stack([sum((i + 1) ** (j + 1) * k[i] ** 2 for i in range(n)) + j + 1 for j in range(n)])
        return self.freqs(t), (10 * np.log10(psd) if db else psd)

    def freqs(self, t):
        return self.c.stack([j / (t[1] - t[0]) for j in range(t.shape[0])])


def psd(c, n_u, scheme, k, num, given):
    m, s, _ = conditioned(c, n_u, 1, scheme, k)
    s.table.give(c.const(np.zeros(1)))
    sizes = []
    if given:
        d = c.pos("d")
        t = c.stack([0 * d, d, 2 * d])
        s.table.give(t[1:])
        ar = [t]
    else:
        t = c.stack([0 * s.extent, s.extent, 2 * s.extent])
        s.table.give(t[1:])
        ar = []
    est = Spectra(c, t)
    with coarse(c, sizes), replaced("estimate_psd", est):
        _, ks = samples_of(c, m, [t], num)
        with summaries() as seen:
            r = m.predict_psd(*ar, num_samples=num)
    c.true("grid", sizes == ([] if given else [1000]))
    c.true("one summary, which is returned", len(seen) == 1 and r is seen)
    x, got, db = seen[0]
    c.eq("frequencies", x, est.freqs(t))
    c.true("in decibels", db)
    c.true("number of samples", np.shape(got) == (num, 3))
    for i in range(num):
        c.eq("spectra of the samples", got[i], est(t, ks[i])[1])


def refused(c, scheme):
    """The lags have to start at zero."""
    m, s, _ = conditioned(c, 1, 1, scheme, 0)
    s.table.give(c.const(np.zeros(1)))
    d, e = c.pos("d"), c.real("e")
    c.assume("ne", e, 0)
    t = c.stack([e, e + d, e + 2 * d])
    s.table.give(t)

    def estimate(t, k, n_zero=2000, db=False):
        if t[0] != 0:
            raise ValueError()  # see C30
        return t, k

    with coarse(c, []), replaced("estimate_psd", estimate):
        c.raises("lags that start elsewhere", ValueError, lambda: m.predict_psd(t, num_samples=1))


def fourier(c, n_z, scheme, k, num, how):
    m, s, info = conditioned(c, 1, n_z, scheme, k)
    if how == "instance":
        m = m()
    kw = {} if num is None else dict(num_samples=num)
    c.global_state.set_state(("sym", "g", 0))
    mean, var = m.predict_fourier(**kw)
    c.true("shapes", np.shape(mean) == (n_z,) and np.shape(var) == (n_z,))
    if scheme == "mean-field":
        mu, m2 = info or (0 * c.mat("m0", n_z, 1), s.iK_z)
        for i in range(n_z):
            c.eq("mean", mean[i], mu[i, 0])
            c.eq("variance", var[i], m2[i, i] - mu[i, 0] ** 2)
        return
    if k:
        zs = info[:num] if num is not None else info
    else:
        c.global_state.set_state(("sym", "g", 0))
        _, z = m().approximation.p_z.sample(c.global_state.copy(), num) if how != "instance" else m.approximation.p_z.sample(c.global_state.copy(), num)
        zs = [z[:, j:j + 1] for j in range(num)]
        fresh(c, lambda: m.predict_fourier(**kw))
    for i in range(n_z):
        mu = sum(z[i, 0] for z in zs) / len(zs)
        c.eq("mean", mean[i], mu)
        c.eq("variance", var[i], sum((z[i, 0] - mu) ** 2 for z in zs) / len(zs))


_b = "one or two inducing variables, two or three lags, one to three samples; default grids by their range and size; any estimator of the spectrum (see C30) and any summary (see C33)"
HARNESSES = [
    Harness(kernel, [dict(n_u=a, scheme=s, k=k, num=num, given=g) for a, s, k, num in ((1, "structured", 0, 2), (2, "structured", 2, 2), (1, "structured", 3, 2), (2, "mean-field", 0, 1), (1, "mean-field", 1, 2)) for g in (True, False)]
            + [dict(n_u=1, scheme="mean-field", k=1, num=1, given=True, how="instance")], [dict(n_u=2, scheme=s, k=2, num=3, given=True) for s in ("structured", "mean-field")], bounds=_b),
    Harness(psd, [dict(n_u=a, scheme=s, k=k, num=num, given=g) for a, s, k, num in ((1, "structured", 0, 1), (2, "structured", 2, 2), (1, "mean-field", 1, 2), (1, "mean-field", 0, 2)) for g in (True, False)], [], bounds=_b),
    Harness(refused, [dict(scheme=s) for s in ("structured", "mean-field")], [], bounds=_b),
    Harness(fourier, [dict(n_z=n, scheme="mean-field", k=k, num=num, how=h) for n in (1, 2) for k in (0, 1) for num, h in ((None, "model"), (3, "instance"))]
            + [dict(n_z=n, scheme="structured", k=k, num=num, how=h) for n, k, num, h in ((1, 0, 2, "model"), (2, 0, 1, "instance"), (2, 0, 2, "model"), (1, 3, None, "model"), (2, 2, 2, "instance"), (2, 3, 2, "model"))],
            [dict(n_z=3, scheme=s, k=3, num=3, how="model") for s in ("structured", "mean-field")], bounds=_b),
]
