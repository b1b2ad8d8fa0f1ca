"""Predictions of the filter."""
from contextlib import contextmanager
import lab as L
import lab.jax as B
import numpy as np
from gpcm.util import min_phase as transform
from matrix import Dense
from mlkernels import Kernel, elwise, pairwise
import mlkernels
from symx.explore import Harness
from props.c21 import normal
from props.models import gpcm_model
from props.toy import Toy, flat, fresh, replaced, times, toy
import props.c32  # Hilbert transform


class Table(Kernel):
    """A kernel by its values at the times that were handed out."""

    def __init__(self, f):
        self.f = f


@mlkernels._dispatch
def pairwise(k: Table, x: B.Numeric, y: B.Numeric):
    return Dense(k.f(x, y))


@mlkernels._dispatch
def elwise(k: Table, x: B.Numeric, y: B.Numeric):
    full = k.f(x, y)
    return B.diag(full)[:, None]


class Filtered(Toy):
    causal = False

    def k_h(self):
        return Table(self.spec.k_h)

    def k_h_acausal(self):
        return Table(self.spec.k_h)


class Given:
    """Covariances of the filter at the inducing inputs and at other times."""

    def __init__(self, c, s, n):
        self.c, self.s, self.n = c, s, n
        self.cross = c.mat("X", n, s.n_u)  # covariance with the inducing variables, times the inverse of their factor
        self.C = c.tril("C", n)  # factor of the conditional covariance
        self.rest = self.C @ self.C.T
        self.hu = self.cross @ s.Lu.T
        self.hh = self.cross @ self.cross.T + self.rest

    def install(self):
        c, s = self.c, self.s
        s.t_u = times(c, s, "tu", s.n_u)
        self.t = times(c, s, "th", self.n)

        def value(a, b):
            i, j = s.table.key(a), s.table.key(b)
            m = s.n_u
            if i < m and j < m:
                return s.K_u[i, j]
            if i >= m and j >= m:
                return self.hh[i - m, j - m]
            return self.hu[max(i, j) - m, min(i, j)]

        s.k_h = lambda x, y: c.out(np.stack([np.stack([value(a, b) for b in flat(y)]) for a in flat(x)]))
        return self.t


@contextmanager
def summaries():
    """What is summarised; the summary of it is whatever."""
    seen = []

    def f(x, samples, db=False):
        seen.append((x, samples, db))
        return seen
    with replaced("summarise_samples", f):
        yield seen


def drawn(c, f, values):
    """Outcome for given standard-normal draws, and which draws there were."""
    kinds = []

    def fix(kind, stream, k):
        kinds.append(kind)
        return values.get(k, 0.0)
    c.draws = fix
    c.global_state.set_state(("sym", "g", 0))
    try:
        with summaries() as seen:
            r = f()
    finally:
        c.draws = None
    c.true("one summary, which is returned", len(seen) == 1 and r is seen)
    x, samples, db = seen[0]
    c.true("not in decibels", not db)
    return x, samples, kinds


def setting(c, n_u, n, scheme, k, num):
    model, s = toy(c, n_u, 1, scheme, cls=Filtered, diag_u=n_u > 2)
    g = Given(c, s, n)
    t = g.install()
    model.t_u = s.t_u
    u = None
    mean, cov = [0 * c.mat("m0", n_u, 1)] * num, s.iK_u
    m = model
    if k and scheme == "structured":
        us = [c.mat(f"u{j}", n_u, 1) for j in range(k)]
        model().approximation.q_u_samples = us
        model().approximation.q_z_samples = [c.mat(f"z{j}", 1, 1) for j in range(k)]
        mean, cov = us[:num], None
    elif k:
        q, mu, mu2, P = normal(c, "q", n_u)
        a = model().approximation
        a.q_u, a.q_z = q, normal(c, "r", 1)[0]
        mean, cov = [mu] * num, mu2 - mu @ mu.T
    if k:
        m = model.condition(times(c, s, "d", 1), c.arr("y", 1))
    return m, s, g, t, mean, cov


def samples(c, n_u, n, scheme, k, num, how="model"):
    """`k`: no data (zero), or conditioned (on so many Gibbs samples)."""
    m, s, g, t, mean, cov = setting(c, n_u, n, scheme, k, num)
    if how == "instance":
        m = m()
    t0 = 1 * t
    f = lambda: m.predict_filter(t, num_samples=num, min_phase=False)
    x, h0, kinds = drawn(c, f, {})
    c.eq("times", x, t0)
    c.true("standard-normal draws only", set(kinds) <= {"n"})
    used = len(mean)
    c.true("shape", np.shape(h0) == (used, n))
    # in the directions of the draws
    D, cols = len(kinds), []
    for i in range(D):
        x, h, again = drawn(c, f, {i: 1.0})
        c.true("as many draws", len(again) == D)
        cols.append(h - h0)
    # the filter is the conditional mean plus independent noise
    hu = g.hu
    for i in range(used):
        c.eq("mean", h0[i][:, None], hu @ mean[i])
        for j in range(i + 1):
            tot = 0
            for d in cols:
                tot = tot + d[i][:, None] @ d[j][None, :]
            want = 0 * g.rest
            if i == j:
                want = g.rest + (hu @ cov @ hu.T if cov is not None else 0)
            c.eq("covariance", tot, want)
    z = {i: 0.5 * (i + 1) * (-1) ** i for i in range(D)}
    want = h0
    for i in range(D):
        want = want + z[i] * cols[i]
    _, h, _ = drawn(c, f, z)
    c.eq("linear in the draws", h, want)
    with summaries():
        fresh(c, f)


def minimum_phase(c, n_u, n, k, num, explicit):
    m, s, g, t, mean, cov = setting(c, n_u, n, "mean-field", k, num)
    c.draws = None
    z = {i: 0.5 + 0.25 * i * (-1) ** i for i in range(20)}
    _, h, kinds = drawn(c, lambda: m.predict_filter(t, num_samples=num, min_phase=False), z)
    for i in range(num):
        v = [h[i, j] for j in range(n)]
        sp = props.c32.Spectrum(c, v)
        for x in sp.mag2:
            c.assume("lt", 0, x)
    t0 = 1 * t
    kw = dict(min_phase=True) if explicit else {}
    x, got, again = drawn(c, lambda: m.predict_filter(t, num_samples=num, **kw), z)
    c.true("as many draws", again == kinds)
    for j in range(n):
        c.eq("starts at zero", x[j], t0[j] - t0[0])
    c.eq("the times are left alone", t, t0)
    for i in range(num):
        c.eq("in minimum phase", got[i], transform(h[i]))


def kernel(c, causal, n):
    m, p = gpcm_model(c, causal, 2, 1)
    s, t = c.arr("s", n), c.arr("t", n)
    K = B.dense(mlkernels.pairwise(m.k_h(), s[:, None], t[:, None]))
    D = B.dense(mlkernels.elwise(m.k_h(), s[:, None], t[:, None]))
    for i in range(n):
        for j in range(n):
            want = p.alpha_t**2 * np.exp(-p.alpha * (s[i] ** 2 + t[j] ** 2) - p.gamma * (s[i] - t[j]) ** 2)
            if causal and (s[i] < 0 or t[j] < 0):
                want = 0 * want
            c.eq("kernel", K[i, j], want)
            if i == j:
                c.eq("kernel at pairs", D[i, 0], want)


def actual(c, causal, where):
    """The whole prediction for an actual model, with two inducing inputs, at one time."""
    u = [-0.25, 1.5] if where == "right" else [-1.0, 0.5]
    m = gpcm_model_at(c, causal, u)
    p = dict(alpha_t=m.alpha_t, alpha=m.alpha, gamma=m.gamma)
    q, mu, mu2, P = normal(c, "q", 2)
    inst = m()
    inst.approximation.q_u, inst.approximation.q_z = q, normal(c, "r", 1)[0]
    K = B.dense(inst.K_u)
    post = m.condition(c.const(np.zeros(1)), c.arr("y", 1))
    t = c.arr("t", 1)
    f = lambda: post.predict_filter(t, num_samples=1, min_phase=False)

    def k(a, b):
        return p["alpha_t"] ** 2 * np.exp(-p["alpha"] * (a**2 + b**2) - p["gamma"] * (a - b) ** 2)

    x, h0, kinds = drawn(c, f, {})
    D = len(kinds)
    cols = [drawn(c, f, {i: 1.0})[1] - h0 for i in range(D)]
    var = sum((d[0, 0] ** 2 for d in cols), 0 * t[0])
    if causal and t[0] < 0:
        c.eq("no filter before the origin", h0[0, 0], 0 * t[0])
        c.eq("for sure", var, 0 * t[0])
        return
    a = c.stack([k(t[0], x) for x in u])
    c.eq("mean", h0[0, 0], (a[None, :] @ mu)[0, 0])
    det = K[0, 0] * K[1, 1] - K[0, 1] ** 2
    expl = (a[0] ** 2 * K[1, 1] - 2 * a[0] * a[1] * K[0, 1] + a[1] ** 2 * K[0, 0]) / det
    c.eq("variance", var, k(t[0], t[0]) - expl + (a[None, :] @ (mu2 - mu @ mu.T) @ a[:, None])[0, 0])


def gpcm_model_at(c, causal, u):
    from gpcm.gpcm import CGPCM, GPCM
    return (CGPCM if causal else GPCM)(scheme="mean-field", noise=c.pos("noise"), alpha=c.pos("alpha"), alpha_t=c.pos("alpha_t"), gamma=c.pos("gamma"),
                                       omega=c.pos("omega"), t_u=c.const(np.array(u)), t_z=c.const(np.zeros(1)))


@contextmanager
def coarse(c, sizes):
    """Grids of many points come out with three, over the same range."""
    old, oldb = np.linspace, B.linspace

    def f(start, stop, num=50, *a, **k):
        if num > 100:
            sizes.append(num)
            num = 3
        return old(start, stop, num, *a, **k)

    def g(*a):
        a = list(a)
        if a[-1] > 100:
            sizes.append(a[-1])
            a[-1] = 3
        return oldb(*a)
    np.linspace = f
    for mod in (L, B):
        mod.linspace = g
    try:
        yield
    finally:
        np.linspace = old
        for mod in (L, B):
            mod.linspace = oldb


def default_times(c, phase):
    m, s, g, t, mean, cov = setting(c, 1, 3, "mean-field", 1, 1)
    # the grid is evenly spaced over the extent to both sides
    s.table.keys[1:4] = [c.out(x) for x in (-m.extent, 0 * m.extent, 1 * m.extent)]
    sizes = []
    with coarse(c, sizes):
        x, h, _ = drawn(c, lambda: m.predict_filter(num_samples=1, min_phase=phase), {})
    c.true("size of the grid", sizes == [601])
    for j in range(3):
        c.eq("grid", x[j], m.extent * (j if phase else j - 1))


_b = "one or two inducing variables (three in the thorough tier), one to three times, one to three samples, arbitrary covariances; two inducing inputs and one time for the actual models"
_q = [dict(n_u=1, n=1), dict(n_u=2, n=1), dict(n_u=1, n=2), dict(n_u=2, n=2)]
HARNESSES = [
    Harness(samples, [dict(scheme=s, k=k, num=num, **a) for s, k, num in (("structured", 0, 1), ("structured", 0, 2), ("mean-field", 0, 2), ("structured", 2, 2), ("structured", 3, 2), ("mean-field", 1, 1), ("mean-field", 1, 2)) for a in _q[:2 if num == 2 else 4]]
            + [dict(scheme=s, k=1, num=1, how="instance", **_q[0]) for s in ("structured", "mean-field")],
            [dict(scheme=s, k=k, num=num, n_u=3, n=2) for s, k, num in (("structured", 3, 3), ("mean-field", 1, 1))], bounds=_b),
    Harness(minimum_phase, [dict(n_u=1, n=n, k=1, num=num, explicit=e) for n, num in ((2, 1), (2, 2), (3, 1)) for e in (False, True)], [dict(n_u=2, n=3, k=0, num=1, explicit=False)], bounds=_b),
    Harness(kernel, [dict(causal=x, n=n) for x in (False, True) for n in (1, 2)], [], bounds=_b),
    Harness(actual, [dict(causal=x, where=w) for x, w in ((False, "left"), (False, "right"), (True, "left"), (True, "right"))], [], bounds=_b, timeout_ms=60000),
    Harness(default_times, [dict(phase=p) for p in (False,)], [], bounds=_b),
]
