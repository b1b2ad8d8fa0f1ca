"""Approximate kernels, kernel samples and function samples."""
import lab.jax as B
import numpy as np
from symx.explore import Harness
from props.c21 import normal
from props.toy import flat, fresh, replaced, times, toy, tr


def kernel(s, a, b, uhat):
    """Kernel between two times given K_u^-1 u."""
    Ux = s.I_ux(a, b)
    return s.i_hx(a, b) - tr(s.iK_u @ Ux) + (uhat.T @ Ux @ uhat)[0, 0]


def approx(c, n_u, n1, n2, overlap, how):
    model, s = toy(c, n_u, 1, diag_u=n_u > 2)
    t1 = times(c, s, "t", n1)
    t2 = t1 if overlap else times(c, s, "r", n2)
    u = c.vec("u", n_u)
    m = model if how == "model" else model()
    got = m.kernel_approx(t1, t2, u)
    n2 = len(t2)
    c.true("shape", np.shape(got) == (n1, n2))
    uhat = s.iK_u @ u[:, None]
    for i in range(n1):
        for j in range(n2):
            c.eq("kernel", got[i, j], kernel(s, t1[i], t2[j], uhat))
    # average over the prior of u: quadratic in u, and K_u = sum of the outer products of the columns of its factor
    zero = m.kernel_approx(t1, t2, 0 * u)
    total = zero
    for k in range(n_u):
        total = total + m.kernel_approx(t1, t2, s.Lu[:, k]) - zero
    for i in range(n1):
        for j in range(n2):
            c.eq("average over the prior", total[i, j], s.i_hx(t1[i], t2[j]))


def kernel_samples(c, n_u, n_t, num, scheme, k, how):
    model, s = toy(c, n_u, 1, scheme, diag_u=n_u > 2)
    s.table.give(c.const(np.zeros(1)))
    t = times(c, s, "t", n_t)
    if how == "with zero":
        t = c.stack([0 * t[0]] + [t[i] for i in range(n_t)])
    m = model
    if k and scheme == "structured":
        us = [c.mat(f"u{j}", n_u, 1) for j in range(num + 1)]
        a = model().approximation
        a.q_u_samples = us
        m = model.condition(times(c, s, "d", 1), c.arr("y", 1))
        us = us[:num]
    else:
        if k:
            q, _, _, _ = normal(c, "u", n_u)
            model().approximation.q_u = q
            m = model.condition(times(c, s, "d", 1), c.arr("y", 1))
        us = None
    if how == "approximation":
        ks = m().approximation.sample_kernel(t, num_samples=num)
    else:
        r, ks = m.sample_kernel(t, num_samples=num)
        c.eq("times", r, t)
    c.true("shape", np.shape(ks) == (num, len(t)))
    if us is None:
        # the draws of the samples are the last that were taken
        at = c.global_state.copy()
        at.count -= n_u * num
        _, x = m().approximation.p_u.sample(at, num)
        us = [x[:, j:j + 1] for j in range(num)]
    for j in range(num):
        for i, x in enumerate(flat(t)):
            c.eq("sample at a lag", ks[j, i], kernel(s, x, 0 * x, us[j]))


def function_samples(c, n_u, n, normalise, how):
    model, s = toy(c, n_u, 1, diag_u=n_u > 2)
    t = times(c, s, "t", n)
    L = c.tril("Lf", n)
    asked, seen = [], []

    def psd(a, *args, **kw):
        asked.append(a)
        return L @ L.T

    kw = dict(normalise=normalise) if how == "keyword" else {}

    def draw(values):
        seen.clear(), asked.clear()

        def fix(kind, stream, k):
            seen.append(kind)
            return values.get(k, 0.0)
        c.draws = fix
        c.global_state.set_state(("sym", "g", 0))
        try:
            with replaced("closest_psd", psd):
                K, y = model.sample(t, **kw)
        finally:
            c.draws = None
        c.true("shapes", np.shape(K) == (n, n) and np.shape(y) == (n,) and len(asked) == 1)
        c.eq("function has the sampled kernel", asked[0], K)
        return K, y

    # a fixed filter first: the draws of the filter change the kernel only
    K0, y0 = draw({})
    D = len(seen)
    c.true("standard-normal draws, one per inducing variable and two per time", seen == ["n"] * (n_u + 2 * n))
    c.eq("mean of the function", y0, 0 * t)
    cov, total = 0, K0
    for k in range(D):
        K, y = draw({k: 1.0})
        if not normalise:
            total = total + K - K0
        cov = cov + y[:, None] @ y[None, :]
    c.eq("covariance of the function and its noise", cov, L @ L.T + s.noise * c.const(np.eye(n)))
    if not normalise:
        for i in range(n):
            for j in range(n):
                c.eq("average kernel", total[i, j], s.i_hx(t[i], t[j]))
    # the kernel itself
    uhat0 = 0 * c.mat("m0", n_u, 1)
    scale = kernel(s, t[0], t[0], uhat0) if normalise else 1
    for i in range(n):
        for j in range(n):
            c.eq("kernel of the zero filter", K0[i, j] * scale, kernel(s, t[i], t[j], uhat0))


def normalised(c, n_u, n):
    """Normalisation divides the kernel of the same filter by its value at the first time."""
    model, s = toy(c, n_u, 1)
    t = times(c, s, "t", n)
    L = c.tril("Lf", n)
    v = [0.5 * (k + 1) for k in range(n_u)]

    def draw(**kw):
        c.draws = lambda kind, stream, k: v[k] if k < n_u else 0.25 * k
        c.global_state.set_state(("sym", "g", 0))
        try:
            with replaced("closest_psd", lambda a, *args, **kw: L @ L.T):
                return model.sample(t, **kw)
        finally:
            c.draws = None

    K, y = draw()
    Kn, yn = draw(normalise=True)
    c.eq("normalised kernel", Kn * K[0, 0], K)
    c.eq("same function of the projected kernel", yn, y)


def repeated(c, n_u, op, scheme):
    """Samples are drawn afresh every time."""
    model, s = toy(c, n_u, 1, scheme, diag_u=n_u > 2)
    s.table.give(c.const(np.zeros(1)))
    t = times(c, s, "t", 2)
    L = c.tril("Lf", 2)
    if op == "function":
        with replaced("closest_psd", lambda *a, **kw: L @ L.T):
            fresh(c, lambda: model.sample(t))
    else:
        fresh(c, lambda: model.sample_kernel(t, num_samples=2))


_b = "one or two inducing variables (three: diagonal), one to three times, up to three samples; arbitrary integrals"
HARNESSES = [
    Harness(approx, [dict(n_u=1, n1=1, n2=1, overlap=False, how="model"), dict(n_u=1, n1=2, n2=2, overlap=True, how="instance"), dict(n_u=2, n1=1, n2=2, overlap=False, how="model"), dict(n_u=2, n1=2, n2=2, overlap=True, how="model")],
            [dict(n_u=2, n1=3, n2=2, overlap=False, how="instance"), dict(n_u=3, n1=2, n2=2, overlap=True, how="model")], bounds=_b, timeout_ms=30000),
    Harness(kernel_samples, [dict(n_u=n, n_t=2, num=m, scheme=sc, k=k, how=h) for n, m, sc, k, h in ((1, 1, "structured", 0, "model"), (2, 2, "structured", 1, "model"), (1, 2, "structured", 1, "approximation"), (2, 1, "structured", 0, "with zero"),
                                                                                              (1, 2, "mean-field", 0, "model"), (1, 1, "mean-field", 1, "approximation"), (2, 2, "mean-field", 1, "with zero"))],
            [dict(n_u=2, n_t=3, num=3, scheme=sc, k=k, how="model") for sc in ("structured", "mean-field") for k in (0, 1)], bounds=_b, timeout_ms=30000),
    Harness(function_samples, [dict(n_u=1, n=1, normalise=False, how="default"), dict(n_u=2, n=2, normalise=False, how="keyword"), dict(n_u=1, n=2, normalise=True, how="keyword")],
            [dict(n_u=2, n=3, normalise=False, how="default"), dict(n_u=2, n=3, normalise=True, how="keyword")], bounds=_b, timeout_ms=30000),
    Harness(repeated, [dict(n_u=1, op=o, scheme=s) for o in ("function", "kernel") for s in ("structured", "mean-field")], [], bounds=_b),
    Harness(normalised, [dict(n_u=1, n=2), dict(n_u=2, n=2)], [], bounds=_b, timeout_ms=30000),
]
