"""I_uz of the RGPCM."""
from itertools import permutations

import numpy as np
from symx.explore import Harness
from props.models import feature, rgpcm_model


def want(c, p, t, u, m):
    """alpha_t gamma_t times the integral of exp(-alpha x - gamma (u - x)) times the feature at t - x, over x from 0 to u."""
    is_cos, m = feature(p, m)
    w = 2 * c.pi * m / (p.b - p.a)
    g = p.gamma - p.alpha
    T = t - p.a
    # antiderivatives in x of exp(g x) cos(w (T - x)) and exp(g x) sin(w (T - x))
    def anti(x):
        C, S = np.cos(w * (T - x)), np.sin(w * (T - x))
        if is_cos:
            return np.exp(g * x) * (g * C - w * S) / (g**2 + w**2)
        return np.exp(g * x) * (g * S + w * C) / (g**2 + w**2)
    return p.alpha_t * p.gamma_t * np.exp(-p.gamma * u) * (anti(u) - anti(0 * u))


def I_uz(c, ms, m_max, n, n_u):
    m, p = rgpcm_model(c, n_u, ms, m_max)
    t = c.stack([p.a + sum([p.t_u[j] for j in range(n_u)]) + c.pos(f"T_{i}") for i in range(n)])
    r = m.compute_I_uz(t)
    k = len(ms)
    c.true("shape", np.shape(r) == (n, n_u, k))
    for l in range(n):
        for i in range(n_u):
            for j in range(k):
                c.eq(f"feature {ms[j]}", r[l, i, j], want(c, p, t[l], p.t_u[i], ms[j]))


def origin(c, ms, m_max):
    """The inducing input at the origin reaches nothing."""
    u = c.stack([c.const(0.0), c.pos("u")])
    m, p = rgpcm_model(c, 2, ms, m_max, t_u=u)
    t = c.stack([p.a + u[1] + c.pos("T")])
    r = m.compute_I_uz(t)
    for j in range(len(ms)):
        c.eq("origin", r[0, 0, j], 0 * p.lam)
        c.eq("other", r[0, 1, j], want(c, p, t[0], u[1], ms[j]))


_b = "any hyperparameters and support, up to three inducing inputs, one or two times that see only the support, up to three harmonics, listed features in any order"
_l = [([0, 1, 2], 1), ([0, 1, 2, 3, 4], 2), ([4, 0, 2, 1, 3], 2), ([2, 1, 0], 1), ([0, 1], 1), ([1, 2], 1), ([0], 1), ([3, 4], 2), ([2, 4, 3], 2), ([0, 3], 2), ([5, 2, 6, 0, 3, 1, 4], 3)]
_l += [(list(o), 1) for o in permutations(range(3)) if (list(o), 1) not in _l] + [([0, *o, 4], 2) for o in permutations((1, 2, 3))][1:] + [([1, 0, 2, 4, 3], 2), ([4, 1, 2, 3, 0], 2)]
HARNESSES = [
    Harness(I_uz, [dict(ms=ms, m_max=k, n=2, n_u=1 + len(ms) % 3) for ms, k in _l],
            [dict(ms=[8, 0, 5, 3, 1, 4, 7, 2, 6], m_max=4, n=1, n_u=3), dict(ms=[4, 3, 2, 1, 0], m_max=2, n=3, n_u=2)] + [dict(ms=list(o), m_max=2, n=1, n_u=1) for o in permutations(range(5))], bounds=_b),
    Harness(origin, [dict(ms=[2, 0, 1], m_max=1), dict(ms=[3, 0, 1, 4, 2], m_max=2)], bounds=_b),
]
