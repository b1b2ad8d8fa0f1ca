"""I_hz of the RGPCM."""
from itertools import permutations

import numpy as np
from symx.explore import Harness
from props.models import feature, rgpcm_model


def cosine(p, w, T):
    """Integral of exp(-2 alpha (T - s)) cos(w s) over s from 0 to T."""
    a = 2 * p.alpha
    return (a * np.cos(w * T) + w * np.sin(w * T) - a * np.exp(-a * T)) / (a**2 + w**2)


def sine(p, w, T):
    """The same of sin(w s)."""
    a = 2 * p.alpha
    return (a * np.sin(w * T) - w * np.cos(w * T) + w * np.exp(-a * T)) / (a**2 + w**2)


def want(c, p, t, m, n):
    T = t - p.a
    (cm, m), (cn, n) = feature(p, m), feature(p, n)
    unit = 2 * c.pi / (p.b - p.a)
    w, v = unit * m, unit * n
    if cm and cn:
        r = (cosine(p, w - v, T) + cosine(p, w + v, T)) / 2 + np.exp(-2 * p.alpha * T) / (2 * p.alpha + 2 * p.lam)
    elif not cm and not cn:
        r = (cosine(p, w - v, T) - cosine(p, w + v, T)) / 2
    else:
        if cm:
            w, v = v, w  # sin(w s) cos(v s)
        r = (sine(p, w + v, T) + sine(p, w - v, T)) / 2
    return p.alpha_t**2 * r


def I_hz(c, ms, m_max, n):
    m, p = rgpcm_model(c, 2, ms, m_max)
    t = c.stack([p.a + c.pos(f"T_{i}") for i in range(n)])
    r = m.compute_I_hz(t)
    k = len(ms)
    c.true("shape", np.shape(r) == (n, k, k))
    for l in range(n):
        for i in range(k):
            for j in range(k):
                c.eq(f"features {ms[i]} and {ms[j]}", r[l, i, j], want(c, p, t[l], ms[i], ms[j]))
                c.eq("symmetric", r[l, i, j], r[l, j, i])


def start(c, ms, m_max):
    """At the start of the support nothing but the tail of the cosines is left."""
    m, p = rgpcm_model(c, 2, ms, m_max)
    t = c.stack([p.a, p.a + 0 * p.lam])
    r = m.compute_I_hz(t)
    for i in range(len(ms)):
        for j in range(len(ms)):
            tail = p.alpha_t**2 / (2 * p.alpha + 2 * p.lam) if ms[i] <= m_max and ms[j] <= m_max else 0 * p.lam
            c.eq("at the start", r[0, i, j], tail)
            c.eq("at the start again", r[1, i, j], tail)


_b = "any hyperparameters and support, one or two times after its start, up to three harmonics, listed features in any order"
_l = [([0, 1, 2], 1), ([0, 1, 2, 3, 4], 2), ([4, 0, 2, 1, 3], 2), ([2, 1, 0], 1), ([0, 1], 1), ([1, 2], 1), ([0], 1), ([3, 4], 2), ([2, 4, 3], 2), ([0, 3], 2), ([5, 2, 6, 0, 3, 1, 4], 3)]
_l += [(list(o), 1) for o in permutations(range(3)) if (list(o), 1) not in _l] + [([0, *o, 4], 2) for o in permutations((1, 2, 3))][1:] + [([1, 0, 2, 4, 3], 2), ([4, 1, 2, 3, 0], 2)]
HARNESSES = [
    Harness(I_hz, [dict(ms=ms, m_max=k, n=2 if len(ms) < 5 else 1) for ms, k in _l],
            [dict(ms=[8, 0, 5, 3, 1, 4, 7, 2, 6], m_max=4, n=1), dict(ms=[0, 1, 2, 3, 4, 5, 6], m_max=3, n=2), dict(ms=[4, 3, 2, 1, 0], m_max=2, n=3)] + [dict(ms=list(o), m_max=2, n=1) for o in permutations(range(5))], bounds=_b),
    Harness(start, [dict(ms=[2, 0, 1], m_max=1), dict(ms=[3, 0, 1, 4, 2], m_max=2)], bounds=_b),
]
