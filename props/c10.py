"""Prior covariances of the RGPCM."""
import lab as B
from itertools import permutations

import numpy as np
from symx.explore import Harness
from props.models import feature, rgpcm_model


def K_u(c, n):
    m, p = rgpcm_model(c, n, [0, 1], 1, positive=False)
    K = B.dense(m.compute_K_u())
    c.true("shape", np.shape(K) == (n, n))
    for i in range(n):
        for j in range(n):
            d = p.t_u[i] - p.t_u[j]
            d = d if bool(d >= 0) else -d
            c.eq(f"K_u {i} {j}", K[i, j], p.gamma_t**2 / (2 * p.gamma) * np.exp(-p.gamma * d))


def K_z(c, ms, m_max):
    m, p = rgpcm_model(c, 2, ms, m_max)
    K = B.dense(m.compute_K_z())
    c.true("shape", np.shape(K) == (len(ms), len(ms)))
    for i, f in enumerate(ms):
        for j, g in enumerate(ms):
            cf, nf = feature(p, f)
            cg, _ = feature(p, g)
            want = c.const(1.0 if cf and cg else 0.0)
            if i == j:
                om = 2 * c.pi * nf / (p.b - p.a)
                spectral = 2 * p.lam / (p.lam**2 + om**2)
                want = want + (2 if f == 0 else 1) * 0.5 * (p.b - p.a) / spectral
            c.eq(f"K_z {f} {g}", K[i, j], want)


_ms = [([0, 1, 2], 1), ([0, 1, 2, 3, 4], 2), ([3, 0, 4, 1, 2], 2), ([2, 4], 2), ([1, 5, 0], 3), ([0], 1), ([4, 6, 2, 1], 3)]
_ms += [(list(o), 1) for o in permutations(range(3)) if (list(o), 1) not in _ms] + [([0, *o, 4], 2) for o in permutations((1, 2, 3))][1:] + [([1, 0, 2, 4, 3], 2), ([4, 1, 2, 3, 0], 2)]
_b = "any hyperparameters, any interval, up to seven features of harmonics up to three in any order, two to four inducing points"
HARNESSES = [
    Harness(K_u, [dict(n=2), dict(n=3)], [dict(n=4)], bounds=_b),
    Harness(K_z, [dict(ms=a, m_max=b) for a, b in _ms], [dict(ms=[6, 5, 4, 3, 2, 1, 0], m_max=3), dict(ms=list(range(9)), m_max=4)] + [dict(ms=list(o), m_max=2) for o in permutations(range(5))], bounds=_b),
]
