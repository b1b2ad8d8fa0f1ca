"""Prior covariances of the GPCM and CGPCM."""
import lab as B
import numpy as np
from gpcm.exppoly import var
from symx.explore import Harness
from props.models import gauss, gpcm_model


def k_h(c, causal, n):
    m, p = gpcm_model(c, causal, n, 1)
    t1, t2 = c.arr("s", n), c.arr("t", n)
    want = p.alpha_t**2 * np.exp(-p.alpha * (t1**2 + t2**2) - p.gamma * (t1 - t2) ** 2)
    c.eq("filter kernel", m.k_h(var("a"), var("b")).eval(a=t1, b=t2), want)
    c.eq("filter kernel at shifted inputs", m.k_h(var("a") - var("s"), var("b") - var("s")).eval(a=t1 + 1, b=t2 + 1, s=1), want)
    c.eq("kernel with the noise", m.k_xs(var("a"), var("b")).eval(a=t1, b=t2) ** 2, p.omega_t2 * np.exp(-2 * p.omega * (t1 - t2) ** 2))
    c.eq("kernel with the noise is positive", m.k_xs(var("a"), var("b")).eval(a=t1, b=t1), np.sqrt(p.omega_t2) + 0 * t1)


def K_u(c, causal, n):
    m, p = gpcm_model(c, causal, n, 1)
    u, v = p.t_u[:, None], p.t_u[None, :]
    K = B.dense(m.compute_K_u())
    c.eq("K_u", K, p.alpha_t**2 * np.exp(-p.alpha * (u**2 + v**2) - p.gamma * (u - v) ** 2))
    c.eq("symmetric", K, K.T)


def K_z(c, causal, n):
    m, p = gpcm_model(c, causal, 1, n)
    z, w = p.t_z[:, None], p.t_z[None, :]
    K = B.dense(m.compute_K_z())
    # covariance of  int omega_t exp(-omega (tau - z)^2) dW(tau)
    c.eq("K_z", K, p.omega_t2 * gauss(c, 2 * p.omega, 2 * p.omega * (z + w), -p.omega * (z**2 + w**2)))
    c.eq("unit variance", np.diag(K), np.ones(n) + 0 * p.t_z)
    c.eq("symmetric", K, K.T)
    # also after the transform was given another scale
    m.omega_t = c.pos("omega_t")
    c.eq("scale of the transform", B.dense(m.compute_K_z()), m.omega_t**2 * np.sqrt(c.pi / (2 * p.omega)) * np.exp(-0.5 * p.omega * (z - w) ** 2))


_b = "any positive hyperparameters, one to four inducing points anywhere on the line"
HARNESSES = [
    Harness(k_h, [dict(causal=x, n=2) for x in (False, True)], bounds=_b),
    Harness(K_u, [dict(causal=x, n=n) for x in (False, True) for n in (1, 2, 3)], [dict(causal=False, n=6)], bounds=_b),
    Harness(K_z, [dict(causal=x, n=n) for x in (False, True) for n in (2, 3)], [dict(causal=False, n=6)], bounds=_b),
]
