"""Models on symbolic parameters, and closed forms of Gaussian integrals to compare them with."""
from types import SimpleNamespace
import jax.numpy as jnp
import numpy as np
import gpcm.model
from gpcm.gpcm import CGPCM, GPCM
from gpcm.rgpcm import RGPCM
from symx import patch


def _dtype(ctx, setter):
    # The models ask JAX for its data type; under symbolic execution arrays hold expressions.
    setter(gpcm.model, "jnp", SimpleNamespace(float64=object if ctx.symbolic else jnp.float64 if patch.JAX[0] else np.float64))


patch.EXTRA.append(_dtype)


def gpcm_model(c, causal, n_u, n_z, scheme="structured", **kw):
    """(model, parameters)"""
    p = SimpleNamespace(noise=c.pos("noise"), alpha=c.pos("alpha"), alpha_t=c.pos("alpha_t"), gamma=c.pos("gamma"),
                        omega=c.pos("omega"), t_u=c.arr("u", n_u), t_z=c.arr("z", n_z))
    m = (CGPCM if causal else GPCM)(scheme=scheme, noise=p.noise, alpha=p.alpha, alpha_t=p.alpha_t, gamma=p.gamma,
                                    omega=p.omega, t_u=p.t_u, t_z=p.t_z, **kw)
    p.omega_t2 = np.sqrt(2 * p.omega / c.pi)
    return m, p


def gauss(c, a, b, k, upper=None):
    """Integral of exp(-a x^2 + b x + k) over x, up to `upper`."""
    full = np.sqrt(c.pi / a) * np.exp(b**2 / (4 * a) + k)
    if upper is None:
        return full
    return full * 0.5 * (1 + c.erf(np.sqrt(a) * (upper - b / (2 * a))))


def rgpcm_model(c, n_u, ms, m_max, scheme="structured", t_u=None, positive=True, **kw):
    p = SimpleNamespace(noise=c.pos("noise"), alpha=c.pos("alpha"), alpha_t=c.pos("alpha_t"), lam=c.pos("lam"),
                        gamma_t=c.pos("gamma_t"), a=c.real("a"), t_u=c.arr("u", n_u, positive=positive) if t_u is None else t_u,
                        ms=np.array(ms), m_max=m_max)
    p.b = p.a + c.pos("width")
    p.gamma = c.pos("gamma")
    c.assume("lt", 1.5 * p.gamma, p.alpha)  # the constructor sees to that
    m = RGPCM(scheme=scheme, noise=p.noise, alpha=p.alpha, alpha_t=p.alpha_t, lam=p.lam, gamma=p.gamma, gamma_t=p.gamma_t,
              a=p.a, b=p.b, t_u=p.t_u, ms=p.ms, m_max=m_max, **kw)
    return m, p


def feature(p, m):
    """(is cosine, harmonic)"""
    return (True, m) if m <= p.m_max else (False, m - p.m_max)
