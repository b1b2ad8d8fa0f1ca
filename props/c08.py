"""Cross-covariance integrals of the acausal model."""
import numpy as np
from symx.explore import Harness
from props.models import gauss, gpcm_model


def parts(c, p, t1, t2):
    """(a, b, k) of the exponent of k_h(t1 - tau, t2 - tau), as a quadratic in tau."""
    return 2 * p.alpha, 2 * p.alpha * (t1 + t2), -p.alpha * (t1**2 + t2**2) - p.gamma * (t1 - t2) ** 2


def least(c, x, y):
    """The smaller of two times, elementwise."""
    return np.minimum(x, y)


def i_hx(c, p, t1, t2, causal):
    a, b, k = parts(c, p, t1, t2)
    return p.alpha_t**2 * gauss(c, a, b, k, least(c, t1, t2) if causal else None)


def I_ux(c, p, t1, t2, causal):
    """Of k_h(t1 - tau, u) k_h(v, t2 - tau) over tau."""
    t1, t2 = t1[:, None, None, None], t2[None, :, None, None]
    u, v = p.t_u[None, None, :, None], p.t_u[None, None, None, :]
    al, g = p.alpha, p.gamma
    a = 2 * (al + g)
    b = 2 * al * (t1 + t2) + 2 * g * (t1 - u) + 2 * g * (t2 - v)
    k = -al * (t1**2 + u**2 + v**2 + t2**2) - g * ((t1 - u) ** 2 + (t2 - v) ** 2)
    return p.alpha_t**4 * gauss(c, a, b, k, least(c, t1, t2) if causal else None)


def I_uz(c, p, t, causal):
    """Of k_h(t - tau, u) k_xs(tau, z) over tau."""
    t, u, z = t[:, None, None], p.t_u[None, :, None], p.t_z[None, None, :]
    al, g, om = p.alpha, p.gamma, p.omega
    a = al + g + om
    b = 2 * al * t + 2 * g * (t - u) + 2 * om * z
    k = -al * (t**2 + u**2) - g * (t - u) ** 2 - om * z**2
    return p.alpha_t**2 * np.sqrt(p.omega_t2) * gauss(c, a, b, k, t if causal else None)


def I_hz(c, p, t, causal):
    """Of k_h(t - tau, t - sig) k_xs(tau, z) k_xs(w, sig) over tau and sig."""
    t, z, w = t[:, None, None], p.t_z[None, :, None], p.t_z[None, None, :]
    al, g, om = p.alpha, p.gamma, p.omega
    # exponent: -1/2 (x, y) P (x, y) + (b1, b2) (x, y) + k
    p1, p12 = 2 * (al + g + om), -2 * g
    b1, b2 = 2 * (al * t + om * z), 2 * (al * t + om * w)
    k = -2 * al * t**2 - om * (z**2 + w**2)
    det = p1**2 - p12**2
    s1, s12 = p1 / det, -p12 / det
    m1, m2 = s1 * b1 + s12 * b2, s12 * b1 + s1 * b2
    full = 2 * c.pi / np.sqrt(det) * np.exp(0.5 * (m1 * b1 + m2 * b2) + k)
    if causal:
        x, y = (t - m1) / np.sqrt(s1), (t - m2) / np.sqrt(s1)
        full = full * bvn(c, x, y, s12 / s1)
    return p.alpha_t**2 * p.omega_t2 * full


def bvn(c, x, y, rho):
    out = [[[c.bvn(x[i, j, k], y[i, j, k], rho) for k in range(x.shape[2])] for j in range(x.shape[1])] for i in range(x.shape[0])]
    return c.stack([v for a in out for b in a for v in b]).reshape(x.shape)


def check_i_hx(c, causal, n):
    m, p = gpcm_model(c, causal, 1, 1)
    t1, t2 = c.arr("s", n), c.arr("t", n)
    zero = c.const(0.0)
    c.eq("i_hx, pairs", m.compute_i_hx(t1, t2), i_hx(c, p, t1, t2, causal))
    c.eq("i_hx, grid", m.compute_i_hx(t1[:, None], t2[None, :]), i_hx(c, p, t1[:, None], t2[None, :], causal))
    c.eq("second time left out", m.compute_i_hx(t1), i_hx(c, p, t1, zero, causal))
    c.eq("second time left out, by name", m.compute_i_hx(t1=t1), i_hx(c, p, t1, zero, causal))
    c.eq("first time left out", m.compute_i_hx(t2=t2), i_hx(c, p, zero, t2, causal))
    c.eq("both left out", m.compute_i_hx(), i_hx(c, p, zero, zero, causal))


def check_I_ux(c, causal, n1, n2, n_u):
    m, p = gpcm_model(c, causal, n_u, 1)
    t1, t2 = c.arr("s", n1), c.arr("t", n2)
    zero = c.const(np.zeros(1))
    r = m.compute_I_ux(t1, t2)
    c.true("shape", np.shape(r) == (n1, n2, n_u, n_u))
    c.eq("I_ux", r, I_ux(c, p, t1, t2, causal))


def check_I_ux_axes(c, causal, n, n_u):
    m, p = gpcm_model(c, causal, n_u, 1)
    t = c.arr("t", n)
    zero = c.const(np.zeros(1))
    r = m.compute_I_ux(t)
    c.true("shape", np.shape(r) == (n, n_u, n_u))
    c.eq("second time left out", r, I_ux(c, p, t, zero, causal)[:, 0])
    c.eq("second time zero", m.compute_I_ux(t, zero)[:, 0], r)
    r = m.compute_I_ux(t2=t)
    c.true("shape", np.shape(r) == (n, n_u, n_u))
    c.eq("first time left out", r, I_ux(c, p, zero, t, causal)[0])
    c.eq("first time zero", m.compute_I_ux(zero, t)[0], r)
    r = m.compute_I_ux()
    c.true("shape", np.shape(r) == (n_u, n_u))
    c.eq("both left out", r, I_ux(c, p, zero, zero, causal)[0, 0])


def check_I_uz(c, causal, n, n_u, n_z):
    m, p = gpcm_model(c, causal, n_u, n_z)
    t = c.arr("t", n)
    r = m.compute_I_uz(t)
    c.true("shape", np.shape(r) == (n, n_u, n_z))
    c.eq("I_uz", r, I_uz(c, p, t, causal))


def check_I_hz(c, causal, n, n_z):
    m, p = gpcm_model(c, causal, 1, n_z)
    t = c.arr("t", n)
    r = m.compute_I_hz(t)
    c.true("shape", np.shape(r) == (n, n_z, n_z))
    c.eq("I_hz", r, I_hz(c, p, t, causal))
    c.eq("symmetric in the features", r, np.transpose(r, (0, 2, 1)))


def harnesses(causal):
    b = "any positive hyperparameters, up to two (thorough: three) times and inducing points anywhere on the line"
    return [
        Harness(check_i_hx, [dict(causal=causal, n=n) for n in (1, 2)], [dict(causal=causal, n=3)], bounds=b),
        Harness(check_I_ux, [dict(causal=causal, n1=a, n2=b_, n_u=u) for a, b_, u in ((1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 1, 2))],
                [dict(causal=causal, n1=2, n2=2, n_u=2), dict(causal=causal, n1=1, n2=1, n_u=3)], bounds=b),
        Harness(check_I_ux_axes, [dict(causal=causal, n=n, n_u=u) for n, u in ((1, 1), (1, 2), (2, 1))],
                [dict(causal=causal, n=2, n_u=2)], bounds=b),
        Harness(check_I_uz, [dict(causal=causal, n=n, n_u=u, n_z=z) for n, u, z in ((1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 1, 2))],
                [dict(causal=causal, n=2, n_u=2, n_z=2), dict(causal=causal, n=2, n_u=3, n_z=2)], bounds=b),
        Harness(check_I_hz, [dict(causal=causal, n=n, n_z=z) for n, z in ((1, 1), (1, 2), (2, 1))],
                [dict(causal=causal, n=2, n_z=2), dict(causal=causal, n=1, n_z=3)], bounds=b, timeout_ms=30000),
    ]


HARNESSES = harnesses(False)
