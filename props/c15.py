"""Where the inducing points are and how many there are."""
import warnings
import numpy as np
from gpcm.gpcm import CGPCM, GPCM
from gpcm.rgpcm import RGPCM
from symx.explore import Harness
import props.models

MODELS = {"gpcm": GPCM, "cgpcm": CGPCM, "rgpcm": RGPCM}


def built(c, which, **kw):
    """The model and the warnings it gave."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        m = MODELS[which](**kw)
    return m, [w for w in ws if issubclass(w.category, UserWarning) and "capped" in str(w.message)]


def times(c, given=None):
    if given is not None:
        t = c.stack([c.const(float(x)) for x in given])
        return t, t[0], t[-1]
    lo = c.real("t0")
    hi = lo + c.pos("T")
    return c.stack([lo, hi]), lo, hi


def spaced(c, name, x, lo, hi, n):
    c.true(f"{name}: {n} points", np.shape(x) == (n,))
    for i in range(n):
        c.eq(f"{name}: point {i}", x[i], lo + (hi - lo) * i / (n - 1) if n > 1 else lo)


def is_ceil(c, name, n, x):
    """n is the smallest integer that is at least x."""
    c.always(f"{name}: enough", "le", x, n + 0 * x)
    c.always(f"{name}: not too many", "lt", n - 1 + 0 * x, x)


def filter_points(c, which, m, w, n):
    """n: the number asked for"""
    if which == "gpcm":
        n = n + 1 - n % 2  # symmetric and with the origin
        spaced(c, "t_u", m.t_u, -2 * w, 2 * w, n)
        c.eq("origin", m.t_u[n // 2], 0 * w)
    elif which == "cgpcm":
        d = 2 * w / (n - 1)
        spaced(c, "t_u", m.t_u, -2 * d, 2 * w, n + 2)
        c.eq("origin", m.t_u[2], 0 * w)
        n = n + 2
    else:
        spaced(c, "t_u", m.t_u, 0 * w, c.pi * w, n)
    c.true("n_u", m.n_u == n)


def asked(c, which, n_u, n_z):
    """Counts given by the user."""
    w, s = c.pos("w"), c.pos("s")
    t, lo, hi = times(c)
    m, ws = built(c, which, window=w, scale=s, n_u=n_u, n_z=n_z, t=t, n_u_cap=2, **(dict(m_max_cap=1) if which == "rgpcm" else dict(n_z_cap=2)))
    c.true("what the user asks for is not capped", len(ws) == 0)
    filter_points(c, which, m, w, n_u)
    if which == "rgpcm":
        k = (n_z + 1) // 2
        c.true("harmonics", m.m_max == k and list(np.asarray(m.ms)) == list(range(2 * k + 1)) and m.n_z == 2 * k + 1)
        c.eq("a", m.a, lo - c.pi * w)
        c.eq("b", m.b, hi)
    else:
        spaced(c, "t_z", m.t_z, lo, hi, n_z)
        c.true("n_z", m.n_z == n_z)


def by_wiggle(c, which, cap, most):
    """Counts from the window and the scale: any ratio of them up to a bound."""
    w, s = c.pos("w"), c.pos("s")
    c.assume("lt", 4 * w, most * s)
    c.assume("lt", s, 4 * w)  # at least two
    t, lo, hi = times(c)
    m, ws = built(c, which, window=w, scale=s, n_u_cap=cap, n_z=3, t=t)
    n = m.n_u - {"gpcm": 0, "cgpcm": 2, "rgpcm": 0}[which]
    x = 4 * w / s
    if len(ws):
        c.always("capped only above the cap", "lt", cap + 0 * x, x)
        n = cap
    elif which == "gpcm" and n % 2 == 1:
        # made odd, from the same number or from one less
        c.always("enough", "le", x, n + 0 * x)
        c.always("not too many", "lt", n - 2 + 0 * x, x)
        c.always("not capped", "le", x, cap + 0 * x)
    else:
        is_ceil(c, "n_u", n, x)
        c.always("not capped", "le", x, cap + 0 * x)
    filter_points(c, which, m, w, n)


def noise_points(c, which, cap, most):
    """The same for the points of the noise, or the harmonics."""
    w, s = c.pos("w"), c.pos("s")
    t, lo, hi = times(c)
    span = hi - lo
    if which == "rgpcm":
        x = (span + c.pi * w) / s
        c.assume("lt", span + c.pi * w, most * s)
        m, ws = built(c, which, window=w, scale=s, n_u=3, m_max_cap=cap, t=t)
        k = m.m_max
    else:
        x = 2 * span / s
        c.assume("lt", 2 * span, most * s)
        c.assume("lt", s, 2 * span)  # at least two
        m, ws = built(c, which, window=w, scale=s, n_u=3, n_z_cap=cap, t=t)
        k = m.n_z
    if len(ws):
        c.always("capped only above the cap", "lt", cap + 0 * x, x)
        c.true("capped", k == cap)
    else:
        is_ceil(c, "count", k, x)
        c.always("not capped", "le", x, cap + 0 * x)
    if which == "rgpcm":
        c.true("features", m.n_z == 2 * k + 1 and list(np.asarray(m.ms)) == list(range(2 * k + 1)))
    else:
        spaced(c, "t_z", m.t_z, lo, hi, k)


def extended(c, which, n_z, most):
    """Points for the stretches the filter reaches beyond the data."""
    w, s = c.pos("w"), c.pos("s")
    t, lo, hi = times(c)
    d = (hi - lo) / (n_z - 1)
    c.assume("lt", 2 * w, most * d)
    m, ws = built(c, which, window=w, scale=s, n_u=3, n_z=n_z, t=t, extend_t_z=True)
    sides = 1 if which == "cgpcm" else 2
    extra, left = divmod(m.n_z - n_z, sides)
    c.true("whole number of points on each side", left == 0)
    is_ceil(c, "extension", extra, 2 * w / d)
    n = n_z + sides * extra
    spaced(c, "t_z", m.t_z, lo - extra * d, hi + (extra * d if sides == 2 else 0 * d), n)
    c.eq("aligned with the data", m.t_z[extra], lo)
    c.eq("aligned with the end of the data", m.t_z[extra + n_z - 1], hi)


def given(c, which):
    """Given inducing inputs are used and counted."""
    w, s = c.pos("w"), c.pos("s")
    t, lo, hi = times(c)
    u = c.increasing("u", 3)
    kw = dict(m_max=1) if which == "rgpcm" else dict(t_z=c.increasing("z", 4))
    m, ws = built(c, which, window=w, scale=s, t_u=u, t=t, **kw)
    c.eq("t_u", m.t_u, u)
    c.true("n_u", m.n_u == 3)
    if which == "rgpcm":
        c.eq("a", m.a, lo - u[2])
        c.eq("b", m.b, hi)
        ms = np.array([0, 2, 5])
        m, ws = built(c, which, window=w, scale=s, t_u=u, t=t, m_max=3, ms=ms)
        c.true("features", list(np.asarray(m.ms)) == [0, 2, 5] and m.n_z == 3 and m.m_max == 3)
    else:
        c.eq("t_z", m.t_z, kw["t_z"])
        c.true("n_z", m.n_z == 4)


def data(c, which, ts):
    """Data at several times in any order."""
    w, s = c.pos("w"), c.pos("s")
    t = c.stack([c.const(float(x)) for x in ts])
    m, ws = built(c, which, window=w, scale=s, n_u=3, n_z=4, t=t)
    lo, hi = c.const(float(min(ts))) + 0 * w, c.const(float(max(ts))) + 0 * w
    if which == "rgpcm":
        c.eq("a", m.a, lo - c.pi * w)
        c.eq("b", m.b, hi)
    else:
        spaced(c, "t_z", m.t_z, lo, hi, 4)


_b = "any window, length scale and span of the data with at most six (thorough: ten) points; caps of three or four"
HARNESSES = [
    Harness(asked, [dict(which=k, n_u=n, n_z=z) for k in MODELS for n, z in ((2, 2), (3, 4), (6, 3), (5, 5))], bounds=_b),
    Harness(by_wiggle, [dict(which=k, cap=cap, most=most) for k in MODELS for cap, most in ((10, 6), (3, 6), (4, 6))],
            [dict(which=k, cap=12, most=10) for k in MODELS], bounds=_b),
    Harness(noise_points, [dict(which=k, cap=cap, most=6) for k in MODELS for cap in (10, 3)],
            [dict(which=k, cap=12, most=10) for k in MODELS], bounds=_b),
    Harness(extended, [dict(which=k, n_z=n, most=4) for k in ("gpcm", "cgpcm") for n in (2, 3)],
            [dict(which=k, n_z=4, most=7) for k in ("gpcm", "cgpcm")], bounds=_b),
    Harness(given, [dict(which=k) for k in MODELS], bounds=_b),
    Harness(data, [dict(which=k, ts=ts) for k in MODELS for ts in ([0, 0.5, 3], [2, -1, 0.25, 1])], bounds=_b),
]
