"""Default hyperparameters."""
import numpy as np
import lab as B
from gpcm.gpcm import CGPCM, GPCM, factor_to_scale, scale_to_factor
from gpcm.rgpcm import RGPCM
from symx.explore import Harness
import props.models

MODELS = {"gpcm": GPCM, "cgpcm": CGPCM, "rgpcm": RGPCM}


def times(c):
    t0 = c.real("t0")
    return c.stack([t0, t0 + c.pos("T")])


def conversions(c):
    s, f = c.pos("s"), c.pos("f")
    c.eq("factor", scale_to_factor(s), c.pi / (4 * s**2))
    c.eq("scale", factor_to_scale(f), np.sqrt(c.pi / f) / 2)
    c.eq("round trip from scale", factor_to_scale(scale_to_factor(s)), s)
    c.eq("round trip from factor", scale_to_factor(factor_to_scale(f)), f)


def make(c, which, **kw):
    p = dict(window=c.pos("w"), scale=c.pos("s"), n_u=3, n_z=3, t=times(c), noise=c.pos("noise"))
    p.update(kw)
    return MODELS[which](**p), p


def power(c, m, name):
    t = c.real("when")
    c.eq(name, m.compute_i_hx(t, t), 1 + 0 * t)
    c.eq(name + " at zero", B.squeeze(m.compute_i_hx()), 1 + 0 * t)


def gpcm_defaults(c, which, n_u):
    m, p = make(c, which, n_u=n_u)
    w, s = p["window"], p["scale"]
    c.eq("alpha", m.alpha, c.pi / (4 * w**2))
    c.eq("gamma", m.gamma, c.pi / (4 * s**2) - c.pi / (8 * w**2))
    c.eq("noise", m.noise, p["noise"])
    c.eq("extent", m.extent, 4 * w)
    gap = m.t_z[1] - m.t_z[0]
    c.eq("omega", m.omega, c.pi / gap**2)
    power(c, m, "power of the process")
    K = B.dense(m.compute_K_z())
    for i in range(3):
        c.eq("power of the noise transform", K[i, i], 1 + 0 * w)


def rgpcm_defaults(c, n_u):
    m, p = make(c, "rgpcm", n_u=n_u)
    w, s = p["window"], p["scale"]
    c.eq("alpha", m.alpha, 1 / w)
    c.eq("lam", m.lam, 1 / s)
    c.eq("noise", m.noise, p["noise"])
    c.eq("extent", m.extent, 4 * w)
    gap = m.t_u[1] - m.t_u[0]
    g, cap = 1 / (2 * gap), 1 / w / 1.5
    c.eq("gamma", m.gamma, g if bool(g <= cap) else cap)
    c.always("gamma is below alpha", "lt", m.gamma, m.alpha)
    power(c, m, "power of the process")
    K = B.dense(m.compute_K_u())
    for i in range(n_u):
        c.eq("power of the filter transform", K[i, i], 1 + 0 * w)


def given_gamma(c):
    """A transform decay is respected, but for the cap."""
    ga = c.pos("ga")
    m, p = make(c, "rgpcm", gamma=ga)
    cap = 1 / p["window"] / 1.5
    c.eq("gamma", m.gamma, ga if bool(ga <= cap) else cap)
    c.eq("power", B.dense(m.compute_K_u())[0, 0], 1 + 0 * ga)


def given(c, which):
    """What the user gives is used as it is."""
    v = {k: c.pos(k) for k in ("alpha", "alpha_t", "noise")}
    if which == "rgpcm":
        v.update(lam=c.pos("lam"), gamma_t=c.pos("gamma_t"), gamma=c.pos("gamma"))
        c.assume("lt", 1.5 * v["gamma"], v["alpha"])
        v.update(a=c.real("a"), m_max=2)
        v["b"] = v["a"] + c.pos("len")
    else:
        v.update(gamma=c.pos("gamma"), omega=c.pos("omega"), t_z=c.arr("z", 2))
    v["t_u"] = c.arr("u", 3)
    m = MODELS[which](scale=c.pos("s"), window=c.pos("w"), t=times(c), **v)
    for k, x in v.items():
        c.eq(k, getattr(m, k), x)
    c.true("counts", m.n_u == 3 and m.n_z == (5 if which == "rgpcm" else 2))
    if which == "rgpcm":
        c.true("features", list(np.asarray(m.ms)) == [0, 1, 2, 3, 4])
        c.eq("extent", m.extent, 4 / v["alpha"])
    else:
        c.eq("extent", m.extent, 2 * np.sqrt(c.pi / v["alpha"]))
        c.eq("variance of the noise transform", B.dense(m.compute_K_z())[0, 0], 1 + 0 * v["alpha"])


def rest(c, m, p, which, **given):
    """Everything that is not given is derived from what is."""
    w, s = p["window"], p["scale"]
    alpha = given.get("alpha", 1 / w if which == "rgpcm" else c.pi / (4 * w**2))
    c.eq("alpha", m.alpha, alpha)
    c.eq("noise", m.noise, p["noise"])
    if which == "rgpcm":
        c.eq("lam", m.lam, given.get("lam", 1 / s))
        c.eq("extent", m.extent, 4 / alpha)
        c.eq("alpha_t", m.alpha_t, given.get("alpha_t", np.sqrt(2 * alpha)))
        g, cap = given.get("gamma", 1 / (2 * (m.t_u[1] - m.t_u[0]))), alpha / 1.5
        g = g if bool(g <= cap) else cap
        c.eq("gamma", m.gamma, g)
        c.eq("gamma_t", m.gamma_t, given.get("gamma_t", np.sqrt(2 * g)))
    else:
        c.eq("gamma", m.gamma, given.get("gamma", c.pi / (4 * s**2) - 0.5 * alpha))
        c.eq("extent", m.extent, 2 * np.sqrt(c.pi / alpha))
        c.eq("alpha_t^4", m.alpha_t**4, given["alpha_t"]**4 if "alpha_t" in given else (8 if which == "cgpcm" else 2) * alpha / c.pi)
        om = given.get("omega", c.pi / (m.t_z[1] - m.t_z[0]) ** 2)
        c.eq("omega", m.omega, om)
        c.eq("omega_t^4", m.omega_t**4, 2 * om / c.pi)


def partly(c, which):
    """Some of the parameters are given: they are used, and the others follow the conversions."""
    names = ("alpha", "alpha_t", "lam", "gamma", "gamma_t") if which == "rgpcm" else ("alpha", "alpha_t", "gamma", "omega")
    v = {k: c.pos(k) for k in names}
    for k in names:
        m, p = make(c, which, **{k: v[k]})
        rest(c, m, p, which, **{k: v[k]})
        if k != "alpha_t":
            power(c, m, f"power of the process, {k} given")
        if which != "rgpcm":
            c.eq(f"power of the noise transform, {k} given", B.dense(m.compute_K_z())[1, 1], 1 + 0 * v[k])
        elif k != "gamma_t":
            c.eq(f"power of the filter transform, {k} given", B.dense(m.compute_K_u())[0, 0], 1 + 0 * v[k])
    m, p = make(c, which, **{names[0]: v[names[0]], names[2]: v[names[2]]})
    rest(c, m, p, which, **{names[0]: v[names[0]], names[2]: v[names[2]]})


def causality(c):
    c.true("causal", CGPCM(window=2, scale=1, t=(0, 1)).causal is True and GPCM(window=2, scale=1, t=(0, 1)).causal is False
           and GPCM(causal=True, window=2, scale=1, t=(0, 1)).causal is True)
    m, p = make(c, "cgpcm")
    g = GPCM(causal=True, **p)
    for k in ("alpha", "alpha_t", "gamma", "omega", "omega_t", "t_u", "t_z", "extent"):
        c.eq(k, getattr(m, k), getattr(g, k))


_b = "any window, length scale, noise and span of the data; three to five inducing inputs of the filter, three of the noise"
HARNESSES = [
    Harness(conversions, [dict()], bounds=_b),
    Harness(gpcm_defaults, [dict(which=k, n_u=n) for k in ("gpcm", "cgpcm") for n in (3, 4)], bounds=_b),
    Harness(rgpcm_defaults, [dict(n_u=n) for n in (2, 3, 8)], bounds=_b),
    Harness(given_gamma, [dict()], bounds=_b),
    Harness(given, [dict(which=k) for k in MODELS], bounds=_b),
    Harness(partly, [dict(which=k) for k in MODELS], bounds=_b),
    Harness(causality, [dict()], bounds=_b),
]
