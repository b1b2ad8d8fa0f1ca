"""What is learnable, and within which constraints."""
import itertools
from contextlib import contextmanager
import numpy as np
import lab as B
from varz import Vars
from gpcm.gpcm import CGPCM, GPCM
from gpcm.rgpcm import RGPCM
from symx.explore import Harness
import props.models

MODELS = {"gpcm": GPCM, "cgpcm": CGPCM, "rgpcm": RGPCM}
SCHEMES = ["structured", "mean-field", "mean-field-ca", "mean-field-gradient", "mean-field-collapsed-gradient",
           "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient"]
FIXED = {"fix_noise": "noise", "fix_window": "alpha", "fix_scale": None}


def make(c, which, scheme="structured", **kw):
    v = {k: c.pos(k) for k in ("noise", "alpha", "alpha_t", "gamma")}
    u = c.increasing("u", 1)
    if which == "rgpcm":
        v["lam"] = c.pos("lam")
        c.assume("lt", 1.5 * v["gamma"], v["alpha"])
        c.assume("lt", v["alpha"], 10000 * v["gamma"])  # as with the defaults
        v["gamma_t"] = c.pos("gamma_t")
        v["t_u"] = c.stack([c.const(0.0), c.pos("u1")])
        v["a"] = c.real("a")
        v["b"] = v["a"] + c.pos("len")
        v["m_max"] = 1
        v["ms"] = np.array([0, 2])
    else:
        v["omega"] = c.pos("omega")
        v["t_u"] = c.stack([-c.pos("u0"), c.pos("u1")])
        v["t_z"] = c.arr("z", 2)
        c.assume("ne", v["t_z"][0], v["t_z"][1])
    m = MODELS[which](scheme=scheme, **v, **kw)
    return m, v


@contextmanager
def bounds():
    """The bounds that variables are created with, and their initial values."""
    seen, old = [], Vars.bounded

    def bounded(self, init=None, lower=1e-4, upper=1e4, *a, **k):
        seen.append((init, lower, upper))
        return old(self, init, lower, upper, *a, **k)
    Vars.bounded = bounded
    try:
        yield seen
    finally:
        Vars.bounded = old


def names(which, flags):
    scale = "lambda" if which == "rgpcm" else "gamma"
    out = {"noise", "alpha", "alpha_t", scale, "t_u"} | ({"gamma_factor"} if which == "rgpcm" else {"omega", "t_z"})
    return out - {n for f, n in zip(("fix_noise", "fix_window", "fix_scale"), ("noise", "alpha", scale)) if flags[f]}


def initial(c, which, flags, scheme="structured"):
    """At first nothing moves; exactly what is not fixed is a variable."""
    flags = dict(zip(("fix_noise", "fix_window", "fix_scale"), flags))
    m, v = make(c, which, scheme, **flags)
    with bounds() as seen:
        i = m()
    for init, lower, upper in seen:
        for x in np.reshape(init, (-1,)):
            c.always("initially within its bounds", "lt", lower + 0 * x, x)
            c.always("initially within its bounds", "lt", x, upper + 0 * x)
    c.true("variables", set(m.vs.names) == names(which, flags) and len(m.vs.names) == len(m.vs.vars))
    c.true("all are trainable", all(m.vs.visible))
    for k, x in v.items():
        if k not in ("m_max", "ms"):
            c.eq(k, getattr(i, k), x)
            c.eq(f"{k} of the model", getattr(m, k), x)
    if which == "rgpcm":
        c.true("features", list(np.asarray(i.ms)) == [0, 2] and i.m_max == 1)
    else:
        c.eq("noise transform keeps its power", i.omega_t**4, 2 * v["omega"] / c.pi)
    for k in m.vs.names:
        attr = {"lambda": "lam"}.get(k, k)
        want = v["alpha"] / v["gamma"] if k == "gamma_factor" else v[attr]
        c.eq(f"variable {k}", m.vs[k], want)
    # again: the same variables
    j = m()
    c.true("no new variables", set(m.vs.names) == names(which, flags) and len(m.vs.vars) == len(m.vs.names))
    c.eq("the same noise", j.noise, i.noise)
    c.eq("the same inputs", j.t_u, i.t_u)


def moved(c, which, flags):
    """Wherever the variables go, the parameters stay within their constraints."""
    flags = dict(zip(("fix_noise", "fix_window", "fix_scale"), flags))
    m, v = make(c, which, **flags)
    m()
    n = names(which, flags)
    lo, hi = 1.5 * v["t_u"][0], 1.5 * v["t_u"][1]
    if which == "rgpcm":
        lo = c.const(-1e-4) + 0 * lo
    for k in m.vs.names:
        at = m.vs.name_to_index[k]
        old = m.vs.vars[at]
        m.vs.vars[at] = c.arr(f"latent {k}", *np.shape(old)) if np.shape(old) else c.real(f"latent {k}")
    i = m()
    fixed = [k for k in ("noise", "alpha", "alpha_t", "lam", "gamma", "omega") if k in v and k not in n]
    if which == "rgpcm":
        fixed = [k for k in fixed if not (k == "lam" and "lambda" in n) and k != "gamma"] + ["gamma_t", "a", "b"]
        c.true("features", list(np.asarray(i.ms)) == [0, 2] and i.m_max == 1)
    for k in fixed:
        c.eq(f"{k} is fixed", getattr(i, k), v[k])
    for k in ("noise", "alpha", "alpha_t", "lam", "omega", "gamma"):
        if k in v:
            c.always(f"{k} is positive", "lt", 0 * v["alpha"], getattr(i, k))
    if which == "rgpcm":
        c.always("the transform's decay stays below the window's", "lt", i.gamma, i.alpha)
        g = m.vs["gamma_factor"]
        c.always("within its bound", "lt", g, 10000 + 0 * g)
        c.eq("gamma", i.gamma * g, i.alpha)
    else:
        for q in range(2):
            c.eq("the inputs of the noise are free", i.t_z[q], m.vs.vars[m.vs.name_to_index["t_z"]][q])
        c.eq("variance of the noise transform is not learned", i.omega_t**4, 2 * v["omega"] / c.pi)
    for q in range(2):
        c.always("lower end", "lt", lo, i.t_u[q])
        c.always("upper end", "lt", i.t_u[q], hi)
    for k in m.vs.names:
        attr = {"lambda": "lam"}.get(k, k)
        if k != "gamma_factor":
            c.eq(f"{k} follows its variable", getattr(i, attr), m.vs[k])
    # the model's own parameters are the initial ones
    for k, x in v.items():
        if k not in ("m_max", "ms"):
            c.eq(f"{k} of the model", getattr(m, k), x)
    c.eq("covariance of the filter's inducing variables follows", B.dense(i.K_u)[0, 1], B.dense(i.compute_K_u())[0, 1])


FLAGS = [list(x) for x in itertools.product([False, True], repeat=3)]
_b = "any parameters within the constraints and any values of the latent variables; two inducing inputs each; every choice of what is fixed"
HARNESSES = [
    Harness(initial, [dict(which=k, flags=f) for k in MODELS for f in FLAGS] +
            [dict(which="gpcm", flags=[False] * 3, scheme=s) for s in SCHEMES[1:]], bounds=_b),
    Harness(moved, [dict(which=k, flags=f) for k in MODELS for f in FLAGS], bounds=_b),
]
