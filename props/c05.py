"""Integrals of exponentiated quadratics over half-lines, quadrants and boxes."""
import numpy as np
from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var
from symx.explore import Harness
from props.c04 import NAMES, masks, quadratic, sparse

INF = float("inf")


def phi(c, x):
    return 0.5 + 0.5 * c.erf(x / np.sqrt(c.const(2)))


def moments(c, n, L, P, bs):
    """Normaliser, means, standard deviations and correlation of exp(-x^T P x / 2 + b^T x)."""
    if n == 1:
        p = P[0, 0]
        return np.sqrt(2 * c.pi / p) * np.exp(bs[0] ** 2 / (2 * p)), [bs[0] / p], [1 / np.sqrt(p)], None
    det = P[0, 0] * P[1, 1] - P[0, 1] ** 2
    S = [[P[1, 1] / det, -P[0, 1] / det], [-P[0, 1] / det, P[0, 0] / det]]
    mu = [S[0][0] * bs[0] + S[0][1] * bs[1], S[1][0] * bs[0] + S[1][1] * bs[1]]
    norm = 2 * c.pi / (L[0, 0] * L[1, 1]) * np.exp(0.5 * (mu[0] * bs[0] + mu[1] * bs[1]))
    return norm, mu, [np.sqrt(S[0][0]), np.sqrt(S[1][1])], S[0][1] / np.sqrt(S[0][0] * S[1][1])


def cdf1(c, z):
    return 1 if z is INF else 0 if z is None else phi(c, z)


def cdf2(c, z, w, rho):
    if z is None or w is None:
        return 0
    if z is INF:
        return cdf1(c, w)
    if w is INF:
        return cdf1(c, z)
    return c.bvn(z, w, rho)


def box(c, n, lims, L, P, bs):
    """Value of the integral of exp(-x^T P x / 2 + b^T x) over a box; None is minus, INF plus infinity."""
    norm, mu, sd, rho = moments(c, n, L, P, bs)
    z = [[v if v is None or v is INF else (v - m) / s for v in lim] for lim, m, s in zip(lims, mu, sd)]
    if n == 1:
        return norm * (cdf1(c, z[0][1]) - cdf1(c, z[0][0]))
    r = 0
    for i in (0, 1):
        for j in (0, 1):
            r = r + (1 if i == j else -1) * cdf2(c, z[0][i], z[1][j], rho)
    return norm * r


def half(c, n, swap):
    k, s = c.real("k"), c.real("s")
    L, P, b, d, e, poly = quadratic(c, n)
    rest = np.exp(e[0] + e[1] * s + e[2] * s**2)
    names = NAMES[:n][::-1] if swap else NAMES[:n]
    want = k * rest * box(c, n, [(None, 0)] * n, L, P, b + d * s)
    f = ExpPoly(k, poly)
    c.eq("half", f.integrate_half(*names, s=s), want)
    c.eq("negated", (-f).integrate_half(*names, s=s), -want)
    c.eq("box", f.integrate_box(*[(m, -np.inf, 0) for m in names], s=s), want)


def pieces(c, n, mask, kind, lims=None):
    """Half-lines, quadrants and boxes with only some of the pieces of the quadratic present."""
    k, s = c.real("k", kind=kind), c.real("s", kind=kind)
    L, P, b, d, e, poly = sparse(c, n, mask, kind)
    bs = [x + y * s for x, y in zip(b, d)]
    rest = np.exp(e[0] + e[1] * s + e[2] * s**2)
    f = ExpPoly(k, poly)
    names = NAMES[:n]
    if lims is None:
        want = k * rest * box(c, n, [(None, 0)] * n, L, P, bs)
        c.eq("half", f.integrate_half(*names, s=s), want)
    else:
        given, vals = [], []
        for m, (lower, upper) in zip(names, lims):
            lo, lv = limit(c, "lo" + m, lower, s)
            up, uv = limit(c, "up" + m, upper, s)
            given.append((m, lo, up))
            vals.append((lv, uv))
        c.eq("box", f.integrate_box(*given, s=s), k * rest * box(c, n, vals, L, P, bs))


def limit(c, name, how, s):
    """(what is passed, the value it stands for)"""
    if how == "-inf":
        return -np.inf, None
    if how == "inf":
        return np.inf, INF
    if how == "+inf as lower":
        return np.inf, None
    if how == "-inf as upper":
        return -np.inf, INF
    if how == "num":
        v = c.real(name, kind="num")
        return v, v
    if how == "tensor":
        v = c.real(name)
        return v, v
    if how == "poly":
        v = c.real(name)
        return const(v) + 2 * var("s"), v + 2 * s
    if how == "var":
        return var("s"), s
    return how, how


def box1(c, lower, upper):
    k, s = c.real("k"), c.real("s")
    L, P, b, d, e, poly = quadratic(c, 1)
    lo, lv = limit(c, "lo", lower, s)
    up, uv = limit(c, "up", upper, s)
    rest = np.exp(e[0] + e[1] * s + e[2] * s**2)
    want = k * rest * box(c, 1, [(lv, uv)], L, P, b + d * s)
    f = ExpPoly(k, poly)
    c.eq("box", f.integrate_box(("x", lo, up), s=s), want)
    c.eq("scaled", (f * k).integrate_box(("x", lo, up), s=s), k * want)


def box2(c, lims, swap):
    k, s = c.real("k"), c.real("s")
    L, P, b, d, e, poly = quadratic(c, 2)
    given, vals = [], []
    for i, (lower, upper) in enumerate(lims):
        lo, lv = limit(c, f"lo{i}", lower, s)
        up, uv = limit(c, f"up{i}", upper, s)
        given.append((NAMES[i], lo, up))
        vals.append((lv, uv))
    if swap:
        given = given[::-1]
    rest = np.exp(e[0] + e[1] * s + e[2] * s**2)
    want = k * rest * box(c, 2, vals, L, P, b + d * s)
    c.eq("box", ExpPoly(k, poly).integrate_box(*given, s=s), want)


def box3(c, lower, upper, at):
    """Three variables, one of them from end to end."""
    k, s = c.real("k"), c.real("s")
    L, P, b, d, e, poly = quadratic(c, 3)
    lo, lv = limit(c, "lo", lower, s)
    up, uv = limit(c, "up", upper, s)
    # marginalise x by hand: the rest is a quadratic in (y, z) again
    bs = b + d * s
    given = [("x", -np.inf, np.inf), ("y", lo, up), ("z", -np.inf, up)]
    given = given[at:] + given[:at]
    Q = [[P[i, j] - P[i, 0] * P[0, j] / P[0, 0] for j in (1, 2)] for i in (1, 2)]
    bb = [bs[i] - P[i, 0] * bs[0] / P[0, 0] for i in (1, 2)]
    det = Q[0][0] * Q[1][1] - Q[0][1] ** 2
    S = [[Q[1][1] / det, -Q[0][1] / det], [-Q[0][1] / det, Q[0][0] / det]]
    mu = [S[0][0] * bb[0] + S[0][1] * bb[1], S[1][0] * bb[0] + S[1][1] * bb[1]]
    sd, rho = [np.sqrt(S[0][0]), np.sqrt(S[1][1])], S[0][1] / np.sqrt(S[0][0] * S[1][1])
    norm = (2 * c.pi) * np.sqrt(2 * c.pi) / (L[0, 0] * L[1, 1] * L[2, 2])
    norm = norm * np.exp(0.5 * (mu[0] * bb[0] + mu[1] * bb[1]) + 0.5 * bs[0] ** 2 / P[0, 0] + e[0] + e[1] * s + e[2] * s**2)
    z = [v if v is None or v is INF else (v - mu[0]) / sd[0] for v in (lv, uv)]
    w = uv if uv is INF else (uv - mu[1]) / sd[1]
    want = k * norm * (cdf2(c, z[1], w, rho) - cdf2(c, z[0], w, rho))
    c.eq("box", ExpPoly(k, poly).integrate_box(*given, s=s), want)


def arrays(c):
    """Tensor-valued limits, coefficients and variables broadcast elementwise."""
    a, k = c.arr("a", 2, positive=True), c.arr("k", 2)
    s, u = c.arr("s", 2, 1), c.arr("u", 2)
    f = ExpPoly(k, -const(a) * var("x") ** 2 + const(k) * var("s") * var("x"))
    m = k * s / (2 * a)
    norm = k * np.sqrt(c.pi / a) * np.exp(k**2 * s**2 / (4 * a))
    F = lambda v: 0.5 * (1 + c.erf(np.sqrt(a) * (v - m)))
    c.eq("half", f.integrate_half("x", s=s), norm * F(0))
    c.eq("up to a tensor", f.integrate_box(("x", -np.inf, u), s=s), norm * F(u))
    c.eq("from a tensor", f.integrate_box(("x", u, np.inf), s=s), norm * (1 - F(u)))
    c.eq("between tensors", f.integrate_box(("x", u, u + 1), s=s), norm * (F(u + 1) - F(u)))


def arrays2(c):
    a, g, h = c.pos("a"), c.pos("g"), c.real("h", lo=-1, hi=1)
    s = c.arr("s", 2, 1)
    t = c.arr("t", 3)
    # -a x^2 - g y^2 + s x + t y, uncoupled: a product of half-line integrals
    f = ExpPoly(-const(a) * var("x") ** 2 - const(g) * var("y") ** 2 + var("s") * var("x") + var("t") * var("y"))
    I = lambda a, b: np.sqrt(c.pi / a) * np.exp(b**2 / (4 * a)) * 0.5 * (1 - c.erf(b / (2 * np.sqrt(a))))
    c.eq("quadrant", f.integrate_half("x", "y", s=s, t=t), I(a, s) * I(g, t))


_l = ["-inf", "num", "tensor", "poly", "var"]
_u = ["inf", "num", "tensor", "poly", "var"]
_fin = [("num", "tensor"), ("-inf", "poly"), ("tensor", "inf"), ("-inf", "inf"), ("+inf as lower", "num")]
_b = "positive-definite quadratics in one or two (three with one marginalised) variables, linear terms coupled to a free variable; every kind of limit"
_pb = "any subset of the plain linear, coupled linear, cross and constant pieces; tensor and number coefficients"
HARNESSES = [
    Harness(pieces, [dict(n=n, mask=m, kind=k, lims=l) for k in ("tensor", "num") for n in (1, 2) for m in masks(n, k)
                     for l in (None, [("-inf", "tensor"), ("tensor", "inf")][:n])],
            [dict(n=n, mask=m, kind=k, lims=l) for k in ("tensor", "num") for n in (1, 2) for m in masks(n, k)
             for l in ([("tensor", "tensor"), ("poly", "var")][:n], [("-inf", "inf"), ("tensor", "tensor")][:n])], bounds=_pb),
    Harness(half, [dict(n=n, swap=w) for n in (1, 2) for w in (False, True)], bounds=_b),
    Harness(box1, [dict(lower=l, upper=u) for l in _l for u in _u] + [dict(lower="+inf as lower", upper="tensor"),
            dict(lower="tensor", upper="-inf as upper"), dict(lower="+inf as lower", upper="inf"), dict(lower=0, upper="inf"),
            dict(lower=0, upper=1), dict(lower=-2.5, upper=0)], bounds=_b),
    Harness(box2, [dict(lims=[a, b], swap=w) for a in _fin for b in _fin for w in (False, True) if not w or a != b], bounds=_b),
    Harness(box3, [dict(lower="-inf", upper="tensor", at=0), dict(lower="num", upper="tensor", at=1)],
            [dict(lower="tensor", upper="num", at=2)], bounds=_b, timeout_ms=60000),
    Harness(arrays, [dict()], bounds="arrays of two by two elements"),
    Harness(arrays2, [dict()], bounds="arrays of two by three elements"),
]
