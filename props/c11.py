"""i_hx and I_ux of the RGPCM."""
import numpy as np
from symx.explore import Harness
from props.models import rgpcm_model


def dist(x, y):
    d = x - y
    return d if bool(d >= 0) else -d


def segment(k, lo, hi):
    """Integral of exp(k x) from lo to hi."""
    return (np.exp(k * hi) - np.exp(k * lo)) / k


def rectangle(cc, d, x1, x2, y1, y2):
    """Oriented integral of exp(cc (x + y) - d |x - y|) over [x1, x2] times [y1, y2]."""
    sign = 1
    if bool(x1 > x2):
        x1, x2, sign = x2, x1, -sign
    if bool(y1 > y2):
        y1, y2, sign = y2, y1, -sign
    # cut the range of x where it passes y1 and y2
    cuts = [x1]
    for y in (y1, y2):
        if bool(x1 < y) and bool(y < x2):
            cuts.append(y)
    cuts.append(x2)
    total = 0
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        if bool(hi <= y1):  # x below y throughout
            total = total + segment(cc + d, lo, hi) * segment(cc - d, y1, y2)
        elif bool(lo >= y2):  # x above y throughout
            total = total + segment(cc - d, lo, hi) * segment(cc + d, y1, y2)
        else:
            # y from y1 to x, and from x to y2:  exp((c-d)x) [E(c+d)]_{y1}^{x} + exp((c+d)x) [E(c-d)]_{x}^{y2}
            total = total + (segment(2 * cc, lo, hi) - np.exp((cc + d) * y1) * segment(cc - d, lo, hi)) / (cc + d)
            total = total + (np.exp((cc - d) * y2) * segment(cc + d, lo, hi) - segment(2 * cc, lo, hi)) / (cc - d)
    return sign * total


def want_ux(c, p, t1, t2, u1, u2):
    """Of k_hs(tau, u2) k_hs(sig, u1) k_x(t1 - tau, t2 - sig), tau from zero to u2 and sig to u1."""
    ga = p.gamma - p.alpha
    return p.alpha_t**2 * p.gamma_t**2 * np.exp(-p.gamma * (u1 + u2) + ga * (t1 + t2)) * \
        rectangle(ga, p.lam, -t1, u2 - t1, -t2, u1 - t2)


def i_hx(c, n):
    m, p = rgpcm_model(c, 2, [0, 1], 1)
    s, t = c.arr("s", n), c.arr("t", n)
    k = lambda d: p.alpha_t**2 / (2 * p.alpha) * np.exp(-p.lam * d)
    r = m.compute_i_hx(s, t)
    for i in range(n):
        c.eq("pairs", r[i], k(dist(s[i], t[i])))
    r = m.compute_i_hx(s[:, None], t[None, :])
    for i in range(n):
        for j in range(n):
            c.eq("grid", r[i, j], k(dist(s[i], t[j])))
    a, b = m.compute_i_hx(s), m.compute_i_hx(t2=t)
    for i in range(n):
        c.eq("second time left out", a[i], k(dist(s[i], 0 * s[i])))
        c.eq("first time left out", b[i], k(dist(0 * t[i], t[i])))
    c.eq("both left out", m.compute_i_hx(), k(0 * p.lam))


def general(c, p):
    """The closed form divides by these."""
    c.assume("ne", p.lam, p.alpha - p.gamma)


def orderings(xs):
    """All weak orderings of xs, as tuples of tied groups."""
    if not xs:
        return [()]
    out = []
    for rest in orderings(xs[1:]):
        for i in range(len(rest) + 1):
            out.append(rest[:i] + (xs[0],) + rest[i:])
            if i < len(rest):
                out.append(rest[:i] + (xs[0] + rest[i],) + rest[i + 1:])
    return out


def I_ux(c, order, entry):
    """One pair of times and one pair of inducing inputs, the ends of the ranges of integration in the given order,
    at any distance of each other."""
    x = c.real("x")
    pos = {}
    for i, tied in enumerate(order):
        if i:
            x = x + c.pos(f"d_{i}")
        for name in tied:
            pos[name] = x
    s, u = -pos["a"], pos["b"] - pos["a"]  # a = -s, b = u - s, c = -t, d = v - t
    t, v = -pos["c"], pos["d"] - pos["c"]
    if entry is None:  # one inducing input
        us, i, j = [u], 0, 0
        v = u
    elif entry == 0:
        us, i, j = [v, u], 0, 1
    else:
        us, i, j = [u, v], 1, 0
    m, p = rgpcm_model(c, len(us), [0, 1], 1, t_u=c.stack(us))
    general(c, p)
    r = m.compute_I_ux(c.stack([s]), c.stack([t]))
    c.true("shape", np.shape(r) == (1, 1, len(us), len(us)))
    c.eq("I_ux", r[0, 0, i, j], want_ux(c, p, s, t, us[i], us[j]))


def grid(c, ts, ss, us):
    """Given times and inducing inputs, any hyperparameters: every entry, and every way to leave times out."""
    ts, ss, us = ([c.const(float(v)) for v in x] for x in (ts, ss, us))
    m, p = rgpcm_model(c, len(us), [0, 1], 1, t_u=c.stack(us))
    general(c, p)
    s, t = c.stack(ss), c.stack(ts)
    zero = c.const(0.0)
    r = m.compute_I_ux(s, t)
    c.true("shape", np.shape(r) == (len(ss), len(ts), len(us), len(us)))
    x, y, z = m.compute_I_ux(s), m.compute_I_ux(t2=t), m.compute_I_ux()
    c.true("shapes", np.shape(x) == (len(ss), len(us), len(us)) and np.shape(y) == (len(ts), len(us), len(us)) and np.shape(z) == (len(us), len(us)))
    for i, u in enumerate(us):
        for j, v in enumerate(us):
            c.eq("both left out", z[i, j], want_ux(c, p, zero, zero, u, v))
            for k, a in enumerate(ss):
                c.eq("second time left out", x[k, i, j], want_ux(c, p, a, zero, u, v))
                for l, b in enumerate(ts):
                    c.eq("both given", r[k, l, i, j], want_ux(c, p, a, b, u, v))
            for l, b in enumerate(ts):
                c.eq("first time left out", y[l, i, j], want_ux(c, p, zero, b, u, v))


ALL = orderings(["a", "b", "c", "d"])
FORWARD = [o for o in ALL if all(["".join(o).index(x) < "".join(o).index(y) and not any(x in g and y in g for g in o) for x, y in ("ab", "cd")])]
_b = "any hyperparameters with the decays apart; one pair of times and up to two inducing inputs anywhere (every sign and ordering), given grids of up to three by three"
HARNESSES = [
    Harness(i_hx, [dict(n=1), dict(n=2)], bounds=_b, lazy=True),
    Harness(I_ux, [dict(order=o, entry=1) for o in ALL], [dict(order=o, entry=e) for o in ALL for e in (0, 1)], bounds=_b, lazy=True),
    Harness(grid, [dict(ts=[0.5, -1], ss=[1, 0.25], us=[0, 0.75]), dict(ts=[0], ss=[0.5, 0, -2], us=[0.5, 1])],
            [dict(ts=[0.5, -1, 3], ss=[1, 0.25], us=[0, 0.75, 2]), dict(ts=[1, -1], ss=[2, -0.5], us=[-0.5, 0.5])], bounds=_b, lazy=True),
]
