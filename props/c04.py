"""Integrals of exponentiated quadratics over the whole real line."""
import itertools
import numpy as np
from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var
from symx.explore import Harness

NAMES = ("x", "y", "z")


def quadratic(c, n, rest=True):
    """-x^T P x / 2 + b(s)^T x + e(s) with P = L L^T, and its pieces."""
    L = c.tril("l", n)
    P = L @ L.T
    b, d = c.vec("b", n), c.vec("d", n)
    e0, e1, e2 = c.real("e0"), c.real("e1"), c.real("e2")
    terms = []
    for i in range(n):
        for j in range(n):
            terms.append(Term(-0.5 * P[i, j], Factor(NAMES[i], 1), Factor(NAMES[j], 1)))
        terms.append(Term(b[i], Factor(NAMES[i], 1)))
        if rest:
            terms.append(Term(d[i], Factor("s", 1), Factor(NAMES[i], 1)))
    terms.append(Term(e0))
    if rest:
        terms += [Term(e1, Factor("s", 1)), Term(e2, Factor("s", 2))]
    return L, P, b, d, (e0, e1, e2), Poly(*terms)


def sparse(c, n, mask, kind):
    """Like `quadratic`, with only the pieces in `mask` present: b (plain linear), d (linear coupled to s), x (cross terms),
    e (what does not depend on the variables); coefficients are tensors or numbers. Pieces that are absent are zero."""
    L = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            L[i, j] = 0 if j > i or (j < i and "x" not in mask) else c.real(f"l{i}{j}", positive=i == j, kind=kind)
    P = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            P[i, j] = sum((L[i, k] * L[j, k] for k in range(1, min(i, j) + 1)), L[i, 0] * L[j, 0])
    b = [c.real(f"b{i}", kind=kind) if "b" in mask else 0 for i in range(n)]
    d = [c.real(f"d{i}", kind=kind) if "d" in mask else 0 for i in range(n)]
    e = [c.real(f"e{i}", kind=kind) if "e" in mask else 0 for i in range(3)]
    if kind == "num":  # what is not there is left out by the mask
        for v in [L[i, j] for i in range(n) for j in range(i)] + b + d + e:
            if v is not 0:  # noqa: F632
                c.assume("ne", v, 0)
    terms = []
    for i in range(n):
        for j in range(i + 1):
            if i == j or "x" in mask:
                terms.append(Term(P[i, j] * (-0.5 if i == j else -1), Factor(NAMES[i], 1), Factor(NAMES[j], 1)))
        if "b" in mask:
            terms.append(Term(b[i], Factor(NAMES[i], 1)))
        if "d" in mask:
            terms.append(Term(d[i], Factor("s", 1), Factor(NAMES[i], 1)))
    if "e" in mask:
        terms += [Term(e[0]), Term(e[1], Factor("s", 1)), Term(e[2], Factor("s", 2))]
    return L, P, b, d, e, Poly(*terms)


def pieces(c, n, mask, kind, swap=False):
    """All variables, with only some of the pieces of the quadratic present."""
    k, s = c.real("k", kind=kind), c.real("s", kind=kind)
    L, P, b, d, e, poly = sparse(c, n, mask, kind)
    bs = [x + y * s for x, y in zip(b, d)]
    w, q, det = [], 0 * s, 1
    for i in range(n):
        r = bs[i]
        for j in range(i):
            r = r - L[i, j] * w[j]
        w.append(r / L[i, i])
        q = q + w[i] * w[i]
        det = det * L[i, i]
    want = k * (2 * c.pi) ** (n / 2) / det * np.exp(q / 2 + e[0] + e[1] * s + e[2] * s**2)
    names = NAMES[:n][::-1] if swap else NAMES[:n]
    c.eq("integral", ExpPoly(k, poly).integrate(*names, s=s), want)
    c.eq("box without limits", ExpPoly(k, poly).integrate_box(*[(m, -np.inf, np.inf) for m in names], s=s), want)


def full(c, n, order):
    """All variables, in every order, against (2 pi)^(n/2) / det(L) * exp(|L^-1 b|^2 / 2 + e)."""
    k, s = c.real("k"), c.real("s")
    L, P, b, d, e, poly = quadratic(c, n)
    bs = b + d * s
    # forward substitution, spelled out
    w = []
    for i in range(n):
        r = bs[i]
        for j in range(i):
            r = r - L[i, j] * w[j]
        w.append(r / L[i, i])
    q = 0
    for v in w:
        q = q + v * v
    det = 1
    for i in range(n):
        det = det * L[i, i]
    want = k * (2 * c.pi) ** (n / 2) / det * np.exp(q / 2 + e[0] + e[1] * s + e[2] * s**2)
    names = [NAMES[i] for i in order]
    c.eq("integral", ExpPoly(k, poly).integrate(*names, s=s), want)


def partial(c, n, name, extra):
    """One variable; the rest stay, in any power."""
    k, s = c.real("k"), c.real("s")
    L, P, b, d, e, poly = quadratic(c, n)
    vals = {m: c.real("v" + m) for m in NAMES[:n]}
    i = NAMES.index(name)
    g = c.real("g")
    lin = b[i] + d[i] * s
    for j in range(n):
        if j != i:
            lin = lin - P[i, j] * vals[NAMES[j]]
    rest = e[0] + e[1] * s + e[2] * s**2
    for a in range(n):
        for j in range(n):
            if i not in (a, j):
                rest = rest - 0.5 * P[a, j] * vals[NAMES[a]] * vals[NAMES[j]]
        if a != i:
            rest = rest + (b[a] + d[a] * s) * vals[NAMES[a]]
    if extra:
        poly = poly + Poly(Term(g, Factor(name, 1), Factor("s", 2)), Term(g, Factor("s", 3)))
        lin = lin + g * s**2
        rest = rest + g * s**3
    want = k * np.sqrt(2 * c.pi / P[i, i]) * np.exp(lin**2 / (2 * P[i, i]) + rest)
    others = {m: v for m, v in vals.items() if m != name}
    c.eq("integral", ExpPoly(k, poly).integrate(name, s=s, **others), want)
    c.eq("nothing to integrate", ExpPoly(k, poly).integrate(s=s, **vals), ExpPoly(k, poly).eval(s=s, **vals))
    c.eq("nothing more to integrate", ExpPoly(k, poly)._integrate(name).eval(s=s, **others), want)


def forms(c):
    """The ways the repository itself writes these integrals."""
    a, g, k = c.pos("a"), c.pos("g"), c.real("k")
    s, t = c.real("s"), c.real("t")
    tau, ts, tt = var("tau"), var("s"), var("t")
    f = ExpPoly(-const(a) * (ts - tau) ** 2) * ExpPoly(k, -const(g) * (tau - tt) ** 2)
    want = k * np.sqrt(c.pi / (a + g)) * np.exp(-a * g / (a + g) * (s - t) ** 2)
    c.eq("convolution", f.integrate("tau", s=s, t=t), want)
    c.eq("scaled", (2 * f).integrate("tau", s=s, t=t), 2 * want)
    c.eq("negated", (-f).integrate("tau", s=s, t=t), -want)
    c.eq("box without limits", f.integrate_box(("tau", -np.inf, np.inf), s=s, t=t), want)
    h = ExpPoly(-const(a) * tau**2 - const(g) * ts**2)
    c.eq("separable", (h * 3).integrate("tau", "s"), 3 * c.pi / np.sqrt(a * g))
    c.eq("translated", f.translate_var("tau", tt).integrate("tau", s=s, t=t), want)


def arrays(c):
    """Tensor coefficients and variables broadcast."""
    a, k = c.arr("a", 2, positive=True), c.arr("k", 2)
    s = c.arr("s", 3, 1)
    f = ExpPoly(k, -const(a) * var("x") ** 2 + const(k) * var("s") * var("x"))
    c.eq("integral", f.integrate("x", s=s), k * np.sqrt(c.pi / a) * np.exp(k**2 * s**2 / (4 * a)))


_b = "positive-definite quadratics in one to three integration variables (general Cholesky factor), linear terms coupled to a free variable"
def masks(n, kind):
    return [m for m in MASKS if (n > 1 or "x" not in m) and (n == 1 or kind == "tensor" or len(m) < 3)]


MASKS = ["", "b", "d", "e", "bd", "be", "x", "xb", "xd", "xe", "xbde", "bde"]
HARNESSES = [
    Harness(pieces, [dict(n=n, mask=m, kind=k) for k in ("tensor", "num") for n in (1, 2) for m in masks(n, k)],
            [dict(n=n, mask=m, kind=k, swap=True) for k in ("tensor", "num") for n in (2, 3) for m in masks(n, k) if n < 3 or k == "tensor"],
            bounds="any subset of the plain linear, coupled linear, cross and constant pieces; tensor and number coefficients"),
    Harness(full, [dict(n=n, order=list(o)) for n in (1, 2, 3) for o in itertools.permutations(range(n))], bounds=_b),
    Harness(partial, [dict(n=n, name=m, extra=x) for n in (1, 2, 3) for m in NAMES[:n] for x in (False, True)], bounds=_b),
    Harness(forms, [dict()], bounds=_b),
    Harness(arrays, [dict()], bounds="arrays of two by three elements"),
]
