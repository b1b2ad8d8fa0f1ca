"""Shared builders for the polynomial properties."""
from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var

# structural shapes: exponents of the variables of the monomials of a polynomial
V = ("x", "y", "z")
SHAPES = {
    "0": [(0, 0)],
    "x": [(1, 0)],
    "y": [(0, 1)],
    "x3": [(3, 0)],
    "1+x": [(0, 0), (1, 0)],
    "1+y": [(0, 0), (0, 1)],
    "x+y": [(1, 0), (0, 1)],
    "1+xy": [(0, 0), (1, 1)],
    "x2+y": [(2, 0), (0, 1)],
    "x+x2": [(1, 0), (2, 0)],
    "x2y+x": [(2, 1), (1, 0)],
    "1+x+y2": [(0, 0), (1, 0), (0, 2)],
    "xy+x2+y2": [(1, 1), (2, 0), (0, 2)],
    "rep": [(1, 0), (1, 0), (0, 0)],
    "empty": [],
    "xyz": [(1, 1, 1), (2, 0, 1), (0, 1, 0)],
    "x+z": [(1, 0, 0), (0, 0, 1)],
    "1+x2z": [(0, 0, 0), (2, 0, 1)],
    "x2y2+xy": [(2, 2), (1, 1)],
    "x3y3z3": [(3, 3, 3), (0, 3, 3)],
    "xy+yz+xz": [(1, 1, 0), (0, 1, 1), (1, 0, 1)],
    "x4y2+y": [(4, 2), (0, 1)],
    "x5+x4+x": [(5, 0), (4, 0), (1, 0)],
}


def monomial(k, powers):
    return Term(k, *[Factor(n, p) for n, p in zip(V, powers) if p])


def build(c, stem, shape, kind, order=None):
    """A polynomial of the real code and the list of (coefficient, exponents) it stands for."""
    spec = []
    for n, powers in enumerate(SHAPES[shape]):
        spec.append((c.real(f"{stem}{n}", kind=kind), powers))
    return Poly(*[monomial(k, p) for k, p in spec]), spec


def value(spec, *point):
    r = 0
    for k, powers in spec:
        t = k
        for v, p in zip(point, powers):
            t = t * v**p
        r = r + t
    return r


def evaluate(r, **vals):
    return r.eval(**vals) if hasattr(r, "eval") else r
