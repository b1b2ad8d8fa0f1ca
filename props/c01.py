"""Polynomial arithmetic agrees with evaluation."""
import itertools
from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var
from symx.explore import Harness
import numpy as np

# structural shapes: exponents of (x, y) of the monomials of a polynomial
SHAPES = {
    "0": [(0, 0)],
    "x": [(1, 0)],
    "1+x": [(0, 0), (1, 0)],
    "x+y": [(1, 0), (0, 1)],
    "1+xy": [(0, 0), (1, 1)],
    "x2+y": [(2, 0), (0, 1)],
    "x2y+x": [(2, 1), (1, 0)],
    "1+x+y2": [(0, 0), (1, 0), (0, 2)],
    "rep": [(1, 0), (1, 0), (0, 0)],
    "empty": [],
    "three": [(1, 0), (1, 0), (1, 0)],
    "four": [(0, 1), (1, 0), (1, 0), (1, 0), (1, 0)],
    "1+x+x2": [(0, 0), (1, 0), (2, 0)],
    "1+xy+x2y2": [(0, 0), (1, 1), (2, 2)],
}


def build(c, stem, shape, kind):
    """A polynomial of the real code and the list of (coefficient, i, j) it stands for."""
    terms, spec = [], []
    for n, (i, j) in enumerate(SHAPES[shape]):
        k = c.real(f"{stem}{n}", kind=kind)
        fs = [Factor("x", i)] if i else []
        fs += [Factor("y", j)] if j else []
        terms.append(Term(k, *fs))
        spec.append((k, i, j))
    return Poly(*terms), spec


def value(spec, x, y):
    r = 0
    for k, i, j in spec:
        r = r + k * x**i * y**j
    return r


def operators(c, p, q, kind):
    P, ps = build(c, "p", p, kind)
    Q, qs = build(c, "q", q, kind)
    s = c.real("s", kind=kind)
    x, y = c.real("x"), c.real("y")
    v, w = value(ps, x, y), value(qs, x, y)
    ev = lambda r: r.eval(x=x, y=y) if hasattr(r, "eval") else r
    c.eq("p", ev(P), v)
    c.eq("p+q", ev(P + Q), v + w)
    c.eq("p-q", ev(P - Q), v - w)
    c.eq("p*q", ev(P * Q), v * w)
    c.eq("-p", ev(-P), -v)
    c.eq("p+s", ev(P + s), v + s)
    c.eq("s+p", ev(s + P), v + s)
    c.eq("p-s", ev(P - s), v - s)
    c.eq("s-p", ev(s - P), s - v)
    c.eq("p*s", ev(P * s), v * s)
    c.eq("s*p", ev(s * P), v * s)
    c.eq("p-p", ev(P - P), 0 * v)
    c.eq("p+q-p", ev(P + Q - P), w + 0 * v)
    c.eq("operands unchanged", ev(P) + ev(Q), v + w)


def literals(c, p, kind):
    """Mixing with the literals the code treats specially."""
    P, ps = build(c, "p", p, kind)
    x, y = c.real("x"), c.real("y")
    v = value(ps, x, y)
    ev = lambda r: r.eval(x=x, y=y) if hasattr(r, "eval") else r
    for k in (0, 1, 2, -1, 0.0, 1.0, 0.5, -3):
        c.eq(f"p+{k}", ev(P + k), v + k)
        c.eq(f"{k}+p", ev(k + P), v + k)
        c.eq(f"p-{k}", ev(P - k), v - k)
        c.eq(f"{k}-p", ev(k - P), k - v)
        c.eq(f"p*{k}", ev(P * k), v * k)
        c.eq(f"{k}*p", ev(k * P), v * k)
    c.eq("sum", ev(sum([P, P, P])), 3 * v)


def powers(c, p, n, kind):
    P, ps = build(c, "p", p, kind)
    x, y = c.real("x"), c.real("y")
    v = value(ps, x, y)
    R = P**n
    c.true("the result is a polynomial", isinstance(R, Poly))
    e = 1 + 0 * x
    for _ in range(n):
        e = e * v
    c.eq("p**n", R.eval(x=x, y=y), e)
    Q, qs = build(c, "q", "x", kind)
    c.eq("p**n * q", (R * Q).eval(x=x, y=y), e * value(qs, x, y))
    c.eq("p**n + q", (R + Q).eval(x=x, y=y), e + value(qs, x, y))
    c.raises("p**-n", RuntimeError, lambda: P ** (-n - 1))


def high(c, p, top):
    """Higher powers."""
    P, ps = build(c, "p", p, "tensor")
    x, y = c.real("x"), c.real("y")
    v = value(ps, x, y)
    e = 1 + 0 * x
    for n in range(top + 1):
        c.eq(f"p**{n}", (P**n).eval(x=x, y=y), e)
        e = e * v


def pieces(c, kind):
    """Factors, terms and exponentiated polynomials."""
    k, m = c.real("k", kind=kind), c.real("m", kind=kind)
    x, y = c.real("x"), c.real("y")
    c.eq("factor", Factor("x", 3).eval(x=x, y=y), x**3)
    c.eq("factor product", (Factor("x", 1) * Factor("x", 2)).eval(x=x), x**3)
    t = Term(k, Factor("x", 1), Factor("y", 1), Factor("x", 2))
    u = Term(m, Factor("y", 2), Factor("y", 1))
    tv, uv = k * x**3 * y, m * y**3
    c.eq("term", t.eval(x=x, y=y), tv)
    c.eq("term*term", (t * u).eval(x=x, y=y), tv * uv)
    many = Term(k, Factor("x", 1), Factor("x", 2), Factor("y", 1), Factor("x", 1), Factor("y", 3), Factor("x", 1), Factor("y", 2))
    c.eq("term with many factors", many.eval(x=x, y=y), k * x**5 * y**6)
    c.eq("product of terms with many factors", (many * t * u * t).eval(x=x, y=y), k**3 * m * x**11 * y**11)
    c.eq("sum of terms with many factors", (Poly(many) + Poly(Term(m, Factor("y", 6), Factor("x", 5)))).eval(x=x, y=y), (k + m) * x**5 * y**6)
    c.eq("-term", (-t).eval(x=x, y=y), -tv)
    c.eq("1*term", (1 * t).eval(x=x, y=y), tv)
    c.eq("0+term", (0 + t).eval(x=x, y=y), tv)
    c.eq("term without constant", Term(Factor("x", 2)).eval(x=x), x**2)
    if kind == "tensor":  # a term with the number zero as its constant has no factors
        c.eq("term+term", (u + Term(k, Factor("y", 3))).eval(x=x, y=y), uv + k * y**3)
    c.eq("const", const(k).eval(x=x), k + 0 * x)
    c.eq("var", var("x", 2).eval(x=x), x**2)


def exponentials(c, kind):
    k, m, s = c.real("k", kind=kind), c.real("m", kind=kind), c.real("s", kind=kind)
    P, ps = build(c, "p", "1+xy", kind)
    Q, qs = build(c, "q", "x2+y", kind)
    x, y = c.real("x"), c.real("y")
    v, w = value(ps, x, y), value(qs, x, y)
    A, Bq = ExpPoly(k, P), ExpPoly(m, Q)
    c.eq("eval", A.eval(x=x, y=y), k * np.exp(v))
    c.eq("default constant", ExpPoly(Q).eval(x=x, y=y), np.exp(w))
    c.eq("product", (A * Bq).eval(x=x, y=y), k * m * np.exp(v + w))
    c.eq("scaled", (A * s).eval(x=x, y=y), s * k * np.exp(v))
    c.eq("scaled left", (s * A).eval(x=x, y=y), s * k * np.exp(v))
    c.eq("times 2", (2 * A).eval(x=x, y=y), 2 * k * np.exp(v))
    c.eq("negated", (-A).eval(x=x, y=y), -k * np.exp(v))


def like(c, p, q, kind):
    """Products and sums with many like terms, of which any may cancel."""
    P, ps = build(c, "p", p, kind)
    Q, qs = build(c, "q", q, kind)
    x, y = c.real("x"), c.real("y")
    v, w = value(ps, x, y), value(qs, x, y)
    ev = lambda r: r.eval(x=x, y=y) if hasattr(r, "eval") else r
    c.eq("p", ev(P) + 0 * x, v + 0 * x)
    c.eq("p*q", ev(P * Q), v * w + 0 * x)
    c.eq("p+q-p", ev(P + Q - P), w + 0 * x + 0 * v)


def arrays(c):
    """Evaluation with array-valued coefficients and variables broadcasts elementwise."""
    a, b = c.arr("a", 2, 1), c.arr("b", 2)
    x, y = c.arr("x", 2), c.real("y")
    P = const(a) * var("x") + const(b) * var("y") ** 2
    Q = const(b) - var("x")
    v, w = a * x + b * y**2, b - x
    c.eq("p", P.eval(x=x, y=y), v)
    c.eq("p*q", (P * Q).eval(x=x, y=y), v * w)
    c.eq("p-q", (P - Q).eval(x=x, y=y), v - w)
    c.eq("exp", ExpPoly(a, P * Q).eval(x=x, y=y), a * np.exp(v * w))


_pairs = [("x", "x"), ("1+x", "x+y"), ("1+xy", "x2+y"), ("rep", "x"), ("x2y+x", "1+x"), ("empty", "1+x"), ("0", "x+y")]
_old = [k for k in SHAPES if k not in ("three", "four", "1+x+x2", "1+xy+x2y2")]
_more = [(p, q) for p, q in itertools.product(_old, _old) if len(SHAPES[p]) + len(SHAPES[q]) <= 5]
_b = "polynomials of at most three monomials in two variables, powers up to four; all real coefficients and points"
HARNESSES = [
    Harness(operators, [dict(p=p, q=q, kind=k) for p, q in _pairs for k in ("tensor", "num") if not (k == "num" and len(SHAPES[p]) + len(SHAPES[q]) > 4)],
            [dict(p=p, q=q, kind=k) for p, q in _more for k in ("tensor", "num") if not (k == "num" and len(SHAPES[p]) + len(SHAPES[q]) > 4)], bounds=_b),
    Harness(literals, [dict(p=p, kind=k) for p in ("1+x", "x2+y", "rep") for k in ("num", "tensor")], bounds=_b),
    Harness(powers, [dict(p=p, n=n, kind=k) for p in ("1+x", "x+y", "empty") for n in (0, 1, 2, 3) for k in ("tensor", "num")],
            [dict(p=p, n=4, kind="tensor") for p in _old], bounds=_b),
    Harness(high, [dict(p=p, top=7) for p in ("x", "1+x", "x+y")], [dict(p="x2+y", top=9), dict(p="x", top=12)],
            bounds="powers up to seven (nine, twelve) of polynomials of at most two monomials"),
    Harness(pieces, [dict(kind="tensor"), dict(kind="num")], bounds=_b),
    Harness(exponentials, [dict(kind="tensor"), dict(kind="num")], bounds=_b),
    Harness(like, [dict(p=p, q=q, kind="num") for p, q in (("three", "0"), ("four", "empty"), ("1+x+x2", "1+x+x2"))],
            [dict(p=p, q=q, kind="num") for p, q in (("three", "1+x"), ("1+xy+x2y2", "1+xy+x2y2"), ("1+x+x2", "x+y"))], bounds=_b),
    Harness(arrays, [dict()], bounds="arrays of two elements"),
]
