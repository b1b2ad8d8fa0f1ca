"""Substitution and translation."""
import numpy as np
from gpcm.exppoly import ExpPoly, const, var
from symx.explore import Harness
from props.poly import SHAPES, build, value


def substitute(c, p, q, kind):
    P, ps = build(c, "p", p, kind)
    Q, qs = build(c, "q", q, kind)
    k = c.real("k", kind=kind)
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    vals = dict(x=x, y=y, z=z)
    w = value(qs, x, y, z)
    zero = 0 * x
    for name, args in (("x", (w, y, z)), ("y", (x, w, z)), ("z", (x, y, w))):
        R = P.substitute(name, Q)
        c.true(f"{name}: a polynomial", hasattr(R, "eval"))
        c.eq(f"p[{name}:=q]", R.eval(**vals) + zero, value(ps, *args) + zero)
        EP = ExpPoly(k, P)
        c.eq(f"exp p[{name}:=q]", EP.substitute(name, Q).eval(**vals), k * np.exp(value(ps, *args) + zero))
    c.eq("p is unchanged", P.eval(**vals) + zero, value(ps, x, y, z) + zero)
    c.eq("q is unchanged", Q.eval(**vals) + zero, value(qs, x, y, z) + zero)


def translate(c, p, q, kind):
    P, ps = build(c, "p", p, kind)
    Q, qs = build(c, "q", q, kind)
    k = c.real("k", kind=kind)
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    w = value(qs, x, y, z)
    zero = 0 * x
    EP = ExpPoly(k, P)
    for name, args in (("x", (x + w, y, z)), ("y", (x, y + w, z))):
        c.eq(f"exp p[{name}+=q]", EP.translate_var(name, Q).eval(x=x, y=y, z=z), k * np.exp(value(ps, *args) + zero))
    c.eq("there and back", EP.translate_var("x", const(k)).translate_var("x", const(-k)).eval(x=x, y=y, z=z),
         k * np.exp(value(ps, x, y, z) + zero))


def chain(c, kind):
    """Substitutions one after the other, a variable for a variable, and swapping two variables."""
    P, ps = build(c, "p", "xy+x2+y2", kind)
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    a, b = c.real("a", kind=kind), c.real("b", kind=kind)
    R = P.substitute("x", var("z")).substitute("y", var("x")).substitute("z", var("y"))
    c.eq("swap", R.eval(x=x, y=y), value(ps, y, x))
    R = P.substitute("x", var("x") * a + b).substitute("x", var("x") + var("y"))
    c.eq("chain", R.eval(x=x, y=y), value(ps, (x + y) * a + b, y))
    R = P.substitute("x", var("y"))
    c.eq("merge", R.eval(x=x, y=y), value(ps, y, y))
    c.eq("number", P.substitute("x", const(a)).eval(y=y), value(ps, a, y) + 0 * y)
    c.eq("to a number", P.substitute("x", const(2)).substitute("y", const(-1)).eval() + 0 * y, value(ps, 2, -1) + 0 * y)
    c.eq("of zero", P.substitute("x", const(0)).eval(y=y), value(ps, 0 * y, y))


_p = ["1+x", "x3", "x+x2", "x2y+x", "1+x+y2", "xy+x2+y2", "empty", "rep", "xyz"]
_q = ["1+x", "x+y", "1+xy", "y", "0", "empty"]
_small = [("1+x", "x+y"), ("x+x2", "1+x"), ("x3", "x+y"), ("x2y+x", "1+xy"), ("xyz", "1+y"), ("empty", "x"), ("xy+x2+y2", "1+x"),
          ("rep", "x2+y"), ("1+x+y2", "empty"), ("xyz", "x+z"), ("x2y2+xy", "1+x"), ("xy+yz+xz", "x+y"), ("x5+x4+x", "1+y")]
_b = "polynomials of at most three monomials in three variables, powers up to three, inserted polynomials of at most two monomials"
HARNESSES = [
    Harness(substitute, [dict(p=p, q=q, kind="tensor") for p, q in _small] + [dict(p=p, q=q, kind="num") for p, q in [("1+x", "y"), ("x+x2", "1+y"), ("xyz", "y")]],
            [dict(p=p, q=q, kind="tensor") for p in _p for q in _q] + [dict(p=p, q=q, kind="num") for p in _p for q in _q if len(SHAPES[p]) + len(SHAPES[q]) <= 4], bounds=_b),
    Harness(translate, [dict(p=p, q=q, kind="tensor") for p, q in _small] + [dict(p="x+x2", q="x", kind="num")],
            [dict(p=p, q=q, kind="tensor") for p in _p for q in _q], bounds=_b),
    Harness(chain, [dict(kind="tensor"), dict(kind="num")], bounds=_b),
]
