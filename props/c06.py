"""Ill-posed symbolic requests raise; well-posed ones do not."""
import numpy as np
from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var
from symx.explore import Harness

FINITE = {"integrate": lambda f, v, **k: f.integrate(v, **k), "half": lambda f, v, **k: f.integrate_half(v, **k),
          "box": lambda f, v, **k: f.integrate_box((v, -1, 2), **k),
          "up": lambda f, v, **k: f.integrate_box((v, -np.inf, 2), **k),
          "down": lambda f, v, **k: f.integrate_box((v, 0, np.inf), **k),
          "all": lambda f, v, **k: f.integrate_box((v, -np.inf, np.inf), **k)}


def degree(c, how, powers, kind):
    """sum_i a_i x^i + ..., with coefficients that may be the number zero: accepted exactly for degree two."""
    f = FINITE[how]
    s, y = c.real("s"), c.real("y")
    coefs, terms = {}, []
    for n in powers:
        if n == 2:
            k = c.real("a2", kind=kind, hi=0)
        else:
            k = c.real(f"a{n}", kind=kind)
        coefs[n] = k
        terms.append(Term(k, *([Factor("x", n)] if n else [])))
    terms.append(Term(c.real("g"), Factor("y", 1)))
    terms.append(Term(c.real("h"), Factor("y", 1), Factor("z", 3)))
    if kind == "num":
        top = max([n for n in powers if n and coefs[n] != 0], default=0)
    else:
        top = max(powers, default=0)
        if 2 in coefs:
            c.assume("lt", coefs[2], 0)
    p = ExpPoly(s, Poly(*terms))
    if top == 2:
        try:
            r = f(p, "x", y=y, z=y)
        except RuntimeError as e:
            c.fail("well-posed request", f"refused: {e}")
            return
        c.true("a number", np.shape(r) == ())
    else:
        c.raises("degree", RuntimeError, lambda: f(p, "x", y=y, z=y))
    c.raises("absent variable", RuntimeError, lambda: f(p, "w", x=s, y=y, z=y))


def degree2(c, how, powers):
    """Two variables at once: both have to be quadratic."""
    a, b = powers
    g, h = c.pos("g"), c.pos("h")
    p = ExpPoly(-const(g) * var("x") ** a - const(h) * var("y") ** b)
    f = {"half": lambda q, *n: q.integrate_half(*n), "box": lambda q, *n: q.integrate_box(*[(m, -1, 2) for m in n]),
         "up": lambda q, *n: q.integrate_box(*[(m, -np.inf, 1) for m in n]),
         "down": lambda q, *n: q.integrate_box(*[(m, 1, np.inf) for m in n]),
         "all": lambda q, *n: q.integrate_box(*[(m, -np.inf, np.inf) for m in n]),
         "integrate": lambda q, *n: q.integrate(*n)}[how]
    for names in (("x", "y"), ("y", "x")):
        if a == 2 and b == 2:
            try:
                r = f(p, *names)
            except RuntimeError as e:
                c.fail("well-posed request", f"refused: {e}")
                return
            c.true("a number", np.shape(r) == ())
        else:
            c.raises(f"degree {names}", RuntimeError, lambda: f(p, *names))
        if how in ("integrate", "all"):
            # Once integrated over, a variable is gone.
            c.raises(f"repeated {names}", RuntimeError, lambda: f(p, *names, names[0]))
            c.raises(f"repeated {names}", RuntimeError, lambda: f(p, names[0], *names))


def coefficient(c, kind):
    """The quadratic coefficient may not depend on another variable (in an integral over the whole line)."""
    a, b, d = c.pos("a"), c.real("b", kind=kind), c.real("d")
    s = c.real("s")
    for extra, dep in ((lambda: var("y"), True), (lambda: var("y") ** 2, True), (lambda: const(1), False)):
        p = ExpPoly(Poly(Term(-a, Factor("x", 2))) - b * extra() * var("x") ** 2 + const(d) * var("x") * var("y"))
        ill = dep and (kind == "tensor" or bool(b != 0))
        if ill:
            c.raises("dependent coefficient", RuntimeError, lambda: p.integrate("x", y=s))
            c.raises("dependent coefficient, box", RuntimeError, lambda: p.integrate_box(("x", -np.inf, np.inf), y=s))
        elif dep or kind == "num":
            try:
                p.integrate("x", y=s)
            except RuntimeError as e:
                c.fail("well-posed request", f"refused: {e}")
        # chained: the first elimination can make the second one ill-posed
    q = ExpPoly(-const(a) * var("x") ** 2 + const(d) * var("x") * var("y") ** 2)
    c.raises("quartic after elimination", RuntimeError, lambda: q.integrate("x", "y"))
    c.raises("linear after elimination", RuntimeError, lambda: (q * ExpPoly(var("z"))).integrate("x", "z", y=s))


def factors(c):
    k, m = c.real("k"), c.real("m")
    kn = c.real("kn", kind="num")
    x, y = c.real("x"), c.real("y")
    for p in (0, -1, -3):
        c.raises(f"factor power {p}", ValueError, lambda: Factor("x", p))
        c.raises(f"variable power {p}", ValueError, lambda: var("x", p))
    for p in (1, 2, 5):
        c.eq(f"factor power {p}", Factor("x", p).eval(x=x), x**p)
    for p in (-1, -2, -7):
        for what, q in (("sum", const(k) + var("x")), ("constant", const(k)), ("zero", const(0)), ("one", const(1)), ("number", const(kn)),
                        ("variable", var("x")), ("monomial", k * var("x") ** 2 * var("y")), ("quadratic", kn * var("x") ** 2 + k)):
            c.raises(f"power {p} of {what}", RuntimeError, lambda: q**p)
    c.raises("factors of different variables", RuntimeError, lambda: Factor("x", 1) * Factor("y", 1))
    c.raises("factors of different variables, equal powers", RuntimeError, lambda: Factor("y", 2) * Factor("x", 2))
    c.raises("factor times number", RuntimeError, lambda: Factor("x", 1) * k)
    c.raises("number times factor", RuntimeError, lambda: 2 * Factor("x", 1))
    c.true("factor times one", 1 * Factor("x", 2) == Factor("x", 2) and Factor("x", 2) * 1 == Factor("x", 2))
    T = lambda *f: Term(k, *f)
    c.raises("terms of different factors", RuntimeError, lambda: T(Factor("x", 1)) + T(Factor("y", 1)))
    c.raises("terms of different powers", RuntimeError, lambda: T(Factor("x", 1)) + T(Factor("x", 2)))
    c.raises("terms, one more factor", RuntimeError, lambda: T(Factor("x", 1)) + T(Factor("x", 1), Factor("y", 1)))
    c.raises("term and constant term", RuntimeError, lambda: T() + T(Factor("x", 1)))
    c.raises("term plus number", RuntimeError, lambda: T(Factor("x", 1)) + m)
    c.raises("number plus term", RuntimeError, lambda: 1 + T(Factor("x", 1)))
    c.raises("term times number", RuntimeError, lambda: T(Factor("x", 1)) * m)
    c.raises("number times term", RuntimeError, lambda: 2 * T(Factor("x", 1)))
    c.eq("terms of equal factors", (T(Factor("x", 1), Factor("y", 2)) + Term(m, Factor("y", 2), Factor("x", 1))).eval(x=x, y=y), (k + m) * x * y**2)
    c.eq("constant terms", (T() + Term(m)).eval(), k + m)
    c.eq("term plus zero", (T(Factor("x", 1)) + 0).eval(x=x), k * x)
    c.eq("term times one", (T(Factor("x", 1)) * 1).eval(x=x), k * x)
    c.raises("collecting an absent factor", RuntimeError, lambda: T(Factor("x", 2)).collect_for(Factor("x", 1)))
    c.raises("collecting from a constant", RuntimeError, lambda: T().collect_for(Factor("x", 1)))
    if bool(kn != 0):
        c.raises("number coefficients", RuntimeError, lambda: Term(kn, Factor("x", 1)) + Term(kn, Factor("x", 2)))
    f = ExpPoly(-const(c.pos("a")) * var("x") ** 2 - var("y") ** 2 - var("z") ** 2)
    c.raises("half-line over three variables", NotImplementedError, lambda: f.integrate_half("x", "y", "z"))
    c.raises("box over three variables", NotImplementedError, lambda: f.integrate_box(("x", 0, 1), ("y", 0, 1), ("z", 0, 1)))


_pw = [[], [0], [1], [2], [0, 1, 2], [3], [2, 3], [1, 2, 4], [0, 1, 3], [2, 4]]
_b = "polynomials of degree at most four in the integration variable, number coefficients including zero"
HARNESSES = [
    Harness(degree, [dict(how=h, powers=p, kind=k) for h in FINITE for p in _pw for k in ("num", "tensor") if k == "num" or len(p) > 1 or h == "box"], bounds=_b),
    Harness(degree2, [dict(how=h, powers=[a, b]) for h in ("integrate", "half", "box", "up", "down", "all") for a, b in ((2, 2), (1, 2), (2, 1), (3, 2), (2, 4), (1, 1))], bounds=_b),
    Harness(coefficient, [dict(kind="num"), dict(kind="tensor")], bounds=_b),
    Harness(factors, [dict()], bounds=_b),
]
