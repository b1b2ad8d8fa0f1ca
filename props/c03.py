"""Collecting, rejecting, degrees, merging and equality."""
import itertools
from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var
from symx.explore import Harness
from props.poly import SHAPES, V, build, evaluate, monomial, value


def decompose(c, p, kind):
    P, ps = build(c, "p", p, kind)
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    vals = dict(x=x, y=y, z=z)
    zero = 0 * x
    top = 5
    for i, name in enumerate(V):
        rej = P.reject(name)
        total = rej.eval(**vals) + zero
        others = {n: v for n, v in vals.items() if n != name}
        c.eq(f"reject {name}", rej.eval(**others) + zero, value([s for s in ps if not s[1][i:i + 1] or s[1][i] == 0], x, y, z) + zero)
        present = []
        for k in range(1, top + 1):
            col = P.collect_for(Factor(name, k))
            # evaluates without the variable: it no longer depends on it
            cv = col.eval(**others) + zero
            spec = [(a, tuple(0 if j == i else e for j, e in enumerate(pw))) for a, pw in ps if len(pw) > i and pw[i] == k]
            c.eq(f"collect {name}^{k}", cv, value(spec, x, y, z) + zero)
            c.true(f"collect {name}^{k} is free of it", not col.is_function_of(name) and col.highest_power(name) == 0)
            total = total + cv * vals[name] ** k
        c.true(f"reject {name} is free of it", not rej.is_function_of(name) and rej.highest_power(name) == 0)
        c.eq(f"decomposition in {name}", total, value(ps, x, y, z) + zero)


def occurring(c, spec, kind):
    """Exponents that really occur: coefficients that are the number zero drop out, equal monomials merge."""
    merged = {}
    for k, pw in spec:
        pw = tuple(pw) + (0,) * (3 - len(pw))
        merged[pw] = merged[pw] + k if pw in merged else k
    if kind == "num":
        return [pw for pw, k in merged.items() if k != 0]
    return list(merged)


def degrees(c, p, kind):
    P, ps = build(c, "p", p, kind)
    occ = occurring(c, ps, kind)
    for i, name in enumerate(V):
        h = max([pw[i] for pw in occ], default=0)
        c.true(f"highest power of {name}", P.highest_power(name) == h)
        c.true(f"function of {name}", P.is_function_of(name) == (h > 0))
    c.true("constant", P.is_constant() == all(sum(pw) == 0 for pw in occ))
    c.true("merged", len(P.terms) <= max(1, len(occ)))


def terms(c):
    k = c.real("k")
    t = Term(k, Factor("x", 2), Factor("y", 1), Factor("x", 1))
    c.true("power", t.highest_power("x") == 3 and t.highest_power("y") == 1 and t.highest_power("z") == 0)
    c.true("function of", t.is_function_of("x") and not t.is_function_of("z"))
    c.true("constant", not t.is_constant() and Term(k).is_constant())
    for n in range(1, 8):
        u = Term(k, Factor("x", n), Factor("y", 8 - n))
        c.true("powers one to seven", u.highest_power("x") == n and u.is_function_of("x") and not u.is_constant() and u.is_function_of("y") and u.highest_power("y") == 8 - n)
    x, y = c.real("x"), c.real("y")
    c.eq("collect", t.collect_for(Factor("x", 3)).eval(y=y), k * y)
    c.raises("collect what is not there", RuntimeError, lambda: t.collect_for(Factor("x", 2)))
    c.true("factors are equal by name and power", Factor("x", 2) == Factor("x", 2) and Factor("x", 2) != Factor("x", 1)
           and Factor("x", 2) != Factor("y", 2) and hash(Factor("x", 2)) == hash(Factor("x", 2)))


def equality(c, p):
    """Number coefficients: the order of construction is invisible; different values differ."""
    P, ps = build(c, "p", p, "num")
    ref = {hash(t) for t in P.terms}
    x, y = c.real("x"), c.real("y")
    for n, perm in enumerate(itertools.permutations(ps)):
        Q = Poly(*[monomial(k, pw) for k, pw in perm])
        c.true(f"order {n}", P == Q)
        c.true(f"hashes {n}", {hash(t) for t in Q.terms} == ref)
        S = sum((Poly(monomial(k, pw)) for k, pw in perm), 0)
        c.true(f"sum in order {n}", evaluate(S, x=x, y=y, z=x) is not None and (S == P))
        c.true(f"exponentiated {n}", ExpPoly(2, P) == ExpPoly(2, Q))
    # factors in any order
    k = c.real("k", kind="num")
    c.true("factor order", Term(k, Factor("x", 1), Factor("y", 2)) == Term(k, Factor("y", 2), Factor("x", 1)))
    c.true("factor order hash", hash(Term(k, Factor("x", 1), Factor("y", 2))) == hash(Term(k, Factor("y", 2), Factor("x", 1))))
    c.true("split factors", Term(k, Factor("x", 1), Factor("y", 2), Factor("x", 2)) == Term(k, Factor("y", 1), Factor("x", 3), Factor("y", 1)))


def separation(c, p):
    """Polynomials that compare equal evaluate equally; a changed coefficient shows."""
    P, ps = build(c, "p", p, "num")
    Q, qs = build(c, "q", p, "num")
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    same = P == Q
    if same:
        c.eq("equal polynomials evaluate equally", value(ps, x, y, z) + 0 * x, value(qs, x, y, z) + 0 * x)
    else:
        d = {}
        for (a, pw), (b, _) in zip(ps, qs):
            d[pw] = d.get(pw, 0) + (a - b)
        # they differ as functions: some merged coefficient differs
        c.true("unequal polynomials differ", any([bool(v != 0) for v in d.values()]))


def cancel(c):
    x, y = c.real("x"), c.real("y")
    a, b = c.real("a", kind="num"), c.real("b", kind="num")
    X, Y = var("x"), var("y")
    c.true("(x+a)-x", (X + a) - X == const(a))
    c.true("a x + b y - a x", X * a + Y * b - X * a == Y * b)
    c.true("x-x+y-y+a", X - X + Y - Y + a == const(a))
    c.true("(x+y)(x-y)", (X + Y) * (X - Y) == X**2 - Y**2)
    c.true("(x+a)^2", (X + a) ** 2 == X**2 + 2 * a * X + a * a)
    c.true("nothing is left", not (X - X).is_function_of("x") and (X - X).is_constant() and (X - X).highest_power("x") == 0)
    c.true("constant", ((X + a) - X).is_constant())


_p = ["1+x", "x3", "x+x2", "x2y+x", "1+x+y2", "xy+x2+y2", "empty", "0", "rep", "xyz", "1+x2z", "x4y2+y", "x5+x4+x", "x2y2+xy", "x3y3z3", "xy+yz+xz"]
_b = "polynomials of at most three monomials in three variables, powers up to five (equal powers of several variables included); all real coefficients"
HARNESSES = [
    Harness(decompose, [dict(p=p, kind="tensor") for p in _p] + [dict(p=p, kind="num") for p in ("1+x", "x+x2", "rep", "x2y+x", "xyz")],
            [dict(p=p, kind=k) for p in SHAPES for k in ("tensor", "num")], bounds=_b),
    Harness(degrees, [dict(p=p, kind=k) for p in _p for k in ("tensor", "num")], [dict(p=p, kind=k) for p in SHAPES for k in ("tensor", "num")], bounds=_b),
    Harness(terms, [dict()], bounds=_b),
    Harness(equality, [dict(p=p) for p in ("1+x", "rep", "x2y+x", "xy+x2+y2")], [dict(p=p) for p in SHAPES], bounds=_b),
    Harness(separation, [dict(p=p) for p in ("x", "1+x", "x2y+x")], [dict(p=p) for p in ("1+x+y2", "rep")], bounds=_b),
    Harness(cancel, [dict()], bounds=_b),
]
