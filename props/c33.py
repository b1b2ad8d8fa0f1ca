"""Summaries of samples, and inverses of permutations."""
from fractions import Fraction
from itertools import permutations
import numpy as np
from gpcm.util import collect, invert_perm, summarise_samples
from symx.explore import Harness

BOUNDS = dict(err_68_lower=Fraction(32, 100), err_68_upper=Fraction(68, 100), err_95_lower=Fraction(25, 1000), err_95_upper=Fraction(975, 1000),
              err_99_lower=Fraction(15, 10000), err_99_upper=Fraction(9985, 10000))


def quantile(c, v, q):
    """Linear interpolation of the order statistics."""
    v = list(v)
    for i in range(1, len(v)):
        j = i
        while j > 0 and v[j] < v[j - 1]:
            v[j], v[j - 1] = v[j - 1], v[j]
            j -= 1
    p = q * (len(v) - 1)
    k = int(p)
    if k == len(v) - 1:
        return v[k]
    return v[k] + (v[k + 1] - v[k]) * float(p - k)


def decibels(x, db):
    return 10 * np.log10(x) if db else x


def summarise(c, m, shape, db, ordered=False, perm=None):
    n = shape[0]
    x = c.arr("x", n)
    s = []
    for i in range(m):
        # in decibels only positive samples
        new = c.arr(f"s{i}", *shape, positive=db or ordered)
        s.append(s[-1] + new if ordered and s else new)
    samples = c.out(np.stack(s))
    keep, x0 = 1 * samples, 1 * x
    kw = {} if db is None else dict(db=db)
    old = np.random.permutation
    if perm is not None:
        np.random.permutation = lambda k: np.array(perm)[np.array(perm) < k] if isinstance(k, (int, np.integer)) else old(k)
    try:
        r = summarise_samples(x, samples, **kw)
    finally:
        np.random.permutation = old
    c.eq("the samples are left alone", samples, keep)
    c.eq("the inputs are left alone", x, x0)
    c.eq("inputs", r.x, x)
    idx = list(np.ndindex(*shape))
    for name, v in [("mean", r.mean)] + [(k, getattr(r, k)) for k in BOUNDS] + ([("var", r.var)] if not db else []):
        c.true(f"shape of {name}", np.shape(v) == tuple(shape))
    for i in idx:
        v = [keep[(k,) + i] for k in range(m)]
        mean = sum(v) / m
        c.eq("mean", r.mean[i], decibels(mean, db))
        if not db:
            c.eq("variance", r.var[i], sum((a - mean) ** 2 for a in v) / m)
        for name, q in BOUNDS.items():
            c.eq(name, getattr(r, name)[i], decibels(quantile(c, v, q), db))
    # inputs first, samples last
    c.true("shape of all samples", np.shape(r.all_samples) == tuple(reversed(shape)) + (m,))
    for i in idx:
        for k in range(m):
            c.eq("all samples", r.all_samples[tuple(reversed(i)) + (k,)], decibels(keep[(k,) + i], db))
    num = min(m, 3)
    c.true("three samples, if there are as many", np.shape(r.samples) == tuple(reversed(shape)) + (num,))
    taken = []
    for j in range(num):
        own = [k for k in range(m) if k not in taken and all(c.same(r.samples[tuple(reversed(i)) + (j,)], r.all_samples[tuple(reversed(i)) + (k,)]) for i in idx)]
        c.true("distinct samples", len(own) > 0)
        if own:
            taken.append(own[0])


def inverse(c, n):
    # every permutation: a selection among all of them by solver decisions
    x = c.arr("x", n)
    which = c.real("which", lo=0, hi=1)
    perms = list(permutations(range(n)))
    p = perms[-1]
    for i, q in enumerate(perms[:-1]):
        if which < (i + 1) / len(perms):
            p = q
            break
    for given in (list(p), np.array(p), tuple(p)):
        q = invert_perm(given)
        c.true("length", len(q) == n)
        c.eq("undoes the permutation", x[list(p)][[int(k) for k in q]], x)
        c.eq("is undone by the permutation", x[[int(k) for k in q]][list(p)], x)


def collected(c):
    a, b = c.real("a"), c.arr("b", 2)
    r = collect(first=a, second=b)
    c.eq("first", r.first, a)
    c.eq("second", r.second, b)
    c.true("order", r._fields == ("first", "second") and type(r).__name__ == "Quantities")
    c.true("name", type(collect("Name", x=a)).__name__ == "Name")


_b = "up to five samples (six in the thorough tier) at one to three inputs, of one or two dimensions; permutations of up to four elements; quantiles of all orders"
HARNESSES = [
    Harness(summarise, [dict(m=m, shape=s, db=d) for m, s in ((1, [2]), (2, [2]), (3, [1]), (4, [1]), (2, [1, 2]), (3, [2])) for d in (None, False, True)]
            + [dict(m=m, shape=s, db=d, ordered=True, perm=p) for m, s, p in ((5, [2], [4, 1, 0, 3, 2]), (4, [3], [2, 0, 3, 1]), (5, [2, 3], [1, 4, 2, 0, 3])) for d in (False, True)],
            [dict(m=m, shape=s, db=d) for m, s in ((5, [1]), (3, [2, 1])) for d in (False, True)] + [dict(m=6, shape=[3, 2], db=d, ordered=True, perm=[5, 3, 1, 0, 2, 4]) for d in (False, True)], bounds=_b),
    Harness(inverse, [dict(n=n) for n in (1, 2, 3, 4)], [dict(n=5)], bounds=_b),
    Harness(collected, [{}], [], bounds=_b),
]
