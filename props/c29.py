"""Autocorrelation by definition."""
import numpy as np
from gpcm.util import autocorr
from symx.explore import Harness


def estimate(c, shape, lags, cov, window):
    x = c.arr("x", *shape)
    kw = {}
    if lags != "default":
        kw["lags"] = lags
    if cov is not None:
        kw["cov"] = cov
    if window is not None:
        kw["window"] = window
    v = [x.reshape(-1)[i] for i in range(x.size)]
    n = len(v)
    if n > 1 and not cov:
        c.assume("ne", v[0], v[1])
    keep = 1 * x
    got = autocorr(x, **kw)
    c.eq("the series is left alone", x, keep)
    m = sum(v) / n
    d = [a - m for a in v]
    num = n if lags in ("default", None) else min(n, lags + 1)
    c.true("number of lags", np.shape(got) == (num,))

    def r(k):
        return sum(d[i] * d[i + k] for i in range(n - k)) / (n if window else n - k)

    for k in range(num):
        c.eq("estimate", got[k] * (1 if cov else r(0)), r(k))
    if not cov:
        c.eq("one at lag zero", got[0], 1 + 0 * v[0])


_b = "series of up to six values (eight in the thorough tier), any number of lags"
HARNESSES = [
    Harness(estimate, [dict(shape=[n], lags="default", cov=cv, window=w) for n in (2, 3, 5) for cv in (None, True, False) for w in (None, True, False)]
            + [dict(shape=[n], lags=l, cov=cv, window=w) for n, l in ((3, 0), (4, 2), (4, 3), (4, 9), (3, None)) for cv in (False, True) for w in (False, True)]
            + [dict(shape=s, lags=l, cov=True, window=w) for s in ([3, 1], [1, 4], [2, 3]) for l in ("default", 2) for w in (False, True)] + [dict(shape=[1], lags="default", cov=True, window=w) for w in (False, True)],
            [dict(shape=[n], lags=l, cov=cv, window=w) for n in (6, 8) for l in ("default", 0, 1, 5, 20) for cv in (False, True) for w in (False, True)], bounds=_b),
]
