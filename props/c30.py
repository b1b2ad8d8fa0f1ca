"""Power spectra by definition."""
import numpy as np
from gpcm.util import estimate_psd
from symx.explore import Harness


def spectrum(c, n, n_zero, db, default_db=False):
    dt = c.pos("dt")
    t = c.stack([dt * i for i in range(n)])
    k = c.arr("k", n)
    kw = {} if n_zero is None else dict(n_zero=n_zero)
    pad = n_zero
    if not default_db:
        kw["db"] = db
    k0, t0 = 1 * k, 1 * t
    M = n + pad
    N = 2 * M - 2
    v = [k[i] if i < n else 0 * k[0] for i in range(M)]

    def S(j):
        """Transform of the kernel and its mirror image at the frequency j / (N dt)."""
        r = v[0] + (-1) ** j * v[M - 1]
        for m in range(1, M - 1):
            r = r + 2 * v[m] * c.cos2pi(m * j, N)
        return r

    mag = [abs(S(j)) for j in range(M)]  # up to the highest frequency
    # all frequencies in order: from the negated highest one up to just below it
    full = [mag[N - j] if j > M - 1 else mag[j] for j in [(i - (M - 1)) % N for i in range(N)]]
    power = sum((full[i] + full[i + 1]) / 2 for i in range(N - 1)) / (N * dt)
    c.assume("lt", 0, power)
    if db:
        for x in mag:
            c.assume("lt", 0, x)
        c.assume("lt", 0, k[0])
    freqs, psd = estimate_psd(t, k, **kw)
    linear = estimate_psd(t, k, n_zero=n_zero)[1] if db else psd
    c.eq("kernel is left alone", k, k0)
    c.eq("times are left alone", t, t0)
    c.true("one value per non-negative frequency", np.shape(freqs) == (M - 1,) and np.shape(psd) == (M - 1,))
    for j in range(M - 1):
        c.eq("frequency", freqs[j], j / (N * dt))
        c.eq("power spectral density", linear[j], mag[j] * k[0] / power)
        if db:
            c.eq("in decibels", psd[j], 10 * np.log10(linear[j]))


def refuse(c, n):
    dt, t0 = c.pos("dt"), c.real("t0")
    c.assume("ne", t0, 0)
    t = c.stack([t0 + dt * i for i in range(n)])
    k = c.arr("k", n)
    c.raises("a grid that does not start at zero", ValueError, lambda: estimate_psd(t, k, n_zero=1))
    c.eq("k", k, 1 * k)


_b = "two to five lags (eight in the thorough tier), zero-padding with up to three zeros, arbitrary kernels and spacings"
_q = [(2, 1), (3, 0), (3, 1), (2, 3), (4, 0), (5, 0), (4, 1)]
HARNESSES = [
    Harness(spectrum, [dict(n=n, n_zero=z, db=db) for n, z in _q for db in (False, True)] + [dict(n=3, n_zero=1, db=False, default_db=True)],
            [dict(n=n, n_zero=z, db=db) for n, z in ((4, 3), (6, 0), (3, 4), (7, 0)) for db in (False, True)], bounds=_b),
    Harness(refuse, [dict(n=2), dict(n=3)], [], bounds=_b),
]
