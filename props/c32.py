"""Minimum-phase filters by the folded cepstrum."""
import gpcm.util
import numpy as np
from gpcm.util import min_phase
from symx import array as A
from symx import patch
from symx.explore import Harness

patch.JAX[0] = True


def _hilbert(ctx, setter):
    if ctx.symbolic and hasattr(gpcm.util, "hilbert"):
        setter(gpcm.util, "hilbert", patch._sym_or(gpcm.util.hilbert, A.hilbert))
    if ctx.symbolic:
        import scipy.signal
        setter(scipy.signal, "hilbert", patch._sym_or(scipy.signal.hilbert, A.hilbert))


patch.EXTRA.append(_hilbert)


class Spectrum:
    """Discrete Fourier transform of a real vector, by its definition."""

    def __init__(self, c, h):
        self.c, self.N = c, len(h)
        N = self.N
        self.re, self.im, self.mag2, self.mag = [], [], [], []
        for k in range(N):
            re = sum(h[m] * self.cos(k * m) for m in range(N))
            im = -sum(h[m] * self.sin(k * m) for m in range(N)) if (2 * k) % N else 0 * h[0]
            self.re.append(re)
            self.im.append(im)
            self.mag2.append(re * re + im * im)

    def cos(self, j):
        return self.c.cos2pi(j % self.N, self.N)

    def sin(self, j):
        # the cosine a quarter of a period later
        return self.c.cos2pi((4 * j - self.N) % (4 * self.N), 4 * self.N)


def transform(c, n, negate, column=False):
    h = c.arr("h", n)
    S = Spectrum(c, h)
    for k in range(n // 2 + 1):
        c.assume("lt", 0, S.mag2[k])  # no zeros on the unit circle
    keep = 1 * h
    x = -h if negate else h
    got = min_phase(x)
    c.eq("the filter is left alone", h, keep)
    c.true("as many samples", np.shape(got) == (n,))
    # real cepstrum: that of the logarithm of the magnitudes
    logs = [0.5 * np.log(S.mag2[min(k, n - k)]) for k in range(n)]
    cep = [sum(logs[m] * S.cos(j * m) for m in range(n)) / n for j in range(n)]
    # it is folded onto the positive quefrencies
    mag = [np.sqrt(S.mag2[min(k, n - k)]) for k in range(n)]
    phase = [-sum(2 * cep[j] * S.sin(j * k) for j in range(1, (n + 1) // 2)) if 2 * k % n else 0 * h[0] for k in range(n)]
    for i in range(n):
        v = 0
        for k in range(n):
            if 2 * k % n == 0:
                v = v + mag[k] * (1 if (k * i * 2 // n) % 2 == 0 else -1)
            else:
                v = v + mag[k] * (np.cos(phase[k]) * S.cos(k * i) - np.sin(phase[k]) * S.sin(k * i))
        c.eq("minimum-phase filter", got[i] * n, v)


_b = "filters of one to six samples (up to twelve in the thorough tier) with arbitrary values, without zeros of their transform"
HARNESSES = [
    Harness(transform, [dict(n=n, negate=g) for n in (1, 2, 3, 4, 5, 6) for g in (False, True)], [dict(n=n, negate=g) for n in (7, 8, 9, 12) for g in (False, True)], bounds=_b),
]
