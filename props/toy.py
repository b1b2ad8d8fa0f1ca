"""A model whose integrals are arbitrary: the approximations see nothing else of a model."""
import sys
from contextlib import contextmanager
from types import SimpleNamespace
import lab as B
import numpy as np
import wbml.out
from matrix import Dense
import gpcm.model
from gpcm.model import AbstractGPCM
from symx import patch
from props.c18 import inv_lower
import props.models  # data type


class _Progress:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return lambda *a, **k: None

    def __exit__(self, *a):
        return False


def _quiet(ctx, setter):
    setter(wbml.out, "Progress", _Progress)
    setter(wbml.out, "kv", lambda *a, **k: None)
    setter(wbml.out, "out", lambda *a, **k: None)


def _gradients(ctx, setter):
    # values are the same with and without gradients
    import gpcm.approx
    import jax
    if not ctx.symbolic:
        return
    for obj in (gpcm.approx, jax.lax):
        if hasattr(obj, "stop_gradient"):
            setter(obj, "stop_gradient", patch._sym_or(obj.stop_gradient, lambda x: x))


def _assignment(ctx, setter):
    """Variables are JAX arrays, which are replaced and not written to."""
    import varz.vars
    if ctx.symbolic:
        old = varz.vars._assign
        setter(varz.vars, "_assign", lambda x, v: 1 * v if isinstance(v, np.ndarray) and v.dtype == object else v if hasattr(v, "e") else old(x, v))


patch.EXTRA += [_quiet, _gradients, _assignment]
patch.JAX[0] = True  # as the models do


def flat(x):
    x = np.asarray(x) if not hasattr(x, "shape") else x
    return [x.reshape(-1)[i] for i in range(int(np.prod(x.shape)))] if x.shape else [x]


@contextmanager
def replaced(name, new, also=()):
    """Replace a helper wherever the repository gets it from."""
    old = [(m, getattr(m, name)) for n, m in list(sys.modules.items()) if (n == "gpcm" or n.startswith("gpcm.") or n in also) and hasattr(m, name)]
    try:
        for m, _ in old:
            setattr(m, name, new)
        yield
    finally:
        for m, f in old:
            setattr(m, name, f)


@contextmanager
def methods(cls, **new):
    """Replace methods of a class."""
    old = {k: cls.__dict__[k] for k in new}
    try:
        for k, f in new.items():
            setattr(cls, k, f)
        yield
    finally:
        for k, f in old.items():
            setattr(cls, k, f)


class Table:
    """Functions of time, known by the values at the times that were handed out."""

    def __init__(self, c):
        self.c, self.keys, self.vals = c, [], {}
        self.asked = []

    def key(self, x):
        c = self.c
        for i, k in enumerate(self.keys):
            if c.same(x, k):
                return i
        raise KeyError(f"asked for the integrals at {x!r}, which is none of the times that were given")

    def give(self, t):
        for x in flat(t):
            if not any(self.c.same(x, k) for k in self.keys):
                for k in self.keys:
                    self.c.assume("ne", x, k)
                self.keys.append(x)
        return t

    def at(self, name, i, make):
        k = (name, i)
        if k not in self.vals:
            self.vals[k] = make()
        return self.vals[k]


class Toy(AbstractGPCM):
    """`spec` has `noise`, `Lu`, `Lz` and the table of integrals."""

    def __init__(self, c, spec, scheme="structured"):
        AbstractGPCM.__init__(self, scheme)
        self.spec, self.c = spec, c
        self.noise = spec.noise
        self.n_u, self.n_z = spec.n_u, spec.n_z
        if hasattr(spec, "t_u"):
            self.t_u = spec.t_u
        self.extent = spec.extent

    def __prior__(self):
        AbstractGPCM.__prior__(self)

    def compute_K_u(self):
        return Dense(self.spec.K_u)

    def compute_K_z(self):
        return Dense(self.spec.K_z)

    def compute_i_hx(self, t1=None, t2=None):
        s = self.spec
        if t1 is None:
            t1 = np.zeros(1)
        if t2 is None:
            t2 = np.zeros(1)
        t1, t2 = np.broadcast_arrays(t1, t2)
        out = np.stack([s.i_hx(a, b) for a, b in zip(flat(t1), flat(t2))])
        return self.c.out(out.reshape(t1.shape))

    def compute_I_ux(self, t1=None, t2=None):
        s = self.spec
        if t1 is None and t2 is None:
            return s.I_ux(None, None)
        squeeze = [ax for ax, t in ((0, t1), (1, t2)) if t is None]
        rows = [None] if t1 is None else flat(t1)
        cols = [None] if t2 is None else flat(t2)
        out = np.stack([np.stack([s.I_ux(a, b) for b in cols]) for a in rows])
        for ax in reversed(squeeze):
            out = out.take(0, axis=ax) if hasattr(out, "take") else out[0]
        return self.c.out(out)

    def compute_I_hz(self, t):
        return self.c.out(np.stack([self.spec.I_hz(x) for x in flat(t)]))

    def compute_I_uz(self, t):
        return self.c.out(np.stack([self.spec.I_uz(x) for x in flat(t)]))


class Spec:
    def __init__(self, c, n_u, n_z, diag_u=False, diag_z=False):
        self.c, self.n_u, self.n_z = c, n_u, n_z
        self.noise = c.pos("noise")
        self.extent = c.pos("extent")
        self.table = Table(c)

        def chol(stem, n, diag):
            return np.diag(c.vec(stem, n, positive=True)) if diag else c.tril(stem, n)

        self.Lu, self.Lz = chol("Lu", n_u, diag_u), chol("Lz", n_z, diag_z)
        self.K_u, self.K_z = self.Lu @ self.Lu.T, self.Lz @ self.Lz.T
        self.iK_u, self.iK_z = self.inverse(self.Lu), self.inverse(self.Lz)
        self.zero = c.const(np.zeros(1))[0]

    def inverse(self, L):
        n = L.shape[0]
        W = inv_lower(self.c, L, n)
        W = self.c.out(np.stack([np.stack(r) for r in W]))
        return W.T @ W

    # integrals at times
    def _i(self, x):
        return -1 if x is None else self.table.key(x)

    def i_hx(self, a, b):
        i, j = sorted((self._i(a), self._i(b)))
        if i == j:
            return self.table.at("i_hx", "diag", lambda: self.c.real("ihx"))  # stationary
        return self.table.at("i_hx", (i, j), lambda: self.c.real(f"ihx_{i}_{j}"))

    def I_ux(self, a, b):
        i, j = self._i(a), self._i(b)
        if i == j:
            return self.table.at("I_ux", "diag", lambda: self.c.sym("Iux", self.n_u))
        if i <= j:
            return self.table.at("I_ux", (i, j), lambda: self.c.mat(f"Iux_{i}_{j}_", self.n_u, self.n_u))
        return self.I_ux(b, a).T

    def I_hz(self, a):
        i = self._i(a)
        return self.table.at("I_hz", i, lambda: self.c.sym(f"Ihz{i}_", self.n_z))

    def I_uz(self, a):
        i = self._i(a)
        return self.table.at("I_uz", i, lambda: self.c.mat(f"Iuz{i}_", self.n_u, self.n_z))

    # the process given the inducing variables: first and second moment
    def moments(self, t, u, uu, z, zz):
        """E[f(t)] and E[f(t)^2] when u and z are independent with these moments.

        E[f^2] integrates E[h(s) h(s')] E[x(s) x(s')], where the two are
        k_h - a' K_u^-1 a + a' E[uu'] a and k_x - b' K_z^-1 b + b' E[zz'] b.
        """
        Ux, hz, uz = self.I_ux(None, None), self.I_hz(t), self.I_uz(t)
        P, Q = uu - self.iK_u, zz - self.iK_z
        m1 = (u.T @ uz @ z)[0, 0]
        m2 = self.i_hx(t, t) + tr(P @ Ux) + tr(Q @ hz) + tr(P @ uz @ Q @ uz.T)
        return m1, m2

    def loglik(self, t, y, u, uu, z, zz):
        r = 0
        for x, v in zip(flat(t), flat(y)):
            m1, m2 = self.moments(x, u, uu, z, zz)
            r = r - 0.5 * np.log(2 * self.c.pi * self.noise) - (v * v - 2 * v * m1 + m2) / (2 * self.noise)
        return r


def tr(m):
    r = 0
    for i in range(m.shape[0]):
        r = r + m[i, i]
    return r


def times(c, spec, stem, n):
    t = c.arr(stem, n)
    spec.table.give(t)
    return t


def toy(c, n_u, n_z, scheme="structured", cls=Toy, **kw):
    spec = Spec(c, n_u, n_z, **kw)
    return cls(c, spec, scheme), spec


def fresh(c, f):
    """Repeating what draws from the global random state takes other draws."""
    seen = []

    def fix(kind, stream, k):
        seen.append((kind, stream, k))
        return 0.5
    c.draws = fix
    c.global_state.set_state(("sym", "g", 3))
    try:
        f()
        n = len(seen)
        f()
    finally:
        c.draws = None
    c.true("takes draws", 0 < n and len(seen) == 2 * n)
    c.true("every time fresh ones", len(set(seen)) == len(seen))
