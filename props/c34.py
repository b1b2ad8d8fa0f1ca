"""Hessians, maxima and Laplace approximations."""
import jax
import lab.jax as B
import numpy as np
from gpcm.util import hessian, laplace_approximation, maximum_a_posteriori
from plum import convert
from symx import array as A
from symx import expr as X
from symx import patch
from symx.explore import Harness
from props.c31 import Decompositions, Eigh, rotation
from props.toy import replaced
import props.models  # data type

patch.JAX[0] = True


def _jacobian(ctx, real):
    """Jacobians by symbolic differentiation."""
    def jac(f, *a, **k):
        concrete = real(f, *a, **k)

        def g(x):
            if not isinstance(x, A.SymArray):
                return concrete(x)
            v = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                v[i] = ctx.fresh("d")
            back = {v[i].args: X.lift(A.plain(x)[i]) for i in np.ndindex(*x.shape)}
            out = A.sym(f(A.wrap(v.copy())))
            r = np.empty(out.shape + x.shape, dtype=object)
            for i in np.ndindex(*out.shape):
                e = X.lift(A.plain(out)[i])
                for j in np.ndindex(*x.shape):
                    r[i + j] = X.substitute(X.diff(e, v[j].args), back)
            return A.wrap(r)
        return g
    return jac


def _derivatives(ctx, setter):
    if ctx.symbolic:
        for nm in ("jacrev", "jacfwd", "jacobian", "grad"):
            setter(jax, nm, _jacobian(ctx, getattr(jax, nm)))
        setter(jax, "hessian", lambda f, *a, **k: jax.jacfwd(jax.jacrev(f)))


patch.EXTRA.append(_derivatives)


class Function:
    """A smooth function with a known Hessian: its quadratic part, cubes and an exponential ridge are arbitrary."""

    def __init__(self, c, stem, n, A_=None, ridge=True):
        self.c, self.n = c, n
        self.A = c.mat(f"{stem}A", n, n) if A_ is None else A_
        self.b = c.arr(f"{stem}b", n)
        self.t = c.arr(f"{stem}t", n)
        self.s = c.arr(f"{stem}s", n) if ridge else None

    def __call__(self, x):
        n = self.n
        assert np.shape(x) == (n, 1), f"input of shape {np.shape(x)}"
        v = [x[i, 0] for i in range(n)]
        r = 0
        for i in range(n):
            r = r + self.b[i] * v[i] + self.t[i] * v[i] * v[i] * v[i]
            for j in range(n):
                r = r + 0.5 * self.A[i, j] * v[i] * v[j]
        if self.s is not None:
            r = r + B.exp(sum(self.s[i] * v[i] for i in range(n)))
        return r

    def hess(self, x, i, j):
        r = 0.5 * (self.A[i, j] + self.A[j, i])
        if i == j:
            r = r + 6 * self.t[i] * x[i, 0]
        if self.s is not None:
            r = r + self.s[i] * self.s[j] * np.exp(sum(self.s[k] * x[k, 0] for k in range(self.n)))
        return r


def second(c, n):
    f = Function(c, "f", n)
    x = c.mat("x", n, 1)
    keep = 1 * x
    H = hessian(f, x)
    c.eq("the input is left alone", x, keep)
    c.true("shape", np.shape(H) == (n, n))
    for i in range(n):
        for j in range(n):
            c.eq("second derivative", H[i, j], f.hess(x, i, j))


def refuse(c, shape):
    x = c.arr("x", *shape)
    c.raises("anything but a column vector", ValueError, lambda: hessian(lambda x: B.sum(x ** 2), x))


class Minimiser:
    """Records the problem and returns any point."""

    def __init__(self, c, f, init, n):
        self.c, self.f, self.init, self.n, self.calls = c, f, init, n, []

    def __call__(self, f, vs, f_calls=10000, iters=1000, trace=False, names=None, jit=False, callback=None, **kw):
        c = self.c
        c.true("runs once", not self.calls)
        names = [names] if isinstance(names, str) else names or []
        copy = vs.copy()
        first = convert(f(vs), tuple)[0]
        c.eq("maximises the density from the initial point", first, -self.f(self.init))
        c.true("number of variables", np.shape(vs.get_latent_vector(*names)) == (self.n,))
        at = c.arr("at", self.n)
        copy.set_latent_vector(at, *names, differentiable=True)
        c.eq("maximises the density", convert(f(copy), tuple)[0], -self.f(c.out(at.reshape(-1, 1))))
        self.best = c.arr("best", self.n)
        vs.set_latent_vector(self.best, *names)
        self.calls.append(iters)
        return first

    def installed(self):
        return replaced("minimise_l_bfgs_b", self, also=("varz", "varz.minimise"))


def maximum(c, n, iters):
    f = Function(c, "f", n)
    x0 = c.mat("x", n, 1)
    keep = 1 * x0
    m = Minimiser(c, f, keep, n)
    with m.installed():
        got = maximum_a_posteriori(f, x0, **({} if iters is None else dict(iters=iters)))
    c.true("optimised for the iterations asked for", m.calls == [2000 if iters is None else iters])
    c.eq("the initial point is left alone", x0, keep)
    c.eq("the point that was found", got, m.best.reshape(-1, 1))


def laplace(c, n, evaluated, flat=None):
    x0 = c.mat("x", n, 1)
    # the precision at the outcome is given by its spectrum; any function with that curvature there
    w = c.pos("w_0")
    ws = [w]
    for i in range(1, n):
        w = w + c.pos(f"w_d{i}")
        ws.append(w)
    w, V = c.stack(ws), rotation(c, n)
    S = (V * w[None, :]) @ V.T
    g = Function(c, "g", n, A_=-S, ridge=False)
    best = c.arr("best", n)  # as the minimiser will return
    D = c.out(np.stack([np.stack([6 * g.t[i] * best[i] if i == j else 0 * best[i] for j in range(n)]) for i in range(n)]))
    g.A = -S - D
    f = Function(c, "f", n) if evaluated else g
    m = Minimiser(c, f, 1 * x0, n)
    with m.installed(), Decompositions(c, Eigh(c, w, V, S)):
        q = laplace_approximation(f, x0, **({} if not evaluated else dict(f_eval=g)))
    c.true("optimised once", len(m.calls) == 1)
    c.eq("centre", B.dense(q.mean), best.reshape(-1, 1))
    c.eq("covariance is the inverse of the negative Hessian", B.dense(q.var), (V * (1 / w)[None, :]) @ V.T)


_b = "one to three dimensions; functions with arbitrary linear, quadratic and cubic parts and an arbitrary exponential ridge; any outcome of the optimiser; Hessians with distinct eigenvalues"
HARNESSES = [
    Harness(second, [dict(n=n) for n in (1, 2, 3)], [dict(n=4)], bounds=_b),
    Harness(refuse, [dict(shape=s) for s in ([2], [1], [1, 2], [2, 2], [2, 1, 1])], [], bounds=_b),
    Harness(maximum, [dict(n=n, iters=i) for n in (1, 2) for i in (None, 7)], [dict(n=3, iters=i) for i in (None, 1)], bounds=_b),
    Harness(laplace, [dict(n=n, evaluated=e) for n in (1, 2) for e in (False, True)], [dict(n=3, evaluated=e) for e in (False, True)], bounds=_b),
]
