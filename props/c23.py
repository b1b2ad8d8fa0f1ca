"""The structured bound: z integrated out."""
import lab.jax as B
import numpy as np
from gpcm.normal import NaturalNormal
from symx.explore import Harness
from props.c18 import logdet
from props.c22 import kl, natural, posterior, setting
from props.toy import times, toy, tr


def pinned(c, s, t, y, u, M):
    """Choose the first observation's I_hz so that the precision of q(z|u) is M M' (any I_hz corresponds to some M)."""
    rest = 0
    for i in range(len(y)):
        uz = s.I_uz(t[i])
        rest = rest + uz.T @ (u @ u.T - s.iK_u) @ uz
        if i > 0:
            rest = rest + s.I_hz(t[i])
    s.table.vals[("I_hz", s.table.key(t[0]))] = s.noise * (M @ M.T - s.K_z) - rest


def log_Z(c, s, t, y, u, M=None):
    """log of the integral over z of N(z; 0, K_z^-1) exp(expected log-likelihood)."""
    n_z = s.n_z
    zero = 0 * c.mat("m0", n_z, 1)
    lam, prec = natural(s, "z", t, y, (zero, None, s.K_z), u, u @ u.T)
    # with z = 0 and zz' = 0 the log-likelihood loses what depends on z
    r = s.loglik(t, y, u, u @ u.T, zero, zero @ zero.T) + 0.5 * logdet(s.Lz, n_z)
    if M is not None:
        W = s.inverse(M)
        return r - 0.5 * logdet(M, n_z) + 0.5 * (lam.T @ W @ lam)[0, 0]
    assert n_z == 1
    return r - 0.25 * logdet(prec, 1) + 0.5 * lam[0, 0] ** 2 / prec[0, 0]


def normaliser(c, n_u, n_z, n, pin):
    model, s = toy(c, n_u, n_z, diag_u=n_u > 2)
    a = model().approximation
    t, y, u = times(c, s, "t", n), c.arr("y", n), c.mat("u", n_u, 1)
    M = None
    if pin:
        M = c.tril("M", n_z)
        pinned(c, s, t, y, u, M)
    else:
        c.assume("lt", 0, natural(s, "z", t, y, (0 * c.mat("m0", 1, 1), None, s.K_z), u, u @ u.T)[1][0, 0])
    ts = a.construct_terms(t, y)
    c.eq("log Z", a.log_Z_u(ts, u), log_Z(c, s, t, y, u, M))


def collapsed(c, n_u, n, num, k, how):
    """The bound averaged over samples of u, with one inducing variable of z."""
    model, inst, a, s, (pu, _) = setting(c, n_u, 1, n, k, scheme="structured")
    t, y = times(c, s, "t", n), c.arr("y", n)
    qu, mu, mu2, Vu, Lu, _ = posterior(c, "u", n_u)
    a.q_u = qu
    state = B.create_random_state(inst.dtype, seed=5)
    _, us = a.q_u.sample(state, num)
    for j in range(num):
        u = us[:, j:j + 1]
        c.assume("lt", 0, natural(s, "z", t, y, (0 * c.mat("m0", 1, 1), None, s.K_z), u, u @ u.T)[1][0, 0])
    want = 0
    for j in range(num):
        want = want + log_Z(c, s, t, y, us[:, j:j + 1])
    want = want / num - kl(c, n_u, mu, Vu, Lu, pu[2], pu[0], pu[1])
    if how == "elbo_collapsed_z":
        st, r = a.elbo_collapsed_z(state, t, y, num_samples=num)
    else:
        # the mean-field fit that comes first is arbitrary
        asked = []

        def fixed(nm, q):
            def f(ts, other):
                asked.append((nm, ts))
                return q
            return f

        a.q_u_optimal_mean_field = fixed("u", qu)
        a.q_z_optimal_mean_field = fixed("z", NaturalNormal(c.mat("lz", 1, 1), c.mat("pz", 1, 1, positive=True)))
        if how == "elbo":
            st, r = a.elbo(state, t, y, num_samples=num)
        else:
            state = B.global_random_state(inst.dtype)
            # q_z is initialised with a draw of its own
            st, r = None, None
        c.true("fitted first", {nm for nm, _ in asked} == {"u", "z"})
        for _, ts in asked:
            c.eq("fitted to the data", ts.y, y)
    c.eq("bound", r, want)
    _, x = a.q_u.sample(state, num)
    _, nxt = B.randn(st, inst.dtype, 1)
    _, old = B.randn(state, inst.dtype, n_u * num + 1)
    c.eq("the state is the advanced one", nxt[0], old[n_u * num])


class Draws:
    """The conditionals, with arbitrary draws."""

    def __init__(self, c, a, n_u, n_z):
        self.log = []
        real = dict(u=a.q_u_optimal, z=a.q_z_optimal)
        outer = self

        def make(of, n):
            def f(ts, other):
                q = real[of](ts, other)

                class Q:
                    lam, prec, dtype, dim = q.lam, q.prec, q.dtype, q.dim

                    def __getattr__(self, name):
                        return getattr(q, name)

                    @staticmethod
                    def sample(state, num=1):
                        state, _ = B.randn(state, inst_dtype, 1)
                        x = c.mat(f"draw{len(outer.log)}", n, 1)
                        outer.log.append((of, ts, other, x, num))
                        return state, x
                return Q()
            return f

        inst_dtype = a.model.dtype
        a.q_u_optimal, a.q_z_optimal = make("u", n_u), make("z", n_z)


def gibbs(c, n_u, n, steps, k):
    model, inst, a, s, (pu, _) = setting(c, n_u, 1, n, k, scheme="structured")
    t, y = times(c, s, "t", n), c.arr("y", n)
    u0, z0 = c.mat("u", n_u, 1), c.mat("z", 1, 1)
    d = Draws(c, a, n_u, 1)
    state = B.create_random_state(inst.dtype, seed=7)
    final = c.mat(f"draw{2 * steps - 2}", n_u, 1) if steps else u0
    c.assume("lt", 0, natural(s, "z", t, y, (0 * z0, None, s.K_z), final, final @ final.T)[1][0, 0])
    args = dict(num_samples=steps) if steps != 5 else {}
    st, r, u, z = a.elbo_gibbs(state, t, y, u0, z0, **args)
    c.true("steps", [x[0] for x in d.log] == ["u", "z"] * steps and all(x[4] == 1 for x in d.log))
    last = dict(u=u0, z=z0)
    for of, ts, other, x, _ in d.log:
        o = "z" if of == "u" else "u"
        c.eq(f"{of} is drawn given the latest {o}", other, last[o])
        c.eq("data", ts.y, y)
        last[of] = x
    c.eq("u is the last draw", u, last["u"])
    c.eq("z is the last draw", z, last["z"])
    # the objective
    x, (m0, L0, P0) = last["u"], pu
    lp = 0.5 * logdet(L0, n_u) - 0.5 * n_u * np.log(2 * c.pi) - 0.5 * ((x - m0).T @ P0 @ (x - m0))[0, 0]
    c.eq("objective", r, log_Z(c, s, t, y, x) + lp)
    _, nxt = B.randn(st, inst.dtype, 1)
    _, old = B.randn(state, inst.dtype, 2 * steps + 1)
    c.eq("the state is the advanced one", nxt[0], old[2 * steps])


_b = "one or two inducing variables each, one to three observations, up to three samples or Gibbs steps; arbitrary integrals"
HARNESSES = [
    Harness(normaliser, [dict(n_u=a, n_z=b, n=n, pin=b > 1) for a, b, n in ((1, 1, 1), (1, 1, 3), (2, 1, 2), (1, 2, 1), (2, 2, 2))],
            [dict(n_u=a, n_z=b, n=n, pin=True) for a, b, n in ((1, 1, 2), (2, 2, 3), (3, 2, 1), (1, 3, 1))], bounds=_b, timeout_ms=30000),
    Harness(collapsed, [dict(n_u=1, n=1, num=1, k=0, how="elbo_collapsed_z"), dict(n_u=1, n=2, num=2, k=1, how="elbo_collapsed_z"),
                        dict(n_u=2, n=1, num=2, k=0, how="elbo_collapsed_z"), dict(n_u=1, n=1, num=2, k=0, how="elbo"), dict(n_u=1, n=1, num=1, k=1, how="elbo")],
            [dict(n_u=2, n=2, num=3, k=1, how="elbo_collapsed_z")], bounds=_b, timeout_ms=30000),
    Harness(gibbs, [dict(n_u=1, n=1, steps=1, k=0), dict(n_u=1, n=2, steps=2, k=0), dict(n_u=2, n=1, steps=1, k=1), dict(n_u=1, n=1, steps=5, k=0)],
            [dict(n_u=2, n=2, steps=3, k=1)], bounds=_b, timeout_ms=30000),
]
