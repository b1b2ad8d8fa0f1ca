"""Conditioning: fitted posteriors become priors; what is left out of the optimisation."""
import lab.jax as B
import numpy as np
from symx.explore import Harness
from props.c21 import normal
from props.toy import Toy, flat, times, toy


class Hyper(Toy):
    """With a trainable hyperparameter."""

    def __prior__(self):
        self.noise = self.ps.noise.unbounded(self.spec.noise)
        Toy.__prior__(self)


def same(c, label, dist, lam, prec):
    c.eq(f"{label} (lam)", B.dense(dist.lam), lam)
    c.eq(f"{label} (precision)", B.dense(dist.prec), prec)


def natural(q):
    return 1 * B.dense(q.lam), 1 * B.dense(q.prec)


def chain(c, n_u, n_z, k, scheme):
    """Fit, condition, fit, condition..."""
    model, s = toy(c, n_u, n_z, scheme)
    zero_u, zero_z = c.const(np.zeros((n_u, 1))), c.const(np.zeros((n_z, 1)))
    models, fitted, data = [model], [], []
    for i in range(k):
        qu, _, _, _ = normal(c, f"u{i}", n_u)
        qz, _, _, _ = normal(c, f"z{i}", n_z)
        a = models[-1]().approximation
        if i % 2:
            a.q_z, a.q_u = qz, qu
        else:
            a.q_u, a.q_z = qu, qz
        fitted.append(natural(qu) + natural(qz))
        data.append((times(c, s, f"t{i}_", 1 + i % 2), c.arr(f"y{i}", 1 + i % 2)))
        models.append(models[-1].condition(*data[-1]))
    # every model of the history still has its own prior and posterior
    for i, m in enumerate(models):
        a = m().approximation
        lam_u, prec_u, lam_z, prec_z = (zero_u, s.K_u, zero_z, s.K_z) if i == 0 else fitted[i - 1]
        same(c, f"prior of u after {i}", a.p_u, lam_u, prec_u)
        same(c, f"prior of z after {i}", a.p_z, lam_z, prec_z)
        if i < k:
            same(c, f"posterior of u after {i}", a.q_u, *fitted[i][:2])
            same(c, f"posterior of z after {i}", a.q_z, *fitted[i][2:])
        if i > 0 and hasattr(a, "ts"):
            t, y = data[i - 1]
            x = c.mat("x", n_u, 1)
            got, want = a.q_z_optimal(a.ts, x), a.q_z_optimal(a.construct_terms(t, y), x)
            same(c, f"terms of the data {i}", got, B.dense(want.lam), B.dense(want.prec))
    # a fresh posterior, wherever it is moved to, leaves the past alone
    qu, _, _, _ = normal(c, "fresh_u", n_u)
    qz, _, _, _ = normal(c, "fresh_z", n_z)
    a = models[-1]().approximation
    a.q_u, a.q_z = qu, qz
    a = models[-1]().approximation
    same(c, "fresh posterior of u", a.q_u, *natural(qu))
    same(c, "fresh posterior of z", a.q_z, *natural(qz))
    for i, m in enumerate(models):
        a = m().approximation
        if i:
            same(c, "prior of u stays", a.p_u, *fitted[i - 1][:2])
            same(c, "prior of z stays", a.p_z, *fitted[i - 1][2:])
        else:
            same(c, "prior of u stays", a.p_u, zero_u, s.K_u)
            same(c, "prior of z stays", a.p_z, zero_z, s.K_z)


def optimise(c, n_u, n_z, k, previous, current, scheme):
    """Any outcome of an optimiser over the variables that are not ignored."""
    model, s = toy(c, n_u, n_z, scheme, cls=Hyper)
    models, past = [model], []
    for i in range(k):
        t = times(c, s, f"t{i}_", 1) if i < 2 else t
        models.append(models[-1].condition(t, c.arr(f"y{i}", 1)))
    m = models[-1]
    # values for all
    for i in range(k + 1):
        a = models[i]().approximation
        qu, _, _, _ = normal(c, f"u{i}", n_u)
        qz, _, _, _ = normal(c, f"z{i}", n_z)
        a.q_u, a.q_z = qu, qz
        past.append(natural(qu) + natural(qz))
    if scheme == "structured":
        us, zs = [c.mat(f"us{j}", n_u, 1) for j in range(2)], [c.mat(f"zs{j}", n_z, 1) for j in range(2)]
        a.q_u_samples, a.q_z_samples = us, zs
    kw = {} if current == "default" else dict(current=current)
    names = a.ignore_qs(previous, **kw)
    x = m.vs.get_latent_vector(*names)
    new = c.arr("new", len(x))
    m.vs.set_latent_vector(new, *names)
    free = 1
    if previous:
        fixed = list(range(k))
    else:
        fixed = []
    dims = n_u + n_u * (n_u + 1) // 2, n_z + n_z * (n_z + 1) // 2
    pos = {}
    for i in range(k + 1):
        for j, (of, n) in enumerate((("u", n_u), ("z", n_z))):
            left = i in fixed or (i == k and current in (True, of))
            b = models[i]().approximation
            q = b.q_u if of == "u" else b.q_z
            lam, prec = past[i][2 * j:2 * j + 2]
            if left:
                same(c, f"ignored {of}[{i}]", q, lam, prec)
            else:
                free += dims[j]
                pos[i, of] = q
    # the rest moves
    c.true("everything else is optimised", len(x) == free)
    moved = flat(new)
    for (i, of), q in pos.items():
        got = flat(B.dense(q.lam))
        c.true(f"{of}[{i}] moves to where the optimiser says",
               any(all(c.same(moved[a + d], g) for d, g in enumerate(got)) for a in range(len(moved) - len(got) + 1)))
    c.true("the hyperparameter moves", any(c.same(v, m().noise) for v in moved))
    if scheme == "structured":
        b = m().approximation
        for j in range(2):
            c.eq("samples of u are not optimised", b.q_u_samples[:, j:j + 1], us[j])
            c.eq("samples of z are not optimised", b.q_z_samples[:, j:j + 1], zs[j])


def refuse(c, k, current):
    model, s = toy(c, 1, 1, "mean-field")
    m = model
    t, y = times(c, s, "t", 1), c.arr("y", 1)
    for i in range(k):
        m = m.condition(t, y)
    a = m().approximation
    for previous in (False, True):
        c.raises("refused", ValueError, lambda: a.ignore_qs(previous, current=current))
    c.eq("data", y, 1 * y)


def samples(c, n_u, n_z, sizes):
    """Samples of the structured approximation: stored in order, replaced when stored again, separate over conditionings."""
    model, s = toy(c, n_u, n_z, "structured")
    t, y = times(c, s, "t", 1), c.arr("y", 1)
    m, kept, models = model, [], [model]
    for k, num in enumerate(sizes):
        a = m().approximation
        for again in range(2):
            us = [c.mat(f"u{k}_{again}_{j}_", n_u, 1) for j in range(num + again)]
            zs = [c.mat(f"z{k}_{again}_{j}_", n_z, 1) for j in range(num + again)]
            a.q_u_samples = us
            a.q_z_samples = zs
        kept.append((us, zs))
        m = m.condition(t, y)
        models.append(m)
        for i in range(k + 1):
            b = models[i + 1]().approximation
            for got, want in ((b.p_u_samples, kept[i][0]), (b.p_z_samples, kept[i][1])):
                c.true("number of samples", np.shape(got)[1] == len(want))
                for j, w in enumerate(want):
                    c.eq("sample", got[:, j:j + 1], w)
            b = models[i]().approximation
            c.eq("samples of the posterior then", b.q_u_samples, c.out(np.concatenate(kept[i][0], axis=1)))


_b = "one or two inducing variables, up to three conditionings (eleven for the selection of variables), arbitrary posteriors and arbitrary outcomes of the optimiser"
HARNESSES = [
    Harness(chain, [dict(n_u=1, n_z=1, k=k, scheme=sc) for k in (0, 1, 2, 3) for sc in ("structured", "mean-field")] + [dict(n_u=2, n_z=1, k=2, scheme="mean-field")],
            [dict(n_u=2, n_z=2, k=2, scheme="structured"), dict(n_u=1, n_z=2, k=4, scheme="mean-field")], bounds=_b),
    Harness(optimise, [dict(n_u=1, n_z=1, k=k, previous=p, current=cu, scheme="mean-field") for k in (0, 1, 2) for p in (False, True) for cu in ("default", False, True, "u", "z")]
            + [dict(n_u=2, n_z=1, k=1, previous=True, current=cu, scheme="structured") for cu in (True, "z", "default")]
            + [dict(n_u=1, n_z=1, k=11, previous=p, current=cu, scheme="mean-field") for p, cu in ((True, True), (True, "z"), (False, "u"), (False, True))],
            [], bounds=_b),
    Harness(refuse, [dict(k=k, current=cu) for k in (0, 1) for cu in ("both", "", None)], [], bounds=_b),
    Harness(samples, [dict(n_u=1, n_z=2, sizes=[1]), dict(n_u=2, n_z=1, sizes=[2, 1])], [dict(n_u=2, n_z=2, sizes=[3, 1, 2])], bounds=_b),
]
