"""The stages of the fitting schemes."""
import lab.jax as B
import numpy as np
import gpcm.approx
import varz
import varz.minimise
from gpcm.approx import Approximation, MeanField, Structured
from gpcm.normal import NaturalNormal
from plum import convert
from symx.explore import Harness
from props.c21 import normal
from props.c26 import natural, same
from props.toy import Toy, flat, methods, replaced, times, toy


class Hyper(Toy):
    """With a trainable hyperparameter."""

    def __prior__(self):
        self.noise = self.spec.noise * B.exp(self.ps.hyper.unbounded(self.spec.hyper))
        Toy.__prior__(self)

    def compute_I_hz(self, t):
        return self.noise * Toy.compute_I_hz(self, t)  # any integral may depend on it


class Function:
    """Arbitrary outcomes that depend on the inputs only."""

    def __init__(self, c):
        self.c, self.seen = c, {}

    def __call__(self, of, xs, make):
        key = (of,) + tuple(self.c.ident(x) for x in xs)
        if key not in self.seen:
            self.seen[key] = make(len(self.seen))
        return self.seen[key]


def values(*xs):
    return tuple(y for x in xs for y in flat(B.dense(x)))


class Log:
    """Stands in for the updates and the optimisers; records the stages."""

    def __init__(self, c, n, stall=False, model=None):
        self.c, self.n, self.stall, self.model = c, n, stall, model
        self.f, self.stages, self.inside = Function(c), [], 0
        self.vs, self.terms, self.checked = None, {}, {}
        self.most = 0  # number of stages that there can be
        self.apart = False  # keep rounds of coordinate ascent apart from what comes before

    def current(self, a, ts):
        """Updates and conditionals are under the current hyperparameters."""
        c, vs = self.c, self.model.vs if self.vs is None else self.vs
        key = c.ident(flat(vs["hyper"])[0])
        if key not in self.terms:
            now = self.model(vs)
            self.terms[key] = now, now.approximation.construct_terms(*self.data)
        now, want = self.terms[key]
        c.eq("updates are under the current hyperparameters", a.model.noise, now.noise)
        if id(ts) not in self.checked:
            self.checked[id(ts)] = ts
            for k in sorted(k for k in set(vars(ts)) & set(vars(want)) if hasattr(getattr(ts, k), "shape")):
                c.eq("updates use the current integrals", B.dense(getattr(ts, k)), B.dense(getattr(want, k)))

    def step(self):
        if len(self.stages) > self.most:
            self.c.fail("the budget", "more stages than the budget allows")
            raise RuntimeError("more stages than the budget allows")

    # coordinate updates
    def update(self, of):
        def f(a, ts, q):
            c, n = self.c, self.n
            self.step()
            self.current(a, ts)
            lam, prec = natural(q)

            def make(i):
                # apart from one another, unless they are to stall
                k = 2 if self.stall else i + 2
                return c.mat("stalled" if self.stall else f"lam{i}_", n, 1), c.const(k * np.eye(n))

            out = self.f(of, values(lam, prec), make)
            if not self.inside:
                self.stages.append(("update", of, lam, prec) + out + (1 * ts.y,))
            return NaturalNormal(*out)
        return f

    # conditionals for Gibbs sampling
    def conditional(self, of):
        log = self

        class Conditional(NaturalNormal):
            def sample(self, state, num=1):
                log.step()
                i = len(log.stages)
                out = log.c.mat(f"s{i}_", log.n, 1)
                log.stages.append(("sample", of, self.given, out, state.get_state()))
                # draw, to advance the state
                state, _ = B.randn(state, B.dtype(self.given), log.n, 1)
                return state, out

        def f(a, ts, x):
            c, n = self.c, self.n
            self.current(a, ts)
            lam, prec = self.f(of, values(x), lambda i: (c.mat(f"lam{i}_", n, 1), c.const((i + 1) * np.eye(n))))
            q = Conditional(lam, prec)
            q.given = 1 * x
            return q
        return f

    def optimiser(self, kind):
        def f(f, vs, f_calls=10000, iters=1000, trace=False, names=None, jit=False, callback=None, rate=None, **kw):
            c = self.c
            vs = convert(vs, tuple)
            vs, args = vs[0], vs[1:]
            names = [names] if isinstance(names, str) else names or []
            i = len(self.stages)
            self.inside += 1
            calls = []
            copy = vs.copy()
            for j in range(2):
                v = vs if j == 0 else copy  # as varz does
                if j == 1:
                    copy.set_latent_vector(c.arr(f"at{i}_", len(vs.get_latent_vector(*names))), *names, differentiable=True)
                k = len(self.stages)
                self.vs = v
                out = convert(f(v, *args), tuple)
                c.eq("objective", out[0], -self.bound(self.model(v).approximation, *out[2:]))
                self.vs = None
                calls.append((v, args, out, self.stages[k:]))
                args = out[1:]
                del self.stages[k:]
            self.inside -= 1
            new = []
            for j, x in enumerate(vs.get_latent_vars(*names)):
                if self.apart and len(np.shape(x)) == 1:
                    new += flat(c.const(np.zeros(np.shape(x))))  # a precision
                else:
                    new += flat(c.arr(f"opt{i}_{j}", int(np.prod(np.shape(x)))))
            new = c.stack(new)
            vs.set_latent_vector(new, *names)
            a = self.model(vs).approximation
            after = {of: natural(getattr(a, f"q_{of}")) for of in "uz"}
            self.stages.append(("optimise", kind, iters, rate, new, calls, after))
            return (calls[-1][2][0],) + args if args else calls[-1][2][0]
        return f

    def run(self, f):
        from contextlib import ExitStack
        with ExitStack() as st:
            for nm in ("l_bfgs_b", "adam"):
                st.enter_context(replaced(f"minimise_{nm}", self.optimiser(nm), also=("varz", "varz.minimise")))
            st.enter_context(methods(Approximation, q_u_optimal_mean_field=self.update("u"), q_z_optimal_mean_field=self.update("z"),
                                     q_u_optimal=self.conditional("u"), q_z_optimal=self.conditional("z")))
            f()


PLAN = {
    "mean-field": ["ca", "collapsed", "ca"],
    "mean-field-ca": ["ca"],
    "mean-field-gradient": ["full"],
    "mean-field-collapsed-gradient": ["collapsed"],
    "mean-field-ca-gradient": ["ca", "full", "ca"],
    "mean-field-ca-collapsed-gradient": ["ca", "collapsed", "ca"],
}


def prepare(c, scheme, k, n, init):
    model, s = toy(c, n, n, scheme, cls=Hyper)
    s.hyper = c.real("hyper")
    m, models = model, [model]
    for i in range(k):
        qu, _, _, _ = normal(c, f"pu{i}", n)
        qz, _, _, _ = normal(c, f"pz{i}", n)
        a = m().approximation
        a.q_u, a.q_z = qu, qz
        m = m.condition(times(c, s, f"old{i}_", 1), c.arr(f"yold{i}", 1))
        models.append(m)
    a = m().approximation
    start = {}
    if init:
        for of in "uz":
            q, _, _, _ = normal(c, of, n)
            if init == "apart":
                q = NaturalNormal(q.lam, c.const(100 * np.eye(n)))
            setattr(a, f"q_{of}", q)
    for of in "uz":
        start[of] = natural(getattr(m().approximation, f"q_{of}"))
    past = [natural(getattr(x().approximation, f"q_{of}")) for x in models[:-1] for of in "uz"]
    return s, models, start, past


def untouched(c, models, past):
    now = [natural(getattr(x().approximation, f"q_{of}")) for x in models[:-1] for of in "uz"]
    for (l1, p1), (l2, p2) in zip(now, past):
        c.eq("previous posterior stays (lam)", l1, l2)
        c.eq("previous posterior stays (precision)", p1, p2)


def mean_field(c, scheme, iters, k, init=None, stall=False, n=1):
    ca = "ca" in PLAN[scheme.lower()]
    if init is None:
        init = "apart" if ca else True
    s, models, state, past = prepare(c, scheme, k, n, init)
    m = models[-1]
    t, y = times(c, s, "t", 2), c.arr("y", 2)
    log = Log(c, n, stall, model=m)
    log.apart = ca
    log.data = t, y
    kw = dict(collapsed="z") if "collapsed" in PLAN[scheme.lower()] else {}
    log.bound = lambda a: a.elbo(B.create_random_state(m.dtype, seed=0), t, y, **kw)[1]
    budget = 5000 if iters is None else iters
    log.most = 4 * budget + 8
    log.run(lambda: m.fit(t, y) if iters is None else m.fit(t, y, iters=iters))
    left = list(log.stages)

    def update(of):
        c.true("an update is next", len(left) > 0 and left[0][0] == "update" and left[0][1] == of)
        _, _, lam, prec, nlam, nprec, data = left.pop(0)
        other = "uz".replace(of, "")
        c.eq("update from the other factor (lam)", lam, state[other][0])
        c.eq("update from the other factor (precision)", prec, state[other][1])
        c.eq("update on the data", data, y)
        state[of] = (nlam, nprec)

    for stage in PLAN[scheme.lower()]:
        if stage == "ca":
            for i in range(budget):
                last = dict(state)
                update("u"), update("z")
                if i + 1 < budget and not (left and left[0][0] == "update"):
                    # stopping early needs that nothing moves any more
                    for of in "uz":
                        for x, w in zip(values(*state[of]), values(*last[of])):
                            c.always("converged", "le", x - w, 1e-5)
                            c.always("converged", "le", w - x, 1e-5)
                    break
        else:
            c.true("a gradient stage is next", len(left) > 0 and left[0][0] == "optimise")
            _, kind, its, _, x, calls, after = left.pop(0)
            c.true("L-BFGS with a fifth of the budget", kind == "l_bfgs_b" and its == budget // 5)
            d = n + n * (n + 1) // 2
            c.true("the hyperparameter and what is not collapsed", len(x) == 1 + (2 * d if stage == "full" else d))
            if stage == "collapsed":
                for a, b in zip(after["z"], state["z"]):
                    c.eq("q(z) is not optimised when it is collapsed", a, b)
            state = after
            if stage == "collapsed":
                update("z")
    c.true("no other stages", not left)
    a = m().approximation
    for of in "uz":
        same(c, f"stored posterior of {of}", getattr(a, f"q_{of}"), *state[of])
    untouched(c, models, past)


def structured(c, scheme, iters, k, init=True, n=1, hypers="default", rate=None, num=None):
    s, models, state, past = prepare(c, scheme, k, n, init)
    m = models[-1]
    t, y = times(c, s, "t", 1), c.arr("y", 1)
    log = Log(c, n, model=m)
    kw = {a: b for a, b in (("rate", rate), ("num_samples", num), ("iters", iters)) if b is not None}
    log.data = t, y
    if hypers != "default":
        kw["optimise_hypers"] = hypers
    log.bound = lambda a, u, z: a.log_Z_u(a.construct_terms(t, y), u) + a.p_u.logpdf(u)
    budget, num = iters or 5000, num or 5
    log.most = budget + 2000 * max(budget // 1000, 1) + 4 * num + 8
    log.run(lambda: m.fit(t, y, **kw))
    left = list(log.stages)
    # draws are never taken twice
    positions = [x[-1] for x in left if x[0] == "sample"]
    c.true("fresh randomness for every sample", len(set(positions)) == len(positions))

    def sweep(of, given, stages):
        c.true("a sample is next", len(stages) > 0 and stages[0][0] == "sample" and stages[0][1] == of)
        _, _, on, out, _ = stages.pop(0)
        if given is not None:
            c.eq(f"{of} given the latest sample", on, given)
        return out

    z = None
    for i in range(budget // 2):
        u = sweep("u", z, left)
        z = sweep("z", u, left)
    if hypers is not False:
        c.true("a gradient stage is next", len(left) > 0 and left[0][0] == "optimise")
        _, kind, its, r, x, calls, after = left.pop(0)
        want = budget // num if hypers in ("default", True) else hypers
        c.true("Adam with the sampling budget", kind == "adam" and its == want and r == (rate or 5e-2))
        c.true("only the hyperparameter", len(x) == 1)
        for v, args, out, inner in calls:
            c.eq("starts from the latest u", args[1], u)
            c.eq("starts from the latest z", args[2], z)
            for i in range(num):
                u = sweep("u", z, inner)
                z = sweep("z", u, inner)
            c.true("no other samples", not [x for x in inner if x[0] == "sample"])
            c.eq("leaves the latest u", out[2], u)
            c.eq("leaves the latest z", out[3], z)
    thousands = max(budget // 1000, 1)
    us, zs = [], []
    for i in range(1000 * thousands):
        u = sweep("u", z, left)
        z = sweep("z", u, left)
        if i % thousands == 0:
            us.append(u), zs.append(z)
    c.true("no other stages", not left)
    a = m().approximation
    for nm, got, want in (("u", a.q_u_samples, us), ("z", a.q_z_samples, zs)):
        c.eq(f"the stored samples of {nm}", got, c.out(np.concatenate(want, axis=1)))
    if hypers is not False:
        for of in "uz":
            for x, w in zip(after[of], state[of]):
                c.eq("the approximate posterior is not optimised", x, w)
    untouched(c, models, past)


def names(c, scheme, kind, fit):
    """Scheme names select the approximation, whatever their case."""
    for nm in {scheme, scheme.upper(), scheme.title()}:
        model, s = toy(c, 1, 1, nm)
        a = model().approximation
        c.true("approximation", type(a) is {"structured": Structured, "mean-field": MeanField}[kind])
    c.eq("noise", model().noise, s.noise)


def refused(c, scheme):
    model, s = toy(c, 1, 1, scheme)
    c.raises("refused", ValueError, model)
    model, s = toy(c, 1, 1, "mean-field")
    a = MeanField(model(), fit="something")
    t, y = times(c, s, "t", 1), c.arr("y", 1)
    c.raises("unknown fitting method", ValueError, lambda: gpcm.approx.fit(model, t, y, a))
    c.eq("noise", model().noise, s.noise)


_b = "one or two inducing variables, two observations, up to one earlier posterior; budgets up to 12 (mean-field) and 2000 (structured); arbitrary outcomes of the updates, the samples and the optimisers"
HARNESSES = [
    Harness(mean_field, [dict(scheme=sc, iters=6, k=k) for sc in PLAN for k in (0, 1)]
            + [dict(scheme="Mean-Field-CA-Gradient", iters=11, k=0), dict(scheme="MEAN-FIELD-GRADIENT", iters=12, k=0, n=2), dict(scheme="mean-field-gradient", iters=None, k=0), dict(scheme="mean-field-collapsed-gradient", iters=None, k=0),
               dict(scheme="mean-field-ca", iters=6, k=0, init=False), dict(scheme="mean-field-ca", iters=3, k=0, init=True), dict(scheme="mean-field", iters=6, k=0, stall=True), dict(scheme="mean-field-ca", iters=None, k=0, stall=True), dict(scheme="mean-field-ca-gradient", iters=8, k=1, stall=True)],
            [dict(scheme=sc, iters=6, k=2, n=2) for sc in PLAN], bounds=_b),
    Harness(structured, [dict(scheme="structured", iters=4, k=0), dict(scheme="structured", iters=11, k=1, num=2, rate=0.125), dict(scheme="Structured", iters=5, k=0, hypers=False), dict(scheme="structured", iters=4, k=0, hypers=7, num=1),
                         dict(scheme="structured", iters=2001, k=0, num=3, hypers=True)],
            [dict(scheme="structured", iters=None, k=0), dict(scheme="structured", iters=6, k=2, n=2)], bounds=_b),
    Harness(names, [dict(scheme=sc, kind="mean-field", fit=None) for sc in PLAN] + [dict(scheme="structured", kind="structured", fit=None)], bounds=_b),
    Harness(refused, [dict(scheme=x) for x in ("", "laplace", "mean-field-", "structured-ca")], bounds=_b),
]
