"""Elliptical slice sampling: every accepted point lies on the slice, and the bracket shrinks towards zero."""
from contextlib import contextmanager
import lab as B
import numpy as np
import wbml.out
import gpcm.sample
from gpcm.sample import ESS
from symx import patch
from symx.explore import Harness
from props.toy import _quiet, flat


class _Section:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


patch.EXTRA += [lambda ctx, setter: setter(wbml.out, "Section", _Section)]
patch.JAX[0] = False


class World:
    """Arbitrary likelihood, prior and randomness; records everything that is asked."""

    def __init__(self, c, shape, rejections, hopeless=0):
        self.c, self.shape = c, shape
        self.rejections, self.hopeless = rejections, hopeless
        self.events, self.n, self.tries = [], 0, 0
        self.accept_at = None
        self.lik = None  # of the state
        self.seen, self.phase = [], set()

    def name(self, stem):
        self.n += 1
        return f"{stem}{self.n}"

    def begin(self, kind):
        """A sweep starts with a slice, an ellipse and a bracket."""
        if len(self.phase) == 3 and kind != "uniform":
            self.phase = set()
        self.phase.add(kind)

    def prior(self):
        x = self.c.arr(self.name("y"), *self.shape)
        self.begin("prior")
        self.events.append(("prior", x))
        return x

    def log_lik(self, x):
        c = self.c
        for y, v in self.seen:
            if all(c.same(a, b) for a, b in zip(flat(x), flat(y))):
                self.events.append(("lik", x, v))
                return v
        if self.lik is None:  # the first state
            v = c.real(self.name("lik"))
        else:
            self.tries += 1
            if self.hopeless > 0:
                v = self.height - c.pos(self.name("below"))
            elif self.tries > self.rejections:
                # a better one: accepted whatever the slice
                v = self.lik + c.pos(self.name("better"))
            else:
                v = c.real(self.name("lik"))
        self.seen.append((1 * x, v))
        self.events.append(("lik", 1 * x, v))
        return v

    def exponential(self, scale=1.0, size=None):
        c = self.c
        assert size is None
        e = c.pos(self.name("e"))
        self.begin("exponential")
        if any(x[0] == "exponential" for x in self.events):
            self.hopeless -= 1
        self.tries = 0
        self.lik = self.state.log_lik_x
        self.height = self.lik - e
        self.events.append(("exponential", scale, e, 1 * self.state.x, self.state.log_lik_x))
        return e * scale

    def uniform(self, low=0.0, high=1.0, size=None):
        c = self.c
        assert size is None
        far = None
        if self.hopeless > 0:  # stay on one side, and away from zero
            far = self.tries if len(self.phase) == 3 else -1
        if far is not None and far > 1:
            th = high - (high - low) / 2000
        else:
            th = c.real(self.name("theta"))
            c.assume("le", low if far is None else low + (high - low) / 4 if far < 0 else high - (high - low) / 1000, th)
            c.assume("lt", th, high - (high - low) / 4 if far == -1 else high)
        self.begin("uniform")
        self.events.append(("uniform", low, high, th))
        return th


@contextmanager
def randomness(w):
    new = dict(uniform=w.uniform, rand=lambda *a: w.uniform(size=a or None), random=lambda size=None: w.uniform(size=size),
               random_sample=lambda size=None: w.uniform(size=size), exponential=w.exponential,
               standard_exponential=lambda size=None: w.exponential(size=size))
    old = {k: getattr(np.random, k) for k in new}
    try:
        for k, f in new.items():
            setattr(np.random, k, f)
        yield
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)


def between(c, lower, upper, low, high, th):
    """The point between `lower` and `upper` that corresponds to `th`, drawn between `low` and `high`."""
    if all(c.same(a, b) for a, b in ((low, lower), (high, upper))):
        return th
    return lower + (upper - lower) * ((th - low) / (high - low))


def run(c, w, num, init, trace=False):
    x0 = c.arr("x0", *w.shape)
    with randomness(w):
        s = ESS(w.log_lik, w.prior, x_init=x0) if init else ESS(w.log_lik, w.prior)
        w.state = s
        kinds = [e[0] for e in w.events]
        c.true("initialised", kinds == (["lik"] if init else ["prior", "lik"]))
        start = x0 if init else w.events[0][1]
        c.eq("initial state", s.x, start)
        c.eq("likelihood at the initial state", s.log_lik_x, w.events[-1][2])
        w.events.clear()
        got = s.sample(num, trace=trace) if trace else s.sample(num) if num != 1 else s.sample()
    return s, start, got


def proposal(ev):
    return len(ev) > 1 and ev[0][0] == "uniform" and ev[1][0] == "lik"


def sweeps(c, w, s, start, got, num):
    x, lik = start, None
    for y, v in w.seen[:1]:
        lik = v
    ev = list(w.events)
    states = []

    def next(kind):
        c.true(f"{kind} is next", len(ev) > 0 and ev[0][0] == kind)
        return ev.pop(0)[1:]

    failed = 0
    while ev:
        # the slice, the ellipse and the bracket, in any order
        three = {}
        for _ in range(3):
            c.true("slice, prior or bracket", len(ev) > 0 and ev[0][0] in ("exponential", "prior", "uniform") and ev[0][0] not in three)
            k, *r = ev.pop(0)
            three[k] = r
        scale, e, sx, sl = three["exponential"]
        c.eq("unit rate", c.const(np.array(1.0)), scale + 0 * e)
        c.eq("state before the sweep", sx, x)
        c.eq("likelihood before the sweep", sl, lik)
        height = lik - e
        y = three["prior"][0]
        theta = between(c, 0 * e, 0 * e + 2 * c.pi, *three["uniform"])
        lower, upper = theta - 2 * c.pi, theta
        done = False
        while proposal(ev):
            th = between(c, lower, upper, *next("uniform"))
            c.always("zero stays in the bracket", "le", lower, 0)
            c.always("zero stays in the bracket", "le", 0, upper)
            at, v = next("lik")
            c.eq("proposal on the ellipse", at, np.cos(th) * x + np.sin(th) * y)
            if not proposal(ev) and not (ev and failed < w.failures):
                c.always("accepted above the slice", "lt", height, v)
                x, lik, done = at, v, True
            else:
                c.always("rejected below the slice", "le", v, height)
                if th > 0:
                    upper = th
                else:
                    lower = th
        if done:
            states.append((x, lik))
        else:
            failed += 1
    c.true("failed sweeps are retried", failed == w.failures)
    c.true("number of samples", len(states) == num and len(got) == num)
    for g, (x, v) in zip(got, states):
        c.eq("sample", g, x)
    c.eq("final state", s.x, states[-1][0])
    c.eq("likelihood of the final state", s.log_lik_x, states[-1][1])


def chain(c, shape, rejections, num, init, trace=False):
    w = World(c, tuple(shape), rejections)
    w.failures = 0
    s, start, got = run(c, w, num, init, trace)
    sweeps(c, w, s, start, got, num)


def failure(c, hopeless, num):
    """Sweeps in which nothing is ever accepted."""
    w = World(c, (1,), 0, hopeless)
    w.failures = hopeless
    s, start, got = run(c, w, num, True)
    sweeps(c, w, s, start, got, num)


def moves(c, shape, num):
    """The state is set by hand, also to an array that changed since; then sampling goes on from there."""
    w = World(c, tuple(shape), 1)
    w.failures = 0
    x = c.arr("x0", *shape)
    s = ESS(w.log_lik, w.prior, x_init=x)
    w.state = s

    def at(y):
        c.eq("state after a move", s.x, y)
        c.true("the likelihood was asked for", any(all(c.same(a, b) for a, b in zip(flat(y), flat(z))) for z, _ in w.seen))
        v = next(v for z, v in w.seen if all(c.same(a, b) for a, b in zip(flat(y), flat(z))))
        c.eq("likelihood after a move", s.log_lik_x, v)

    at(x)
    y = 1 * c.arr("x1", *shape)  # an array of our own
    s.move(y)
    at(y)
    y[...] = c.arr("x2", *shape)
    s.move(y)
    at(y)
    s.move(x)
    at(x)
    s.move(y)
    at(y)
    start = 1 * y
    w.seen = [(z, v) for z, v in w.seen if all(c.same(a, b) for a, b in zip(flat(y), flat(z)))]
    w.events.clear()
    with randomness(w):
        got = s.sample(num)
    sweeps(c, w, s, start, got, num)


_b = "states with one or two entries; up to three rejections in a sweep (one hundred, on one side of zero, in failing sweeps), up to three sweeps; arbitrary likelihoods and randomness"
HARNESSES = [
    Harness(chain, [dict(shape=[1], rejections=3, num=1, init=True), dict(shape=[2, 1], rejections=1, num=1, init=False), dict(shape=[1, 1], rejections=1, num=2, init=True), dict(shape=[], rejections=2, num=1, init=True),
                    dict(shape=[1], rejections=0, num=3, init=True, trace=True)],
            [dict(shape=[1], rejections=5, num=1, init=True), dict(shape=[2], rejections=1, num=3, init=False), dict(shape=[1], rejections=2, num=2, init=True, trace=True)], bounds=_b),
    Harness(moves, [dict(shape=[1], num=1), dict(shape=[2, 1], num=1)], [dict(shape=[1], num=2)], bounds=_b),
    Harness(failure, [dict(hopeless=1, num=1)], [dict(hopeless=2, num=2)], bounds=_b),
]
