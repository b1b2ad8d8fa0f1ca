"""Models on files."""
import os
import shutil
import tempfile
import lab.jax as B
import numpy as np
from gpcm.gpcm import CGPCM, GPCM
from gpcm.model import AbstractGPCM
from gpcm.rgpcm import RGPCM
from symx.explore import Harness
from props.models import gpcm_model, rgpcm_model
import props.toy  # quiet

LOWER, UPPER = -1.5, 3.25


def draw(c, kind, stem):
    """A value that satisfies the constraint."""
    if kind == "unbounded":
        return c.real(stem)
    if kind == "vector":
        return c.arr(stem, 3)
    if kind == "matrix":
        return c.mat(stem, 2, 3)
    if kind == "empty":
        return c.const(np.zeros((0,)))
    if kind == "positive":
        return c.pos(stem)
    if kind == "positives":
        return c.arr(stem, 2, positive=True)
    if kind == "bounded":
        x = c.pos(stem)
        return LOWER + (UPPER - LOWER) * x / (1 + x)
    if kind == "lower-triangular":
        return c.tril(stem, 2)
    assert kind == "positive-definite"
    L = c.tril(stem, 2)
    return L @ L.T


def declare(vs, kind, name, value):
    value = 1 * value  # variables are assigned in place
    if kind in ("unbounded", "vector", "matrix", "empty"):
        return vs.unbounded(init=value, name=name)
    if kind in ("positive", "positives"):
        return vs.positive(init=value, name=name)
    if kind == "bounded":
        return vs.bounded(init=value, lower=LOWER, upper=UPPER, name=name)
    if kind == "lower-triangular":
        return vs.lower_triangular(init=value, name=name)
    return vs.positive_definite(init=value, name=name)


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="c35")
        return self

    def path(self, nm="model"):
        return os.path.join(self.dir, nm)

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def roundtrip(c, kinds, present, others, via=AbstractGPCM):
    """`present`: names that the receiving model has; `others`: constraints of further variables it has."""
    a, b = via(), via()
    values = {}
    for i, k in enumerate(kinds):
        values[f"x{i}"] = v = draw(c, k, f"x{i}_")
        declare(a.vs, k, f"x{i}", v)
    kept = {}
    for i, k in enumerate(others):
        kept[f"y{i}"] = v = draw(c, k, f"y{i}_")
        declare(b.vs, k, f"y{i}", v)
    for i in present:
        declare(b.vs, kinds[i], f"x{i}", draw(c, kinds[i], f"old{i}_"))
    with Scratch() as s:
        a.save(s.path())
        for k, v in values.items():
            c.eq("saving leaves the model alone", a.vs[k], v)
        # what happens to the model later does not matter
        for i, k in enumerate(kinds):
            a.vs.assign(f"x{i}", 1 * draw(c, k, f"later{i}_"))
        b.load(s.path())
        c.true("no variables but those saved and those there", set(b.vs.names) == set(values) | set(kept))
        for k, v in values.items():
            c.true("shape", np.shape(b.vs[k]) == np.shape(v))
            c.eq("loaded", b.vs[k], v)
        for k, v in kept.items():
            c.eq("others are left alone", b.vs[k], v)
        # the file is intact: another model
        d = via()
        d.load(s.path())
        for k, v in values.items():
            c.eq("loaded into an empty model", d.vs[k], v)
        # and saved from there
        b.save(s.path("again"))
        # a file is replaced by what is saved in its place
        a.save(s.path())
        e = via()
        e.load(s.path())
        for i, k in enumerate(kinds):
            c.eq("saved in place of the first", e.vs[f"x{i}"], draw(c, k, f"later{i}_"))
        c.true("variables", set(e.vs.names) == set(values))
    # variables whose constraint is not known are not for optimisers
    c.true("as visible as before", [bool(b.vs.visible[b.vs.name_to_index[f"x{i}"]]) for i in range(len(kinds))] == [i in present for i in range(len(kinds))])
    # constraints are those of before
    for i in present:
        x = f"x{i}"
        n = b.vs.get_latent_vector(x)
        c.true("loads as a variable of the model", np.shape(n) == np.shape(reference(c, kinds[i], values[x]).get_latent_vector("x")))
        at = c.arr(f"at{i}_", len(n))
        r = reference(c, kinds[i], values[x])
        r.set_latent_vector(at, "x")
        b.vs.set_latent_vector(at, x)
        c.eq("constraint is kept", b.vs[x], r["x"])


def reference(c, kind, value):
    vs = AbstractGPCM().vs
    declare(vs, kind, "x", value)
    return vs


def reshaped(c, shape, other):
    """The receiving model has a variable of that name which has another shape: what is loaded is what was saved."""
    a, b = AbstractGPCM(), AbstractGPCM()
    v, keep = array(c, "v", shape), c.pos("keep")
    a.vs.unbounded(init=1 * v, name="x", visible=False)
    a.vs.positive(init=keep, name="k")
    b.vs.unbounded(init=1 * array(c, "w", other), name="x", visible=False)
    b.vs.positive(init=c.pos("old"), name="k")
    with Scratch() as s:
        a.save(s.path())
        b.load(s.path())
        c.eq("loaded", b.vs["x"], v)
        c.eq("loaded", b.vs["k"], keep)
        b.save(s.path("again"))
        d = AbstractGPCM()
        d.load(s.path("again"))
        c.eq("loaded from there", d.vs["x"], v)
        c.eq("loaded from there", d.vs["k"], keep)


def array(c, stem, shape):
    return c.real(stem) if shape == () else c.arr(stem, shape[0]) if len(shape) == 1 else c.mat(stem, *shape)


def models(c, which, built):
    """The parameters of the actual models."""
    def make():
        if which == "RGPCM":
            return rgpcm_model(c, 1, [0, 1, 2], 1)[0]
        return distinct(gpcm_model(c, which == "CGPCM", 2, 1))

    def distinct(mp):
        c.assume("lt", mp[1].t_u[0], mp[1].t_u[1])
        return mp[0]

    a, b = make(), make()
    a()
    names = a.vs.names
    c.true("variables", len(names) > 0)
    values = {}
    for i, k in enumerate(names):
        a.vs.set_latent_vector(c.arr(f"v{i}_", len(a.vs.get_latent_vector(k))), k)
        values[k] = 1 * B.dense(a.vs[k])
        if np.shape(values[k]) == (2,):
            c.assume("lt", values[k][0], values[k][1])
    if built:
        b()
    with Scratch() as s:
        a.save(s.path())
        b.load(s.path())
    inst, ref = b(), a()
    for k in names:
        c.eq("parameter", b.vs[k], values[k])
    for nm in ("noise", "alpha", "t_u"):
        c.eq(nm, getattr(inst, nm), getattr(ref, nm))
    c.true("no other variables", set(b.vs.names) == set(names))
    c.eq("what is derived from the parameters", B.dense(inst.K_u), B.dense(ref.K_u))


_k = [["unbounded"], ["positive", "vector"], ["bounded"], ["matrix", "positives"], ["lower-triangular"], ["positive-definite"], ["empty", "unbounded"]]
_q = [dict(kinds=k, present=p, others=o) for k in _k for p in (list(range(len(k))), []) for o in (["positive"],)] + [
    dict(kinds=["positive", "bounded", "vector"], present=[1], others=[]), dict(kinds=["positive", "bounded", "vector"], present=[2, 0], others=["bounded", "unbounded"])]
_b = "one to three variables of all kinds of constraints but orthogonality, with arbitrary values; models with up to two inducing points and three features"
HARNESSES = [
    Harness(roundtrip, _q, [dict(kinds=["positive", "bounded", "vector", "lower-triangular", "positive-definite"], present=p, others=["positive", "positive-definite"]) for p in ([], [0], [4, 1], [0, 1, 2, 3, 4])], bounds=_b, tol=1e-9),
    Harness(reshaped, [dict(shape=a, other=b) for a, b in (((2, 2), (2, 3)), ((2, 3), (2, 2)), ((3,), (2,)), ((), (2,)), ((2,), ()), ((2, 1), (1, 2)), ((1, 2), (2,)))], [], bounds=_b, tol=1e-9),
    Harness(models, [dict(which=w, built=b) for w in ("GPCM", "CGPCM", "RGPCM") for b in (False, True)], [], bounds=_b),
]
