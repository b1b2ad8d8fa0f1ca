"""Path exploration, obligations, counterexamples, replay."""
import json
import os
import random
import sys
import time
import zlib
import traceback
from fractions import Fraction

import mpmath
import numpy as np

from . import expr as X
from . import solver as S
from . import nf
from . import array as A
from .expr import E, add, scale, const, lift, SymError, ZERO, ONE
from .solver import z3


class PathInfeasible(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


class CheckFailed(Exception):
    """A structural obligation failed; the path cannot usefully go on."""


__all__ = ["Harness", "Job", "concrete", "PathInfeasible", "CheckFailed", "SymCtx", "ConcCtx"]


def norm_rel(rel, a, b, val):
    """(rel, a, b) that holds when the decision `a rel b` came out as `val`."""
    if val:
        return rel, a, b
    if rel == "lt":
        return "le", b, a
    if rel == "le":
        return "lt", b, a
    if rel == "eq":
        return "ne", a, b
    return "eq", a, b  # not ne


class Ctx:
    """What a harness sees. Values are symbolic or concrete; the harness is the same."""

    symbolic = False

    def __init__(self, cfg):
        self.cfg = cfg
        self.given = []

    @property
    def pi(self):
        return A.wrap(X.PI) if self.symbolic else np.pi

    # -- derived inputs ---------------------------------------------------------------
    def pos(self, name, lo=None, hi=None, kind="tensor"):
        return self.real(name, lo=lo, hi=hi, positive=True, kind=kind)

    def give(self, x):
        """Keep track of what is handed out: nobody may write to it."""
        from . import patch
        if not patch.JAX[0] and isinstance(x, np.ndarray):
            self.given.append((x, np.array(x.view(np.ndarray))))
        return x

    def written(self):
        for x, old in self.given:
            new = x.view(np.ndarray)
            if any(a is not b and not (type(a) is float and a == b) and not (isinstance(a, np.floating) and a == b)
                   for a, b in zip(new.ravel(), old.ravel())):
                return True
        return False

    def finish(self):
        if self.given:
            self.true("arguments are left alone", not self.written())

    def arr(self, name, *shape, **kw):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.raw(f"{name}_{'_'.join(map(str, i))}", **kw)
        return self.pack(out)

    vec = arr
    mat = arr

    def tril(self, name, n):
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = (self.raw(f"{name}_{i}_{j}", positive=(i == j)) if j <= i else self.raw_const(0))
        return self.pack(out)

    def spd(self, name, n):
        """A general symmetric positive-definite matrix, by its Cholesky factor."""
        L = self.tril(name, n)
        return L @ L.T

    def sym(self, name, n):
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i + 1):
                out[i, j] = out[j, i] = self.raw(f"{name}_{i}_{j}")
        return self.pack(out)

    @staticmethod
    def out(x):
        """As the arrays of the tensors handed out."""
        return x

    @staticmethod
    def same(a, b):
        """Is this the same value, as it stands?"""
        if isinstance(a, (A.SymArray, E)) or isinstance(b, (A.SymArray, E)):
            d = add(lift(A.el(a)), scale(lift(A.el(b)), -1))
            return d.op == "const" and d.args == 0
        return float(a) == float(b)

    @staticmethod
    def ident(a):
        """What tells this value from others, as it stands."""
        if isinstance(a, (A.SymArray, E)):
            return X.resolve(lift(A.el(a))).id
        return float(f"{float(a):.9g}")  # up to rounding

    def increasing(self, name, n, start=None):
        """Strictly increasing vector."""
        x = self.real(name + "_0") if start is None else start
        xs = [x]
        for i in range(1, n):
            x = x + self.pos(f"{name}_d{i}")
            xs.append(x)
        return self.stack(xs)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, cfg, job, prefix):
        super().__init__(cfg)
        self.job = job
        self.prefix = prefix
        self.trace = []
        self.cons = []  # [(rel, a, b)] assumptions and path conditions, in order
        self.decided = {}
        self.signs = {}  # normalised difference -> signs it can still have
        self.names = {}
        self.obligations = []
        self.prover = None
        self.actual = {}
        self.compared = []
        self.proving = False
        self.notes = []
        self.tiny_notes = set()
        self.inc = None
        pts = job.pool_pts[-24:] + job.model_pts[-24:]
        self.live = [[dict(p), {}, 0] for p in pts] + [[{}, {}, 0] for _ in range(8)]

    # -- inputs ---------------------------------------------------------------------------
    def raw(self, name, lo=None, hi=None, positive=False):
        e = X.var(name)
        if name not in self.names:
            self.names[name] = (lo, hi, positive)
            self.prover = None
            if positive:
                X.declare_positive(name)
                self.cons.append(("lt", ZERO, e))
            if lo is not None:
                self.cons.append(("le", const(Fraction(lo)), e))
            if hi is not None:
                self.cons.append(("le", e, const(Fraction(hi))))
        return e

    def raw_const(self, v):
        return lift(v)

    def real(self, name, lo=None, hi=None, positive=False, kind="tensor"):
        e = self.raw(name, lo, hi, positive)
        return A.SymFloat(e) if kind == "num" else A.wrap(e)

    def fresh(self, stem, **kw):
        i = self.job.fresh.setdefault((id(self), stem), 0)
        self.job.fresh[(id(self), stem)] = i + 1
        return self.raw(f"{stem}!{i}", **kw)

    def pack(self, arr):
        return self.give(A.wrap(arr))

    def const(self, v, kind="tensor"):
        """A given number, exactly."""
        if kind == "num":
            return v
        return A.sym(np.asarray(v))

    def stack(self, xs):
        out = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            out[i] = A.el(x)
        return self.give(A.wrap(out))

    def assume(self, rel, a, b):
        a, b = X.resolve(A.el(a)), X.resolve(A.el(b))
        d = add(a, scale(b, -1))
        if d.op == "const":
            ok = {"lt": d.args < 0, "le": d.args <= 0, "eq": d.args == 0, "ne": d.args != 0}[rel]
            if not ok:
                raise PathInfeasible()
            return
        if self.decided:
            if not self.feasible((rel, a, b)):
                raise PathInfeasible()
        self.cons.append((rel, a, b))
        self.prover = None

    # -- functions of the oracle ---------------------------------------------------------
    def erf(self, x):
        return A.wrap(A._UF["erf"](A.plain(A.sym(x))))

    def bvn(self, x, y, r):
        return A.wrap(X.fn("bvn", A.el(x), A.el(y), A.el(r)))

    def cos2pi(self, j, n):
        """cos(2 pi j / n)"""
        return A.wrap(A._cos2pi(Fraction(j, n)))

    # -- decisions ------------------------------------------------------------------------
    def z3cons(self, extra=(), only=None):
        tr = S.Z3Trans()
        cs = [S.rel_z3(tr, r, a, b) for r, a, b in list(self.cons) + list(extra)]
        return cs + tr.all_axioms() + S.PI_AX

    def inc_check(self, con, timeout_ms=3000):
        """Satisfiability of the path condition and `con`, with one solver per path."""
        if self.inc is None:
            sv = z3.SolverFor("QF_NRA")
            sv.add(*S.PI_AX)
            self.inc = [sv, S.Z3Trans(), 0, set()]
        sv, tr, n, seen = self.inc
        zs = [S.rel_z3(tr, *c) for c in self.cons[n:]]
        self.inc[2] = len(self.cons)
        z = S.rel_z3(tr, *con)
        for k, ax in tr.axioms.items():
            if k not in seen:
                seen.add(k)
                zs += ax
        sv.add(*zs)
        sv.set("timeout", timeout_ms)
        t0 = time.time()
        sv.push()
        sv.add(z)
        r = sv.check()
        v = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
        m = sv.model() if v == "sat" else None
        sv.pop()
        S.STATS.note("feasibility", v, time.time() - t0)
        return v, m

    def live_points(self, extra=()):
        """Known points that satisfy everything assumed so far (checked incrementally)."""
        out = []
        for rec in self.live:
            p, memo, n = rec
            for k in self.names:
                if k not in p:
                    p[k] = self.job.random_value(self.names[k])
            ok = True
            while n < len(self.cons):
                if not self.holds_at(self.cons[n], p, memo):
                    ok = False
                    break
                n += 1
            rec[2] = n
            if ok:
                out.append(rec)
        self.live = out
        return out

    def feasible(self, con):
        # a sample point settles it without a query
        for p, memo, n in self.live_points():
            if self.holds_at(con, p, memo):
                return True
        v, m = self.inc_check(con)
        if v == "unknown":
            v, m = S.run(self.z3cons([con]), "feasibility", 3000, model=True)
        if v == "sat" and m is not None:
            try:
                p = self.point_of(m)
                if self.scaled(p):  # comparisons at a point have a tolerance
                    self.job.model_pts.append(p)
                    self.live.append([dict(p), {}, 0])
            except SymError:
                pass
        return v != "unsat"

    def point_of(self, m):
        p = {}
        for n in self.names:
            p[n] = S.model_value(m, n)
        return p

    def holds_at(self, con, p, memo=None):
        rel, a, b = con
        try:
            va = X.evaluate(add(a, scale(b, -1)), p, memo if memo is not None else {}, dps=30)
        except (KeyError, ValueError, ZeroDivisionError, OverflowError):
            return False
        eps = mpmath.mpf(10) ** -18
        return {"lt": va < -eps, "le": va <= eps, "eq": abs(va) <= eps, "ne": abs(va) > eps}[rel]

    def point_ok(self, p):
        memo = {}
        return all(n in p for n in self.names) and all(self.holds_at(c, p, memo) for c in self.cons)

    @staticmethod
    def oriented(a, b):
        """(difference up to a factor, sign of that factor)"""
        d = add(a, scale(b, -1))
        c = d.args[0][1] if d.op == "add" else X.split_coef(d)[0]
        return scale(d, 1 / c), (1 if c > 0 else -1)

    def known(self, rel, n, s):
        left = self.signs.get(n.id, (-1, 0, 1))
        yes = {"lt": (-s,), "le": (-s, 0), "eq": (0,)}[rel]
        if all(x in yes for x in left):
            return True
        if not any(x in yes for x in left):
            return False
        return None

    def decide(self, rel, a, b):
        n, s = self.oriented(a, b)
        val = self.known(rel, n, s)
        if val is not None:
            return val
        if self.proving:
            raise SymError("decision inside the prover")
        val = self.floor(rel, a, b)
        if val is None:
            self.job.tick()
            i = len(self.trace)
            if i < len(self.prefix):
                val = self.prefix[i]
            else:
                t = self.feasible((rel, a, b))
                f = self.feasible(norm_rel(rel, a, b, False)) if t else True
                if t and f:
                    self.job.push(self.trace + [False])
                val = t
            self.trace.append(val)
            self.job.transitions += 1
            self.decided[rel, n.id, s] = val
            self.cons.append(norm_rel(rel, a, b, val))
            self.prover = None
        yes = {"lt": (-s,), "le": (-s, 0), "eq": (0,)}[rel]
        self.signs[n.id] = tuple(x for x in self.signs.get(n.id, (-1, 0, 1)) if (x in yes) == val)
        return val

    def weak(self, a, b):
        """Whether a <= b, where either answer will do when they are equal."""
        n, s = self.oriented(a, b)
        left = self.signs.get(n.id, (-1, 0, 1))
        if s not in left:
            return True
        if -s not in left:
            return False
        return self.decide("le", a, b)

    def sign(self, e):
        """The sign of `e` if it was decided before (either, for zero)."""
        n, s = self.oriented(e, ZERO)
        left = self.signs.get(n.id, (-1, 0, 1))
        return 1 if -s not in left else -1 if s not in left else None

    def floor(self, rel, a, b):
        """Comparisons of something positive with a numerical floor such as 1e-30: the floor is inactive (see A.TINY)."""
        if rel not in ("lt", "le") or A.TINY[0] is None:
            return None
        for x, y, val in ((b, a, True), (a, b, False)):
            if y.op == "const" and 0 < y.args <= Fraction(1, 10**15) and x.op != "const":
                if A.TINY[0](x, y):
                    return val
        return None

    def concretise_int(self, e):
        if e.op == "const":
            if e.args.denominator == 1:
                return int(e.args)
            return int(e.args)  # truncation like int(float)
        key = ("int", e.id)
        if key in self.decided:
            return self.decided[key]
        self.job.tick()
        if not (e.op == "fn" and e.args[0] in ("ceil", "floor", "round")):
            # int() truncates
            if self.decide("le", ZERO, e):
                return self.concretise_int(X.fn("floor", e))
            return self.concretise_int(X.fn("ceil", e))
        i = len(self.trace)
        if i < len(self.prefix) and self.prefix[i][0] is not None:
            v = self.prefix[i][0]
            excl = self.prefix[i][1]
        else:
            excl = self.prefix[i][1] if i < len(self.prefix) else ()
            extra = [("ne", e, const(x)) for x in excl]
            r, m = S.run(self.z3cons(extra), "feasibility", 5000, model=True, logic=None)
            if r == "unsat":
                raise PathInfeasible()
            if r != "sat":
                raise nf.Inconclusive("could not enumerate the values of an integer quantity")
            tr = S.Z3Trans()
            z = m.eval(tr.tr(e), model_completion=True)
            v = int(Fraction(z.numerator_as_long(), z.denominator_as_long()))
            self.job.push(self.trace + [(None, tuple(excl) + (v,))])
        self.trace.append((v, excl))
        self.job.transitions += 1
        self.decided[key] = v
        a = e.args[1]
        if e.args[0] == "ceil":
            self.cons += [("le", a, const(v)), ("lt", const(v - 1), a)]
        elif e.args[0] == "floor":
            self.cons += [("le", const(v), a), ("lt", a, const(v + 1))]
        else:
            h = Fraction(1, 2)
            self.cons += [("le", const(v - h), a), ("le", a, const(v + h))]
        self.prover = None
        return v

    # -- points ---------------------------------------------------------------------------
    def pinned(self):
        """Values forced by conditions of the form variable == number."""
        out = {}
        for rel, a, b in self.cons:
            if rel == "eq":
                d = add(a, scale(b, -1))
                if d.op == "var":
                    out[d.args] = Fraction(0)
                elif d.op == "add" and len(d.args) == 2:
                    (t, k), (o, m) = d.args
                    if o.op == "var" and t.op == "const":
                        t, k, o, m = o, m, t, k
                    if t.op == "var" and o.op == "const":
                        out[t.args] = -m * o.args / k
        return out

    def generic(self, p):
        """No accidental coincidences among the values (the forced ones apart)."""
        pin = self.pinned()
        vs = [abs(p[k]) for k in self.names if k not in pin]
        free = len(vs)
        bad = sum(v in (0, 1) for v in vs) + (free - len(set(vs)) if free <= 40 else 0)
        bad += free * any(v != 0 and (v < Fraction(1, 1000) or v > 1000) for v in vs)  # ill-scaled
        return bad <= free // 4

    def points(self, n=3):
        pts, poor = [], []

        def take(p):
            if p not in pts and p not in poor:
                (pts if self.generic(p) else poor).append(dict(p))
            return len(pts) >= n

        for p, _, _ in self.live_points():
            if take(p):
                return pts
        for p in self.job.pool(self):
            if take(p):
                return pts
        for k in range(150):
            p = self.job.random_point(self)
            if self.point_ok(p):
                self.job.add_pool(p)
                if take(p):
                    return pts
            if k > 60 and not pts:
                break
        tries = 0
        while len(pts) < n and tries < 2 * n:
            tries += 1
            p = self.solver_point()
            if p is not None and self.point_ok(p):
                self.job.add_pool(p)
                take(p)
            elif not pts and tries >= 3:
                break
        small = [p for p in poor if self.scaled(p)]
        return (pts + (small or poor))[:n]

    def scaled(self, p):
        return all(v == 0 or Fraction(1, 10**6) <= abs(v) <= 10**6 for v in p.values())

    def solver_point(self):
        """A point on this path: random values where the solver allows them."""
        cs0 = self.z3cons()
        rng = self.job.rng
        # values of moderate size, away from the boundaries, if there are any
        pin = self.pinned()
        for margin in (Fraction(1, 16), Fraction(1, 256), None):
            cs = list(cs0)
            if margin is not None:
                tr = S.Z3Trans()
                for rel, a, b in self.cons:
                    if rel in ("lt", "ne"):
                        d = add(b, scale(a, -1))
                        if rel == "lt":
                            cs.append(S.rel_z3(tr, "le", const(margin), d))
                for n in self.names:
                    if n not in pin:
                        x = z3.Real(n)
                        cs += [x <= 16, x >= -16, z3.Or(x >= z3.Q(1, 16), x <= z3.Q(-1, 16))]
                cs += tr.all_axioms()
            v, m = S.run(cs, "point", 3000 if margin is not None else 5000, model=True)
            if v == "sat":
                break
        if v != "sat":
            return None
        names = list(self.names)
        rng.shuffle(names)
        base = None
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 1500)
        s.add(*cs)
        cand = self.job.random_point(self)
        for nme in names:
            for c in (cand[nme], self.job.random_value(self.names[nme])):
                s.push()
                s.add(z3.Real(nme) == z3.Q(c.numerator, c.denominator))
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
        try:
            return self.point_of(m)
        except SymError:
            return None

    def get_prover(self):
        if self.prover is None:
            def pts():
                p = self.points(3)
                if not p:
                    raise nf.Inconclusive("no sample point found on a path")
                return p
            self.prover = nf.Prover(list(self.cons), pts, timeout_ms=self.job.timeout_ms)
            self.prover.shared = self.job.uncond
        return self.prover

    def is_positive(self, e):
        p = self.get_prover()
        self.proving = True
        try:
            return p.positive(e)
        finally:
            self.proving = False

    # -- obligations ----------------------------------------------------------------------
    def eq(self, label, actual, expected):
        """`actual == expected` for all values on this path."""
        av = np.shape(actual)
        ev = np.shape(expected)
        if av != ev:
            self.fail(label, f"shape {av} instead of {ev}")
            return
        a, e = self._resolved(actual), self._resolved(expected)
        self.actual.setdefault(label, []).append(a)
        self.compared += [x for y in (a, e) for x in y.ravel()[:6]]
        self.job.obligations += a.size
        for i in np.ndindex(*a.shape):
            self._eq1(label, i, lift(a[i]), lift(e[i]))

    def _resolved(self, x):
        x = A.plain(A.sym(x))
        out = np.empty(x.shape, dtype=object)  # a copy: storage may be assigned in place
        for i in np.ndindex(*x.shape):
            out[i] = X.unroot(X.resolve(lift(x[i])))
        return out

    def _eq1(self, label, i, a, e):
        if self.job.violations and any(v["label"] == label for v in self.job.violations):
            return
        p = self.get_prover()
        d = add(a, scale(e, -1))
        if d.op == "const":
            # still a (trivial) query, so that the verdict is the solver's
            v, _ = S.run([z3.Q(d.args.numerator, d.args.denominator) != 0], "identity", 1000)
            if v == "unsat":
                self.job.discharged += 1
                return
            self.counterexample(label, i, a, e, [])
            return
        self.proving = True
        try:
            ok, bad = p.decide_zero(d)
        except nf.NFError as err:
            ok, bad = False, [(None, d)]
            self.notes.append(str(err))
        finally:
            self.proving = False
        if ok:
            self.job.discharged += 1
            return
        self.counterexample(label, i, a, e, bad)

    def counterexample(self, label, i, a, e, bad):
        """Find the point at which the discrepancy is largest; the solver confirms it."""
        pts = self.points(16)
        best, bd = None, 0
        for p in pts:
            try:
                m = {}
                va, ve = X.evaluate(a, p, m), X.evaluate(e, p, m)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            rel = abs(va - ve) / max(abs(va), abs(ve), mpmath.mpf(1) / 1000)
            if rel > mpmath.mpf(10) ** -9:
                if not (self.stable(a, p, va, 80) and self.stable(e, p, ve, 80)):
                    continue
                rel = min(rel, mpmath.mpf(1) / 2) if self.stable(a, p, va) and self.stable(e, p, ve) else rel / 10**6
            if rel > bd:
                best, bd = p, rel
        if best is None or bd < mpmath.mpf(10) ** -9:
            # nothing visible at the sample points: ask for a model of a failing coefficient
            for k, c in bad[:4]:
                tr = S.Z3Trans()
                try:
                    z = tr.tr(c) != 0
                except SymError:
                    continue
                v, m = S.run([z] + self.z3cons() + tr.all_axioms(), "refute", 20000, model=True)
                if v == "sat":
                    try:
                        best = self.point_of(m)
                    except SymError:
                        continue
                    break
            else:
                self.job.inconclusive(self, f"{label}{list(i)}: could neither be proved nor refuted: {str(a)[:300]} vs {str(e)[:300]}")
                return
        # confirmation: the negated property is satisfiable with these values
        pin = [z3.Real(n) == z3.Q(v.numerator, v.denominator) for n, v in best.items() if n in self.names]
        conf = "unknown"
        for k, c in (bad or [(None, add(a, scale(e, -1)))])[:6]:
            tr = S.Z3Trans()
            try:
                z = tr.tr(c) != 0
            except SymError:
                continue
            conf, _ = S.run(pin + [z] + tr.all_axioms() + S.PI_AX, "counterexample", 5000)
            if conf == "sat":
                break
        self.job.violation(self, label, best, f"entry {list(i)}: discrepancy {mpmath.nstr(bd, 4)}; solver: {conf}")

    @staticmethod
    def stable(e, p, v, dps=16):
        """Does double (or another) precision suffice to evaluate `e` there?"""
        try:
            w = X.evaluate(e, p, {}, dps=dps, noise=mpmath.mpf(10) ** (-16 if dps <= 16 else -20))
        except (ValueError, ZeroDivisionError, OverflowError):
            return False
        return abs(w - v) <= mpmath.mpf(10) ** -8 * max(abs(v), mpmath.mpf(10) ** -3)

    def true(self, label, cond):
        """`cond` (already decided on this path) has to hold."""
        if isinstance(cond, np.ndarray):
            cond = all(bool(x) for x in cond.ravel())
        cond = bool(cond)
        self.job.obligations += 1
        if cond:
            self.job.discharged += 1
        else:
            self.fail(label, "condition does not hold", counted=True)

    def never(self, label, rel, a, b):
        """`a rel b` has to be unsatisfiable on this path (without forking on it)."""
        a, b = X.resolve(A.el(a)), X.resolve(A.el(b))
        self.job.obligations += 1
        v, m = S.run(self.z3cons([(rel, a, b)]), "entailment", self.job.timeout_ms, model=True)
        if v == "unsat":
            self.job.discharged += 1
            return
        for p in self.points(16):
            if self.holds_at((rel, a, b), p):
                self.job.violation(self, label, p, f"{rel} holds")
                return
        if v == "sat":
            p = self.reach((rel, a, b), m)
            try:
                self.job.violation(self, label, p if p is not None else self.point_of(m), f"{rel} holds")
                return
            except SymError:
                pass
        self.job.inconclusive(self, f"{label}: {v}")

    def reach(self, con, m):
        """A point at which `con` holds: the solver's model does not have to respect the transcendental functions, so look for one
        further away from the origin than usual."""
        rng = self.job.rng
        base = self.points(4)
        try:
            base.append(self.point_of(m))
        except SymError:
            pass
        base = [p for p in base if all(n in p for n in self.names)]
        spans = [Fraction(x) for x in (4, 16, 64, 256, Fraction(1, 16), Fraction(1, 256), Fraction(1, 4096))]

        def stretched(p, names, f):
            q = dict(p)
            for n in names:
                q[n] = p[n] * f() if p[n] else f()
            return q

        t0 = time.time()
        for p in base:
            for n in self.names:
                for f in spans:
                    for sg in (1, -1):
                        if time.time() - t0 > 20:
                            return None
                        q = stretched(p, [n], lambda: sg * f)
                        if self.holds_at(con, q) and self.point_ok(q):
                            return q
            for _ in range(100):
                if time.time() - t0 > 20:
                    return None
                q = stretched(p, self.names, lambda: rng.choice([1, 1, -1]) * rng.choice(spans + [1, 1, 1]))
                if self.holds_at(con, q) and self.point_ok(q):
                    return q
        return None

    def always(self, label, rel, a, b):
        n = norm_rel(rel, A.el(a), A.el(b), False)
        self.never(label, *n)

    def fail(self, label, why, counted=False):
        if not counted:
            self.job.obligations += 1
        pts = self.points(1)
        if not pts:
            v, m = S.run(self.z3cons(), "refute", 10000, model=True)
            if v == "unsat":
                raise PathInfeasible()
            if v == "sat":
                try:
                    pts = [self.point_of(m)]
                except SymError:
                    pts = []
        if not pts:
            self.job.inconclusive(self, f"{label}: {why} on a path of unknown feasibility")
            return
        self.job.violation(self, label, pts[0], why)

    def raises(self, label, exc, f):
        """`f()` has to raise `exc`."""
        self.job.obligations += 1
        try:
            f()
        except exc:
            self.job.discharged += 1
            return
        except SymError:
            raise
        except Exception as e:
            if isinstance(e, nf.Inconclusive):
                raise
            self.fail(label, f"raised {type(e).__name__}: {e}"[:200], counted=True)
            return
        self.fail(label, f"did not raise {exc}", counted=True)

    def note(self, text):
        self.job.assumption(text)


class ConcCtx(Ctx):
    """Concrete replay of a harness on the real code."""

    def __init__(self, cfg, point, tol=1e-6):
        super().__init__(cfg)
        self.point = point
        self.failures = []
        self.actual = {}
        self.checked = 0
        self.tol = tol
        self.fresh_i = {}

    def raw(self, name, lo=None, hi=None, positive=False):
        if name not in self.point:
            # values the symbolic path never drew
            return 1.0 if positive else 0.25
        return float(self.point[name])

    def raw_const(self, v):
        return float(v)

    def real(self, name, lo=None, hi=None, positive=False, kind="tensor"):
        v = self.raw(name, lo, hi, positive)
        return v if kind == "num" else np.float64(v) if kind != "tensor" else self.out(np.array(v))

    def fresh(self, stem, **kw):
        i = self.fresh_i.setdefault(stem, 0)
        self.fresh_i[stem] = i + 1
        return self.raw(f"{stem}!{i}", **kw)

    @staticmethod
    def out(x):
        from . import patch
        if patch.JAX[0]:
            import jax.numpy as jnp
            return jnp.asarray(x)
        return x

    def pack(self, arr):
        return self.give(self.out(arr.astype(float)))

    def const(self, v, kind="tensor"):
        return v if kind == "num" else self.out(np.asarray(v, dtype=float))

    def stack(self, xs):
        return self.give(self.out(np.array([float(x) for x in xs])))

    def assume(self, rel, a, b):
        a, b = float(a), float(b)
        ok = {"lt": a < b, "le": a <= b + 1e-12, "eq": abs(a - b) <= 1e-9 * max(1, abs(a)), "ne": a != b}[rel]
        if not ok:
            raise PathInfeasible()

    def erf(self, x):
        from scipy.special import erf
        return self.out(erf(np.asarray(x, dtype=float)))

    def bvn(self, x, y, r):
        return np.array(float(X._bvn(mpmath.mpf(float(x)), mpmath.mpf(float(y)), mpmath.mpf(float(r)))))

    def cos2pi(self, j, n):
        return self.out(np.array(np.cos(2 * np.pi * (j % n) / n)))

    def eq(self, label, actual, expected):
        self.checked += 1
        if np.shape(actual) != np.shape(expected):
            self.failures.append((label, f"shape {np.shape(actual)} instead of {np.shape(expected)}"))
            return
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.dtype == object or e.dtype == object:
            a, e = a.astype(float), e.astype(float)
        self.actual.setdefault(label, []).append(np.array(a))  # a copy: storage may be assigned in place
        sc = np.maximum(np.maximum(np.abs(a), np.abs(e)), 1e-3)
        if a.size:
            err = np.abs(a - e) / sc
            m = np.max(np.where(np.isnan(err), np.inf, err))
            if not m <= self.tol:
                k = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
                self.failures.append((label, f"{a.ravel()[k]!r} instead of {e.ravel()[k]!r}"))

    def true(self, label, cond):
        self.checked += 1
        if not bool(np.all(cond)):
            self.failures.append((label, "condition does not hold"))

    def never(self, label, rel, a, b):
        self.checked += 1
        a, b = float(a), float(b)
        if {"lt": a < b - 1e-9, "le": a <= b, "eq": a == b, "ne": abs(a - b) > 1e-9 * max(1, abs(a))}[rel]:
            self.failures.append((label, f"{a!r} {rel} {b!r}"))

    def always(self, label, rel, a, b):
        self.checked += 1
        a, b = float(a), float(b)
        if not {"lt": a < b, "le": a <= b + 1e-9 * max(1, abs(a)), "eq": abs(a - b) <= 1e-9 * max(1, abs(a)),
                "ne": a != b}[rel]:
            self.failures.append((label, f"not {a!r} {rel} {b!r}"))

    def fail(self, label, why, counted=False):
        self.checked += 1
        self.failures.append((label, why))

    def raises(self, label, exc, f):
        self.checked += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            self.failures.append((label, f"raised {type(e).__name__}: {e}"[:200]))
            return
        self.failures.append((label, f"did not raise {exc}"))

    def note(self, text):
        pass


class Job:
    """Exploration of one harness in one configuration."""

    def __init__(self, prop, harness, cfg, seed=1, timeout_ms=20000, max_paths=2000, max_seconds=400):
        self.prop, self.harness, self.cfg = prop, harness, cfg
        self.rng = random.Random(f"{seed}/{prop}/{harness.name}/{sorted(cfg.items(), key=str)}")
        self.seed = seed
        self.stack = [[]]
        self.wide = ()  # variables of the current path
        self.timeout_ms = timeout_ms
        self.max_paths, self.max_seconds = max_paths, max_seconds
        self.paths = self.transitions = self.obligations = self.discharged = self.infeasible = 0
        self.violations, self.inconclusives, self.assumptions = [], [], []
        self.uncond = {}
        self.fresh = {}
        self.pool_pts = []
        self.model_pts = []
        self.witness = None
        self.validated = 0
        self.validation_errors = []

    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        if time.time() - self.t0 > self.max_seconds:
            raise BudgetExceeded()

    def assumption(self, t):
        if t not in self.assumptions:
            self.assumptions.append(t)

    # -- sample points --------------------------------------------------------------------
    def random_value(self, spec):
        v = self.coarse_value(spec)
        if len(self.wide) > 400 and spec[0] is None and spec[1] is None:
            v += Fraction(self.rng.randint(1, 2**30), 2**37)  # many values: keep them apart
        return v

    def coarse_value(self, spec):
        lo, hi, positive = spec
        rng = self.rng
        if lo is not None and hi is not None:
            lo, hi = Fraction(lo), Fraction(hi)
            k = rng.randint(1, 63)
            return lo + (hi - lo) * Fraction(k, 64)
        if positive or (lo is not None and lo >= 0):
            base = Fraction(lo) if lo is not None else Fraction(0)
            v = base + Fraction(rng.randint(16, 127), 64)
            if hi is not None:
                v = base + (Fraction(hi) - base) * Fraction(rng.randint(1, 63), 64)
            return v
        v = Fraction(rng.randint(-127, 127), 64)
        if v == 0:
            v = Fraction(1, 2)
        if lo is not None:
            v = Fraction(lo) + abs(v)
        if hi is not None and v > hi:
            v = Fraction(hi) - abs(v)
        return v

    def random_point(self, ctx):
        p = {n: self.random_value(s) for n, s in ctx.names.items()}
        p.update((n, v) for n, v in ctx.pinned().items() if n in p)
        return p

    def pool(self, ctx):
        """Points that satisfy the constraints so far (extended for new variables)."""
        out = []
        for p in self.pool_pts:
            for n, s in ctx.names.items():
                if n not in p:
                    p[n] = self.random_value(s)
            if ctx.point_ok(p):
                out.append(p)
        if len(out) < 4 and len(self.pool_pts) < 400:
            for _ in range(6):
                p = self.random_point(ctx)
                if ctx.point_ok(p):
                    out.append(p)
                    self.pool_pts.append(p)
        return out

    def add_pool(self, p):
        if len(self.pool_pts) < 600:
            self.pool_pts.append(p)

    # -- results ----------------------------------------------------------------------------
    def inconclusive(self, ctx, why):
        if len(self.inconclusives) < 50:
            pts = []
            try:
                pts = ctx.points(1)
            except BaseException:
                pass
            self.inconclusives.append((why, pts[0] if pts else None))

    def violation(self, ctx, label, point, why):
        if len(self.violations) < 30:
            self.violations.append({"label": label, "point": dict(point), "why": why})

    # -- run -----------------------------------------------------------------------------------
    def run(self):
        from . import patch
        self.t0 = time.time()
        exhausted = None
        while self.stack:
            if self.paths >= self.max_paths or time.time() - self.t0 > self.max_seconds:
                exhausted = f"budget: {self.paths} paths, {time.time() - self.t0:.0f} s, {len(self.stack)} open"
                break
            if len(self.violations) >= 6:
                break
            prefix = self.stack.pop()
            ctx = SymCtx(self.cfg, self, prefix)
            self.wide = ctx.names
            patch.enter(ctx)
            X.HOOKS.lazy = self.harness.lazy
            err = None
            before = self.obligations, self.discharged
            try:
                self.harness.fn(ctx, **self.cfg)
                ctx.finish()
            except PathInfeasible:
                self.infeasible += 1
                self.obligations, self.discharged = before
                continue
            except BudgetExceeded:
                exhausted = f"time budget of {self.max_seconds} s"
                break
            except CheckFailed:
                pass
            except nf.Inconclusive as e:
                err = ("inconclusive", e)
            except SymError as e:
                err = ("engine", e)
            except RecursionError as e:
                err = ("engine", e)
            except Exception as e:
                err = ("raised", e)
            finally:
                patch.leave()
            self.paths += 1
            if err is not None:
                kind, e = err
                tb = "".join(traceback.format_exception(e))[-1500:]
                self.failed_path(ctx, kind, e, tb)
                continue
            self.after_path(ctx)
        if exhausted:
            self.inconclusives.append((exhausted, None))
        if self.paths == 0 or self.witness is None:
            if not self.violations and not self.inconclusives:
                self.inconclusives.append(("vacuous: no path reached the assertions", None))
        if self.obligations == 0 and not self.inconclusives:
            self.inconclusives.append(("vacuous: no obligation", None))
        if self.obligations != self.discharged and not self.violations and not self.inconclusives:
            self.inconclusives.append((f"{self.discharged} of {self.obligations} obligations discharged", None))
        self.wall = time.time() - self.t0
        return self

    def failed_path(self, ctx, kind, e, tb):
        patch_pts = []
        try:
            patch_pts = ctx.points(1)
        except BaseException:
            pass
        if not patch_pts:
            v, m = S.run(ctx.z3cons(), "refute", 10000, model=True)
            if v == "unsat":
                self.infeasible += 1
                self.paths -= 1
                return
        msg = f"{kind}: {type(e).__name__}: {e}"[:300]
        if kind == "raised" and patch_pts:
            self.violations.append({"label": "exception", "point": dict(patch_pts[0]), "why": msg, "tb": tb})
        else:
            self.inconclusives.append((msg + "\n" + tb, patch_pts[0] if patch_pts else None))

    def after_path(self, ctx):
        # reachability witness: `assert False` at the end of this path is violated
        if self.witness is None:
            pts = ctx.points(1)
            if pts:
                p = pts[0]
                pin = [z3.Real(n) == z3.Q(v.numerator, v.denominator) for n, v in p.items() if n in ctx.names]
                v, _ = S.run(ctx.z3cons() + pin, "reachability", 10000)
                if v == "unsat":  # on paths with equations a rational point can only be near
                    v, _ = S.run(ctx.z3cons(), "reachability", 10000)
                if v == "unsat":
                    self.inconclusives.append(("the witness of reachability was refuted", None))
                else:
                    self.witness = {n: str(v) for n, v in p.items() if n in ctx.names}
        if self.validated < self.harness.validate and not self.violations:
            for p in ctx.points(6):
                if self.well_conditioned(ctx, p):
                    self.validate(ctx, p)
                    if self.validated or self.violations:
                        break

    def well_conditioned(self, ctx, p):
        m = {}
        for e in ctx.compared[:60]:
            try:
                e = lift(e)
                if not ctx.stable(e, p, X.evaluate(e, p, m)):
                    return False
            except (ValueError, ZeroDivisionError, OverflowError, KeyError):
                return False
        return True

    def validate(self, ctx, p):
        """Push a point of this path through the real code and compare with the encoding."""
        cc = concrete(self.harness, self.cfg, p)
        if cc.skipped or any(l == "exception" and w.startswith(("LinAlgError", "OverflowError", "FloatingPointError")) for l, w in cc.failures):
            return  # rounding gets in the way at this point
        self.validated += 1
        if cc.failures:
            self.violations.append({"label": cc.failures[0][0], "point": dict(p),
                                    "why": "real code at a solver point of the path: " + cc.failures[0][1]})
            return
        for label, arrs in ctx.actual.items():
            others = cc.actual.get(label, [])
            if len(others) != len(arrs):
                continue
            for a, o in zip(arrs, others):
                for i in list(np.ndindex(*a.shape))[:12]:
                    try:
                        v = X.evaluate(lift(a[i]), p, {})
                    except (KeyError, ValueError, ZeroDivisionError):
                        continue
                    w = float(o[i])
                    if abs(float(v) - w) > 1e-6 * max(abs(w), 1e-3):
                        self.validation_errors.append(f"{label}{list(i)}: encoding {float(v)!r}, real code {w!r}")


def concrete(harness, cfg, point, tol=None):
    from . import patch
    ctx = ConcCtx(cfg, point, tol=tol or harness.tol)
    ctx.skipped = False
    patch.enter_concrete(ctx)
    try:
        harness.fn(ctx, **cfg)
        ctx.finish()
    except PathInfeasible:
        ctx.skipped = True
    except CheckFailed:
        pass
    except Exception as e:
        ctx.failures.append(("exception", f"{type(e).__name__}: {e}"[:300] + "\n" + traceback.format_exc()[-1200:]))
    finally:
        patch.leave()
    return ctx


class WarmCtx(ConcCtx):
    """Other values than those of the check."""

    def __init__(self, cfg, salt, tol):
        super().__init__(cfg, {}, tol)
        self.salt = salt

    def raw(self, name, lo=None, hi=None, positive=False):
        u = zlib.crc32(f"{self.salt}/{name}".encode()) % 4093 / 4093
        if lo is not None and hi is not None:
            return float(lo) + (float(hi) - float(lo)) * (0.1 + 0.8 * u)
        if positive or lo is not None:
            return float(lo or 0) + 0.3 + 1.4 * u
        if hi is not None:
            return float(hi) - 0.3 - 1.4 * u
        return (0.2 + 1.5 * u) * (1 if zlib.crc32(name.encode()) // 7 % 2 else -1)


def warm(harness, cfg, seconds=15):
    """One execution of the real code with other values: whatever it keeps must not have an influence on later executions."""
    import signal
    from . import patch

    class Late(BaseException):
        pass

    def late(*a):
        raise Late()

    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        for salt in range(3):
            ctx = WarmCtx(cfg, salt, harness.tol)
            ctx.skipped = False
            patch.enter_concrete(ctx)
            try:
                harness.fn(ctx, **cfg)
                return True
            except PathInfeasible:
                continue
            except CheckFailed:
                return True
            except Exception:
                continue
            finally:
                patch.leave()
    except Late:
        pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return False


class Harness:
    def __init__(self, fn, quick, thorough=None, name=None, validate=1, tol=1e-6, bounds="", timeout_ms=20000,
                 max_paths=4000, max_seconds=400, lazy=False):
        self.lazy = lazy
        self.fn, self.name = fn, name or fn.__name__
        self.quick, self.thorough = quick, thorough
        self.validate, self.tol, self.bounds = validate, tol, bounds
        self.timeout_ms, self.max_paths, self.max_seconds = timeout_ms, max_paths, max_seconds

    def configs(self, tier):
        if tier == "thorough" and self.thorough is not None:
            return list(self.quick) + [c for c in self.thorough if c not in self.quick]
        return list(self.quick)
