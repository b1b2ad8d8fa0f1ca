"""Translation to Z3 and the queries, with accounting."""
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import expr as X  # noqa: E402
from .expr import E, add, mul, scale, power, const, ZERO, ONE, SymError  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.by_kind = {}

    def note(self, kind, verdict, dt):
        self.queries += 1
        self.time += dt
        setattr(self, verdict, getattr(self, verdict) + 1)
        k = self.by_kind.setdefault(kind, {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time_s": 0.0})
        k["queries"] += 1
        k[verdict] += 1
        k["time_s"] += dt


STATS = Stats()


# -- fractions: numerator (as a DAG) over a product of denominators --------------------------
class FracMemo:
    def __init__(self):
        self.m = {}


def numden(e, memo):
    """e rational (const, var, add, mul with integer powers): returns (num E-DAG in z3-neutral
    form, dict factor -> power). Numerators are kept factored: they are built as E nodes, whose
    canonical form merges only identical sub-expressions, so the expansion is left to Z3."""
    r = memo.get(e.id)
    if r is not None:
        return r
    if e.op in ("const", "var"):
        r = (e, {})
    elif e.op == "mul":
        num, den = ONE, {}
        for t, k in e.args:
            if k.denominator != 1:
                raise SymError("fractional power in a rational coefficient")
            k = int(k)
            n, d = numden(t, memo)
            if k > 0:
                num = mul(num, power(n, k))
                for f, p in d.items():
                    den[f] = den.get(f, 0) + p * k
            else:
                for f, p in d.items():
                    num = mul(num, power(f, p * -k))
                for f, p in _factors(n):
                    if f.op == "const":
                        num = mul(num, power(f, k * p))
                    else:
                        den[f] = den.get(f, 0) + p * -k
        r = (num, den)
        r = _cancel(r)
    elif e.op == "add":
        parts = [(c, *numden(t, memo)) for t, c in e.args]
        lcm = {}
        for _, _, d in parts:
            for f, p in d.items():
                if lcm.get(f, 0) < p:
                    lcm[f] = p
        terms = []
        for c, n, d in parts:
            extra = [power(f, p - d.get(f, 0)) for f, p in lcm.items() if p > d.get(f, 0)]
            terms.append(scale(mul(n, *extra), c))
        r = (add(*terms), lcm)
    else:
        raise SymError(f"not rational: {e.op} {e.args[0]}")
    memo[e.id] = r
    return r


def _factors(n):
    """n = const * prod g_i^k_i with sums normalised to leading coefficient one."""
    out = []
    for t, k in n.args if n.op == "mul" else ((n, 1),):
        k = int(k)
        if t.op == "add":
            lead = t.args[0][1]
            if lead != 1:
                out.append((const(lead**k), 1))
                t = scale(t, 1 / lead)
                if t.op == "mul":
                    out.extend((a, int(b) * k) for a, b in t.args)
                    continue
        out.append((t, k))
    return out


def _cancel(nd):
    num, den = nd
    if not den or num.op == "const":
        return nd
    fs, c = {}, Fraction(1)
    for t, k in _factors(num):
        if t.op == "const":
            c *= t.args**k
        else:
            fs[t] = fs.get(t, 0) + k
    common = [f for f in den if fs.get(f, 0) > 0]
    if not common:
        return nd
    den = dict(den)
    for f in common:
        m = min(fs[f], den[f])
        fs[f] -= m
        den[f] -= m
        if den[f] == 0:
            del den[f]
    return (X._finish_mul({t: Fraction(k) for t, k in fs.items() if k}, c), den)


# -- E -> z3 ----------------------------------------------------------------------------------
class Z3Trans:
    """Translates expressions; atoms (functions, roots, inverses) become fresh reals with axioms."""

    def __init__(self):
        self.memo = {}
        self.axioms = {}  # id -> list of z3 constraints
        self.deps = {}
        self.inv_ok = []

    def poly(self, e):
        """Polynomial E (non-negative integer powers) to z3."""
        return self.tr(e)

    def tr(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            e = stack[-1]
            if e.id in memo:
                stack.pop()
                continue
            if e.op == "const":
                memo[e.id] = z3.Q(e.args.numerator, e.args.denominator)
                stack.pop()
                continue
            if e.op == "var":
                memo[e.id] = z3.Real(e.args)
                stack.pop()
                continue
            ch = [t for t, _ in e.args] if e.op in ("add", "mul") else list(e.args[1:])
            todo = [t for t in ch if t.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            if e.op == "add":
                parts = []
                for t, c in e.args:
                    z = memo[t.id]
                    parts.append(z if c == 1 else z3.Q(c.numerator, c.denominator) * z)
                memo[e.id] = z3.Sum(parts) if len(parts) > 1 else parts[0]
            elif e.op == "mul":
                parts, inv = [], []
                for t, k in e.args:
                    z = memo[t.id]
                    if k.denominator == 1:
                        if k > 0:
                            parts.extend([z] * int(k))
                        else:
                            i = self._inv(t, z)
                            parts.extend([i] * int(-k))
                    else:
                        s = self._root(t, z, k.denominator)
                        if k > 0:
                            parts.extend([s] * k.numerator)
                        else:
                            i = z3.Real(f"rinv!{t.id}_{k.denominator}")
                            self.axioms.setdefault(("ri", t.id, k.denominator), [i * s == 1, i > 0])
                            parts.extend([i] * -k.numerator)
                memo[e.id] = z3.Product(parts) if len(parts) > 1 else parts[0]
            else:
                memo[e.id] = self._fn(e, [memo[t.id] for t in e.args[1:]])
            stack.pop()
        return memo[root.id]

    def _inv(self, t, z):
        if t.op == "const":
            return z3.Q(t.args.denominator, t.args.numerator)
        i = z3.Real(f"inv!{t.id}")
        self.axioms.setdefault(("i", t.id), [i * z == 1])
        return i

    def _root(self, t, z, q):
        s = z3.Real(f"root!{t.id}_{q}")
        self.axioms.setdefault(("r", t.id, q), [z3.Product([s] * q) == z, s >= 0])
        return s

    def _fn(self, e, a):
        f = e.args[0]
        v = z3.Real(f"{f}!{e.id}")
        ax = []
        if f == "exp":
            ax = [v > 0, v >= 1 + a[0], z3.Implies(a[0] > 0, v > 1), z3.Implies(a[0] < 0, v < 1)]
        elif f in ("sin", "cos"):
            ax = [v >= -1, v <= 1]
        elif f == "erf":
            ax = [v > -1, v < 1, z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0)]
        elif f == "bvn":
            ax = [v > 0, v < 1]
        elif f == "log":
            ax = [z3.Implies(a[0] > 1, v > 0), z3.Implies(a[0] < 1, v < 0), v <= a[0] - 1]
        elif f == "ceil":
            ax = [v >= a[0], v < a[0] + 1, v == z3.ToReal(z3.ToInt(v))]
        elif f == "floor":
            ax = [v <= a[0], v > a[0] - 1, v == z3.ToReal(z3.ToInt(v))]
        elif f in ("float32", "float16"):  # monotone rounding: signs are kept
            ax = [z3.Implies(a[0] >= 0, v >= 0), z3.Implies(a[0] <= 0, v <= 0)]
        self.axioms.setdefault(("f", e.id), ax)
        return v

    def all_axioms(self):
        return [a for l in self.axioms.values() for a in l]


PI_AX = [z3.Real("pi") > z3.Q(314159265, 10**8), z3.Real("pi") < z3.Q(314159266, 10**8)]


def rel_z3(tr, rel, a, b):
    # `a rel b` with denominators left as axioms
    d = add(a, scale(b, -1))
    z = tr.tr(d)
    return {"lt": z < 0, "le": z <= 0, "eq": z == 0, "ne": z != 0}[rel]


def run(constraints, kind, timeout_ms=10000, model=False, logic="QF_NRA", seed=0):
    """Check satisfiability of a list of z3 constraints."""
    t0 = time.time()
    if logic:
        s = z3.SolverFor(logic)
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for c in constraints:
        s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception as e:  # pragma: no cover
        STATS.note(kind, "unknown", time.time() - t0)
        return "unknown", None
    v = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
    STATS.note(kind, v, time.time() - t0)
    if v == "sat" and model:
        return v, s.model()
    return v, None


def model_value(m, name):
    v = m.eval(z3.Real(name), model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise SymError(f"model value {v}")
