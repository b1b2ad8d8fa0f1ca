"""Deciding equalities of expressions.

An expression is brought into the form  sum_k coef_k * atoms_k  where every coefficient is a
rational expression of the base variables and every key is a product of roots, exponentials,
trigonometric functions and other function atoms. Two atoms are identified only when Z3 has
shown that their arguments agree for all values (candidates are guessed numerically). The
equality is then decided by Z3 on every coefficient: `coef != 0` has to be unsatisfiable.
"""
import itertools
from fractions import Fraction
import mpmath

from . import expr as X
from . import solver as S
from .expr import E, add, mul, scale, power, const, fn, ZERO, ONE, PI, SymError
from .solver import z3


class Inconclusive(Exception):
    pass


class NFError(SymError):
    pass


EMPTY = ((), None, None)  # (atoms, exp argument, trig)


def is_rational(e, memo):
    r = memo.get(e.id)
    if r is None:
        if e.op in ("const", "var"):
            r = True
        elif e.op == "add":
            r = all(is_rational(t, memo) for t, _ in e.args)
        elif e.op == "mul":
            r = all(k.denominator == 1 and is_rational(t, memo) for t, k in e.args)
        else:
            r = False
        memo[e.id] = r
    return r


class Prover:
    """Proves facts that hold for all values of the base variables satisfying `assumptions`.

    assumptions: list of (rel, a, b) with expressions a, b.
    points: callable returning a list of sample environments satisfying the assumptions.
    """

    def __init__(self, assumptions, points, timeout_ms=20000, hints=()):
        self.assumptions = assumptions
        self._points = points
        self.timeout = timeout_ms
        self.evm = None
        self.ratmemo = {}
        self.fracmemo = {}
        self.nfmemo = {}
        self.zero_cache = {}
        self.pos_cache = {}
        self.classes = {"arg": {}, "odd": {}}
        self.bases = []
        self.hints = list(hints)
        self.wholes = {}
        self.notes = set()
        self.shared = {}

    # -- numbers -----------------------------------------------------------------------
    @property
    def points(self):
        if self.evm is None:
            self.pts = self._points()
            self.evm = [dict() for _ in self.pts]
        return self.pts

    def val(self, e):
        """Values at the sample points (list)."""
        pts = self.points
        return [X.evaluate(e, p, m) for p, m in zip(pts, self.evm)]

    def approx_zero(self, e, ref=None):
        for v, s in zip(self.val(e), self.scale_of(e)):
            if abs(v) > mpmath.mpf(10) ** -22 * max(1, s) and abs(v) > mpmath.mpf(10) ** -22 * s:
                return False
        return True

    def scale_of(self, e):
        """Size of the terms that make up a sum, to judge cancellation."""
        if e.op == "add":
            out = []
            parts = [(self.val(t), c) for t, c in e.args]
            for i in range(len(self.points)):
                out.append(max(abs(v[i] * c.numerator / c.denominator) for v, c in parts))
            return out
        return [abs(v) for v in self.val(e)]

    # -- rational facts ----------------------------------------------------------------
    def rational(self, e):
        return is_rational(e, self.ratmemo)

    def assumption_z3(self, tr, only_vars=None):
        out = []
        for rel, a, b in self.assumptions:
            if only_vars is not None:
                vs = X.variables([a, b])
                if not set(vs) <= only_vars:
                    continue
            out.append(S.rel_z3(tr, rel, a, b))
        return out

    def rational_zero(self, e, kind="identity"):
        """True if proved `e == 0`; False if refuted or not proved."""
        if e is ZERO:
            return True
        r = self.zero_cache.get(e.id)
        if r is not None:
            return r
        if e.id in self.shared:
            return True
        num, den = S.numden(e, self.fracmemo)
        tr = S.Z3Trans()
        v, _ = S.run([tr.tr(num) != 0], kind, self.timeout)
        if v == "unsat":
            self.shared[e.id] = True
        if v != "unsat":
            # not an identity of the field: use the assumptions
            tr = S.Z3Trans()
            z = tr.tr(num) != 0
            vs = set(X.variables([num]))
            vs = self._closure(vs)
            cs = [z] + self.assumption_z3(tr, vs) + [tr.tr(f) != 0 for f in den]
            v, _ = S.run(cs + tr.all_axioms() + S.PI_AX, kind + "+assumptions", self.timeout)
        self.zero_cache[e.id] = v == "unsat"
        return v == "unsat"

    def _closure(self, vs):
        vs = set(vs) | {"pi"}
        sets = [set(X.variables([a, b])) for _, a, b in self.assumptions]
        changed = True
        while changed:
            changed = False
            for s in sets:
                if s & (vs - {"pi"}) and not s <= vs:
                    vs |= s
                    changed = True
        return vs

    def positive(self, e):
        """Proved e > 0?"""
        if X.is_known_positive(e):
            return True
        r = self.pos_cache.get(e.id)
        if r is None:
            r = False
            if all(v > 0 for v in self.val(e)):
                if e.op == "mul" and all(self.positive(t) for t, k in e.args):
                    r = True
                else:
                    v = None
                    sp = self._split(e) if e.op == "add" else None
                    if sp and sum(f.op != "const" for f, p in sp) == 1 and all(p == 1 for f, p in sp):
                        sp = None  # nothing was gained
                    if sp:
                        ok, sg = True, 1
                        for f, p in sp:
                            neg = self.val(f)[0] < 0
                            if not self.positive(scale(f, -1) if neg else f):
                                ok = False
                                break
                            if neg and p % 2:
                                sg = -sg
                        if ok:
                            r = sg > 0
                            v = "done"
                    if v is None and self.rational(e):
                        num, den = S.numden(e, self.fracmemo)
                        parts = [num] + [f for f, p in den.items() if p % 2]
                        if len(parts) > 1:
                            signs = []
                            for q in parts:
                                v0 = self.val(q)[0]
                                q = q if v0 > 0 else scale(q, -1)
                                signs.append(self._pos_query(q))
                            r = all(signs)
                            v = "done"
                    if v is None:
                        r = self._pos_query(e)
            self.pos_cache[e.id] = r
        return r

    def _pos_query(self, e):
        if X.is_known_positive(e):
            return True
        for cl in (set(X.variables([e])) | {"pi"}, None):
            tr = S.Z3Trans()
            z = tr.tr(e) <= 0
            vs = cl if cl is not None else self._closure(set(X.variables([e])))
            cs = [z] + self.assumption_z3(tr, vs)
            v, _ = S.run(cs + tr.all_axioms() + S.PI_AX, "positivity", min(self.timeout, 5000))
            if v == "unsat":
                return True
        return False

    # -- equality by classes ------------------------------------------------------------
    def _bucket(self, v):
        return mpmath.nstr(v, 15)

    def _lead(self, vals):
        """A value that tells expressions apart: the first one that is not zero."""
        return next(((i, w) for i, w in enumerate(vals) if abs(w) > mpmath.mpf(10) ** -25), (0, mpmath.mpf(0)))

    def _candidates(self, i, v):
        """Representatives with (nearly) that leading value."""
        tab = self.classes["arg"]
        tiny = mpmath.mpf(10) ** -20
        out = []
        for b in dict.fromkeys(self._bucket(w) for w in (v, v * (1 + tiny), v * (1 - tiny))):
            out += tab.get((i, b), [])
        return out

    def classify(self, e):
        """Representative of expressions equal to `e` for all values."""
        if e.op == "const":
            return e
        v = self.val(e)
        i, v0 = self._lead(v)
        tab = self._candidates(i, v0)
        for r in tab:
            if r is e:
                return r
        if v0 == 0 and self.zero(e):
            return ZERO
        for r in tab:
            if self.equal(e, r):
                return r
        self.classes["arg"].setdefault((i, self._bucket(v0)), []).append(e)
        return e

    def classify_odd(self, e):
        """(sign, representative) up to sign."""
        if e.op == "const":
            return (1, e) if e.args >= 0 else (-1, scale(e, -1))
        v = next((w for w in self.val(e) if abs(w) > mpmath.mpf(10) ** -25), mpmath.mpf(0))
        if abs(v) < mpmath.mpf(10) ** -25 and self.zero(e):
            return 1, ZERO
        if v < 0:
            return -1, self.classify(scale(e, -1))
        return 1, self.classify(e)

    def base(self, b, k):
        """b ** k for rational b > 0 in terms of known bases: (rational factor, {base: exponent})."""
        # exact squares and known bases, up to rational factors (and powers of pi)
        vb = self.val(b)
        for r in self.bases:
            if r is b:
                return ONE, {r: k}
        cand = list(self.bases)
        tries = []
        for r in cand:
            tries.append([(r, 1)])
            tries.append([(r, -1)])
        for h in self.hints:
            tries.append([(h, 2)])
        for r in cand:
            tries.append([(r, 2)])
        for r, s in itertools.combinations(cand, 2):
            for a_, b_ in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                tries.append([(r, a_), (s, b_)])
        for t in tries[:400]:
            vr = [mpmath.mpf(1)] * len(vb)
            for r, p in t:
                vr = [x * y**p for x, y in zip(vr, self.val(r))]
            ratio = [x / y for x, y in zip(vb, vr)]
            if any(abs(ratio[0] - q) > mpmath.mpf(10) ** -22 * abs(ratio[0]) for q in ratio[1:]):
                continue
            q = _nice(ratio[0])
            if q is None:
                continue
            prod = mul(q, *[power(r, p) for r, p in t])
            if self.rational_zero(add(b, scale(prod, -1)), "root-merge"):
                fac, out = ONE, {}
                for f, p in self.factor_positive(q).items():
                    self._acc(out, f, p * k)
                for r, p in t:
                    if any(r is q for q in self.bases):
                        self._acc(out, r, p * k)
                    else:
                        if (p * k).denominator == 1:
                            fac = mul(fac, power(r, p * k))
                        else:
                            self._acc(out, r, p * k)
                            self.bases.append(r)
                return fac, out
        self.bases.append(b)
        return ONE, {b: k}

    @staticmethod
    def _acc(d, k, v):
        d[k] = d.get(k, 0) + v

    def factor_positive(self, e):
        """Splits a positive rational expression into positive factors {factor: power}."""
        out = {}
        if e.op == "const":
            for n, s in ((e.args.numerator, 1), (e.args.denominator, -1)):
                if n != 1:
                    for p, m in X._small_factors(n):
                        self._acc(out, const(p), Fraction(m * s))
            return out
        fs = S._factors(e) if e.op == "mul" or e.op == "add" else [(e, 1)]
        neg, rest = 1, []
        fs2 = []
        for t, k in fs:
            sp = self._split(t) if t.op == "add" else None
            fs2 += [(f, p * k) for f, p in sp] if sp else [(t, k)]
        for t, k in fs2:
            k = Fraction(k)
            if t.op == "const":
                if t.args < 0 and k % 2:
                    neg = -neg
                for f, p in self.factor_positive(const(abs(t.args))).items():
                    self._acc(out, f, p * k)
                continue
            if self.positive(t):
                self._acc(out, t, k)
            elif self.positive(scale(t, -1)):
                if k % 2:
                    neg = -neg
                self._acc(out, scale(t, -1), k)
            else:
                rest.append((t, k))
        if neg < 0 and not rest:
            raise NFError("fractional power or log of a negative expression")
        if rest:
            r = mul(const(neg), *[power(t, k) for t, k in rest])
            self._acc(out, r, Fraction(1))
        return out

    def _split(self, e):
        """Guess a factorisation of a rational sum (computer algebra); believed once Z3 agrees."""
        key = ("split", e.id)
        if key in self.shared:
            return self.shared[key]
        r = None
        if self.rational(e) and not X.is_known_positive(e):
            num, den = S.numden(e, self.fracmemo)
            try:
                fs = _sympy_factors(num)
            except Exception:
                fs = None
            if fs is not None:
                for f, p in den.items():
                    sub = self._split(f) if f.op == "add" else None
                    fs += [(g, -p * q) for g, q in sub] if sub else [(f, -p)]
                if len(fs) > 1:
                    prod = mul(*[power(f, p) for f, p in fs])
                    if self.rational_zero(add(e, scale(prod, -1)), "factorisation"):
                        r = fs
        self.shared[key] = r
        return r

    # -- normal forms ---------------------------------------------------------------------
    def nf(self, root):
        memo = self.nfmemo
        stack = [root]
        while stack:
            e = stack[-1]
            if e.id in memo:
                stack.pop()
                continue
            if self.rational(e):
                memo[e.id] = {EMPTY: e} if e is not ZERO else {}
                stack.pop()
                continue
            ch = [t for t, _ in e.args] if e.op in ("add", "mul") else list(e.args[1:])
            todo = [t for t in ch if t.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[e.id] = self._nf1(e)
            stack.pop()
        return memo[root.id]

    def _nf1(self, e):
        memo = self.nfmemo
        if e.op == "add":
            acc = {}
            for t, c in e.args:
                for k, v in memo[t.id].items():
                    acc.setdefault(k, []).append(scale(v, c))
            return _clean({k: add(*v) for k, v in acc.items()})
        if e.op == "mul":
            out = {EMPTY: ONE}
            for t, k in e.args:
                out = self.nmul(out, self.npow(memo[t.id], k, t))
            return out
        f = e.args[0]
        a = e.args[1]
        na = memo[a.id]
        if f == "exp":
            ae = self.classify(a)
            return {EMPTY: ONE} if ae is ZERO else {((), ae, None): ONE}
        if f in ("sin", "cos"):
            s, r = self.classify_odd(a)
            if r is ZERO:
                return {} if f == "sin" else {EMPTY: ONE}
            return {((), None, (f, r)): const(s if f == "sin" else 1)}
        if f in ("erf", "tanh"):
            s, r = self.classify_odd(a)
            if r is ZERO:
                return {}
            return {(((fn(f, r), Fraction(1)),), None, None): const(s)}
        if f == "log":
            return self.nlog(na, a)
        if f == "bvn":
            return self.nbvn(*e.args[1:])
        reps = [self.classify(t) for t in e.args[1:]]
        return {(((fn(f, *reps), Fraction(1)),), None, None): ONE}

    def nbvn(self, x, y, r):
        """P(X < x, Y < y) for unit normals with correlation r: arguments made positive and ordered by
        the identities P(x, y, r) = P(y) - P(-x, y, -r) and P(x, y, r) = P(y, x, r)."""
        s1, x1 = self.classify_odd(x)
        s2, y1 = self.classify_odd(y)
        s3, r1 = self.classify_odd(r)
        h = Fraction(1, 2)

        def phi(v):
            return add(const(h), scale(fn("erf", mul(v, power(const(2), Fraction(-1, 2)))), h))
        if r1 is ZERO:
            return self.nf(mul(phi(x), phi(y)))
        if y1.id < x1.id:
            x1, y1, s1, s2 = y1, x1, s2, s1
        rr = s3 if s1 == s2 else -s3

        def atom(s):
            return X._mk("fn", ("bvn", x1, y1, scale(r1, s)))
        a = atom(rr)
        one = {(((a, Fraction(1)),), None, None): ONE}
        if s1 > 0 and s2 > 0:
            return one
        if s1 < 0 and s2 > 0:      # P(-x, y, r) = P(y) - P(x, y, -r)
            rest, sg = phi(y1), -1
        elif s1 > 0 and s2 < 0:
            rest, sg = phi(x1), -1
        else:                      # P(-x, -y, r) = 1 - P(x) - P(y) + P(x, y, r)
            rest, sg = add(ONE, scale(phi(x1), -1), scale(phi(y1), -1)), 1
        n = dict(self.nf(rest))
        n[(((a, Fraction(1)),), None, None)] = const(sg)
        return n

    def nlog(self, na, a):
        if len(na) == 1:
            ((k, c),) = na.items()
            if k[2] is None and not any(_is_func(b) for b, _ in k[0]):
                parts = {}
                for f, p in self.factor_positive(c).items():
                    self._acc(parts, f, p)
                for b, p in k[0]:
                    self._acc(parts, b, p)
                out = {}
                for f, p in parts.items():
                    _, b = self.base(f, Fraction(1))
                    for bb, pp in b.items():
                        if bb is ONE or p * pp == 0:
                            continue
                        kk = (((_mklog(bb), Fraction(1)),), None, None)
                        out[kk] = add(out.get(kk, ZERO), const(p * pp))
                if k[1] is not None:
                    for kk, cc in self.nf(k[1]).items():
                        out[kk] = add(out.get(kk, ZERO), cc)
                return _clean(out)
        r = self.classify(a)
        return {(((X._mk("fn", ("log", r)), Fraction(1)),), None, None): ONE}

    def npow(self, n, k, e):
        if k.denominator == 1 and k > 0:
            out = {EMPTY: ONE}
            for _ in range(int(k)):
                out = self.nmul(out, n)
            return out
        if len(n) == 0:
            if k > 0:
                return {}
            raise NFError("division by an expression that is identically zero")
        if len(n) == 1:
            ((key, c),) = n.items()
            if key[2] is None:
                if k.denominator == 1:
                    return {(tuple((b, p * k) for b, p in key[0]), self._scale_arg(key[1], k), None): power(c, k)} \
                        if True else None
                if not any(_is_func(b) for b, _ in key[0]):
                    coef, acc = ONE, {}
                    for f, p in self.factor_positive(c).items():
                        fac, bs = self.base(f, p * k)
                        coef = mul(coef, fac)
                        for b, q in bs.items():
                            self._acc(acc, b, q)
                    for b, p in key[0]:
                        self._acc(acc, b, p * k)
                    out = {(tuple(acc.items()), self._scale_arg(key[1], k), None): coef}
                    return self._norm(out)
        # a sum (or a product with functions): keep it as an atom
        r = None
        for v, reps in self.wholes.items():
            pass
        w = self._whole(e, n)
        if k.denominator == 1:
            return {(((w, k),), None, None): ONE}
        return {(((X._mk("mul", ((w, k),)), Fraction(1)),), None, None): ONE}

    def _whole(self, e, n):
        i, v = self._lead(self.val(e))
        v = (i, self._bucket(v))
        for r in self.wholes.get(v, []):
            if r is e or self.equal(e, r):
                return r
        self.wholes.setdefault(v, []).append(e)
        return e

    def _scale_arg(self, a, k):
        if a is None:
            return None
        r = self.classify(scale(a, k))
        return None if r is ZERO else r

    def _norm(self, n):
        """Move whole powers of bases into the coefficients; merge."""
        acc = {}
        for (atoms, ex, tr), c in n.items():
            d = {}
            for b, p in atoms:
                self._acc(d, b, p)
            out = []
            for b, p in d.items():
                if p == 0:
                    continue
                if not _is_func(b) and b.id not in self._wholeset():
                    w = p.numerator // p.denominator
                    if w:
                        c = mul(c, power(b, w))
                    p = p - w
                    if p == 0:
                        continue
                out.append((b, p))
            out.sort(key=lambda q: q[0].id)
            acc.setdefault((tuple(out), ex, tr), []).append(c)
        return _clean({k: add(*v) for k, v in acc.items()})

    def _wholeset(self):
        return {e.id for l in self.wholes.values() for e in l}

    def nmul(self, a, b):
        acc = {}
        for (a1, x1, t1), c1 in a.items():
            for (a2, x2, t2), c2 in b.items():
                c = mul(c1, c2)
                if x1 is None or x2 is None:
                    x = x1 if x2 is None else x2
                else:
                    x = self.classify(add(x1, x2))
                    if x is ZERO:
                        x = None
                if t1 is None or t2 is None:
                    trs = [(t1 if t2 is None else t2, Fraction(1))]
                else:
                    trs = self._trig(t1, t2)
                at = a1 + a2
                for tr, f in trs:
                    acc.setdefault((at, x, tr), []).append(scale(c, f))
        return self._norm({k: add(*v) for k, v in acc.items()})

    def _trig(self, t1, t2):
        (f1, a), (f2, b) = t1, t2
        h = Fraction(1, 2)

        def co(x):
            s, r = self.classify_odd(x)
            return (None, 1) if r is ZERO else (("cos", r), 1)

        def si(x):
            s, r = self.classify_odd(x)
            return (None, 0) if r is ZERO else (("sin", r), s)

        pl, mi = add(a, b), add(a, scale(b, -1))
        if f1 == "cos" and f2 == "cos":
            out = [(co(mi), h), (co(pl), h)]
        elif f1 == "sin" and f2 == "sin":
            out = [(co(mi), h), (co(pl), -h)]
        elif f1 == "sin":
            out = [(si(pl), h), (si(mi), h)]
        else:
            out = [(si(pl), h), (si(mi), -h)]
        return [(t, f * s) for (t, s), f in out if s != 0]

    # -- deciding -------------------------------------------------------------------------
    def zero(self, e):
        try:
            ok, _ = self.decide_zero(e)
            return ok
        except NFError:
            return False

    def equal(self, a, b):
        if a is b:
            return True
        return self.zero(add(a, scale(b, -1)))

    def decide_zero(self, e):
        """(proved, failing coefficients)"""
        if self.rational(e):
            ok = self.rational_zero(e)
            return ok, ([] if ok else [(EMPTY, e)])
        n = self.nf(e)
        n = self._clear_wholes(n)
        bad = [(k, c) for k, c in n.items() if not self._coef_zero(c)]
        if bad and self._logs_cancel(bad):
            return True, []
        if bad and len(bad) > 1 and self._keys_dependent(bad):
            return True, []
        return (not bad), bad

    def _coef_zero(self, c):
        vals = self.val(c)
        sc = self.scale_of(c)
        if any(abs(v) > mpmath.mpf(10) ** -18 * max(s, mpmath.mpf(10) ** -10) for v, s in zip(vals, sc)):
            # numerically non-zero: confirmed (satisfiable) by the caller
            return False
        return self.rational_zero(c)

    def _clear_wholes(self, n):
        for _ in range(6):
            ws = self._wholeset()
            neg = {}
            for (atoms, ex, tr) in n:
                for b, p in atoms:
                    if b.id in ws and p < 0:
                        neg[b] = max(neg.get(b, 0), -p)
            if not neg:
                # expand remaining positive powers of sums
                break
            b, p = max(neg.items(), key=lambda q: q[0].id)
            nb = self.nf(b)
            out = {}
            for (atoms, ex, tr), c in n.items():
                q = p
                rest = []
                for bb, pp in atoms:
                    if bb is b:
                        q = p + pp
                    else:
                        rest.append((bb, pp))
                term = {(tuple(rest), ex, tr): c}
                for _i in range(int(q)):
                    term = self.nmul(term, nb)
                for k, v in term.items():
                    out.setdefault(k, []).append(v)
            n = _clean({k: add(*v) for k, v in out.items()})
        return n

    def _logs_cancel(self, bad):
        """sum q_i log f_i + c == 0 with rational q_i: compare the product of powers with one."""
        pos, neg, rest = [], [], []
        for (atoms, ex, tr), c in bad:
            if ex is None and tr is None and len(atoms) == 1 and atoms[0][1] == 1 and \
                    atoms[0][0].op == "fn" and atoms[0][0].args[0] == "log" and c.op == "const":
                (pos if c.args > 0 else neg).append((atoms[0][0].args[1], abs(c.args)))
            elif ex is None and tr is None and len(atoms) == 1 and atoms[0][1] == 1 and \
                    atoms[0][0].op == "fn" and atoms[0][0].args[0] == "log":
                v = self.val(c)
                q = Fraction(int(mpmath.nint(v[0] * 24)), 24)
                if all(abs(x - q.numerator / mpmath.mpf(q.denominator)) < mpmath.mpf(10) ** -18 for x in v) and \
                        self.rational_zero(add(c, const(-q))):
                    (pos if q > 0 else neg).append((atoms[0][0].args[1], abs(q)))
                else:
                    return False
            else:
                return False
        if not pos and not neg:
            return False
        den = 1
        for _, q in pos + neg:
            den = den * q.denominator // _gcd(den, q.denominator)
        lhs = mul(*[power(f, q * den) for f, q in pos])
        rhs = mul(*[power(f, q * den) for f, q in neg])
        d = add(lhs, scale(rhs, -1))
        if not self.rational(d):
            return self.zero(d)
        return self.rational_zero(d, "log-identity")

    def _keys_dependent(self, bad):
        """Two remaining radical terms that cancel: c1 sqrt(X) + c2 sqrt(Y) == 0."""
        if len(bad) != 2:
            return False
        (k1, c1), (k2, c2) = bad
        if k1[1] is not k2[1] or k1[2] != k2[2]:
            return False
        if any(_is_func(b) for b, _ in k1[0] + k2[0]):
            return False
        den = 1
        for _, p in k1[0] + k2[0]:
            den = den * p.denominator // _gcd(den, p.denominator)
        a = mul(power(c1, den), *[power(b, p * den) for b, p in k1[0]])
        b = mul(power(c2, den), *[power(b, p * den) for b, p in k2[0]])
        v1, v2 = self.val(c1), self.val(c2)
        if any(x * y >= 0 for x, y in zip(v1, v2)):
            return False
        if den % 2 == 0:
            # signs must be opposite for all values
            if not self.positive(scale(mul(c1, c2), -1)):
                return False
            return self.rational_zero(add(a, scale(b, -1)), "radical-identity")
        return self.rational_zero(add(a, b), "radical-identity")


def _sympy_factors(num, limit=3000):
    """Factors of a polynomial expression: [(E, power)], or None when it is too big."""
    import sympy
    syms, n = {}, [0]

    memo = {}

    def tr(e):
        r = memo.get(e.id)
        if r is not None:
            return r
        n[0] += 1
        if n[0] > limit:
            raise SymError("too big")
        if e.op == "const":
            r = sympy.Rational(e.args.numerator, e.args.denominator)
        elif e.op == "var":
            r = syms.setdefault(e.args, sympy.Symbol(f"v{len(syms)}"))
        elif e.op == "add":
            r = sympy.Add(*[sympy.Rational(c.numerator, c.denominator) * tr(t) for t, c in e.args])
        elif e.op == "mul":
            r = sympy.Mul(*[tr(t) ** int(k) for t, k in e.args])
        else:
            raise SymError("not polynomial")
        memo[e.id] = r
        return r

    x = tr(num)
    if not syms:
        return None
    gens = list(syms.values())
    po = sympy.Poly(x, *gens)
    if len(po.terms()) > 3000:
        return None
    c, fl = po.factor_list()
    back = {s: X.var(v) for v, s in syms.items()}

    def conv(q):
        terms = []
        for mon, cf in q.terms():
            terms.append(scale(mul(*[power(back[g], m) for g, m in zip(gens, mon) if m]), Fraction(int(cf.p), int(cf.q))))
        return add(*terms)

    out = [(conv(q), m) for q, m in fl]
    c = Fraction(int(c.p), int(c.q))
    if c != 1:
        out.append((const(c), 1))
    return out


def _gcd(a, b):
    import math
    return math.gcd(a, b)


def _mklog(b):
    return X._mk("fn", ("log", b))


def _is_func(b):
    return b.op == "fn" or (b.op == "mul" and any(k.denominator != 1 for _, k in b.args))


def _clean(n):
    return {k: v for k, v in n.items() if v is not ZERO}


def _nice(v):
    """A simple positive rational times a power of pi."""
    for p in (0, 1, -1, 2, -2):
        w = v / mpmath.pi**p
        if w <= 0 or w > 10**6 or w < mpmath.mpf(10) ** -6:
            continue
        fr = Fraction(str(mpmath.nstr(w, 25))).limit_denominator(2000)
        if fr > 0 and abs(mpmath.mpf(fr.numerator) / fr.denominator - w) < mpmath.mpf(10) ** -20 * w:
            return mul(const(fr), power(PI, p))
    return None
