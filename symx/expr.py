"""Hash-consed real-valued expressions.

An expression is one of
  const  (Fraction)
  var    (name; base variable of the harness, or the constant pi)
  add    sum of c_i * e_i           args = tuple of (e_i, c_i), c_i Fraction
  mul    product of e_i ** k_i      args = tuple of (e_i, k_i), k_i Fraction (non-zero)
  fn     f(e_1, ..., e_n)           f in exp, log, sin, cos, erf, bvn, ceil, floor, ...
Numbers that reach expressions as floats are read as the rationals or rational
multiples of pi that they stand for (see `recognise`).
"""
import math
from fractions import Fraction
import numpy as np

_TABLE = {}
_COUNT = [0]


class SymError(Exception):
    """The symbolic engine met something it does not model."""


_PICKLED = {}


def _unpickle(i):
    return _PICKLED[i]


class E:
    __slots__ = ("op", "args", "id", "__weakref__")
    __array_priority__ = 100
    __array_ufunc__ = None  # Python scalars/ndarrays defer to us (see array.py for SymArray)

    def __hash__(self):
        return self.id

    def __reduce__(self):
        # expressions survive being written to a file and read again, by the same process
        _PICKLED[self.id] = self
        return _unpickle, (self.id,)

    # -- arithmetic -----------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else add(self, scale(o, -1))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else add(o, scale(self, -1))

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else mul(self, power(o, -1))

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else mul(o, power(self, -1))

    def __neg__(self):
        return scale(self, -1)

    def __pos__(self):
        return self

    def __pow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return pow_e(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else pow_e(o, self)

    # -- order: decided by the current exploration ----------------------------------
    def __abs__(self):
        return ite_abs(self)

    def __lt__(self, o):
        return decide("lt", self, o)

    def __le__(self, o):
        return decide("le", self, o)

    def __gt__(self, o):
        return decide("lt", o, self)

    def __ge__(self, o):
        return decide("le", o, self)

    def __eq__(self, o):
        if self is o:
            return True
        return decide("eq", self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return not decide("eq", self, ZERO)

    def __int__(self):
        return concretise_int(self)

    def __index__(self):
        return concretise_int(self)

    def __float__(self):
        if self.op == "const":
            return float(self.args)
        raise SymError(f"a symbolic value was forced to a float: {self!r}"[:200])

    def __complex__(self):
        return complex(float(self))

    # numpy calls these on object arrays
    def sqrt(self):
        return power(self, Fraction(1, 2))

    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def ceil(self):
        return fn("ceil", self)

    def floor(self):
        return fn("floor", self)

    def __ceil__(self):
        return fn("ceil", self)

    def __floor__(self):
        return fn("floor", self)

    def __repr__(self):
        return to_str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(op, args):
    key = (op, args)
    e = _TABLE.get(key)
    if e is None:
        e = object.__new__(E)
        e.op, e.args = op, args
        _COUNT[0] += 1
        e.id = _COUNT[0]
        _TABLE[key] = e
    return e


def const(x):
    return _mk("const", Fraction(x))


def var(name):
    return _mk("var", name)


ZERO, ONE, PI = const(0), const(1), var("pi")
HALF = Fraction(1, 2)

_LOG2PI = math.log(2 * math.pi)


def recognise(f):
    """The exact real a float stands for: a short rational/decimal or a rational multiple of pi."""
    if math.isnan(f) or math.isinf(f):
        raise SymError(f"non-finite constant {f} met a symbolic value")
    fr = Fraction(f)
    if fr.denominator <= 1 << 20:
        return const(fr)
    if len(repr(abs(f)).split("e")[0].replace(".", "").strip("0")) <= 12:
        return const(Fraction(repr(f)))
    for q in (1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 100, 1000):
        p = f * q / math.pi
        r = round(p)
        if r != 0 and abs(r) <= 4096 and abs(p - r) <= 4e-16 * abs(p) * 2:
            return mul(const(Fraction(r, q)), PI)
    for q in (1, 2, 3, 4, 8):
        p = f * q * math.pi
        r = round(p)
        if r != 0 and abs(r) <= 64 and abs(p - r) <= 8e-16 * abs(p):
            return mul(const(Fraction(r, q)), power(PI, -1))
    # square roots and fourth roots of small rational multiples of pi, 1/pi and of rationals
    for q in (1, 2, 4):
        p = f * q / _LOG2PI
        r = round(p)
        if r != 0 and abs(r) <= 64 and abs(p - r) <= 8e-16 * abs(p):
            return mul(const(Fraction(r, q)), fn("log", mul(const(2), PI)))
    for e in (2, 4):
        f2 = f**e
        for k in (0, 1, -1):
            g = f2 / math.pi**k
            fr2 = Fraction(g).limit_denominator(64)
            if fr2.numerator != 0 and abs(fr2.numerator) <= 64 and abs(float(fr2) - g) <= 8e-16 * abs(g) \
                    and not (k == 0 and _is_square(fr2)):
                root = power(mul(const(fr2), power(PI, k)), Fraction(1, e))
                return root if f > 0 else scale(root, -1)
    fr3 = fr.limit_denominator(1000)
    if float(fr3) == f or abs(float(fr3) - f) <= 2.3e-16 * abs(f):
        return const(fr3)
    # small rational multiples of logarithms of small integers, and their ratios with log(10)
    for k in (2, 3, 5, 6, 7, 10):
        lk = math.log(k)
        for p, e in ((f / lk, lambda: fn("log", const(k))), (f * lk, lambda: power(fn("log", const(k)), -1))):
            for q in (1, 2, 5):
                r = round(p * q)
                if r != 0 and abs(r) <= 40 and abs(p * q - r) <= 8e-16 * abs(r):
                    return mul(const(Fraction(r, q)), e())
    return const(Fraction(repr(float(f))))


def _is_square(fr):
    n, d = math.isqrt(abs(fr.numerator)), math.isqrt(fr.denominator)
    return n * n == fr.numerator and d * d == fr.denominator


_REC = {}


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, (bool, np.bool_)):
        return ONE if x else ZERO
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, (float, np.floating)):
        if hasattr(x, "e"):
            return x.e
        x = float(x)
        r = _REC.get(x)
        if r is None:
            r = _REC[x] = recognise(x)
        return r
    if isinstance(x, (complex, np.complexfloating)) and x.imag == 0:
        return lift(x.real)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()] if x.dtype == object and type(x) is np.ndarray else np.ndarray.item(x))
    return NotImplemented


def add(*es):
    acc = {}
    c = Fraction(0)
    for e in es:
        if e.op == "const":
            c += e.args
        elif e.op == "add":
            for t, k in e.args:
                if t is ONE:
                    c += k
                else:
                    acc[t] = acc.get(t, 0) + k
        else:
            k, t = split_coef(e)
            acc[t] = acc.get(t, 0) + k
    return _finish_add(acc, c)


def _finish_add(acc, c):
    items = [(t, k) for t, k in acc.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1:
        t, k = items[0]
        return scale(t, k)
    items.sort(key=lambda p: p[0].id)
    if c != 0:
        items.insert(0, (ONE, c))
    return _mk("add", tuple(items))


def split_coef(e):
    """(rational coefficient, rest)"""
    if e.op == "const":
        return e.args, ONE
    if e.op == "mul" and e.args[0][0].op == "const" and e.args[0][1] == 1:
        rest = e.args[1:]
        if len(rest) == 1 and rest[0][1] == 1:
            return e.args[0][0].args, rest[0][0]
        return e.args[0][0].args, _mk("mul", rest)
    return Fraction(1), e


def scale(e, k):
    k = Fraction(k)
    if k == 0:
        return ZERO
    if k == 1:
        return e
    if e.op == "const":
        return const(e.args * k)
    if e.op == "add":
        return _mk("add", tuple((t, c * k) for t, c in e.args))
    c, t = split_coef(e)
    c = c * k
    if c == 1:
        return t
    if t.op == "mul":
        return _mk("mul", ((const(c), Fraction(1)),) + t.args)
    return _mk("mul", ((const(c), Fraction(1)), (t, Fraction(1))))


def mul(*es):
    acc = {}
    c = Fraction(1)
    stack = list(es)
    for e in stack:
        if e.op == "const":
            c *= e.args
        elif e.op == "mul":
            for t, k in e.args:
                if t.op == "const" and k == 1:
                    c *= t.args
                else:
                    acc[t] = acc.get(t, 0) + k
        else:
            acc[e] = acc.get(e, 0) + 1
    if c == 0:
        return ZERO
    return _finish_mul(acc, c)


def _finish_mul(acc, c):
    if HOOKS.any_lazy:
        for t, k in acc.items():
            if k != 0 and k % 2 == 0 and t.op == "fn" and t.args[0] == "?abs":  # |x|^2 = x^2
                return mul(const(c), power(t.args[1], k), *[power(u, j) for u, j in acc.items() if u is not t])
    items = []
    for t, k in acc.items():
        if k == 0:
            continue
        if t.op == "const" and k.denominator == 1:
            c *= t.args ** int(k)
            continue
        items.append((t, Fraction(k)))
    if not items:
        return const(c)
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], c)
    items.sort(key=lambda p: p[0].id)
    if c != 1:
        items.insert(0, (const(c), Fraction(1)))
    return _mk("mul", tuple(items))


def _int_root(n, d):
    r = round(n ** (1.0 / d)) if n < 1 << 50 else None
    if r is None:
        lo, hi = 0, 1 << (n.bit_length() // d + 1)
        while lo < hi:
            m = (lo + hi) // 2
            if m**d < n:
                lo = m + 1
            else:
                hi = m
        r = lo
    return r if r**d == n else None


def _small_factors(n):
    out = []
    for p in (2, 3, 5, 7, 11, 13):
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
    if n != 1:
        out.append((n, 1))
    return out


def const_power(c, k):
    """c ** k for Fraction c, Fraction k."""
    if k.denominator == 1:
        if c == 0 and k < 0:
            raise SymError("division by zero")
        return const(c ** int(k))
    if c == 0:
        return ZERO
    if c < 0:
        raise SymError(f"fractional power of a negative number {c}")
    if c == 1:
        return ONE
    rat = Fraction(1)
    acc = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        for p, m in _small_factors(n):
            e = k * m * s
            whole = e.numerator // e.denominator
            rat *= Fraction(p) ** whole
            fr = e - whole
            if fr:
                rt = _int_root(p, fr.denominator)
                if rt is not None:
                    rat *= Fraction(rt) ** fr.numerator
                else:
                    acc[const(p)] = acc.get(const(p), 0) + fr
    if not acc:
        return const(rat)
    items = sorted(((t, Fraction(f)) for t, f in acc.items()), key=lambda p: p[0].id)
    if rat != 1:
        items.insert(0, (const(rat), Fraction(1)))
    elif len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("mul", tuple(items))


def power(e, k):
    k = Fraction(k)
    if k == 0:
        return ONE
    if k == 1:
        return e
    if e.op == "const":
        return const_power(e.args, k)
    if e.op == "mul":
        if k.denominator == 1:
            out = [_pow1(t, c * k) for t, c in e.args]
            return mul(*out)
        # (prod f_i^k_i)^(p/q): only split off factors known to be positive
        pos, rest = [], []
        for t, c in e.args:
            (pos if is_known_positive(t) or (c.denominator > 1) else rest).append((t, c))
        out = [_pow1(t, c * k) for t, c in pos]
        if rest:
            neg = [t for t, c in rest if t.op == "const" and t.args < 0]
            r = mul(*[_pow1(t, c) for t, c in rest])
            if neg and len(rest) > 1:
                # keep the sign with the remaining factor
                pass
            if r.op == "mul" and (not pos):
                c0, t0 = split_coef(r)
                if c0 > 0 and c0 != 1:
                    out.append(const_power(c0, k))
                    r = t0
            out.append(_mk("mul", ((r, k),)) if r.op != "const" else const_power(r.args, k))
        return mul(*out)
    if e.op == "add" and k.denominator != 1:
        # normalise the rational content so that sqrt(4a+4b) = 2 sqrt(a+b)
        lead = abs(e.args[0][1])
        if lead != 1:
            return mul(const_power(lead, k), _pow1(scale(e, 1 / lead), k))
    return _pow1(e, k)


def _pow1(t, k):
    if k == 1:
        return t
    if k == 0:
        return ONE
    if t.op == "const":
        return const_power(t.args, k)
    if t.op == "mul":
        if k.denominator == 1:
            return mul(*[_pow1(s, c * k) for s, c in t.args])
        return _mk("mul", ((t, k),))
    if t.op == "fn" and t.args[0] == "exp":
        return fn("exp", scale(t.args[1], k))
    if t.op == "fn" and t.args[0] == "?abs" and k.denominator == 1 and k % 2 == 0:
        return power(t.args[1], k)
    if k.denominator == 1 and t.op == "add" and k < 0:
        # content out, so that 1/(2a+2b) = 1/2 * 1/(a+b)
        lead = t.args[0][1]
        if lead != 1:
            return mul(const(lead ** int(k)), _mk("mul", ((scale(t, 1 / lead), k),)))
    return _mk("mul", ((t, k),))


def pow_e(b, e):
    if e.op == "const":
        return power(b, e.args)
    if b.op == "const" and b.args == 1:
        return ONE
    return fn("exp", mul(e, fn("log", b)))


_POS = {"pi"}
_NONNEG = set()


def declare_positive(name):
    _POS.add(name)


def is_known_positive(e):
    if e.op == "const":
        return e.args > 0
    if e.op == "var":
        return e.args in _POS
    if e.op == "fn":
        return e.args[0] == "exp"
    if e.op == "mul":
        return all(is_known_positive(t) or (k.denominator == 1 and k.numerator % 2 == 0 and False) for t, k in e.args)
    if e.op == "add":
        return all(c > 0 and is_known_positive(t) for t, c in e.args)
    return False


def fn(name, *args):
    a = args[0]
    if name == "exp":
        if a is ZERO:
            return ONE
        if a.op == "fn" and a.args[0] == "log":
            return a.args[1]
        # exp(c*log(x) + rest)
        if a.op in ("add", "mul"):
            c, t = split_coef(a)
            if t.op == "fn" and t.args[0] == "log":
                return power(t.args[1], c)
            if a.op == "add":
                logs = [(t, c) for t, c in a.args if t.op == "fn" and t.args[0] == "log"]
                if logs:
                    rest = _finish_add({t: c for t, c in a.args if not (t.op == "fn" and t.args[0] == "log") and t is not ONE},
                                       sum((c for t, c in a.args if t is ONE), Fraction(0)))
                    return mul(fn("exp", rest), *[power(t.args[1], c) for t, c in logs])
    elif name == "log":
        if a is ONE:
            return ZERO
        if a.op == "fn" and a.args[0] == "exp":
            return a.args[1]
        if a.op == "const" and a.args > 0:
            out = []
            for n, s in ((a.args.numerator, 1), (a.args.denominator, -1)):
                for p, m in _small_factors(n) if n != 1 else []:
                    out.append(scale(_mk("fn", ("log", const(p))), m * s))
            return add(*out)
        if a.op == "mul" and all(is_known_positive(t) for t, k in a.args):
            return add(*[scale(fn("log", t), k) for t, k in a.args])
        if a.op == "mul":
            pos = [(t, k) for t, k in a.args if is_known_positive(t)]
            rest = [(t, k) for t, k in a.args if not is_known_positive(t)]
            if len(rest) == 1 and (rest[0][1].denominator > 1):
                return add(*[scale(fn("log", t), k) for t, k in a.args])
            if pos and rest:
                r = mul(*[_pow1(t, k) for t, k in rest])
                return add(*[scale(fn("log", t), k) for t, k in pos], _mk("fn", ("log", r)) if r.op != "const" else fn("log", r))
    elif name in ("sin", "erf", "tanh"):
        if a is ZERO:
            return ZERO
    elif name == "cos":
        if a is ZERO:
            return ONE
    elif name in ("ceil", "floor", "round"):
        if a.op == "const":
            f = {"ceil": math.ceil, "floor": math.floor, "round": round}[name]
            return const(f(a.args))
    elif name in ("float32", "float16"):
        if a.op == "const":
            return const(Fraction(float(getattr(np, name)(float(a.args)))))
        if a.op == "fn" and a.args[0] == name:
            return a
    return _mk("fn", (name,) + tuple(args))


# -- hooks set by explore.py ------------------------------------------------------------
class _Hooks:
    decide = None
    weak = None
    sign = None
    concretise_int = None
    lazy = False  # comparisons, signs, minima, ... of arrays are decided when they matter, entry by entry


HOOKS = _Hooks()


def decide(rel, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if hasattr(a, "e"):
        a = a.e
    if hasattr(b, "e"):
        b = b.e
    # infinities compare trivially
    for x, y, sgn in ((a, b, 1), (b, a, -1)):
        if isinstance(x, (float, np.floating)) and not isinstance(x, E):
            if math.isinf(x):
                if rel == "eq":
                    return False
                return (x < 0) if sgn == 1 else (x > 0)
            if math.isnan(x):
                return False
    a_, b_ = lift(a), lift(b)
    if a_ is NotImplemented or b_ is NotImplemented:
        if rel == "eq":
            return False
        return NotImplemented
    a_, b_ = resolve(a_), resolve(b_)
    if a_ is b_:
        return rel != "lt"
    d = add(a_, scale(b_, -1))
    if d.op == "const":
        return {"lt": d.args < 0, "le": d.args <= 0, "eq": d.args == 0}[rel]
    if HOOKS.decide is None:
        raise SymError("a symbolic comparison outside an exploration")
    return HOOKS.decide(rel, a_, b_)


def weak_le(a, b):
    """Whether a <= b, for results that do not depend on it when a = b."""
    a_, b_ = resolve(lift(a)), resolve(lift(b))
    d = add(a_, scale(b_, -1))
    if d.op == "const":
        return d.args <= 0
    if HOOKS.weak is None:
        raise SymError("a symbolic comparison outside an exploration")
    return HOOKS.weak(a_, b_)


_LAZY = {"?lt", "?le", "?eq", "?sign", "?abs", "?min", "?max"}
_LAZY_MEMO = {}


def lazy(name, *args):
    _LAZY_MEMO.clear() if len(_LAZY_MEMO) > 10**6 else None
    HOOKS.any_lazy = True
    return _mk("fn", ("?" + name,) + args)


def _children(e):
    return [t for t, _ in e.args] if e.op in ("add", "mul") else list(e.args[1:]) if e.op == "fn" else []


def has_lazy(e):
    r = _LAZY_MEMO.get(e.id)
    if r is not None:
        return r[0]
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in _LAZY_MEMO:
            stack.pop()
            continue
        ch = _children(x)
        todo = [t for t in ch if t.id not in _LAZY_MEMO]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        _LAZY_MEMO[x.id] = ((x.op == "fn" and x.args[0] in _LAZY) or any(_LAZY_MEMO[t.id][0] for t in ch), x)
    return _LAZY_MEMO[e.id][0]


HOOKS.any_lazy = False


def resolve(e):
    """Decide what was left undecided in `e`."""
    if not HOOKS.any_lazy or not has_lazy(e):
        return e
    memo = {}

    def go(e):
        if not has_lazy(e):
            return e
        r = memo.get(e.id)
        if r is not None:
            return r
        if e.op == "add":
            r = add(*[scale(go(t), c) for t, c in e.args])
        elif e.op == "mul":
            parts = []
            # decisions first: a factor of zero removes the rest
            for t, k in sorted(e.args, key=lambda tk: not (tk[0].op == "fn" and tk[0].args[0] in _LAZY)):
                t = go(t)
                if t is ZERO and k > 0:
                    parts = [ZERO]
                    break
                parts.append(power(t, k))
            r = mul(*parts) if len(parts) > 1 else parts[0]
        else:
            name = e.args[0]
            a = [go(t) for t in e.args[1:]]
            if name not in _LAZY:
                r = fn(name, *a)
            elif name in ("?lt", "?le", "?eq"):
                r = ONE if decide(name[1:], *a) else ZERO
            elif name == "?sign":
                r = ONE if decide("lt", ZERO, a[0]) else const(-1) if decide("lt", a[0], ZERO) else ZERO
            elif name == "?abs":
                r = a[0] if weak_le(ZERO, a[0]) else scale(a[0], -1)
            elif name == "?min":
                r = a[0] if weak_le(a[0], a[1]) else a[1]
            else:
                r = a[0] if weak_le(a[1], a[0]) else a[1]
        memo[e.id] = r
        return r

    return go(e)


_ROOT_MEMO = {}


def _is_root(t, k):
    """Whether `t ** k` is the root of an even power of something of unknown sign."""
    return k.denominator == 2 and t.op == "mul" and all(j.denominator == 1 and j % 2 == 0 for _, j in t.args) \
        and not all(is_known_positive(b) for b, _ in t.args)


def has_root(e):
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in _ROOT_MEMO:
            stack.pop()
            continue
        ch = _children(x)
        todo = [t for t in ch if t.id not in _ROOT_MEMO]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        _ROOT_MEMO[x.id] = ((x.op == "mul" and any(_is_root(t, k) for t, k in x.args))
                            or any(_ROOT_MEMO[t.id][0] for t in ch), x)
    return _ROOT_MEMO[e.id][0]


def unroot(e):
    """`e` with the roots of even powers written as absolute values, whose signs are decided."""
    if len(_ROOT_MEMO) > 10**6:
        _ROOT_MEMO.clear()
    memo = {}

    def go(e):
        if not has_root(e):
            return e
        r = memo.get(e.id)
        if r is not None:
            return r
        if e.op == "add":
            r = add(*[scale(go(t), c) for t, c in e.args])
        elif e.op == "mul":
            parts = []
            for t, k in e.args:
                if _is_root(t, k):
                    m = mul(*[power(go(b), j / 2) for b, j in t.args])
                    m = m if is_known_positive(m) or weak_le(ZERO, m) else scale(m, -1)
                    parts.append(power(m, 2 * k))
                else:
                    parts.append(power(go(t), k))
            r = mul(*parts) if len(parts) > 1 else parts[0]
        else:
            r = fn(e.args[0], *[go(t) for t in e.args[1:]])
        memo[e.id] = r
        return r

    return go(e)


def ite_abs(e):
    if e.op == "const":
        return const(abs(e.args))
    if is_known_positive(e):
        return e
    s = None if HOOKS.sign is None or has_lazy(e) else HOOKS.sign(e)
    if s is not None:
        return scale(e, s)
    # decided when it matters; |-x| = |x|
    lead = e.args[0][1] if e.op == "add" else split_coef(e)[0]
    return lazy("abs", e if lead > 0 else scale(e, -1))


def concretise_int(e):
    e = resolve(e)
    if e.op == "const":
        return int(e.args)
    if HOOKS.concretise_int is None:
        raise SymError("int() of a symbolic value outside an exploration")
    return HOOKS.concretise_int(e)


def variables(es):
    seen, out, stack = set(), {}, list(es)
    while stack:
        e = stack.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op == "var":
            out[e.args] = e
        elif e.op in ("add", "mul"):
            stack.extend(t for t, _ in e.args)
        elif e.op == "fn":
            stack.extend(e.args[1:])
    return out


def substitute(e, mapping, memo=None):
    """Replace base variables (by name) with expressions."""
    memo = {} if memo is None else memo

    def go(e):
        r = memo.get(e.id)
        if r is not None:
            return r
        if e.op == "const":
            r = e
        elif e.op == "var":
            r = mapping.get(e.args, e)
        elif e.op == "add":
            r = add(*[scale(go(t), c) for t, c in e.args])
        elif e.op == "mul":
            r = mul(*[power(go(t), k) for t, k in e.args])
        else:
            r = fn(e.args[0], *[go(t) for t in e.args[1:]])
        memo[e.id] = r
        return r

    return go(e)


def diff(e, name, memo=None):
    """Partial derivative with respect to a base variable."""
    memo = {} if memo is None else memo

    def go(e):
        r = memo.get(e.id)
        if r is not None:
            return r
        if e.op == "const":
            r = ZERO
        elif e.op == "var":
            r = ONE if e.args == name else ZERO
        elif e.op == "add":
            r = add(*[scale(go(t), c) for t, c in e.args])
        elif e.op == "mul":
            parts = []
            for i, (t, k) in enumerate(e.args):
                d = go(t)
                if d is ZERO:
                    continue
                others = [_pow1(s, c) for j, (s, c) in enumerate(e.args) if j != i]
                parts.append(mul(const(k), power(t, k - 1), d, *others))
            r = add(*parts) if parts else ZERO
        else:
            f, a = e.args[0], e.args[1]
            d = go(a)
            if f == "exp":
                r = mul(d, e)
            elif f == "log":
                r = mul(d, power(a, -1))
            elif f == "sin":
                r = mul(d, fn("cos", a))
            elif f == "cos":
                r = scale(mul(d, fn("sin", a)), -1)
            elif f == "erf":
                r = mul(const(2), power(PI, -HALF), fn("exp", scale(power(a, 2), -1)), d)
            else:
                raise SymError(f"no derivative for {f}")
        memo[e.id] = r
        return r

    return go(e)


# -- numeric evaluation -------------------------------------------------------------------
import mpmath

MP_DPS = 40


NOISE = [None]  # absolute error put on erf and bvn, to judge conditioning


def evaluate(e, env, memo=None, dps=None, noise=None):
    """Evaluate at mpmath precision. `env` maps names to mpf (pi is implicit)."""
    NOISE[0] = noise
    memo = {} if memo is None else memo
    mp = mpmath.mp
    old = mp.dps
    mp.dps = dps or MP_DPS
    try:
        return _ev(e, env, memo)
    finally:
        mp.dps = old


def _ev(root, env, memo):
    mp = mpmath.mp
    stack = [root]
    while stack:
        e = stack[-1]
        if e.id in memo:
            stack.pop()
            continue
        if e.op == "const":
            memo[e.id] = mp.mpf(e.args.numerator) / e.args.denominator
        elif e.op == "var":
            memo[e.id] = mp.pi + 0 if e.args == "pi" else mp.mpf(env[e.args]) if not isinstance(env[e.args], Fraction) else mp.mpf(env[e.args].numerator) / env[e.args].denominator
        else:
            if e.op in ("add", "mul"):
                ch = [t for t, _ in e.args]
            else:
                ch = e.args[1:]
            todo = [t for t in ch if t.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            if e.op == "add":
                memo[e.id] = mp.fsum(memo[t.id] * c.numerator / c.denominator for t, c in e.args)
            elif e.op == "mul":
                r = mp.mpf(1)
                for t, k in e.args:
                    v = memo[t.id]
                    if k.denominator == 1:
                        r *= v ** int(k)
                    else:
                        if v < 0:
                            raise ValueError("fractional power of negative value")
                        r *= v ** (mp.mpf(k.numerator) / k.denominator)
                memo[e.id] = r
            else:
                f = e.args[0]
                a = [memo[t.id] for t in e.args[1:]]
                v = _EVF[f](*a)
                if NOISE[0] and f in ("erf", "bvn"):
                    v += NOISE[0] * (1 + e.id % 7) * (-1) ** (e.id % 2)
                memo[e.id] = v
        stack.pop()
    return memo[root.id]


def _bvn(x, y, r):
    # P(X<=x, Y<=y) with correlation r (Drezner/Owen by 1-D quadrature)
    mp = mpmath.mp
    old = mp.dps
    mp.dps = min(old, 20)
    try:
        f = lambda t: mp.exp(-(x * x - 2 * t * x * y + y * y) / (2 * (1 - t * t))) / mp.sqrt(1 - t * t)
        v = mpmath.quad(f, [0, r]) / (2 * mp.pi) + mp.ncdf(x) * mp.ncdf(y)
    finally:
        mp.dps = old
    return v


def _log(a):
    if a <= 0:
        raise ValueError("log of non-positive value")
    return mpmath.log(a)


_EVF = {
    "exp": lambda a: mpmath.exp(a),
    "log": _log,
    "sin": lambda a: mpmath.sin(a),
    "cos": lambda a: mpmath.cos(a),
    "erf": lambda a: mpmath.erf(a),
    "tanh": lambda a: mpmath.tanh(a),
    "float32": lambda a: mpmath.mpf(float(np.float32(float(a)))),
    "float16": lambda a: mpmath.mpf(float(np.float16(float(a)))),
    "bvn": _bvn,
    "ceil": lambda a: mpmath.ceil(a),
    "floor": lambda a: mpmath.floor(a),
    "round": lambda a: mpmath.nint(a),
    "atan2": lambda a, b: mpmath.atan2(a, b),
}


def to_str(e, depth=6):
    if depth == 0:
        return "..."
    if e.op == "const":
        return str(e.args)
    if e.op == "var":
        return e.args
    if e.op == "add":
        return "(" + " + ".join((f"{c}*" if c != 1 else "") + to_str(t, depth - 1) for t, c in e.args[:8]) + (" + ..." if len(e.args) > 8 else "") + ")"
    if e.op == "mul":
        return "*".join(to_str(t, depth - 1) + (f"^({k})" if k != 1 else "") for t, k in e.args)
    return f"{e.args[0]}(" + ", ".join(to_str(t, depth - 1) for t in e.args[1:]) + ")"
