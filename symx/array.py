"""Arrays of expressions that NumPy and LAB accept as ordinary arrays."""
import math
from fractions import Fraction
import numpy as np
from numpy import array as _array, asarray as _asarray, zeros as _zeros, eye as _eye, ones as _ones

from . import expr as X
from .expr import E, lift, fn, add, mul, scale, power, const, ZERO, ONE, SymError

_HANDLED = {}


REBIND = [False]


class SymArray(np.ndarray):
    __array_priority__ = 1000

    # -- construction ---------------------------------------------------------------
    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, arr, *a, **k):
        return wrap(arr)

    # -- scalars ---------------------------------------------------------------------
    def __getitem__(self, i):
        i = _fix_index(i)
        r = np.ndarray.__getitem__(self.view(np.ndarray), i)
        return wrap(r)

    def __setitem__(self, i, v):
        i = _fix_index(i)
        if isinstance(v, SymFloat):
            v = v.e
        if isinstance(v, np.ndarray):
            v = plain(v)
            if v.ndim == 0:
                v = v.item() if v.dtype != object else v[()]
        np.ndarray.__setitem__(self.view(np.ndarray), i, v)

    # Augmented assignment writes to NumPy's arrays, and makes new arrays of JAX's.
    def __iadd__(self, o):
        return self + o if REBIND[0] else np.ndarray.__iadd__(self, o)

    def __isub__(self, o):
        return self - o if REBIND[0] else np.ndarray.__isub__(self, o)

    def __imul__(self, o):
        return self * o if REBIND[0] else np.ndarray.__imul__(self, o)

    def __itruediv__(self, o):
        return self / o if REBIND[0] else np.ndarray.__itruediv__(self, o)

    def __ipow__(self, o):
        return self**o if REBIND[0] else np.ndarray.__ipow__(self, o)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return iter([self[i] for i in range(len(self))])

    def __contains__(self, v):
        return any(bool(x == v) for x in self.ravel())

    def item(self, *a):
        return wrap(np.ndarray.item(self, *a))

    def tolist(self):
        return plain(self).tolist()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("truth value of an array with more than one element is ambiguous")
        return bool(lift(plain(self).reshape(())[()]))

    def __int__(self):
        return int(lift(plain(self).reshape(())[()]))

    def __index__(self):
        return int(self)

    def __float__(self):
        return float(lift(plain(self).reshape(())[()]))

    def __hash__(self):
        if self.ndim == 0:
            return hash(lift(plain(self)[()]))
        raise TypeError("unhashable type: 'SymArray'")

    def __round__(self, n=None):
        return wrap(np.vectorize(lambda e: fn("round", lift(e)), otypes=[object])(plain(self)))

    def __format__(self, spec):
        return "<symbolic>"

    def __repr__(self):
        return "SymArray(" + repr(plain(self)) + ")"

    __str__ = __repr__

    def __reduce_ex__(self, protocol):
        return _unpickle, (plain(self),)

    def __copy__(self):
        return wrap(plain(self).copy())

    def __deepcopy__(self, memo):
        return wrap(plain(self).copy())

    def copy(self, order="C"):
        return wrap(plain(self).copy())

    # -- dtype -------------------------------------------------------------------------
    def astype(self, dtype, *a, **k):
        if dtype in (int, np.int64, np.int32) or (isinstance(dtype, np.dtype) and np.issubdtype(dtype, np.integer)):
            return _array([int(lift(x)) for x in plain(self).ravel()], dtype=dtype).reshape(self.shape)
        if dtype in (bool, np.bool_):
            return _array([bool(lift(x)) for x in plain(self).ravel()], dtype=bool).reshape(self.shape)
        n = _narrow(dtype)
        if n is not None:  # rounding
            r = np.empty(self.shape, dtype=object)
            for i in np.ndindex(*self.shape):
                r[i] = fn(n, lift(plain(self)[i]))
            return wrap(r)
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return wrap(_array(_zeros(self.shape, dtype=object)))

    # -- ndarray methods that bypass __array_function__ -----------------------------------
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return np.prod(self, axis=axis)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.max(self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None, out=None, **k):
        return np.argmax(self, axis=axis)

    def argmin(self, axis=None, out=None, **k):
        return np.argmin(self, axis=axis)

    def all(self, *a, **k):
        return np.all(self.astype(bool), *a, **k)

    def any(self, *a, **k):
        return np.any(self.astype(bool), *a, **k)

    def trace(self, offset=0, axis1=0, axis2=1, **k):
        return np.trace(self, offset, axis1, axis2)

    def dot(self, o):
        return np.dot(self, o)

    def ptp(self, axis=None, **k):
        return np.ptp(self, axis=axis)

    def cumprod(self, axis=None, **k):
        return np.cumprod(self, axis=axis)

    def cumsum(self, axis=None, **k):
        return np.cumsum(self, axis=axis)

    def sort(self, axis=-1, **k):
        r = np.sort(self, axis=axis)
        self[...] = r

    def argsort(self, axis=-1, **k):
        return np.argsort(self, axis=axis)

    def clip(self, lo=None, hi=None, **k):
        return np.clip(self, lo, hi)

    def round(self, n=0, **k):
        return self.__round__(n)

    def conj(self):
        return self

    conjugate = conj

    # -- protocols ------------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("order", None)
        kw.pop("subok", None)
        if method == "__call__" and len(inputs) == 2 and name in _REFLECT:
            # numpy treats a foreign object as a scalar, whose reflected operator is used
            a, b = inputs
            if _foreign(b):
                return getattr(b, "__r" + _REFLECT[name])(a)
            if _foreign(a):
                return getattr(a, "__" + _REFLECT[name])(b)
        if method == "__call__" and any(isinstance(x, (complex, np.complexfloating)) or isinstance(x, np.ndarray) and x.dtype.kind == "c" for x in inputs):
            a = inputs[0]
            if not isinstance(a, SymArray):
                a = np.asarray(a)
                return SymComplex(sym(a.real), sym(a.imag)).__array_ufunc__(ufunc, method, *inputs)
            return SymComplex(a, a * 0).__array_ufunc__(ufunc, method, *inputs)
        ins = [plain(_unfloat(x)) for x in inputs]
        if method == "__call__":
            if name in ("matmul", "dot"):
                r = _matmul(*ins)
            elif name in ("_cho_solve",):
                raise SymError(name)
            elif name in _UF:
                where = kw.pop("where", True)
                r = _UF[name](*ins)
            else:
                raise SymError(f"ufunc {name} is not modelled")
            if name in _PRED and X.HOOKS.lazy and any(_is_lazy(x) for x in _asarray(r, dtype=object).ravel()):
                r = _asarray(r, dtype=object).copy()
                for i in np.ndindex(*r.shape):
                    r[i] = r[i] if isinstance(r[i], E) else const(int(bool(r[i])))
                return wrap(r)
            if name in _PRED:
                r = _asarray(r, dtype=bool) if not isinstance(r, (bool, np.bool_)) else np.bool_(r)
                if out is not None:
                    out[0][...] = r
                    return out[0]
                return r
            if out is not None:
                tgt = out[0]
                if tgt.dtype != object:
                    raise SymError("symbolic result written to a float array")
                tgt[...] = r
                return tgt
            return wrap(r)
        if method == "reduce":
            return _ufreduce(name, ins[0], **kw)
        if method == "accumulate":
            return _accumulate(name, ins[0], **kw)
        if method == "outer":
            a, b = ins
            a, b = _asarray(a), _asarray(b)
            return wrap(_UF[name](a.reshape(a.shape + (1,) * b.ndim), b))
        raise SymError(f"ufunc method {name}.{method} is not modelled")

    def __array_function__(self, func, types, args, kwargs):
        h = _HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        # structural functions work on plain object arrays
        a = [_deplain(x) for x in args]
        k = {n: _deplain(v) for n, v in kwargs.items()}
        return _rewrap(func(*a, **k))


_REFLECT = {"add": "add__", "subtract": "sub__", "multiply": "mul__", "divide": "truediv__", "true_divide": "truediv__"}


def _foreign(x):
    return not isinstance(x, (np.ndarray, np.generic, int, float, complex, Fraction, E, list, tuple)) and \
        (hasattr(x, "__radd__") or hasattr(x, "__rmul__"))


def _fix_index(i):
    if isinstance(i, tuple):
        return tuple(_fix_index(x) for x in i)
    if isinstance(i, SymArray):
        if X.HOOKS.any_lazy and any(_is_lazy(x) for x in plain(i).ravel()):
            return i.astype(bool)
        return i.astype(int)
    if isinstance(i, E):
        return int(i)
    return i


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    return x


def _deplain(x):
    if isinstance(x, SymFloat):
        return plain(wrap(x.e))
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(_deplain(v) for v in x)
    return x


def _rewrap(r):
    if isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return type(r)(_rewrap(v) for v in r)
    return wrap(r)


def _narrow(dtype):
    """Does a cast to `dtype` round?"""
    try:
        d = np.dtype(dtype)
    except TypeError:
        return None
    return {"float32": "float32", "float16": "float16"}.get(d.name)


def wrap(r):
    """Object arrays and expressions become SymArrays (0-d for scalars)."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, E):
        a = np.empty((), dtype=object)
        a[()] = r
        return a.view(SymArray)
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SymArray)
    if isinstance(r, Fraction):
        return wrap(const(r))
    return r


def sym(x):
    """Anything numeric to a SymArray."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, E):
        return wrap(x)
    if isinstance(x, SymFloat):
        return wrap(x.e)
    a = _asarray(x)
    if a.dtype != object:
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            b[i] = lift(a[i])
        return b.view(SymArray)
    return a.view(SymArray)


def el(x):
    """0-d array or scalar to expression."""
    if isinstance(x, np.ndarray):
        x = plain(x).reshape(())[()]
    r = lift(x)
    if r is NotImplemented:
        raise SymError(f"not a number: {type(x)}")
    return r


# -- elementwise functions -------------------------------------------------------------
def _vec(f, n):
    g = np.frompyfunc(f, n, 1)

    def h(*a):
        return g(*[_obj(x) for x in a])

    return h


def _obj(x):
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x.astype(object)
        return x
    if isinstance(x, (list, tuple)):
        return _array(x, dtype=object)
    if isinstance(x, SymFloat):
        return x.e
    return x


def _isnum(x):
    return not isinstance(x, E)


def _bin(sf, nf):
    def f(a, b):
        if _isnum(a) and _isnum(b):
            return nf(a, b)
        # infinities
        for x in (a, b):
            if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                raise SymError("arithmetic with infinity")
        return sf(lift(a), lift(b))
    return f


def e_abs(a):
    return abs(a)


def e_sign(a):
    a = lift(a)
    if a.op == "const":
        return const((a.args > 0) - (a.args < 0))
    if X.HOOKS.lazy and not X.is_known_positive(a):
        return X.lazy("sign", a)
    if X.decide("lt", ZERO, a):
        return ONE
    if X.decide("lt", a, ZERO):
        return const(-1)
    return ZERO


TINY = [None]  # hook: called with (expression, bound) for floors such as 1e-30


def e_max(a, b):
    if _isnum(a) and _isnum(b):
        return max(a, b)
    a_, b_ = lift(a), lift(b)
    for x, y in ((a_, b_), (b_, a_)):
        if y.op == "const" and 0 < y.args <= Fraction(1, 10**15) and TINY[0] is not None:
            if TINY[0](x, y):
                return x
    if X.HOOKS.lazy:
        return _lazy2("max", a_, b_)
    return a_ if X.weak_le(b_, a_) else b_


def _lazy2(name, a, b):
    d = add(a, scale(b, -1))
    if d.op == "const":
        return a if (d.args >= 0) == (name == "max") else b
    return X.lazy(name, a, b)


def e_min(a, b):
    if _isnum(a) and _isnum(b):
        return min(a, b)
    a_, b_ = lift(a), lift(b)
    if X.HOOKS.lazy:
        return _lazy2("min", a_, b_)
    return a_ if X.weak_le(a_, b_) else b_


def e_pow(a, b):
    if _isnum(a) and _isnum(b):
        if isinstance(b, (int, np.integer)) and isinstance(a, (int, np.integer)) and b >= 0:
            return a ** int(b)
        return X.pow_e(lift(a), lift(b))
    return X.pow_e(lift(a), lift(b))


def _un(name):
    return _vec(lambda a: fn(name, lift(a)), 1)


def _cmp(rel, swap=False, neg=False):
    def f(a, b):
        if swap:
            a, b = b, a
        if X.HOOKS.lazy:
            a_, b_ = lift(a), lift(b)
            if a_ is not NotImplemented and b_ is not NotImplemented and add(a_, scale(b_, -1)).op != "const":
                r = X.lazy(rel, a_, b_)
                return add(ONE, scale(r, -1)) if neg else r
        r = X.decide(rel, a, b)
        if r is NotImplemented:
            raise SymError("comparison")
        return (not r) if neg else bool(r)

    def g(a, b):
        if _isnum(a) and _isnum(b):
            x, y = (b, a) if swap else (a, b)
            r = {"lt": x < y, "le": x <= y, "eq": x == y}[rel]
            return (not r) if neg else bool(r)
        return f(a, b)
    return _vec(g, 2)


def _truth(x):
    return bool(x)


_UF = {
    "add": _vec(_bin(lambda a, b: add(a, b), lambda a, b: a + b), 2),
    "subtract": _vec(_bin(lambda a, b: add(a, scale(b, -1)), lambda a, b: a - b), 2),
    "multiply": _vec(_bin(lambda a, b: mul(a, b), lambda a, b: a * b), 2),
    "divide": _vec(lambda a, b: _divide(a, b), 2),
    "true_divide": _vec(lambda a, b: _divide(a, b), 2),
    "negative": _vec(lambda a: -a, 1),
    "positive": _vec(lambda a: a, 1),
    "power": _vec(e_pow, 2),
    "float_power": _vec(e_pow, 2),
    "square": _vec(lambda a: power(lift(a), 2), 1),
    "reciprocal": _vec(lambda a: power(lift(a), -1), 1),
    "sqrt": _vec(lambda a: power(lift(a), Fraction(1, 2)), 1),
    "cbrt": _vec(lambda a: power(lift(a), Fraction(1, 3)), 1),
    "exp": _un("exp"),
    "expm1": _vec(lambda a: add(fn("exp", lift(a)), const(-1)), 1),
    "log": _un("log"),
    "log1p": _vec(lambda a: fn("log", add(lift(a), ONE)), 1),
    "log10": _vec(lambda a: mul(fn("log", lift(a)), power(fn("log", const(10)), -1)), 1),
    "log2": _vec(lambda a: mul(fn("log", lift(a)), power(fn("log", const(2)), -1)), 1),
    "sin": _un("sin"),
    "cos": _un("cos"),
    "sinh": _vec(lambda a: scale(add(fn("exp", lift(a)), scale(fn("exp", scale(lift(a), -1)), -1)), Fraction(1, 2)), 1),
    "cosh": _vec(lambda a: scale(add(fn("exp", lift(a)), fn("exp", scale(lift(a), -1))), Fraction(1, 2)), 1),
    "logaddexp": _vec(lambda a, b: fn("log", add(fn("exp", lift(a)), fn("exp", lift(b)))), 2),
    "hypot": _vec(lambda a, b: power(add(power(lift(a), 2), power(lift(b), 2)), Fraction(1, 2)), 2),
    "arctan2": _vec(lambda a, b: fn("atan2", lift(a), lift(b)), 2),
    "exp2": _vec(lambda a: fn("exp", mul(lift(a), fn("log", const(2)))), 1),
    "deg2rad": _vec(lambda a: mul(lift(a), X.PI, const(Fraction(1, 180))), 1),
    "remainder": _vec(lambda a, b: add(lift(a), scale(mul(lift(b), fn("floor", mul(lift(a), power(lift(b), -1)))), -1)), 2),
    "mod": _vec(lambda a, b: add(lift(a), scale(mul(lift(b), fn("floor", mul(lift(a), power(lift(b), -1)))), -1)), 2),
    "floor_divide": _vec(lambda a, b: fn("floor", mul(lift(a), power(lift(b), -1))), 2),
    "heaviside": _vec(lambda a, b: (lambda s: ONE if s is ONE else lift(b) if s is ZERO else ZERO)(e_sign(a)), 2),
    "signbit": _vec(lambda a: bool(X.decide("lt", lift(a), ZERO)), 1),
    "trunc": _vec(lambda a: fn("floor", lift(a)) if X.decide("le", ZERO, lift(a)) else fn("ceil", lift(a)), 1),
    "tan": _vec(lambda a: mul(fn("sin", lift(a)), power(fn("cos", lift(a)), -1)), 1),
    "tanh": _un("tanh"),
    "erf": _un("erf"),
    "erfc": _vec(lambda a: add(ONE, scale(fn("erf", lift(a)), -1)), 1),
    "ndtr": _vec(lambda a: scale(add(ONE, fn("erf", mul(lift(a), power(const(2), Fraction(-1, 2))))), Fraction(1, 2)), 1),
    "absolute": _vec(lambda a: abs(lift(a)) if isinstance(a, E) else abs(a), 1),
    "fabs": _vec(lambda a: abs(lift(a)), 1),
    "sign": _vec(e_sign, 1),
    "maximum": _vec(e_max, 2),
    "minimum": _vec(e_min, 2),
    "fmax": _vec(e_max, 2),
    "fmin": _vec(e_min, 2),
    "ceil": _un("ceil"),
    "floor": _un("floor"),
    "rint": _un("round"),
    "conjugate": _vec(lambda a: a, 1),
    "isnan": _vec(lambda a: False if isinstance(a, E) else math.isnan(a), 1),
    "isinf": _vec(lambda a: False if isinstance(a, E) else math.isinf(a), 1),
    "isfinite": _vec(lambda a: True if isinstance(a, E) else math.isfinite(a), 1),
    "less": _cmp("lt"),
    "less_equal": _cmp("le"),
    "greater": _cmp("lt", swap=True),
    "greater_equal": _cmp("le", swap=True),
    "equal": _cmp("eq"),
    "not_equal": _cmp("eq", neg=True),
    "logical_and": _vec(lambda a, b: _lazy_and(a, b), 2),
    "logical_or": _vec(lambda a, b: _lazy_not(_lazy_and(_lazy_not(a), _lazy_not(b))), 2),
    "logical_not": _vec(lambda a: _lazy_not(a), 1),
}
_UF["bitwise_and"], _UF["bitwise_or"], _UF["invert"] = _UF["logical_and"], _UF["logical_or"], _UF["logical_not"]


def _is_lazy(a):
    return isinstance(a, E) and X.HOOKS.any_lazy and X.has_lazy(a)


def _lazy_not(a):
    return add(ONE, scale(a, -1)) if _is_lazy(a) else not _truth(a)


def _lazy_and(a, b):
    if not _is_lazy(a):
        return b if _is_lazy(b) and _truth(a) else _truth(a) and _truth(b)
    if not _is_lazy(b):
        return a if _truth(b) else False
    return mul(a, b)

_PRED = {"isnan", "isinf", "isfinite", "less", "less_equal", "greater", "greater_equal", "equal",
         "not_equal", "logical_and", "logical_or", "logical_not", "bitwise_and", "bitwise_or", "invert", "signbit"}


def _unpickle(x):
    return wrap(x)


UNDEF = [None]  # hook: the result of a division by zero (an arbitrary value), where that does not raise


def _divide(a, b):
    if UNDEF[0] is not None and not (isinstance(b, float) and math.isinf(b)):
        if lift(b).op == "const" and lift(b).args == 0:
            return UNDEF[0]()
    if isinstance(b, float) and math.isinf(b):
        return ZERO
    return mul(lift(a), power(lift(b), -1))


def _matmul(a, b):
    a, b = _asarray(a), _asarray(b)
    a = a.astype(object) if a.dtype != object else a
    b = b.astype(object) if b.dtype != object else b
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError(f"matmul: shapes {a.shape} and {b.shape} do not match")
    batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, batch + a.shape[-2:])
    Bm = np.broadcast_to(b, batch + b.shape[-2:])
    out = np.empty(batch + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(*out.shape):
        *bt, i, j = idx
        bt = tuple(bt)
        ps = [mul(lift(A[bt + (i, k)]), lift(Bm[bt + (k, j)])) for k in range(a.shape[-1])]
        out[idx] = add(*ps) if ps else ZERO
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return out if out.ndim else out[()]


def _norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(a % nd for a in axis)


def _along(f, a, axis, keepdims=False):
    """Reduce over axes with f(list of elements)."""
    a = _asarray(plain(a))
    axes = _norm_axes(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty([a.shape[i] for i in rest], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f([lift(x) for x in b[i]])
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return wrap(out)


def _ufreduce(name, a, axis=0, keepdims=False, initial=None, where=True, **k):
    init = [] if initial is None or initial is np._NoValue else [lift(initial)]
    if name == "add":
        f = lambda l: add(*(init + l)) if l else ZERO
    elif name == "multiply":
        f = lambda l: mul(*(init + l)) if l else ONE
    elif name == "maximum":
        f = lambda l: _fold(e_max, init + l)
    elif name == "minimum":
        f = lambda l: _fold(e_min, init + l)
    elif name in ("logical_and", "logical_or"):
        g = all if name == "logical_and" else any
        r = _along(lambda l: const(int(g(bool(x) for x in l))), a, axis, keepdims)
        return r.astype(bool)
    else:
        raise SymError(f"reduction {name} is not modelled")
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return wrap(a)
    return _along(f, a, axis, keepdims)


def _fold(f, l):
    r = l[0]
    for x in l[1:]:
        r = f(r, x)
    return lift(r)


def _accumulate(name, a, axis=0, **k):
    a = np.moveaxis(_asarray(a), axis, 0)
    out = np.empty(a.shape, dtype=object)
    for i in range(a.shape[0]):
        out[i] = a[i] if i == 0 else _UF[name](out[i - 1], a[i])
    return wrap(np.moveaxis(out, 0, axis))


# -- functions ---------------------------------------------------------------------------
def implements(*fs):
    def deco(g):
        for f in fs:
            _HANDLED[f] = g
        return g
    return deco


@implements(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return _ufreduce("add", plain(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)


@implements(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return _ufreduce("multiply", plain(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)


@implements(np.max, np.amax)
def _max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _ufreduce("maximum", plain(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)


@implements(np.min, np.amin)
def _min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _ufreduce("minimum", plain(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)


@implements(np.mean)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    kd = bool(keepdims) if keepdims is not np._NoValue else False
    return _along(lambda l: scale(add(*l), Fraction(1, len(l))), a, axis, kd)


def _var_of(l, ddof=0):
    n = len(l)
    m = scale(add(*l), Fraction(1, n))
    return scale(add(*[power(add(x, scale(m, -1)), 2) for x in l]), Fraction(1, n - ddof))


@implements(np.var)
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
    kd = bool(keepdims) if keepdims is not np._NoValue else False
    return _along(lambda l: _var_of(l, ddof), a, axis, kd)


@implements(np.std)
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
    kd = bool(keepdims) if keepdims is not np._NoValue else False
    return _along(lambda l: power(_var_of(l, ddof), Fraction(1, 2)), a, axis, kd)


def sorted_perm(l):
    """Sorting permutation by comparisons (stable insertion sort)."""
    idx = []
    for i, x in enumerate(l):
        j = len(idx)
        while j > 0 and X.decide("lt", x, l[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def _sort_along(a, axis, arg):
    a = plain(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=int if arg else object)
    for i in np.ndindex(*b.shape[:-1]):
        l = [lift(x) for x in b[i]]
        p = sorted_perm(l)
        for j, q in enumerate(p):
            out[i + (j,)] = q if arg else l[q]
    return np.moveaxis(out, -1, axis)


@implements(np.sort)
def _sort(a, axis=-1, kind=None, order=None, **k):
    return wrap(_sort_along(a, axis, False))


@implements(np.argsort)
def _argsort(a, axis=-1, kind=None, order=None, **k):
    return _sort_along(a, axis, True)


@implements(np.argmax)
def _argmax(a, axis=None, out=None, **k):
    def f(l):
        b = 0
        for i in range(1, len(l)):
            if X.decide("lt", l[b], l[i]):
                b = i
        return const(b)
    return _along(f, a, axis).astype(int) if axis is not None else int(_along(f, a, axis))


@implements(np.argmin)
def _argmin(a, axis=None, out=None, **k):
    return _argmax(-a, axis)


@implements(np.quantile)
def _quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **k):
    if method != "linear":
        raise SymError("quantile method")
    if isinstance(q, (np.ndarray, list, tuple)) and np.ndim(q) > 0:
        return wrap(np.stack([plain(_quantile(a, x, axis)) for x in q], axis=0))
    qf = lift(q if not isinstance(q, np.ndarray) else q.item())
    if qf.op != "const":
        raise SymError("symbolic quantile level")
    qf = qf.args
    if not 0 <= qf <= 1:
        raise ValueError("Quantiles must be in the range [0, 1]")

    def f(l):
        p = sorted_perm(l)
        pos = qf * (len(l) - 1)
        lo = pos.numerator // pos.denominator
        w = pos - lo
        hi = min(lo + 1, len(l) - 1)
        return add(scale(l[p[lo]], 1 - w), scale(l[p[hi]], w))
    kd = bool(keepdims) if keepdims is not np._NoValue else False
    return _along(f, a, axis, kd)


@implements(np.percentile)
def _percentile(a, q, axis=None, **k):
    return _quantile(a, lift(q) / 100 if not isinstance(q, (list, tuple, np.ndarray)) else [lift(x) / 100 for x in q], axis)


@implements(np.median)
def _median(a, axis=None, **k):
    return _quantile(a, Fraction(1, 2), axis)


@implements(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = sym(start), sym(stop)
    div = (num - 1) if endpoint else num
    rows = []
    for i in range(num):
        if div == 0:
            rows.append(plain(a + 0 * b))
        else:
            rows.append(plain(a + (b - a) * const(Fraction(i, div))))
    out = np.empty((num,) + np.broadcast_shapes(a.shape, b.shape), dtype=object)
    for i, r in enumerate(rows):
        out[i] = r if not isinstance(r, np.ndarray) or r.ndim else r[()]
    return wrap(out)


@implements(np.where)
def _where(c, *ab):
    if isinstance(c, SymArray):
        if ab and X.HOOKS.lazy:
            return c * ab[0] + (1 - c) * ab[1]
        c = c.astype(bool)
    if not ab:
        return np.where(c)
    a, b = ab
    return wrap(np.where(c, _obj(plain(a)), _obj(plain(b))))


@implements(np.clip)
def _clip(a, lo=None, hi=None, **k):
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        a = np.minimum(a, hi)
    return a


@implements(np.dot)
def _dot(a, b):
    a, b = plain(sym(a)), plain(sym(b))
    if a.ndim == 0 or b.ndim == 0:
        return wrap(_UF["multiply"](a, b))
    if b.ndim <= 2 and a.ndim <= 2:
        return wrap(_matmul(a, b))
    raise SymError("dot")


@implements(np.inner)
def _inner(a, b):
    return np.dot(a, np.swapaxes(b, -1, -2) if np.ndim(b) > 1 else b)


@implements(np.outer)
def _outer(a, b):
    return sym(a).reshape(-1)[:, None] * sym(b).reshape(-1)[None, :]


@implements(np.vdot)
def _vdot(a, b):
    return np.sum(sym(a).reshape(-1) * sym(b).reshape(-1))


@implements(np.einsum)
def _einsum(spec, *ops, **k):
    ins, outs = spec.replace(" ", "").split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    if outs is None:
        letters = "".join(ins)
        outs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    if "." in spec:
        nd = max((np.ndim(o) - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s), default=0)
        dots = "ABCDEFGH"[:nd]
        sub = []
        for s, o in zip(ins, ops):
            k = np.ndim(o) - len(s.replace("...", ""))
            sub.append(s.replace("...", dots[nd - k:]))
        ins, outs = sub, outs.replace("...", dots)
    ops = [plain(sym(o)) for o in ops]
    dim = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dim[c] = d
    summed = [c for c in dim if c not in outs]
    out = np.empty([dim[c] for c in outs], dtype=object)
    for oi in np.ndindex(*out.shape):
        env = dict(zip(outs, oi))
        parts = []
        for si in np.ndindex(*[dim[c] for c in summed]):
            env.update(zip(summed, si))
            parts.append(mul(*[lift(o[tuple(env[c] for c in s)]) for s, o in zip(ins, ops)]))
        out[oi] = add(*parts) if parts else ZERO
    return wrap(out)


@implements(np.tensordot)
def _tensordot(a, b, axes=2):
    a, b = plain(sym(a)), plain(sym(b))
    if isinstance(axes, (int, np.integer)):
        ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ia, ib = [[x] if isinstance(x, (int, np.integer)) else list(x) for x in axes]
    ia, ib = [x % a.ndim for x in ia], [x % b.ndim for x in ib]
    ra, rb = [x for x in range(a.ndim) if x not in ia], [x for x in range(b.ndim) if x not in ib]
    sa, sb = [a.shape[x] for x in ra], [b.shape[x] for x in rb]
    if [a.shape[x] for x in ia] != [b.shape[x] for x in ib]:
        raise ValueError("shape-mismatch for sum")
    m = int(np.prod([a.shape[x] for x in ia], dtype=int))
    l = np.transpose(a, ra + ia).reshape(int(np.prod(sa, dtype=int)), m)
    q = np.transpose(b, ib + rb).reshape(m, int(np.prod(sb, dtype=int)))
    return wrap(_asarray(_matmul(l, q)).reshape(sa + sb))


@implements(np.trace)
def _trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    d = np.diagonal(plain(a), offset=offset, axis1=axis1, axis2=axis2)
    return _along(lambda l: add(*l) if l else ZERO, d, -1)


@implements(np.real)
def _real(a):
    return a.real


@implements(np.imag)
def _imag(a):
    return a.imag


@implements(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(sym(a) - sym(b)) <= atol + rtol * np.abs(sym(b))


@implements(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol)))


@implements(np.diff)
def _diff(a, n=1, axis=-1, **k):
    for _ in range(n):
        a = np.moveaxis(plain(a), axis, 0)
        a = wrap(np.moveaxis(plain(wrap(a[1:]) - wrap(a[:-1])), 0, axis))
    return a


@implements(np.trapz)
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(np.moveaxis(plain(sym(y)), axis, -1))
    if x is None:
        d = dx
    elif np.ndim(x) == 1:
        d = np.diff(sym(x))
    else:
        d = np.diff(wrap(np.moveaxis(plain(sym(x)), axis, -1)))
    return np.sum(d * (y[..., 1:] + y[..., :-1]) / 2, axis=-1)


@implements(np.ptp)
def _ptp(a, axis=None, **k):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


@implements(np.average)
def _average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return np.mean(a, axis=axis)
    w, a = sym(weights), sym(a)
    if w.shape != a.shape:
        w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)]) + 0 * a
    return np.sum(w * a, axis=axis) / np.sum(w, axis=axis)


@implements(np.round, np.around)
def _np_round(a, decimals=0, out=None):
    if decimals:
        return _np_round(a * 10**decimals) / 10**decimals
    return wrap(_vec(lambda e: fn("round", lift(e)), 1)(plain(a)))


@implements(np.nansum)
def _nansum(a, axis=None, **k):
    return np.sum(a, axis=axis)


@implements(np.nanmean)
def _nanmean(a, axis=None, **k):
    return np.mean(a, axis=axis)


@implements(np.nanmax)
def _nanmax(a, axis=None, **k):
    return np.max(a, axis=axis)


@implements(np.nanmin)
def _nanmin(a, axis=None, **k):
    return np.min(a, axis=axis)


@implements(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    x, xp, fp = sym(x), sym(xp), sym(fp)

    def f(v):
        v = wrap(v)
        if v <= xp[0]:
            return el(fp[0] if left is None or v == xp[0] else left)
        for i in range(1, len(xp)):
            if v <= xp[i]:
                return el(fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1]))
        return el(fp[-1] if right is None else right)
    return wrap(_vec(lambda e: f(lift(e)), 1)(plain(x)))


@implements(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    a = sym(a)
    rel = (lambda y, w: y < w) if side == "left" else (lambda y, w: y <= w)

    def f(w):
        n = 0
        while n < len(a) and rel(a[n], w):
            n += 1
        return n
    if np.ndim(v) == 0:
        return f(sym(v))
    return _array([f(w) for w in sym(v)])


@implements(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    return np.shape(a) == np.shape(b) and bool(np.all(sym(a) == sym(b)))


@implements(np.array_equiv)
def _array_equiv(a, b):
    return bool(np.all(sym(a) == sym(b)))


@implements(np.cov)
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = sym(m)
    m = m if rowvar else m.T
    m = m[None] if m.ndim == 1 else m
    if y is not None:
        raise SymError("cov of two")
    d = m - np.mean(m, axis=1, keepdims=True)
    ddof = (0 if bias else 1) if ddof is None else ddof
    return np.squeeze(_matmul_w(d, d.T) / (m.shape[1] - ddof))


def _matmul_w(a, b):
    return wrap(_matmul(plain(a), plain(b)))


@implements(np.linalg.multi_dot)
def _multi_dot(l, out=None):
    r = sym(l[0])
    for x in l[1:]:
        r = r @ x
    return r


@implements(np.linalg.pinv)
def _pinv(a, rcond=None, hermitian=False):
    if a.shape[-1] == a.shape[-2]:
        return np.linalg.inv(a)  # full rank
    raise SymError("pseudo-inverse")


@implements(np.correlate)
def _correlate(a, v, mode="valid"):
    a, v = sym(a), sym(v)
    n, m = len(a), len(v)
    full = []
    for k in range(-(m - 1), n):
        # c_k = sum_i a[i + k] * conj(v[i])
        ps = [mul(lift(plain(a)[i + k]), lift(plain(v)[i])) for i in range(m) if 0 <= i + k < n]
        full.append(add(*ps))
    full = _array(full, dtype=object)
    if mode == "full":
        r = full
    elif mode == "same":
        L = max(n, m)
        s = (len(full) - L) // 2
        r = full[s:s + L]
    else:
        L = max(n, m) - min(n, m) + 1
        s = min(n, m) - 1
        r = full[s:s + L]
    return wrap(r)


@implements(np.convolve)
def _convolve(a, v, mode="full"):
    return _correlate(a, sym(v)[::-1], mode)


@implements(np.nan_to_num)
def _n2n(a, *x, **k):
    return a


@implements(np.histogram)
def _hist(*a, **k):
    raise SymError("histogram")


# -- linear algebra -------------------------------------------------------------------------
def _batched(f, *mats):
    arrs = [plain(sym(m)) for m in mats]
    batch = np.broadcast_shapes(*[a.shape[:-2] for a in arrs])
    arrs = [np.broadcast_to(a, batch + a.shape[-2:]) for a in arrs]
    outs = np.empty(batch, dtype=object)
    for i in np.ndindex(*batch):
        outs[i] = f(*[a[i] for a in arrs])
    first = outs[(0,) * len(batch)] if batch else outs[()]
    if isinstance(first, np.ndarray):
        res = np.empty(batch + first.shape, dtype=object)
        for i in np.ndindex(*batch):
            res[i] = outs[i]
        return wrap(res)
    return wrap(outs)


def chol_plain(a):
    n = a.shape[0]
    if a.shape != (n, n):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    L = np.empty((n, n), dtype=object)
    L[...] = ZERO
    for j in range(n):
        s = add(lift(a[j, j]), *[scale(power(L[j, k], 2), -1) for k in range(j)])
        L[j, j] = ROOT[0](s)
        for i in range(j + 1, n):
            s = add(lift(a[i, j]), *[scale(mul(L[i, k], L[j, k]), -1) for k in range(j)])
            L[i, j] = mul(s, power(L[j, j], -1))
    return L


ROOT = [lambda s: power(s, Fraction(1, 2))]  # hook: exploration may recognise perfect squares


@implements(np.linalg.cholesky)
def _cholesky(a):
    return _batched(chol_plain, a)


def trisolve_plain(a, b, lower=True):
    n = a.shape[0]
    if a.shape != (n, n) or b.shape[0] != n:
        raise ValueError("incompatible dimensions")
    x = np.empty(b.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        ks = range(i) if lower else range(i + 1, n)
        ip = power(lift(a[i, i]), -1)
        for j in range(b.shape[1]):
            s = add(lift(b[i, j]), *[scale(mul(lift(a[i, k]), x[k, j]), -1) for k in ks])
            x[i, j] = mul(s, ip)
    return x


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, debug=None, check_finite=True):
    a, b = plain(sym(a)), plain(sym(b))
    if trans in (1, "T", 2, "C"):
        a, lower = a.T, not lower
    v = b.ndim == 1
    r = trisolve_plain(a, b[:, None] if v else b, lower)
    return wrap(r[:, 0] if v else r)


def minor(a, i, j):
    return np.delete(np.delete(a, i, 0), j, 1)


def det_plain(a):
    n = a.shape[0]
    if a.shape != (n, n):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if n == 0:
        return ONE
    if n == 1:
        return lift(a[0, 0])
    return add(*[scale(mul(lift(a[0, j]), det_plain(minor(a, 0, j))), (-1) ** j) for j in range(n)])


def inv_plain(a):
    n = a.shape[0]
    d = power(det_plain(a), -1)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[j, i] = mul(scale(det_plain(minor(a, i, j)), (-1) ** (i + j)), d)
    return r


@implements(np.linalg.det)
def _det(a):
    return _batched(det_plain, a)


@implements(np.linalg.slogdet)
def _slogdet(a):
    def ld(m):
        d = det_plain(m)
        return fn("log", abs(d))
    r = _batched(ld, a)
    return wrap(_array(ONE, dtype=object)), r


@implements(np.linalg.inv)
def _inv(a):
    return _batched(inv_plain, a)


@implements(np.linalg.solve)
def _solve(a, b):
    bb = sym(b)
    v = bb.ndim == np.ndim(a) - 1
    if v:
        bb = bb[..., None]
    r = _batched(lambda m, n: _matmul(inv_plain(m), n), a, bb)
    return r[..., 0] if v else r


@implements(np.linalg.matrix_power)
def _mpow(a, n):
    r = sym(_eye(a.shape[-1]))
    for _ in range(n):
        r = r @ a
    return r


@implements(np.linalg.norm)
def _norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise SymError("norm")
    return np.sqrt(np.sum(a * a, axis=axis))


EIGH = [None]  # hook: contract of the spectral decomposition


@implements(np.linalg.eigh)
def _eigh(a, UPLO="L"):
    w, q = EIGH[0](a)
    return wrap(w), wrap(q)


@implements(np.linalg.eigvalsh)
def _eigvalsh(a, UPLO="L"):
    return _eigh(a)[0]


@implements(np.linalg.eig)
def _eig(a):
    return _eigh(a)


@implements(np.linalg.svd)
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    # by contract through the spectral decomposition of a symmetric matrix: s = |w| descending
    w, q = EIGH[0](a)
    w, q = sym(w), sym(q)
    s = np.abs(w)
    order = sorted_perm([scale(lift(x), -1) for x in plain(s)])
    sg = _array([const(-1) if X.decide("lt", lift(x), ZERO) else ONE for x in plain(w)], dtype=object)
    if not compute_uv:
        return s[order]
    u = q[:, order]
    vt = (q * wrap(sg)[None, :])[:, order].T
    return u, s[order], vt


# -- Fourier ---------------------------------------------------------------------------------
class Cx:
    """A complex number of expressions (array level): (re, im)."""


DFT_MOST = 600  # number of points: far more than any check asks for


def dft(re, im, inverse=False):
    """Exact discrete Fourier transform of a vector of expressions."""
    n = len(re)
    if n > DFT_MOST:  # a candidate counterexample: the real code decides
        raise OverflowError(f"Fourier transform of {n} points")
    out_r, out_i = [], []
    for k in range(n):
        pr, pi_ = [], []
        for j in range(n):
            c, s = cos_sin_2pi(Fraction(k * j % n, n))
            if not inverse:
                s = scale(s, -1)
            # (re + i im)(c + i s)
            pr += [mul(re[j], c), scale(mul(im[j], s), -1)]
            pi_ += [mul(re[j], s), mul(im[j], c)]
        f = Fraction(1, n) if inverse else 1
        out_r.append(scale(add(*pr), f))
        out_i.append(scale(add(*pi_), f))
    return out_r, out_i


def cos_sin_2pi(fr):
    """cos and sin of 2 pi fr for denominators 1,2,3,4,5?,6,8,12,24 (exact)."""
    fr = fr % 1
    return _cos2pi(fr), _cos2pi(fr - Fraction(1, 4))


def _cos2pi(fr):
    fr = fr % 1
    if fr > Fraction(1, 2):
        fr = 1 - fr
    if fr > Fraction(1, 4):
        return scale(_cos2pi(Fraction(1, 2) - fr), -1)
    d = {Fraction(0): ONE, Fraction(1, 4): ZERO, Fraction(1, 6): const(Fraction(1, 2)),
         Fraction(1, 8): power(const(Fraction(1, 2)), Fraction(1, 2)),
         Fraction(1, 12): scale(power(const(3), Fraction(1, 2)), Fraction(1, 2)),
         Fraction(1, 5): scale(add(power(const(5), Fraction(1, 2)), const(-1)), Fraction(1, 4)),
         Fraction(1, 10): scale(add(power(const(5), Fraction(1, 2)), ONE), Fraction(1, 4))}
    if fr in d:
        return d[fr]
    return fn("cos", mul(const(2 * fr), X.PI))


class SymComplex:
    """Vector of complex expressions: just enough for the FFT based code."""
    __array_priority__ = 2000
    dtype = np.dtype(object)

    def __init__(self, re, im):
        self.re, self.im = sym(re), sym(im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def shape(self):
        return self.re.shape

    @property
    def ndim(self):
        return self.re.ndim

    @property
    def size(self):
        return self.re.size

    def __len__(self):
        return len(self.re)

    def __getitem__(self, i):
        return SymComplex(self.re[i], self.im[i])

    def __setitem__(self, i, v):
        v = self._c(v)
        self.re[i], self.im[i] = v.re, v.im

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def copy(self):
        return SymComplex(self.re.copy(), self.im.copy())

    def astype(self, dtype, *a, **k):
        return self if np.issubdtype(dtype, np.complexfloating) else self.re

    def reshape(self, *s):
        return SymComplex(self.re.reshape(*s), self.im.reshape(*s))

    def sum(self, axis=None, **k):
        return SymComplex(np.sum(self.re, axis), np.sum(self.im, axis))

    def __rtruediv__(self, o):
        return self._c(o) / self

    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) and 0 < n < 20:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        raise SymError("complex power")

    def conj(self):
        return SymComplex(self.re, -self.im)

    conjugate = conj

    def _c(self, o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(sym(np.broadcast_to(o.real, ())), sym(np.broadcast_to(o.imag, ())))
        if isinstance(o, np.ndarray) and np.iscomplexobj(o) and o.dtype != object:
            return SymComplex(sym(o.real), sym(o.imag))
        return SymComplex(sym(o), sym(o) * 0)

    def __add__(self, o):
        o = self._c(o)
        return SymComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._c(o)
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._c(o)
        d = o.re * o.re + o.im * o.im
        return self * SymComplex(o.re / d, -o.im / d)

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __abs__(self):
        return self.abs()

    def abs(self):
        return np.sqrt(self.re * self.re + self.im * self.im)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method != "__call__":
            raise SymError(f"complex ufunc {ufunc.__name__}.{method}")
        n = ufunc.__name__
        a = self._c(inputs[0])
        if n == "absolute":
            return a.abs()
        if n == "negative":
            return -a
        if n == "conjugate":
            return a.conj()
        if n == "exp":
            m = np.exp(a.re)
            return SymComplex(m * np.cos(a.im), m * np.sin(a.im))
        if n in ("add", "subtract", "multiply", "divide", "true_divide"):
            b = self._c(inputs[1])
            return {"add": a.__add__, "subtract": a.__sub__, "multiply": a.__mul__,
                    "divide": a.__truediv__, "true_divide": a.__truediv__}[n](b)
        if n == "square":
            return a * a
        if n == "power":
            return a ** inputs[1]
        if n == "log":
            return SymComplex(np.log(a.abs()), wrap(_vec(lambda y, x: fn("atan2", lift(y), lift(x)), 2)(plain(a.im), plain(a.re))))
        raise SymError(f"complex ufunc {n}")

    def __array_function__(self, func, types, args, kwargs):
        h = _CX.get(func)
        if h is None:
            raise SymError(f"complex function {func.__name__}")
        return h(*args, **kwargs)


def _cx(x):
    return x if isinstance(x, SymComplex) else SymComplex(sym(x), sym(x) * 0)


def fft(x, n=None, axis=-1, norm=None):
    x = _cx(x)
    if x.ndim != 1 or norm not in (None, "backward"):
        raise SymError("fft: only plain vectors are modelled")
    re, im = list(plain(x.re)), list(plain(x.im))
    if n is not None:
        re, im = (re + [ZERO] * n)[:n], (im + [ZERO] * n)[:n]
    r, i = dft([lift(v) for v in re], [lift(v) for v in im])
    return SymComplex(_array(r, dtype=object), _array(i, dtype=object))


def ifft(x, n=None, axis=-1, norm=None):
    x = _cx(x)
    if x.ndim != 1 or norm not in (None, "backward"):
        raise SymError("ifft: only plain vectors are modelled")
    re, im = list(plain(x.re)), list(plain(x.im))
    if n is not None:
        re, im = (re + [ZERO] * n)[:n], (im + [ZERO] * n)[:n]
    r, i = dft([lift(v) for v in re], [lift(v) for v in im], inverse=True)
    return SymComplex(_array(r, dtype=object), _array(i, dtype=object))


def rfft(x, n=None, axis=-1, norm=None):
    r = fft(x, n, axis, norm)
    m = len(r) // 2 + 1
    return r[:m]


def irfft(x, n=None, axis=-1, norm=None):
    x = _cx(x)
    n = 2 * (len(x) - 1) if n is None else n
    re, im = list(plain(x.re)), list(plain(x.im))
    fr, fi = [], []
    for k in range(n):
        if k < len(re):
            fr.append(lift(re[k]))
            fi.append(lift(im[k]))
        else:
            fr.append(lift(re[n - k]))
            fi.append(scale(lift(im[n - k]), -1))
    fi[0] = ZERO
    if n % 2 == 0:
        fi[n // 2] = ZERO
    return ifft(SymComplex(_array(fr, dtype=object), _array(fi, dtype=object))).re


def hilbert(x, N=None, axis=-1):
    """scipy.signal.hilbert by its definition (analytic signal)."""
    x = sym(x)
    n = len(x) if N is None else N
    f = fft(x, n)
    h = _zeros(n, dtype=int)
    if n % 2 == 0:
        h[0] = h[n // 2] = 1
        h[1:n // 2] = 2
    else:
        h[0] = 1
        h[1:(n + 1) // 2] = 2
    h = h.astype(object)
    return ifft(SymComplex(f.re * wrap(h), f.im * wrap(h)))


_CX = {
    np.real: lambda a: a.real,
    np.imag: lambda a: a.imag,
    np.fft.fft: fft,
    np.fft.ifft: ifft,
    np.fft.irfft: irfft,
    np.conj: lambda a: a.conj() if hasattr(a, "conj") else a,
    np.angle: lambda a, deg=False: np.log(a).imag,
    np.fft.fftshift: lambda a, axes=None: SymComplex(np.fft.fftshift(a.re), np.fft.fftshift(a.im)),
    np.fft.ifftshift: lambda a, axes=None: SymComplex(np.fft.ifftshift(a.re), np.fft.ifftshift(a.im)),
    np.concatenate: lambda l, axis=0: SymComplex(np.concatenate([_cx(x).re for x in l], axis), np.concatenate([_cx(x).im for x in l], axis)),
    np.flip: lambda a, axis=None: SymComplex(np.flip(a.re, axis), np.flip(a.im, axis)),
    np.absolute: lambda a: a.abs(),
    np.abs: lambda a: a.abs(),
    np.conjugate: lambda a: a.conj(),
    np.sum: lambda a, axis=None, **k: SymComplex(np.sum(a.re, axis), np.sum(a.im, axis)),
    np.mean: lambda a, axis=None, **k: SymComplex(np.mean(a.re, axis), np.mean(a.im, axis)),
    np.roll: lambda a, n, axis=None: SymComplex(np.roll(a.re, n, axis), np.roll(a.im, n, axis)),
    np.real_if_close: lambda a, tol=100: a,
    np.iscomplexobj: lambda a: True,
    np.ndim: lambda a: a.ndim,
    np.zeros_like: lambda a, **k: SymComplex(a.re * 0, a.im * 0),
    np.multiply: lambda a, b: _cx(a) * b,
    np.reshape: lambda a, shape, **k: SymComplex(np.reshape(a.re, shape), np.reshape(a.im, shape)),
    np.copy: lambda a, **k: SymComplex(a.re.copy(), a.im.copy()),
    np.append: lambda a, b, axis=None: SymComplex(np.append(_cx(a).re, _cx(b).re), np.append(_cx(a).im, _cx(b).im)),
    np.shape: lambda a: a.shape,
    np.size: lambda a, axis=None: a.size,
    np.where: lambda c, a, b: SymComplex(np.where(c, _cx(a).re, _cx(b).re), np.where(c, _cx(a).im, _cx(b).im)),
}
_HANDLED[np.fft.fft] = fft
_HANDLED[np.fft.ifft] = ifft
_HANDLED[np.fft.rfft] = rfft
_HANDLED[np.fft.irfft] = irfft


# -- numbers ------------------------------------------------------------------------------------
class SymFloat(float):
    """A Python number whose value is an expression (for code that treats numbers specially)."""

    __array_priority__ = 1500

    def __new__(cls, e):
        r = float.__new__(cls, float("nan"))
        r.e = lift(e)
        return r

    def __hash__(self):
        return hash(self.e.args) if self.e.op == "const" else 0

    def __float__(self):
        return float(self.e)

    def __bool__(self):
        return bool(self.e)

    def __int__(self):
        return int(self.e)

    def __repr__(self):
        return X.to_str(self.e)

    __str__ = __repr__

    def __format__(self, spec):
        return X.to_str(self.e)

    def __reduce__(self):
        raise SymError("a symbolic number was pickled")

    def __array__(self, *a, **k):
        return plain(wrap(self.e))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if any(isinstance(x, SymComplex) for x in inputs):
            return next(x for x in inputs if isinstance(x, SymComplex)).__array_ufunc__(ufunc, method, *inputs, out=out, **kw)
        ins = [sym(x.e) if isinstance(x, SymFloat) else x for x in inputs]
        r = wrap(_zero0()).__array_ufunc__(ufunc, method, *ins, out=out, **kw)
        if all(not isinstance(x, np.ndarray) for x in inputs) and isinstance(r, SymArray) and r.ndim == 0:
            return SymFloat(el(r))
        return r

    def __array_function__(self, func, types, args, kwargs):
        args = [_unfloat(a) for a in args]
        kwargs = {k: _unfloat(v) for k, v in kwargs.items()}
        return func(*args, **kwargs)

    def __round__(self, n=None):
        return SymFloat(fn("round", self.e))

    def __ceil__(self):
        return int(fn("ceil", self.e))

    def __floor__(self):
        return int(fn("floor", self.e))

    def __abs__(self):
        return SymFloat(abs(self.e))

    def __neg__(self):
        return SymFloat(-self.e)

    def __pos__(self):
        return self

    def astype(self, dtype, copy=False):
        return wrap(self.e).astype(dtype)

    def is_integer(self):
        raise SymError("is_integer")

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SymFloat(ZERO)


def _unfloat(x):
    if isinstance(x, SymFloat):
        return wrap(x.e)
    if type(x) in (list, tuple):
        return type(x)(_unfloat(v) for v in x)
    return x


def _zero0():
    return wrap(ZERO)


def _sf_op(name, swap):
    import operator
    op = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "pow": operator.pow}[name]

    def f(self, o):
        if isinstance(o, (SymArray, SymComplex)):
            return NotImplemented
        if isinstance(o, np.ndarray):
            s = wrap(self.e)
            return op(o, s) if swap else op(s, o)
        if isinstance(o, complex):
            raise SymError("complex arithmetic on a symbolic number")
        if isinstance(o, float) and not isinstance(o, SymFloat) and math.isinf(o):
            if name == "truediv" and not swap:
                return SymFloat(ZERO)
            raise SymError("arithmetic with infinity")
        b = o.e if isinstance(o, SymFloat) else lift(o)
        if b is NotImplemented:
            return NotImplemented
        return SymFloat(op(b, self.e) if swap else op(self.e, b))
    return f


def _sf_cmp(rel, neg, swap):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = o.e if isinstance(o, SymFloat) else o
        r = X.decide(rel, b, self.e) if swap else X.decide(rel, self.e, b)
        if r is NotImplemented:
            return r
        return (not r) if neg else bool(r)
    return f


for _n in ("add", "sub", "mul", "truediv", "pow"):
    setattr(SymFloat, f"__{_n}__", _sf_op(_n, False))
    setattr(SymFloat, f"__r{_n}__", _sf_op(_n, True))
SymFloat.__lt__ = _sf_cmp("lt", False, False)
SymFloat.__le__ = _sf_cmp("le", False, False)
SymFloat.__gt__ = _sf_cmp("lt", False, True)
SymFloat.__ge__ = _sf_cmp("le", False, True)
SymFloat.__eq__ = _sf_cmp("eq", False, False)
SymFloat.__ne__ = _sf_cmp("eq", True, False)


def sym_obj(r):
    """Object array of numbers/expressions to a SymArray; leaves other objects alone."""
    if not (isinstance(r, np.ndarray) and r.dtype == object):
        return r
    if isinstance(r, SymArray):
        return r
    out = np.empty(r.shape, dtype=object)
    for i in np.ndindex(*r.shape):
        v = lift(r[i])
        if v is NotImplemented:
            return r
        out[i] = v
    return out.view(SymArray)
