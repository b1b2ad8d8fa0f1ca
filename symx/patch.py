"""Stubs and hooks that let the real code run on symbolic arrays.

Nothing in /repo is changed: entries of NumPy, SciPy and LAB that are implemented in C (and so
cannot take symbolic arrays), random number generation, and the optimisers are replaced for the
duration of one execution. Every replacement is listed in DESIGN.md.
"""
import sys

import numpy as np
from fractions import Fraction

from . import expr as X
from . import array as A
from .expr import E, lift, const, ZERO, ONE, SymError, power, add, scale, mul

_saved = []
CUR = [None]

JAX = [False]  # replay on JAX arrays rather than on NumPy's
EXTRA = []  # callables (ctx, setter) registered by property modules


def _set(obj, name, val):
    _saved.append((obj, name, getattr(obj, name)))
    setattr(obj, name, val)


_np_array, _np_asarray, _np_zeros, _np_ones, _np_eye, _np_full = np.array, np.asarray, np.zeros, np.ones, np.eye, np.full
_np_linspace, _np_arange, _np_empty = np.linspace, np.arange, np.empty
_RS = np.random.RandomState


def _has_sym(x):
    if isinstance(x, (A.SymArray, A.SymComplex, E)) or (isinstance(x, float) and hasattr(x, "e")):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def _listsym(x):
    """Nested sequence with symbolic entries to an array."""
    if isinstance(x, (list, tuple)):
        parts = [_listsym(v) for v in x]
        return np.stack(parts)
    return A.sym(x.e if hasattr(x, "e") else x)


def p_array(x, dtype=None, *a, **k):
    if isinstance(x, A.SymComplex):
        return x
    if _has_sym(x):
        r = _listsym(x).copy() if isinstance(x, (list, tuple)) else A.sym(x.e if hasattr(x, "e") else x).copy()
        if dtype is not None:
            r = r.astype(dtype)
        nd = k.get("ndmin", 0)
        while r.ndim < nd:
            r = r[None]
        return r
    r = _np_array(x, dtype, *a, **k)
    return _objwrap(r, dtype)


def _objwrap(r, dtype):
    if dtype is object or (isinstance(dtype, np.dtype) and dtype == object):
        try:
            return A.sym_obj(r)
        except SymError:
            return r
    return r


def p_asarray(x, dtype=None, *a, **k):
    if isinstance(x, (A.SymArray, A.SymComplex)) and dtype is None:
        return x
    if _has_sym(x):
        return p_array(x, dtype)
    return _objwrap(_np_asarray(x, dtype, *a, **k), dtype)


def _creator(f):
    def g(*a, **k):
        dt = k.get("dtype", a[1] if len(a) > 1 and f in (_np_zeros, _np_ones, _np_empty) else None)
        if len(a) > 0 and any(_has_sym(x) for x in a):
            raise SymError(f"symbolic argument to {f.__name__}")
        r = f(*a, **k)
        return _objwrap(r, dt)
    g.__name__ = f.__name__
    return g


def p_full(shape, fill, dtype=None, **k):
    if _has_sym(fill):
        r = _np_empty(shape, dtype=object)
        r[...] = A.el(fill)
        return A.wrap(r)
    return _objwrap(_np_full(shape, fill, dtype, **k), dtype)


def p_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if _has_sym(start) or _has_sym(stop) or _has_sym(num) or dtype is object or (isinstance(dtype, np.dtype) and dtype == object):
        un = lambda x: A.sym(x.e if hasattr(x, "e") else x)
        return A._linspace(un(start), un(stop), int(num), endpoint, retstep)
    return _np_linspace(start, stop, num, endpoint, retstep, dtype, axis)


class SymState(_RS):
    """A random state whose draws are fresh variables, indexed by their position in the stream."""

    def __init__(self, seed=None, stream="g"):
        super().__init__(0)
        self.stream = stream
        self.count = 0

    def _draw(self, kind, shape):
        ctx = CUR[0]
        out = _np_empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            nm = f"{kind}.{self.stream}.{self.count}"
            self.count += 1
            fix = getattr(ctx, "draws", None)
            if fix is not None:
                out[i] = ctx.raw_const(fix(kind, self.stream, self.count - 1))
                continue
            out[i] = ctx.raw(nm, lo=0, hi=1) if kind == "u" else ctx.raw(nm)
        return ctx.pack(out) if ctx.symbolic else out.astype(float)

    def randn(self, *shape):
        return self._draw("n", tuple(int(s) for s in shape))

    def standard_normal(self, size=None):
        return self._draw("n", _shape(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw("n", _shape(size)) * scale + loc

    def rand(self, *shape):
        return self._draw("u", tuple(int(s) for s in shape))

    def random(self, size=None):
        return self._draw("u", _shape(size))

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._draw("u", _shape(size))

    def exponential(self, scale=1.0, size=None):
        return -np.log(self._draw("u", _shape(size))) * scale

    def permutation(self, n):
        return np.arange(n) if isinstance(n, (int, np.integer)) else n

    def copy(self):
        s = SymState(stream=self.stream)
        s.count = self.count
        return s

    def get_state(self, legacy=True):
        return ("sym", self.stream, self.count)

    def set_state(self, s):
        _, self.stream, self.count = s


def _shape(size):
    if size is None:
        return ()
    return tuple(size) if isinstance(size, (tuple, list)) else (int(size),)


class _GlobalDraw:
    """Stands for `np.random.random`, which LAB asks for the global random state."""

    def __init__(self, g):
        self.g = g

    @property
    def __self__(self):
        return self.g.copy()

    def __call__(self, size=None):
        return self.g.random(size)


def _functional_states():
    """States as in JAX: drawing returns an advanced state and leaves the given one alone."""
    import lab as B
    from lab.types import Int, NPDType
    from typing import Union
    from lab.types import NPNumeric, Number
    import lab.numpy.random as R

    @B.dispatch
    def randn(state: SymState, dtype: NPDType, *shape: Int):
        state = state.copy()
        return state, B.cast(dtype, state.randn(*shape))

    @B.dispatch
    def rand(state: SymState, dtype: NPDType, *shape: Int):
        state = state.copy()
        return state, B.cast(dtype, state.rand(*shape))

    # Arrays of expressions stay such.
    @B.dispatch(precedence=1)
    def cast(dtype: NPDType, a: Union[Number, NPNumeric]):
        if dtype is object or (isinstance(dtype, np.dtype) and dtype == object):
            return a if isinstance(a, A.SymArray) else A.sym(a)
        if B.dtype(a) == dtype:
            return a
        return a.astype(dtype, copy=False) if hasattr(a, "astype") else np.array(a, dtype=dtype)

    @B.dispatch
    def set_global_random_state(state: SymState):
        np.random.random.g.set_state(state.get_state())

    # Without a state, the global one is advanced.
    @B.dispatch
    def randn(dtype: NPDType, *shape: Int):
        state, x = B.randn(B.global_random_state(dtype), dtype, *shape)
        if CUR[0] is not None:
            B.set_global_random_state(state)
        return x

    @B.dispatch
    def rand(dtype: NPDType, *shape: Int):
        state, x = B.rand(B.global_random_state(dtype), dtype, *shape)
        if CUR[0] is not None:
            B.set_global_random_state(state)
        return x


def _jax_states():
    """Replays on JAX arrays take the same draws."""
    import lab as B
    from lab.types import Int, JAXDType

    def on():
        return CUR[0] is not None

    import jax

    @B.dispatch
    def create_random_state(dtype: JAXDType, seed: Int = 0):
        return SymState(stream=f"s{seed}") if on() else jax.random.PRNGKey(seed=seed)

    @B.dispatch
    def global_random_state(dtype: JAXDType):
        return CUR[0].global_state.copy() if on() else B.jax_global_random_state

    @B.dispatch
    def randn(state: SymState, dtype: JAXDType, *shape: Int):
        state = state.copy()
        return state, jax.numpy.asarray(state.randn(*shape))

    @B.dispatch
    def rand(state: SymState, dtype: JAXDType, *shape: Int):
        state = state.copy()
        return state, jax.numpy.asarray(state.rand(*shape))

    @B.dispatch
    def randn(dtype: JAXDType, *shape: Int):
        state, x = B.randn(B.global_random_state(dtype), dtype, *shape)
        B.set_global_random_state(state)
        return x

    @B.dispatch
    def rand(dtype: JAXDType, *shape: Int):
        state, x = B.rand(B.global_random_state(dtype), dtype, *shape)
        B.set_global_random_state(state)
        return x


import lab.jax  # noqa: E402  (registers what is replaced here)

_functional_states()
_jax_states()


def no_jit(f=None, **kw):
    """`B.jit` without compilation."""
    if f is None:
        return lambda g: g
    return f


def p_randomstate(seed=None, *a, **k):
    return SymState(stream=f"s{seed}")


def _common(ctx):
    g = SymState(stream="g")
    ctx.global_state = g
    _set(np.random, "random", _GlobalDraw(g))
    _set(np.random, "randn", g.randn)
    _set(np.random, "rand", g.rand)
    _set(np.random, "normal", g.normal)
    _set(np.random, "standard_normal", g.standard_normal)
    _set(np.random, "uniform", g.uniform)
    _set(np.random, "exponential", g.exponential)
    _set(np.random, "permutation", g.permutation)
    _set(np.random, "RandomState", p_randomstate)
    import lab
    B = lab.B if hasattr(lab, "B") else lab
    _set(B, "epsilon", 0.0)
    _set(B, "jit", no_jit)


def _bvn(a, b, c):
    a, b, c = A.sym(a), A.sym(b), A.sym(c)
    s = np.broadcast_shapes(a.shape, b.shape, c.shape)
    a, b, c = (np.broadcast_to(A.plain(x), s) for x in (a, b, c))
    out = _np_empty(s, dtype=object)
    for i in np.ndindex(*s):
        out[i] = X.fn("bvn", lift(a[i]), lift(b[i]), lift(c[i]))
    return A.wrap(out)


_JNP = """abs absolute add all any allclose append arange argmax argmin argsort array array_equal asarray atleast_1d atleast_2d
average broadcast_to clip column_stack concatenate conj convolve correlate cos cosh cumprod cumsum diag diagonal diff divide dot einsum exp
expand_dims expm1 flip full full_like hstack imag inner isclose kron linspace log log10 log1p log2 logaddexp logical_and logical_not
logical_or matmul max maximum mean median meshgrid min minimum moveaxis multiply negative ones_like outer pad percentile power prod ptp
quantile ravel real reciprocal repeat reshape roll round sign sin sinh sort split sqrt square squeeze stack std subtract sum swapaxes take tan
tanh tensordot tile trace transpose tril triu true_divide var vdot vstack where zeros_like""".split()


def _lenient(f):
    """Without the keyword arguments that do not change the value."""
    def g(*a, **k):
        for n in ("overwrite_a", "overwrite_b", "check_finite", "assume_a", "sym_pos", "symmetrize_input", "hermitian", "precision"):
            k.pop(n, None)
        return f(*a, **k)
    return g


def _cho_solve(c_and_lower, b, **k):
    c, lower = c_and_lower
    x = A.solve_triangular(c, b, lower=bool(lower), trans=0 if lower else 1)
    return A.solve_triangular(c, x, lower=bool(lower), trans=1 if lower else 0)


def _sym_or(f, g):
    def h(*a, **k):
        if any(isinstance(x, (A.SymArray, A.SymComplex)) or (isinstance(x, float) and hasattr(x, "e")) or (isinstance(x, (list, tuple)) and _has_sym(x))
               for x in list(a) + list(k.values())):
            return g(*a, **k)
        return f(*a, **k)
    h.__name__ = getattr(f, "__name__", "f")
    return h


def _flow(jax):
    """JAX's control flow, executed step by step."""
    from jax import tree_util as tu

    def join(ys):
        return tu.tree_map(lambda *x: np.stack([np.asarray(v) for v in x]), *ys)

    def vmap(f, in_axes=0, out_axes=0, **kw):
        def g(*args, **kw_args):
            axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
            n = [np.shape(tu.tree_leaves(a)[0])[ax] for a, ax in zip(args, axes) if ax is not None]

            def pick(a, ax, i):
                return a if ax is None else tu.tree_map(lambda x: np.take(x, i, axis=ax), a)

            ys = [f(*[pick(a, ax, i) for a, ax in zip(args, axes)],
                    **{k: pick(v, 0, i) for k, v in kw_args.items()}) for i in range(n[0])]
            if out_axes == 0:
                return join(ys)
            return tu.tree_map(lambda *x: np.stack([np.asarray(v) for v in x], axis=out_axes), *ys)
        return g

    def scan(f, init, xs=None, length=None, reverse=False, **kw):
        n = length if xs is None else len(tu.tree_leaves(xs)[0])
        carry, ys = init, [None] * n
        for i in (reversed(range(n)) if reverse else range(n)):
            carry, ys[i] = f(carry, None if xs is None else tu.tree_map(lambda x: x[i], xs))
        return carry, (None if not n or ys[0] is None else join(ys))

    def fori_loop(lower, upper, body, init, **kw):
        for i in range(int(lower), int(upper)):
            init = body(i, init)
        return init

    def while_loop(cond, body, init):
        while cond(init):
            init = body(init)
        return init

    def cond(pred, true_fun, false_fun, *operands, operand=None, **kw):
        if operand is not None:
            operands = (operand,)
        return true_fun(*operands) if pred else false_fun(*operands)

    def lmap(f, xs, **kw):
        return join([f(tu.tree_map(lambda x: x[i], xs)) for i in range(len(tu.tree_leaves(xs)[0]))])

    def select(pred, on_true, on_false):
        return np.where(pred, on_true, on_false)

    _set(jax, "vmap", vmap)
    _set(jax, "jit", no_jit)
    for nm, f in (("scan", scan), ("fori_loop", fori_loop), ("while_loop", while_loop), ("cond", cond), ("map", lmap), ("select", select)):
        _set(jax.lax, nm, f)


def _rebind():
    """Names that the repository imported before they were replaced."""
    new = {id(old): getattr(obj, name) for obj, name, old in _saved if callable(old) and getattr(obj, name) is not old}
    for n, m in list(sys.modules.items()):
        if n == "gpcm" or n.startswith("gpcm."):
            for k, v in list(vars(m).items()):
                if id(v) in new and v is not new[id(v)] and callable(v) and not isinstance(v, type):
                    _set(m, k, new[id(v)])


def enter(ctx):
    """Symbolic execution."""
    CUR[0] = ctx
    X.HOOKS.decide = ctx.decide
    X.HOOKS.weak, X.HOOKS.sign = ctx.weak, ctx.sign
    X.HOOKS.concretise_int = ctx.concretise_int

    def tiny(x, bound):
        """max(x, 1e-30)-style floors: inactive, when the argument is shown positive."""
        if X.is_known_positive(x) or ctx.is_positive(x):
            ctx.job.assumption("numerical floors (such as max(x, 1e-30) in safe_sqrt) are inactive: arguments exceed them")
            return True
        return False

    A.REBIND[0] = JAX[0]
    A.TINY[0] = tiny
    A.ROOT[0] = root
    A.EIGH[0] = A.UNDEF[0] = None
    _common(ctx)
    _set(np, "array", p_array)
    _set(np, "asarray", p_asarray)
    _set(np, "zeros", _creator(_np_zeros))
    _set(np, "ones", _creator(_np_ones))
    _set(np, "eye", _creator(_np_eye))
    _set(np, "arange", _creator(_np_arange))
    _set(np, "full", p_full)
    _set(np, "linspace", p_linspace)
    import scipy.linalg as sla
    _set(sla, "solve_triangular", _sym_or(sla.solve_triangular, A.solve_triangular))
    for nm in ("inv", "det", "solve", "norm"):
        _set(sla, nm, _sym_or(getattr(sla, nm), _lenient(getattr(np.linalg, nm))))
    _set(sla, "cholesky", _sym_or(sla.cholesky, lambda a, lower=False, **k: np.linalg.cholesky(a) if lower else np.linalg.cholesky(a).T))
    _set(sla, "cho_factor", _sym_or(sla.cho_factor, lambda a, lower=False, **k: (np.linalg.cholesky(a) if lower else np.linalg.cholesky(a).T, lower)))
    _set(sla, "cho_solve", _sym_or(sla.cho_solve, _cho_solve))
    import jax.numpy as jnp
    for nm in _JNP:
        if hasattr(jnp, nm) and hasattr(np, nm):
            _set(jnp, nm, _sym_or(getattr(jnp, nm), getattr(np, nm)))
    for nm in ("inv", "det", "solve", "norm", "cholesky", "slogdet", "eigh", "eigvalsh", "svd", "multi_dot", "pinv"):
        _set(jnp.linalg, nm, _sym_or(getattr(jnp.linalg, nm), _lenient(getattr(np.linalg, nm))))
    for nm in ("fft", "ifft", "rfft", "irfft", "fftshift", "ifftshift"):
        _set(jnp.fft, nm, _sym_or(getattr(jnp.fft, nm), getattr(np.fft, nm)))
    import importlib
    lg = importlib.import_module("lab.numpy.generic")
    _set(lg, "_bvn_cdf", _sym_or(lg._bvn_cdf, _bvn))
    import jax
    _flow(jax)
    for f in EXTRA:
        f(ctx, _set)
    _rebind()


def enter_concrete(ctx):
    """Replay: only randomness (and what the property modules register) is replaced."""
    CUR[0] = ctx
    _common(ctx)
    for f in EXTRA:
        f(ctx, _set)


def root(s):
    """Square root of a Cholesky pivot."""
    return power(s, Fraction(1, 2))


def leave():
    while _saved:
        obj, name, val = _saved.pop()
        setattr(obj, name, val)
    X.HOOKS.decide = X.HOOKS.weak = X.HOOKS.sign = None
    X.HOOKS.concretise_int = None
    X.HOOKS.lazy = X.HOOKS.any_lazy = False
    A.TINY[0] = None
    CUR[0] = None
