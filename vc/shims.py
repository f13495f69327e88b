"""Names the real code sees while it is executed on symbolic reals.

Only names bound in the modules under verification are replaced (numpy, math,
uncertainties.umath/unumpy, and the builtins float, len, range, enumerate,
zip), and only during a symbolic run.  For concrete arguments every
replacement is the original function.  What a replacement assumes about the
library is listed in ASSUMED.
"""
import builtins
import contextlib
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, SymC, Cond, STATE, unsupported, const, must, uf, PI
from .loops import (SymArr, SymRange, SymEnumerate, SymZip,
                    is_symbolic_iterable)

ASSUMED = [
    'machine floats are treated as mathematical reals; a float literal stands '
    'for the shortest decimal that prints it, and multiples of pi for pi',
    'numpy array construction, indexing, broadcasting, dot, cross, stacking '
    'and reductions act on object arrays as they do on float arrays',
    'numpy.linalg.det/inv/norm of matrices up to 4x4 are the mathematical '
    'functions; pinv of a full rank tall matrix is its left inverse on '
    'consistent systems; eig returns some eigenpairs of its argument',
    'uncertainties carries nominal values exactly as plain arithmetic',
]


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymC, SymArr, Cond)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(
            isinstance(e, (Sym, SymC)) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def elementwise(f):
    def g(x):
        if isinstance(x, SymArr):
            return x._map(g)
        if isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray):
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                r[i] = f(x[i])
            return r[()] if x.ndim == 0 else r
        return f(x)
    return g


def _real(x):
    return x.real


def _imag(x):
    if isinstance(x, Sym):
        return const(0)
    return x.imag


def _method(name):
    def f(x):
        if isinstance(x, Sym):
            return getattr(x, name)()
        if isinstance(x, SymC):
            unsupported(name + ' of a complex value')
        s = must(x)
        return getattr(s, name)()
    return elementwise(f)


def _round(x, decimals=0, **k):
    if decimals:
        ten = const(Fraction(10) ** int(decimals))
        return _method('rint')(x * ten) / ten
    return _method('rint')(x)


UNARY = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'arcsin',
         'acos': 'arccos', 'atan': 'arctan', 'arcsin': 'arcsin',
         'arccos': 'arccos', 'arctan': 'arctan', 'sqrt': 'sqrt',
         'exp': 'exp', 'log': 'log', 'log10': 'log10', 'fabs': 'fabs',
         'radians': 'radians',
         'degrees': 'degrees', 'deg2rad': 'deg2rad', 'rad2deg': 'rad2deg',
         'square': 'square', 'conjugate': 'conjugate', 'conj': 'conjugate'}


# ------------------------------------------------------------ float & co
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, Sym))

    def __eq__(cls, o):
        return o is cls or o is builtins.float or o is Sym

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            if sym.deviations(x):
                raise TypeError("can't convert an affine function to float")
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1 \
                and has_sym(x):
            if x.ndim:
                # numpy converts size one arrays (deprecated for ndim > 0)
                return x.reshape(-1)[0]
            return x.item()
        if isinstance(x, str):
            s = sym.tokens.parse(x)
            if s is not None:
                return s
        return builtins.float(x)


class _NPFloat(FloatShim):
    pass


def len_(x):
    if isinstance(x, (SymArr, SymRange, SymZip)):
        return x.__symlen__()
    return builtins.len(x)


def range_(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [int(x.value) if isinstance(x, Sym) and x.is_const and
             x.value.denominator == 1 else x for x in a]
        if not any(isinstance(x, Sym) for x in a):
            return builtins.range(*a)
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return builtins.range(*a)


def enumerate_(x, start=0):
    if is_symbolic_iterable(x):
        return SymEnumerate(x, start)
    return builtins.enumerate(x, start)


def zip_(*xs, **kw):
    if any(is_symbolic_iterable(x) for x in xs):
        return SymZip(*xs)
    return builtins.zip(*xs, **kw)


# ------------------------------------------------------------ linear algebra
def _sq(A):
    A = np.asarray(A, dtype=object)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                    'square')
    return A


def det(A):
    A = _sq(A)
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    r = 0
    for j in range(n):
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        r = r + (-1) ** j * A[0, j] * det(minor)
    return r


def inv(A):
    if isinstance(A, SymArr) and A.ndim == 3:
        return A._map(inv)
    if np.ndim(A) == 3:
        return np.array([inv(a) for a in A], dtype=object)
    A = _sq(A)
    n = A.shape[0]
    if n > 4:
        # some function of the entries
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                r[i, j] = uf('inv[%d,%d]' % (i, j), *A.flat)
        return r
    d = must(det(A))
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(A, j, 0), i, 1)
            r[i, j] = ((-1) ** (i + j) * det(minor) if n > 1 else 1) / d
    return r


def pinv(A):
    A = np.asarray(A, dtype=object)
    if A.ndim == 2 and A.shape[0] == A.shape[1]:
        return inv(A)
    if A.ndim == 2 and A.shape[0] > A.shape[1]:
        return LeftInverse(A)
    unsupported('pseudo inverse of a wide matrix')


class LeftInverse(object):
    """pinv(A) of a tall A, usable only as pinv(A) @ b with b = A x.

    Contract assumed of pinv: for A of full column rank pinv(A) (A x) = x.
    The x is found by solving the first rows and every other row is an
    obligation that is discharged before x is returned.
    """
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, A):
        self.A = A

    def __matmul__(self, b):
        return self.dot(b)

    def __mul__(self, b):
        return self.dot(b)

    @property
    def T(self):
        unsupported('transpose of a pseudo inverse')

    def dot(self, b):
        A = self.A
        b = np.asarray(b, dtype=object)
        flat = b.reshape(-1)
        n = A.shape[1]
        if getattr(STATE.engine, 'eps', None) or \
                getattr(STATE.engine, 'opaque_lstsq', False):
            # some function of the matrix and the right hand side
            key = [must(e) for e in A.reshape(-1)] + [must(e) for e in flat]
            return np.array([uf('lstsq:%d of %s' % (i, A.shape), *key)
                             for i in range(n)], dtype=object)
        w = STATE.engine.eng.witness if hasattr(STATE.engine.eng, 'witness') \
            else {}
        x = w.get('pinv')
        if x is None:
            x = inv(A[:n]) @ flat[:n]
        else:
            x = np.array(x, dtype=object)
        for i in range(A.shape[0]):
            if not STATE.engine.provably_equal(
                    sum(A[i, k] * x[k] for k in range(n)), flat[i]):
                unsupported('least squares of an inconsistent system')
        return x.reshape((n,) + b.shape[1:])


def solve(A, b):
    if isinstance(A, SymArr) or isinstance(b, SymArr):
        return inv(A) @ b
    return np.dot(inv(A), np.asarray(b, dtype=object))


def lstsq(A, b, *a, **k):
    return pinv(A).dot(b) if np.asarray(A).shape[0] != np.asarray(
        A).shape[1] else solve(A, b), None, None, None


def norm(x, ord=None, axis=None, keepdims=False):
    x = np.asarray(x, dtype=object)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim != 1) or keepdims:
        unsupported('norm of order %r' % (ord,))
    if axis is None:
        s = 0
        for e in x.reshape(-1):
            s = s + _abs2(e)
        return must(s).sqrt()
    sq = elementwise(_abs2)(x)
    return elementwise(lambda e: must(e).sqrt())(np.sum(sq, axis=axis))


def _abs2(e):
    if isinstance(e, SymC):
        return e.real * e.real + e.imag * e.imag
    return e * e


def eig(A):
    """Contract of eig: eigenvalues and columns are functions of A."""
    if isinstance(A, SymArr) and A.ndim == 3:
        f = A._frozen()
        return (SymArr(A.n, A.inner[:1], lambda k: eig(f(k))[0]),
                SymArr(A.n, A.inner, lambda k: eig(f(k))[1]))
    A = np.asarray(A, dtype=object)
    if A.ndim == 3:
        parts = [eig(a) for a in A]
        return (np.array([w for w, _ in parts], dtype=object).view(OArr),
                np.array([v for _, v in parts], dtype=object).view(OArr))
    if A.ndim != 2:
        unsupported('stacked eig')
    n = A.shape[0]
    hit = spectral_witness(A)
    if hit is not None:
        STATE.engine.stubbed.add('numpy.linalg.eig')
        return np.array(hit[0], dtype=object), np.array(hit[1], dtype=object)
    key = [must(e) for e in A.reshape(-1)]
    w = OArr((n,))
    v = OArr((n, n))
    for i in range(n):
        w[i] = SymC(uf('eigval.re:%d' % i, *key), uf('eigval.im:%d' % i, *key))
        for j in range(n):
            v[j, i] = SymC(uf('eigvec.re:%d,%d' % (j, i), *key),
                           uf('eigvec.im:%d,%d' % (j, i), *key))
    STATE.engine.stubbed.add('numpy.linalg.eig')
    return w, v


def spectral_witness(A):
    """The contract introduced A as V diag(w) V^T with orthonormal V."""
    for B, w, V in getattr(STATE.engine, 'spectral', ()):
        if B.shape == A.shape and all(
                x is y or STATE.engine.provably_equal(x, y)
                for x, y in zip(A.reshape(-1), B.reshape(-1))):
            return w, V
    return None


def eigh(A, UPLO='L'):
    """Contract of eigh: ascending eigenvalues, orthonormal columns."""
    A = np.asarray(A, dtype=object)
    if A.ndim != 2:
        unsupported('stacked eigh')
    hit = spectral_witness(A)
    if hit is None:
        unsupported('eigh of a matrix without a spectral form')
    STATE.engine.stubbed.add('numpy.linalg.eigh')
    w, V = hit
    order = np.argsort(np.array(w, dtype=object), kind='stable')
    return (np.array(w, dtype=object)[order],
            np.array(V, dtype=object)[:, order])


def eigvalsh(A, UPLO='L'):
    return eigh(A)[0]


class OArr(np.ndarray):
    """Object array of complex entries with numpy's real/imag semantics."""
    def __new__(cls, shape):
        r = np.empty(shape, dtype=object).view(cls)
        return r

    @property
    def real(self):
        return np.asarray(elementwise(_real)(np.asarray(self)))

    @property
    def imag(self):
        return np.asarray(elementwise(_imag)(np.asarray(self)))

    def conj(self):
        return elementwise(lambda e: e.conjugate())(np.asarray(self)
                                                    ).view(OArr)
    conjugate = conj


def as_oarr(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(
            x, OArr) and any(isinstance(e, SymC) for e in x.flat):
        return x.view(OArr)
    return x


class Proxy(object):
    """A module with some names replaced."""
    def __init__(self, module, over):
        self.__dict__['_module'] = module
        self.__dict__['_over'] = over

    def __getattr__(self, name):
        o = self._over
        if name in o:
            return o[name]
        return getattr(self._module, name)

    def __setattr__(self, name, value):
        unsupported('assignment to a library module')


_PLAIN = (int, float, np.float64, np.int64)


def either(orig, symbolic):
    """Use the symbolic version iff an argument is symbolic."""
    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return symbolic(*a, **k)
        # arrays of plain numbers that were made as arrays of objects
        a = [x.astype(float) if isinstance(x, np.ndarray) and
             x.dtype == object and x.size and
             all(type(e) in _PLAIN for e in x.flat) else x for x in a]
        return orig(*a, **k)
    f.__name__ = getattr(orig, '__name__', 'f')
    f.__wrapped__ = orig
    return f


# ------------------------------------------------------------ array creation
def _is_int_dtype(dtype):
    if dtype is None or dtype in (FloatShim, _NPFloat):
        return False
    try:
        return np.dtype(dtype).kind in 'biuSU'
    except TypeError:
        return False


def _shape(shape):
    if isinstance(shape, np.ndarray):
        shape = tuple(shape.tolist())
    if isinstance(shape, (list, tuple)):
        shape = tuple(shape)
    else:
        shape = (shape,)
    return tuple(int(s.value) if isinstance(s, Sym) and s.is_const else s
                 for s in shape)


def _fill(shape, value, dtype):
    shape = _shape(shape)
    if any(isinstance(s, Sym) for s in shape):
        if not isinstance(shape[0], Sym) or any(isinstance(s, Sym)
                                                for s in shape[1:]):
            unsupported('symbolic inner dimension')
        inner = shape[1:]

        def elem(k):
            if inner == ():
                return value
            r = np.empty(inner, dtype=object)
            r.fill(value)
            return r
        return SymArr(shape[0], inner, elem)
    if _is_int_dtype(dtype):
        if isinstance(value, Sym) and value.is_const:
            value = int(value.value)
        return np.full(shape, 0 if value is None else value, dtype=dtype)
    r = np.empty(shape, dtype=object)
    if isinstance(value, np.ndarray):
        r[...] = value
    else:
        r.fill(value)
    return as_oarr_empty(r, dtype)


def as_oarr_empty(r, dtype):
    try:
        if dtype is not None and dtype not in (FloatShim, _NPFloat) and \
                np.dtype(dtype).kind == 'c':
            return r.view(OArr)
    except TypeError:
        pass
    return r


def zeros(shape, dtype=None, order='C', **k):
    return _fill(shape, sym.ZERO, dtype)


def empty(shape, dtype=None, order='C', **k):
    # unwritten entries are unknown values
    return _fill(shape, uf('uninitialised'), dtype)


def ones(shape, dtype=None, order='C', **k):
    return _fill(shape, sym.ONE, dtype)


def full(shape, fill_value, dtype=None, **k):
    return _fill(shape, fill_value, dtype)


def _like(make):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        if isinstance(a, SymArr):
            r = make(a.shape if shape is None else shape, dtype)
            r.complex = a.complex and dtype is None
            return r
        a2 = np.asarray(a)
        if dtype is None and a2.dtype.kind in 'biu':
            dtype = a2.dtype
        if dtype is None and isinstance(a, OArr):
            dtype = complex
        if dtype is None and a2.dtype.kind == 'c':
            dtype = complex
        return make(a2.shape if shape is None else shape, dtype)
    return f


def eye(N, M=None, k=0, dtype=None, **kw):
    return lift_array(np.eye(N, M, k))


def lift_array(a):
    if a.dtype.kind == 'f':
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            r[i] = a[i].item()
        return r
    return a


def array(obj, dtype=None, *a, **k):
    if isinstance(obj, SymArr):
        return obj.copy() if k.get('copy', True) else obj
    if isinstance(obj, (list, tuple)) and any(isinstance(e, SymArr)
                                              for e in obj):
        # a list of vectors over the symbolic axis: unsupported layout
        unsupported('array of arrays of symbolic length')
    if dtype in (FloatShim, _NPFloat) or dtype is None or not _is_int_dtype(
            dtype):
        kk = {x: y for x, y in k.items() if x in ('copy', 'ndmin', 'order',
                                                   'subok')}
        if has_sym(obj):
            r = np.array(obj, dtype=object, **kk)
            return as_oarr(r)
        if dtype in (FloatShim, _NPFloat):
            dtype = float
        try:
            r = np.array(obj, dtype, *a, **k)
        except Exception:
            raise
        if r.dtype.kind == 'f':
            # must be able to hold symbolic values later
            return lift_array(r)
        return r
    return np.array(obj, dtype, *a, **k)


def asarray(obj, dtype=None, *a, **k):
    if isinstance(obj, SymArr):
        return obj
    if isinstance(obj, np.ndarray) and (obj.dtype == object or
                                        not has_sym(obj)):
        if dtype is None or not _is_int_dtype(dtype):
            return obj if obj.dtype.kind in 'Ofiub' and (
                dtype is None or obj.dtype == object) else np.asarray(
                    obj, dtype if dtype not in (FloatShim, _NPFloat)
                    else float)
    return array(obj, dtype, *a, **k)


def tile(a, reps):
    if isinstance(reps, (Sym, tuple, list)) and any(
            isinstance(r, Sym) for r in (reps if isinstance(
                reps, (tuple, list)) else (reps,))):
        a = np.asarray(a, dtype=object)
        reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
        if len(reps) == a.ndim + 1 and all(
                r == 1 for r in reps[1:] if not isinstance(r, Sym)) and not \
                any(isinstance(r, Sym) for r in reps[1:]):
            a = a.copy()
            return SymArr(reps[0], a.shape, lambda k: a.copy())
        if len(reps) == a.ndim == 1 and a.size == 1:
            e = a[0]
            return SymArr(reps[0], (), lambda k: e)
        if len(reps) == 1 and a.ndim == 0:
            e = a.item()
            return SymArr(reps[0], (), lambda k: e)
        unsupported('tile')
    return np.tile(a, reps)


def repeat(a, repeats, axis=None):
    if isinstance(repeats, Sym):
        a = np.asarray(a, dtype=object)
        if a.ndim == 0:
            e = a.item()
            return SymArr(repeats, (), lambda k: e)
        if a.shape[0] == 1 and axis == 0:
            e = a[0].copy()
            return SymArr(repeats, e.shape, lambda k: e.copy())
        unsupported('repeat')
    return np.repeat(a, repeats, axis)


def broadcast_to(a, shape, **k):
    shape = _shape(shape)
    if any(isinstance(s, Sym) for s in shape):
        if isinstance(a, SymArr):
            return a
        a = np.broadcast_to(np.asarray(a, dtype=object), shape[1:])
        return SymArr(shape[0], shape[1:], lambda k: a.copy() if a.ndim
                      else a.item())
    return np.broadcast_to(a, shape, **k)


def stack(arrays, axis=0, **k):
    if is_symbolic_iterable(arrays) or any(isinstance(x, SymArr)
                                           for x in arrays):
        unsupported('stack of symbolic length arrays')
    return np.stack(arrays, axis=axis, **k)


def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def iscomplexobj(x):
    if isinstance(x, SymC):
        return True
    return isinstance(x, OArr) or np.iscomplexobj(x)


def transpose(a, axes=None):
    if isinstance(a, SymArr):
        if a.ndim == 1:
            return a
        if axes is None:
            return a.transpose()
        return a.transpose(*axes)
    return np.transpose(a, axes)


def np_abs(x):
    return elementwise(abs)(x)


def vdot(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    r = 0
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        x = x.conjugate() if isinstance(x, SymC) else x
        r = x * y + r
    return r


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        return abs(x - y) <= atol + rtol * abs(y)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object),
                                   np.asarray(b, dtype=object))
        r = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            r[i] = bool(f(a[i], b[i]))
        return r
    return f(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(np.asarray(a, dtype=object), np.asarray(b, dtype=object),
                rtol, atol)
    return bool(np.all(r))


def mat_fix(f):
    """Keep complex entries in arrays that know their real part."""
    def g(*a, **k):
        return as_oarr(f(*a, **k))
    return g


def hstack(t, **k):
    return as_oarr(np.hstack(t, **k))


def vstack(t, **k):
    return as_oarr(np.vstack(t, **k))


def linspace(start, stop, num=50, **k):
    n = num
    if k or isinstance(n, Sym):
        unsupported('linspace')
    step = (stop - start) / (n - 1)
    return np.array([start + step * i for i in range(n)], dtype=object)


def outer(a, b, **k):
    return np.array([[x * y for y in np.ravel(b)] for x in np.ravel(a)],
                    dtype=object)


def angle(z, deg=False):
    def f(e):
        a = sym.fn('atan2', must(_imag(e)), must(_real(e)))
        return a * 180 / PI if deg else a
    return elementwise(f)(z)


def no(name):
    def f(*a, **k):
        unsupported('numpy.%s on symbolic values' % name)
    return f


def np_len_shape(x):
    return x.shape if isinstance(x, SymArr) else np.shape(x)


def np_ndim(x):
    return x.ndim if isinstance(x, SymArr) else np.ndim(x)


def np_size(x, axis=None):
    if isinstance(x, SymArr):
        return x.n if axis == 0 or (axis is None and x.ndim == 1) else \
            unsupported('size')
    return np.size(x, axis)


def atleast(k):
    f0 = getattr(np, 'atleast_%dd' % k)

    def f(*xs):
        if any(isinstance(x, SymArr) and x.ndim < k for x in xs):
            unsupported('atleast_%dd' % k)
        if len(xs) == 1 and isinstance(xs[0], SymArr):
            return xs[0]
        return f0(*xs)
    return f


def any_all(orig):
    def f(x, *a, **k):
        if isinstance(x, SymArr):
            unsupported('reduction over the symbolic axis')
        return orig(x, *a, **k)
    return f


def clip(a, lo, hi, **k):
    def f(x):
        if lo is not None and x < lo:
            return must(lo)
        if hi is not None and x > hi:
            return must(hi)
        return x
    if has_sym(lo) or has_sym(hi):
        unsupported('clip between symbolic limits')
    return elementwise(f)(a)


def np_float64(x=0.0):
    return FloatShim(x)


def make_np():
    over = {}
    for name, meth in UNARY.items():
        if hasattr(np, name):
            over[name] = either(getattr(np, name), _method(meth))
    over.update(
        zeros=zeros, ones=ones, empty=empty, full=full,
        zeros_like=_like(zeros), ones_like=_like(ones),
        empty_like=_like(empty),
        full_like=lambda a, v, dtype=None, **k: _like(
            lambda s, d: full(s, v, d))(a, dtype, **k),
        eye=eye, identity=lambda n, dtype=None: eye(n),
        array=array, asarray=asarray, asanyarray=asarray, tile=tile,
        repeat=repeat, broadcast_to=broadcast_to, stack=stack,
        isscalar=isscalar, iscomplexobj=iscomplexobj, transpose=transpose,
        abs=either(np.abs, np_abs), absolute=either(np.abs, np_abs),
        real=either(np.real, elementwise(_real)),
        imag=either(np.imag, elementwise(_imag)),
        vdot=either(np.vdot, vdot), angle=either(np.angle, angle),
        isnan=either(np.isnan, elementwise(lambda x: False)),
        isinf=either(np.isinf, elementwise(lambda x: False)),
        isfinite=either(np.isfinite, elementwise(lambda x: True)),
        isclose=either(np.isclose, isclose),
        allclose=either(np.allclose, allclose),
        hstack=hstack, vstack=vstack, clip=either(np.clip, clip),
        outer=either(np.outer, outer),
        linspace=either(np.linspace, linspace),
        shape=np_len_shape, ndim=np_ndim, size=np_size,
        atleast_1d=atleast(1), atleast_2d=atleast(2), atleast_3d=atleast(3),
        any=any_all(np.any), all=any_all(np.all),
        floor=either(np.floor, _method('floor')),
        ceil=either(np.ceil, _method('ceil')),
        rint=either(np.rint, _method('rint')),
        round=either(np.round, _round), around=either(np.around, _round),
        trunc=either(np.trunc, _method('trunc')),
        fix=either(np.fix, _method('trunc')),
        sign=either(np.sign, _method('sign')),
        float64=_NPFloat, float_=_NPFloat,
        pi=PI,
    )
    for name in ('interp', 'unwrap', 'polyfit',
                 'roots', 'poly', 'std', 'var', 'median', 'histogram',
                 'arctan2_',
                 'savetxt', 'save', 'logspace', 'geomspace', 'nan_to_num'):
        if hasattr(np, name) and name not in over:
            over[name] = either(getattr(np, name), no(name))
    la = dict(inv=either(np.linalg.inv, inv), det=either(np.linalg.det, det),
              norm=either(np.linalg.norm, norm),
              solve=either(np.linalg.solve, solve),
              pinv=either(np.linalg.pinv, pinv),
              lstsq=either(np.linalg.lstsq, lstsq),
              eig=either(np.linalg.eig, eig),
              eigh=either(np.linalg.eigh, eigh),
              eigvalsh=either(np.linalg.eigvalsh, eigvalsh))
    for name in ('eigvals', 'svd', 'matrix_rank', 'cond',
                 'qr', 'cholesky', 'matrix_power'):
        la[name] = either(getattr(np.linalg, name), no('linalg.' + name))
    over['linalg'] = Proxy(np.linalg, la)
    return Proxy(np, over)


def make_math():
    over = {name: either(getattr(math, name), _method(meth))
            for name, meth in UNARY.items() if hasattr(math, name)}
    for name in ('floor', 'ceil', 'trunc'):
        over[name] = either(getattr(math, name), _method(name))
    over['pi'] = PI
    over['tau'] = 2 * PI
    over['atan2'] = either(math.atan2, lambda y, x: sym.fn(
        'atan2', must(y), must(x)))
    over['hypot'] = either(math.hypot, lambda *a: sym.sqrt(must(
        sum(x * x for x in a))))
    over['pow'] = either(math.pow, lambda a, b: must(a) ** b)
    over['isclose'] = either(math.isclose, lambda a, b, rel_tol=1e-9,
                             abs_tol=0.0: abs(a - b) <= abs_tol)
    over['isnan'] = either(math.isnan, lambda a: False)
    over['fsum'] = either(math.fsum, lambda a: sum(a))
    return Proxy(math, over)


def make_umath():
    from uncertainties import umath
    over = {}
    for name, meth in UNARY.items():
        if hasattr(umath, name):
            over[name] = either(getattr(umath, name), _method(meth))
    over['atan2'] = either(umath.atan2, lambda y, x: sym.fn(
        'atan2', must(y), must(x)))
    over['pow'] = either(umath.pow, lambda a, b: must(a) ** b)
    over['hypot'] = either(umath.hypot, lambda a, b: sym.sqrt(
        must(a * a + b * b)))
    return Proxy(umath, over)


class SymMatrix(np.ndarray):
    """unumpy.matrix of symbolic entries."""
    def __new__(cls, a):
        a = np.array(a, dtype=object)
        if a.ndim < 2:
            a = a.reshape(1, -1)
        return a.view(cls)

    @property
    def I(self):
        a = np.asarray(self)
        if a.shape[0] == a.shape[1]:
            return inv(a).view(SymMatrix)
        return pinv(a)

    def __mul__(self, o):
        return np.dot(np.asarray(self), o)

    @property
    def nominal_values(self):
        return elementwise(lambda a: must(a).nominal_value)(
            np.asarray(self)).view(SymMatrix)


def make_unumpy():
    from uncertainties import unumpy
    over = {}
    for name, meth in UNARY.items():
        if hasattr(unumpy, name):
            over[name] = either(getattr(unumpy, name), _method(meth))
    over['matrix'] = either(unumpy.matrix, lambda a, **k: SymMatrix(a))
    over['nominal_values'] = either(unumpy.nominal_values, elementwise(
        lambda a: must(a).nominal_value))
    over['std_devs'] = either(unumpy.std_devs, elementwise(
        lambda a: a.std_dev))
    over['uarray'] = either(unumpy.uarray, lambda n, s=None: np.asarray(
        n, dtype=object))
    la = dict(inv=either(unumpy.ulinalg.inv, inv),
              pinv=either(unumpy.ulinalg.pinv, pinv))
    over['ulinalg'] = Proxy(unumpy.ulinalg, la)
    return Proxy(unumpy, over)


def np_dot(a, b, *k):
    if isinstance(a, LeftInverse):
        return a.dot(b)
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return a @ b
    return as_oarr(np.dot(a, b))


def np_matmul(a, b, *k):
    return np_dot(a, b) if isinstance(a, LeftInverse) else a @ b


class _SymFloatDict(dict):
    pass


_CACHE = {}


def replacements():
    if _CACHE:
        return _CACHE
    from uncertainties import umath, unumpy
    import uncertainties
    P = _CACHE
    P['np'] = make_np()
    P['np']._over['dot'] = either_arg(np.dot, np_dot)
    P['np']._over['matmul'] = either_arg(np.matmul, np_matmul)
    P['modules'] = {
        id(np): P['np'], id(math): make_math(), id(umath): make_umath(),
        id(unumpy): make_unumpy(), id(np.linalg): P['np'].linalg,
    }
    funcs = {}
    for proxy in list(P['modules'].values()):
        for name, f in proxy._over.items():
            orig = getattr(proxy._module, name, None)
            if callable(orig) and not isinstance(orig, type):
                funcs[id(orig)] = (orig, f)
    for name in ('nominal_value', 'std_dev'):
        orig = getattr(uncertainties, name)
        funcs[id(orig)] = (orig, either(orig, lambda x, name=name: getattr(
            must(x), name)))
    funcs[id(uncertainties.UFloat)] = (uncertainties.UFloat, UFloatShim)
    funcs[id(uncertainties.ufloat)] = (uncertainties.ufloat, ufloat_)
    P['funcs'] = funcs
    return P


def either_arg(orig, symbolic):
    def f(*a, **k):
        if any(has_sym(x) or isinstance(x, LeftInverse) for x in a):
            return symbolic(*a, **k)
        return orig(*a, **k)
    f.__wrapped__ = orig
    return f


class _UFloatMeta(type):
    def __instancecheck__(cls, x):
        import uncertainties
        return isinstance(x, uncertainties.UFloat) or \
            isinstance(x, Sym) and bool(sym.deviations(x))


class UFloatShim(object, metaclass=_UFloatMeta):
    """Uncertain numbers, symbolic or not."""


def ufloat_(nominal_value, std_dev=None, tag=None):
    eps = getattr(STATE.engine, 'eps', None)
    if eps:
        name = '±new%d' % len(eps)
        eps[name] = must(0 if std_dev is None else std_dev)
        return must(nominal_value) + sym.var(name)
    if isinstance(nominal_value, Sym) or isinstance(std_dev, Sym):
        return must(nominal_value)
    import uncertainties
    return uncertainties.ufloat(nominal_value, std_dev, tag)


def target_modules():
    out = []
    for name, m in list(sys.modules.items()):
        if m is None:
            continue
        if name == 'bicycleparameters' or name.startswith(
                'bicycleparameters.'):
            if 'tests' in name:
                continue
            out.append(m)
        if name == 'dtk.bicycle':
            out.append(m)
    return out


# (module, function): what stands for it on symbolic arguments (modular step)
CALLEES = {}


def callee(name, orig, stub):
    def f(*a, **k):
        if any(has_sym(x) for x in a):
            STATE.engine.stubbed.add(name)
            return stub(*a, **k)
        return orig(*a, **k)
    f.__wrapped__ = orig
    return f


BUILTINS = {'float': FloatShim, 'len': len_, 'range': range_,
            'enumerate': enumerate_, 'zip': zip_}


@contextlib.contextmanager
def installed():
    P = replacements()
    undo = []
    for m in target_modules():
        d = vars(m)
        for name, val in list(d.items()):
            if name.startswith('__'):
                continue
            new = None
            if id(val) in P['modules'] and isinstance(val, types.ModuleType):
                new = P['modules'][id(val)]
            elif id(val) in P['funcs'] and P['funcs'][id(val)][0] is val:
                new = P['funcs'][id(val)][1]
            elif type(val) is float and val == math.pi:
                new = PI
            if new is not None:
                undo.append((d, name, True, val))
                d[name] = new
        for (mod, name), stub in CALLEES.items():
            if m.__name__ == mod and name in d:
                undo.append((d, name, True, d[name]))
                d[name] = callee(name, d[name], stub)
        for name, val in BUILTINS.items():
            if name not in d:
                undo.append((d, name, False, None))
                d[name] = val
    try:
        yield
    finally:
        for d, name, had, val in reversed(undo):
            if had:
                d[name] = val
            else:
                d.pop(name, None)
