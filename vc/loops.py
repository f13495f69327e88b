"""Arrays of symbolic length and loops over them.

A `for` loop over a symbolic number of iterations is cut with an automatically
inferred inductive invariant.  Let s(k) be the state reached by running the
body once, for iteration k, from the state before the loop.  The iterator runs
the real body for a first generic index a (giving s(a)) and then again for a
second generic index b from the state s(a).  If the state after that equals
s(b) -- every local variable, every object reachable from the locals, and the
element written at index b -- then "the state after iteration k is s(k), and
element k of every array holds what s(k) wrote" is inductive, for every number
of iterations.  Anything else is Unsupported (and the check falls back to a
bounded run), never assumed.

A contract about single rows can ask for the other classic rule instead
(ctx.havoc_loops): the body runs once, for a generic index, from a state in
which every local it assigns is undefined and every array it writes holds
arbitrary values (HavocIter).  Nothing carries over, so branches are allowed.
"""
import ast
import sys
import types

import numpy as np

from . import sym
from .sym import Sym, SymC, STATE, unsupported, subst, var, const


# ------------------------------------------------------------------ arrays
class SymArr(object):
    """Array whose first axis has symbolic length n; fn(index) is an element.

    An element is a Sym (inner == ()) or an object ndarray of shape inner.
    """
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__' or any(v is not None and v is not True
                                       for v in kw.values()):
            unsupported('ufunc %s on an array of symbolic length' %
                        ufunc.__name__)
        if len(inputs) == 1:
            return self._map(lambda e: _ufunc(ufunc, e))
        if ufunc is np.matmul:
            a, b = inputs
            return a.__matmul__(b) if isinstance(a, SymArr) else \
                b.__rmatmul__(a)
        if len(inputs) != 2:
            unsupported('ufunc %s' % ufunc.__name__)
        a, b = inputs
        if isinstance(a, SymArr):
            return a._bin(b, lambda x, y: _ufunc(ufunc, x, y))
        return b._bin(a, lambda x, y: _ufunc(ufunc, y, x))

    def __init__(self, n, inner, fn, name=''):
        self.n = n
        self.inner = tuple(inner)
        self.fn = fn
        self.name = name
        self.writes = []        # [(Sym index, value)] inside an open loop
        self.loop = None
        self.complex = False

    # shape protocol
    @property
    def shape(self):
        return (self.n,) + self.inner

    @property
    def ndim(self):
        return 1 + len(self.inner)

    @property
    def size(self):
        r = self.n
        for k in self.inner:
            r = r * k
        return r

    @property
    def dtype(self):
        return np.dtype(object)

    def __symlen__(self):
        return self.n

    def __len__(self):
        unsupported('len() of an array of symbolic length through C code')

    def __array__(self, *a, **k):
        unsupported('conversion of an array of symbolic length')

    def __float__(self):
        raise TypeError('only length-1 arrays can be converted')

    def __hash__(self):
        return id(self)

    # element access
    def at(self, idx):
        loop = havoc_loop()
        if loop is not None and not self.name:
            return loop.read(self, idx)
        if self.writes:
            for i, v in reversed(self.writes):
                if i is idx:
                    return copy_inner(v)
            known = STATE.engine is not None and all(
                STATE.engine.distinct(i, idx) for i, _ in self.writes)
            if not known:
                unsupported('array element with several possible writes')
        return copy_inner(self.fn(idx))

    def _lead(self, idx):
        if isinstance(idx, Sym):
            return idx
        if isinstance(idx, (int, np.integer)):
            if idx < 0:
                return self.n + int(idx)
            return const(int(idx))
        return None

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        i = self._lead(key[0])
        if i is not None:
            e = self.at(i)
            rest = key[1:]
            if rest:
                e = e[rest if len(rest) > 1 else rest[0]]
            if isinstance(e, np.ndarray):
                # numpy gives a view here: writing through it is unsupported
                e.flags.writeable = False
            return e
        if isinstance(key[0], slice) and key[0] == slice(None):
            rest = key[1:]
            if not rest:
                return SymArr(self.n, self.inner, self._frozen())
            probe = np.empty(self.inner, dtype=object)[rest]
            inner = probe.shape if isinstance(probe, np.ndarray) else ()
            f = self._frozen()
            return SymArr(self.n, inner, lambda k: f(k)[rest])
        unsupported('slicing an array of symbolic length')

    def _frozen(self):
        if havoc_loop() is not None and not self.name:
            return self.at
        if self.writes:
            unsupported('whole-array read inside a loop that writes it')
        return self.fn

    def __setitem__(self, key, value):
        if not isinstance(key, tuple):
            key = (key,)
        i = self._lead(key[0])
        if i is not None:
            rest = key[1:]
            if rest:
                cur = self.at(i)
                cur[rest if len(rest) > 1 else rest[0]] = value
                value = cur
            value = shape_inner(value, self.inner)
            loops = STATE.engine.open_loops if STATE.engine else []
            if not loops and STATE.engine and STATE.engine.havoc and \
                    i.op == 'c':
                f = self.fn

                def one(k, f=f, i=i, value=value):
                    return value if bool(k == i) else f(k)
                self.fn = one
                return
            if not loops:
                # a write outside of any loop: ite on the index is not needed
                unsupported('single element write on a symbolic array')
            if self.name and STATE.engine.havoc:
                unsupported('write to an input array')
            self.writes.append((i, value))
            loops[-1].touched.add(self)
            return
        if isinstance(key[0], slice) and key[0] == slice(None):
            rest = key[1:]
            f = self._frozen()
            inner = self.inner

            def elem(v, k):
                return v.at(k) if isinstance(v, SymArr) else v
            if isinstance(value, SymArr):
                STATE.engine.same_length(self.n, value.n)
            elif isinstance(value, np.ndarray) and value.ndim > len(inner):
                unsupported('broadcast of a concrete array')

            def g(k, f=f, value=value, rest=rest):
                e = shape_inner(f(k), inner)
                if rest:
                    e[rest if len(rest) > 1 else rest[0]] = elem(value, k)
                    return e
                return shape_inner(elem(value, k), inner)
            self.fn = g
            return
        unsupported('slice write on an array of symbolic length')

    # elementwise arithmetic
    def _bin(self, o, f):
        a = self._frozen()
        if isinstance(o, SymArr):
            STATE.engine.same_length(self.n, o.n)
            b = o._frozen()
            inner = np.broadcast_shapes(self.inner, o.inner)
            if len(self.inner) != len(o.inner):
                unsupported('broadcast over the symbolic axis')
            return SymArr(self.n, inner, lambda k: f(a(k), b(k)))
        if isinstance(o, np.ndarray):
            o = o.copy()
        if isinstance(o, np.ndarray) and o.ndim > len(self.inner):
            if o.shape[0] == 1:
                o2 = o[0]
                return SymArr(self.n, self.inner, lambda k: f(a(k), o2))
            unsupported('broadcast with a longer concrete array')
        probe = f(np.zeros(self.inner), np.zeros(np.shape(o)))
        return SymArr(self.n, np.shape(probe), lambda k: f(a(k), o))

    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    def __radd__(self, o): return self._bin(o, lambda x, y: y + x)
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: y - x)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y)
    def __rmul__(self, o): return self._bin(o, lambda x, y: y * x)

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: x / y if not _zero(y) else x)

    def __rtruediv__(self, o):
        return self._bin(o, lambda x, y: y / x if not _zero(x) else y)
    def __pow__(self, p): return self._map(lambda x: x ** p)
    def __neg__(self): return self._map(lambda x: -x)

    def __matmul__(self, o):
        a = self._frozen()
        if isinstance(o, SymArr):
            b = o._frozen()
            if self.ndim != 3 or o.ndim != 3:
                unsupported('matmul over the symbolic axis')
            inner = (self.inner[0], o.inner[1])
            return SymArr(self.n, inner, lambda k: a(k) @ b(k))
        if self.ndim == 3 and isinstance(o, np.ndarray) and o.ndim <= 2:
            inner = (np.zeros(self.inner) @ np.zeros(o.shape)).shape
            return SymArr(self.n, inner, lambda k: a(k) @ o)
        unsupported('matmul over the symbolic axis')

    def __rmatmul__(self, o):
        a = self._frozen()
        if self.ndim == 3 and isinstance(o, np.ndarray) and o.ndim == 2:
            inner = (np.zeros(o.shape) @ np.zeros(self.inner)).shape
            return SymArr(self.n, inner, lambda k: o @ a(k))
        unsupported('matmul over the symbolic axis')

    def _map(self, f, inner=None):
        a = self._frozen()
        return SymArr(self.n, self.inner if inner is None else inner,
                      lambda k: f(a(k)))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], tuple):
            axes = axes[0]
        if axes and axes[0] == 0 and self.ndim == 3:
            if tuple(axes) == (0, 2, 1):
                return self._map(lambda e: e.T, self.inner[::-1])
        unsupported('transpose of the symbolic axis')

    def swapaxes(self, i, j):
        i, j = i % self.ndim, j % self.ndim
        if self.ndim == 3 and {i, j} == {1, 2}:
            return self._map(lambda e: e.T, self.inner[::-1])
        unsupported('swapaxes of the symbolic axis')

    @property
    def T(self):
        if self.ndim == 1:
            return self
        unsupported('transpose of the symbolic axis')

    @property
    def real(self):
        return self._map(real_part)

    def copy(self):
        return SymArr(self.n, self.inner, self._frozen())

    def astype(self, *a, **k):
        return self.copy()

    def __iter__(self):
        return LoopIter(self.n, lambda k: self.at(k))

    def __eq__(self, o):
        unsupported('comparison of arrays of symbolic length')
    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__


def _ufunc(ufunc, *args):
    # an object ufunc on scalars gives a scalar
    r = ufunc(*[np.asarray(a, dtype=object) if isinstance(a, (Sym, SymC))
                else a for a in args])
    return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r


def _zero(x):
    return isinstance(x, np.ndarray) and x.dtype != object and not x.any()


def real_part(x):
    if isinstance(x, np.ndarray):
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = real_part(x[i])
        return r
    return x.real


def copy_inner(v):
    return v.copy() if isinstance(v, np.ndarray) else v


def shape_inner(v, inner):
    """Value broadcast to the element shape, as an own object array."""
    if inner == ():
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise ValueError('setting an array element with a sequence.')
            v = v.reshape(-1)[0]
        return v
    if isinstance(v, (list, tuple)):
        v = np.array(v, dtype=object)
    r = np.empty(inner, dtype=object)
    r[...] = v
    return r


# ------------------------------------------------------------------ loops
class LoopIter(object):
    def __init__(self, n, item):
        self.n = n
        self.item = item
        self.state = 0
        self.touched = set()
        self.frame = None

    def __iter__(self):
        return self

    def __next__(self):
        return self.step(sys._getframe(1))

    def step(self, frame):
        eng = STATE.engine
        if eng is None:
            raise RuntimeError('symbolic loop outside of an engine run')
        if eng.havoc:
            return self.havoc_step(frame, eng)
        if self.state == 0:
            check_is_for_loop(frame)
            k = eng.new_loop(self.n)
            self.a, self.b = k
            eng.open_loops.append(self)
            self.state = 1
            self.frame = frame
            return self.item(self.a)
        if frame is not self.frame or eng.open_loops[-1] is not self:
            unsupported('loop iterator used from another frame')
        if self.state == 1:
            self.snap_a = Snapshot(frame, self)
            for arr in self.touched:
                self.close_iteration(arr, self.a)
            self.touched_a = set(self.touched)
            self.state = 2
            return self.item(self.b)
        # after the second iteration
        snap_b = Snapshot(frame, self)
        if self.touched != self.touched_a:
            unsupported('loop iterations write different arrays')
        m = {self.a.args[0]: self.b}
        if not self.snap_a.renamed(m).same(snap_b):
            unsupported('loop carried state (%s)' %
                        self.snap_a.renamed(m).why(snap_b))
        for arr in self.touched:
            self.finish(arr, m)
        eng.open_loops.pop()
        eng.loops_done += 1
        # the last index: b is n - 1 from here on
        eng.close_loop(self)
        self.state = 3
        raise StopIteration

    # ---- one generic iteration from an arbitrary state
    def havoc_step(self, frame, eng):
        if self.state == 0:
            node = check_is_for_loop(frame)
            if eng.open_loops or eng.havoc_done is not None:
                unsupported('several loops over the symbolic axis')
            if bool(sym.must(self.n) <= 0):
                raise StopIteration
            self.a = var('loop:h')
            eng.vars.setdefault('loop:h', dict(index=True, sample=(0, 0)))
            eng.assume(self.a >= 0)
            eng.assume(self.a < self.n)
            eng.open_loops.append(self)
            self.node = node
            self.state = 1
            self.frame = frame
            self.stored = stored_names(node)
            poison(frame, self.stored)
            self.before = Snapshot(frame, self, self.stored)
            return self.item(self.a)
        if frame is not self.frame or eng.open_loops[-1] is not self:
            unsupported('loop iterator used from another frame')
        after = Snapshot(frame, self, self.stored)
        if not self.before.same(after):
            unsupported('loop changes %s' % self.before.why(after))
        poison(frame, self.stored)
        shift = None
        for arr in self.touched:
            for i, _ in arr.writes:
                k = offset(i, self.a)
                if k is None or k < 0 or shift not in (None, k):
                    unsupported('loop writes several rows')
                shift = k
        row = sym.must(self.a + (shift or 0))
        for arr in self.touched:
            value = arr.writes[-1][1]
            arr.writes = []
            arr.fn = havoc_result(eng, arr.fn, row, value, shift)
        eng.havoc_done = (self, row, shift or 0)
        eng.eng.loop_shift[self.node.lineno] = shift or 0
        eng.open_loops.pop()
        eng.loops_done += 1
        self.state = 3
        raise StopIteration

    def read(self, arr, idx):
        for i, v in reversed(arr.writes):
            if i is idx:
                return copy_inner(v)
            if offset(i, self.a) is None or offset(idx, self.a) is None:
                unsupported('array element with several possible writes')
        if STATE.engine.havoc_break is not None:
            return arr.fn(idx)
        if offset(idx, self.a) is None:
            unsupported('read of a row that is not near the index')

        def one(*p):
            key = 'havoc:%d:%s' % (id(arr), ','.join(map(str, p)))
            if arr.complex:
                return SymC(sym.uf(key + 're', idx), sym.uf(key + 'im', idx))
            return sym.uf(key, idx)
        if arr.inner == ():
            return one()
        r = np.empty(arr.inner, dtype=object)
        for p in np.ndindex(*arr.inner):
            r[p] = one(*p)
        return r

    def close_iteration(self, arr, idx):
        for i, _ in arr.writes:
            if i is not idx:
                unsupported('loop writes element %r in iteration %r' %
                            (i, idx))

    def finish(self, arr, m):
        wa = [v for i, v in arr.writes if i is self.a]
        wb = [v for i, v in arr.writes if i is self.b]
        if len(wa) + len(wb) != len(arr.writes) or not wa or not wb:
            unsupported('loop writes other elements')
        va, vb = wa[-1], wb[-1]
        if not same_value(rename(va, m), vb):
            unsupported('element depends on earlier iterations')
        STATE.engine.same_length(arr.n, self.n)
        name = self.a.args[0]
        arr.writes = []
        arr.loop = None

        def f(k, va=va, name=name):
            return rename(va, {name: k})
        arr.fn = f


class SymRange(object):
    def __init__(self, lo, hi, step=1):
        if step != 1:
            unsupported('range with a step')
        self.lo, self.hi = lo, hi
        if not (isinstance(lo, int) and lo == 0):
            unsupported('range with a start')

    def __iter__(self):
        return LoopIter(self.hi, lambda k: k)

    def __symlen__(self):
        return self.hi


class SymEnumerate(object):
    def __init__(self, src, start=0):
        self.src, self.start = src, start

    def __iter__(self):
        n, item = source(self.src)
        s = self.start
        return LoopIter(n, lambda k: (k + s if s else k, item(k)))


class SymZip(object):
    def __init__(self, *srcs):
        self.srcs = srcs

    def __iter__(self):
        parts = [source(s) for s in self.srcs]
        n = parts[0][0]
        for m, _ in parts[1:]:
            STATE.engine.same_length(n, m)
        return LoopIter(n, lambda k: tuple(i(k) for _, i in parts))

    def __symlen__(self):
        return source(self.srcs[0])[0]


def source(s):
    if isinstance(s, SymArr):
        return s.n, s.at
    if isinstance(s, SymRange):
        return s.hi, lambda k: k
    if isinstance(s, SymZip):
        parts = [source(x) for x in s.srcs]
        return parts[0][0], lambda k: tuple(i(k) for _, i in parts)
    if isinstance(s, SymEnumerate):
        n, i = source(s.src)
        return n, lambda k: (k + s.start if s.start else k, i(k))
    unsupported('loop over %s together with a symbolic length' % type(s))


def is_symbolic_iterable(s):
    return isinstance(s, (SymArr, SymRange, SymZip, SymEnumerate))


_TREES = {}


def check_is_for_loop(frame):
    """The caller must be a `for` statement (not a comprehension)."""
    code = frame.f_code
    pos = None
    for k, p in enumerate(code.co_positions()):
        if k * 2 == frame.f_lasti:
            pos = p
            break
    tree = _TREES.get(code.co_filename)
    if tree is None:
        with open(code.co_filename) as f:
            tree = ast.parse(f.read())
        _TREES[code.co_filename] = tree
    if pos is not None:
        for node in ast.walk(tree):
            if isinstance(node, ast.For):
                if any((it.lineno, it.end_lineno, it.col_offset,
                        it.end_col_offset) == tuple(pos)
                       for it in (node.iter, node)):
                    if node.orelse:
                        unsupported('for-else over a symbolic length')
                    return node
    unsupported('symbolic length iterated outside of a for statement')


# ------------------------------------------------------------------ havoc
def havoc_loop():
    """The open loop that runs from an arbitrary state."""
    eng = STATE.engine
    if eng is not None and eng.havoc and eng.open_loops:
        return eng.open_loops[-1]
    return None


def offset(i, a):
    """The integer k with i == a + k."""
    if i is a:
        return 0
    d = i + (-1) * a
    if d.op == 'c':
        return int(d.value)
    if i.op == '+' and a in i.args:
        o = i.args[0] if i.args[1] is a else i.args[1]
        if o.op == 'c' and o.value.denominator == 1:
            return int(o.value)
    return None


def havoc_result(eng, before, row, value, shift):
    def f(k):
        if k is row:
            return copy_inner(value)
        if k.op == 'c' and 0 <= k.value < shift or k.id in eng.unwritten:
            return before(k)
        unsupported('row of another iteration')
    return f


class Poison(object):
    """A variable that has no known value."""
    def _no(self, *a, **k):
        unsupported('variable carried over from another iteration')
    __getattr__ = __call__ = __bool__ = __iter__ = __len__ = _no
    __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = _no
    __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _no
    __float__ = __int__ = __index__ = __str__ = __contains__ = _no
    __hash__ = object.__hash__


def stored_names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            isinstance(n.ctx, (ast.Store, ast.Del))}


def poison(frame, names):
    import ctypes
    d = frame.f_locals
    for k in names:
        d[k] = Poison()
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame),
                                          ctypes.c_int(0))


# ------------------------------------------------------------------ state
def rename(v, m):
    if isinstance(v, Sym):
        return subst(v, m)
    if isinstance(v, SymC):
        return SymC(subst(v.real, m), subst(v.imag, m))
    if isinstance(v, np.ndarray) and v.dtype == object:
        r = np.empty(v.shape, dtype=object).view(type(v))
        for i in np.ndindex(*v.shape):
            r[i] = rename(v[i], m)
        return r
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, tuple):
        return tuple(rename(x, m) for x in v)
    if isinstance(v, list):
        return [rename(x, m) for x in v]
    return v


def same_value(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return x is y
    if isinstance(x, SymC) or isinstance(y, SymC):
        return (isinstance(x, SymC) and isinstance(y, SymC) and
                x.real is y.real and x.imag is y.imag)
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray)):
            return False
        if x.shape != y.shape:
            return False
        return all(same_value(x[i], y[i]) for i in np.ndindex(*x.shape))
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(map(same_value, x, y))
    return x == y or (x != x and y != y)


class Snapshot(object):
    """Structure of everything reachable from a frame's locals."""
    def __init__(self, frame, loop, without=()):
        self.loop = loop
        self.seen = {}
        self.tree = {k: self.capture(v) for k, v in frame.f_locals.items()
                     if k not in without}

    def capture(self, v, depth=0):
        if isinstance(v, (Sym, SymC, int, float, complex, str, bytes,
                          type(None), bool, np.generic, type,
                          types.FunctionType, types.BuiltinFunctionType,
                          types.MethodType, types.ModuleType, range)):
            return ('leaf', v)
        if id(v) in self.seen:
            return ('ref', self.seen[id(v)])
        self.seen[id(v)] = len(self.seen)
        if isinstance(v, (LoopIter, SymRange, SymEnumerate, SymZip)):
            return ('skip',)
        if isinstance(v, SymArr):
            return ('arr', id(v))     # writes are checked separately
        if isinstance(v, np.ndarray):
            return ('nd', v.shape, [self.capture(x) for x in v.ravel()]
                    if v.dtype == object else v.copy().tolist())
        if isinstance(v, dict):
            return ('dict', [(self.capture(k), self.capture(x))
                             for k, x in v.items()])
        if isinstance(v, (list, tuple)):
            return ('seq', type(v).__name__, [self.capture(x) for x in v])
        if isinstance(v, (set, frozenset)):
            return ('set', sorted(map(repr, v)))
        d = getattr(v, '__dict__', None)
        if d is not None and not isinstance(v, types.ModuleType):
            if type(v).__module__.startswith('bicycleparameters'):
                return ('obj', type(v).__name__,
                        [(k, self.capture(x)) for k, x in d.items()])
        return ('opaque', id(v))

    def renamed(self, m):
        r = object.__new__(Snapshot)

        def f(t):
            if isinstance(t, tuple) and t and t[0] == 'leaf':
                return ('leaf', rename(t[1], m))
            if isinstance(t, tuple):
                return tuple(f(x) for x in t)
            if isinstance(t, list):
                return [f(x) for x in t]
            return t
        r.tree = {k: f(v) for k, v in self.tree.items()}
        return r

    def diff(self, o):
        out = []
        for k in set(self.tree) | set(o.tree):
            if k not in self.tree or k not in o.tree:
                out.append(k)
            elif not same_tree(self.tree[k], o.tree[k]):
                out.append(k)
        return out

    def same(self, o):
        return not self.diff(o)

    def why(self, o):
        return ', '.join(sorted(self.diff(o)))


def same_tree(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        if x and x[0] == 'leaf':
            if y[0] != 'leaf':
                return False
            u, v = x[1], y[1]
            if isinstance(u, types.MethodType) and isinstance(
                    v, types.MethodType):
                return u.__func__ is v.__func__
            if isinstance(u, types.FunctionType) and isinstance(
                    v, types.FunctionType):
                return u.__code__ is v.__code__
            return same_value(u, v)
        return all(map(same_tree, x, y))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(map(same_tree, x, y))
    return type(x) is type(y) and x == y
