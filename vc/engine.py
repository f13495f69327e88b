"""The verification engine.

A contract is a Python function case(ctx) that builds inputs from ctx, calls
the real code and states what must hold.  It is run in three ways:

symbolic  CPython executes the real code on symbolic reals (sym.py).  Each
          feasible path yields obligations; an equality is discharged by exact
          normalisation (poly.py), an inequality or infeasible path by z3.
numeric   the same contract on concrete sampled numbers and the untouched code
          (the bounded adjunct, and the fallback for what is undecided).
replay    numeric with given values: confirms a refuted obligation.
"""
import math
import random
import time
import traceback

import numpy as np

from . import sym, poly, smt
from .sym import (Sym, SymC, Cond, STATE, Unsupported, unsupported, var, const,
                  as_cond)


class Skip(BaseException):
    """This sample is outside of the contract's domain."""


class Infeasible(BaseException):
    """The current path has no inputs."""


class Later(BaseException):
    """This path needs facts that another path will establish."""


class CheckFailed(Exception):
    pass


MISSING = object()
CONTRACTS = []


class Contract(object):
    def __init__(self, prop, fn, functions, **opt):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.functions = functions
        self.opt = opt

    @property
    def key(self):
        return self.prop + '.' + self.name


def contract(prop, functions=(), **opt):
    """opt: paths, seconds (symbolic budget), samples (numeric count),
    symbolic=False (bounded only), assumes=[...] (assumed contracts)."""
    if isinstance(functions, str):
        functions = functions.split()

    def deco(fn):
        CONTRACTS.append(Contract(prop, fn, list(functions), **opt))
        return fn
    return deco


# ---------------------------------------------------------------- helpers
def flatten(x):
    """Numbers of a nested value, in order, with their paths."""
    if isinstance(x, (Sym, SymC)):
        return [((), x)]
    x = strip(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return flatten(x.item())
    if isinstance(x, dict):
        out = []
        for k in sorted(x, key=str):
            out += [((k,) + p, v) for p, v in flatten(x[k])]
        return out
    if isinstance(x, (list, tuple, np.ndarray)):
        out = []
        for i, e in enumerate(x):
            out += [((i,) + p, v) for p, v in flatten(e)]
        return out
    return [((), x)]


def strip(x):
    """Drop uncertainties."""
    if hasattr(x, 'nominal_value') and not isinstance(x, Sym):
        return x.nominal_value
    return x


def nominal(x):
    x = strip(x)
    if isinstance(x, dict):
        return {k: nominal(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(nominal(v) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = nominal(x[i])
        return r
    return x


def is_number(x):
    return isinstance(x, (int, float, complex, np.number, Sym, SymC)) and \
        not isinstance(x, bool)


def describe(x):
    if isinstance(x, Sym):
        return sym.show(x, 4)[:200]
    return repr(x)[:200]


def freeze(x, depth=0):
    """Structural copy used to compare states (identity kept for Syms)."""
    if isinstance(x, (Sym, SymC, str, bytes, int, float, complex, bool,
                      type(None), np.generic)):
        return x
    if depth > 8:
        return ('deep',)
    if isinstance(x, dict):
        return ('dict', [(freeze(k, depth + 1), freeze(v, depth + 1))
                         for k, v in x.items()])
    if isinstance(x, np.ndarray):
        return ('array', x.shape, [freeze(v, depth + 1) for v in x.ravel()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1) for v in x])
    if hasattr(x, 'nominal_value'):
        return ('u', freeze(x.nominal_value, depth + 1),
                freeze(x.std_dev, depth + 1))
    from .loops import SymArr
    if isinstance(x, SymArr):
        return ('symarr', id(x), id(x.fn), len(x.writes))
    d = getattr(x, '__dict__', None)
    if d is not None:
        return ('obj', type(x).__name__, [(k, freeze(v, depth + 1))
                                          for k, v in sorted(d.items())])
    return ('opaque', id(x))


def has_uf(s):
    stack, seen = [s], set()
    while stack:
        x = stack.pop()
        if isinstance(x, Sym) and x.id not in seen:
            seen.add(x.id)
            if x.op == 'u':
                return True
            if x.op not in 'cv':
                stack.extend(x.args)
    return False


class Over(object):
    """Undoes Ctx.over."""
    def __init__(self, proxy):
        self.__dict__['proxy'] = proxy

    def __setattr__(self, name, value):
        if value is MISSING:
            self.proxy._over.pop(name, None)
        else:
            self.proxy._over[name] = value


class Globals(object):
    """Undoes Ctx.builtin."""
    def __init__(self, module):
        self.__dict__['module'] = module

    def __setattr__(self, name, value):
        if value is MISSING:
            vars(self.module).pop(name, None)
        else:
            setattr(self.module, name, value)


# ---------------------------------------------------------------- context
CURRENT = []        # the context of the running contract


class Ctx(object):
    """Operations common to all modes."""
    mode = ''

    @property
    def symbolic(self):
        return self.mode == 'symbolic'

    # spec functions usable in every mode
    @staticmethod
    def _m(name, *args):
        args = [nominal(a) for a in args]
        if any(isinstance(a, Sym) for a in args):
            args = [sym.must(a) for a in args]
            if name == 'sqrt':
                return sym.sqrt(*args)
            return sym.fn(name, *args)
        return getattr(math, name)(*args)

    def sin(self, x): return self._m('sin', x)
    def cos(self, x): return self._m('cos', x)
    def tan(self, x): return self._m('tan', x)
    def sqrt(self, x): return self._m('sqrt', x)
    def exp(self, x): return self._m('exp', x)
    def asin(self, x): return self._m('asin', x)
    def acos(self, x): return self._m('acos', x)
    def atan(self, x): return self._m('atan', x)

    @property
    def pi(self):
        return sym.PI if self.symbolic else math.pi

    def arr(self, x):
        return np.array(x, dtype=object if self.symbolic else float)

    def snapshot(self, *objs):
        return freeze(list(objs))

    def unchanged(self, label, snap, *objs):
        now = freeze(list(objs))
        self.same_structure(label, snap, now)

    def frame(self, label, *objs):
        """The objects are as they are now at the end of the contract."""
        self.__dict__.setdefault('_frames', []).append(
            (label, self.snapshot(*objs), objs))

    def check_frames(self):
        for label, snap, objs in self.__dict__.get('_frames', ()):
            self.unchanged('%s at the end' % label, snap, *objs)

    def same_structure(self, label, a, b):
        d = self._sdiff(a, b, '')
        self.true(label, d is None, 'changed at %s' % d)

    def _sdiff(self, a, b, where):
        if isinstance(a, (Sym, SymC)) or isinstance(b, (Sym, SymC)):
            if a is b:
                return None
            if self.symbolic and is_number(a) and is_number(b) and \
                    self.provably_equal(a, b):
                return None
            return where or '.'
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return where + '(length)'
            for i, (x, y) in enumerate(zip(a, b)):
                tag = x[0] if isinstance(x, tuple) and len(x) == 2 and \
                    isinstance(x[0], str) else i
                d = self._sdiff(x, y, '%s/%s' % (where, tag))
                if d:
                    return d
            return None
        if type(a) is not type(b) and not (is_number(a) and is_number(b)):
            return where or '.'
        if a == b or (a != a and b != b):
            return None
        return '%s: %r -> %r' % (where, a, b)

    def warned(self, caught, text):
        return any(text in str(w.message) for w in caught)

    def replace(self, owner, name, stub):
        """Replace a library function, wherever the code bound it."""
        from . import shims
        orig = getattr(owner, name)
        self._patches.append((owner, name, orig))
        setattr(owner, name, stub)
        orig = getattr(orig, '__wrapped__', orig)
        for m in shims.target_modules():
            d = vars(m)
            for k, v in list(d.items()):
                if v is orig or (getattr(v, '__wrapped__', None) is orig and
                                 callable(v) and v is not stub):
                    self._patches.append((m, k, v))
                    setattr(m, k, stub)

    def over(self, proxy, name, stub):
        """Replace what a library module offers on symbolic values."""
        self._patches.append((Over(proxy), name,
                              proxy._over.get(name, MISSING)))
        proxy._over[name] = stub
        self.note_stub(proxy._module.__name__ + '.' + name)

    def extremes(self, module):
        """max and min of terms, in the code of the module, are numbers that
        no item exceeds or falls below (symbolic only)."""
        if not self.symbolic:
            return
        made = []
        for name, orig in (('max', max), ('min', min)):
            def f(*a, orig=orig, name=name, **k):
                from .shims import has_sym
                if not any(has_sym(x) for x in a):
                    return orig(*a, **k)
                x = self.real('%s %d' % (name, len(made)))
                made.append(x)
                for y in (a[0] if len(a) == 1 else a):
                    self.assume(x >= y if name == 'max' else x <= y)
                return x
            self._patches.append((Globals(module), name,
                                  vars(module).get(name, MISSING)))
            setattr(module, name, f)
            self.note_stub(name)

    def callee(self, owner, name, stub):
        """Modular step: a callee stands for its contract (symbolic only)."""
        if self.symbolic:
            self.replace(owner, name, stub)
            self.note_stub(name)

    def printing(self):
        """Allow formatting of symbolic values with a number of decimals."""
        sym.tokens.printing = True

    def printed(self, text):
        """The value and the number of decimals that a text shows."""
        if self.symbolic:
            return sym.tokens.printed(text)
        text = text.strip()
        return float(text), len(text.partition('.')[2])

    def restore(self):
        sym.tokens.printing = False
        for o, n, v in reversed(self._patches):
            setattr(o, n, v)
        del self._patches[:]

    def raises(self, label, exc, f, *args, **kw):
        """The call must raise exc."""
        try:
            r = f(*args, **kw)
        except exc:
            self.true(label, True)
            return
        except Exception as e:
            self.true(label, False, 'raised %r instead of %s' % (e, exc))
            return
        self.true(label, False, 'returned %s instead of raising %s' %
                  (describe(r), exc))


class SymbolicCtx(Ctx):
    mode = 'symbolic'

    def __init__(self, run):
        self.run = run
        self._patches = []
        self.stubbed = run.stubbed

    def real(self, name, lo=None, hi=None, nonzero=False, sample=None,
             u=False):
        run = self.run
        v = var(name)
        if name not in run.vars:
            run.vars[name] = dict(lo=lo, hi=hi, nonzero=nonzero,
                                  sample=sample)
            if lo is not None:
                run.assume(v > lo)
                if lo >= 0:
                    run.positive.add(name)
            if hi is not None:
                run.assume(v < hi)
            if nonzero:
                run.assume(v != 0)
        return v

    def uncertain(self, name, **dom):
        """A real with an uncertainty: x + e."""
        x = self.real(name, **dom)
        s = self.real('σ ' + name, lo=0.0)
        self.run.eps['±' + name] = s
        return x + var('±' + name)

    def choice(self, name, options):
        options = list(options)
        i = self.run.choices.get(name)
        if i is None:
            i = self.run.decide(('choice', name), len(options))
            self.run.choices[name] = i
        return options[i]

    def length(self, name, lo=1, hi=4, long=None):
        """A length: any integer from lo on (bounded runs: lo to hi, and one
        in ten, half in a search, up to `long`)."""
        v = var(name)
        if name not in self.run.vars:
            self.run.vars[name] = dict(lo=lo - 1, hi=None, nonzero=False,
                                       sample=(lo, hi), integer=True)
            self.run.assume(v >= lo)
        return v

    def array(self, name, n, **dom):
        """An array of n unknown reals (n may be a symbolic length)."""
        from .loops import SymArr
        run = self.run
        run.arrays[name] = (n, dom)
        lo, hi = dom.get('lo'), dom.get('hi')
        if isinstance(n, int):
            return np.array([self.real('%s[%d]' % (name, k), **dom)
                             for k in range(n)], dtype=object)

        def elem(k):
            return sym.uf('arr:' + name, k)
        return SymArr(n, (), elem, name)

    def index(self, n, label='j'):
        """Generic index below n (all of them in numeric mode)."""
        if isinstance(n, int):
            for k in range(n):
                yield k
            return
        if self.run.havoc:
            for k in self.havoc_rows(n):
                yield k
            return
        j = var('index:' + label)
        self.run.vars['index:' + label] = dict(index=True, sample=(0, 0))
        yield j

    def havoc_loops(self):
        self.run.havoc = True

    def havoc_rows(self, n):
        """Row 0, the row of the generic iteration and rows no iteration
        writes, if there can be any."""
        run = self.run
        if run.open_loops:
            run.havoc_break = run.open_loops[-1]
        yield const(0)
        r = var('row')
        run.vars['row'] = dict(index=True, sample=(0, 0))
        if run.open_loops:
            # left by break: iterations before it have written their rows
            loop = run.open_loops[-1]
            shift = run.eng.loop_shift.get(loop.node.lineno)
            if shift is None:
                raise Later()
            if loop.touched:
                unsupported('break after writing')
            beyond = [r >= loop.a + shift, r < n, r > 0]
        elif run.havoc_done:
            loop, row, shift = run.havoc_done
            yield row
            beyond = [r >= loop.n + shift, r < n, r > 0]
        else:
            beyond = [r > 0, r < n]
        if smt.check(run.conds + [as_cond(c) for c in beyond],
                     4000) == 'unsat':
            return
        for c in beyond:
            run.assume(c)
        run.unwritten.add(r.id)
        yield r

    def entry(self, arr, j):
        return arr[j]

    def assume(self, cond):
        self.run.assume(cond)
        if cond is False:
            raise Infeasible()

    def provably_equal(self, a, b):
        return self.run.provably_equal(a, b)

    def apart(self, a, b):
        """The terms differ at some sampled point (no proof is tried)."""
        return self.run.apart(a, b)

    def use_lemmas(self, *groups):
        self.run.use_lemmas(groups)

    def eq(self, label, a, b, tol=None, scale=None):
        self.run.eq(label, a, b)

    def true(self, label, cond, why=''):
        if isinstance(cond, (np.bool_,)):
            cond = bool(cond)
        self.run.holds(label, cond, why)

    holds = true

    def note_stub(self, name):
        self.run.stubbed.add(name)

    def spectral(self, A, w, V):
        self.run.spectral.append((np.array(A, dtype=object), list(w),
                                  np.array(V, dtype=object)))


class NumericCtx(Ctx):
    mode = 'numeric'

    def __init__(self, rng, values=None, choices=None, wild=0.0):
        self.rng = rng
        self.wild = wild        # how often to leave the usual range
        self.long = 0.1         # how often a long array
        self._patches = []
        self.values = dict(values or {})
        self.fixed = values is not None
        self.choices = dict(choices or {})
        self.log = []           # (label, ok, message)
        self.count = 0
        self.used = {}
        self.used_choices = {}
        self.rtol = 1e-7

    def sample(self, lo, hi, nonzero, sample):
        r = self.rng
        if sample is not None:
            a, b = sample
        elif lo is not None and hi is not None:
            a, b = lo + 0.02 * (hi - lo), hi - 0.02 * (hi - lo)
        elif lo is not None:
            a, b = lo + 0.1, lo + 3.0
        elif hi is not None:
            a, b = hi - 3.0, hi - 0.1
        else:
            a, b = -3.0, 3.0
        x = r.uniform(a, b)
        if self.wild and r.random() < self.wild:
            # elsewhere in the domain: other sign, other magnitude
            big = max(abs(a), abs(b))
            y = r.choice([-x, r.uniform(-big, big), 3 * x, -3 * x, x / 4,
                          0.0])
            if (lo is None or y > lo) and (hi is None or y < hi):
                x = y
        if nonzero and abs(x) < 1e-2:
            x = 0.5
        return x

    def real(self, name, lo=None, hi=None, nonzero=False, sample=None,
             u=False):
        if name in self.used:
            x = self.used[name]
        elif name in self.values:
            x = float(self.values[name])
            if (lo is not None and x <= lo) or (hi is not None and x >= hi) \
                    or (nonzero and x == 0):
                raise Skip('outside of the domain')
        else:
            x = self.sample(lo, hi, nonzero, sample)
        self.used[name] = x
        if u:
            from uncertainties import ufloat
            return ufloat(x, 0.0 if u is True else u * abs(x))
        return x

    def choice(self, name, options):
        options = list(options)
        if name in self.used_choices:
            i = self.used_choices[name]
        elif name in self.choices:
            i = self.choices[name]
        else:
            i = self.rng.randrange(len(options))
        self.used_choices[name] = i
        return options[i]

    def uncertain(self, name, **dom):
        from uncertainties import ufloat
        x = self.real(name, **dom)
        s = self.real('σ ' + name, lo=0.0, sample=(1e-4, 1e-2))
        return ufloat(x, s * (abs(x) + .01))

    def length(self, name, lo=1, hi=4, long=None):
        if name not in self.used:
            x = self.values.get(name)
            if x is not None:
                n = max(lo, min(int(x), long or 12))
            elif long and self.rng.random() < self.long:
                n = self.rng.choice([self.rng.randint(12, long), long])
            else:
                n = self.rng.randint(lo, hi)
            self.used[name] = n
        return self.used[name]

    def array(self, name, n, **dom):
        return np.array([self.real('%s[%d]' % (name, k), **dom)
                         for k in range(n)])

    def index(self, n, label='j'):
        if n <= 12:
            return iter(range(n))
        # a long one: both ends and some in between
        some = set(range(3)) | set(range(n - 3, n)) | {
            self.rng.randrange(n) for _ in range(6)}
        return iter(sorted(some))

    def entry(self, arr, j):
        return arr[j]

    def assume(self, cond):
        if not cond:
            raise Skip('assumption')

    def provably_equal(self, a, b):
        return a == b

    def use_lemmas(self, *groups):
        pass

    def eq(self, label, a, b, tol=None, scale=None):
        self.count += 1
        tol = tol or self.rtol
        a, b = nominal(a), nominal(b)
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            self.fail(label, 'shape %d values, expected %d' %
                      (len(fa), len(fb)))
            return
        mags = [abs(complex(nominal(y))) for _, y in fb
                if is_number(nominal(y))]
        mags = [m for m in mags if m == m and m != math.inf]
        big = scale if scale is not None else max(mags + [0.0])
        for (pa, x), (pb, y) in zip(fa, fb):
            x, y = nominal(x), nominal(y)
            if not (is_number(x) and is_number(y)):
                if not (x == y):
                    self.fail(label, 'at %s: got %r, expected %r' %
                              (list(pa), x, y))
                    return
                continue
            d = abs(complex(x) - complex(y))
            m = max(abs(complex(y)), 1e-3 * big, 1e-9)
            if not (d <= tol * m):
                if not math.isfinite(abs(complex(y))):
                    if x != x and y != y:
                        continue
                    if math.isfinite(abs(complex(x))):
                        raise Skip('spec not finite')
                    continue
                self.fail(label, 'at %s: got %r, expected %r' %
                          (list(pa), x, y))
                return
        self.log.append((label, True, ''))

    def true(self, label, cond, why=''):
        self.count += 1
        if not bool(cond):
            self.fail(label, why or 'condition is false')
        else:
            self.log.append((label, True, ''))

    holds = true

    def fail(self, label, msg):
        self.log.append((label, False, msg))
        raise CheckFailed('%s: %s' % (label, msg))

    def note_stub(self, name):
        pass

    def spectral(self, A, w, V):
        pass

    def havoc_loops(self):
        pass


# ---------------------------------------------------------------- symbolic
class Obligation(object):
    __slots__ = ('label', 'status', 'backend', 'detail', 'values', 'choices',
                 'stubbed')

    def __init__(self, label, status, backend, detail='', values=None,
                 choices=None, stubbed=()):
        self.label = label
        self.status = status        # proved / refuted / unknown
        self.backend = backend
        self.detail = detail
        self.values = values
        self.choices = choices
        self.stubbed = sorted(stubbed)

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Run(object):
    """One symbolic path."""
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.trace = []          # [(key, taken, n options)]
        self.conds = []
        self.decided = {}
        self.vars = {}
        self.arrays = {}
        self.choices = {}
        self.positive = set()
        self.stubbed = set()
        self.divisors = {}
        self.eps = {}            # deviation -> its standard deviation
        self.spectral = []       # (A, w, V) with A = V diag(w) V^T
        self.open_loops = []
        self.loops_done = 0
        self.havoc = False       # one generic iteration per loop
        self.havoc_done = None   # (loop, written row, shift)
        self.havoc_break = None
        self.unwritten = set()
        self.active = set()
        self.nloop = 0
        self.unsupported_notes = []
        self.lengths = {}
        self._norm = None
        self._npos = None
        self.in_proof = False
        self.cuts = None         # lemmas within goals

    # --- path
    def decide(self, key, n, order=None):
        k = len(self.trace)
        if k < len(self.prefix):
            i = self.prefix[k]
        else:
            i = 0
            for other in range(1, n):
                self.eng.push([t for _, t, _ in self.trace] + [other])
        self.trace.append((key, i, n))
        return i

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        c = as_cond(cond)
        self.conds.append(c)
        # remember sign facts on plain variables
        if c.op in ('lt', 'le') and c.args[0].op == 'c' and \
                c.args[0].value >= 0 and c.args[1].op == 'v' and (
                    c.op == 'lt' or c.args[0].value > 0):
            self.positive.add(c.args[1].args[0])

    def ckey(self, c):
        return (c.op,) + tuple(a.id if isinstance(a, Sym) else
                               self.ckey(a) if isinstance(a, Cond) else a
                               for a in c.args)

    def branch(self, c):
        if c.op == 'const':
            return c.args[0]
        if c.op == 'not':
            return not self.branch(c.args[0])
        if c.op == 'and':
            return all(self.branch(a) for a in c.args)
        if c.op == 'or':
            return any(self.branch(a) for a in c.args)
        if self.in_proof:
            raise RuntimeError('branch inside a proof')
        key = self.ckey(c)
        if key in self.decided:
            return self.decided[key]
        if self.active & c.variables() or self.lvars(c):
            unsupported('branch on the index of a loop')
        r = self.simple(c)
        if r is None and self.havoc and self.open_loops and \
                any(has_uf(a) for a in c.args):
            # both ways; an impossible one only adds obligations
            r = [True, False][self.decide(('branch', key), 2)]
            self.conds.append(c if r else Cond('not', c))
        elif r is None:
            yes = smt.check(self.conds + [c], self.eng.branch_ms)
            no = smt.check(self.conds + [Cond('not', c)], self.eng.branch_ms)
            if yes == 'unsat' and no == 'unsat':
                raise Infeasible()
            if yes == 'unsat':
                r = False
            elif no == 'unsat':
                r = True
            else:
                r = [True, False][self.decide(('branch', key), 2)]
                self.conds.append(c if r else Cond('not', c))
                if r and c.op == 'lt' and c.args[0] is sym.ZERO and \
                        c.args[1].op == 'v':
                    self.positive.add(c.args[1].args[0])
        self.decided[key] = r
        return r

    def lvars(self, c):
        return self.active and any(v.startswith('loop:')
                                   for v in c.variables())

    def simple(self, c):
        """Decide without the solver where the difference is a constant."""
        a, b = c.args
        try:
            n = self.norm()
            d = n.reduce(n.add(n.norm(a), n.neg(n.norm(b))))
        except (poly.TooBig, ZeroDivisionError):
            return None
        if not d.num:
            return c.op in ('le', 'eq')
        if len(d.num) == 1 and 0 in d.num and not d.den:
            s = d.num[0]
            return {'lt': s < 0, 'le': s <= 0, 'eq': False, 'ne': True}[c.op]
        return None

    def norm(self):
        pos = frozenset(self.positive)
        if self._norm is None or self._npos != pos:
            self._norm = poly.Norm(pos)
            self._npos = pos
        return self._norm

    # --- hooks used by sym.py and loops.py
    def note_unsupported(self, msg):
        self.unsupported_notes.append(msg)

    def note_divisor(self, a):
        self.divisors[a.id] = a

    def new_loop(self, n):
        self.nloop += 1
        a = var('loop:%d:a' % self.nloop)
        b = var('loop:%d:b' % self.nloop)
        self.active |= {a.args[0], b.args[0]}
        return a, b

    def close_loop(self, loop):
        self.active -= {loop.a.args[0], loop.b.args[0]}

    def same_length(self, n, m):
        if n is m:
            return
        if isinstance(n, (int, Sym)) and isinstance(m, (int, Sym)):
            if n == m:
                return
        raise ValueError('operands could not be broadcast together')

    def distinct(self, i, j):
        for k in (i, j):
            if not (isinstance(k, Sym) and k.op == 'v'):
                return False
        # the two generic indices of one loop are distinct iterations
        a, b = i.args[0], j.args[0]
        return a != b and a[:-1] == b[:-1] and a.startswith('loop:')

    # --- obligations
    def provably_equal(self, a, b):
        a, b = SymC.lift(nominal(a)), SymC.lift(nominal(b))
        if a is NotImplemented or b is NotImplemented:
            return False
        try:
            return all(x is y or poly.prove_equal(x, y, norm=self.norm())
                       for x, y in ((a.real, b.real), (a.imag, b.imag)))
        except (poly.TooBig, ZeroDivisionError):
            return False

    def apart(self, a, b):
        if not hasattr(self, 'somewhere'):
            self.somewhere = Somewhere(self), {}
        env, memo = self.somewhere
        a, b = SymC.lift(nominal(a)), SymC.lift(nominal(b))
        if a is NotImplemented or b is NotImplemented:
            return False
        try:
            x, y = [[sym.evaluate(t, env, None, memo)
                     for t in (c.real, c.imag)] for c in (a, b)]
        except (Unsupported, ArithmeticError, ValueError, KeyError):
            return False
        return any(abs(p - q) > 1e-6 * (1 + abs(p) + abs(q))
                   for p, q in zip(x, y))

    def add(self, label, status, backend, detail='', values=None):
        self.eng.obligations.append(Obligation(
            label, status, backend, detail, values, dict(self.choices),
            self.stubbed))

    def eq(self, label, a, b):
        a, b = nominal(a), nominal(b)
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            self.add(label, 'refuted', 'structure', '%d values, expected %d' %
                     (len(fa), len(fb)), self.a_point())
            return
        for (pa, x), (pb, y) in zip(fa, fb):
            lab = label + (str(list(pa)) if pa else '')
            self.eq1(lab, x, y)

    def eq1(self, label, x, y):
        if not (is_number(x) and is_number(y)):
            same = type(x) is type(y) and x == y
            self.add(label, 'proved' if same else 'refuted', 'structure',
                     '' if same else 'got %s, expected %s' % (
                         describe(x), describe(y)), self.a_point())
            return
        xc, yc = SymC.lift(x), SymC.lift(y)
        for part in ('real', 'imag'):
            p, q = getattr(xc, part), getattr(yc, part)
            if p is q:
                if part == 'real':
                    self.add(label, 'proved', 'syntactic')
                continue
            lab = label if part == 'real' else label + '.imag'
            self.in_proof = True
            t0 = time.time()
            if self.cuts is not None:
                try:
                    ok = self.cuts.prove(p, q)
                finally:
                    self.in_proof = False
                    self.eng.poly_time += time.time() - t0
                if ok:
                    self.add(lab, 'proved', 'ring normal form, with lemmas')
                    continue
                if self.refute(Cond('ne', p, q)) is None:
                    self.add(lab, 'unknown', 'ring normal form',
                             'normal forms with lemmas differ')
                    continue
            try:
                ok = poly.prove_equal(p, q, norm=self.norm())
                why = 'normal forms differ'
            except poly.TooBig:
                ok, why = False, 'normal form too large'
            except ZeroDivisionError:
                ok, why = False, 'divides by a term that is zero'
            finally:
                self.in_proof = False
                self.eng.poly_time += time.time() - t0
            if ok:
                self.add(lab, 'proved', 'ring normal form')
                continue
            point = self.refute(Cond('ne', p, q))
            eqs = [c.args for c in self.conds if c.op == 'eq']
            if point is None and eqs and why == 'normal forms differ':
                self.in_proof = True
                try:
                    ok = poly.prove_under(p, q, eqs, self.norm())
                except (poly.TooBig, ZeroDivisionError):
                    pass
                finally:
                    self.in_proof = False
                if ok:
                    self.add(lab, 'proved', 'ring normal form')
                    continue
            if point is None and why == 'normal forms differ':
                # perhaps the path condition matters
                r = smt.check(self.conds + [Cond('ne', p, q)], 5000)
                if r == 'unsat':
                    self.add(lab, 'proved', 'z3')
                    continue
            self.add(lab, 'refuted' if point else 'unknown',
                     'evaluation' if point else 'ring normal form',
                     why + (': got %s, expected %s' % (
                         describe(p), describe(q))), point)

    def use_lemmas(self, groups):
        """Terms of the specification that the code computes on the way to
        the goals that follow (see cuts.py)."""
        from . import cuts
        self.cuts = cuts.Cuts(self, groups) if groups else None

    def holds(self, label, cond, why=''):
        if isinstance(cond, bool):
            self.add(label, 'proved' if cond else 'refuted', 'path',
                     '' if cond else (why or 'false on this path'),
                     None if cond else self.a_point())
            return
        c = as_cond(cond)
        if c.op == 'and':
            for x in c.args:
                self.holds(label, x if x.op != 'const' else x.args[0], why)
            return
        r = smt.check(self.conds + [Cond('not', c)], self.eng.goal_ms)
        if r == 'unsat':
            self.add(label, 'proved', 'z3')
            return
        point = self.refute(Cond('not', c))
        self.add(label, 'refuted' if point else 'unknown', 'z3',
                 why or repr(c)[:300], point)

    # --- points on this path
    def sampler(self):
        return NumericCtx(random.Random(7 + self.eng.seed))

    def points(self, extra=(), tries=400):
        """Sampled assignments satisfying the path condition."""
        s = self.sampler()
        names = set()
        for c in list(self.conds) + list(extra):
            names |= c.variables()
        for d in self.divisors.values():
            names |= d.variables()
        names |= set(self.vars)
        names.discard('pi')

        def complete(env):
            for n in names:
                if n in env:
                    continue
                d = self.vars.get(n)
                if d is None:
                    env[n] = float(s.rng.randint(0, 3)) if (
                        n.startswith('loop:') or n.startswith('index:')
                    ) else s.rng.uniform(-2, 2)
                elif d.get('index'):
                    env[n] = 0.0
                elif d.get('integer'):
                    env[n] = float(s.rng.randint(*d['sample']))
                else:
                    env[n] = s.sample(d['lo'], d['hi'], d['nonzero'],
                                      d['sample'])
            return env
        found = 0
        for k in range(tries):
            s.wild = (0.0, 0.15, 0.0, 0.5)[k % 4]
            env = complete({})
            if self.satisfies(env):
                found += 1
                yield env
                if found >= 60:
                    return
        s.wild = 0.0
        if not found:
            r, model = smt.check(self.conds + list(extra), 4000, True)
            if r == 'sat':
                for k in range(5):
                    env = complete({n: v for n, v in model.items()
                                    if n in names})
                    if self.satisfies(env, 1e-9):
                        yield env

    def satisfies(self, env, tol=0.0):
        try:
            return all(self.true_at(c, env, tol) for c in self.conds)
        except (ValueError, ZeroDivisionError, OverflowError, KeyError,
                TypeError):
            return False

    def true_at(self, c, env, tol=0.0):
        if c.op == 'const':
            return c.args[0]
        if c.op == 'not':
            return not self.true_at(c.args[0], env)
        if c.op == 'and':
            return all(self.true_at(a, env, tol) for a in c.args)
        if c.op == 'or':
            return any(self.true_at(a, env, tol) for a in c.args)
        a = sym.evaluate(c.args[0], env)
        b = sym.evaluate(c.args[1], env)
        if isinstance(a, complex) or isinstance(b, complex):
            return False
        s = 1e-9 * (1 + abs(a) + abs(b))
        return {'lt': a < b + tol, 'le': a <= b + tol, 'eq': abs(a - b) <= s,
                'ne': abs(a - b) > s}[c.op]

    def a_point(self):
        for env in self.points(tries=60):
            return env
        return {}

    def refute(self, goal):
        """A point on the path where the goal (negated claim) is true."""
        import mpmath
        mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
        mp.dps = 40
        n = 0
        for env in self.points([goal]):
            n += 1
            try:
                if goal.op == 'ne':
                    p, q = goal.args
                    a, b = sym.evaluate(p, env), sym.evaluate(q, env)
                    if not abs(a - b) > 1e-6 * (1e-3 + abs(a) + abs(b)):
                        continue
                    a = sym.evaluate(p, env, mp)
                    b = sym.evaluate(q, env, mp)
                    if abs(a - b) > 1e-9 * (1e-3 + abs(a) + abs(b)):
                        return env
                elif self.true_at(goal, env):
                    return env
            except (ValueError, ZeroDivisionError, OverflowError, KeyError,
                    TypeError):
                continue
            if n > 80:
                break
        if goal.op != 'ne':
            r, model = smt.check(self.conds + [goal], 4000, True)
            if r == 'sat':
                env = {k: v for k, v in model.items() if k in self.vars}
                for e in [env]:
                    s = self.sampler()
                    for nme, d in self.vars.items():
                        if nme not in e and not d.get('index'):
                            e[nme] = s.sample(d['lo'], d['hi'], d['nonzero'],
                                              d['sample'])
                    try:
                        if self.satisfies(e, 1e-9) and self.true_at(goal, e):
                            return e
                    except Exception:
                        pass
        return None


class Engine(object):
    branch_ms = 1500
    goal_ms = 8000

    def __init__(self, case, seed=1, max_paths=4000, seconds=120):
        self.case = case
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = time.time() + seconds
        self.stack = [[]]
        self.obligations = []
        self.undecided = []      # (reason, choices)
        self.doubtful = []       # choices and points of undecided paths
        self.doubt_until = None
        self.errors = []         # exceptions on a path, to be confirmed
        self.paths = 0
        self.infeasible = 0
        self.loops = 0
        self.poly_time = 0.0
        self.stubs = set()
        self.loop_shift = {}     # line of a loop -> offset of written rows
        self.later = 0
        self.complete = False

    def push(self, prefix):
        self.stack.append(prefix)

    def doubt(self, run):
        """Where the bounded search for what is undecided may look."""
        pts = []
        if self.doubt_until is None:
            self.doubt_until = time.time() + 15
        if len(self.doubtful) < 150 and time.time() < self.doubt_until:
            try:
                for env in run.points(tries=40):
                    pts.append(env)
                    if len(pts) >= 3:
                        break
            except Exception:
                pass
        if len(self.doubtful) < 2000:
            self.doubtful.append((dict(run.choices), pts))

    def explore(self):
        from . import shims
        with shims.installed():
            while self.stack:
                if self.paths >= self.max_paths or \
                        time.time() > self.deadline:
                    self.undecided.append(('path or time budget used up '
                                           '(%d paths pending)' %
                                           len(self.stack), {}))
                    return self
                prefix = self.stack.pop()
                self.path(prefix)
        self.complete = True
        return self

    def path(self, prefix):
        run = Run(self, prefix)
        STATE.engine = run
        before = len(self.obligations)
        ctx = SymbolicCtx(run)
        try:
            CURRENT[:] = [ctx]
            self.case(ctx)
            ctx.check_frames()
            self.paths += 1
            if run.unsupported_notes:
                # the code swallowed our signal
                del self.obligations[before:]
                self.undecided.append((run.unsupported_notes[0],
                                       dict(run.choices)))
                self.doubt(run)
        except Infeasible:
            self.infeasible += 1
            del self.obligations[before:]
        except Later:
            self.later += 1
            if self.later > 20:
                self.undecided.append(('loop left before any iteration', {}))
            else:
                self.stack.insert(0, [t for _, t, _ in run.trace])
            del self.obligations[before:]
        except Unsupported as e:
            self.paths += 1
            why = str(e)
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if 'bicycleparameters' in f.filename]
            if where:
                why += ' at %s:%d' % (where[-1].filename.split('/')[-1],
                                      where[-1].lineno)
            # obligations stated before remain valid for this path prefix
            self.undecided.append((why, dict(run.choices)))
            self.doubt(run)
        except RecursionError as e:
            self.undecided.append(('recursion', dict(run.choices)))
            self.doubtful.append((dict(run.choices), []))
        except Exception as e:
            self.paths += 1
            if run.unsupported_notes:
                self.undecided.append((run.unsupported_notes[0],
                                       dict(run.choices)))
                self.doubt(run)
            else:
                pts = []
                try:
                    for env in run.points(tries=80):
                        pts.append(env)
                        if len(pts) >= 4:
                            break
                except Unsupported:
                    pass
                tb = traceback.format_exc(limit=-6)
                self.errors.append(dict(error=repr(e), trace=tb, points=pts,
                                        choices=dict(run.choices)))
        finally:
            STATE.engine = None
            ctx.restore()
        self.loops += run.loops_done
        self.stubs |= run.stubbed


class Somewhere(dict):
    """A point of the domains of the variables, drawn when asked for."""
    def __init__(self, run):
        self.run, self.source = run, run.sampler()

    def __missing__(self, name):
        d = self.run.vars.get(name)
        if d is None or d.get('index') or d.get('integer'):
            raise KeyError(name)
        self[name] = self.source.sample(d['lo'], d['hi'], d['nonzero'],
                                        d['sample'])
        return self[name]


# ---------------------------------------------------------------- numeric
def run_numeric(case, rng, values=None, choices=None, wild=0.0, long=None):
    """(status, message, ctx): status in pass / fail / skip."""
    ctx = NumericCtx(rng, values, choices, wild)
    if long is not None:
        ctx.long = long
    try:
        CURRENT[:] = [ctx]
        with np.errstate(all='ignore'):
            case(ctx)
            ctx.check_frames()
    except Skip as e:
        return 'skip', str(e), ctx
    except CheckFailed as e:
        return 'fail', str(e), ctx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if (values or wild) and tb[-1].name == '_m' and \
                isinstance(e, (ValueError, OverflowError)):
            # a point at which the specification itself has no value
            return 'skip', 'outside of the specification', ctx
        where = ['%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb]
        return 'fail', 'raised %r (%s)' % (e, ' > '.join(where[-4:])), ctx
    finally:
        ctx.restore()
    return 'pass', '', ctx
