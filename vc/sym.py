"""Symbolic real terms (hash-consed DAG) on which CPython executes the real code.

A Sym is a mathematical real number.  Arithmetic on Syms builds terms; a
comparison builds a Cond whose truth value is decided by the active engine,
which forks the path (see engine.py).  Nothing here depends on the code under
verification.
"""
import math
import re
import numbers
from fractions import Fraction

import numpy as _np


class Unsupported(BaseException):
    """The engine cannot follow the code here; the result is 'undecided'."""


class _State:
    engine = None       # the active symbolic run, if any


STATE = _State()


def unsupported(msg):
    if STATE.engine is not None:
        STATE.engine.note_unsupported(msg)
    raise Unsupported(msg)


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    if isinstance(x, _np.integer):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        unsupported('non-finite constant')
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x))
    r = repr(x)
    digits = r.replace('-', '').replace('.', '').split('e')[0].strip('0')
    if len(digits) <= 13:
        return Fraction(r)
    g = Fraction(x).limit_denominator(1000000)
    if g != 0 and abs(float(g) - x) <= 4.5e-16 * abs(x):
        return g
    return Fraction(r)


_TABLE = {}
_COUNT = [0]


class Sym(object):
    __slots__ = ('op', 'args', 'id', '_vars', '__weakref__')
    # no __array_priority__: object arrays handle broadcasting

    def __hash__(self):
        return self.id

    # ---------------------------------------------------------- structure
    @property
    def is_const(self):
        return self.op == 'c'

    @property
    def value(self):
        return self.args[0]

    def variables(self):
        """All variable names and uninterpreted symbols below this term."""
        if self._vars is None:
            out = set()
            stack, seen = [self], set()
            while stack:
                s = stack.pop()
                if s.id in seen:
                    continue
                seen.add(s.id)
                if s.op == 'v':
                    out.add(s.args[0])
                elif s.op != 'c':
                    for a in s.args:
                        if isinstance(a, Sym):
                            stack.append(a)
            self._vars = frozenset(out)
        return self._vars

    def __repr__(self):
        return show(self)

    # ---------------------------------------------------------- arithmetic
    def __add__(self, o):
        o = lift(o)
        return o if o is NotImplemented else add(self, o)

    def __radd__(self, o):
        o = lift(o)
        return o if o is NotImplemented else add(o, self)

    def __sub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else add(self, neg(o))

    def __rsub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else add(o, neg(self))

    def __mul__(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        o = lift(o)
        return o if o is NotImplemented else mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mul(o, self)

    def __truediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return fn('pow', o, self)

    def __abs__(self):
        return fn('abs', self)

    def __floordiv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else fn('floor', div(self, o))

    def __rfloordiv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else fn('floor', div(o, self))

    def __mod__(self, o):
        o = lift(o)
        return o if o is NotImplemented else \
            self - o * fn('floor', div(self, o))

    def __rmod__(self, o):
        o = lift(o)
        return o if o is NotImplemented else o % self

    def __divmod__(self, o):
        return self // o, self % o

    def _noconv(self, *a):
        unsupported('conversion of a symbolic value to a machine number')

    __floor__ = __ceil__ = __index__ = __trunc__ = _noconv

    def __int__(self):
        # case split on the integer part
        t = self.trunc()
        k, step = 0, 1 if t >= 0 else -1
        while (t >= k + 1) if step > 0 else (t <= k - 1):
            k += step
            if abs(k) > 40:
                unsupported('integer part of an unbounded value')
        return k

    def __round__(self, ndigits=None):
        if ndigits is None:
            return self.rint()
        ten = Fraction(10) ** int(ndigits)
        return div(fn('rint', mul(self, const(ten))), const(ten))

    def __float__(self):
        if not tokens.printing:
            self._noconv()
        return tokens.number(self)

    def __bool__(self):
        return bool(self != 0)

    # numpy object loops call these methods
    def sin(self): return fn('sin', self)
    def cos(self): return fn('cos', self)
    def tan(self): return fn('tan', self)
    def arcsin(self): return fn('asin', self)
    def arccos(self): return fn('acos', self)
    def arctan(self): return fn('atan', self)
    def arctan2(self, o): return fn('atan2', self, must(o))
    def sqrt(self): return sqrt(self)
    def exp(self): return fn('exp', self)
    def log(self): return fn('log', self)
    def log10(self): return fn('log10', self)
    def fabs(self): return abs(self)
    def square(self): return mul(self, self)
    def conjugate(self): return self
    conj = conjugate
    def deg2rad(self): return self * PI / 180
    def rad2deg(self): return self * 180 / PI
    radians = deg2rad
    degrees = rad2deg
    def hypot(self, o): return sqrt(self * self + must(o) * must(o))
    def floor(self): return fn('floor', self)
    def ceil(self): return neg(fn('floor', neg(self)))
    def rint(self): return fn('rint', self)

    def trunc(self):
        return self.floor() if self >= 0 else self.ceil()

    def sign(self):
        return const(1 if self > 0 else -1 if self < 0 else 0)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0)

    # uncertainties: without deviations (see deviations below) the nominal
    # value is the real and the deviation is unknown
    @property
    def nominal_value(self):
        return nominal_part(self)
    n = nominal_value

    @property
    def std_dev(self):
        d = deviations(self)
        if not d:
            return uf('std_dev', self)
        eps = STATE.engine.eps
        return sqrt(sum(power(eps[k] * nominal_part(diff(self, k)), 2)
                        for k in sorted(d)))
    s = std_dev

    def item(self):
        return self

    def is_integer(self):
        unsupported('is_integer')

    # ---------------------------------------------------------- comparison
    def __lt__(self, o): return compare('lt', self, o)
    def __le__(self, o): return compare('le', self, o)
    def __gt__(self, o): return compare('lt', self, o, swap=True)
    def __ge__(self, o): return compare('le', self, o, swap=True)

    def __eq__(self, o):
        return compare('eq', self, o)

    def __ne__(self, o):
        return compare('ne', self, o)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        unsupported('pickling')

    def __format__(self, spec):
        if spec and tokens.printing:
            return format(tokens.number(self), spec)
        return tokens.token(self)

    def __str__(self):
        return tokens.token(self)


numbers.Real.register(Sym)


class Tokens:
    """Opaque text for symbolic values: str(x) is a token, float(token) is x.

    The token is a run of private-use characters, so it contains none of the
    characters with a meaning in the file formats.  This encodes the assumed
    contract float(str(x)) == x of CPython floats.
    """
    def __init__(self):
        self.by_token = {}
        self.printing = False
        self.by_number = {}

    # formatting with a number of decimals: C code that formats a float gets
    # a number with recognisable digits
    BASE = 700000000000000

    def number(self, s):
        self.by_number[s.id] = s
        return float(self.BASE + s.id)

    def printed(self, text):
        '''The value and the number of decimals in the text of a number.'''
        m = re.match(r'^\s*(\d{15})(?:\.(\d*))?\s*$', text)
        if m is None or int(m.group(1)) - self.BASE not in self.by_number:
            unsupported('formatted value %r' % text)
        n = len(m.group(2) or '')
        return round(self.by_number[int(m.group(1)) - self.BASE], n), n

    def token(self, s):
        t = ''
        n = s.id
        while True:
            t = chr(0xE000 + n % 64) + t
            n //= 64
            if n == 0:
                break
        t = chr(0xE100) + t + chr(0xE101)
        self.by_token[t] = s
        return t

    def parse(self, text):
        text = text.strip()
        if text in self.by_token:
            return self.by_token[text]
        if any(0xE000 <= ord(c) <= 0xE1FF for c in text):
            raise ValueError('could not convert string to float: %r' % text)
        return None


tokens = Tokens()


def _mk(op, *args):
    key = (op,) + tuple(('#', a.id) if isinstance(a, Sym) else a for a in args)
    s = _TABLE.get(key)
    if s is None:
        s = object.__new__(Sym)
        s.op = op
        s.args = args
        _COUNT[0] += 1
        s.id = _COUNT[0]
        s._vars = None
        _TABLE[key] = s
    return s


def const(x):
    return _mk('c', to_fraction(x))


def var(name):
    return _mk('v', name)


PI = var('pi')
ZERO = const(0)
ONE = const(1)


def pi_multiple(x):
    '''The rational q with x == q*pi, if x is such a float.'''
    if x == 0 or not math.isfinite(x) or len(repr(x)) < 15:
        return None
    q = Fraction(x / math.pi).limit_denominator(360)
    if q != 0 and abs(float(q) * math.pi - x) <= 3e-16 * abs(x):
        return q
    return None


def lift(o):
    if type(o) is Sym:
        return o
    if isinstance(o, SymC):
        return NotImplemented
    if isinstance(o, (int, float, Fraction, _np.integer, _np.floating)):
        if isinstance(o, (float, _np.floating)):
            q = pi_multiple(float(o))
            if q is not None:
                return PI if q == 1 else mul(const(q), PI)
        return const(o)
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return NotImplemented


def must(o):
    s = lift(o)
    if s is NotImplemented:
        unsupported('cannot use %r as a real' % type(o))
    return s


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.value + b.value)
        if a.value == 0:
            return b
    elif b.op == 'c' and b.value == 0:
        return a
    return _mk('+', a, b)


def neg(a):
    return mul(const(-1), a)


def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.value * b.value)
        if a.value == 0:
            return ZERO
        if a.value == 1:
            return b
    elif b.op == 'c':
        return mul(b, a)
    if a.op == 'c' and b.op == '*' and b.args[0].op == 'c':
        return mul(const(a.value * b.args[0].value), b.args[1])
    return _mk('*', a, b)


def inv(a):
    if a.op == 'c':
        if a.value == 0:
            raise ZeroDivisionError('division by zero')
        return const(1 / a.value)
    if STATE.engine is not None:
        STATE.engine.note_divisor(a)
    return _mk('^', a, -1)


def div(a, b):
    return mul(a, inv(b))


def power(a, p):
    if isinstance(p, Sym):
        if p.op != 'c':
            return fn('pow', a, p)
        p = p.value
    if isinstance(p, _np.ndarray):
        return NotImplemented
    p = to_fraction(p)
    if p.denominator == 1:
        n = int(p)
        if n == 0:
            return ONE
        if a.op == 'c':
            if a.value == 0 and n < 0:
                raise ZeroDivisionError
            return const(a.value ** n)
        if n == 1:
            return a
        if n < 0 and STATE.engine is not None:
            STATE.engine.note_divisor(a)
        return _mk('^', a, n)
    if p.denominator == 2:
        return power(sqrt(a), p.numerator)
    return fn('pow', a, const(p))


def sqrt(a):
    if a.op == 'c':
        if a.value < 0:
            return float('nan')
        n, d = math.isqrt(a.value.numerator), math.isqrt(a.value.denominator)
        if n * n == a.value.numerator and d * d == a.value.denominator:
            return const(Fraction(n, d))
    return fn('sqrt', a)


_EXACT0 = {'sin': 0, 'cos': 1, 'tan': 0, 'asin': 0, 'atan': 0, 'exp': 1}


def integral(t, depth=6):
    """Certainly an integer, by its form."""
    if t.op == 'c':
        return t.value.denominator == 1
    if t.op == 'f':
        return t.args[0] in ('floor', 'rint')
    return t.op in '+*' and depth > 0 and all(integral(a, depth - 1)
                                              for a in t.args)


def fn(name, *args):
    if name in ('floor', 'rint') and integral(args[0]):
        return args[0]
    if len(args) == 1 and args[0].op == 'c':
        x = args[0].value
        if x == 0 and name in _EXACT0:
            return const(_EXACT0[name])
        if name == 'abs':
            return const(abs(x))
        if name in ('log', 'log10') and x == 1:
            return ZERO
        if name == 'floor':
            return const(math.floor(x))
        if name == 'rint':
            return const(round(x))
    return _mk('f', name, *args)


def uf(name, *args):
    """Uninterpreted function application (used for contracts of callees)."""
    return _mk('u', name, *[must(a) if not isinstance(a, (str, tuple, bool,
                                                         type(None)))
                            else a for a in args])


def subst(s, mapping, memo=None):
    """Replace variables (by name) in a term."""
    if memo is None:
        memo = {}
    if not (s.variables() & mapping.keys()):
        return s
    r = memo.get(s.id)
    if r is not None:
        return r
    if s.op == 'v':
        r = mapping.get(s.args[0], s)
    elif s.op == 'c':
        r = s
    else:
        a = [subst(x, mapping, memo) if isinstance(x, Sym) else x
             for x in s.args]
        r = rebuild(s.op, a)
    memo[s.id] = r
    return r


def rebuild(op, a):
    if op == '+':
        return add(*a)
    if op == '*':
        return mul(*a)
    if op == '^':
        return power(a[0], a[1])
    if op == 'f':
        if a[0] == 'sqrt':
            return sqrt(a[1])
        return fn(*a)
    return _mk(op, *a)


def show(s, depth=6):
    if s.op == 'c':
        return str(s.value)
    if s.op == 'v':
        return s.args[0]
    if depth == 0:
        return '...'
    r = [show(a, depth - 1) if isinstance(a, Sym) else str(a) for a in s.args]
    if s.op == '+':
        return '(%s + %s)' % tuple(r)
    if s.op == '*':
        return '%s*%s' % tuple(r)
    if s.op == '^':
        return '%s^%s' % tuple(r)
    return '%s(%s)' % (r[0], ', '.join(r[1:]))


# ------------------------------------------------------------ uncertainties
# An uncertain number is x + e with a variable e for its deviation.  Every
# operation then carries the dependency on e along, so that the derivative at
# e = 0 is what first order propagation uses.
def deviations(s):
    eps = getattr(STATE.engine, 'eps', None)
    return s.variables() & eps.keys() if eps else ()


def nominal_part(s):
    d = deviations(s)
    return subst(s, {k: ZERO for k in d}) if d else s


# -------------------------------------------------------------- conditions
class Cond(object):
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __bool__(self):
        if STATE.engine is None:
            raise RuntimeError('symbolic condition outside of an engine run')
        return STATE.engine.branch(self)

    def __invert__(self):
        return Cond('not', self)

    def __and__(self, o):
        return Cond('and', self, as_cond(o))
    __rand__ = __and__

    def __or__(self, o):
        return Cond('or', self, as_cond(o))
    __ror__ = __or__

    def variables(self):
        out = set()
        for a in self.args:
            if isinstance(a, (Sym, Cond)):
                out |= a.variables()
        return out

    def __repr__(self):
        return 'Cond(%s %s)' % (self.op, ', '.join(map(repr_arg, self.args)))


def repr_arg(a):
    return show(a) if isinstance(a, Sym) else repr(a)


def as_cond(x):
    if isinstance(x, Cond):
        return x
    return Cond('const', bool(x))


def compare(op, a, b, swap=False):
    if isinstance(b, float) and (b in (math.inf, -math.inf) or b != b):
        if b != b:
            return op == 'ne'
        pos = b > 0
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return pos if not swap else not pos
    if isinstance(b, _np.ndarray) and b.ndim > 0:
        return NotImplemented
    s = lift(b)
    if s is NotImplemented:
        if op == 'eq':
            return False if not isinstance(b, SymC) else NotImplemented
        if op == 'ne':
            return True if not isinstance(b, SymC) else NotImplemented
        return NotImplemented
    if swap:
        a, s = s, a
    if deviations(a) or deviations(s):
        # uncertain numbers compare by their nominal values
        if op in ('eq', 'ne'):
            unsupported('equality of uncertain numbers')
        a, s = nominal_part(a), nominal_part(s)
    a, s = plain_root(a), plain_root(s)
    if is_root(a) and is_root(s):
        a, s = a.args[1], s.args[1]
    if a is s:
        return op in ('le', 'eq')
    if a.op == 'c' and s.op == 'c':
        x, y = a.value, s.value
        return {'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}[op]
    return Cond(op, a, s)


def is_root(s):
    return s.op == 'f' and s.args[0] == 'sqrt'


def plain_root(s):
    """A real square root is its own absolute value."""
    if s.op == 'f' and s.args[0] == 'abs' and is_root(s.args[1]):
        return s.args[1]
    return s


# -------------------------------------------------------------- complex
class SymC(object):
    """A complex number with symbolic parts (eigenvalues, eigenvectors)."""
    __slots__ = ('real', 'imag')

    def __init__(self, re, im):
        self.real = must(re)
        self.imag = must(im)

    @staticmethod
    def lift(o):
        if isinstance(o, SymC):
            return o
        if isinstance(o, (complex, _np.complexfloating)):
            return SymC(const(o.real), const(o.imag))
        s = lift(o)
        if s is NotImplemented:
            return s
        return SymC(s, ZERO)

    def __hash__(self):
        return hash((self.real.id, self.imag.id))

    def _bin(self, o, f):
        o = SymC.lift(o)
        return o if o is NotImplemented else f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: SymC(a.real + b.real, a.imag + b.imag))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: SymC(a.real - b.real, a.imag - b.imag))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: SymC(b.real - a.real, b.imag - a.imag))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: SymC(
            a.real * b.real - a.imag * b.imag,
            a.real * b.imag + a.imag * b.real))
    __rmul__ = __mul__

    def __neg__(self):
        return SymC(-self.real, -self.imag)

    def __abs__(self):
        return sqrt(self.real * self.real + self.imag * self.imag)

    def conjugate(self):
        return SymC(self.real, -self.imag)
    conj = conjugate

    def __eq__(self, o):
        o = SymC.lift(o)
        if o is NotImplemented:
            return False
        return as_cond(self.real == o.real) & as_cond(self.imag == o.imag)

    def __ne__(self, o):
        e = self == o
        return ~e if isinstance(e, Cond) else not e

    def _noconv(self, *a):
        unsupported('conversion of a symbolic complex number')
    __float__ = __complex__ = __int__ = __index__ = _noconv
    __lt__ = __le__ = __gt__ = __ge__ = _noconv

    def __repr__(self):
        return 'SymC(%r, %r)' % (self.real, self.imag)


numbers.Complex.register(SymC)


# -------------------------------------------------------------- calculus
def diff(s, name, memo=None):
    """Exact partial derivative of a term with respect to a variable."""
    if memo is None:
        memo = {}
    if name not in s.variables():
        return ZERO
    r = memo.get(s.id)
    if r is not None:
        return r
    D = lambda x: diff(x, name, memo)
    if s.op == 'v':
        r = ONE
    elif s.op == '+':
        r = D(s.args[0]) + D(s.args[1])
    elif s.op == '*':
        a, b = s.args
        r = D(a) * b + a * D(b)
    elif s.op == '^':
        a, n = s.args
        r = n * power(a, n - 1) * D(a)
    elif s.op == 'f':
        f, a = s.args[0], s.args[1]
        d = D(a)
        if f == 'sin':
            r = fn('cos', a) * d
        elif f == 'cos':
            r = -fn('sin', a) * d
        elif f == 'exp':
            r = s * d
        elif f == 'sqrt':
            r = d / (2 * s)
        elif f == 'tan':
            r = d / power(fn('cos', a), 2)
        elif f == 'log':
            r = d / a
        elif f == 'atan':
            r = d / (1 + a * a)
        elif f == 'asin':
            r = d / sqrt(1 - a * a)
        elif f == 'acos':
            r = -d / sqrt(1 - a * a)
        else:
            unsupported('derivative of %s' % f)
    else:
        unsupported('derivative of %s' % s.op)
    memo[s.id] = r
    return r


# -------------------------------------------------------------- evaluation
def evaluate(s, env, mp=None, memo=None):
    """Numeric value of a term (and of its sub-terms, in memo by id); env maps variable names to numbers.

    With mp (an mpmath context) arithmetic is arbitrary precision.
    Uninterpreted symbols get pseudo random values from their arguments.
    """
    import cmath
    M = mp or math
    memo = {} if memo is None else memo
    conv = (lambda x: mp.mpf(x.numerator) / x.denominator) if mp else float

    def ev(t):
        # iterative post order to avoid recursion limits
        stack = [(t, False)]
        while stack:
            n, done = stack.pop()
            if n.id in memo:
                continue
            if n.op == 'c':
                memo[n.id] = conv(n.value)
                continue
            if n.op == 'v':
                if n.args[0] == 'pi':
                    memo[n.id] = mp.pi if mp else math.pi
                else:
                    memo[n.id] = env[n.args[0]]
                    if mp:
                        memo[n.id] = mp.mpf(memo[n.id])
                continue
            kids = [a for a in n.args if isinstance(a, Sym)]
            if not done:
                stack.append((n, True))
                stack.extend((k, False) for k in kids if k.id not in memo)
                continue
            v = [memo[k.id] for k in kids]
            if n.op == '+':
                r = v[0] + v[1]
            elif n.op == '*':
                r = v[0] * v[1]
            elif n.op == '^':
                r = v[0] ** n.args[1]
            elif n.op == 'f':
                r = _apply(n.args[0], v, M, mp)
            else:
                key = (n.args[0],) + tuple(
                    round(float(memo[a.id]), 9) if isinstance(a, Sym) else a
                    for a in n.args[1:])
                h = hash(repr(key)) if False else _stable_hash(repr(key))
                r = conv(Fraction(h % 100003, 25013) - 2)
            memo[n.id] = r
        return memo[t.id]
    return ev(s)


def _stable_hash(text):
    import hashlib
    return int(hashlib.md5(text.encode()).hexdigest()[:12], 16)


def _apply(f, v, M, mp):
    if f == 'sqrt':
        if v[0] < 0:
            if v[0] > -1e-12:
                return v[0] * 0
            raise ValueError('sqrt of negative')
        return M.sqrt(v[0])
    if f == 'abs':
        return abs(v[0])
    if f in ('asin', 'acos'):
        if abs(v[0]) > 1:
            raise ValueError('domain')
    if f == 'pow':
        return v[0] ** v[1]
    if f == 'rint':
        return round(v[0]) if M is math else M.nint(v[0])
    if f in ('log', 'log10') and v[0] <= 0:
        raise ValueError('domain')
    return getattr(M, f)(*v)


def eval_cond(c, env, tol=0.0):
    if isinstance(c, bool):
        return c
    if c.op == 'const':
        return c.args[0]
    if c.op == 'not':
        return not eval_cond(c.args[0], env)
    if c.op == 'and':
        return all(eval_cond(a, env) for a in c.args)
    if c.op == 'or':
        return any(eval_cond(a, env) for a in c.args)
    a, b = evaluate(c.args[0], env), evaluate(c.args[1], env)
    return {'lt': a < b, 'le': a <= b, 'eq': abs(a - b) <= 1e-12,
            'ne': abs(a - b) > 1e-12}[c.op]
