"""Shared parts of the contracts."""
import io
import contextlib
import warnings

import numpy as np

from vc import shims

# sample ranges (numeric mode only) of the benchmark parameters
RANGES = {
    'IBxx': (2, 12), 'IBxz': (-2, 3), 'IByy': (2, 12), 'IBzz': (1, 5),
    'IFxx': (.05, .3), 'IFyy': (.1, .5), 'IHxx': (.05, .4),
    'IHxz': (-.1, .05), 'IHyy': (.05, .4), 'IHzz': (.02, .2),
    'IRxx': (.05, .3), 'IRyy': (.1, .5), 'c': (.02, .15), 'g': (8., 11.),
    'lam': (.1, .6), 'mB': (10, 90), 'mF': (1, 4), 'mH': (1, 6),
    'mR': (1, 5), 'rF': (.25, .4), 'rR': (.25, .4), 'v': (1., 9.),
    'w': (.8, 1.3), 'xB': (.2, .6), 'xH': (.6, 1.1), 'zB': (-1.2, -.6),
    'zH': (-1., -.5), 'yB': (-.1, .1), 'yH': (-.1, .1),
}
CANON = ['IBxx', 'IBxz', 'IBzz', 'IFxx', 'IFyy', 'IHxx', 'IHxz', 'IHzz',
         'IRxx', 'IRyy', 'c', 'lam', 'mB', 'mF', 'mH', 'mR', 'rF', 'rR', 'w',
         'xB', 'xH', 'zB', 'zH']
BENCH = sorted(CANON + ['IByy', 'IHyy', 'g', 'v'])
POSITIVE = {'mB', 'mF', 'mH', 'mR', 'rF', 'rR', 'w'}
GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
         'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


def domain(key):
    if key in POSITIVE:
        return dict(lo=0.0, sample=RANGES[key])
    if key == 'lam':
        return dict(sample=RANGES[key])
    if key in RANGES:
        return dict(sample=RANGES[key])
    return dict(sample=(-3., 3.))


def reals(ctx, keys, suffix='', **over):
    return {k: ctx.real(k + suffix, **over.get(k, domain(k))) for k in keys}


def meijaard(ctx, suffix='', **extra):
    """Benchmark parameters of any bicycle with positive masses and radii."""
    return reals(ctx, BENCH, suffix, **extra)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield


class Attributes(object):
    """The public attributes an object has now, for snapshots; caches
    may come and go."""
    def __init__(self, obj):
        self.obj = obj
        self.names = sorted(k for k in vars(obj) if k[0] != '_')

    def __call__(self):
        return {k: getattr(self.obj, k, None) for k in self.names}


def framed(obj, **more):
    """Nothing called in the contract changes obj.parameters."""
    from vc.engine import CURRENT
    for ctx in CURRENT:
        ctx.frame('parameters', obj.parameters, *more.values())
    return obj


def bicycle_object(par, changes=False, **attrs):
    """A Bicycle without files behind it."""
    from bicycleparameters.main import Bicycle
    b = Bicycle.__new__(Bicycle)
    b.bicycleName = 'Bike'
    b.directory = '/nonexistent/bicycles/Bike'
    b.hasRider = False
    b.riderPar = {}
    b.human = None
    b.parameters = {'Benchmark': par}
    for k, v in attrs.items():
        setattr(b, k, v)
    return b if changes else framed(b)


def eigenpairs(ctx, label, A, w, V, tol=1e-6):
    """w, V are the eigenvalues and matching eigenvectors of A, all of them.

    Symbolically: the columns eig (an assumed contract) returns for A, any
    order.  Numerically: residuals and the multiset of eigenvalues."""
    if ctx.symbolic:
        from vc import shims
        ew, eV = shims.eig(np.asarray(A, dtype=object))
        ctx.eq(label + ' eigenvalues', np.asarray(w), np.asarray(ew))
        ctx.eq(label + ' eigenvectors', np.asarray(V), np.asarray(eV))
        return
    A = np.asarray(A, dtype=float)
    w, V = np.asarray(w, dtype=complex), np.asarray(V, dtype=complex)
    n = len(A)
    ctx.true(label + ' shapes', w.shape == (n,) and V.shape == (n, n),
             'shapes %s %s' % (w.shape, V.shape))
    s = np.abs(A).max() + np.abs(w).max() + 1e-30
    for i in range(n):
        v = V[:, i]
        size = np.linalg.norm(v)
        ctx.true(label + ' nonzero vector', np.isfinite(size) and size > 1e-9,
                 'eigenvector %d is %r' % (i, v))
        r = np.linalg.norm(A @ v - w[i] * v) / size
        ctx.true(label + ' residual', r <= tol * s,
                 'A v - lambda v = %g for eigenvalue %r' % (r, w[i]))
    ref = np.linalg.eigvals(A)
    left = list(range(n))
    for e in ref:
        j = min(left, key=lambda k: abs(w[k] - e))
        # multiple eigenvalues are only accurate to a root of the precision
        ctx.true(label + ' spectrum', abs(w[j] - e) <= 2e-3 * s,
                 'eigenvalue %r is missing from %r' % (e, w))
        left.remove(j)


# _remove_round_off zeroes entries below the rounding of the largest one (its
# contract is in c06.py); exact reals have no such entries
shims.CALLEES['bicycleparameters.models', '_remove_round_off'] = lambda A: A


# ------------------------------------------------------------------- specs
def whipple(ctx, p, riders=()):
    """Linearised Whipple equations, body by body (Meijaard et al. 2007,
    appendix A, before summing the bodies into assemblies); more bodies fixed
    to the rear frame may be given."""
    s, c = ctx.sin(p['lam']), ctx.cos(p['lam'])
    w, tr = p['w'], p['c']
    # body: mass, x, z, Ixx, Ixz, Izz
    R = (p['mR'], 0, -p['rR'], p['IRxx'], 0, p['IRxx'])
    B = (p['mB'], p['xB'], p['zB'], p['IBxx'], p['IBxz'], p['IBzz'])
    H = (p['mH'], p['xH'], p['zH'], p['IHxx'], p['IHxz'], p['IHzz'])
    F = (p['mF'], w, -p['rF'], p['IFxx'], 0, p['IFxx'])
    every, front = (R, B, H, F) + tuple(riders), (H, F)
    mx = sum(m * x for m, x, z, *_ in every)
    mz = sum(m * z for m, x, z, *_ in every)
    Txx = sum(i + m * z * z for m, x, z, i, j, k in every)
    Txz = sum(j - m * x * z for m, x, z, i, j, k in every)
    Tzz = sum(k + m * x * x for m, x, z, i, j, k in every)

    def u(x, z):        # distance ahead of the steer axis
        return (x - w - tr) * c - z * s
    Au = sum(m * u(x, z) for m, x, z, *_ in front)
    All = sum(m * u(x, z) * u(x, z) + i * s * s + 2 * j * s * c + k * c * c
              for m, x, z, i, j, k in front)
    Alx = sum(-m * u(x, z) * z + i * s + j * c
              for m, x, z, i, j, k in front)
    Alz = sum(m * u(x, z) * x + j * s + k * c
              for m, x, z, i, j, k in front)
    mu = tr / w * c
    SR, SF = p['IRyy'] / p['rR'], p['IFyy'] / p['rF']
    ST = SR + SF
    SA = Au + mu * mx
    M = [[Txx, Alx + mu * Txz],
         [Alx + mu * Txz, All + 2 * mu * Alz + mu * mu * Tzz]]
    K0 = [[mz, -SA], [-SA, -SA * s]]
    K2 = [[0, (ST - mz) / w * c], [0, (SA + SF * s) / w * c]]
    C1 = [[0, mu * ST + SF * c + Txz / w * c - mu * mz],
          [-(mu * ST + SF * c), Alz / w * c + mu * (SA + Tzz / w * c)]]
    return M, C1, K0, K2


def matmul(A, B):
    n, m, q = len(A), len(B), len(B[0])
    return [[sum(A[i][k] * B[k][j] for k in range(m)) for j in range(q)]
            for i in range(n)]


def transpose(A):
    return [list(r) for r in zip(*A)]


def scale(A, k):
    return [[k * x for x in r] for r in A]


def madd(*Ms):
    return [[sum(M[i][j] for M in Ms) for j in range(len(Ms[0][0]))]
            for i in range(len(Ms[0]))]


def steiner(I, m, d):
    """I + m(|d|^2 1 - d d^T)."""
    dd = sum(x * x for x in d)
    return [[I[i][j] + m * ((dd if i == j else 0) - d[i] * d[j])
             for j in range(3)] for i in range(3)]


def sym_tensor(ctx, name, keys=('xx', 'xy', 'xz', 'yy', 'yz', 'zz'),
               sample=(-1., 1.)):
    v = {k: (ctx.real('%s.%s' % (name, k), sample=sample) if k in keys else 0)
         for k in ('xx', 'xy', 'xz', 'yy', 'yz', 'zz')}
    return [[v['xx'], v['xy'], v['xz']],
            [v['xy'], v['yy'], v['yz']],
            [v['xz'], v['yz'], v['zz']]]


# ------------------------------------------------------- initial value problem
class Columns(object):
    """Array (m, n) seen as n columns, n possibly symbolic."""
    def __init__(self, rows):
        self.rows = rows            # shape (n, m), array or SymArr

    @property
    def T(self):
        return self.rows

    @property
    def shape(self):
        return tuple(self.rows.shape)[::-1]

    ndim = 2

    def __getitem__(self, key):
        from vc import sym
        if isinstance(key, tuple) and len(key) == 2 and \
                key[0] == slice(None):
            return self.rows[key[1]]
        if isinstance(key, int):
            return self.rows[:, key]
        sym.unsupported('indexing of the solution %r' % (key,))


class Ivp(object):
    """Contract of scipy.integrate.solve_ivp.

    Symbolic: records the calls; the solution at t_eval[k] is some function of
    the problem number and t_eval[k].  Numeric: the real one with tight
    tolerances."""
    def __init__(self, ctx):
        import scipy.integrate as spi
        self.ctx = ctx
        self.calls = []
        self.real = getattr(spi.solve_ivp, '__wrapped__', spi.solve_ivp)
        ctx.replace(spi, 'solve_ivp', self)
        if ctx.symbolic:
            ctx.note_stub('solve_ivp')

    def __call__(self, fun, t_span, y0, method='RK45', t_eval=None, **kw):
        if not self.ctx.symbolic:
            kw = dict(kw, rtol=1e-10, atol=1e-12)
            return self.real(fun, t_span, y0, method=method, t_eval=t_eval,
                             **kw)
        from vc import sym, loops
        k = len(self.calls)
        y0 = list(y0)
        if kw or t_eval is None:
            sym.unsupported('solve_ivp without t_eval or with %s' % kw)
        self.calls.append(dict(f=fun, span=tuple(t_span), x0=y0,
                               times=t_eval))
        m = len(y0)

        def at(t):
            return np.array([sym.uf('x%d[%d]' % (k, i), sym.must(t))
                             for i in range(m)], dtype=object)
        if isinstance(t_eval, loops.SymArr):
            f = t_eval._frozen()
            rows = loops.SymArr(t_eval.n, (m,), lambda i: at(f(i)))
        else:
            rows = np.array([at(t) for t in t_eval], dtype=object)

        class Result(object):
            y = Columns(rows)
            t = t_eval
            success = True
        return Result()

    def solution(self, k, m, t):
        from vc import sym
        return np.array([sym.uf('x%d[%d]' % (k, i), sym.must(t))
                         for i in range(m)], dtype=object)


def reference_solution(A, B, u, x0, times):
    """x' = A x + B u(t, x) by an independent accurate integration."""
    from scipy.integrate import DOP853
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)

    def f(t, x):
        return A.dot(x) + (0 if u is None else B.dot(np.asarray(u(t, x))))
    out = [np.array(x0, dtype=float)]
    x = out[0]
    for a, b in zip(times[:-1], times[1:]):
        if b > a:
            s = DOP853(f, a, x, b, rtol=1e-10, atol=1e-12)
            while s.status == 'running':
                s.step()
            x = s.y
        out.append(x)
    return np.array(out)


def arrange(ctx, got, want):
    """The items of got in the order of want: which of the drawn items shows
    which of the expected ones does not depend on the order of drawing.  An
    item that shows none of them keeps its place."""
    got, want = list(got), list(want)
    if len(got) != len(want):
        return got
    out, left = [None] * len(want), list(range(len(got)))
    for i, w in enumerate(want):
        for j in sorted(left, key=lambda j: j != i):
            if alike(ctx, got[j], w):
                out[i] = got[j]
                left.remove(j)
                break
    for i in range(len(want)):
        if out[i] is None:
            j = i if i in left else left[0]
            left.remove(j)
            out[i] = got[j]
    return out


def alike(ctx, a, b):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(ctx, x, y)
                                        for x, y in zip(a, b))
    if isinstance(b, str) or b is None:
        return a is b or type(a) is type(b) and a == b
    if ctx.symbolic:
        return not ctx.apart(a, b) and ctx.provably_equal(a, b)
    return a != a and b != b or abs(a - b) <= 1e-7 * max(1.0, abs(b))


class Placed(tuple):
    """Values to arrange something by."""
    def __new__(cls, at, what):
        self = tuple.__new__(cls, at)
        self.what = what
        return self
