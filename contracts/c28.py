"""C28 figures of a model.

Curves are taken from the axes: the real ones in the bounded runs, a recording
stand-in (contract of matplotlib's axes) in the proofs.  The calculation that
feeds a figure stands for its contract (C06, C07, C20)."""
import math

import matplotlib.pyplot as plt
from matplotlib import colors as mcolors

from vc.engine import contract
from bicycleparameters import bicycle, models, plot
from contracts.lib import *
from contracts.c02 import canonical_stub
from contracts.c03 import model, lean_model

ASSUMED = ['Axes.plot(x, y) draws the points (x, y), one curve per column of '
           'y; Axes.legend names the curves in the order they were drawn',
           'the calculation that feeds the figure has its own contract']
GAIN_NAMES = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
              'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


class Curve(object):
    def __init__(self, x, y, label=None, color=None, style=None):
        self.x, self.y, self.label = x, y, label
        self.color, self.style = color, style


class Text(object):
    def __init__(self, text='', color=None):
        self.text, self.color = text, color


class Ax(object):
    """Records what is drawn."""
    def __init__(self):
        self.curves, self.entries, self.twins = [], None, []
        self.title, self.xlabel, self.ylabel = Text(), '', ''
        self.fills = []

    def plot(self, x, y, fmt=None, label=None, color=None, linestyle=None,
             **kw):
        cols = [y] if len(np_shape(y)) == 1 else [
            y[:, i] for i in range(np_shape(y)[1])]
        for c in cols:
            self.curves.append(Curve(x, c, label, color, linestyle))

    def legend(self, entries=None, **kw):
        if entries is not None:
            self.entries = list(entries)

    def fill_between(self, x, y1, y2=0, where=None, **kw):
        self.fills.append((x, where))

    def twinx(self):
        self.twins.append(Ax())
        return self.twins[-1]

    def set_title(self, s, fontdict=None, **kw):
        self.title = Text(s, (fontdict or kw).get('color'))

    def set_xlabel(self, s, **kw):
        self.xlabel = s

    def set_ylabel(self, s, **kw):
        self.ylabel = s

    def nothing(self, *a, **kw):
        pass
    set_xlim = set_ylim = grid = set_rmax = axhline = nothing
    get_xaxis_transform = nothing


def np_shape(y):
    return getattr(y, 'shape', None) or np.shape(y)


class Fig(object):
    def __init__(self, axes=()):
        self.axes = list(axes)

    def nothing(self, *a, **kw):
        pass
    set_size_inches = tight_layout = nothing


def subplots(nrows=1, ncols=1, squeeze=True, **kw):
    axes = np.empty((nrows, ncols), dtype=object)
    for p in np.ndindex(nrows, ncols):
        axes[p] = Ax()
    fig = Fig(axes.ravel())
    if squeeze:
        axes = axes.item() if axes.size == 1 else np.squeeze(axes)
    return fig, axes


def canvas(ctx):
    plt.close('all')
    if ctx.symbolic:
        ctx.replace(plt, 'subplots', subplots)
        ctx.note_stub('matplotlib axes')


def read(ctx, ax):
    """Curves, title and axis labels, as Ax records them."""
    if ctx.symbolic:
        out = ax
        curves = [Curve(c.x, c.y, c.label, c.color, c.style)
                  for c in ax.curves]
        entries = ax.entries
    else:
        out = Ax()
        out.title = Text(ax.get_title(), ax.title.get_color())
        out.xlabel, out.ylabel = ax.get_xlabel(), ax.get_ylabel()
        curves = [Curve(np.asarray(l.get_xdata(), dtype=float),
                        np.asarray(l.get_ydata(), dtype=float),
                        l.get_label(), l.get_color(), l.get_linestyle())
                  for l in ax.lines]
        leg = ax.get_legend()
        entries = None if leg is None else [t.get_text()
                                            for t in leg.get_texts()]
        if entries is not None and len(entries) != len(curves):
            entries = None
    if entries is not None:
        for c, e in zip(curves, entries):
            c.label = e
    return out, curves


def twins(ctx, ax, axes):
    if ctx.symbolic:
        return ax.twins
    return [t for t in ax.figure.axes if t is not ax and
            all(t is not a for a in np.ravel(axes)) and
            t.get_position().bounds == ax.get_position().bounds]


def same_curve(ctx, label, c, n, x, y):
    """The curve runs through (x(k), y(k)) for every k below n."""
    if not ctx.symbolic:
        ctx.true(label + ' points', len(c.x) == n and len(c.y) == n,
                 '%d %d of %d' % (len(c.x), len(c.y), n))
    for k in ctx.index(n):
        ctx.eq(label + ' x', c.x[k], x(k))
        ctx.eq(label + ' y', c.y[k], y(k))


# ------------------------------------------------------------- simulations
class Trajectories(object):
    """Contract of simulate (C20): some states and inputs at the times."""
    def __init__(self, ctx, m, ns, ni):
        self.ctx, self.calls = ctx, []
        self.real = type(m).simulate
        self.m = m
        self.ns, self.ni = ns, ni
        m.simulate = self
        if ctx.symbolic:
            ctx.note_stub('simulate')

    def __call__(self, times, initial_conditions, input_func=None, **kw):
        self.calls.append((times, initial_conditions, input_func, kw))
        if not self.ctx.symbolic:
            self.out = self.real(self.m, times, initial_conditions,
                                 input_func=input_func, **kw)
        else:
            from vc import loops
            self.out = tuple(loops.SymArr(times.n, (m,), columns(name, m))
                             for name, m in (('x', self.ns), ('u', self.ni)))
        return self.out


def columns(name, m):
    from vc import sym

    def at(k):
        return np.array([sym.uf('%s:%d' % (name, i), k) for i in range(m)],
                        dtype=object)
    return at


def unit(text):
    """Factor from SI to the unit in brackets of an axis label."""
    return 180 if '[deg' in text else 1


def shown(ctx, m, axes, times, n, states, inputs):
    """Every input and every state is drawn once, in the unit given."""
    names = ['$%s$' % s for s in m.state_vars_latex]
    inames = ['$%s$' % s for s in m.input_vars_latex]
    seen = []
    todo = []
    for ax in np.ravel(axes):
        a, curves = read(ctx, ax)
        todo += [(c, a.ylabel, c.label) for c in curves]
        for t in twins(ctx, ax, axes):
            b, more = read(ctx, t)
            # the second scale belongs to the quantity it names
            todo += [(c, b.ylabel, b.ylabel.split(' ')[0]) for c in more]
    for c, ylabel, name in todo:
        seen.append(name)
        if name in inames:
            ctx.true('input unit', 'N' in ylabel, ylabel)
            src, i, k = inputs, inames.index(name), 1
        elif name in names:
            i = names.index(name)
            u = m.state_units[i]
            ctx.true('unit ' + name, ('deg' in ylabel or 'rad' in ylabel) ==
                     ('rad' in u) and ('/s' in ylabel) == ('/s' in u), ylabel)
            src = states
            k = 180 / ctx.pi if '[deg' in ylabel.replace('\n', ' ') else 1
        else:
            ctx.true('known curve', False, repr(name))
        same_curve(ctx, name, c, n, lambda j: times[j],
                   lambda j: k * src[j][i])
    ctx.true('everything once', sorted(seen) == sorted(names + inames),
             repr(sorted(seen)))


def an_input(ctx, k):
    if ctx.choice('input', [0, 1]) == 0:
        return None
    a = [ctx.real('a%d' % i, sample=(-2., 2.)) for i in range(k)]
    return lambda t, x: [b + 0 * t for b in a]


@contract('C28', 'models.Meijaard2007Model.plot_simulation '
          'models.MooreRiderLean2012Model.plot_simulation', samples=24,
          assumes=ASSUMED, wild=False)
def simulation(ctx):
    canvas(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    if kind == 'lean':
        m, p = lean_model(ctx)
        ns, ni = 12, 3
    else:
        canonical_stub(ctx)
        m, p = model(ctx, kind)
        ns, ni = 4, 2
    n = ctx.length('n', 2, 5)
    times = ctx.array('t', n) if ctx.symbolic else \
        np.linspace(0.1, 0.1 + ctx.real('T', lo=0.0, sample=(.1, 1.)), n)
    x0 = [ctx.real('x0%d' % i, sample=(-.1, .1)) for i in range(ns)]
    u = an_input(ctx, ni)
    kw = {'v': ctx.real('v?', sample=(2., 8.))} if ctx.choice(
        'override', [0, 1]) else {}
    run = Trajectories(ctx, m, ns, ni)
    axes = m.plot_simulation(times, x0, input_func=u, **kw)
    ctx.true('simulated once', len(run.calls) == 1)
    t, x, f, k = run.calls[0]
    ctx.true('arguments', x is x0 and f is u and t is times and
             sorted(k) == sorted(kw), repr(k))
    for name in kw:
        ctx.eq('override', k[name], kw[name])
    shown(ctx, m, axes, times, n, *run.out)
    plt.close('all')


EIGENVALUES = [
    [-1.5 + 2.25j, -1.5 - 2.25j, 0.0 + 0j, -3.125 + 0j],
    [2.0 + 0j, -0.5 + 0j, 0.25 + 6.5j, 0.25 - 6.5j],
    [-7.0 + 0j, -0.0625 + 0j, -2.0 + 1.0j, -2.0 - 1.0j],
    # zero by round off
    [5e-13 + 0j, -2.0 + 0j, -0.5 + 1.0j, -0.5 - 1.0j],
]


def hidden(hide, e):
    """Eigenvalues that the documentation calls zero."""
    if not hide:
        return False
    return abs(e) < (hide if isinstance(hide, float) else 1e-12)


def eigenvalue_title(ctx, a, e):
    ctx.true('title', a.title.text == 'Eigenvalue: {:1.3f}'.format(e),
             a.title.text)
    ctx.true('unstable in red', (a.title.color == 'red') == (e.real >= 0),
             '%r for %r' % (a.title.color, e))


@contract('C28', 'models._Model.plot_mode_simulations', samples=24,
          assumes=ASSUMED, wild=False)
def mode_simulations(ctx):
    canvas(ctx)
    kind = ctx.choice('kind', ['plain', 'lean'])
    hide = ctx.choice('hide', [False, True, 0.5])
    if kind == 'lean':
        m, p = lean_model(ctx)
        ns = 12
    else:
        m, p = model(ctx, kind)
        ns = 4
    kw = {'v': ctx.real('v?', sample=(2., 8.))} if ctx.choice(
        'override', [0, 1]) else {}
    if ctx.symbolic:
        n, nm = 2, 4
        times = ctx.array('t', n)
        res = np.empty((nm, n, ns), dtype=object)
        for i, k, j in np.ndindex(*res.shape):
            res[i, k, j] = ctx.real('x%d,%d,%d' % (i, k, j))
        w = np.array(ctx.choice('eigenvalues', EIGENVALUES))
        calls = []

        def simulate(t, **k):
            calls.append((t, k))
            return res

        def eigen(left=False, **k):
            calls.append((times, k))
            ctx.true('right eigenvectors', not left)
            return w, np.eye(ns)[:nm]
        m.simulate_modes, m.calc_eigen = simulate, eigen
        ctx.note_stub('simulate_modes')
        ctx.note_stub('calc_eigen')
    else:
        n = ctx.length('n', 2, 5)
        times = np.linspace(0.1, 0.2, n)
        with quiet():
            res = m.simulate_modes(times, **kw)
        w, _ = m.calc_eigen(**kw)
    rows = [i for i in range(len(w)) if not hidden(hide, w[i])]
    if len(rows) < 2:
        return
    with quiet():
        axes = m.plot_mode_simulations(times, hide_zeros=hide, **kw)
    if ctx.symbolic:
        for t, k in calls:
            ctx.true('arguments', t is times and sorted(k) == sorted(kw))
            for name in kw:
                ctx.eq('override', k[name], kw[name])
    ctx.true('a row for each mode', len(axes) == len(rows),
             '%d for %d' % (len(axes), len(rows)))
    names = ['$%s$' % s for s in m.state_vars_latex]
    for r, i in enumerate(rows):
        seen = []
        for ax in axes[r]:
            a, curves = read(ctx, ax)
            eigenvalue_title(ctx, a, w[i])
            for c in curves:
                seen.append(c.label)
                j = names.index(c.label)
                u = m.state_units[j]
                ctx.true('unit ' + c.label,
                         a.ylabel in ('[%s]' % u, '[%s]' % u.replace(
                             'rad', 'deg')), a.ylabel)
                k = 180 / ctx.pi if 'deg' in a.ylabel else 1
                same_curve(ctx, c.label, c, n, lambda q: times[q],
                           lambda q: k * res[i, q, j])
        ctx.true('every state once', sorted(seen) == sorted(names),
                 repr(sorted(seen)))
    plt.close('all')


# ------------------------------------------------------------- eigenvectors
@contract('C28', 'models._Model.plot_eigenvectors', samples=30,
          assumes=ASSUMED, wild=False)
def eigenvectors(ctx):
    canvas(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    rows = ctx.choice('rows', [0, 1, 2, 3])     # 0: no array
    hide = ctx.choice('hide', [False, True, 0.5])
    m, p = lean_model(ctx) if kind == 'lean' else model(ctx, kind)
    nr = max(rows, 1)
    vs = [2.0, 3.5, 5.25][:nr]
    kw = {'v': np.array(vs) if ctx.choice('as', [0, 1]) else vs} if rows \
        else {}
    if ctx.symbolic:
        size = 2
        w = np.array([[-1.0 + 2j, -1.0 - 2j], [0.0 + 0j, 3.0 + 0j],
                      [-0.25 + 0j, -4.0 + 0j]][:nr])
        V = np.empty((nr, size, size), dtype=object)
        for k, i, j in np.ndindex(*V.shape):
            from vc import sym
            # an eigenvector is not zero
            V[k, i, j] = sym.SymC(
                ctx.real('re%d%d%d' % (k, i, j), **(
                    dict(lo=0.0) if i == 0 else {})),
                ctx.real('im%d%d%d' % (k, i, j)))
        from vc.shims import as_oarr

        def eigen(left=False, **k):
            ctx.true('right eigenvectors', not left)
            ctx.true('arguments', sorted(k) == sorted(kw) and all(
                k[a] is kw[a] for a in k))
            return (w, as_oarr(V)) if rows else (w[0], as_oarr(V[0]))
        m.calc_eigen = eigen
        ctx.note_stub('calc_eigen')
        if rows == 3 or rows > 1 and (hide or kind != 'plain'):
            return
    else:
        w, V = m.calc_eigen(**kw)
        if not rows:
            w, V = np.array([w]), np.array([V])
        size = w.shape[1]
    cols = [i for i in range(size) if not hidden(hide, w[-1][i])]
    if not cols:
        return
    axes = m.plot_eigenvectors(hide_zeros=hide, **kw)
    ctx.true('a row per value, a column per mode', np.shape(axes) ==
             (nr, len(cols)), str(np.shape(axes)))
    for k in range(nr):
        a, _ = read(ctx, axes[k, 0])
        if rows:
            ctx.true('value', a.ylabel == 'v = {:1.2f}'.format(vs[k]),
                     a.ylabel)
        for q, i in enumerate(cols):
            a, curves = read(ctx, axes[k, q])
            eigenvalue_title(ctx, a, w[k][i])
            ctx.true('a line per component', len(curves) == size,
                     str(len(curves)))
            if not ctx.symbolic:
                ctx.true('polar', axes[k, q].name == 'polar')
            comp = [V[k][j, i] for j in range(size)]
            r = []
            for c in curves:
                ctx.eq('from the origin', c.y[0], 0)
                r.append(c.y[1])
            # radii in proportion, largest one, and the argument
            size_ = [abs(c) for c in comp]
            if ctx.symbolic:
                for x, y, s, t in zip(r, r[1:], size_, size_[1:]):
                    ctx.eq('radii', x * t, y * s)
                ctx.true('one is the largest', any(
                    ctx.provably_equal(x, 1) for x in r))
                for x in r:
                    ctx.true('within the circle', x <= 1)
            else:
                ctx.eq('radii', r, [s / max(size_) for s in size_])
            for c, v, s, x in zip(curves, comp, size_, r):
                if ctx.symbolic:
                    from vc import sym
                    ctx.eq('argument', c.x[1], sym.fn(
                        'atan2', sym.must(v.imag), sym.must(v.real)))
                else:
                    ctx.eq('argument', [x * math.cos(c.x[1]),
                                        x * math.sin(c.x[1])],
                           [v.real / max(size_), v.imag / max(size_)],
                           tol=1e-9, scale=1.0)
    if not ctx.symbolic:
        leg = [t.get_text() for t in axes[0, 0].get_legend().get_texts()]
    else:
        leg = axes[0, 0].entries
    ctx.true('components named', leg[:size] == [
        '$%s$' % s for s in m.state_vars_latex][:size], repr(leg))
    plt.close('all')


# -------------------------------------------------------------- eigenvalues
def complexes(ctx, name, shape):
    from vc import sym
    from vc.shims import OArr
    r = OArr(shape)
    for p in np.ndindex(*shape):
        r[p] = sym.SymC(ctx.real('re %s%s' % (name, p)),
                        ctx.real('im %s%s' % (name, p)))
    return r


def opaque_extremes(ctx):
    """min and max of the values: only used to scale a figure."""
    from vc import sym, shims
    P = shims.replacements()['np']
    for name in ('min', 'max'):
        old = P._over.get(name)

        def f(x, axis=None, name=name, **k):
            if axis is not None or k:
                sym.unsupported(name)
            return sym.uf(name, *[sym.must(e) for e in np.ravel(x)])
        ctx.over(P, name, f)


def is_nan(ctx, x):
    return isinstance(x, float) and x != x or not ctx.symbolic and x != x


@contract('C28', 'models._Model.plot_eigenvalue_parts', samples=60,
          assumes=ASSUMED, wild=False)
def eigenvalue_parts(ctx):
    canvas(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    m, p = lean_model(ctx) if kind == 'lean' else model(ctx, kind)
    opt = {}
    given = ctx.choice('axes', [0, 1])
    if given:
        opt['ax'] = subplots()[1] if ctx.symbolic else plt.subplots()[1]
    key = ctx.choice('parameter', ['v', 'lean'] if kind != 'lean'
                     else ['v', 'd1'])
    key = {'lean': 'lam'}.get(key, key)
    sort = ctx.choice('sort', [True, False])
    if not sort:
        opt['sort_modes'] = False
    shade = ctx.choice('shade', [True, False])
    if not shade:
        opt['show_stable_regions'] = False
    hide = ctx.choice('hide', [False, True, 0.5])
    if hide:
        opt['hide_zeros'] = hide
    some = ctx.choice('colors', [0, 1])
    if ctx.symbolic:
        # independent options; every pair of them would multiply the paths
        if hide and (shade or some or given or key != 'v'):
            return
        n, size = (1 if hide else 2), 2 if hide or shade else 4
        x = [1.0, 2.0]
    else:
        n = ctx.length('n', 2, 6)
        x = list(np.linspace(0.5, 6.0, n)) if key == 'v' else \
            list(np.linspace(.2, .5, n))
        size = 12 if kind == 'lean' else 4
    palette = ['red', 'green', 'blue', 'C2', 'C3', 'C4', 'C5', 'C6', 'C7',
               'C8', 'C9', 'orange'][:size]
    if some:
        opt['colors'] = palette
    kw = {key: np.array(x) if ctx.choice('as', [0, 1]) else x}
    if ctx.symbolic:
        w = complexes(ctx, 'w', (n, size))
        s = complexes(ctx, 's', (n, size))
        V = np.zeros((n, size, size))

        def eigen(left=False, **k):
            ctx.true('overrides', sorted(k) == [key] and k[key] is kw[key])
            return w, V

        def order(evals, evecs, *a, **k):
            ctx.true('sorted values', evals is w and evecs is V)
            return s.copy(), V
        m.calc_eigen = eigen
        ctx.note_stub('calc_eigen')
        ctx.callee(bicycle, 'sort_eigenmodes', order)
        opaque_extremes(ctx)
        want = (s if sort else w).copy()
    else:
        w, V = m.calc_eigen(**kw)
        want = bicycle.sort_eigenmodes(w, V)[0] if sort else w
    with quiet():
        ax = m.plot_eigenvalue_parts(**dict(opt, **kw))
    ctx.true('the axes', not given or ax is opt['ax'])
    a, curves = read(ctx, ax)
    ctx.true('parameter name', a.xlabel == '$%s$' %
             m.parameter_set.par_strings[key], a.xlabel)
    ctx.true('two curves per mode', len(curves) == 2 * size, len(curves))
    tol = hide if isinstance(hide, float) else 1e-12
    if sort:
        imag = [c for c in curves if c.style == '--']
        real = [c for c in curves if c.style == '-']
        ctx.true('line styles', len(imag) == len(real) == size)
    else:
        imag = [c for c in curves if c.color != 'black']
        real = [c for c in curves if c.color == 'black']
        ctx.true('colors', len(imag) == len(real) == size)
    if not hide or not ctx.symbolic:
        # in any order, a mode by its color
        def at(v):
            return math.nan if hide and abs(v) < tol else v
        drawn = ([[at(abs(want[k][i].imag)) for k in range(n)]
                  for i in range(size)],
                 [[at(want[k][i].real) for k in range(n)]
                  for i in range(size)])
        if not sort:
            imag, real = [
                [c.what for c in arrange(ctx, [Placed(c.y, c) for c in cs],
                                         ys)]
                for cs, ys in zip((imag, real), drawn)]
        else:
            # (twelve modes take some of ten colors twice)
            mates = list(real)
            for i, c in enumerate(imag):
                rest = [j for j in range(i, size) if mcolors.same_color(
                    mates[j].color, c.color)]
                j = ([j for j in rest if mates[j].label == c.label] + rest +
                     [i])[0]
                mates.insert(i, mates.pop(j))
            # (a conjugate pair draws the same curves in two colors)
            both = arrange(ctx, [
                Placed([palette.index(c.color) if some and c.color in palette
                        else 0] + list(c.y) + list(r.y), (c, r))
                for c, r in zip(imag, mates)], [
                [i if some else 0] + im + re
                for i, (im, re) in enumerate(zip(*drawn))])
            imag, real = zip(*[c.what for c in both])
    for i in range(size):
        if sort:
            ctx.true('same mode, same color', mcolors.same_color(
                imag[i].color, real[i].color))
            if some:
                ctx.true('colors', imag[i].color == palette[i])
        for name, c, f in (('imaginary', imag[i], lambda e: abs(e.imag)),
                           ('real', real[i], lambda e: e.real)):
            for k in range(n):
                ctx.eq(name + ' at', c.x[k], x[k])
                v = f(want[k][i])
                if hide and is_nan(ctx, c.y[k]):
                    ctx.true(name + ' hidden zero', abs(v) < tol, repr(v))
                    continue
                ctx.eq(name, c.y[k], v)
                if hide:
                    ctx.true(name + ' shown', abs(v) >= tol, repr(v))
    shading(ctx, ax, shade, x, want, n, size)
    plt.close('all')


def shading(ctx, ax, shade, x, w, n, size):
    if not ctx.symbolic:
        ctx.true('shading', len(ax.collections) == shade)
        if not shade:
            return
        spans = [(min(p.vertices[:, 0]), max(p.vertices[:, 0]))
                 for p in ax.collections[0].get_paths()]
        stable = [all(e.real <= 0 for e in w[k]) for k in range(n)]
        for k in range(n - 1):
            mid = (x[k] + x[k + 1]) / 2
            ctx.true('shaded where stable', any(
                a <= mid <= b for a, b in spans) ==
                (stable[k] and stable[k + 1]), 'near %r' % mid)
        return
    ctx.true('shading', len(ax.fills) == shade)
    for at, where in ax.fills:
        for k in range(n):
            ctx.eq('shaded at', at[k], x[k])
            for e in w[k]:
                if where[k]:
                    ctx.true('stable', e.real <= 0)
            if not where[k]:
                c = sym_or([e.real > 0 for e in w[k]])
                ctx.true('unstable', c)


def sym_or(cs):
    from vc.sym import as_cond
    r = as_cond(False)
    for c in cs:
        r = r | as_cond(c)
    return r


# --------------------------------------------------------------- bicycles
def eigenvalue_bike(ctx, i, n, cols=4):
    """A bicycle with any eigenvalues."""
    name = 'Bike%d' % i
    if not ctx.symbolic:
        b = bicycle_object(meijaard(ctx, str(i)), bicycleName=name)
        return b
    from vc import sym
    b = bicycle_object({}, bicycleName=name)
    b.asked = []

    def eig(speeds):
        b.asked.append(list(speeds))
        w = complexes(ctx, name, (len(speeds), cols))
        for k, j in np.ndindex(*w.shape):
            w[k, j] = sym.SymC(
                sym.uf('re%d%s' % (j, name), sym.must(speeds[k])),
                sym.uf('im%d%s' % (j, name), sym.must(speeds[k])))
        b.w, b.V = w, np.zeros((len(speeds), cols, cols))
        return b.w, b.V
    b.eig = eig
    ctx.note_stub('eig')
    return b


def sort_modes_stub(ctx):
    """Contract of sort_modes (C07): weave, capsize and caster."""
    def order(w, V):
        return [{'evals': w[:, c], 'evecs': None}
                for c in ([0, 1], [2], [3])]
    ctx.callee(bicycle, 'sort_modes', order)


def bike_curves(ctx, b, speeds, largest):
    """Pairs of (x, y) lists that the figure must show, and what they are."""
    if ctx.symbolic:
        w, V = b.eig(speeds)
    else:
        w, V = b.eig(np.array(speeds))
    if largest:
        out = []
        for k in range(len(speeds)):
            best = w[k][0].real
            for e in w[k][1:]:
                best = e.real if e.real > best else best
            out.append(best)
        return [('largest', out)]
    out = []
    modes = bicycle.sort_modes(w, V)
    for f, part in ((lambda e: abs(e.imag), 'Imaginary'),
                    (lambda e: e.real, 'Real')):
        for m, name in zip(modes, ('Weave', 'Capsize', 'Caster')):
            e = np.asarray(m['evals']).reshape(len(speeds), -1)
            for c in range(e.shape[1]):
                out.append(('%s %s' % (part, name),
                            [f(e[k, c]) for k in range(len(speeds))]))
    return out


def axis_line(ctx, c):
    if c.label != '_nolegend_':
        return False
    if ctx.symbolic:
        return all(ctx.provably_equal(e, 0) for e in c.y)
    return all(e == 0 for e in c.y)


@contract('C28', 'main.Bicycle.plot_eigenvalues_vs_speed '
          'plot.plot_eigenvalues', samples=40, assumes=ASSUMED, wild=False)
def speed_figure(ctx):
    canvas(ctx)
    many = ctx.choice('bikes', [0, 1, 2])       # 0: the method of a bicycle
    largest = ctx.choice('largest', [False, True])
    generic = ctx.choice('generic', [False, True])
    if many and generic:
        return
    if ctx.symbolic and largest and many == 2:
        return          # paths multiply; the bounded runs cover it
    n = 2 if ctx.symbolic else ctx.length('n', 2, 5)
    if ctx.symbolic:
        speeds = np.array([6.0, 3.0] if not many or largest else [1.5, 3.0])
    else:
        speeds = np.array([ctx.real('v%d' % k, lo=0.0, sample=(.5, 9.))
                           for k in range(n)])
    if len(set(speeds)) < n:
        return
    bikes = [eigenvalue_bike(ctx, i, n, 2 if largest else 4) for i in range(max(many, 1))]
    if ctx.symbolic:
        sort_modes_stub(ctx)
        ctx.replace(plt, 'legend', lambda *a, **k: None)
        ctx.replace(plt, 'axis', lambda *a, **k: None)
    snap = ctx.snapshot(list(speeds))
    want, at = [], sorted(speeds)
    with quiet():
        for b in bikes:
            want.append(bike_curves(ctx, b, at, largest))
        if many:
            palette = ctx.choice('colors', [None, ['red', 'blue']])
            styles = [None, ['--', ':'][:many]][palette is not None]
            fig = plot.plot_eigenvalues(bikes, speeds, colors=palette,
                                        linestyles=styles, largest=largest)
        else:
            old = None
            if ctx.choice('figure', [0, 1]):
                old = subplots()[0] if ctx.symbolic else plt.subplots()[0]
            palette = ['green'] if generic else None
            fig = bikes[0].plot_eigenvalues_vs_speed(
                speeds, fig=old, generic=generic, largest=largest,
                **({'color': 'green'} if generic else {}))
            ctx.true('figure', old is None or fig is old)
    ctx.unchanged('speeds', snap, list(speeds))
    a, curves = read(ctx, fig.axes[0])
    ctx.true('speed axis', a.xlabel == 'Speed [m/s]', a.xlabel)
    named = not (many or generic or largest)
    taken = list(curves)
    for i, (b, lines) in enumerate(zip(bikes, want)):
        for name, y in lines:
            # curves in any order; those with the name where there is one
            # (the black zero line may equal a curve of zeros)
            fits = [c for c in taken if (not named or c.label == name) and
                    follows(ctx, c, at, y, n)]
            if palette is not None:
                fits.sort(key=lambda c: c.color != palette[i])
            else:
                fits.sort(key=lambda c: c.color == 'k')
            c = fits[0] if fits else None
            ctx.true('curve ' + name, c is not None,
                     '%s of %s is not drawn' % (name, b.bicycleName))
            if c is None:
                continue
            taken = [t for t in taken if t is not c]
            if palette is not None:
                ctx.true('color', c.color == palette[i], repr(c.color))
            if many and largest and palette is not None:
                ctx.true('line style', c.style == styles[i], repr(c.style))
    ctx.true('nothing else', all(axis_line(ctx, c) for c in taken),
             '%d further curves' % len(taken))
    if many:
        labels = [c.label for c in curves]
        ctx.true('legend', [l for l in labels if not l.startswith('_')] ==
                 [b.bicycleName for b in bikes], repr(labels))
    plt.close('all')


def follows(ctx, c, x, y, n):
    if len(c.x) != n or len(c.y) != n:
        return False
    for k in range(n):
        if ctx.symbolic:
            if not ctx.provably_equal(c.x[k], x[k]) or \
                    not ctx.provably_equal(c.y[k], y[k]):
                return False
        elif abs(c.x[k] - x[k]) > 1e-9 or \
                abs(c.y[k] - y[k]) > 1e-7 * (1 + abs(y[k])):
            return False
    return True


# ------------------------------------------------------------------- gains
@contract('C28', 'models.Meijaard2007WithFeedbackModel.plot_gains',
          samples=40, assumes=ASSUMED)
def gains(ctx):
    canvas(ctx)
    m, p = model(ctx, 'feedback')
    n = ctx.length('n', 1, 5, long=130)
    arrays = ctx.choice('arrays', [('v',), ('lam', 'kTphi_phi'),
                                   ('v', 'kTdel_phid', 'kTphi_deld')])
    fixed = ctx.choice('fixed', [(), ('kTdel_deld', 'mB')])
    kw = {k: ctx.array(k + '!', n, **domain(k)) for k in arrays}
    kw.update({k: ctx.real(k + '?', **domain(k)) for k in fixed})
    given = ctx.choice('axes', [0, 1])
    axes = None
    if given:
        axes = (subplots if ctx.symbolic else plt.subplots)(2, 4)[1]
    got = m.plot_gains(axes=axes, **kw)
    ctx.true('the axes', axes is None or got is axes)
    x = kw[arrays[0]]
    for name, ax in zip(GAIN_NAMES, np.ravel(got)):
        a, curves = read(ctx, ax)
        ctx.true('title', a.title.text == '$%s$' %
                 m.parameter_set.par_strings[name], a.title.text)
        ctx.true('one curve', len(curves) == 1, str(len(curves)))
        y = kw.get(name, p[name])
        same_curve(ctx, name, curves[0], n, lambda k: x[k],
                   lambda k: y[k] if name in arrays else y)
    for ax in got[1]:
        ctx.true('x axis', read(ctx, ax)[0].xlabel == arrays[0])
    ctx.raises('no parameter to plot against', ValueError, m.plot_gains,
               **{k: v for k, v in kw.items() if k not in arrays or
                  k in GAIN_NAMES})
    plt.close('all')


@contract('C28', 'models.Meijaard2007Model._plot_modal_controllability',
          samples=30, assumes=ASSUMED, wild=False)
def controllability(ctx):
    canvas(ctx)
    m, p = model(ctx, ctx.choice('kind', ['plain', 'feedback']))
    acute = ctx.choice('acute', [None, True, False])
    opt = {} if acute is None else dict(acute=acute)
    n = ctx.length('n', 2, 5)
    kw = {'v': ctx.array('v!', n, **domain('v'))}
    calls = []
    if ctx.symbolic:
        from vc import loops, sym

        def at(k):
            r = np.empty((4, 2), dtype=object)
            for p_ in np.ndindex(4, 2):
                r[p_] = sym.uf('beta%s' % (p_,), k)
            return r
        beta = loops.SymArr(n, (4, 2), at)

        def calc(acute=True, **k):
            calls.append((acute, k))
            return beta
        m._calc_modal_controllability = calc
        ctx.note_stub('_calc_modal_controllability')
    else:
        with quiet():
            beta = m._calc_modal_controllability(**dict(kw, **opt))
    given = ctx.choice('axes', [0, 1])
    axes = None
    if given:
        axes = (subplots if ctx.symbolic else plt.subplots)(4, 2)[1]
    with quiet():
        got = m._plot_modal_controllability(axes=axes, **dict(kw, **opt))
    for acu, k in calls:
        ctx.true('arguments', acu is (acute is not False) and
                 sorted(k) == ['v'] and k['v'] is kw['v'])
    ctx.true('the axes', axes is None or got is axes)
    for i in range(4):
        for j in range(2):
            a, curves = read(ctx, got[i, j])
            ctx.true('one curve', len(curves) == 1)
            if not ctx.symbolic and any(x != x for x in beta[:, i, j]):
                continue
            same_curve(ctx, 'angle %d %d' % (i, j), curves[0], n,
                       lambda k: kw['v'][k],
                       lambda k: beta[k][i, j] * 180 / ctx.pi)
    ctx.true('inputs', [got[0, j].title.text if ctx.symbolic else
                        got[0, j].get_title() for j in (0, 1)] ==
             [r'Input: $T_\phi$', r'Input: $T_\delta$'])
    plt.close('all')
