"""C21 Bode diagrams."""
import matplotlib.pyplot as plt
from dtk import control

from vc.engine import contract, nominal
from bicycleparameters import main, plot
from contracts.lib import *

NOTE = ('proved for up to three curves of three arbitrary samples each; the '
        'frequency response itself is computed by dtk.control.bode, which is '
        'assumed and observed on samples')


class Line(object):
    def __init__(self, y, label):
        self.y, self.label = y, label

    def get_ydata(self, orig=True):
        return self.y

    def set_ydata(self, y):
        self.y = y

    def get_label(self):
        return self.label


class Axes(object):
    def __init__(self):
        self.lines = []

    def get_lines(self):
        return list(self.lines)


class Figure(object):
    """A figure with magnitude and phase axes that keeps exact values."""
    def __init__(self):
        self.axes = [Axes(), Axes()]

    def get_axes(self):
        return self.axes


def whole(ctx, turns):
    if ctx.symbolic:
        from vc import sym
        t = sym.must(turns)
        return sym.fn('floor', t) == t
    return abs(turns - round(turns)) < 1e-9


class Bodes(object):
    """Contract of dtk.control.bode: it draws the response of the system it
    is given into the two axes of the figure; here with any phase."""
    def __init__(self, ctx, n=3):
        self.ctx, self.calls, self.n = ctx, [], n
        self.phases = []
        ctx.replace(control, 'bode', self)
        if ctx.symbolic:
            ctx.note_stub('control.bode')

    def __call__(self, system, frequency, fig=None, label=None, title=None,
                 color=None):
        k = len(self.calls)
        phase = self.ctx.array('phase%d' % k, self.n, sample=(-1500., 1500.))
        if not self.ctx.symbolic and k % 2:
            # whole half turns are where branches meet
            phase = phase - phase[0] + 180. * round(phase[0] / 180.)
        self.calls.append((system, label))
        self.phases.append(phase.copy())
        if self.ctx.symbolic:
            fig.axes[0].lines.append(Line(phase.copy(), label))
            fig.axes[1].lines.append(Line(phase.copy(), label))
        else:
            for ax in fig.axes[:2]:
                ax.plot(np.arange(1., self.n + 1), phase, label=label)
        return phase, phase, fig


def aligned(ctx, fig, bodes, labels):
    axes = fig.axes
    ctx.true('curves', [ln.get_label() for ln in axes[1].lines] == labels,
             repr([ln.get_label() for ln in axes[1].lines]))
    ctx.true('drawn once', len(bodes.phases) == len(labels))
    for ax, shifted in ((axes[0], False), (axes[1], True)):
        for ln, old in zip(ax.lines, bodes.phases):
            y = ln.get_ydata()
            if not shifted:
                ctx.eq('magnitude', y, old)
                continue
            d = y[0] - old[0]
            ctx.eq('shape', [y[i] - d for i in range(len(y))], old,
                   scale=1e3)
            ctx.true('whole turns', whole(ctx, d / 360), repr(d))
            ctx.true('branch', y[0] <= 180, repr(y[0]))
            ctx.true('branch', y[0] >= -180, repr(y[0]))


def new_figure(ctx):
    return Figure() if ctx.symbolic else ctx.choice(
        'figure', [None, 'empty', 'axes'])


def real_figure(f):
    if f == 'empty':
        return plt.figure()
    if f == 'axes':
        return plt.subplots(2, 1)[0]
    return f


@contract('C21', 'plot.compare_bode_bicycles main.Bicycle.plot_bode',
          samples=40)
def bicycles(ctx):
    n = ctx.choice('n', [1, 2, 3])
    u, y = ctx.choice('u', [0, 1]), ctx.choice('y', [0, 1, 2, 3])
    speed = ctx.real('speed', sample=(2., 9.))
    states = []
    bikes = []
    for k in range(n):
        b = bicycle_object({}, bicycleName='Bike%d' % k)
        A = ctx.arr([[ctx.real('A%d%d%d' % (k, i, j)) for j in range(4)]
                     for i in range(4)])
        B = ctx.arr([[ctx.real('B%d%d%d' % (k, i, j)) for j in range(2)]
                     for i in range(4)])
        states.append((A, B))
        b.state_space = lambda v, nominal=False, k=k: (
            asked.append((k, v)), states[k])[1]
        bikes.append(b)
    asked = []
    bodes = Bodes(ctx)
    fig = real_figure(new_figure(ctx))
    got = plot.compare_bode_bicycles(bikes, speed, u, y, fig=fig)
    ctx.true('figure', fig is None or got is fig)
    for k, (system, label) in enumerate(bodes.calls):
        channel(ctx, system, states[k][0], states[k][1], u, y)
    ctx.true('each once', [a[0] for a in asked] == list(range(n)))
    ctx.eq('speed', [a[1] for a in asked], [speed] * n)
    aligned(ctx, got, bodes, ['Bike%d' % k for k in range(n)])
    plt.close('all')


@contract('C21', 'main.Bicycle.compare_bode_speeds main.Bicycle.plot_bode',
          samples=40)
def speeds(ctx):
    n = ctx.choice('n', [1, 2, 3])
    u, y = ctx.choice('u', [0, 1]), ctx.choice('y', [0, 1, 2, 3])
    vs = [2.0, 5.5, 9][:n] if ctx.choice('speeds', [True, False]) else \
        [7.25, 3, 0.5][:n]
    b = bicycle_object({})
    states = {}

    def space(v, nominal=False):
        k = len(states)
        A = ctx.arr([[ctx.real('A%d%d%d' % (k, i, j)) for j in range(4)]
                     for i in range(4)])
        B = ctx.arr([[ctx.real('B%d%d%d' % (k, i, j)) for j in range(2)]
                     for i in range(4)])
        states[v] = (A, B)
        return A, B
    b.state_space = space
    bodes = Bodes(ctx)
    fig = real_figure(new_figure(ctx))
    got = b.compare_bode_speeds(vs, u, y, fig=fig)
    ctx.true('figure', fig is None or got is fig)
    ctx.true('speeds', list(states) == vs, repr(list(states)))
    for v, (system, label) in zip(vs, bodes.calls):
        channel(ctx, system, states[v][0], states[v][1], u, y)
    aligned(ctx, got, bodes, ['%s m/s' % v for v in vs])
    plt.close('all')


def flat(x):
    return list(np.asarray(x).reshape(-1))


def channel(ctx, system, A, B, u, y):
    """A single input and output of the state space."""
    gA, gB, gC, gD = system
    ctx.eq('state matrix', gA, A)
    ctx.eq('input', flat(gB), [B[i, u] for i in range(4)])
    ctx.eq('output', flat(gC), [float(i == y) for i in range(4)])
    ctx.eq('feed through', flat(gD), [0.0])


@contract('C21', 'main.Bicycle.plot_bode main.Bicycle.state_space '
          'main.Bicycle.canonical bicycle.benchmark_par_to_canonical '
          'bicycle.ab_matrix', samples=16)
def response(ctx):
    """The system drawn is the bicycle's at that speed."""
    p = meijaard(ctx)
    v = ctx.real('speed', sample=(1., 9.))
    u, y = ctx.choice('u', [0, 1]), ctx.choice('y', [0, 1, 2, 3])
    M, C1, K0, K2 = whipple(ctx, p)
    b = bicycle_object(dict(p))
    if ctx.symbolic:
        ctx.assume(M[0][0] * M[1][1] - M[0][1] * M[1][0] != 0)
        bodes = Bodes(ctx)
        got = b.plot_bode(v, u, y, fig=Figure())
        (system, label), = bodes.calls
        A, B = b.state_space(v, nominal=True)
        channel(ctx, system, A, B, u, y)
        # M q'' + v C1 q' + (g K0 + v^2 K2) q = f
        K = [[p['g'] * K0[i][j] + v * v * K2[i][j] for j in range(2)]
             for i in range(2)]
        A = [[A[i, j] for j in range(4)] for i in range(4)]
        ctx.eq('rates', A[:2], [[0, 0, 1, 0], [0, 0, 0, 1]])
        ctx.eq('accelerations', matmul(M, A[2:]), [
            [-K[i][0], -K[i][1], -v * C1[i][0], -v * C1[i][1]]
            for i in range(2)])
        ctx.eq('torques', matmul(M, [[B[i, j] for j in range(2)]
                                     for i in (2, 3)]), [[1, 0], [0, 1]])
        ctx.eq('no direct input', [[B[i, j] for j in range(2)]
                                   for i in (0, 1)], [[0, 0], [0, 0]])
        return
    with quiet():
        mag, phase, fig = b.plot_bode(v, u, y)
    w = np.logspace(0, 2, len(mag))
    want = []
    for x in w:
        s = 1j * x
        Z = np.array([[s * s * M[i][j] + s * v * C1[i][j] + p['g'] * K0[i][j]
                       + v * v * K2[i][j] for j in range(2)]
                      for i in range(2)])
        q = np.linalg.solve(Z, np.eye(2)[:, u])
        want.append(q[y % 2] * (s if y > 1 else 1))
    want = np.array(want)
    ctx.eq('magnitude', 10 ** (np.asarray(mag) / 20), abs(want), tol=1e-6)
    ctx.eq('phase', np.exp(1j * np.deg2rad(phase)), want / abs(want),
           tol=1e-6)
    ctx.eq('drawn', fig.axes[1].lines[-1].get_ydata(), phase)
    plt.close('all')
