"""C18 periods of the pendulum recordings."""
import os
import tempfile

import scipy.io
import scipy.optimize

from vc.engine import contract, nominal
from contracts.lib import *
from bicycleparameters import io, period

NOTE = ('proved for recordings of any values with up to eight samples and up '
        'to four recordings; that leastsq finds the minimum is assumed and '
        'only observed on sampled oscillations')


def fit_parameters(ctx, tag=''):
    p = [ctx.real(n + tag, sample=s) for n, s in (
        ('shift', (-1., 1.)), ('a', (.5, 2.)), ('b', (.5, 2.)))]
    zeta = ctx.real('zeta' + tag, lo=-1., hi=1., sample=(.001, .3))
    wn = ctx.real('wn' + tag, lo=0., sample=(2., 8.))
    return p + [zeta, wn]


def oscillation(ctx, p, t):
    """Constant plus damped sinusoid; its frequency is damped as well."""
    wd = p[4] * ctx.sqrt(1 - p[3] * p[3])
    return p[0] + ctx.exp(-(p[3] * p[4] * t)) * (
        p[1] * ctx.sin(wd * t) + p[2] * ctx.cos(wd * t))


def sensitivities(ctx, p, t):
    root = ctx.sqrt(1 - p[3] * p[3])
    wd = p[4] * root
    e = ctx.exp(-(p[3] * p[4] * t))
    S, C = ctx.sin(wd * t), ctx.cos(wd * t)
    value = e * (p[1] * S + p[2] * C)
    rate = e * (p[1] * C - p[2] * S) * t      # by the damped frequency
    return [1, e * S, e * C,
            -(p[4] * t) * value - rate * p[4] * p[3] / root,
            -(p[3] * t) * value + rate * root]


@contract('C18', 'period.jac_fitfunc', samples=60)
def jacobian(ctx):
    n = ctx.choice('times', [1, 2, 4])
    p = fit_parameters(ctx)
    t = ctx.array('t', n, sample=(0., 5.))
    snap = ctx.snapshot(p, t)
    got = period.jac_fitfunc(ctx.arr(p), t)
    ctx.true('shape', np.shape(got) == (n, 5), repr(np.shape(got)))
    ctx.eq('partial derivatives', got,
           [sensitivities(ctx, p, t[k]) for k in range(n)])
    ctx.unchanged('arguments', snap, p, t)


def no_plot(ctx):
    if ctx.symbolic:
        ctx.replace(period, 'plot_osfit', lambda *a, **k: None)


@contract('C18', 'period.get_period period.fit_goodness period.jac_fitfunc',
          samples=12, assumes=[
              'scipy.optimize.leastsq returns parameters minimising the sum '
              'of squares of the function it is given'])
def fitted(ctx):
    """What is minimised is the distance of the oscillation at the sample
    times to the data, and the period is that of the minimiser."""
    how = ctx.choice('times', ['rate', 'irregular'])
    n = ctx.choice('samples', [7, 8])
    data = ctx.array('y', n, sample=(-2., 2.))
    if how == 'rate':
        given = ctx.choice('rate', [1, 50, 200])
        times = [k / (given + ctx.arr([0.0])[0]) for k in range(n)]
    else:
        times = [0.0, 0.13, 0.25, 0.5, 0.9, 1.0, 1.25, 1.75][:n]
        given = np.array(times)
    best = fit_parameters(ctx)
    other = fit_parameters(ctx, ' other')
    got = []

    def leastsq(f, x0, args=(), **kw):
        for p in (best, other):
            got.append(f(ctx.arr(p), *args))
        return ctx.arr(best), 1
    ctx.replace(scipy.optimize, 'leastsq', leastsq)
    ctx.replace(period, 'make_guess', lambda *a: np.ones(5))
    no_plot(ctx)
    path = os.path.join(tempfile.mkdtemp(), 'fit.png')
    T = period.get_period(data, given, path)
    ctx.assume(len(got) == 2)       # another minimiser: see recording
    for label, p, r in (('best', best, got[0]), ('other', other, got[1])):
        ctx.eq('residuals ' + label, r, [
            oscillation(ctx, p, t) - y for t, y in zip(times, data)])
    ctx.eq('period', nominal(T), 2 * ctx.pi / (
        best[4] * ctx.sqrt(1 - best[3] * best[3])))
    ctx.true('plot', os.path.isfile(path))


@contract('C18', 'period.get_period period.get_period_from_truncated '
          'period.make_guess period.select_good_data', symbolic=False,
          samples=12,
          wild=False)
def recording(ctx):
    """Bounded: a sampled oscillation gives its own period."""
    zeta, wn = ctx.real('zeta', sample=(.002, .01)), ctx.real(
        'wn', sample=(3., 7.))
    a, b = ctx.real('a', sample=(.5, 1.5)), ctx.real('b', sample=(.5, 1.5))
    shift = ctx.real('shift', sample=(-2., 2.))
    rate = ctx.choice('rate', [100, 200])
    t = np.arange(20 * rate) / rate
    y = np.array([oscillation(ctx, [shift, a, b, zeta, wn], x) for x in t])
    y = y + 1e-3 * np.sin(77. * t)
    given = t if ctx.choice('times', [True, False]) else rate
    snap = ctx.snapshot(y)
    T = period.get_period_from_truncated(
        y, given, os.path.join(tempfile.mkdtemp(), 'fit.png'))
    ctx.eq('period', nominal(T), 2 * ctx.pi / (wn * ctx.sqrt(1 - zeta ** 2)),
           tol=1e-3)
    ctx.true('uncertainty', 0 <= T.std_dev < 1e-2, repr(T))
    ctx.unchanged('data', snap, y)


@contract('C18', 'period.fit_goodness', samples=30)
def goodness(ctx):
    n = ctx.choice('n', [2, 5])
    ym = ctx.array('ym', n)
    yp = ctx.array('yp', n)
    m = sum(ym) / n
    ssr = sum((y - m) * (y - m) for y in yp)
    sst = sum((y - m) * (y - m) for y in ym)
    ctx.assume(sst > 1e-3)
    rsq, SSE, SST, SSR = period.fit_goodness(ym, yp)
    ctx.eq('sums', [rsq, SSE, SST, SSR], [ssr / sst, sst - ssr, sst, ssr])


LETTER = {'Fwheel': 'F', 'Rwheel': 'R', 'Frame': 'B', 'Flywheel': 'D'}
ORDINAL = ['First', 'Second', 'Third', 'Fourth', 'Fifth', 'Sixth']
PENDULUM = {'Torsional': 't', 'Compound': 'c', 'torsional': 't'}


def a_recording(ctx, tag, parts=None):
    """(mat file contents, key) for any fork."""
    split = ctx.choice('split', [True, False])
    letters = dict(LETTER)
    letters.update({'Fork': 'S', 'Handlebar': 'G'} if split else
                   {'Fork': 'H'})
    letters['calibration'] = 'P'
    part = ctx.choice('part' + tag, sorted(letters) if parts is None else
                      parts)
    order = ctx.choice('order' + tag, ORDINAL if parts is None else
                       ORDINAL[:2])
    pend = ctx.choice('pendulum' + tag, sorted(PENDULUM) if parts is None
                      else ['Torsional', 'Compound'])
    mat = {'pendulum': pend, ctx.choice('word', ['angle', 'angleOrder']):
           order, 'bicycle': 'Bike', 'data': None}
    rod = ctx.choice('rod', ['named', 'unnamed'])
    name = part
    if rod == 'named':
        mat['rod'] = 'Steel'
        if part == 'calibration':
            name = 'Steel'
    elif part == 'calibration':
        name = 'Rod'
    mat['part'] = name
    return mat, 'T%s%s%d' % (PENDULUM[pend], letters[part],
                             ORDINAL.index(order) + 1), split


@contract('C18', 'period.get_period_key', samples=200)
def key(ctx):
    mat, want, split = a_recording(ctx, '')
    snap = ctx.snapshot(mat)
    got = period.get_period_key(mat, split)
    ctx.true('key', got == want, '%r instead of %r for %r, split %s' % (
        got, want, mat, split))
    ctx.unchanged('recording', snap, mat)


@contract('C18', 'period.get_sample_rate', samples=20)
def rate(ctx):
    a, s = ctx.real('actual'), ctx.real('rate')
    ctx.eq('actual', period.get_sample_rate({'ActualRate': a,
                                             'sampleRate': s}), a)
    ctx.eq('nominal', period.get_sample_rate({'sampleRate': s}), s)


@contract('C18', 'period.calc_periods_for_files period.get_period_key '
          'period.get_sample_rate', samples=100, paths=20000, assumes=[
              'get_period_from_truncated and load_pendulum_mat_file stand '
              'for their contracts'])
def filed(ctx):
    """One entry per key: the mean of its recordings."""
    n = ctx.choice('recordings', [0, 1, 2, 3, 4])
    home, here = tempfile.mkdtemp(), os.getcwd()
    # from the directory of the bicycle, from another, by a full path
    root = ctx.choice('path', [os.path.join(home, 'Bike'), 'Bike',
                               os.path.join('..', 'Bike')]
                      if n < 2 or not ctx.symbolic else ['Bike'])
    os.makedirs(os.path.join(home, 'Bike', 'RawData'))
    os.mkdir(os.path.join(home, 'elsewhere'))
    os.chdir(os.path.join(home, 'elsewhere') if root[0] == '.' else home)
    raw = os.path.join(root, 'RawData')
    if ctx.choice('plots', [True, False]):
        os.makedirs(os.path.join(root, 'Plots', 'PendulumFit'))
    mats, want, fork = {}, {}, ctx.choice('split', [True, False])
    how = ctx.choice('time', [0, 1, 2])
    T, names = {}, []
    for k in range(n):
        mat, key, _ = a_recording(
            ctx, str(k) if k < 2 else '0',
            ['Frame', 'calibration'] if k else ['Frame', 'Fork'])
        f = 'Bike%d.mat' % k
        names.append(f)
        mat['data'] = ctx.array('y%d' % k, 3)
        if (k + how) % 3 == 0:
            mat['time'] = np.arange(3.)
        elif (k + how) % 3 == 1:
            mat['sampleRate'] = 100 + k
        else:
            mat['sampleRate'], mat['ActualRate'] = 1, 100 + k
        mats[os.path.join(raw, f)] = mat
        T[k] = ctx.real('T%d' % k, lo=0.0, sample=(.5, 3.))
        want.setdefault(key, []).append(T[k])
    calls = []

    def load(path):
        return dict(mats[path])

    def truncated(data, rate, plot):
        k = [i for i in range(n) if data is mats[os.path.join(
            raw, names[i])]['data']][0]
        calls.append((k, rate, plot))
        return T[k]
    ctx.replace(period, 'load_pendulum_mat_file', load)
    ctx.replace(period, 'get_period_from_truncated', truncated)
    try:
        with quiet():
            got = period.calc_periods_for_files(raw, list(names), fork)
        for k, rate, plot in calls:
            ctx.true('plot', os.path.isdir(os.path.dirname(plot)) and
                     os.path.abspath(plot).startswith(os.path.join(
                         os.path.realpath(home), 'Bike', '')), plot)
    finally:
        os.chdir(here)
    ctx.eq('periods', dict(got), {k: sum(v) / len(v)
                                  for k, v in want.items()})
    ctx.true('every recording once', sorted(c[0] for c in calls) ==
             list(range(n)), repr(calls))
    for k, rate, plot in calls:
        if (k + how) % 3 == 0:
            ctx.eq('time', rate, np.arange(3.))
        else:
            ctx.eq('rate', rate, 100 + k)
    ctx.true('plots differ', len({c[2] for c in calls}) == n)


@contract('C18', 'period.get_period_from_truncated period.select_good_data',
          samples=100)
def whole(ctx):
    """With given times nothing is cut off; otherwise a run of consecutive
    samples is fitted."""
    n = ctx.choice('n', [3, 5, 60])
    timed = ctx.choice('timed', [True, False])
    if ctx.symbolic:
        data = np.array([3., -2., 2., -1., .5])[:n]
        if n == 60:
            data = np.exp(-.05 * np.arange(60.)) * np.cos(np.arange(60.))
    else:
        data = ctx.array('y', n, sample=(-1., 1.)) + 3.
        data[0] = 9. + abs(data[0])
        data[n // 2] = 8.5
    seen = []

    def get_period(*a):
        seen.append(a)
        return 'T'
    ctx.replace(period, 'get_period', get_period)
    rate = np.arange(float(n)) if timed else 100
    ctx.true('result', period.get_period_from_truncated(
        data, rate, 'path') == 'T')
    (d, r, p), = seen
    ctx.true('path', p == 'path')
    if timed:
        ctx.eq('data', d, data)
        ctx.eq('times', r, rate)
        return
    ctx.eq('rate', r, 100)
    d = list(d)
    ctx.true('consecutive', any(d == list(data[i:i + len(d)])
                                for i in range(n)), '%r of %r' % (d, data))


@contract('C18', 'period.check_for_period', samples=100)
def enough(ctx):
    """Too few periods ask for the recordings, a complete set does not."""
    split = ctx.choice('split', [True, False])
    parts = ['B', 'S', 'G'] if split else ['B', 'H']
    full = ['TcF1', 'TcR1', 'TtF1', 'TtR1', 'TtP1'] + [
        'Tc%s1' % p for p in parts] + ['Tt%s%d' % (p, k) for p in parts
                                       for k in (1, 2, 3)]
    drop = ctx.choice('drop', ['nothing', 'compound', 'torsional', 'all'])
    mp = {k: ctx.real(k, lo=0.0) for k in full}
    if drop == 'all':
        mp = {}
    elif drop == 'compound':
        del mp[[k for k in full if k[1] == 'c'][
            ctx.choice('which', [0, 1, 2, 3])]]
    elif drop == 'torsional':
        a, b = ctx.choice('pair', [(0, 1), (2, 5), (3, 8)])
        tors = [k for k in full if k[1] == 't']
        del mp[tors[a]], mp[tors[b]]
    mp.update({'tT': 1.0, 'T': 2.0, 'mT': 3.0})
    ctx.true('needed', bool(period.check_for_period(mp, split)) ==
             (drop != 'nothing'))


@contract('C18', 'period.select_good_data', samples=200, paths=6000)
def good_data(ctx):
    """From the greatest deviation from the mean to the last deviation above
    the given part of it."""
    n = ctx.choice('n', [2, 3, 4] if ctx.symbolic else [2, 3, 4, 9, 30])
    data = ctx.array('y', n, sample=(-3., 3.))
    part = ctx.real('part', lo=0.0, hi=1.0, sample=(.05, .9))
    mean = sum(data) / n
    dev = [y - mean for y in data]
    first = ctx.choice('first', list(range(n)))
    last = ctx.choice('last', list(range(n)))
    top = abs(dev[first])
    for k in range(n):
        if k != first:
            ctx.assume(abs(dev[k]) < top - (0 if ctx.symbolic else 1e-9))
        if k > last:
            ctx.assume(dev[k] < part * top)
    ctx.assume(dev[last] > part * top)
    snap = ctx.snapshot(data)
    got = list(period.select_good_data(data, part))
    if last < first:
        ctx.true('nothing', len(got) == 0, repr(got))
    else:
        ctx.true('length', len(got) in (last - first, last - first + 1),
                 '%d from %d to %d' % (len(got), first, last))
        ctx.eq('samples', got, list(data[first:first + len(got)]))
    ctx.unchanged('data', snap, data)


@contract('C18', 'io.filename_to_dict period.get_period_key', samples=200)
def named_file(ctx):
    """The name of a recording's file holds what it is a recording of."""
    bike = ctx.choice('bicycle', ['Browser', 'Stratos', 'Yellow', 'X'])
    split = ctx.choice('split', [True, False])
    part = ctx.choice('part', sorted(LETTER) + (
        ['Fork', 'Handlebar'] if split else ['Fork']))
    pend = ctx.choice('pendulum', ['Torsional', 'Compound'])
    order = ctx.choice('order', ORDINAL)
    trial = ctx.choice('trial', list('123456789'))
    got = io.filename_to_dict(bike + part + pend + order + trial + '.mat')
    ctx.true('words', got == {
        'bicycle': bike, 'part': part, 'pendulum': pend, 'angleOrder': order,
        'trial': trial}, repr(got))
    letter = dict(LETTER, **({'Fork': 'S', 'Handlebar': 'G'} if split else
                             {'Fork': 'H'}))[part]
    ctx.true('key', period.get_period_key(got, split) == 'T%s%s%d' % (
        pend[0].lower(), letter, ORDINAL.index(order) + 1))


@contract('C18', 'io.load_pendulum_mat_file', symbolic=False, samples=30,
          wild=False)
def recorded_file(ctx):
    """Bounded: a recording is read as it was saved; the nominal rate yields
    to the times where there are any."""
    n = ctx.choice('n', [2, 5, 40])
    saved = {'data': np.array(ctx.array('y', n, sample=(-3., 3.)), float),
             'part': 'Frame', 'pendulum': 'Torsional', 'angleOrder': 'Second',
             'bicycle': 'Browser', 'trial': 3,
             'notes': ctx.choice('notes', ['', 'windy'])}
    timed = ctx.choice('timed', [True, False])
    if timed:
        saved['time'] = np.cumsum(ctx.array('dt', n, sample=(.001, .01)))
    if ctx.choice('rate', [True, False]) or not timed:
        saved['sampleRate'] = 200
        saved['duration'] = n / 200.
    if ctx.choice('actual', [True, False]):
        saved['ActualRate'] = ctx.real('rate', sample=(100., 300.))
    d = tempfile.mkdtemp()
    scipy.io.savemat(os.path.join(d, 'r.mat'), dict(saved))
    got = io.load_pendulum_mat_file(os.path.join(d, 'r.mat'))
    want = dict(saved)
    if timed:
        want.pop('sampleRate', None), want.pop('duration', None)
    ctx.true('names', set(got) == set(want), '%s for %s' % (
        sorted(got), sorted(want)))
    for k, v in want.items():
        if isinstance(v, str):
            ctx.true(k, str(got[k]) == v and np.shape(got[k]) == (),
                     repr(got[k]))
        else:
            ctx.eq(k, got[k], v)


def deviation_of_any(ctx):
    from vc import shims, sym
    n = ctx.choice('samples', [6, 7])
    data = ctx.array('y', n, sample=(-2., 2.))
    times = [0.0, 0.13, 0.25, 0.5, 0.9, 1.0, 1.25][:n]
    best = fit_parameters(ctx)
    ctx.replace(scipy.optimize, 'leastsq',
                lambda f, x0, args=(), **kw: (ctx.arr(best), 1))
    ctx.replace(period, 'make_guess', lambda *a: np.ones(5))
    no_plot(ctx)
    # from here on uncertain numbers carry their deviation
    ctx.run.eps['±nothing'] = sym.const(0)
    T = period.get_period(data, np.array(times),
                          os.path.join(tempfile.mkdtemp(), 'f.png'))
    fit = [oscillation(ctx, best, t) for t in times]
    mean = sum(data) / n
    # the sum of squared residuals: the residuals of a minimiser are
    # orthogonal to the columns of J, so to the fit and to constants
    sse = sum((y - mean) * (y - mean) for y in data) - \
        sum((y - mean) * (y - mean) for y in fit)
    J = [sensitivities(ctx, best, t) for t in times]
    H = [[sum(r[i] * r[j] for r in J) for j in range(5)] for i in range(5)]
    U = shims.inv(ctx.arr(H))
    s2 = sse / (n - 5)
    zeta, wn = best[3], best[4]
    t0 = 2 * ctx.pi / (wn * ctx.sqrt(1 - zeta * zeta))
    dz, dw = t0 * zeta / (1 - zeta * zeta), -t0 / wn
    v = T.std_dev ** 2
    # damping and frequency apart, or together
    apart = dz * dz * U[3, 3] + dw * dw * U[4, 4]
    both = apart + 2 * dz * dw * U[3, 4]
    rr = sum((f - y) * (f - y) for f, y in zip(fit, data)) / (n - 5)
    ctx.eq('variance', v, next(
        (w for w in (s2 * both, rr * apart, rr * both)
         if ctx.provably_equal(v, w)), s2 * apart))


@contract('C18', 'period.get_period period.jac_fitfunc period.fit_goodness',
          samples=20, wild=False, assumes=[
              'scipy.optimize.leastsq returns parameters minimising the sum '
              'of squares of the function it is given'])
def deviation(ctx):
    """The deviation of the period is that of a least squares fit,
    sigma^2 (J^T J)^-1 with n - 5 degrees of freedom."""
    if ctx.symbolic:
        return deviation_of_any(ctx)
    zeta, wn = ctx.real('zeta', sample=(.01, .05)), ctx.real(
        'wn', sample=(4., 7.))
    a, b = ctx.real('a', sample=(.5, 1.5)), ctx.real('b', sample=(.5, 1.5))
    n = ctx.choice('n', [30, 60, 300])
    t = np.arange(n) * (6. / n)
    true = [0.3, a, b, zeta, wn]
    y = np.array([oscillation(ctx, true, x) for x in t])
    noise = np.array(ctx.array('noise', 300, sample=(-.2, .2)), float)[:n]
    y = y + noise
    with quiet():
        T = period.get_period(y, t, os.path.join(tempfile.mkdtemp(), 'f.png'))
    best, _ = scipy.optimize.leastsq(lambda p: np.array(
        [oscillation(ctx, p, x) for x in t]) - y, true)
    wd = best[4] * np.sqrt(1 - best[3] ** 2)
    ctx.assume(abs(nominal(T) - 2 * np.pi / wd) < 1e-5)
    r = np.array([oscillation(ctx, best, x) for x in t]) - y
    J = np.array([sensitivities(ctx, best, x) for x in t], float)
    U = np.sum(r * r) / (n - 5) * np.linalg.inv(J.T.dot(J))[3:, 3:]
    d = 2 * np.pi / wd * np.array([best[3] / (1 - best[3] ** 2),
                                   -1 / best[4]])
    apart = np.sqrt(d ** 2 @ np.diag(U))      # damping, frequency apart
    both = np.sqrt(d @ U @ d)                 # or together
    ctx.true('deviation', min(abs(T.std_dev / apart - 1),
                              abs(T.std_dev / both - 1)) < 1e-2,
             '%r is neither %r nor %r' % (T.std_dev, apart, both))
