"""C26 uncertainties.

Every uncertain number is x + e, e its deviation.  A result propagates the
uncertainties to first order when it depends on x + e only, as then its
derivative with respect to e at e = 0 is that of the nominal result with
respect to x.  So the obligation is result(x + e) = result(x) with x replaced
by x + e, for the results C01, C12, C13, C14 and C15 give at e = 0."""
import math
import os
import tempfile

import scipy.optimize

from vc.engine import contract, nominal, flatten
from bicycleparameters import io as bio
from bicycleparameters import bicycle, com, geometry, inertia, main, period, rider
from contracts.c12 import measured
from contracts.c15 import true_bicycle, measure
from contracts.lib import *

ASSUMED = ['the uncertainties library carries out each operation on uncertain '
           'numbers with its exact derivatives',
           'a least squares solution depends on nothing but the matrix and '
           'the right hand side']


def uncertain(ctx, names):
    return {k: ctx.uncertain(k, **d) for k, d in names.items()}


def std(x):
    return getattr(x, 'std_dev', 0.0)


def propagates(ctx, f, x, tol=1e-4, keep=()):
    """f maps a dictionary of numbers to a nested value."""
    if ctx.symbolic:
        from vc import sym
        out = flatten(f(dict(x)))
        shift = {k[1:]: sym.var(k[1:]) + sym.var(k) for k in ctx.run.eps
                 if not k.startswith('±new')}
        for path, y in out:
            if not isinstance(y, sym.Sym):
                continue
            want = sym.subst(sym.nominal_part(y), shift)
            ctx.eq('uncertainty of %s' % '.'.join(map(str, path)), y, want)
        return
    got = leaves(f(dict(x)))
    base = {k: nominal(v) for k, v in x.items()}
    plain = [y for _, y in leaves(f(dict(base)))]
    var = [0.0] * len(got)
    big = [0.0] * len(got)
    for k, v in x.items():
        s = std(v)
        if not s:
            continue
        # the derivative by central differences of two step sizes
        h = min(1e-3 * (abs(base[k]) + .01), 10 * s)
        d = []
        for step in (h, h / 2):
            lo, hi = ([nominal(y) for _, y in leaves(f(dict(
                base, **{k: base[k] + sign * step})))] for sign in (-1, 1))
            d.append([(b - a) / (2 * step) for a, b in zip(lo, hi)])
        for i, (d1, d2) in enumerate(zip(*d)):
            var[i] += ((4 * d2 - d1) / 3 * s) ** 2
            big[i] = max(big[i], abs(d1 - d2) * s)
    for (path, y), y0, v, b in zip(got, plain, var, big):
        name = '.'.join(map(str, path))
        ctx.eq('value of ' + name, nominal(y), nominal(y0), scale=1.)
        want = math.sqrt(v)
        # rounding of the difference quotients
        slack = tol * want + b + 1e-9 * (1e-2 + abs(nominal(y0)))
        ctx.true('uncertainty of ' + name, abs(std(y) - want) <= slack,
                 '%r instead of %r' % (std(y), want))


def leaves(x, path=()):
    """Like flatten, without dropping uncertainties."""
    if isinstance(x, dict):
        return [l for k in sorted(x, key=str)
                for l in leaves(x[k], path + (k,))]
    if isinstance(x, (list, tuple, np.ndarray)) and np.ndim(x):
        return [l for i, e in enumerate(list(x))
                for l in leaves(e, path + (i,))]
    return [(path, x.item() if isinstance(x, np.ndarray) else x)]


# ----------------------------------------------------------------- geometry
@contract('C26', 'bicycle.lambda_from_abc', samples=60,
          assumes=['newton returns a root of the function it is given'],
          wild=False)
def tilt(ctx):
    """dF/dlam dlam + dF = 0 for the equation F the tilt satisfies."""
    which = ctx.choice('uncertain', [None, 'rF', 'rR', 'a', 'b', 'c'])
    dom = {'rR': dict(lo=0.0, sample=(.25, .4)),
           'a': dict(lo=0.0, sample=(.5, .8)),
           'b': dict(lo=0.0, sample=(.03, .08)),
           'c': dict(lo=0.0, sample=(.1, .5))}
    lam = ctx.real('lam', sample=(.1, .5))
    x = {k: ctx.real(k, **d) for k, d in dom.items()}
    if not ctx.symbolic:
        x['rF'] = x['rR'] + (x['a'] + x['b']) * math.sin(lam) - \
            x['c'] * math.cos(lam)
        from uncertainties import ufloat
        u = {k: ufloat(v, ctx.real('σ ' + k, lo=0.0, sample=(1e-4, 1e-2)) *
                       abs(v)) for k, v in x.items()
             if which in (None, k)}
        propagates(ctx, lambda v: bicycle.lambda_from_abc(**dict(x, **v)), u)
        return
    from vc import sym
    sl, cl = ctx.sin(lam), ctx.cos(lam)
    x['rF'] = x['rR'] + (x['a'] + x['b']) * sl - x['c'] * cl
    ctx.assume((x['a'] + x['b']) * cl + x['c'] * sl != 0)
    e = {}
    for k in x:
        e[k] = sym.ZERO
        if which in (None, k):
            ctx.run.eps['±' + k] = ctx.real('σ ' + k, lo=0.0)
            e[k] = sym.var('±' + k)

    def newton(f, x0, args=(), **kw):
        ctx.true('nominal', not any(sym.deviations(sym.must(v))
                                    for v in tuple(args) + (x0,)))
        ctx.eq('the tilt is a root', f(lam, *args), 0)
        return lam
    ctx.replace(scipy.optimize, 'newton', newton)
    ctx.note_stub('newton')
    got = bicycle.lambda_from_abc(**{k: x[k] + e[k] for k in x})
    ctx.eq('nominal', sym.nominal_part(got), lam)
    # F = (a + b) sin(lam) - c cos(lam) - rF + rR
    slope = (x['a'] + x['b']) * cl + x['c'] * sl
    by = {'a': sl, 'b': sl, 'c': -cl, 'rF': -1, 'rR': 1}
    for k in ctx.run.eps:
        if k.startswith('±new'):
            ctx.eq('independent part', sym.nominal_part(sym.diff(got, k)) *
                   ctx.run.eps[k], 0)
            continue
        d = sym.nominal_part(sym.diff(got, k))
        ctx.eq('derivative by ' + k[1:], slope * d + by[k[1:]], 0)


def tilt_stub(ctx):
    """Contract of lambda_from_abc (above): a function of its arguments."""
    from vc import sym
    ctx.callee(bicycle, 'lambda_from_abc', lambda rF, rR, a, b, c: sym.uf(
        'tilt', rF, rR, a, b, c))


# ---------------------------------------------------------------- reduction
def measurements(ctx, split, geo, flywheel, n):
    parts = 'BGS' if split else 'BH'
    p = true_bicycle(ctx, parts, geo)
    offsets = p.pop('offsets', None)
    if flywheel:
        for k in ('mD', 'IDxx', 'IDyy'):
            p[k] = ctx.real(k, lo=0.0, sample=(.5, 1.))
    mp, _ = measure(ctx, p, parts, n, offsets, flywheel, True)
    keys = sorted(mp)
    if ctx.symbolic:
        # any measurements at all
        return {k: ctx.uncertain('meas ' + k) for k in keys}
    return with_sigmas(ctx, mp)


def with_sigmas(ctx, mp):
    from uncertainties import ufloat
    exact = ctx.choice('some exact', [False, True])
    out = {}
    for i, k in enumerate(sorted(mp)):
        s = ctx.real('σ ' + k, lo=0.0, sample=(1e-4, 2e-3))
        out[k] = mp[k] if exact and i % 3 == 0 else \
            ufloat(mp[k], s * (abs(mp[k]) + .01))
    return out


@contract('C26', 'main.calculate_benchmark_from_measured '
          'geometry.calculate_benchmark_geometry '
          'geometry.calculate_abc_geometry bicycle.trail '
          'geometry.calculate_l1_l2 geometry.fwheel_to_handlebar_ref '
          'com.part_com_lines com.com_line com.center_of_mass com.total_com '
          'inertia.compound_pendulum_inertia inertia.tor_inertia '
          'inertia.torsional_pendulum_stiffness inertia.tube_inertia '
          'inertia.inertia_components inertia.part_inertia_tensor '
          'inertia.parallel_axis', samples=16, assumes=ASSUMED, seconds=300,
          wild=False)
def reduction(ctx):
    split = ctx.choice('split', [False, True])
    geo = ctx.choice('geometry', ['direct', 'offsets'])
    flywheel = ctx.choice('flywheel', [False, True])
    n = ctx.choice('n', [(3, 3, 3), (4, 3, 5)])
    mp = measurements(ctx, split, geo, flywheel, n)
    tilt_stub(ctx)

    def f(v):
        with quiet():
            par, extras = main.calculate_benchmark_from_measured(v)
        return dict(par=par, extras=extras)
    propagates(ctx, f, mp)


# ----------------------------------------------------------------- products
@contract('C26', 'main.Bicycle.canonical main.Bicycle.state_space '
          'bicycle.benchmark_par_to_canonical bicycle.ab_matrix', samples=30,
          assumes=ASSUMED)
def matrices(ctx):
    x = uncertain(ctx, {k: domain(k) for k in BENCH})
    v = ctx.real('speed', sample=(1., 9.))

    def f(p):
        b = bicycle_object(dict(p))
        with quiet():
            M = b.canonical()
            A, B = b.state_space(v)
        return dict(zip('M C1 K0 K2'.split(), M), A=A, B=B)
    propagates(ctx, f, x)
    b = bicycle_object(dict(x))
    with quiet():
        plain = list(b.canonical(nominal=True)) + \
            list(b.state_space(v, nominal=True))
    for m in plain:
        for y in np.asarray(m).flat:
            ctx.true('no uncertainty', certain(ctx, y), repr(y))


def certain(ctx, y):
    if ctx.symbolic:
        from vc import sym
        return not isinstance(y, sym.Sym) or not sym.deviations(y)
    return isinstance(y, (int, float))


@contract('C26', 'main.Bicycle.steer_assembly_moment_of_inertia '
          'inertia.part_inertia_tensor inertia.parallel_axis '
          'inertia.rotate_inertia_tensor com.total_com '
          'geometry.distance_to_steer_axis geometry.point_to_line_distance',
          samples=30, assumes=ASSUMED, seconds=200)
def steer_assembly(ctx):
    split = ctx.choice('split', [False, True])
    parts = ctx.choice('parts', [(1, 1, 1), (1, 1, 0)] + (
        [(1, 0, 1), (0, 1, 0)] if split else []))
    about = ctx.choice('about steer axis', [False, True])
    p = measured(ctx, split)
    keys = {'handlebar': bool(parts[0]), 'fork': bool(parts[1]),
            'wheel': bool(parts[2])}
    if ctx.symbolic:
        x = {k: ctx.uncertain('meas ' + k) for k in sorted(p)}
    else:
        x = with_sigmas(ctx, p)

    def f(v):
        with quiet():
            return bicycle_object(dict(v)).steer_assembly_moment_of_inertia(
                aboutSteerAxis=about, **keys)
    propagates(ctx, f, x)
    with quiet():
        got = bicycle_object(dict(x)).steer_assembly_moment_of_inertia(
            aboutSteerAxis=about, nominal=True, **keys)
    for y in np.asarray(got).flat:
        ctx.true('no uncertainty', certain(ctx, y), repr(y))


@contract('C26', 'rider.combine_bike_rider com.total_com '
          'inertia.part_inertia_tensor inertia.parallel_axis', samples=30,
          assumes=ASSUMED)
def with_rider(ctx):
    """The bicycle's uncertainties stay those of the combination."""
    rid = {k: ctx.real('rider ' + k, **domain(k)) for k in
           ('IBxx', 'IBxz', 'IByy', 'IBzz', 'mB', 'xB', 'yB', 'zB')}
    # all measured, or just some of them
    some = ctx.choice('uncertain', [
        list(BENCH), ['IBxz'], ['IByy', 'zB'], ['mB'], ['IBzz', 'IHxx']])
    x = {k: ctx.uncertain(k, **domain(k)) if k in some else
         ctx.real(k, **domain(k)) for k in BENCH}

    def f(v):
        with quiet():
            return rider.combine_bike_rider(dict(v), dict(rid))
    propagates(ctx, f, x)


# ----------------------------------------------------------------- repeated
@contract('C26', 'main.Bicycle.calculate_from_measured', samples=30,
          assumes=['calc_periods_for_files, write_periods_to_file and '
                   'load_parameter_text_file stand for their contracts'])
def recalculated_periods(ctx):
    """The reduction gets the periods of the recordings, and the bicycle
    holds them, with the uncertainties the fits gave them."""
    names = ['TcB1', 'TcR1', 'TtB1', 'TtB2']
    some = ctx.choice('uncertain', [names, names[:1], names[2:], []])
    p = {k: ctx.uncertain(k, lo=0.0, sample=(.5, 2.)) if k in some else
         ctx.real(k, lo=0.0, sample=(.5, 2.)) for k in names}
    aW = ctx.uncertain('aW', sample=(.5, 2.))
    old = ctx.uncertain('old', lo=0.0, sample=(.5, 2.))
    root = os.path.join(tempfile.mkdtemp(), 'Bike')
    os.makedirs(os.path.join(root, 'RawData'))
    seen = []
    ctx.replace(bio, 'load_parameter_text_file',
                lambda path: {'aW': aW, 'TcB1': old})
    ctx.replace(bio, 'write_periods_to_file', lambda path, mp: None)
    ctx.replace(period, 'calc_periods_for_files', lambda *a: dict(p))
    ctx.replace(main, 'calculate_benchmark_from_measured',
                lambda mp: seen.append(dict(mp)) or ({}, {}))
    b = bicycle_object({}, changes=True, directory=root)
    with quiet():
        b.calculate_from_measured(forcePeriodCalc=ctx.choice(
            'force', [True, False]))
    for where, d in (('used', seen[0]), ('held', b.parameters['Measured'])):
        for k, v in dict(p, aW=aW).items():
            label = '%s %s' % (where, k)
            if ctx.symbolic:
                ctx.eq(label, d[k], v)
            else:
                ctx.eq(label, nominal(d[k]), nominal(v))
                ctx.eq('deviation of ' + label, std(d[k]), std(v))


@contract('C26', 'io.load_parameter_text_file', samples=60,
          symbolic=False)
def repeated(ctx):
    """The mean of independent readings."""
    import tempfile
    n = ctx.choice('n', [1, 2, 3, 5])
    x = [ctx.real('x%d' % i, sample=(-2., 2.)) for i in range(n)]
    s = [ctx.real('s%d' % i, lo=0.0, sample=(.001, .1)) for i in range(n)]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'p.txt')
        with open(path, 'w') as f:
            f.write('a = %s\n' % ', '.join('%r +/- %r' % p
                                           for p in zip(x, s)))
            f.write('b = %s\n' % ', '.join('%r' % e for e in x))
        p = bio.load_parameter_text_file(path)
    ctx.eq('mean', nominal(p['a']), sum(x) / n, scale=1.)
    ctx.eq('uncertainty', p['a'].std_dev,
           math.sqrt(sum(e * e for e in s)) / n)
    ctx.eq('exact', p['b'], sum(x) / n, scale=1.)
