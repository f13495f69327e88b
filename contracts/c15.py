"""C15 measuring a known bicycle and reducing gives that bicycle back."""
import scipy.optimize

from vc.engine import contract, nominal
from bicycleparameters import com, inertia, main
from contracts.c13 import ahead
from contracts.c14 import hung, reference
from contracts.lib import *

FUNCS = ('main.calculate_benchmark_from_measured main.is_fork_split '
         'geometry.calculate_benchmark_geometry '
         'geometry.calculate_abc_geometry bicycle.lambda_from_abc '
         'bicycle.trail geometry.calculate_l1_l2 '
         'geometry.fwheel_to_handlebar_ref com.part_com_lines com.com_line '
         'com.center_of_mass com.cartesian com.total_com '
         'inertia.compound_pendulum_inertia inertia.tor_inertia '
         'inertia.torsional_pendulum_stiffness inertia.tube_inertia '
         'inertia.inertia_components inertia.part_inertia_tensor '
         'inertia.parallel_axis ')

SAMPLES = {
    'B': dict(m=(3., 9.), x=(.2, .5), z=(-.8, -.5), xx=(.2, .9),
              xz=(-.15, .15), yy=(.5, 1.2), zz=(.2, .9)),
    'H': dict(m=(2., 5.), x=(.8, 1.), z=(-.9, -.6), xx=(.1, .4),
              xz=(-.05, .05), yy=(.1, .4), zz=(.05, .2)),
    'S': dict(m=(1., 3.), x=(.8, 1.), z=(-.6, -.4), xx=(.1, .3),
              xz=(-.05, .05), yy=(.1, .3), zz=(.05, .2)),
    'G': dict(m=(.5, 2.), x=(.6, .9), z=(-1., -.8), xx=(.05, .2),
              xz=(-.04, .04), yy=(.05, .2), zz=(.05, .2)),
}


def true_bicycle(ctx, parts, geometry):
    p = {k: ctx.real(k, **domain(k)) for k in ('lam', 'rF', 'mF', 'mR')}
    if geometry == 'direct':
        p.update({k: ctx.real(k, **domain(k)) for k in ('w', 'c', 'rR')})
    else:
        # any bicycle, by the offsets of its wheel centres from the steer
        # axis and their distance along it
        a = ctx.real('a', sample=(.5, .8))
        b = ctx.real('b', sample=(.03, .08))
        c = ctx.real('axle distance', lo=0.0, sample=(.1, .5))
        ctx.assume(a + b > 0)
        sl, cl = ctx.sin(p['lam']), ctx.cos(p['lam'])
        p['w'] = (a + b) * cl + c * sl
        if not ctx.symbolic:
            # equal wheels
            c = ((a + b) * sl - ctx.real('larger', sample=(-.05, .05))) / cl
            ctx.assume(c > .05)
            p['w'] = (a + b) * cl + c * sl
        p['rR'] = p['rF'] - (a + b) * sl + c * cl
        p['c'] = (p['rF'] * sl - b) / cl
        p['offsets'] = a, b, c
    p['g'] = ctx.real('g', lo=0.0, sample=(9., 10.))
    for k in 'FR':
        for a in ('xx', 'yy'):
            p['I%s%s' % (k, a)] = ctx.real('I%s%s' % (k, a), lo=0.0,
                                           sample=RANGES['IF' + a])
    for k in parts:
        s = SAMPLES[k]
        p['m' + k] = ctx.real('m' + k, lo=0.0, sample=s['m'])
        for a in 'xz':
            p[a + k] = ctx.real(a + k, sample=s[a])
        for a in ('xx', 'xz', 'yy', 'zz'):
            p['I%s%s' % (k, a)] = ctx.real('I%s%s' % (k, a), sample=s[a])
    return p


def compound(ctx, p, m, I, l2):
    """Period of a compound pendulum, distance squared l2."""
    return 2 * ctx.pi * ctx.sqrt((I + m * l2) / (m * p['g'] * ctx.sqrt(l2)))


def measure(ctx, p, parts, n, offsets, flywheel, lateral):
    """What an ideal measurement of the bicycle gives."""
    mp = {'g': p['g']}
    for k in 'FR':
        mp['n' + k] = ctx.real('n' + k, lo=0.0, sample=(5., 9.))
        mp['d' + k] = 2 * ctx.pi * p['r' + k] * mp['n' + k]
        mp['m' + k] = p['m' + k]
    if not offsets:
        mp['w'] = p['w']
        mp['f'] = ahead(ctx, p['w'], p['c'], p['lam'], p['w'], -p['rF'])
        mp['gamma'] = 90 - p['lam'] * 180 / ctx.pi
    else:
        a, b, c = offsets
        for k, s in (('d1', .036), ('d2', .012), ('d3', .009), ('d4', .028),
                     ('h2', .2), ('h3', .1), ('h5', .15)):
            mp[k] = ctx.real(k, lo=0.0, sample=(s * .9, s * 1.1))
        mp['h1'] = a - mp['h2'] + mp['h3'] - mp['d1'] / 2 + mp['d2'] / 2
        mp['h4'] = b + mp['d3'] / 2 + mp['h5'] - mp['d4'] / 2
        mp['d'] = ctx.sqrt(c * c + (a - b) * (a - b)) - \
            (mp['d2'] + mp['d3']) / 2
    l1 = l2 = 0
    if 'S' in parts:
        for k, s in (('h6', .1), ('h7', .15), ('d5', .01), ('d6', .03)):
            mp[k] = ctx.real(k, lo=0.0, sample=(s * .9, s * 1.1))
        l1 = (mp['h7'] - mp['d6'] / 2) - (mp['h6'] - mp['d5'] / 2)
        l2 = ctx.real('l2', lo=0.0, sample=(.5, .9))
        mp['l'] = ctx.sqrt(l1 * l1 + l2 * l2) + (mp['d5'] + mp['d6']) / 2
    # calibration rod and the stiffness of the torsional pendulum
    k = ctx.real('stiffness', lo=0.0, sample=(2., 9.))
    for q, s in (('lP', 1.), ('mP', 5.), ('dP', .03)):
        mp[q] = ctx.real(q, lo=0.0, sample=(s * .9, s * 1.1))
    rod = mp['mP'] * (3 * (mp['dP'] / 2) * (mp['dP'] / 2) +
                      mp['lP'] * mp['lP']) / 12

    def torsional(I):
        return 2 * ctx.pi * ctx.sqrt(I / k)
    mp['TtP1'] = torsional(rod)
    for q in 'FR':
        mp['l' + q] = ctx.real('l' + q, lo=0.0, sample=(.2, .35))
        mp['Tc%s1' % q] = compound(ctx, p, p['m' + q], p['I%syy' % q],
                                   mp['l' + q] * mp['l' + q])
        mp['Tt%s1' % q] = torsional(p['I%sxx' % q])
    if flywheel:
        # hung together with the front wheel, at the same length
        mp['mD'] = p['mF'] + p['mD']
        mp['TcD1'] = compound(ctx, p, mp['mD'], p['IFyy'] + p['IDyy'],
                              mp['lF'] * mp['lF'])
        mp['TtD1'] = torsional(p['IFxx'] + p['IDxx'])
    betas = {}
    for q, num in zip(parts, n):
        ref = reference(ctx, q, p, l1, l2)
        x, z = p['x' + q], p['z' + q]
        betas[q] = hung(ctx, mp, q, num, x, z, ref, p)
        mp['m' + q] = p['m' + q]
        d2 = (x - ref[0]) * (x - ref[0]) + (z - ref[1]) * (z - ref[1])
        mp['Tc%s1' % q] = compound(ctx, p, p['m' + q], p['I%syy' % q], d2)
        for i, be in enumerate(betas[q]):
            s, c = ctx.sin(be), ctx.cos(be)
            mp['Tt%s%d' % (q, i + 1)] = torsional(
                p['I%sxx' % q] * c * c - 2 * p['I%sxz' % q] * s * c +
                p['I%szz' % q] * s * s)
    if lateral:
        mp['xcl'] = ctx.real('xcl', sample=(0., 1.))
        mp['zcl'] = ctx.real('zcl', sample=(-1., 0.))
    return mp, betas


def newton_finds(ctx, lam):
    """newton finds the bicycle's own tilt, which is shown to be a root."""
    def stub(f, x0, args=(), **kw):
        ctx.eq('the tilt is a root', f(lam, *args), 0, scale=1.)
        return lam
    if ctx.symbolic:
        ctx.replace(scipy.optimize, 'newton', stub)
        ctx.note_stub('newton')


def callees(ctx, p, parts):
    """Modular step with the contracts proved in C14: lines through a common
    point give that point, moments of a tensor give that tensor.  The
    preconditions are shown for one of the parts."""
    from vc import sym

    def centre(slopes, intercepts):
        for k in parts:
            x, z = p['x' + k], p['z' + k]
            if all(ctx.provably_equal(m * x + b, z)
                   for m, b in zip(slopes, intercepts)):
                return x, z
        sym.unsupported('lines that do not meet at a mass centre')

    def planar(J, beta):
        for k in parts:
            I = [p['I%s%s' % (k, a)] for a in ('xx', 'xz', 'zz')]
            sc = [(ctx.sin(b), ctx.cos(b)) for b in beta]
            if all(ctx.provably_equal(
                    I[0] * c * c - 2 * I[1] * s * c + I[2] * s * s, j)
                   for j, (s, c) in zip(J, sc)):
                return np.array(I, dtype=object)
        sym.unsupported('moments that are not those of a part')
    ctx.callee(com, 'center_of_mass', centre)
    ctx.callee(inertia, 'inertia_components', planar)


def assembly(p, parts):
    """Mass, mass centre and inertia of several rigid bodies."""
    m = sum(p['m' + k] for k in parts)
    x, z = (sum(p['m' + k] * p[a + k] for k in parts) / m for a in 'xz')
    I = madd(*[steiner(
        [[p['I%sxx' % k], 0, p['I%sxz' % k]], [0, p['I%syy' % k], 0],
         [p['I%sxz' % k], 0, p['I%szz' % k]]], p['m' + k],
        [p['x' + k] - x, 0, p['z' + k] - z]) for k in parts])
    return m, x, z, I


def reduction(ctx, split, n, geometry, flywheel, lateral, u=False):
    parts = 'BGS' if split else 'BH'
    p = true_bicycle(ctx, parts, geometry)
    offsets = p.pop('offsets', None)
    if flywheel:
        for k in ('mD', 'IDxx', 'IDyy'):
            p[k] = ctx.real(k, lo=0.0, sample=(.5, 1.))
    mp, betas = measure(ctx, p, parts, n, offsets, flywheel, lateral)
    if geometry != 'direct':
        newton_finds(ctx, p['lam'])
    callees(ctx, p, parts)
    if u and not ctx.symbolic:
        import uncertainties
        mp = {k: uncertainties.ufloat(v, 1e-7) for k, v in mp.items()}
    snap = ctx.snapshot(mp)
    with quiet():
        got, extras = main.calculate_benchmark_from_measured(mp)
    ctx.unchanged('measurements', snap, mp)
    want = dict(p)
    if split:
        m, x, z, I = assembly(p, 'GS')
        want.update(mH=m, xH=x, zH=z, IHxx=I[0][0], IHxz=I[0][2],
                    IHyy=I[1][1], IHzz=I[2][2])
    if lateral:
        want.update(xcl=mp['xcl'], zcl=mp['zcl'])
    ctx.true('keys', set(got) == set(want),
             'keys %s' % sorted(set(got) ^ set(want)))
    for k in sorted(want):
        ctx.eq(k, nominal(got[k]), nominal(want[k]), scale=1., tol=1e-6)
    for k in parts:
        ctx.eq('beta', nominal(list(extras['betas'][k])), betas[k], scale=1.)


@contract('C15', FUNCS, seconds=300, samples=120, assumes=[
    'scipy.optimize.newton finds the root that is the bicycle\'s steer axis '
    'tilt (shown to be a root)',
    'pinv(A) (A x) = x for A of full column rank'],
          wild=False)
def ideal_measurements(ctx):
    """Fork and handlebar together or apart, with or without flywheel, either
    way of measuring the geometry, two geometries and three orientations."""
    split = ctx.choice('split', [False, True])
    geometry = ctx.choice('geometry', ['direct', 'offsets'])
    flywheel = ctx.choice('flywheel', [False, True])
    lateral = ctx.choice('lateral force point', [False, True])
    reduction(ctx, split, (3, 3, 3), geometry, flywheel, lateral,
              ctx.choice('uncertain', [False, True])
              if not ctx.symbolic else False)


@contract('C15', FUNCS, seconds=300, samples=60, assumes=[
    'pinv(A) (A x) = x for A of full column rank'],
          wild=False)
def more_orientations(ctx):
    """Any number of orientations, differing between parts (up to eleven)."""
    n = ctx.choice('n', [(4, 3, 5), (3, 5, 4), (6, 6, 6), (11, 4, 10)])
    reduction(ctx, ctx.choice('split', [False, True]), n, 'direct', False,
              False)


@contract('C15', 'main.is_fork_split', samples=40)
def fork_split(ctx):
    """Split exactly when a fork quantity was measured."""
    base = ['mB', 'alphaB1', 'aB1', 'TcB1', 'TtB1', 'lP', 'TtP1', 'dF', 'w',
            'gamma', 'lamst', 'hbb', 'lsp', 'lst', 'LhbR']
    split = ctx.choice('split', [False, True])
    keys = base + (['mS', 'mG'] if split else ['mH'])
    if ctx.choice('backwards', [False, True]):
        keys.reverse()
    ctx.true('split', main.is_fork_split({k: 1. for k in keys}) is split)
