"""C13 geometry."""
import scipy.optimize

from vc.engine import contract, nominal
from bicycleparameters import bicycle, geometry
from contracts.lib import *

G = 'geometry.'


def ahead(ctx, w, c, lam, x, z):
    """Signed distance of a point ahead of the steer axis."""
    return (x - w - c) * ctx.cos(lam) - z * ctx.sin(lam)


def down(ctx, lam, x, z):
    """Coordinate of a point along the steer axis, downward."""
    return x * ctx.sin(lam) + z * ctx.cos(lam)


def maybe(ctx, u, name, **dom):
    return ctx.real(name, **dict(dom, **({'u': u} if u else {})))


@contract('C13', 'bicycle.trail', samples=80)
def trail(ctx):
    """The front wheel centre is the fork offset ahead of the steer axis and
    the wheel contact the mechanical trail behind it."""
    u = ctx.choice('uncertain', [False, .01])
    rF = maybe(ctx, u, 'rF', lo=0.0, sample=(.2, .5))
    lam = maybe(ctx, u, 'lam', sample=(-.6, .6))
    fo = maybe(ctx, u, 'fo', sample=(-.1, .1))
    c, cm = map(nominal, bicycle.trail(rF, lam, fo))
    rF, lam, fo = map(nominal, (rF, lam, fo))
    w = ctx.real('wheelbase', sample=(.8, 1.3))
    ctx.eq('offset', ahead(ctx, w, c, lam, w, -rF), fo, scale=1.)
    ctx.eq('mechanical trail', ahead(ctx, w, c, lam, w, 0), -cm, scale=1.)


# ------------------------------------------------------ benchmark geometry
def newton(ctx):
    """Contract: the value is a root of the function."""
    def stub(f, x0, args=(), **kw):
        if kw.get('full_output'):
            from vc import sym
            sym.unsupported('newton with full output')
        r = ctx.real('root%d' % len(seen))
        seen.append(r)
        ctx.assume(f(r, *args) == 0)
        return r
    seen = []
    if ctx.symbolic:
        ctx.replace(scipy.optimize, 'newton', stub)
        ctx.note_stub('newton')


WHEEL = dict(lo=0.0, sample=(.25, .4))


def geometry_of(ctx, u):
    """A bicycle and the measurements it gives."""
    mp = {}
    for k in 'FR':
        mp['d' + k] = maybe(ctx, u and .001, 'd' + k, lo=0.0,
                            sample=(11., 16.))
        mp['n' + k] = maybe(ctx, False, 'n' + k, lo=0.0, sample=(6., 7.))
    return mp


def radius(ctx, mp, k):
    """Rolling without slip: n turns are n circumferences."""
    return nominal(mp['d' + k]) / (2 * ctx.pi * nominal(mp['n' + k]))


def lateral_force(ctx, mp):
    if ctx.choice('lateral force point', [False, True]):
        mp['xcl'] = ctx.real('xcl', sample=(0., 1.))
        mp['zcl'] = ctx.real('zcl', sample=(-1., 0.))


@contract('C13', G + 'calculate_benchmark_geometry bicycle.trail',
          samples=80)
def direct_geometry(ctx):
    """Wheelbase, head angle and fork offset measured."""
    u = ctx.choice('uncertain', [False, .002])
    mp = geometry_of(ctx, u)
    mp['w'] = maybe(ctx, u, 'w', lo=0.0, sample=(.8, 1.3))
    mp['gamma'] = maybe(ctx, u, 'gamma', sample=(55., 85.))
    mp['f'] = maybe(ctx, u, 'f', sample=(-.1, .1))
    lateral_force(ctx, mp)
    snap = ctx.snapshot(mp)
    other = ctx.real('other', sample=(0., 1.))
    par = geometry.calculate_benchmark_geometry(mp, {'other': other})
    ctx.unchanged('measurements', snap, mp)
    n = nominal(mp)
    p = nominal(par)
    ctx.true('keys', set(p) == {'other', 'rF', 'rR', 'w', 'c', 'lam'} |
             ({'xcl', 'zcl'} & set(mp)), str(sorted(p)))
    ctx.eq('radii', [p['rF'], p['rR']], [radius(ctx, mp, k) for k in 'FR'])
    ctx.eq('wheelbase', p['w'], n['w'])
    ctx.eq('tilt', p['lam'], ctx.pi / 2 - n['gamma'] * ctx.pi / 180)
    ctx.eq('offset', ahead(ctx, p['w'], p['c'], p['lam'], p['w'], -p['rF']),
           n['f'], scale=1.)
    for k in {'other', 'xcl', 'zcl'} & set(p):
        ctx.eq(k, p[k], other if k == 'other' else n[k])


@contract('C13', G + 'calculate_benchmark_geometry ' + G +
          'calculate_abc_geometry bicycle.lambda_from_abc bicycle.trail',
          samples=120, assumes=['scipy.optimize.newton returns a root of the '
                                'function it is given (symbolic run)'],
          wild=False)
def offset_geometry(ctx):
    """Heights above the table and the axle distance measured: the wheel
    centres of the bicycle found have the measured offsets from the steer
    axis and the measured distance, and stand on the ground."""
    newton(ctx)
    u = ctx.choice('uncertain', [False, .0005])
    mp = geometry_of(ctx, u)
    r = {k: radius(ctx, mp, k) for k in 'FR'}
    for k, s in (('d1', .036), ('d2', .012), ('d3', .009), ('d4', .028)):
        mp[k] = maybe(ctx, u, k, lo=0.0, sample=(s * .9, s * 1.1))
    mp['h2'] = maybe(ctx, u, 'h2', sample=(.1, .3))
    mp['h3'] = maybe(ctx, u, 'h3', sample=(.1, .2))
    mp['h5'] = maybe(ctx, u, 'h5', sample=(.1, .2))
    n = nominal(mp)
    if ctx.symbolic:
        mp['h1'], mp['h4'] = ctx.real('h1'), ctx.real('h4')
        mp['d'] = ctx.real('d')
    else:
        # those of a bicycle
        w = ctx.real('wheelbase', sample=(.8, 1.3))
        lam = ctx.real('lam', sample=(.1, .6))
        c = ctx.real('c', sample=(.02, .15))
        a0 = -ahead(ctx, w, c, lam, 0, -r['R'])
        b0 = ahead(ctx, w, c, lam, w, -r['F'])
        c0 = down(ctx, lam, w, r['R'] - r['F'])
        # the distance measured is positive
        ctx.assume(a0 + b0 > .05 and c0 > .05)
        v = {'h1': a0 - n['h2'] + n['h3'] - n['d1'] / 2 + n['d2'] / 2,
             'h4': b0 + n['d3'] / 2 + n['h5'] - n['d4'] / 2,
             'd': ctx.sqrt(c0 * c0 + (a0 - b0) * (a0 - b0)) -
             (n['d2'] + n['d3']) / 2}
        if u:
            import uncertainties
            v = {k: uncertainties.ufloat(x, u) for k, x in v.items()}
        mp.update(v)
    n = nominal(mp)
    # heights of the rear axle above the head tube's centre line and of the
    # front axle above the steer tube's
    a = (n['h1'] + n['h2'] - n['d2'] / 2) - (n['h3'] - n['d1'] / 2)
    b = (n['h4'] - n['d3'] / 2) - (n['h5'] - n['d4'] / 2)
    far = n['d'] + n['d2'] / 2 + n['d3'] / 2
    if ctx.symbolic:
        ctx.assume(a + b > 0)
        # the axles are farther apart than their offsets
        ctx.assume(far * far - (a - b) * (a - b) > 0)
    lateral_force(ctx, mp)
    snap = ctx.snapshot(mp)
    with quiet():
        par = geometry.calculate_benchmark_geometry(mp, {})
    ctx.unchanged('measurements', snap, mp)
    p = nominal(par)
    ctx.true('keys', set(p) == {'rF', 'rR', 'w', 'c', 'lam'} |
             ({'xcl', 'zcl'} & set(mp)), str(sorted(p)))
    ctx.eq('radii', [p['rF'], p['rR']], [r['F'], r['R']])
    ctx.eq('rear offset', -ahead(ctx, p['w'], p['c'], p['lam'], 0, -p['rR']),
           a, scale=1., tol=1e-7)
    ctx.eq('front offset', ahead(ctx, p['w'], p['c'], p['lam'], p['w'],
                                 -p['rF']), b, scale=1., tol=1e-7)
    along = down(ctx, p['lam'], p['w'], p['rR'] - p['rF'])
    ctx.eq('axle distance with the fork reversed',
           along * along + (a - b) * (a - b), far * far, scale=1., tol=1e-7)
    if not ctx.symbolic:
        ctx.eq('bicycle', [p['w'], p['c'], p['lam']], [w, c, lam], scale=1.,
               tol=1e-6)


@contract('C13', G + 'calculate_abc_geometry', samples=80)
def abc(ctx):
    u = ctx.choice('uncertain', [False, .001])
    h = tuple(maybe(ctx, u, 'h%d' % i, sample=(.1, .3)) for i in range(1, 6))
    d = tuple(maybe(ctx, u, 'd%d' % i, lo=0.0, sample=(.01, .04))
              for i in range(1, 5)) + (maybe(ctx, u, 'd', sample=(1., 1.5)),)
    hn, dn = [nominal(x) for x in h], [nominal(x) for x in d]
    rear, front = dn[1] / 2, dn[2] / 2
    a = (hn[0] + hn[1] - rear) - (hn[2] - dn[0] / 2)
    b = (hn[3] - front) - (hn[4] - dn[3] / 2)
    far = dn[4] + rear + front
    ctx.assume(far * far - (a - b) * (a - b) >= 0)
    got = [nominal(x) for x in geometry.calculate_abc_geometry(h, d)]
    ctx.eq('offsets', got[:2], [a, b], scale=1.)
    ctx.true('distance', got[2] >= 0)
    ctx.eq('triangle', got[2] * got[2] + (a - b) * (a - b), far * far)


@contract('C13', 'bicycle.lambda_from_abc', samples=80,
          assumes=['scipy.optimize.newton returns a root of the function it '
                   'is given (symbolic run)'],
          wild=False)
def tilt(ctx):
    """Wheel centres at the offsets a, b and the distance c along the axis
    are the wheel radii above the ground."""
    newton(ctx)
    u = ctx.choice('uncertain', [False, .001])
    rF, rR = [maybe(ctx, u, k, **WHEEL) for k in ('rF', 'rR')]
    a = maybe(ctx, u, 'a', sample=(.4, .7))
    b = maybe(ctx, u, 'b', sample=(.03, .08))
    c = maybe(ctx, u, 'c', sample=(.8, 1.1))
    if ctx.symbolic:
        ctx.assume(a + b > 0)
    with quiet():
        lam = bicycle.lambda_from_abc(rF, rR, a, b, c)
    lam, rF, rR, a, b, c = map(nominal, (lam, rF, rR, a, b, c))
    # from the rear wheel centre to the front one, in the steer axis frame
    ctx.eq('height', rR + (a + b) * ctx.sin(lam) - c * ctx.cos(lam), rF,
           scale=1., tol=1e-7)


@contract('C13', G + 'fundamental_geometry_plot_data', samples=60)
def frame_lines(ctx):
    """Rear wheel centre, its foot on the steer axis, that of the front wheel
    centre, front wheel centre."""
    p = meijaard(ctx)
    snap = ctx.snapshot(p)
    x, z = geometry.fundamental_geometry_plot_data(p)
    ctx.unchanged('parameters', snap, p)
    w, c, lam = p['w'], p['c'], p['lam']
    centre = {0: (0, -p['rR']), 3: (w, -p['rF'])}
    ctx.true('shape', np.shape(x) == (4,) and np.shape(z) == (4,))
    for k, (cx, cz) in centre.items():
        ctx.eq('wheel centre', [x[k], z[k]], [cx, cz])
        f = {0: 1, 3: 2}[k]
        ctx.eq('foot on the axis', ahead(ctx, w, c, lam, x[f], z[f]), 0,
               scale=1.)
        ctx.eq('perpendicular', down(ctx, lam, x[f] - cx, z[f] - cz), 0,
               scale=1.)


# --------------------------------------------------------------- handlebar
@contract('C13', G + 'calculate_l1_l2', samples=80)
def handlebar_offsets(ctx):
    """The table is parallel to the steer axis."""
    u = ctx.choice('uncertain', [False, .001])
    h6 = maybe(ctx, u, 'h6', sample=(.1, .3))
    h7 = maybe(ctx, u, 'h7', sample=(.1, .3))
    d5 = maybe(ctx, u, 'd5', sample=(.01, .02))
    d6 = maybe(ctx, u, 'd6', sample=(.02, .04))
    l = maybe(ctx, u, 'l', sample=(.6, .9))
    n = [nominal(x) for x in (h6, h7, d5, d6, l)]
    l1 = (n[1] - n[3] / 2) - (n[0] - n[2] / 2)
    far = n[4] - n[2] / 2 - n[3] / 2
    ctx.assume(far > 0)
    ctx.assume(far * far - l1 * l1 >= 0)
    g1, g2 = [nominal(x) for x in geometry.calculate_l1_l2(h6, h7, d5, d6, l)]
    ctx.eq('perpendicular', g1, l1, scale=1.)
    ctx.eq('distance', g1 * g1 + g2 * g2, far * far, scale=1.)
    ctx.true('above', g2 >= 0, str(g2))


@contract('C13', G + 'fwheel_to_handlebar_ref', samples=80)
def handlebar_position(ctx):
    """l1 ahead of the front wheel centre and l2 above it, seen along the
    steer axis; u1 backward and u2 up."""
    u = ctx.choice('uncertain', [False, .001])
    lam = 0. if ctx.choice('vertical', [False, True]) else \
        maybe(ctx, u, 'lam', sample=(-.6, .6))
    l1 = maybe(ctx, u, 'l1', sample=(-.1, .1))
    l2 = maybe(ctx, u, 'l2', sample=(.5, .9))
    u1, u2 = [nominal(x) for x in
              geometry.fwheel_to_handlebar_ref(lam, l1, l2)]
    lam, l1, l2 = map(nominal, (lam, l1, l2))
    s, c = ctx.sin(lam), ctx.cos(lam)
    ctx.eq('ahead', -u1 * c + u2 * s, l1, scale=1.)
    ctx.eq('above', u1 * s + u2 * c, l2, scale=1.)


# ---------------------------------------------------------- plane geometry
@contract('C13', G + 'calc_two_link_angles', samples=80)
def two_links(ctx):
    """The second link's end is on the axis at the distance."""
    L1 = ctx.real('L1', lo=0.0, sample=(.2, .5))
    L2 = ctx.real('L2', lo=0.0, sample=(.2, .5))
    D = ctx.real('D', lo=0.0, sample=(.02, 1.))
    ctx.assume(D < L1 + L2)
    ctx.assume(L1 < D + L2)
    ctx.assume(L2 < D + L1)
    t1, t2 = geometry.calc_two_link_angles(L1, L2, D)
    ctx.eq('end', [L1 * ctx.cos(t1) + L2 * ctx.cos(t1 - t2),
                   L1 * ctx.sin(t1) + L2 * ctx.sin(t1 - t2)], [D, 0],
           scale=1.)
    ctx.true('positive', t1 >= 0)
    ctx.true('positive', t2 >= 0)


@contract('C13', G + 'point_to_line_distance', samples=60)
def distance(ctx):
    """The distance to the nearest point of the line, any direction."""
    u = ctx.choice('uncertain', [False, .01])
    p, a, b = [[maybe(ctx, u, '%s%d' % (n, i), sample=(-2., 2.))
                for i in range(3)] for n in 'pab']
    if not u and not ctx.symbolic and ctx.choice('integers', [False, True]):
        p, a, b = [[int(round(x)) for x in v] for v in (p, a, b)]
        if a == b:
            a = [b[0] + 1] + b[1:]
    line = np.array([a, b], dtype=None if isinstance(a[0], int) else
                    object if u or ctx.symbolic else float).T
    d = nominal(geometry.point_to_line_distance(np.array(p), line))
    p, a, b = [[nominal(x) for x in v] for v in (p, a, b)]
    e = [y - x for x, y in zip(a, b)]
    q = [y - x for x, y in zip(a, p)]
    ee, qe, qq = [sum(x * y for x, y in zip(m, n))
                  for m, n in ((e, e), (q, e), (q, q))]
    ctx.assume(ee > 0)
    ctx.true('not negative', d >= 0, str(d))
    # Pythagoras
    ctx.eq('distance', d * d * ee, qq * ee - qe * qe, scale=10.)


@contract('C13', G + 'project_point_on_line', samples=60)
def projection(ctx):
    u = ctx.choice('uncertain', [False, .01])
    m, b, c, d = [maybe(ctx, u, k, sample=(-2., 2.)) for k in 'mbcd']
    x, y = [nominal(v) for v in
            geometry.project_point_on_line((m, b), (c, d))]
    m, b, c, d = map(nominal, (m, b, c, d))
    ctx.eq('on the line', y, m * x + b, scale=1.)
    ctx.eq('perpendicular', (x - c) + m * (y - d), 0, scale=1.)


def column(ctx, name):
    v = [ctx.real('%s%d' % (name, i), sample=(-2., 2.)) for i in range(3)]
    shape = ctx.choice('shape ' + name, [(3,), (3, 1)])
    return v, ctx.arr(v).reshape(shape)


@contract('C13', G + 'vec_angle', samples=60)
def angle(ctx):
    v1, a1 = column(ctx, 'a')
    v2, a2 = column(ctx, 'b')
    if np.shape(a1) != np.shape(a2):
        return
    n1, n2 = [ctx.sqrt(sum(x * x for x in v)) for v in (v1, v2)]
    dot = sum(x * y for x, y in zip(v1, v2))
    ctx.assume(n1 > 0)
    ctx.assume(n2 > 0)
    # Lagrange's identity, whence Cauchy's inequality
    cross = [v1[1] * v2[2] - v1[2] * v2[1], v1[2] * v2[0] - v1[0] * v2[2],
             v1[0] * v2[1] - v1[1] * v2[0]]
    cc = sum(x * x for x in cross)
    ctx.eq('lemma', n1 * n1 * n2 * n2 - dot * dot, cc, scale=1.)
    if ctx.symbolic:
        r = dot / (n1 * n2)
        ctx.eq('lemma', 1 - r * r, cc / (n1 * n2) / (n1 * n2))
        ctx.true('lemma', cc >= 0)
        ctx.assume(r <= 1)
        ctx.assume(r >= -1)
    elif ctx.choice('parallel', [False, True]):
        k = ctx.choice('times', [1., -1., 3.7])
        v2, a2 = [k * x for x in v1], k * a1
        n2, dot = abs(k) * n1, k * n1 * n1
    g = geometry.vec_angle(a1, a2)
    ctx.eq('cosine', ctx.cos(g) * n1 * n2, dot, scale=1.)
    ctx.true('interior', g >= 0)
    ctx.true('interior', g <= ctx.pi)


@contract('C13', G + 'vec_project', samples=60)
def projection_into_plane(ctx):
    v, a = column(ctx, 'v')
    snap = ctx.snapshot(a)
    how = ctx.choice('normal', [0, 1, 2, 'vector'])
    if how == 'vector':
        n = [ctx.real('n%d' % i, sample=(-2., 2.)) for i in range(3)]
        ctx.assume(n[0] * n[0] + n[1] * n[1] + n[2] * n[2] > 0)
        out = geometry.vec_project(a, ctx.arr(n))
    else:
        n = [1 if i == how else 0 for i in range(3)]
        out = geometry.vec_project(a, how)
    ctx.unchanged('vector', snap, a)
    ctx.true('shape', np.shape(out) == (3, 1), str(np.shape(out)))
    o = [out[i, 0] for i in range(3)]
    ctx.eq('in the plane', sum(x * y for x, y in zip(o, n)), 0, scale=1.)
    d = [x - y for x, y in zip(v, o)]
    ctx.eq('along the normal', [d[1] * n[2] - d[2] * n[1],
                                d[2] * n[0] - d[0] * n[2],
                                d[0] * n[1] - d[1] * n[0]], [0, 0, 0],
           scale=1.)
