"""C14 pendulum reductions."""
import itertools

from vc.engine import contract, nominal
from bicycleparameters import com, inertia
from contracts.c13 import maybe
from contracts.lib import *


@contract('C14', 'inertia.compound_pendulum_inertia', samples=80)
def compound(ctx):
    """(I + m l^2) phi'' = -m g l phi."""
    u = ctx.choice('uncertain', [False, .001])
    I = ctx.real('I', lo=0.0, sample=(.01, 5.))
    m, g, l = [ctx.real(k, lo=0.0, sample=s) for k, s in
               (('m', (.5, 30.)), ('g', (9., 10.)), ('l', (.05, 1.)))]
    T = 2 * ctx.pi * ctx.sqrt((I + m * l * l) / (m * g * l))
    if u and not ctx.symbolic:
        import uncertainties
        m, g, l, T = [uncertainties.ufloat(x, u * x) for x in (m, g, l, T)]
    ctx.eq('inertia', nominal(inertia.compound_pendulum_inertia(m, g, l, T)),
           I, scale=1.)


@contract('C14', 'inertia.torsional_pendulum_stiffness inertia.tor_inertia',
          samples=80)
def torsional(ctx):
    """I phi'' = -k phi."""
    I = ctx.real('I', lo=0.0, sample=(.01, 5.))
    k = ctx.real('k', lo=0.0, sample=(.1, 20.))
    T = 2 * ctx.pi * ctx.sqrt(I / k)
    ctx.eq('stiffness', inertia.torsional_pendulum_stiffness(I, T), k)
    ctx.eq('inertia', inertia.tor_inertia(k, T), I)
    t = ctx.real('period', lo=0.0, sample=(.2, 5.))
    ctx.eq('inverse', inertia.tor_inertia(
        inertia.torsional_pendulum_stiffness(I, t), t), I)
    ctx.eq('inverse', inertia.torsional_pendulum_stiffness(
        inertia.tor_inertia(k, t), t), k)


@contract('C14', 'inertia.tube_inertia', samples=60)
def tube(ctx):
    """A homogeneous cylinder without the homogeneous cylinder inside it."""
    l = ctx.real('l', lo=0.0, sample=(.1, 2.))
    m = ctx.real('m', lo=0.0, sample=(.5, 9.))
    ro = ctx.real('ro', lo=0.0, sample=(.05, .2))
    ri = 0 if ctx.choice('rod', [False, True]) else \
        ctx.real('ri', lo=0.0, sample=(.01, .04))
    ctx.assume(ro > ri)
    mo = m * ro * ro / (ro * ro - ri * ri)
    mi = m * ri * ri / (ro * ro - ri * ri)
    x = mo * ro * ro / 2 - mi * ri * ri / 2
    y = mo * (3 * ro * ro + l * l) / 12 - mi * (3 * ri * ri + l * l) / 12
    got = inertia.tube_inertia(l, m, ro, ri)
    ctx.true('three', len(got) == 3)
    ctx.eq('tube', list(got), [x, y, y])


@contract('C14', 'inertia.inertia_components', samples=120,
          assumes=['pinv(A) (A x) = x for A of full column rank'],
          wild=False)
def planar_inertia(ctx):
    """Moments about the axes turned by beta, three to eight of them."""
    n = ctx.choice('n', [3, 4, 5, 6, 8])
    u = ctx.choice('uncertain', [False, .001])
    I = [ctx.real(k, sample=s) for k, s in
         (('Ixx', (.1, 5.)), ('Ixz', (-1., 1.)), ('Izz', (.1, 5.)))]
    beta = [ctx.real('beta%d' % i, sample=(i * 2.5 / n, (i + .7) * 2.5 / n))
            for i in range(n)]
    J = []
    for b in beta:
        s, c = ctx.sin(b), ctx.cos(b)
        J.append(I[0] * c * c - 2 * I[1] * s * c + I[2] * s * s)
    if u and not ctx.symbolic:
        import uncertainties
        beta = [uncertainties.ufloat(x, u) for x in beta]
        J = [uncertainties.ufloat(x, u) for x in J]
    got = inertia.inertia_components(np.array(J), np.array(beta))
    ctx.true('shape', np.shape(got) == (3,), str(np.shape(got)))
    ctx.eq('tensor', nominal(got), I, scale=1., tol=1e-6)


@contract('C14', 'inertia.inertia_components', samples=80,
          assumes=['pinv(A) b is a function of A and b, the least squares '
                   'solution of A x = b'], wild=False)
def measured_inertia(ctx):
    """Moments that agree with no tensor exactly: the least squares solution
    over all of them."""
    n = ctx.choice('n', [4, 5, 6, 8])
    beta = [ctx.real('beta%d' % i, sample=(i * 2.5 / n, (i + .7) * 2.5 / n))
            for i in range(n)]
    J = [ctx.real('J%d' % i, sample=(.1, 5.)) for i in range(n)]
    A = []
    for b in beta:
        s, c = ctx.sin(b), ctx.cos(b)
        A.append([c * c, -2 * s * c, s * s])
    if ctx.symbolic:
        from vc import shims
        ctx.run.opaque_lstsq = True
        want = shims.pinv(np.array(A, dtype=object)).dot(
            np.array(J, dtype=object))
        got = inertia.inertia_components(np.array(J), np.array(beta))
        ctx.eq('least squares', list(got), list(want))
        return
    got = inertia.inertia_components(np.array(J), np.array(beta))
    A = np.array(A)
    ctx.eq('normal equations', A.T @ (A @ np.array(got) - np.array(J)),
           np.zeros(3), scale=1., tol=1e-6)


# ------------------------------------------------------------ hanging lines
def hang(ctx, x, z, xr, zr, beta):
    """Distance the reference point is left of the pendulum axis when the
    mass centre hangs below it and the body is turned so that gravity points
    along (cos beta, - sin beta)."""
    return -(x - xr) * ctx.sin(beta) - (z - zr) * ctx.cos(beta)


def reference(ctx, part, p, l1, l2):
    """Point of the part the pendulum distance is measured to."""
    if part == 'B':
        return 0, -p['rR']
    if part in 'SH':
        return p['w'], -p['rF']
    s, c = ctx.sin(p['lam']), ctx.cos(p['lam'])
    return p['w'] + l1 * c - l2 * s, -p['rF'] - l1 * s - l2 * c


def frame(ctx, u=False):
    return {k: maybe(ctx, u, k, **domain(k)) for k in
            ('w', 'lam', 'rF', 'rR', 'c')}


@contract('C14', 'com.com_line geometry.fwheel_to_handlebar_ref', samples=80)
def line(ctx):
    """The mass centre is on the line, whatever the body and orientation."""
    p = frame(ctx)
    part = ctx.choice('part', ['B', 'S', 'H', 'G'])
    x, z = ctx.real('x', sample=(0., 1.)), ctx.real('z', sample=(-1., 0.))
    l1 = ctx.real('l1', sample=(-.1, .1))
    l2 = ctx.real('l2', sample=(.5, .9))
    # angle of the head tube from the horizontal
    beta = ctx.real('beta', sample=(-1.2, 1.2))
    alpha = (p['lam'] - beta) * 180 / ctx.pi
    snap = ctx.snapshot(p)
    a = hang(ctx, x, z, *reference(ctx, part, p, l1, l2), beta)
    m, b, got = com.com_line(alpha, a, p, part, l1, l2)
    ctx.unchanged('parameters', snap, p)
    ctx.eq('on the line', m * x + b, z, scale=1.)
    ctx.eq('vertical', m * ctx.cos(beta), -ctx.sin(beta), scale=1.)
    ctx.eq('angle', got, beta, scale=1.)


def hung(ctx, mp, part, n, x, z, ref, p, spread=None):
    """Adds the angles and distances of n orientations to the measurements;
    returns the angles beta."""
    betas = []
    for i in range(1, n + 1):
        b = ctx.real('beta%s%d' % (part, i),
                     sample=(-1.2 + (i - 1) * 2.4 / n, -1.2 +
                             (i - .4) * 2.4 / n))
        betas.append(b)
        mp['alpha%s%d' % (part, i)] = (p['lam'] - b) * 180 / ctx.pi
        mp['a%s%d' % (part, i)] = hang(ctx, x, z, *ref, b)
    return betas


@contract('C14', 'com.part_com_lines com.com_line geometry.calculate_l1_l2 '
          'geometry.fwheel_to_handlebar_ref', samples=80,
          wild=False)
def part_lines(ctx):
    """Each part's lines, in the order of the orientations, whatever the
    order of the measurements."""
    split = ctx.choice('split', [False, True])
    n = ctx.choice('n', [2, 3, 6, 11])
    p = frame(ctx)
    mp, l1, l2 = {'lam': 3.}, 0, 0
    if split:
        mp['h6'], mp['h7'] = (ctx.real(k, sample=(.1, .2))
                              for k in ('h6', 'h7'))
        mp['d5'], mp['d6'] = (ctx.real(k, lo=0.0, sample=(.01, .03))
                              for k in ('d5', 'd6'))
        l1 = (mp['h7'] - mp['d6'] / 2) - (mp['h6'] - mp['d5'] / 2)
        l2 = ctx.real('l2', lo=0.0, sample=(.5, .9))
        mp['l'] = ctx.sqrt(l1 * l1 + l2 * l2) + (mp['d5'] + mp['d6']) / 2
    parts = 'BGS' if split else 'BH'
    where, betas = {}, {}
    for k in parts:
        where[k] = (ctx.real('x' + k, sample=(0., 1.)),
                    ctx.real('z' + k, sample=(-1., 0.)))
        betas[k] = hung(ctx, mp, k, n, *where[k],
                        reference(ctx, k, p, l1, l2), p)
    if ctx.choice('backwards', [False, True]):
        mp = dict(reversed(list(mp.items())))
    snap = ctx.snapshot(mp, p)
    sl, ic, be = com.part_com_lines(mp, p, split)
    ctx.unchanged('measurements', snap, mp, p)
    for d in (sl, ic, be):
        ctx.true('parts', set(d) == set(parts), str(sorted(d)))
    for k in parts:
        ctx.true('lines', len(sl[k]) == len(ic[k]) == len(be[k]) == n)
        ctx.eq('angles', list(be[k]), betas[k], scale=1.)
        x, z = where[k]
        ctx.eq('on the lines', [m * x + b for m, b in zip(sl[k], ic[k])],
               [z] * n, scale=1.)
        ctx.eq('vertical', [m * ctx.cos(b) for m, b in zip(sl[k], betas[k])],
               [-ctx.sin(b) for b in betas[k]], scale=1.)


@contract('C14', 'com.center_of_mass com.cartesian', samples=120,
          wild=False)
def intersection(ctx):
    """Two to six lines through one point."""
    n = ctx.choice('n', [2, 3, 4, 5, 6])
    u = ctx.choice('uncertain', [False, .001])
    x, z = ctx.real('x', sample=(-1., 1.)), ctx.real('z', sample=(-1., 1.))
    m = [ctx.real('m%d' % i, sample=(-3 + i * 6 / n, -3 + (i + .7) * 6 / n))
         for i in range(n)]
    if ctx.choice('falling', [False, True]):
        m.reverse()
    b = [z - k * x for k in m]
    if u and not ctx.symbolic:
        import uncertainties
        m = [uncertainties.ufloat(k, u) for k in m]
        b = [uncertainties.ufloat(k, u) for k in b]
    got = com.center_of_mass(m, b)
    ctx.true('two', len(got) == 2)
    ctx.eq('mass centre', nominal(list(got)), [x, z], scale=1., tol=1e-6)


@contract('C14', 'com.center_of_mass com.cartesian', samples=120,
          wild=False)
def scattered(ctx):
    """Lines that do not meet in one point: every pair counts equally."""
    n = ctx.choice('n', [2, 3, 4, 5] + ([] if ctx.symbolic else [7, 9]))
    u = ctx.choice('uncertain', [False, .001])
    m = [ctx.real('m%d' % i, sample=(-3 + i * 6 / n, -3 + (i + .7) * 6 / n))
         for i in range(n)]
    b = [ctx.real('b%d' % i, sample=(-1., 1.)) for i in range(n)]
    pairs = list(itertools.combinations(range(n), 2))
    for i, j in pairs:
        ctx.assume(m[i] != m[j])
    at = []
    for i, j in pairs:
        x = (b[j] - b[i]) / (m[i] - m[j])
        at.append((x, m[i] * x + b[i]))
    if u and not ctx.symbolic:
        import uncertainties
        m = [uncertainties.ufloat(k, u) for k in m]
        b = [uncertainties.ufloat(k, u) for k in b]
    got = com.center_of_mass(m, b)
    ctx.eq('mean of the intersections', nominal(list(got)),
           [sum(p[k] for p in at) / len(at) for k in range(2)], scale=1.,
           tol=1e-6)


@contract('C14', 'com.cartesian', samples=60)
def products(ctx):
    """Every combination once, the last factor running fastest."""
    k = ctx.choice('factors', [1, 2, 3])
    sizes = [ctx.choice('size%d' % i, [1, 2, 3]) for i in range(k)]
    arrays = [[ctx.real('v%d%d' % (i, j)) for j in range(n)]
              for i, n in enumerate(sizes)]
    got = com.cartesian([ctx.arr(a) for a in arrays])
    want = [list(c) for c in itertools.product(*arrays)]
    ctx.true('shape', np.shape(got) == (len(want), k), str(np.shape(got)))
    ctx.eq('product', got, want, tol=0)
