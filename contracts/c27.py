"""C27 drawings of a parameter set.

Drawn artists are taken from the axes: the real ones in the bounded runs, a
recording stand-in (contract of matplotlib's artists) in the proofs."""
import math

import matplotlib.pyplot as plt
from matplotlib import patches

from vc.engine import contract, Skip
from contracts.lib import *
from contracts import kept
from bicycleparameters import parameter_sets as ps

MOORE = ('alphaD alphaH alphaP c g kDaa kDbb kDyy kFaa kFyy kHaa kHbb kHyy '
         'kPaa kPbb kPyy kRaa kRyy lP lam mD mF mH mP mR rF rR v w wP xD xH '
         'xP zD zH zP').split()
ASSUMED = ['matplotlib draws Circle(center, radius), Ellipse(center, width, '
           'height, angle in degrees from the first to the second data axis) '
           'with full width and height, and lines through the given points']


class Patch(object):
    def __init__(self, kind, center, size, angle=0., **kw):
        self.kind, self.center, self.size = kind, center, size
        self.angle = angle
        self.color = kw.get('color')


def circle(xy, radius=5., **kw):
    return Patch('circle', xy, (radius,), **kw)


def wedge(center, r, theta1, theta2, **kw):
    return Patch('wedge', center, (r, theta1, theta2), **kw)


def ellipse(xy, width, height, angle=0., **kw):
    return Patch('ellipse', xy, (width, height), angle, **kw)


class Axes(object):
    """Records what is drawn."""
    def __init__(self):
        self.patches, self.curves, self.labels = [], [], []
        self.level, self.flips, self.aspect = [], 0, None

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def plot(self, x, y, *a, **kw):
        self.curves.append(list(zip(list(x), list(y))))

    def axhline(self, y=0., **kw):
        self.level.append(y)

    def text(self, x, y, s, **kw):
        self.labels.append((x, y, s))

    def yaxis_inverted(self):
        return bool(self.flips % 2)

    def invert_yaxis(self):
        self.flips += 1

    def set_aspect(self, a, **kw):
        self.aspect = a

    def nothing(self, *a, **kw):
        pass
    autoscale = set_xlabel = set_ylabel = nothing


def canvas(ctx):
    """The axes to draw on, or None for new ones."""
    if ctx.symbolic:
        for name, f in (('Circle', circle), ('Wedge', wedge),
                        ('Ellipse', ellipse)):
            ctx.replace(patches, name, f)
        made = []

        def subplots(*a, **kw):
            ctx.true('one plot', a in ((), (1,), (1, 1)) and not
                     set(kw) & {'nrows', 'ncols'})
            made.append(Axes())
            made[-1].made = made
            return object(), made[-1]
        ctx.replace(plt, 'subplots', subplots)
        return Axes() if ctx.choice('axes', [0, 1]) else None
    plt.close('all')
    return plt.subplots()[1] if ctx.choice('axes', [0, 1]) else None


def drawn(ctx, ax, given):
    """Circles, ellipses, curves, labels and level lines of the axes."""
    ctx.true('the axes', given is None or ax is given)
    if ctx.symbolic and given is None:
        ctx.true('one new figure', ax.made == [ax])
    elif not ctx.symbolic:
        ctx.true('one figure', len(plt.get_fignums()) == 1 and
                 ax.figure.axes == [ax])
    ctx.true('z points down', ax.yaxis_inverted())
    out = dict(circle=[], wedge=[], ellipse=[])
    if ctx.symbolic:
        for p in ax.patches:
            out[p.kind].append((tuple(p.center), tuple(p.size), p.angle))
        out.update(curves=ax.curves, labels=ax.labels, level=ax.level)
        return out
    ctx.true('equal scales', ax.get_aspect() in ('equal', 1.0),
             repr(ax.get_aspect()))
    for p in ax.patches:
        if isinstance(p, patches.Circle):
            out['circle'].append((p.get_center(), (p.get_radius(),), 0.))
        elif isinstance(p, patches.Wedge):
            out['wedge'].append((tuple(p.center), (p.r, p.theta1, p.theta2),
                                 0.))
        elif isinstance(p, patches.Ellipse):
            out['ellipse'].append((p.get_center(), (p.get_width(),
                                                    p.get_height()), p.angle))
        else:
            ctx.true('known shape', False, repr(p))
    curves, level = [], []
    for l in ax.lines:
        x, y = [[float(a) for a in d] for d in l.get_data()]
        if l.get_transform() != ax.transData:
            level.append(y[0])
        else:
            curves.append(list(zip(x, y)))
    out.update(curves=curves, level=level, labels=[
        t.get_position() + (t.get_text(),) for t in ax.texts])
    return out


# ---------------------------------------------------------- parameter sets
class Body(object):
    """mass, mass centre, Ixx, Ixz, Izz, Iyy."""
    def __init__(self, m, x, z, Ixx, Ixz, Izz, Iyy):
        self.m, self.x, self.z = m, x, z
        self.I = [[Ixx, Ixz], [Ixz, Izz]]
        self.Iyy = Iyy


def planar(ctx, name, order):
    """Moments about principal axes turned by an angle, the lateral moment;
    tells the verifier the spectral form."""
    I1 = ctx.real(name + ' I1', lo=0.0, sample=(.3, 1.))
    I2 = ctx.real(name + ' I2', lo=0.0, sample=(1., 3.))
    t = ctx.real(name + ' turned', sample=(-1.5, 1.5))
    c, s = ctx.cos(t), ctx.sin(t)
    Ixx = I1 * c * c + I2 * s * s
    Izz = I1 * s * s + I2 * c * c
    Ixz = (I1 - I2) * c * s
    yy = ctx.real(name + ' Iyy', lo=0.0, sample=(2.8, 3.2))
    # a rigid body obeys the triangle inequality
    for a, b, k in ((I1, I2, yy), (I2, yy, I1), (yy, I1, I2)):
        ctx.assume(a + b > k)
    if ctx.symbolic:
        V = [[c, -s], [s, c]]
        w = [I1, I2]
        flip = -1 if order & 2 else 1
        if order & 1:
            w, V = w[::-1], [[flip * r[1], r[0]] for r in V]
        else:
            V = [[flip * r[0], r[1]] for r in V]
        ctx.spectral([[Ixx, Ixz], [Ixz, Izz]], w, V)
    return Ixx, Ixz, Izz, yy


def meijaard_set(ctx, body=None):
    p = {}
    for k in BENCH:
        if k[:2] in ('IB', 'IH') and k[2:] != 'yy' or k in ('IByy', 'IHyy'):
            continue
        p[k] = ctx.real(k, **dict(domain(k), **(
            dict(lo=0.0) if k[0] in 'Im' else {})))
    order = ctx.choice('eigenvectors', range(4)) if body in ('B', 'H') and \
        ctx.symbolic else 0
    for b in 'BH':
        p['I%sxx' % b], p['I%sxz' % b], p['I%szz' % b], p['I%syy' % b] = \
            planar(ctx, b, order)
    for b in 'FR':
        ctx.assume(2 * p['I%sxx' % b] > p['I%syy' % b])
        if ctx.symbolic:
            # any directions are principal
            t = ctx.real('any ' + b)
            c, s = ctx.cos(t), ctx.sin(t)
            i = p['I%sxx' % b]
            ctx.spectral([[i, 0.], [0., i]], [i, i], [[c, -s], [s, c]])
    bodies = {b: Body(p['m' + b], p['x' + b], p['z' + b], p['I%sxx' % b],
                      p['I%sxz' % b], p['I%szz' % b], p['I%syy' % b])
              for b in 'BH'}
    for b, x in (('F', p['w']), ('R', 0)):
        i = p['I%sxx' % b]
        bodies[b] = Body(p['m' + b], x, -p['r' + b], i, 0, i,
                         p['I%syy' % b])
    if ctx.choice('feedback', [False, True]):
        p.update(reals(ctx, GAINS))
        return framed(ps.Meijaard2007WithFeedbackParameterSet(p, True)), p, bodies
    return framed(ps.Meijaard2007ParameterSet(p, True)), p, bodies


def moore_set(ctx, body=None):
    p = {k: ctx.real(k, **MOORE_DOMAIN.get(k, dict(lo=0.0, sample=(.5, .6))))
         for k in MOORE}
    bodies = {}
    for b in 'DHPFR':
        x, z, t = {'F': (p['w'], -p['rF'], 0), 'R': (0, -p['rR'], 0)}.get(
            b, (p.get('x' + b), p.get('z' + b), p.get('alpha' + b)))
        m, ka, ky = p['m' + b], p['k%saa' % b], p['k%syy' % b]
        kb = p.get('k%sbb' % b, ka)
        for i, j, k in ((ka, kb, ky), (kb, ky, ka), (ky, ka, kb)):
            ctx.assume(i * i + j * j > k * k)
        # the a axis is the x axis turned by t about y (from z to x)
        c, s = (1, 0) if b in 'FR' else (ctx.cos(t), ctx.sin(t))
        A, B = m * ka * ka, m * kb * kb
        bodies[b] = Body(m, x, z, A * c * c + B * s * s, (B - A) * c * s,
                         A * s * s + B * c * c, m * ky * ky)
    return framed(ps.Moore2019ParameterSet(p)), p, bodies


MOORE_DOMAIN = dict(
    [(k, dict(sample=(-2., 2.))) for k in
     ('alphaD', 'alphaH', 'alphaP', 'xP', 'zP', 'xD', 'zD', 'xH', 'zH',
      'v')] +
    [('c', dict(sample=(-.1, .2))), ('lam', dict(sample=(-.2, .6))),
     ('w', dict(lo=0.0, sample=(.8, 1.3))), ('lP', dict(lo=0.0, sample=(
         .5, 2.)))])


def any_set(ctx, body=None):
    which = ctx.choice('set', [0, 1])
    s, p, b = (meijaard_set, moore_set)[which](
        ctx, None if body is None else body[which])
    return s, p, b, which


def pair(a, b):
    """half the way from a to b, and the middle."""
    return ([(b[i] - a[i]) / 2 for i in range(2)],
            [(b[i] + a[i]) / 2 for i in range(2)])


# ------------------------------------------------------------------ geometry
GEO = ('parameter_sets._plot_geometry_from_benchmark '
       'geometry.fundamental_geometry_plot_data '
       'parameter_sets.Meijaard2007ParameterSet.plot_geometry '
       'parameter_sets.Moore2019ParameterSet.plot_geometry')


def geometry_is(ctx, p, d, axis, circles=None):
    circles = d['circle'] if circles is None else circles
    ctx.true('two wheels', len(circles) == 2, str(len(circles)))
    want = [((0, -p['rR']), (p['rR'],)), ((p['w'], -p['rF']), (p['rF'],))]
    got = arrange(ctx, [c[:2] for c in circles], want)
    ctx.eq('wheels', got, want, scale=1.)
    ctx.eq('ground', d['level'], [0], scale=1.)
    frames = [c for c in d['curves'] if len(c) == 4]
    ctx.true('one frame', len(frames) == 1)
    R, D, E, F = frames[0]
    if arrange(ctx, [R, F], [w[0] for w in want])[0] is not R:
        R, D, E, F = F, E, D, R
    ctx.eq('ends at the wheel centres', [R, F], [
        (0, -p['rR']), (p['w'], -p['rF'])], scale=1.)
    s, c = ctx.sin(p['lam']), ctx.cos(p['lam'])

    def behind(q):          # distance from the steer axis
        return (p['w'] + p['c'] - q[0]) * c + q[1] * s
    ctx.eq('on the steer axis', [behind(D), behind(E)], [0, 0], scale=1.)
    for a, b in ((R, D), (F, E)):
        ctx.eq('offset perpendicular to the steer axis',
               (b[0] - a[0]) * s + (b[1] - a[1]) * c, 0, scale=1.)
    lines = [x for x in d['curves'] if len(x) == 2]
    if axis:
        ctx.true('one steer axis', len(lines) == 1)
        a, b = arrange(ctx, lines[0], [E, (p['w'] + p['c'], 0)])
        ctx.eq('steer axis', [behind(a), behind(b)], [0, 0], scale=1.)
        ctx.eq('starts at the front wheel', a, E, scale=1.)
        ctx.eq('ends on the ground', b, (p['w'] + p['c'], 0), scale=1.)
    else:
        ctx.true('no steer axis', not lines)


@contract('C27', GEO, samples=40, assumes=ASSUMED,
          wild=False)
def geometry(ctx):
    s, p, b, which = any_set(ctx)
    axis = ctx.choice('steer axis', [True, False])
    lam = p['lam']
    # the axis is not horizontal and the offsets do not meet it in one point
    ctx.assume(ctx.cos(lam) > 0)
    k = (p['w'] * ctx.sin(lam) + (p['rR'] - p['rF']) * ctx.cos(lam))
    ctx.assume(k * k > 1e-4)
    snap = ctx.snapshot(p)
    given = canvas(ctx)
    ax = s.plot_geometry(show_steer_axis=axis, ax=given)
    geometry_is(ctx, p, drawn(ctx, ax, given), axis)
    ctx.unchanged('parameters', snap, p)


# -------------------------------------------------------------- mass centres
def symbol_is(ctx, b, body, circles, wedges, labels):
    ctx.true(b + ' symbol', len(circles) == 1 and len(wedges) == 2)
    for c in circles + wedges:
        ctx.eq(b + ' at its mass centre', c[0], (body.x, body.z), scale=1.)
    ctx.true(b + ' label', [l[2] for l in labels] == [b], str(labels))


@contract('C27', 'parameter_sets._com_symbol '
          'parameter_sets.Meijaard2007ParameterSet.plot_mass_centers '
          'parameter_sets.Meijaard2007ParameterSet.plot_body_mass_center '
          'parameter_sets.Moore2019ParameterSet.plot_mass_centers '
          'parameter_sets.Moore2019ParameterSet.plot_body_mass_center',
          samples=40, assumes=ASSUMED)
def mass_centres(ctx):
    s, p, bodies, which = any_set(ctx)
    names = ctx.choice('bodies', [None, ['F'], 'H', ['H', 'R'], []])
    snap = ctx.snapshot(p)
    given = canvas(ctx)
    if names == 'H':
        ax = s.plot_body_mass_center('H', ax=given)
    else:
        ax = s.plot_mass_centers(bodies=names, ax=given)
    d = drawn(ctx, ax, given)
    names = s.body_labels if names is None else names
    ctx.true('all bodies', sorted(s.body_labels) == sorted(bodies))
    ctx.true('one symbol each', len(d['circle']) == len(names))
    at = [(bodies[b].x, bodies[b].z) for b in names]
    circles = by_centre(ctx, d['circle'], at)
    wedges = by_centre(ctx, d['wedge'], [c for c in at for _ in range(2)])
    labels = sorted(d['labels'], key=lambda l: (list(names) + [l[2]]).index(
        l[2]))
    for i, b in enumerate(names):
        symbol_is(ctx, b, bodies[b], circles[i:i + 1],
                  wedges[2 * i:2 * i + 2], labels[i:i + 1])
    ctx.unchanged('parameters', snap, p)


def by_centre(ctx, shapes, at):
    order = arrange(ctx, [Placed(s[0], s) for s in shapes], at)
    return [o.what for o in order]


# ------------------------------------------------------------------- inertia
def about(I, n):
    """n . I n."""
    return (I[0][0] * n[0] * n[0] + 2 * I[0][1] * n[0] * n[1] +
            I[1][1] * n[1] * n[1])


def principal_direction(ctx, label, I, e):
    Ie = [I[i][0] * e[0] + I[i][1] * e[1] for i in range(2)]
    ctx.eq(label, e[0] * Ie[1] - e[1] * Ie[0], 0, scale=1.)


def radii_are(ctx, b, body, circles, lines):
    """Half of the mass at each end of a line, or all of it along the circle,
    has the moment of the body about the perpendicular axis."""
    ctx.true(b + ' circle and two lines', len(circles) == 1 and
             [len(l) for l in lines] == [2, 2])
    (center, (r,), _), = circles
    at = (body.x, body.z)
    ctx.eq(b + ' circle', center, at, scale=1.)
    ctx.eq(b + ' lateral moment', body.m * r * r, body.Iyy)
    es = []
    for l in lines:
        e, mid = pair(*l)
        es.append(e)
        ctx.eq(b + ' line is centred', mid, at, scale=1.)
        principal_direction(ctx, b + ' line is along a principal axis',
                            body.I, e)
        l2 = e[0] * e[0] + e[1] * e[1]
        ctx.eq(b + ' moment', body.m * l2 * l2, about(body.I, (-e[1], e[0])))
    ctx.eq(b + ' lines are perpendicular',
           es[0][0] * es[1][0] + es[0][1] * es[1][1], 0, scale=1.)


def ellipse_is(ctx, b, body, ellipses):
    """View of a homogeneous ellipsoid of the same mass and inertia."""
    ctx.true(b + ' ellipse', len(ellipses) == 1)
    (center, (w, h), angle), = ellipses
    ctx.eq(b + ' ellipse centre', center, (body.x, body.z), scale=1.)
    t = angle * ctx.pi / 180
    e = (ctx.cos(t), ctx.sin(t))
    principal_direction(ctx, b + ' ellipse axis', body.I, e)
    a2, b2 = w * w / 4, h * h / 4
    Ia, Ib = about(body.I, e), about(body.I, (-e[1], e[0]))
    ctx.eq(b + ' lateral moment of the ellipsoid', body.m * (a2 + b2) / 5,
           body.Iyy)
    ctx.eq(b + ' moments of the ellipsoid', body.m * (a2 - b2) / 5, Ib - Ia,
           scale=1.)


SETS = ('Meijaard2007ParameterSet', 'Moore2019ParameterSet')


def names_of(*methods):
    return ' '.join('parameter_sets.%s.%s' % (c, m) for c in SETS
                    for m in methods)


@contract('C27', names_of('plot_body_principal_radii_of_gyration',
                          'plot_principal_radii_of_gyration') +
          ' parameter_sets.Meijaard2007ParameterSet.'
          '_planar_principal_radii_of_gyration', samples=60, assumes=ASSUMED,
          wild=False)
def radii(ctx):
    body = ctx.choice('body', ['BD', 'HH', 'FF', 'RR', 'FP'])
    s, p, bodies, which = any_set(ctx, body)
    b = body[which]
    snap = ctx.snapshot(p)
    given = canvas(ctx)
    if ctx.choice('all', [False, True]):
        ax = s.plot_principal_radii_of_gyration(bodies=[b], ax=given)
    else:
        ax = s.plot_body_principal_radii_of_gyration(b, ax=given)
    d = drawn(ctx, ax, given)
    radii_are(ctx, b, bodies[b], d['circle'], d['curves'])
    ctx.unchanged('parameters', snap, p)


@contract('C27', names_of('plot_body_principal_inertia_ellipsoid',
                          'plot_principal_inertia_ellipsoids') +
          ' parameter_sets.Meijaard2007ParameterSet.'
          '_planar_principal_radii_of_gyration', samples=60, assumes=ASSUMED,
          wild=False)
def ellipsoids(ctx):
    body = ctx.choice('body', ['BD', 'HH', 'FF', 'RR', 'FP'])
    s, p, bodies, which = any_set(ctx, body)
    b = body[which]
    snap = ctx.snapshot(p)
    given = canvas(ctx)
    if ctx.choice('all', [False, True]):
        ax = s.plot_principal_inertia_ellipsoids(bodies=[b], ax=given)
    else:
        ax = s.plot_body_principal_inertia_ellipsoid(b, ax=given)
    d = drawn(ctx, ax, given)
    ellipse_is(ctx, b, bodies[b], d['ellipse'])
    ctx.unchanged('parameters', snap, p)


@contract('C27', names_of('plot_principal_inertia_ellipsoids',
                          'plot_principal_radii_of_gyration'),
          samples=20, assumes=ASSUMED, wild=False)
def several(ctx):
    """The drawings of several bodies are those of each."""
    kind = ctx.choice('kind', ['radii_of_gyration', 'inertia_ellipsoids'])
    s, p, bodies, which = any_set(ctx)
    names = ctx.choice('bodies', [[], ['F', 'H'], ['R', 'H', 'F']])
    given = canvas(ctx)
    ax = getattr(s, 'plot_principal_' + kind)(bodies=names, ax=given)
    got = everything(drawn(ctx, ax, given))
    want = {k: [] for k in got}
    for b in names:
        given = canvas(ctx)
        ax = getattr(s, 'plot_body_principal_' + kind.replace(
            'soids', 'soid'))(b, ax=given)
        for k, v in everything(drawn(ctx, ax, given)).items():
            want[k] += v
    for k in want:
        ctx.true(k, got[k] == sorted(want[k]), '%s instead of %s' % (
            got[k], sorted(want[k])))


# -------------------------------------------------------------------- person
@contract('C27', 'parameter_sets.Moore2019ParameterSet.plot_person_diamond',
          samples=40, assumes=ASSUMED)
def person(ctx):
    """A diamond around the mass centre, wide along the a axis and long
    across it."""
    s, p, bodies = moore_set(ctx)
    cross = ctx.choice('cross', [False, True])
    given = canvas(ctx)
    ax = s.plot_person_diamond(show_cross=cross, ax=given)
    d = drawn(ctx, ax, given)
    curves = sorted(d['curves'], key=len, reverse=True)
    ctx.true('curves', [len(c) for c in curves] == [5, 2, 2][
        :3 if cross else 1], str(curves))
    q = curves[0]
    ctx.eq('closed', q[0], q[4], scale=1.)
    c, t = ctx.cos(p['alphaP']), ctx.sin(p['alphaP'])
    at = (p['xP'], p['zP'])

    def crossing(e, n):
        return e[0] * n[0] + e[1] * n[1]
    diagonals = [pair(q[0], q[2]), pair(q[1], q[3])]
    if not alike(ctx, crossing(diagonals[0][0], (t, c)), 0):
        diagonals.reverse()
    spans = []
    for (e, mid), size, n, along in zip(
            diagonals, (p['wP'], p['lP']), ((t, c), (c, -t)),
            ((c, -t), (t, c))):
        ctx.eq('centred', mid, at, scale=1.)
        spans.append(e)
        ctx.eq('direction', crossing(e, n), 0, scale=1.)
        ctx.eq('extent', 4 * crossing(e, along) ** 2, size * size)
    if cross:
        lines = [pair(*l) for l in curves[1:]]
        if not alike(ctx, crossing(lines[0][0], (spans[0][1], -spans[0][0])),
                     0):
            lines.reverse()
        for (f, mid), e in zip(lines, spans):
            ctx.eq('cross centred', mid, at, scale=1.)
            ctx.eq('cross direction', f[0] * e[1] - f[1] * e[0], 0, scale=1.)
            ctx.eq('cross extent', f[0] * f[0] + f[1] * f[1],
                   e[0] * e[0] + e[1] * e[1])


# ------------------------------------------------------------------ plot_all
def key(x):
    if isinstance(x, (list, tuple)):
        return tuple(key(y) for y in x)
    if isinstance(x, (int, float)):
        return ('n', round(float(x), 9))
    return ('s', str(x)) if isinstance(x, str) else ('o', getattr(x, 'id', 0))


def everything(d):
    return {k: sorted(key(x) for x in d[k]) for k in d}


@contract('C27', names_of('plot_all', 'plot_principal_inertia_ellipsoids',
                          'plot_principal_radii_of_gyration'),
          samples=12, assumes=ASSUMED,
          wild=False)
def all_at_once(ctx):
    """Every representation of every body, on one pair of axes."""
    s, p, bodies, which = any_set(ctx)
    ctx.assume(ctx.cos(p['lam']) > 0)
    given = canvas(ctx)
    ax = s.plot_all(ax=given)
    got = everything(drawn(ctx, ax, given))
    want = {}
    for part in ('plot_principal_radii_of_gyration',
                 'plot_principal_inertia_ellipsoids', 'plot_geometry',
                 'plot_mass_centers') + (('plot_person_diamond',) if which
                                         else ()):
        given = canvas(ctx)
        ax = getattr(s, part)(ax=given)
        for k, v in everything(drawn(ctx, ax, given)).items():
            want.setdefault(k, []).extend(v)
    for k in want:
        ctx.true(k, got[k] == sorted(want[k]), '%s instead of %s' % (
            got[k], sorted(want[k])))


@contract('C27', names_of('plot_all', 'plot_mass_centers', 'plot_geometry',
                          'plot_principal_inertia_ellipsoids',
                          'plot_principal_radii_of_gyration'),
          samples=12, assumes=ASSUMED, wild=False)
def edited(ctx):
    """The set is drawn as it is now, whatever it was when drawn before."""
    s, p, bodies, which = any_set(ctx)
    ctx.assume(ctx.cos(p['lam']) > 0)
    first = kept.FIRST
    if which:
        first = {k: sum(MOORE_DOMAIN.get(k, dict(sample=(.5, .6)))['sample'])
                 / 2 for k in MOORE}
    old = {k: first[k] for k in p}
    old = type(s)(old) if which else type(s)(old, True)
    part = ctx.choice('part', [
        'plot_all', 'plot_mass_centers', 'plot_geometry',
        'plot_principal_inertia_ellipsoids',
        'plot_principal_radii_of_gyration'] + ['plot_person_diamond'] * which)
    getattr(old, part)(ax=canvas(ctx))
    old.parameters.update(p)
    out = []
    for x in (s, old):
        given = canvas(ctx)
        ax = getattr(x, part)(ax=given)
        out.append(everything(drawn(ctx, ax, given)))
    want, got = out
    for k in want:
        ctx.true(k, got[k] == want[k], '%s instead of %s' % (got[k], want[k]))
