"""C12 steer assembly inertia."""
from vc.engine import contract, nominal
from bicycleparameters import bicycle, geometry
from contracts.c10 import rotation_y
from contracts.lib import *
from contracts import kept

FUNCS = ('main.Bicycle.steer_assembly_moment_of_inertia '
         'inertia.part_inertia_tensor inertia.parallel_axis '
         'inertia.rotate_inertia_tensor com.total_com '
         'geometry.distance_to_steer_axis geometry.point_to_line_distance')

SPLIT = {'m': (.5, 4.), 'x': (.6, 1.1), 'z': (-1., -.3), 'Ixx': (.05, .4),
         'Ixz': (-.1, .1), 'Iyy': (.05, .4), 'Izz': (.02, .2)}


def measured(ctx, split, u=False, flywheel=False):
    p = {k: ctx.real(k, **dict(domain(k), **({'u': u} if u else {})))
         for k in BENCH}
    if split:
        for b in 'GS':
            for k, s in SPLIT.items():
                d = dict(sample=s, **({'u': u} if u else {}))
                if k == 'm':
                    d['lo'] = 0.0
                name = k + b if len(k) == 1 else 'I' + b + k[1:]
                p[name] = ctx.real(name, **d)
    if flywheel:
        p['mD'] = ctx.real('mD', sample=(.5, 2.))
        p['IDxx'] = ctx.real('IDxx', sample=(.1, 1.))
        p['IDyy'] = ctx.real('IDyy', sample=(.1, 1.))
    return p


def part(p, b):
    """Mass, x, z and tensor about the mass centre."""
    xx = p['I%sxx' % b]
    if b == 'F':
        return (p['mF'], p['w'], -p['rF'],
                [[xx, 0, 0], [0, p['IFyy'], 0], [0, 0, xx]])
    xz = p['I%sxz' % b]
    return (p['m' + b], p['x' + b], p['z' + b],
            [[xx, 0, xz], [0, p['I%syy' % b], 0], [xz, 0, p['I%szz' % b]]])


def assembly(ctx, p, parts, about):
    """Sum of the parts' tensors about their common mass centre, or about the
    foot of the perpendicular from it to the steer axis, in the steer axis
    frame."""
    m = sum(q[0] for q in parts)
    R = rotation_y(ctx, p['lam'])
    if not parts:
        return [[0] * 3 for i in range(3)]
    x = sum(q[0] * q[1] for q in parts) / m
    z = sum(q[0] * q[2] for q in parts) / m
    I = madd(*[steiner(q[3], q[0], [q[1] - x, 0, q[2] - z]) for q in parts])
    I = matmul(matmul(R, I), transpose(R))
    if about:
        s, c = ctx.sin(p['lam']), ctx.cos(p['lam'])
        # position from the steer axis' ground contact, in the steer frame
        d = (x - p['w'] - p['c']) * c - z * s
        I = steiner(I, m, [d, 0, 0])
    return I


@contract('C12', FUNCS, seconds=300, samples=120)
def tensor(ctx):
    """Every choice of parts, every frame, split fork or not."""
    handlebar = ctx.choice('handlebar', [True, False])
    fork = ctx.choice('fork', [True, False])
    wheel = ctx.choice('wheel', [True, False])
    about = ctx.choice('about steer axis', [False, True])
    split = ctx.choice('split', [True, False])
    u = ctx.choice('uncertain', [False, 0.01])
    nom = ctx.choice('nominal', [False, True])
    p = measured(ctx, split, u, ctx.choice('flywheel', [False, True]))
    b = bicycle_object(p)
    snap = ctx.snapshot(p)

    def call():
        with quiet():
            return b.steer_assembly_moment_of_inertia(
                handlebar=handlebar, fork=fork, wheel=wheel,
                aboutSteerAxis=about, nominal=nom)
    if handlebar != fork and not split:
        ctx.raises('not measured', ValueError, call)
        ctx.unchanged('parameters', snap, p)
        return
    got = call()
    ctx.unchanged('parameters', snap, p)
    q = nominal(p)
    name = {(True, True): 'H', (True, False): 'G', (False, True): 'S',
            (False, False): ''}[handlebar, fork]
    parts = [part(q, k) for k in name + ('F' if wheel else '')]
    ctx.true('shape', np.shape(got) == (3, 3), str(np.shape(got)))
    if nom and not ctx.symbolic:
        ctx.true('nominal', all(isinstance(x, float)
                                for x in np.asarray(got).flat), repr(got))
    ctx.eq('tensor', got, assembly(ctx, q, parts, about), scale=1.0)


@contract('C12', FUNCS, samples=60)
def defaults(ctx):
    """By default everything about the mass centre."""
    p = measured(ctx, True)
    b = bicycle_object(p)
    with quiet():
        got = b.steer_assembly_moment_of_inertia()
    ctx.eq('tensor', got, assembly(ctx, p, [part(p, 'H'), part(p, 'F')],
                                   False), scale=1.0)


@contract('C12', FUNCS + ' bicycle.benchmark_par_to_canonical', samples=80)
def dynamics(ctx):
    """The moment about the steer axis is the I_A-lambda-lambda inside the
    canonical mass matrix of the same bicycle."""
    p = measured(ctx, ctx.choice('split', [False, True]))
    wheel = ctx.choice('wheel', [True, False])
    b = bicycle_object(dict(p))
    with quiet():
        got = b.steer_assembly_moment_of_inertia(wheel=wheel,
                                                 aboutSteerAxis=True)[2, 2]
    q = dict(p)
    s, c = ctx.sin(q['lam']), ctx.cos(q['lam'])
    if not wheel:
        # moving the wheel's mass and inertia to the rear frame
        got = got + q['mF'] * ((-q['c'] * c + q['rF'] * s) *
                               (-q['c'] * c + q['rF'] * s)) + q['IFxx']
    M = bicycle.benchmark_par_to_canonical(q)[0]
    mu = q['c'] / q['w'] * c
    every = [(q['mR'], 0, -q['rR'], q['IRxx'], 0, q['IRxx']),
             (q['mB'], q['xB'], q['zB'], q['IBxx'], q['IBxz'], q['IBzz'])]
    front = [(q['mH'], q['xH'], q['zH'], q['IHxx'], q['IHxz'], q['IHzz']),
             (q['mF'], q['w'], -q['rF'], q['IFxx'], 0, q['IFxx'])]
    Tzz = sum(k + m * x * x for m, x, z, i, j, k in every + front)
    Alz = sum(m * ((x - q['w'] - q['c']) * c - z * s) * x + j * s + k * c
              for m, x, z, i, j, k in front)
    ctx.eq('I_A lambda lambda', got,
           M[1, 1] - 2 * mu * Alz - mu * mu * Tzz, scale=1.0)


@contract('C12', 'geometry.distance_to_steer_axis '
          'geometry.point_to_line_distance')
def distance(ctx):
    """The distance is the shortest from the point to any point of the axis."""
    w, c = ctx.real('w', sample=(.8, 1.3)), ctx.real('c', sample=(.02, .15))
    lam = ctx.real('lam', sample=(-.6, .6))
    x, z = ctx.real('x', sample=(-.5, 1.5)), ctx.real('z', sample=(-2., .5))
    d = geometry.distance_to_steer_axis(w, c, lam, ctx.arr([x, 0, z]))
    u = (x - w - c) * ctx.cos(lam) - z * ctx.sin(lam)
    ctx.true('not negative', d >= 0, str(d))
    ctx.eq('square', d * d, u * u)


@contract('C12', FUNCS, samples=40)
def edited(ctx):
    """The inertia is that of the present parameters."""
    p = {k: ctx.real(k, **domain(k)) for k in BENCH}

    def about(b, **kw):
        with quiet():
            return b.steer_assembly_moment_of_inertia(**kw)
    kept.nothing_kept(ctx, kept.of_bicycle, kept.FIRST, p, [
        ('assembly', about),
        ('about the axis', lambda b: about(b, aboutSteerAxis=True)),
        ('without wheel', lambda b: about(b, wheel=False,
                                          aboutSteerAxis=True)),
        ('nominal', lambda b: about(b, nominal=True))])
