"""C11 adding a rider."""
import os
import tempfile

from vc.engine import contract, nominal
from bicycleparameters import bicycle, inertia, rider, io
from contracts.lib import *

BODY = ('IBxx', 'IBxz', 'IByy', 'IBzz', 'mB', 'xB', 'zB')
SAMPLE = {'mB': (40., 100.), 'xB': (.2, .6), 'zB': (-1.3, -.8),
          'IBxx': (5., 12.), 'IByy': (5., 12.), 'IBzz': (1., 5.),
          'IBxz': (-1., 3.)}


def bike(ctx, u=False, **extra):
    p = {}
    for k in BENCH:
        d = dict(domain(k))
        if u:
            d['u'] = u
        p[k] = ctx.real(k, **d)
    return p


def person(ctx, u=False, suffix=' rider'):
    r = {}
    for k in BODY:
        d = dict(sample=SAMPLE[k])
        if k == 'mB':
            d['lo'] = 0.0
        if u:
            d['u'] = u
        r[k] = ctx.real(k + suffix, **d)
    r['yB'] = ctx.real('yB' + suffix, sample=(-.2, .2))
    return r


def tensor(p):
    return [[p['IBxx'], 0, p['IBxz']], [0, p['IByy'], 0],
            [p['IBxz'], 0, p['IBzz']]]


def combined(ctx, got, bike, rider):
    """Mass, moment and inertia of the two bodies, all else as it was."""
    bike, rider, got = nominal(bike), nominal(rider), nominal(got)
    m = bike['mB'] + rider['mB']
    ctx.eq('mass', got['mB'], m)
    at = [(p['mB'], [p['xB'], y, p['zB']], tensor(p))
          for p, y in ((bike, 0), (rider, rider['yB']))]
    c = [sum(w * x[i] for w, x, _ in at) / m for i in range(3)]
    ctx.eq('mass centre', [got['xB'], got['zB']], [c[0], c[2]])
    if 'yB' in got:
        ctx.eq('lateral position', got['yB'], 0)
    I = madd(*[steiner(i, w, [x[k] - c[k] for k in range(3)])
               for w, x, i in at])
    # the benchmark keeps the components in the plane of symmetry
    ctx.eq('inertia', tensor(got), [[I[0][0], 0, I[0][2]], [0, I[1][1], 0],
                                    [I[2][0], 0, I[2][2]]], scale=10.)
    ctx.true('keys', set(got) - {'yB'} == set(bike) - {'yB'},
             'keys %s' % sorted(set(got) ^ set(bike)))
    rest = sorted(set(bike) - set(BODY) - {'yB'})
    ctx.eq('other parameters', {k: got.get(k) for k in rest},
           {k: bike[k] for k in rest}, tol=1e-12)


COMBINE = ('inertia.combine_bike_rider com.total_com inertia.parallel_axis '
           'inertia.part_inertia_tensor ')


@contract('C11', COMBINE, samples=100)
def combine(ctx):
    u = ctx.choice('uncertain', [False, 0.01])
    extra = ctx.choice('flywheel and fork', [False, True])
    b, r = bike(ctx, u), person(ctx, ctx.choice('uncertain rider',
                                                [False, 0.01]))
    if extra:
        for k in ('mD', 'IDxx', 'mS', 'xS', 'zS', 'ISxx', 'mG', 'IGxx'):
            b[k] = ctx.real(k, sample=(.1, 2.))
    before = dict(b)
    snap = ctx.snapshot(r)
    got = inertia.combine_bike_rider(b, r)
    combined(ctx, got, before, r)
    ctx.unchanged('the rider', snap, r)


def add(b, name, **kw):
    with quiet():
        b.add_rider(name, **kw)


@contract('C11', COMBINE + 'main.Bicycle.add_rider main.Bicycle.__str__ '
          'io.load_parameter_text_file io.write_parameter_text_file',
          samples=60)
def rider_from_file(ctx):
    """The saved rider of this bicycle is used; a second request, for the
    same or another rider, changes nothing."""
    u = ctx.choice('uncertain', [False, 0.01])
    par, r = bike(ctx, u), person(ctx)
    others = [person(ctx, suffix=' other%d' % i) for i in range(2)]
    before = dict(par)
    root = tempfile.mkdtemp()
    for name, bikename, p in (('Anna', 'Bike', r), ('Bert', 'Bike', others[0]),
                              ('Anna', 'Other', others[1])):
        d = os.path.join(root, 'riders', name, 'Parameters')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, name + bikename + 'Benchmark.txt'),
                  'w') as f:
            for k in sorted(p):
                f.write('%s = %s\n' % (k, str(p[k])))
    b = bicycle_object(par, changes=True, directory=os.path.join(root, 'bicycles', 'Bike'))
    ctx.true('described', 'Bike' in str(b) and 'Anna' not in str(b), str(b))
    # the matrices follow the parameters, whatever was asked for before
    b.canonical(nominal=True)
    add(b, 'Anna')
    combined(ctx, b.parameters['Benchmark'], before, r)
    ctx.eq('matrices', b.canonical(nominal=True),
           bicycle.benchmark_par_to_canonical(
               nominal(b.parameters['Benchmark'])))
    ctx.true('one rider', b.hasRider is True and b.riderName == 'Anna',
             '%r %r' % (b.hasRider, getattr(b, 'riderName', None)))
    ctx.eq('rider parameters', nominal(b.riderPar['Benchmark']), r)
    ctx.true('described', 'Bike' in str(b) and 'Anna' in str(b), str(b))
    snap = ctx.snapshot(b.parameters, b.riderPar, b.riderName, b.hasRider)
    again = ctx.choice('second', ['Anna', 'Bert', 'Nobody'])
    for k in range(2):
        add(b, again)
        ctx.unchanged('a second rider', snap, b.parameters, b.riderPar,
                      b.riderName, b.hasRider)


class Human(object):
    """Contract of yeadon.Human as far as the inertia is concerned."""
    def __init__(self, ctx):
        self.mass = ctx.real('mass', lo=0.0, sample=(50., 100.))
        self.centre = [ctx.real('cx', sample=(-.1, .1)),
                       ctx.real('cy', sample=(-.3, .3)),
                       ctx.real('cz', sample=(0., .6))]
        self.I = sym_tensor(ctx, 'human', ('xx', 'xy', 'xz', 'yy', 'yz',
                                           'zz'), sample=(1., 3.))
        self.ctx = ctx

    @property
    def center_of_mass(self):
        return self.ctx.arr([[x] for x in self.centre])

    def inertia_transformed(self, pos=None, rotmat=None):
        R = [[float(x) for x in r] for r in np.asarray(rotmat)]
        return self.ctx.arr(matmul(matmul(R, self.I), transpose(R)))


@contract('C11', COMBINE + 'rider.configure_rider '
          'rider.yeadon_vec_to_bicycle_vec main.Bicycle.add_rider',
          samples=60, assumes=[
              'yeadon.Human.inertia_transformed(rotmat=R) is R I R^T about '
              'the mass centre; rider_on_bike returns a configured Human'])
def rider_from_human(ctx):
    """The human's inertia, turned into the bicycle's axes (x forward is
    minus Yeadon's y, y right is minus x, z down is minus z)."""
    par = bike(ctx)
    how = ctx.choice('how', ['configure', 'no file', 'recalculate', 'draw'])
    draw = how == 'draw' or ctx.choice('drawn', [False, True])
    meas = {'hbb': ctx.real('hbb', sample=(.25, .32)),
            'lcs': ctx.real('lcs', sample=(.42, .48)),
            'lsp': ctx.real('lsp', sample=(.1, .3)),
            'lst': ctx.real('lst', sample=(.4, .6)),
            'lamst': ctx.real('lamst', sample=(1.2, 1.4))}
    # the bottom bracket is closer than a chain stay below the wheel centre
    ctx.assume(meas['lcs'] > 0)
    d = meas['lcs'] * meas['lcs'] - (par['rR'] - meas['hbb']) ** 2
    ctx.assume(d > 0)
    h = Human(ctx)
    before = dict(par)
    seen = []

    def on_bike(bench, measured, meas_file, cfg_file, draw):
        seen.append((dict(bench), dict(measured), meas_file, cfg_file, draw))
        return h
    ctx.replace(rider, 'rider_on_bike', on_bike)
    root = tempfile.mkdtemp()
    here = os.path.join(root, 'riders', 'Anna')
    if how in ('recalculate', 'draw'):
        # a saved rider, of another time
        saved = os.path.join(here, 'Parameters')
        os.makedirs(saved)
        with open(os.path.join(saved, 'AnnaBikeBenchmark.txt'), 'w') as f:
            for k in BODY + ('yB',):
                f.write('%s = 1.0\n' % k)
    with quiet():
        if how == 'configure':
            r, human, got = rider.configure_rider(here, 'Bike', par, meas,
                                                  draw)
        else:
            b = bicycle_object(par, changes=True, directory=os.path.join(
                root, 'bicycles', 'Bike'))
            b.parameters['Measured'] = meas
            b.add_rider('Anna', reCalc=how == 'recalculate', draw=draw)
            r, human, got = (b.riderPar['Benchmark'], b.human,
                             b.parameters['Benchmark'])
            ctx.true('has a rider', b.hasRider is True and
                     b.riderName == 'Anna')
    ctx.true('human', human is h)
    ctx.true('files', [os.path.realpath(x) for x in seen[0][2:4]] == [
        os.path.realpath(os.path.join(here, 'RawData', n)) for n in
        ('AnnaYeadonMeas.txt', 'AnnaBikeYeadonCFG.txt')], str(seen[0][2:]))
    ctx.true('drawn', len(seen) == 1 and seen[0][4] is draw)
    R = [[0, -1, 0], [-1, 0, 0], [0, 0, -1]]
    I = matmul(matmul(R, h.I), transpose(R))
    s, c = ctx.sin(meas['lamst']), ctx.cos(meas['lamst'])
    seat = meas['lsp'] + meas['lst']
    # bottom bracket, then up along the seat tube
    x = ctx.sqrt(d) - seat * c
    z = -meas['hbb'] - seat * s
    want = {'mB': h.mass, 'xB': x - h.centre[1], 'yB': -h.centre[0], 'zB':
            z - h.centre[2], 'IBxx': I[0][0], 'IByy': I[1][1],
            'IBzz': I[2][2], 'IBxz': I[0][2]}
    ctx.eq('rider', nominal(r), want)
    combined(ctx, got, before, want)
