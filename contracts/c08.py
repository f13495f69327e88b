"""C08 Moore 2019 conversion."""
from vc.engine import contract
from bicycleparameters import conversions, parameter_sets
from contracts.lib import *
from contracts import kept

P19 = parameter_sets.Moore2019ParameterSet
R19 = dict(alphaD=(-1.5, 1.5), alphaH=(-1.5, 1.5), alphaP=(-1.5, 1.5),
           c=(.02, .15), g=(8., 11.), lam=(.1, .6), w=(.8, 1.3), v=(1., 9.),
           rF=(.25, .4), rR=(.25, .4), mD=(5, 20), mP=(40, 90), mH=(1, 6),
           mF=(1, 4), mR=(1, 4), xD=(.2, .6), zD=(-.8, -.3), xP=(.2, .6),
           zP=(-1.3, -.8), xH=(.7, 1.1), zH=(-.9, -.5), lP=(1.5, 2.),
           wP=(.3, .5), yD=(-.1, .1), yP=(-.1, .1), yH=(-.1, .1))
POS19 = {'mD', 'mP', 'mH', 'mF', 'mR', 'rF', 'rR', 'w'} | {
    k for k in P19.par_strings if k.startswith('k')}


def dom19(k):
    r = dict(sample=R19.get(k, (.05, .6)))
    if k in POS19:
        r['lo'] = 0.0
    return r


def moore(ctx, derived=False):
    p = {k: ctx.real(k, **dom19(k)) for k in sorted(P19.par_strings)}
    if derived:
        q = P19(dict(p))._calc_derived_params()
        for k in ('yD', 'yP', 'yH'):
            q[k] = ctx.real(k, **dom19(k))
        q.update(p)
        return q
    return p


def body(ctx, p, b):
    """Mass, mass centre and central inertia tensor of a body."""
    m = p['m' + b]
    y = p.get('y' + b, 0)
    pos = [p['x' + b], y, p['z' + b]]
    a = p['alpha' + b]
    # the first principal axis is turned by alpha about y
    s, c = ctx.sin(a), ctx.cos(a)
    e1, e2, e3 = [c, 0, -s], [0, 1, 0], [s, 0, c]
    k = [p['k%saa' % b], p['k%syy' % b], p['k%sbb' % b]]
    I = [[sum(m * k[q] * k[q] * e[i] * e[j]
              for q, e in enumerate((e1, e2, e3))) for j in range(3)]
         for i in range(3)]
    return m, pos, I


def combined(ctx, p):
    """The rigid union of the rear frame and the person."""
    bodies = [body(ctx, p, 'D'), body(ctx, p, 'P')]
    m = sum(b[0] for b in bodies)
    pos = [sum(b[0] * b[1][i] for b in bodies) / m for i in range(3)]
    I = madd(*[steiner(I, mi, [x - y for x, y in zip(c, pos)])
               for mi, c, I in bodies])
    return m, pos, I


def spec(ctx, p):
    m, pos, I = combined(ctx, p)
    _, _, H = body(ctx, p, 'H')
    r = dict(mB=m, xB=pos[0], zB=pos[2], IBxx=I[0][0], IByy=I[1][1],
             IBzz=I[2][2], IBxz=I[0][2], mH=p['mH'], xH=p['xH'], zH=p['zH'],
             IHxx=H[0][0], IHyy=H[1][1], IHzz=H[2][2], IHxz=H[0][2])
    for k in ('w', 'c', 'lam', 'g', 'v', 'rR', 'rF', 'mR', 'mF'):
        r[k] = p[k]
    for b in 'RF':
        r['I%sxx' % b] = p['m' + b] * p['k%saa' % b] * p['k%saa' % b]
        r['I%syy' % b] = p['m' + b] * p['k%syy' % b] * p['k%syy' % b]
    return r


def compare(ctx, got, want, label=''):
    for k in sorted(want):
        ctx.true(label + 'has ' + k, k in got, k + ' is missing')
        ctx.eq(label + k, got[k], want[k])


CONV = ('conversions._convert_principal_to_benchmark '
        'conversions._rotate_inertia_about_y '
        'conversions._sum_central_inertias com.total_com '
        'inertia.parallel_axis ')


@contract('C08', CONV)
def rigid_bodies(ctx):
    """With lateral mass centres as well."""
    p = moore(ctx, derived=True)
    want = spec(ctx, p)
    got = conversions._convert_principal_to_benchmark(dict(p))
    compare(ctx, got, want)
    m, pos, I = combined(ctx, p)
    if 'yB' in got:
        ctx.eq('yB', got['yB'], pos[1])
    if 'yH' in got:
        ctx.eq('yH', got['yH'], p['yH'])


@contract('C08', CONV + 'parameter_sets.Moore2019ParameterSet.'
          'to_parameterization parameter_sets.Moore2019ParameterSet.'
          '_calc_derived_params')
def required_parameters_suffice(ctx):
    p = moore(ctx)
    given = dict(p)
    s = P19(given)
    snap = ctx.snapshot(given, s.parameters)
    to = ctx.choice('to', ['Meijaard2007', 'Meijaard2007WithFeedback'])
    r = s.to_parameterization(to)
    ctx.unchanged('the set', snap, given, s.parameters)
    ctx.true('parameterization', r.parameterization == to)
    ctx.true('rider', r.includes_rider is True)
    compare(ctx, r.parameters, spec(ctx, p))
    if to != 'Meijaard2007':
        for k in GAINS:
            ctx.eq(k, r.parameters[k], 0)
    # the mass centres agree between the parameterizations
    ctx.eq('rear body', r.mass_center_of('B'), s.mass_center_of('P', 'D'))
    ctx.eq('all', r.mass_center_of('B', 'H', 'F', 'R'),
           s.mass_center_of('D', 'R', 'P', 'H', 'F'))


@contract('C08', CONV)
def principal_moments_survive(ctx):
    """Trace, determinant and orientation of the front frame and of the rear
    frame alone (a person of no extent at the mass centre of the frame)."""
    p = moore(ctx, derived=True)
    got = conversions._convert_principal_to_benchmark(dict(p))
    I = [got['IHxx'], got['IHxz'], got['IHzz']]
    m = p['mH']
    a, b = m * p['kHaa'] * p['kHaa'], m * p['kHbb'] * p['kHbb']
    ctx.eq('trace', I[0] + I[2], a + b)
    ctx.eq('determinant', I[0] * I[2] - I[1] * I[1], a * b)
    s, c = ctx.sin(p['alphaH']), ctx.cos(p['alphaH'])
    ctx.eq('principal axis', [I[0] * c - I[1] * s, I[1] * c - I[2] * s],
           [a * c, -a * s])
    ctx.eq('lateral', got['IHyy'], m * p['kHyy'] * p['kHyy'])


@contract('C08', 'parameter_sets.Moore2019ParameterSet.to_parameterization',
          samples=40)
def edited(ctx):
    """What is converted are the present parameters."""
    p = moore(ctx)
    first = {k: sum(dom19(k)['sample']) / 2 + .01 for k in p}
    kept.nothing_kept(ctx, kept.of_set('Moore2019'), first, p, [
        (k, lambda s, k=k: s.to_parameterization(k).parameters)
        for k in ('Meijaard2007', 'Meijaard2007WithFeedback')])
