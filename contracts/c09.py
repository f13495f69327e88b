"""C09 mass centres and inertia tensors of parameter sets."""
import itertools

from vc.engine import contract
from bicycleparameters import com, parameter_sets
from contracts.lib import *
from contracts import kept
from contracts.c08 import moore

M07 = 'parameter_sets.Meijaard2007ParameterSet.'
M19 = 'parameter_sets.Moore2019ParameterSet.'


def a_set(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback', 'moore'])
    if kind == 'moore':
        p = moore(ctx)
        return framed(parameter_sets.Moore2019ParameterSet(dict(p))), p, 'DFHPR'
    p = meijaard(ctx)
    if kind == 'feedback':
        p.update({k: ctx.real(k, sample=(-5., 5.)) for k in GAINS})
        return (parameter_sets.Meijaard2007WithFeedbackParameterSet(
            dict(p), False), p, 'BFHR')
    return framed(parameter_sets.Meijaard2007ParameterSet(dict(p), True)), p, 'BFHR'


def centre(p, b):
    if b == 'R':
        return [0, 0, -p['rR']]
    if b == 'F':
        return [p['w'], 0, -p['rF']]
    return [p['x' + b], 0, p['z' + b]]


def orders(labels):
    return [c for k in range(1, len(labels) + 1)
            for c in itertools.permutations(labels, k)]


@contract('C09', M07 + 'form_mass_center_vector ' + M07 +
          '_calc_derived_params ' + M19 + 'form_mass_center_vector ' + M19 +
          '_calc_derived_params')
def mass_centres(ctx):
    s, p, labels = a_set(ctx)
    ctx.true('labels', sorted(s.body_labels) == sorted(labels))
    for b in labels:
        v = s.form_mass_center_vector(b)
        ctx.true('shape', np.shape(v) == (3,), str(np.shape(v)))
        ctx.eq(b, v, centre(p, b))


@contract('C09', M07 + 'mass_center_of ' + M19 + 'mass_center_of '
          'com.total_com', samples=150)
def combined_mass_centre(ctx):
    """Every selection of bodies in every order."""
    s, p, labels = a_set(ctx)
    bodies = ctx.choice('bodies', orders(labels))
    got = s.mass_center_of(*bodies)
    m = sum(p['m' + b] for b in bodies)
    ctx.true('shape', np.shape(got) == (3,), str(np.shape(got)))
    ctx.eq('mass centre', got,
           [sum(p['m' + b] * centre(p, b)[i] for b in bodies) / m
            for i in range(3)])


@contract('C09', M07 + 'form_inertia_tensor ' + M07 + '_calc_derived_params')
def inertia_tensors(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback'])
    p = meijaard(ctx)
    if kind == 'feedback':
        p.update({k: ctx.real(k, sample=(-5., 5.)) for k in GAINS})
        s = framed(parameter_sets.Meijaard2007WithFeedbackParameterSet(dict(p), True))
    else:
        s = framed(parameter_sets.Meijaard2007ParameterSet(dict(p), True))
    for b in 'BFHR':
        I = s.form_inertia_tensor(b)
        wheel = b in 'FR'
        xz = 0 if wheel else p['I%sxz' % b]
        zz = p['I%sxx' % b] if wheel else p['I%szz' % b]
        ctx.eq(b, I, [[p['I%sxx' % b], 0, xz], [0, p['I%syy' % b], 0],
                      [xz, 0, zz]])


@contract('C09', 'com.total_com',
          assumes=['total_com: number of objects bounded by 8'])
def total_mass_centre(ctx):
    """Bounded in the number of objects."""
    n = ctx.choice('n', list(range(1, 9)))
    m = [ctx.real('m%d' % i, lo=0.0) for i in range(n)]
    x = [[ctx.real('x%d%d' % (i, k)) for k in range(n)] for i in range(3)]
    how = ctx.choice('as', ['lists', 'arrays', 'mixed'])
    cm = m if how == 'lists' else ctx.arr(m)
    cx = x if how != 'arrays' else ctx.arr(x)
    mT, cT = com.total_com(cx, cm)
    ctx.eq('mass', mT, sum(m))
    ctx.eq('mass centre', cT, [sum(a * b for a, b in zip(m, r)) / sum(m)
                               for r in x])


@contract('C09', M07 + 'form_mass_center_vector ' + M07 + 'mass_center_of ' +
          M07 + 'form_inertia_tensor ' + M19 + 'form_mass_center_vector ' +
          M19 + 'mass_center_of', samples=60)
def edited(ctx):
    """The bodies are those of the present parameters."""
    if ctx.choice('kind', ['plain', 'moore']) == 'moore':
        from contracts.c08 import dom19
        p = moore(ctx)
        first = {k: sum(dom19(k)['sample']) / 2 + .01 for k in p}
        kept.nothing_kept(ctx, kept.of_set('Moore2019'), first, p, [
            ('mass centre', lambda s: [s.form_mass_center_vector(b)
                                       for b in 'DFHPR']),
            ('together', lambda s: [s.mass_center_of('D', 'P'),
                                    s.mass_center_of('P', 'F', 'H')])])
        return
    kept.nothing_kept(
        ctx, kept.of_set('Meijaard2007', includes_rider=True), kept.FIRST,
        meijaard(ctx), [
            ('mass centre', lambda s: [s.form_mass_center_vector(b)
                                       for b in 'BFHR']),
            ('together', lambda s: [s.mass_center_of('B', 'H'),
                                    s.mass_center_of('R', 'F', 'B')]),
            ('inertia', lambda s: [s.form_inertia_tensor(b)
                                   for b in 'BFHR'])])
