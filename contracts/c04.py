"""C04 frames: evaluation changes nothing."""
import warnings

from vc.engine import contract
from bicycleparameters import bicycle, models, parameter_sets, inertia, com
from bicycleparameters import geometry, conversions
from contracts.lib import *
from contracts.c02 import canonical_stub, matrix
from contracts.c03 import model, lean_model, lean_domain
from contracts.c08 import moore

OPS = ['canonical', 'state space', 'eigen', 'left eigen', 'simulate',
       'modes']
CALLS = ('models._Model._parse_parameter_overrides '
         'models.Meijaard2007Model.form_reduced_canonical_matrices '
         'models.Meijaard2007Model.form_state_space_matrices '
         'models.Meijaard2007WithFeedbackModel.form_state_space_matrices '
         'models._Model.calc_eigen models._Model.simulate '
         'models._Model.simulate_modes ')


def call(op, m, kw, x0=None):
    if op == 'canonical':
        return m.form_reduced_canonical_matrices(**kw)
    if op == 'state space':
        return m.form_state_space_matrices(**kw)
    if op == 'eigen':
        return m.calc_eigen(**kw)
    if op == 'left eigen':
        return m.calc_eigen(left=True, **kw)
    if op == 'modes':
        return m.simulate_modes([0.0, 0.05, 0.1], **kw)
    return m.simulate([0.0, 0.05, 0.1], x0, **kw)


def overrides_for(ctx, kind, op, tag, dom):
    how = ctx.choice('overrides ' + tag, ['none', 'scalar', 'array'])
    n = ctx.length('n' + tag)
    if how == 'none':
        return {}, False
    if how == 'scalar' or op in ('simulate', 'modes'):
        return {'v': ctx.real('v' + tag, **dom('v')),
                'g': ctx.real('g' + tag, **dom('g'))}, False
    keys = ['v'] if kind == 'lean' else ['v', 'mB', 'lam']
    if kind == 'feedback':
        keys.append('kTdel_phi')
    return {k: ctx.array(k + tag, n, **dom(k)) for k in keys}, True


def entries(ctx, r, many):
    """Results at a generic index of the override arrays."""
    out = []
    for x in r if isinstance(r, tuple) else [r]:
        out.append(x)
    return out


def same_results(ctx, label, a, b, op, many):
    tol = 1e-6 if op in ('simulate', 'modes') else None
    for x, y in zip(a if isinstance(a, tuple) else [a],
                    b if isinstance(b, tuple) else [b]):
        if many and hasattr(x, 'fn'):
            for j in ctx.index(x.shape[0]):
                ctx.eq(label, x[j], y[j])
        else:
            ctx.eq(label, x, y, tol=tol)


@contract('C04', CALLS, samples=120)
def any_two_calls(ctx):
    """A call, another call with other overrides, the first call again."""
    canonical_stub(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback'])
    m, p = model(ctx, kind)
    first = ctx.choice('first', OPS)
    second = ctx.choice('second', OPS)
    kw1, many = overrides_for(ctx, kind, first, '1', domain)
    kw2, _ = overrides_for(ctx, kind, second, '2', domain)
    x0 = [ctx.real('x0%d' % i, sample=(-.3, .3)) for i in range(4)]
    if ctx.choice('as', ['list', 'array']) == 'array':
        x0 = ctx.arr(x0)
    ivp = Ivp(ctx)
    state = Attributes(m.parameter_set)
    snap = ctx.snapshot(state(), x0, kw1, kw2)
    r1 = call(first, m, kw1, x0)
    ctx.unchanged('after one call', snap, state(), x0, kw1,
                  kw2)
    call(second, m, kw2, x0)
    ctx.unchanged('after another call', snap, state(), x0,
                  kw1, kw2)
    del ivp.calls[:]
    r2 = call(first, m, kw1, x0)
    ctx.unchanged('after the same call', snap, state(), x0,
                  kw1, kw2)
    if not ctx.symbolic or first not in ('simulate', 'modes'):
        same_results(ctx, 'same answer', r2, r1, first, many)
    ctx.eq('parameters', [m.parameter_set.parameters[k] for k in sorted(p)],
           [p[k] for k in sorted(p)])


@contract('C04', CALLS, samples=60,
          wild=False)
def two_models(ctx):
    """A model is not affected by what was asked of another one."""
    canonical_stub(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback'])
    op = ctx.choice('op', OPS[:4])
    m1, p1 = model(ctx, kind)
    p2 = {k: ctx.real(k + "'", **domain(k)) for k in sorted(p1)}
    m2 = type(m1)(type(m1.parameter_set)(dict(p2), True))
    call(op, m1, {})
    got = call(op, m2, {})
    M, C1, K0, K2 = bicycle.benchmark_par_to_canonical(dict(p2))
    if op == 'canonical':
        same_results(ctx, 'second model', got, (M, C1, K0, K2), op, False)
        return
    A, B = bicycle.ab_matrix(M, C1, K0, K2, p2['v'], p2['g'])
    if kind == 'feedback':
        A = A - B.dot(ctx.arr([[p2[k] for k in GAINS[:4]],
                               [p2[k] for k in GAINS[4:]]]))
    if op == 'state space':
        same_results(ctx, 'second model', got, (A, B), op, False)
    else:
        eigenpairs(ctx, 'second model', A.T if op == 'left eigen' else A,
                   *got)


@contract('C04', 'models.MooreRiderLean2012Model.form_state_space_matrices '
          'models.MooreRiderLean2012Model.simulate models._Model.calc_eigen',
          samples=10,
          wild=False)
def rider_lean(ctx):
    m, p = lean_model(ctx)
    first = ctx.choice('first', OPS[1:4] + OPS[4:5])
    second = ctx.choice('second', ['state space', 'simulate'])
    kw1, many = overrides_for(ctx, 'lean', first, '1', lean_domain)
    kw2, _ = overrides_for(ctx, 'lean', second, '2', lean_domain)
    x0 = [ctx.real('x0%d' % i, sample=(-.1, .1)) for i in range(12)]
    if first == 'simulate' or second == 'simulate':
        x0 = ctx.arr(x0)
    ivp = Ivp(ctx)
    state = Attributes(m.parameter_set)
    snap = ctx.snapshot(state(), x0, kw1, kw2)
    r1 = call(first, m, kw1, x0)
    call(second, m, kw2, x0)
    r2 = call(first, m, kw1, x0)
    ctx.unchanged('after three calls', snap, state(), x0,
                  kw1, kw2)
    if not ctx.symbolic or first != 'simulate':
        same_results(ctx, 'same answer', r2, r1, first, many)


UNKNOWN = ['foo', 'V', 'lambda', 'IFzz', 'IRzz', 'yB', 'mD', 'kTdel', '',
           'parameter_set']


@contract('C04', CALLS, samples=80,
          wild=False)
def unknown_overrides(ctx):
    """Ignored with a warning."""
    canonical_stub(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    m, p = lean_model(ctx) if kind == 'lean' else model(ctx, kind)
    dom = lean_domain if kind == 'lean' else domain
    op = ctx.choice('op', OPS[1:4] if kind == 'lean' else OPS[:4])
    name = ctx.choice('name', UNKNOWN + (['kTdel_phi'] if kind == 'plain'
                                         else []))
    n = ctx.length('n')
    if ctx.choice('array', [False, True]):
        val = ctx.array('unknown', n)
    else:
        val = ctx.real('unknown')
    kw = {'v': ctx.real('v?', **dom('v'))} if ctx.choice(
        'known', [False, True]) else {}
    snap = ctx.snapshot(m.parameter_set.parameters)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        got = call(op, m, dict(kw, **{name: val}))
    ctx.true('warning', any(name in str(w.message) for w in caught),
             'no warning names %r' % name)
    ctx.unchanged('parameters', snap, m.parameter_set.parameters)
    same_results(ctx, 'ignored', got, call(op, m, kw), op, False)


@contract('C04', CALLS, samples=80,
          wild=False)
def unequal_lengths(ctx):
    canonical_stub(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    m, p = lean_model(ctx) if kind == 'lean' else model(ctx, kind)
    dom = lean_domain if kind == 'lean' else domain
    op = ctx.choice('op', OPS[1:4] if kind == 'lean' else OPS)
    keys = {'plain': ['v', 'g', 'mB', 'lam', 'IHxx'],
            'feedback': ['v', 'kTdel_phi', 'kTphi_deld', 'mH', 'g'],
            'lean': ['v', 'rr', 'd1', 'mc', 'g']}[kind]
    # the lengths of three arrays in a row: the last one or two differ
    a, b = ctx.choice('keys', [(x, y) for x in keys for y in keys if x != y])
    third = [k for k in keys if k not in (a, b)][0]
    n, k = ctx.length('n', 1, 3), ctx.length('m', 1, 3)
    ctx.assume(n != k)
    mid = ctx.choice('third', ['none', 'before', 'after'])
    kw = {}
    if mid == 'before':
        kw[third] = ctx.array(third + '!', n, **dom(third))
    kw[a] = ctx.array(a + '!', n, **dom(a))
    kw[b] = ctx.array(b + '!', k, **dom(b))
    if mid == 'after':
        kw[third] = ctx.array(third + '!', k, **dom(third))
    snap = ctx.snapshot(m.parameter_set.parameters)
    ctx.raises('unequal lengths', ValueError, call, op, m, kw,
               [0.] * (12 if kind == 'lean' else 4))
    ctx.unchanged('parameters', snap, m.parameter_set.parameters)


@contract('C04', 'main.Bicycle.canonical main.Bicycle.state_space '
          'main.Bicycle.eig io.remove_uncertainties '
          'bicycle.benchmark_par_to_canonical', samples=60)
def measured_bicycle(ctx):
    """Without a stub: the canonical matrices must not touch the stored
    parameters either, of which some are not used by them."""
    p = {k: ctx.real(k, u=0.01, **domain(k)) for k in BENCH + ['yB', 'yH']
         if k != 'v'}
    b = bicycle_object(p, parameters={'Benchmark': p,
                                      'Measured': {'a': 1.0}})
    ops = {'canonical': lambda: b.canonical(),
           'nominal': lambda: b.canonical(nominal=True),
           'state space': lambda: b.state_space(v),
           'nominal state space': lambda: b.state_space(v, nominal=True),
           'eig': lambda: b.eig([v]),
           'eig float': lambda: b.eig(5.0)}
    v = ctx.real('speed', sample=(0., 9.))
    first = ctx.choice('first', sorted(ops))
    second = ctx.choice('second', sorted(ops))
    state = Attributes(b)
    snap = ctx.snapshot(state())
    r1 = ops[first]()
    ctx.unchanged('after one call', snap, state())
    ops[second]()
    r2 = ops[first]()
    ctx.unchanged('after three calls', snap, state())
    from vc.engine import nominal
    for x, y in zip(r1, r2):
        ctx.eq('same answer', nominal(np.asarray(y)),
               nominal(np.asarray(x)))


@contract('C04', 'bicycle.benchmark_par_to_canonical bicycle.ab_matrix '
          'inertia.parallel_axis inertia.rotate_inertia_tensor '
          'inertia.principal_axes inertia.part_inertia_tensor '
          'com.total_com conversions._convert_principal_to_benchmark '
          'conversions._rotate_inertia_about_y '
          'conversions._sum_central_inertias '
          'geometry.project_point_on_line geometry.point_to_line_distance '
          'geometry.fundamental_geometry_plot_data', samples=80)
def plain_functions(ctx):
    which = ctx.choice('function', [
        'canonical', 'ab', 'parallel_axis', 'rotate', 'principal',
        'part tensor', 'total_com', 'convert', 'rotate_y', 'sum',
        'project', 'distance', 'plot data'])
    bm = meijaard(ctx)

    def tensor(name='I'):
        return ctx.arr(sym_tensor(ctx, name))

    def vec(name, n=3):
        return ctx.arr([ctx.real('%s%d' % (name, i)) for i in range(n)])
    if which == 'canonical':
        args = [dict(bm, IFzz=bm['IFxx'], extra=1.0)]
        f = bicycle.benchmark_par_to_canonical
    elif which == 'ab':
        M = matrix(ctx, 'M')
        ctx.assume(M[0][0] * M[1][1] - M[0][1] * M[1][0] != 0)
        args = [ctx.arr(M)] + [ctx.arr(matrix(ctx, n))
                               for n in ('C1', 'K0', 'K2')]
        args += [bm['v'], bm['g']]
        f = bicycle.ab_matrix
    elif which == 'parallel_axis':
        args, f = [tensor(), bm['mB'], vec('d')], inertia.parallel_axis
    elif which == 'rotate':
        args, f = [tensor(), bm['lam']], inertia.rotate_inertia_tensor
    elif which == 'principal':
        I = tensor()
        ctx.spectral(I, vec('w'), [vec('V%d' % i) for i in range(3)])
        args, f = [I], inertia.principal_axes
    elif which == 'part tensor':
        args, f = [dict(bm), 'B'], inertia.part_inertia_tensor
    elif which == 'total_com':
        args = [ctx.arr([vec('x'), vec('y'), vec('z')]),
                ctx.arr([bm['mB'], bm['mH'], bm['mF']])]
        f = com.total_com
    elif which == 'convert':
        args = [moore(ctx, derived=True)]
        f = conversions._convert_principal_to_benchmark
    elif which == 'rotate_y':
        args = [tensor(), bm['lam']]
        f = conversions._rotate_inertia_about_y
    elif which == 'sum':
        args = [bm['mB'], vec('c'), tensor('I'), bm['mH'], vec('d'),
                tensor('J')]
        f = conversions._sum_central_inertias
    elif which == 'project':
        args = [ctx.arr([vec('a', 2), vec('b', 2)]), vec('p', 2)]
        ctx.assume((args[0][0][0] - args[0][1][0]) != 0)
        f = geometry.project_point_on_line
    elif which == 'distance':
        pts = ctx.arr([vec('a'), vec('b')]).T
        ctx.assume(pts[0][0] != pts[0][1])
        args, f = [vec('p'), pts], geometry.point_to_line_distance
    else:
        # the axis data needs the tilt to be between 0 and 90 degrees
        args = [dict(bm)]
        f = geometry.fundamental_geometry_plot_data
    snap = ctx.snapshot(args)
    f(*args)
    ctx.unchanged('arguments', snap, args)


@contract('C04', 'parameter_sets.Meijaard2007ParameterSet.'
          'to_parameterization parameter_sets.Moore2019ParameterSet.'
          'to_parameterization parameter_sets.Meijaard2007ParameterSet.'
          'mass_center_of parameter_sets.Meijaard2007ParameterSet.'
          'form_inertia_tensor parameter_sets.Moore2019ParameterSet.'
          'mass_center_of', samples=80)
def parameter_set_methods(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback', 'moore'])
    if kind == 'moore':
        p = moore(ctx)
        s = parameter_sets.Moore2019ParameterSet(p)
        ops = {'to': lambda: s.to_parameterization('Meijaard2007'),
               'to feedback': lambda: s.to_parameterization(
                   'Meijaard2007WithFeedback'),
               'self': lambda: s.to_parameterization('Moore2019'),
               'com': lambda: s.mass_center_of('P', 'D', 'H')}
    else:
        m, p = model(ctx, kind)
        s = m.parameter_set
        p = s.parameters
        ops = {'to feedback': lambda: s.to_parameterization(
                   'Meijaard2007WithFeedback'),
               'com': lambda: s.mass_center_of('B', 'H', 'F'),
               'vector': lambda: s.form_mass_center_vector('R'),
               'tensor': lambda: s.form_inertia_tensor('H'),
               'model': lambda: models.Meijaard2007WithFeedbackModel(s),
               'radii': lambda: s._planar_principal_radii_of_gyration('H')}
    op = ctx.choice('op', sorted(ops))
    if op == 'radii' and ctx.symbolic:
        op = 'tensor'
    state = Attributes(s)
    snap = ctx.snapshot(state(), p)
    r = ops[op]()
    ctx.unchanged('parameter set', snap, state(), p)
    if op.startswith('to') and r is not s:
        # the converted set has its own parameters
        r.parameters['w'] = -1.0
        ctx.unchanged('separate parameters', snap, state(), p)
