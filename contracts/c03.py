"""C03 array valued overrides."""
from vc.engine import contract
import dtk.bicycle
from bicycleparameters import bicycle, models, parameter_sets
from contracts.lib import *

PARSE = 'models._Model._parse_parameter_overrides '
BASE = sorted(BENCH)
FEED = BASE + GAINS


def model(ctx, kind):
    p = meijaard(ctx)
    if kind == 'feedback':
        p.update({k: ctx.real(k, sample=(-5., 5.)) for k in GAINS})
        s = parameter_sets.Meijaard2007WithFeedbackParameterSet(p, True)
        return models.Meijaard2007WithFeedbackModel(framed(s, p=p)), p
    s = parameter_sets.Meijaard2007ParameterSet(p, True)
    return models.Meijaard2007Model(framed(s, p=p)), p


def subsets(keys):
    """No key, every single key, every pair and all keys."""
    out = [tuple(keys), tuple(k for k in keys if k not in 'vg'), ('v', 'g')]
    out += [(k,) for k in keys]
    return out


def overrides(ctx, arrays, scalars, n):
    """The overrides and what they are at index j."""
    arr = {k: ctx.array(k + '!', n, **domain(k)) for k in arrays}
    sca = {k: ctx.real(k + '?', **domain(k)) for k in scalars}

    def at(j):
        r = {k: a[j] for k, a in arr.items()}
        r.update(sca)
        return r
    return dict(arr, **sca), at


def entry(x, j):
    """Entry j of a result, or the one result shared by all entries."""
    return x[j] if len(x.shape) == 3 else x


def compare(ctx, m, kw, at, n, quantity, has_speed):
    if quantity == 'canonical':
        got = m.form_reduced_canonical_matrices(**kw)
        for j in ctx.index(n):
            want = m.form_reduced_canonical_matrices(**at(j))
            for name, a, b in zip(('M', 'C1', 'K0', 'K2'), got, want):
                ctx.eq(name, entry(a, j), b)
    elif quantity == 'state space':
        got = m.form_state_space_matrices(**kw)
        for name, a in zip('AB', got):
            ctx.true(name + ' is stacked', len(a.shape) == 3,
                     'shape %s' % (a.shape,))
            ctx.eq(name + ' length', a.shape[0], n)
        for j in ctx.index(n):
            want = m.form_state_space_matrices(**at(j))
            for name, a, b in zip('AB', got, want):
                ctx.eq(name, a[j], b)
    else:
        left = quantity == 'left eigen'
        w, V = m.calc_eigen(left=left, **kw)
        for j in ctx.index(n):
            A, _ = m.form_state_space_matrices(**at(j))
            eigenpairs(ctx, 'eigen', np.transpose(A) if left else A, w[j],
                       V[j])
            w1, V1 = m.calc_eigen(left=left, **at(j))
            eigenpairs(ctx, 'scalar eigen', np.transpose(A) if left else A,
                       w1, V1)


def check(ctx, kind, quantities):
    keys = FEED if kind == 'feedback' else BASE
    which = ctx.choice('arrays', subsets(keys))
    quantity = ctx.choice('quantity', quantities)
    m, p = model(ctx, kind)
    n = ctx.length('n', long=130)
    # the remaining overrides are scalars: none, or two of them
    rest = [k for k in ('v', 'lam', 'g', 'mB', 'kTdel_phi') if k in keys and
            k not in which]
    scalars = ctx.choice('scalars', [0, 2])
    kw, at = overrides(ctx, which, rest[:scalars], n)
    compare(ctx, m, kw, at, n, quantity, True)


@contract('C03', PARSE + 'models.Meijaard2007Model.'
          'form_reduced_canonical_matrices models.Meijaard2007Model.'
          'form_state_space_matrices', samples=150)
def whipple_model(ctx):
    check(ctx, 'plain', ['canonical', 'state space'])


@contract('C03', PARSE + 'models._Model.calc_eigen', samples=120)
def whipple_eigen(ctx):
    check(ctx, 'plain', ['eigen', 'left eigen'])


@contract('C03', PARSE + 'models.Meijaard2007WithFeedbackModel.'
          'form_state_space_matrices', samples=200)
def feedback_model(ctx):
    check(ctx, 'feedback', ['canonical', 'state space'])


@contract('C03', PARSE + 'models._Model.calc_eigen '
          'models.Meijaard2007WithFeedbackModel.form_state_space_matrices',
          samples=120)
def feedback_eigen(ctx):
    check(ctx, 'feedback', ['eigen', 'left eigen'])


def pairs(keys):
    return [(a, b) for i, a in enumerate(keys) for b in keys[i + 1:]]


@contract('C03', PARSE + 'models.Meijaard2007WithFeedbackModel.'
          'form_state_space_matrices', seconds=200, samples=150)
def feedback_pairs(ctx):
    """Every pair of arrays, in both orders of the keyword arguments."""
    a, b = ctx.choice('arrays', pairs(FEED))
    order = ctx.choice('order', [False, True])
    m, p = model(ctx, 'feedback')
    n = ctx.length('n', long=130)
    kw, at = overrides(ctx, (b, a) if order else (a, b), (), n)
    compare(ctx, m, kw, at, n, 'state space', True)


@contract('C03', PARSE + 'models.Meijaard2007Model.form_state_space_matrices',
          seconds=200, samples=150)
def whipple_pairs(ctx):
    a, b = ctx.choice('arrays', pairs(BASE))
    order = ctx.choice('order', [False, True])
    m, p = model(ctx, 'plain')
    n = ctx.length('n', long=130)
    kw, at = overrides(ctx, (b, a) if order else (a, b), (), n)
    compare(ctx, m, kw, at, n, 'state space', True)


@contract('C03', PARSE, samples=80)
def scalar_override_is_a_changed_set(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback'])
    keys = FEED if kind == 'feedback' else BASE
    which = ctx.choice('override', [(k,) for k in keys] + [tuple(keys)])
    m, p = model(ctx, kind)
    kw = {k: ctx.real(k + '?', **domain(k)) for k in which}
    m2 = type(m)(type(m.parameter_set)(dict(p, **kw), True))
    for name, a, b in zip(('M', 'C1', 'K0', 'K2'),
                          m.form_reduced_canonical_matrices(**kw),
                          m2.form_reduced_canonical_matrices()):
        ctx.eq(name, a, b)
    A, B = m.form_state_space_matrices(**kw)
    A2, B2 = m2.form_state_space_matrices()
    ctx.eq('A', A, A2)
    ctx.eq('B', B, B2)
    w, V = m.calc_eigen(**kw)
    eigenpairs(ctx, 'eigen', A2, w, V)


# ------------------------------------------------------------- rider lean
LEAN = sorted(parameter_sets.MooreRiderLean2012ParameterSet.par_strings)
# the order in which the generated function takes the constants
LEAN_ORDER = [k for k in
              'c9 d1 d2 d3 d4 g ic11 ic22 ic31 ic33 id11 id22 ie11 ie22 ie31 '
              'ie33 if11 if22 ig11 ig22 ig31 ig33 k9 l1 l2 l3 l4 l5 l6 mc md '
              'me mf mg rf rr'.split()]


def lean_domain(k):
    from bicycleparameters.parameter_dicts import \
        mooreriderlean2012_browser_jason as d
    x = float(d[k])
    r = dict(sample=tuple(sorted((0.95 * x, 1.05 * x))))
    if not x:
        r['sample'] = -2., 30.
    if k in ('rf', 'rr'):
        r['lo'] = 0.0
    return r


def lean_model(ctx):
    p = {k: ctx.real(k, **lean_domain(k)) for k in LEAN}
    m = models.MooreRiderLean2012Model(
        framed(parameter_sets.MooreRiderLean2012ParameterSet(p)))
    if ctx.symbolic:
        # contracts of the two callees: functions of their arguments
        from vc import sym
        m._eval_linear = EvalLinear(13, 4)
        ctx.note_stub('eval_linear')

        def pitch(*a, **k):
            return sym.uf('pitch', *[sym.must(x) for x in a])
        ctx.replace(dtk.bicycle, 'pitch_from_roll_and_steer', pitch)
        ctx.note_stub('pitch_from_roll_and_steer')
    return m, p


class EvalLinear(object):
    """Contract of the generated linearisation: some function of its
    arguments."""
    def __init__(self, n, k):
        self.n, self.k = n, k

    def __call__(self, q, u, r, p):
        from vc import sym
        key = [sym.must(x) for a in (q, u, r, p) for x in np.ravel(a)]

        def mat(name, n, k):
            return np.array([[sym.uf('%s[%d,%d]' % (name, i, j), *key)
                              for j in range(k)] for i in range(n)],
                            dtype=object)
        return (mat('A', self.n, self.n), mat('B', self.n, self.k),
                mat('C', self.n, self.n), mat('D', self.n, self.k))


def lean_spec(ctx, m, p):
    """The linearisation at the upright steady state: pitch from the
    geometry, rear wheel rate -v / rr; without pitch and rear wheel torque."""
    q = np.array([0.] * 9, dtype=object if ctx.symbolic else float)
    u = np.array([0.] * 4, dtype=object if ctx.symbolic else float)
    r = np.array([0.] * 4, dtype=object if ctx.symbolic else float)
    f = models.pitch_from_roll_and_steer
    q[4] = f(q[3], q[6], p['rf'], p['rr'], p['d1'], p['d2'], p['d3'])
    u[1] = -p['v'] / p['rr']
    A, B, _, _ = m._eval_linear(q, u, r, ctx.arr([p[k] for k in LEAN_ORDER]))
    keep = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12]
    return A[np.ix_(keep, keep)], B[np.ix_(keep, [0, 2, 3])]


@contract('C03', PARSE + 'models.MooreRiderLean2012Model.'
          'form_state_space_matrices', samples=25, numeric_seconds=50,
          wild=False)
def rider_lean_model(ctx):
    which = ctx.choice('arrays', [()] + subsets(LEAN))
    scalars = ctx.choice('scalars', [0, 2])
    m, p = lean_model(ctx)
    rest = [k for k in ('v', 'd1', 'rr') if k not in which]
    n = ctx.length('n', 1, 3) if which else 1
    arr = {k: ctx.array(k + '!', n, **lean_domain(k)) for k in which}
    sca = {k: ctx.real(k + '?', **lean_domain(k)) for k in rest[:scalars]}
    A, B = m.form_state_space_matrices(**dict(arr, **sca))
    for j in ctx.index(n):
        now = dict(p, **sca)
        now.update({k: a[j] for k, a in arr.items()})
        A2, B2 = lean_spec(ctx, m, now)
        ctx.eq('A', A[j] if which else A, A2)
        ctx.eq('B', B[j] if which else B, B2)


@contract('C03', PARSE + 'models.MooreRiderLean2012Model.'
          'form_state_space_matrices', samples=15, numeric_seconds=50,
          wild=False)
def rider_lean_pairs(ctx):
    a, b = ctx.choice('arrays', pairs(['v', 'g', 'rr', 'rf', 'd1', 'mc', 'mg',
                                       'k9']))
    order = ctx.choice('order', [False, True])
    m, p = lean_model(ctx)
    n = ctx.length('n', 1, 3)
    arr = {k: ctx.array(k + '!', n, **lean_domain(k))
           for k in ((b, a) if order else (a, b))}
    A, B = m.form_state_space_matrices(**arr)
    for j in ctx.index(n):
        now = dict(p, **{k: x[j] for k, x in arr.items()})
        A2, B2 = lean_spec(ctx, m, now)
        ctx.eq('A', A[j], A2)
        ctx.eq('B', B[j], B2)
