"""C02 state matrices."""
from vc.engine import contract
from bicycleparameters import bicycle, models, parameter_sets
from contracts.lib import *
from contracts import kept

AB = 'bicycle.ab_matrix'


def first_order_form(ctx, A, B, M, C1, K0, K2, v, g, label=''):
    """x' = A x + B u is M q'' + v C1 q' + (g K0 + v^2 K2) q = u."""
    ctx.true(label + 'shapes', np.shape(A) == (4, 4) and
             np.shape(B) == (4, 2), '%s %s' % (np.shape(A), np.shape(B)))
    A = [[A[i, j] for j in range(4)] for i in range(4)]
    B = [[B[i, j] for j in range(2)] for i in range(4)]
    ctx.eq(label + "q' rows of A", A[:2], [[0, 0, 1, 0], [0, 0, 0, 1]])
    ctx.eq(label + "q' rows of B", B[:2], [[0, 0], [0, 0]])
    K = madd(scale(K0, g), scale(K2, v * v))
    big = (1 + max(abs(float(x)) for r in K + scale(C1, v) for x in r)) \
        if not ctx.symbolic else None
    ctx.eq(label + 'M B', matmul(M, B[2:]), [[1, 0], [0, 1]])
    ctx.eq(label + 'M A stiffness', matmul(M, [r[:2] for r in A[2:]]),
           scale(K, -1), scale=big, tol=1e-6)
    ctx.eq(label + 'M A damping', matmul(M, [r[2:] for r in A[2:]]),
           scale(C1, -v), scale=big, tol=1e-6)


def matrix(ctx, name, n=2, m=2):
    return [[ctx.real('%s[%d,%d]' % (name, i, j)) for j in range(m)]
            for i in range(n)]


def lists(M):
    from vc.engine import nominal
    return [[nominal(M[i, j]) for j in range(2)] for i in range(2)]


@contract('C02', AB)
def any_canonical_matrices(ctx):
    M, C1, K0, K2 = [matrix(ctx, n) for n in ('M', 'C1', 'K0', 'K2')]
    v, g = ctx.real('v'), ctx.real('g')
    det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
    ctx.assume(det != 0 if ctx.symbolic else abs(det) > 1e-2)
    arrays = [ctx.arr(x) for x in (M, C1, K0, K2)]
    snap = ctx.snapshot(arrays)
    A, B = bicycle.ab_matrix(*arrays, v, g)
    first_order_form(ctx, A, B, M, C1, K0, K2, v, g)
    ctx.unchanged('arguments', snap, arrays)


def canonical_stub(ctx):
    """The canonical matrices are some functions of the parameters."""
    from vc import sym

    def f(p):
        key = [sym.must(p[k]) for k in CANON]
        return tuple(np.array([[sym.uf('%s[%d,%d]' % (n, i, j), *key)
                                for j in range(2)] for i in range(2)],
                              dtype=object) for n in ('M', 'C1', 'K0', 'K2'))
    ctx.callee(bicycle, 'benchmark_par_to_canonical', f)


@contract('C02', 'models.Meijaard2007Model.form_state_space_matrices ' + AB)
def model_uses_its_speed_and_gravity(ctx):
    canonical_stub(ctx)
    p = meijaard(ctx)
    m = models.Meijaard2007Model(
        framed(parameter_sets.Meijaard2007ParameterSet(dict(p), True)))
    over = ctx.choice('override', ['', 'v', 'g', 'both'])
    kw = {}
    if over in ('v', 'both'):
        kw['v'] = ctx.real('v2', sample=(-3., 9.))
    if over in ('g', 'both'):
        kw['g'] = ctx.real('g2', sample=(1., 9.))
    A, B = m.form_state_space_matrices(**kw)
    mats = [lists(x) for x in bicycle.benchmark_par_to_canonical(dict(p))]
    first_order_form(ctx, A, B, *mats, kw.get('v', p['v']),
                     kw.get('g', p['g']))


@contract('C02', 'main.Bicycle.state_space main.Bicycle.canonical ' + AB)
def measured_bicycle(ctx):
    canonical_stub(ctx)
    p = {k: ctx.real(k, u=0.01, **domain(k)) for k in BENCH if k != 'v'}
    b = bicycle_object(dict(p))
    nominal = ctx.choice('nominal', [False, True])
    v = ctx.real('speed', sample=(-3., 9.))
    from vc.engine import nominal as nom
    A, B = b.state_space(v, nominal=nominal)
    A, B = nom(np.asarray(A)), nom(np.asarray(B))
    q = {k: nom(x) for k, x in p.items()}
    mats = [lists(x) for x in bicycle.benchmark_par_to_canonical(q)]
    first_order_form(ctx, A, B, *mats, v, q['g'])


@contract('C02', 'main.Bicycle.eig main.Bicycle.state_space '
          'io.remove_uncertainties ' + AB,
          assumes=['numpy.linalg.eig returns eigenpairs of its argument '
                   '(checked numerically in the bounded adjunct)'])
def eigenvalues_at_each_speed(ctx):
    canonical_stub(ctx)
    p = {k: ctx.real(k, u=0.01, **domain(k)) for k in BENCH if k != 'v'}
    b = bicycle_object(dict(p))
    kind = ctx.choice('speeds', ['float', 'array', 'list'])
    if kind == 'float':
        v = ctx.real('speed', sample=(-3., 9.))
        speeds, given, n = [v], v, 1
    elif kind == 'list':
        n = ctx.choice('n', [1, 2, 3])
        speeds = given = [ctx.real('speed%d' % k, sample=(-3., 9.))
                          for k in range(n)]
    else:
        n = ctx.length('n', long=130)
        speeds = given = ctx.array('speeds', n, sample=(-3., 9.))
    w, V = b.eig(given)
    for j in ctx.index(n):
        A, _ = b.state_space(speeds[j], nominal=True)
        eigenpairs(ctx, 'eig', A, w[j], V[j])


@contract('C02', 'models.Meijaard2007Model.form_state_space_matrices '
          'main.Bicycle.state_space ' + AB, samples=40)
def edited(ctx):
    """The matrices are those of the present parameters and speed."""
    if ctx.choice('object', ['model', 'bicycle']) == 'model':
        kept.nothing_kept(
            ctx, kept.of_model('Meijaard2007', includes_rider=True),
            kept.FIRST, meijaard(ctx), [
                ('state space', lambda m: m.form_state_space_matrices()),
                ('at another speed',
                 lambda m: m.form_state_space_matrices(v=3.0)),
                ('of another mass',
                 lambda m: m.form_state_space_matrices(mB=30.0))])
        return
    p = {k: ctx.real(k, **domain(k)) for k in BENCH}
    v = ctx.real('speed', sample=(1., 8.))
    kept.nothing_kept(ctx, kept.of_bicycle, kept.FIRST, p, [
        ('state space', lambda b: b.state_space(v)),
        ('nominal', lambda b: b.state_space(v, nominal=True)),
        ('at another speed', lambda b: b.state_space(3.0))])
