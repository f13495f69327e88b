"""C10 inertia tensors."""
from vc.engine import contract
from bicycleparameters import inertia, conversions, parameter_sets
from contracts.lib import *


def vector(ctx, name, n=3):
    return [ctx.real('%s%d' % (name, i)) for i in range(n)]


def rotation_y(ctx, a):
    """Coordinates of a vector in axes turned by a about y."""
    s, c = ctx.sin(a), ctx.cos(a)
    return [[c, 0, -s], [0, 1, 0], [s, 0, c]]


def det3(I):
    return (I[0][0] * (I[1][1] * I[2][2] - I[1][2] * I[2][1]) -
            I[0][1] * (I[1][0] * I[2][2] - I[1][2] * I[2][0]) +
            I[0][2] * (I[1][0] * I[2][1] - I[1][1] * I[2][0]))


@contract('C10', 'inertia.parallel_axis')
def parallel_axis(ctx):
    I, m, d = sym_tensor(ctx, 'I'), ctx.real('m'), vector(ctx, 'd')
    how = ctx.choice('offset as', ['array', 'list'])
    got = inertia.parallel_axis(ctx.arr(I), m, ctx.arr(d)
                                if how == 'array' else d)
    ctx.eq('shifted', got, steiner(I, m, d))


@contract('C10', 'inertia.rotate_inertia_tensor '
          'conversions._rotate_inertia_about_y')
def rotations(ctx):
    I, a = sym_tensor(ctx, 'I'), ctx.real('angle')
    f = ctx.choice('function', [inertia.rotate_inertia_tensor,
                                conversions._rotate_inertia_about_y])
    R = rotation_y(ctx, a)
    want = matmul(matmul(R, I), transpose(R))
    got = f(ctx.arr(I), a)
    ctx.true('shape', np.shape(got) == (3, 3), str(np.shape(got)))
    ctx.eq('R I R^T', got, want)
    G = [[got[i, j] for j in range(3)] for i in range(3)]
    ctx.eq('symmetric', G, transpose(G), scale=1.0)
    ctx.eq('trace', G[0][0] + G[1][1] + G[2][2],
           I[0][0] + I[1][1] + I[2][2], scale=1.0)
    ctx.eq('determinant', det3(G), det3(I), scale=1.0)
    ctx.eq('lateral moment', G[1][1], I[1][1])
    ctx.eq('inverse', f(got, -a), I, scale=1.0)
    b = ctx.real('second angle')
    ctx.eq('composition', f(got, b), f(ctx.arr(I), a + b), scale=1.0)


@contract('C10', 'inertia.rotate_inertia_tensor inertia.parallel_axis')
def uncertain_arguments(ctx):
    """Values with uncertainties give the same tensors."""
    m = ctx.real('m', u=0.01, sample=(1., 5.))
    d = [ctx.real('d%d' % i, u=0.02, sample=(.1, 1.)) for i in range(3)]
    a = ctx.real('angle', u=0.01, sample=(.1, 1.))
    v = {k: ctx.real('I' + k, u=0.02, sample=(.1, 1.))
         for k in ('xx', 'xz', 'yy', 'zz')}
    I = [[v['xx'], 0., v['xz']], [0., v['yy'], 0.], [v['xz'], 0., v['zz']]]
    from vc.engine import nominal
    n = [[nominal(x) for x in r] for r in I]
    A = np.array(I, dtype=object)
    ctx.eq('shifted', inertia.parallel_axis(A, m, d),
           steiner(n, nominal(m), [nominal(x) for x in d]))
    R = rotation_y(ctx, a)
    ctx.eq('rotated', inertia.rotate_inertia_tensor(A, a),
           matmul(matmul(R, n), transpose(R)))


@contract('C10', 'conversions._sum_central_inertias inertia.parallel_axis '
          'com.total_com')
def sum_of_two_bodies(ctx):
    m1, m2 = ctx.real('m1', lo=0.0), ctx.real('m2', lo=0.0)
    I1, I2 = sym_tensor(ctx, 'I1'), sym_tensor(ctx, 'I2')
    c1, c2 = vector(ctx, 'c1'), vector(ctx, 'c2')
    got = conversions._sum_central_inertias(m1, ctx.arr(c1), ctx.arr(I1), m2,
                                            ctx.arr(c2), ctx.arr(I2))
    d = [x - y for x, y in zip(c1, c2)]
    mu = m1 * m2 / (m1 + m2)
    ctx.eq('sum', got, steiner(madd(I1, I2), mu, d))


@contract('C10', 'inertia.part_inertia_tensor')
def part_tensors(ctx):
    part = ctx.choice('part', list('BHGSFRD'))
    other = ctx.choice('others', [False, True])
    wheel = part in 'FRD'
    mixed = ctx.choice('uncertain', [False, True, 'some'])

    def real(name):
        u = mixed and .01
        if mixed == 'some' and not ctx.symbolic:
            u = ctx.choice(name + ' uncertain', [False, .01])
        return ctx.real(name, u=u, sample=(.1, 2.)) if u else \
            ctx.real(name, sample=(-1., 2.))
    p = {'IBxx': real('IBxx')}
    for k in ('xx', 'yy') + (() if wheel else ('zz', 'xz')):
        p['I%s%s' % (part, k)] = real('I%s%s' % (part, k))
    if other:
        for q in 'BHFR':
            for k in ('xx', 'yy', 'zz', 'xz'):
                p.setdefault('I%s%s' % (q, k), real('I%s%s' % (q, k)))
    I = inertia.part_inertia_tensor(p, part)
    xx = p['I%sxx' % part]
    zz = xx if wheel else p['I%szz' % part]
    xz = 0 if wheel else p['I%sxz' % part]
    ctx.eq(part, I, [[xx, 0, xz], [0, p['I%syy' % part], 0], [xz, 0, zz]])


# ------------------------------------------------------- principal directions
def any_rotation(ctx):
    """Orthonormal columns, both handednesses."""
    a, b, c = [ctx.real('euler%d' % i) for i in range(3)]
    ca, sa, cb, sb = ctx.cos(a), ctx.sin(a), ctx.cos(b), ctx.sin(b)
    cc, sc = ctx.cos(c), ctx.sin(c)
    R = matmul(matmul([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]],
                      [[1, 0, 0], [0, cb, -sb], [0, sb, cb]]),
               [[cc, -sc, 0], [sc, cc, 0], [0, 0, 1]])
    s = ctx.choice('handedness', [1, -1])
    return [[r[0], r[1], s * r[2]] for r in R]


def principal(ctx, I, w, V):
    ctx.spectral(I, w, V)
    A = ctx.arr(I)
    if not ctx.symbolic:
        A = (A + A.T) / 2
    Ip, C = inertia.principal_axes(A)
    n = len(w)
    ctx.true('shapes', np.shape(Ip) == (n,) and np.shape(C) == (n, n),
             '%s %s' % (np.shape(Ip), np.shape(C)))
    for i in range(n - 1):
        ctx.true('ascending', Ip[i] <= Ip[i + 1], '%r' % (Ip,))
    C = [[C[i, j] for j in range(n)] for i in range(n)]
    ctx.eq('C C^T', matmul(C, transpose(C)),
           [[1 if i == j else 0 for j in range(n)] for i in range(n)],
           scale=1e3)
    D = [[Ip[i] if i == j else 0 for j in range(n)] for i in range(n)]
    ctx.eq('C^T diag C', matmul(matmul(transpose(C), D), C), I, scale=1e2)


@contract('C10', 'inertia.principal_axes', samples=80,
          assumes=['numpy.linalg.eigh returns the ascending eigenvalues w and '
                   'orthonormal eigenvectors V of a symmetric matrix; by that '
                   'rows that are plus or minus the columns of V satisfy '
                   'C C^T = 1 and C^T diag(w) C = I'])
def principal_axes(ctx):
    """Any tensor; equal moments in the bounded run too."""
    if not ctx.symbolic:
        w = [ctx.real('w%d' % i, sample=(.1, 3.)) for i in range(3)]
        if ctx.choice('equal', [False, True]):
            w[1] = w[0]
        V = any_rotation(ctx)
        I = matmul(matmul(V, [[w[i] if i == j else 0 for j in range(3)]
                              for i in range(3)]), transpose(V))
        principal(ctx, I, w, V)
        return
    I = sym_tensor(ctx, 'I')
    w = [ctx.real('w%d' % i) for i in range(3)]
    V = [[ctx.real('V%d%d' % (i, j)) for j in range(3)] for i in range(3)]
    ctx.assume(w[0] <= w[1])
    ctx.assume(w[1] <= w[2])
    order = ctx.choice('order', [(0, 1, 2), (2, 0, 1)])
    ctx.spectral(I, [w[k] for k in order], [[r[k] for k in order] for r in V])
    Ip, C = inertia.principal_axes(ctx.arr(I))
    ctx.true('shapes', np.shape(Ip) == (3,) and np.shape(C) == (3, 3))
    ctx.eq('moments', Ip, w)
    left = [0, 1, 2]
    for i in range(3):
        k, s = matching_column(ctx, C[i], V, left)
        left.remove(k)
        ctx.eq('axis', C[i], [V[j][k] * s for j in range(3)])
        ctx.eq('moment of the axis', Ip[i], w[k])


def matching_column(ctx, row, V, left):
    """The unused column, and its sign, that the row is."""
    for k in left:
        for s in (1, -1):
            if all(ctx.provably_equal(row[j], V[j][k] * s) for j in range(3)):
                return k, s
    return left[0], 1


@contract('C10', 'inertia.principal_axes', samples=80)
def principal_axes_of_a_body(ctx):
    """Symmetric about the xz plane: the y axis is kept."""
    w = [ctx.real('w%d' % i, sample=(.1, 3.)) for i in range(3)]
    a = ctx.real('angle')
    R = rotation_y(ctx, a)
    V = transpose(R)
    s = [ctx.choice('sign%d' % i, [1, -1]) for i in range(3)]
    V = [[x * k for x, k in zip(r, s)] for r in V]
    I = matmul(matmul(V, [[w[i] if i == j else 0 for j in range(3)]
                          for i in range(3)]), transpose(V))
    principal(ctx, I, w, V)


@contract('C10', 'parameter_sets.Meijaard2007ParameterSet.'
          '_planar_principal_radii_of_gyration '
          'parameter_sets.Meijaard2007ParameterSet.form_inertia_tensor',
          samples=80,
          assumes=['numpy.linalg.eig of a symmetric 2x2 matrix returns its '
                   'eigenvalues, in any order, and unit eigenvectors'])
def planar_radii(ctx):
    """m diag(kmax^2, kyy^2, kmin^2) turned back by the angle is the tensor."""
    p = meijaard(ctx, IByy=dict(lo=0.0), IHyy=dict(lo=0.0))
    body = ctx.choice('body', ['B', 'H'])
    k1, k2 = [ctx.real('k%d' % i, lo=0.0, sample=(.1, .6)) for i in (1, 2)]
    a = ctx.real('angle')
    m = p['m' + body]
    w = [m * k1 * k1, m * k2 * k2]
    s, c = ctx.sin(a), ctx.cos(a)
    V = [[c, s], [-s, c]]
    sg = [ctx.choice('sign%d' % i, [1, -1]) for i in range(2)]
    V = [[x * k for x, k in zip(r, sg)] for r in V]
    T = matmul(matmul(V, [[w[0], 0], [0, w[1]]]), transpose(V))
    p['I%sxx' % body] = T[0][0]
    p['I%sxz' % body] = T[0][1]
    p['I%szz' % body] = T[1][1]
    ctx.spectral(T, w, V)
    if ctx.symbolic:
        ctx.run.norm()
    S = parameter_sets.Meijaard2007ParameterSet(dict(p), True)
    kmax, kmin, kyy, angle = S._planar_principal_radii_of_gyration(body)
    ctx.true('order', kmin <= kmax, '%r %r' % (kmin, kmax))
    ctx.eq('lateral', m * kyy * kyy, p['I%syy' % body])
    s2, c2 = ctx.sin(angle), ctx.cos(angle)
    e1, e3 = [c2, -s2], [s2, c2]
    got = [[m * (kmax * kmax * e1[i] * e1[j] + kmin * kmin * e3[i] * e3[j])
            for j in range(2)] for i in range(2)]
    ctx.eq('tensor', got, T, scale=10.0)
