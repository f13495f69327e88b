"""C06 eigen analysis."""
from vc.engine import contract
from bicycleparameters import bicycle, models, parameter_sets
from contracts.lib import *
from contracts import kept
from contracts.c02 import canonical_stub
from contracts.c03 import model, lean_model, lean_domain, overrides, FEED, BASE

EIG = 'models._Model.calc_eigen '
ASSUMED = ['numpy.linalg.eig returns all eigenpairs of its argument, one per '
           'column, in some order']


def build(ctx, kind):
    if kind == 'lean':
        return lean_model(ctx)
    return model(ctx, kind)


def dom(kind, k):
    return lean_domain(k) if kind == 'lean' else domain(k)


def compare(ctx, m, left, w, V, at):
    A, _ = m.form_state_space_matrices(**at)
    eigenpairs(ctx, 'left' if left else 'right',
               np.transpose(A) if left else A, w, V, tol=1e-6)


@contract('C06', EIG, samples=100, assumes=ASSUMED,
          wild=False)
def scalar_eigenpairs(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    left = ctx.choice('left', [False, True])
    which = ctx.choice('override', [(), ('v',), ('g', 'v'), ('rr',)
                                    if kind == 'lean' else ('rR', 'lam')])
    m, p = build(ctx, kind)
    kw = {k: ctx.real(k + '?', **dom(kind, k)) for k in which}
    if left:
        w, V = m.calc_eigen(left=True, **kw)
    else:
        w, V = m.calc_eigen(**kw)
    compare(ctx, m, left, w, V, kw)


@contract('C06', EIG, samples=80, assumes=ASSUMED,
          wild=False)
def array_eigenpairs(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    left = ctx.choice('left', [False, True])
    which = ctx.choice('arrays', [('v',), ('g', 'v'), ('d1',)
                                  if kind == 'lean' else ('mB', 'lam')])
    m, p = build(ctx, kind)
    n = ctx.length('n', 1, 4, long=130)
    arr = {k: ctx.array(k + '!', n, **dom(kind, k)) for k in which}
    w, V = m.calc_eigen(left=left, **arr)
    size = 12 if kind == 'lean' else 4
    ctx.true('shapes', w.shape[1:] == (size,) and
             V.shape[1:] == (size, size), '%s %s' % (w.shape, V.shape))
    ctx.eq('length', w.shape[0], n)
    for j in ctx.index(n):
        compare(ctx, m, left, w[j], V[j], {k: a[j] for k, a in arr.items()})


# --------------------------------------------------------- controllability
def cosine(ctx, q, b, acute):
    re = [x.real for x in q]
    im = [x.imag for x in q]
    num = sum(x * y for x, y in zip(re, b))
    den = ctx.sqrt(sum(x * x + y * y for x, y in zip(re, im))) * \
        ctx.sqrt(sum(x * x for x in b))
    c = num / den
    return abs(c) if acute else c


def angle(ctx, label, got, q, b, acute):
    c = cosine(ctx, q, b, acute)
    if ctx.symbolic:
        ctx.eq(label, got, ctx.acos(c))
        return
    # an angle whose cosine rounds beyond one has no floating point value
    if abs(c) > 1 - 1e-12:
        return
    ctx.true(label + ' range', 0 <= got <= (np.pi / 2 if acute else np.pi) +
             1e-9, repr(got))
    ctx.eq(label, ctx.cos(got), c, tol=1e-6, scale=1e3)


MC = 'models.Meijaard2007Model._calc_modal_controllability '


@contract('C06', MC + EIG, samples=100, assumes=ASSUMED,
          wild=False)
def modal_controllability(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback'])
    acute = ctx.choice('acute', [None, True, False])
    which = ctx.choice('override', [(), ('v',), ('mB', 'lam')])
    m, p = build(ctx, kind)
    kw = {k: ctx.real(k + '?', **domain(k)) for k in which}
    opaque_state_space(ctx, m)
    opt = {} if acute is None else {'acute': acute}
    got = m._calc_modal_controllability(**dict(kw, **opt))
    A, B = m.form_state_space_matrices(**kw)
    w, V = m.calc_eigen(left=True, **kw)
    ctx.true('shape', np.shape(got) == (4, 2), str(np.shape(got)))
    for i in range(4):
        for j in range(2):
            angle(ctx, 'angle %d %d' % (i, j), got[i, j],
                  [V[k, i] for k in range(4)], [B[k, j] for k in range(4)],
                  acute is not False)


def opaque_state_space(ctx, m):
    """Contract of form_state_space_matrices (C02, C03): some matrices that
    depend on the overrides, stacked for arrays."""
    if not ctx.symbolic:
        return
    from vc import sym, loops

    def stub(**kw):
        keys = sorted(kw)
        arrays = [k for k in keys if isinstance(kw[k], loops.SymArr)]
        tag = 'S(%s)' % ','.join(keys)

        def mat(name, shape, args):
            r = np.empty(shape, dtype=object)
            for p in np.ndindex(*shape):
                r[p] = sym.uf('%s%s%s' % (name, tag, p), *args)
            return r

        def at(name, shape):
            if not arrays:
                return mat(name, shape, [kw[k] for k in keys])
            f = {k: kw[k].fn for k in arrays}
            return loops.SymArr(kw[arrays[0]].n, shape, lambda i: mat(
                name, shape, [f[k](i) if k in f else kw[k] for k in keys]),
                name)
        return at('A', (4, 4)), at('B', (4, 2))
    m.form_state_space_matrices = stub
    ctx.note_stub('form_state_space_matrices')


def sorted_stub(ctx):
    """Contract of sort_eigenmodes (C07): some rearrangement per row."""
    from vc import sym, loops, shims

    def stub(evals, evecs):
        if isinstance(evals, np.ndarray):
            sym.unsupported('sorting of a concrete sequence')
        m = evals.shape[1]

        def make(name, shape):
            def f(k):
                r = shims.OArr(shape)
                for p in np.ndindex(*shape):
                    key = 'sorted %s%s' % (name, p)
                    r[p] = sym.SymC(sym.uf(key + '.re', k),
                                    sym.uf(key + '.im', k))
                return r
            return f
        stub.args = (evals, evecs)
        stub.out = (loops.SymArr(evals.n, (m,), make('w', (m,))),
                    loops.SymArr(evals.n, (m, m), make('v', (m, m))))
        return stub.out
    ctx.callee(bicycle, 'sort_eigenmodes', stub)
    return stub


@contract('C06', MC + EIG, samples=80, assumes=ASSUMED,
          wild=False)
def modal_controllability_of_arrays(ctx):
    """In the order of the sorted left modes."""
    kind = ctx.choice('kind', ['plain', 'feedback'])
    acute = ctx.choice('acute', [True, False])
    which = ctx.choice('arrays', [('v',), ('mB', 'lam')])
    m, p = build(ctx, kind)
    n = ctx.length('n', 1, 5, long=130)
    arr = {k: ctx.array(k + '!', n, **domain(k)) for k in which}
    opaque_state_space(ctx, m)
    stub = sorted_stub(ctx)
    got = m._calc_modal_controllability(acute=acute, **arr)
    A, B = m.form_state_space_matrices(**arr)
    w, V = m.calc_eigen(left=True, **arr)
    if ctx.symbolic:
        j = next(iter(ctx.index(n)))
        ctx.eq('sorted values', stub.args[0][j], w[j])
        ctx.eq('sorted vectors', stub.args[1][j], V[j])
        vs = stub.out[1]
    else:
        _, vs = bicycle.sort_eigenmodes(w, V)
    ctx.true('shape', got.shape[1:] == (4, 2), str(got.shape))
    ctx.eq('length', got.shape[0], n)
    for k in ctx.index(n):
        g, q, b = got[k], vs[k], B[k]
        for i in range(4):
            for j in range(2):
                angle(ctx, 'angle %d %d' % (i, j), g[i, j],
                      [q[r, i] for r in range(4)],
                      [b[r, j] for r in range(4)], acute)


@contract('C06', 'models._remove_round_off', samples=60,
          wild=False)
def round_off_removal(ctx):
    """Only entries below the rounding of the largest one become zero."""
    if not hasattr(models, '_remove_round_off'):
        return
    shape = ctx.choice('shape', [(1, 1), (1, 2), (2, 1)])
    A = [[ctx.real('a%d%d' % (i, j)) for j in range(shape[1])]
         for i in range(shape[0])]
    small = ctx.choice('small', [1, 0])
    if not ctx.symbolic and small:
        A[-1][-1] = A[-1][-1] * 1e-20
    f = models._remove_round_off
    got = getattr(f, '__wrapped__', f)(ctx.arr(A))
    for i, r in enumerate(A):
        for j, x in enumerate(r):
            if ctx.symbolic and not ctx.provably_equal(got[i, j], x) or \
                    not ctx.symbolic and got[i, j] != x:
                ctx.eq('zero', got[i, j], 0)
                ctx.true('negligible', any(
                    abs(x) * 4e15 <= abs(y) for s in A for y in s)
                    if not ctx.symbolic else small_beside(ctx, x, A), repr(x))


def small_beside(ctx, x, A):
    from vc.sym import Cond, as_cond
    c = as_cond(x == 0)
    for r in A:
        for y in r:
            c = c | (abs(x) * 4e15 <= abs(y))
    return c


@contract('C06', EIG + 'main.Bicycle.eig', samples=40, assumes=ASSUMED,
          wild=False)
def edited(ctx):
    """The eigenvalues are those of the present parameters."""
    canonical_stub(ctx)
    if ctx.choice('object', ['model', 'bicycle']) == 'model':
        kept.nothing_kept(
            ctx, kept.of_model('Meijaard2007', includes_rider=True),
            kept.FIRST, meijaard(ctx), [
                ('eigen', lambda m: tuple(m.calc_eigen())),
                ('left', lambda m: tuple(m.calc_eigen(left=True))),
                ('at another speed', lambda m: tuple(m.calc_eigen(v=3.0)))],
            tol=1e-6)
        return
    p = {k: ctx.real(k, **domain(k)) for k in BENCH}
    v = [ctx.real('speed%d' % i, sample=(1., 8.)) for i in range(2)]
    kept.nothing_kept(ctx, kept.of_bicycle, kept.FIRST, p, [
        ('at speeds', lambda b: b.eig(ctx.arr(v))),
        ('at another', lambda b: b.eig(3.0))], tol=1e-6)
