"""C07 mode sorting."""
from vc.engine import contract
from bicycleparameters import bicycle
from contracts.lib import *


def modes(ctx, n, m):
    """Any n sets of m complex eigenvalues and eigenvectors."""
    if ctx.symbolic:
        from vc import sym, loops, shims

        def value(name, k, *p):
            key = name + ','.join(map(str, p))
            return sym.SymC(sym.uf(key + '.re', k), sym.uf(key + '.im', k))

        def evals(k):
            r = shims.OArr((m,))
            for j in range(m):
                r[j] = value('w', k, j)
            return r

        def evecs(k):
            r = shims.OArr((m, m))
            for i in range(m):
                for j in range(m):
                    r[i, j] = value('v', k, i, j)
            return r
        w = loops.SymArr(n, (m,), evals, 'evals')
        v = loops.SymArr(n, (m, m), evecs, 'evecs')
        w.complex = v.complex = True
        return w, v
    w = np.zeros((n, m), dtype=complex)
    # modes that cross, meet and jump, as well as unrelated ones
    kind = ctx.choice('kind', ['any', 'pairs', 'grid', 'path', 'large'])
    for i in range(n):
        for j in range(m):
            x = ctx.real('re%d,%d' % (i, j), sample=(-3., 3.))
            y = ctx.real('im%d,%d' % (i, j), sample=(-3., 3.))
            if kind == 'grid':
                x, y = round(x), 0.0
            if kind == 'path' and i:
                w[i, j] = w[i - 1, (j + 1) % m if x > 2.5 else j] + x / 5
                continue
            if kind == 'large':
                x, y = x * 1e7, y * 1e7
            w[i, j] = x + 1j * y
            if kind == 'pairs' and j % 2:
                w[i, j] = w[i, j - 1].conjugate()
    v = np.array([[[100 * i + 10 * r + 1000j * c + w[i, c]
                    for c in range(m)] for r in range(m)] for i in range(n)])
    return w, v


def find(ctx, value, column, evals, evecs, left):
    """Which unused eigenpair this is."""
    m = len(evals)
    for k in left:
        if ctx.symbolic:
            if value is evals[k] or ctx.provably_equal(value, evals[k]):
                if all(ctx.provably_equal(column[i], evecs[i, k])
                       for i in range(m)):
                    return k
        elif value == evals[k] and np.array_equal(column, evecs[:, k]):
            return k
    return None


def reordered(ctx, n, m, w, v, ws, vs):
    ctx.true('shapes', ws.shape == w.shape and vs.shape == v.shape,
             '%s %s' % (ws.shape, vs.shape))
    for k in ctx.index(n):
        row, vec, got, gvec = w[k], v[k], ws[k], vs[k]
        first = not ctx.symbolic and k == 0 or ctx.symbolic and \
            k.op == 'c' and k.value == 0
        if first:
            ctx.eq('first values', got, row)
            ctx.eq('first vectors', gvec, vec)
            continue
        left = list(range(m))
        for j in range(m):
            i = find(ctx, got[j], gvec[:, j], row, vec, left)
            ctx.true('permutation', i is not None,
                     'entry %d of row %s is no remaining eigenpair of that '
                     'row' % (j, k if not ctx.symbolic else 'i'))
            if i is None:
                break
            left.remove(i)


@contract('C07', 'bicycle.sort_eigenmodes', samples=200)
def eigenmodes_are_permuted(ctx):
    """Any number of sets: one generic step from arbitrary sorted values."""
    m = ctx.choice('modes', [1, 2, 3, 4])
    ctx.havoc_loops()
    n = ctx.length('n', 1, 7)
    w, v = modes(ctx, n, m)
    snap = None if ctx.symbolic else (w.copy(), v.copy())
    ws, vs = bicycle.sort_eigenmodes(w, v)
    reordered(ctx, n, m, w, v, ws, vs)
    if snap:
        ctx.true('arguments', np.array_equal(snap[0], w) and
                 np.array_equal(snap[1], v), 'changed')


@contract('C07', 'bicycle.sort_modes', samples=200)
def weave_capsize_caster(ctx):
    ctx.havoc_loops()
    n = ctx.length('n', 1, 7)
    w, v = modes(ctx, n, 4)
    weave, capsize, caster = bicycle.sort_modes(w, v)
    for k, d in (('weave', weave), ('capsize', capsize), ('caster', caster)):
        ctx.true(k + ' keys', set(d) == {'evals', 'evecs'}, str(sorted(d)))
        shape = (2,) if k == 'weave' else ()
        ctx.true(k + ' shapes', d['evals'].shape[1:] == shape and
                 d['evecs'].shape[1:] == (4,) + shape,
                 '%s %s' % (d['evals'].shape, d['evecs'].shape))
        ctx.eq(k + ' length', d['evals'].shape[0], n)
    for k in ctx.index(n):
        row, vec = w[k], v[k]
        a, b = capsize['evals'][k], capsize['evecs'][k]
        c, d = caster['evals'][k], caster['evecs'][k]
        e, f = weave['evals'][k], weave['evecs'][k]
        got = [(c, d), (a, b), (e[0], f[:, 0]), (e[1], f[:, 1])]
        left = list(range(4))
        for j, (x, y) in enumerate(got):
            i = find(ctx, x, y, row, vec, left)
            ctx.true('partition', i is not None, 'mode %d of row %s' % (j, k))
            if i is None:
                break
            left.remove(i)


@contract('C07', 'bicycle.sort_eigenmodes', samples=40, symbolic=False)
def larger_systems(ctx):
    """Twelve modes, as the rider lean model has (bounded)."""
    m = ctx.choice('modes', [5, 8, 12])
    n = ctx.length('n', 1, 6)
    w, v = modes(ctx, n, m)
    ws, vs = bicycle.sort_eigenmodes(w, v)
    reordered(ctx, n, m, w, v, ws, vs)
