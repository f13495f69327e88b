"""C20 simulation."""
from vc.engine import contract
from bicycleparameters import bicycle, models, parameter_sets
from contracts.lib import *
from contracts import kept
from contracts.c02 import canonical_stub
from contracts.c03 import model, lean_model, LEAN, lean_domain

ASSUMES = ['scipy.integrate.solve_ivp(f, span, x0, t_eval) returns the '
           'solution of x\' = f(t, x), x(span[0]) = x0 at t_eval; f, the '
           'span, x0 and t_eval given to it are proved to be right']


def grid(ctx, n):
    """Monotonic times."""
    if ctx.symbolic:
        return ctx.array('t', n)
    t, out = ctx.real('t0', sample=(-1., 1.)), []
    for k in range(n):
        out.append(t)
        t += ctx.real('dt%d' % k, lo=0.0, sample=(.02, .2))
    return np.array(out)


def an_input(ctx, n):
    """Any function of time and state."""
    kind = ctx.choice('input', ['none', 'array', 'list'])
    if kind == 'none':
        return None
    if ctx.symbolic:
        from vc import sym

        def u(t, x):
            r = [sym.uf('u%d' % i, sym.must(t), *[sym.must(e) for e in x])
                 for i in range(n)]
            return np.array(r, dtype=object)
        return u
    a = [ctx.real('u%d' % i, sample=(-3., 3.)) for i in range(n)]
    b = [ctx.real('w%d' % i, sample=(-3., 3.)) for i in range(n)]

    def u(t, x):
        r = [a[i] * np.sin(3 * t + b[i]) - b[i] * x[(i + 2) % len(x)]
             for i in range(n)]
        return np.array(r) if kind == 'array' else r
    return u


def rhs_is(ctx, label, f, A, B, u):
    """f(t, x) = A x + B u(t, x) for any t and x."""
    m = A.shape[0]
    t = ctx.real('t?')
    x = ctx.arr([ctx.real('x?%d' % i) for i in range(m)])
    snap = ctx.snapshot(x)
    got = f(t, x)
    want = [sum(A[i, j] * x[j] for j in range(m)) for i in range(m)]
    if u is not None:
        v = u(t, x)
        want = [w + sum(B[i, j] * v[j] for j in range(B.shape[1]))
                for i, w in enumerate(want)]
    ctx.eq(label, got, want)
    ctx.unchanged(label + ' state', snap, x)


def lean_matrices(m, kw):
    return m.form_state_space_matrices(**kw)


def check_simulate(ctx, m, p, x0, kw, lean=False):
    n = ctx.length('n', 2, 5)
    times = grid(ctx, n)
    A, B = m.form_state_space_matrices(**kw)
    m_, k_ = A.shape[0], B.shape[1]
    u = an_input(ctx, k_)
    ivp = Ivp(ctx)
    if ctx.choice('before', [False, True]):
        kept.used(m.parameter_set.parameters,
                  kept.FIRST_LEAN if lean else kept.FIRST,
                  lambda: m.simulate([0.0, .1, .2], [.1] * m_, **kw))
        del ivp.calls[:]
    snap = ctx.snapshot(x0, times, m.parameter_set.parameters)
    x, uu = m.simulate(times, x0, input_func=u, **kw)
    ctx.unchanged('arguments', snap, x0, times, m.parameter_set.parameters)
    start = list(x0)
    if lean:
        q = dict(p, **kw)
        start[9] = -q['v'] / q['rr']
    if not ctx.symbolic:
        ctx.true('shape', np.shape(x) == (n, m_) and
                 np.shape(uu) == (n, k_), '%s %s' % (np.shape(x),
                                                     np.shape(uu)))
        ref = reference_solution(A, B, u, start, list(times))
        big = np.abs(ref).max()
        ctx.eq('initial state', x[0], start, tol=1e-9, scale=1e6 * big)
        ctx.true('states', np.abs(x - ref).max() <= 1e-4 * big,
                 'off by %g of %g' % (np.abs(x - ref).max(), big))
        want = [[0.] * k_ if u is None else list(u(t, s))
                for t, s in zip(times, x)]
        ctx.eq('inputs', uu, want)
        return
    ctx.true('one problem', len(ivp.calls) == 1)
    c = ivp.calls[0]
    rhs_is(ctx, 'right hand side', c['f'], A, B, u)
    ctx.eq('span', c['span'], [times[0], times[-1]])
    ctx.eq('initial conditions', c['x0'], start)
    for k in ctx.index(n):
        ctx.eq('times', c['times'][k], times[k])
        s = ivp.solution(0, m_, times[k])
        ctx.eq('states', x[k], s)
        ctx.eq('inputs', uu[k],
               [0] * k_ if u is None else list(u(times[k], s)))


@contract('C20', 'models._Model.simulate models._Model.'
          '_parse_parameter_overrides', assumes=ASSUMES, samples=60,
          wild=False)
def simulate(ctx):
    canonical_stub(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback'])
    m, p = model(ctx, kind)
    keys = ctx.choice('override', [(), ('v',), ('g', 'lam'), ('mB', 'v')])
    kw = {k: ctx.real(k + '?', **domain(k)) for k in keys}
    x0 = [ctx.real('x0%d' % i, sample=(-.3, .3)) for i in range(4)]
    if ctx.choice('as', ['list', 'array']) == 'array':
        x0 = ctx.arr(x0)
    check_simulate(ctx, m, p, x0, kw)


@contract('C20', 'models.MooreRiderLean2012Model.simulate '
          'models._Model.simulate', assumes=ASSUMES, samples=8,
          wild=False)
def simulate_rider_lean(ctx):
    m, p = lean_model(ctx)
    keys = ctx.choice('override', [(), ('v',), ('rr',), ('v', 'rr', 'mc')])
    kw = {k: ctx.real(k + '?', **lean_domain(k)) for k in keys}
    x0 = [ctx.real('x0%d' % i, sample=(-.1, .1)) for i in range(12)]
    if ctx.choice('as', ['list', 'array']) == 'array':
        x0 = ctx.arr(x0)
    check_simulate(ctx, m, p, x0, kw, lean=True)


@contract('C20', 'models._Model.simulate_modes', samples=40,
          assumes=ASSUMES + ['numpy.linalg.eig returns eigenpairs'],
          wild=False)
def simulate_modes(ctx):
    canonical_stub(ctx)
    kind = ctx.choice('kind', ['plain', 'feedback'])
    m, p = model(ctx, kind)
    keys = ctx.choice('override', [(), ('v',), ('g', 'lam')])
    kw = {k: ctx.real(k + '?', **domain(k)) for k in keys}
    n = ctx.length('n', 2, 5) if not ctx.symbolic else \
        ctx.choice('n', [2, 3])
    times = grid(ctx, n)
    A, B = m.form_state_space_matrices(**kw)
    w, V = m.calc_eigen(**kw)
    ivp = Ivp(ctx)
    snap = ctx.snapshot(times, m.parameter_set.parameters)
    r = m.simulate_modes(times, **kw)
    ctx.unchanged('arguments', snap, times, m.parameter_set.parameters)
    if not ctx.symbolic:
        ctx.true('shape', np.shape(r) == (4, n, 4), str(np.shape(r)))
        for i in range(4):
            ref = reference_solution(A, B, None, V[:, i].real, list(times))
            big = np.abs(ref).max() + 1e-9
            ctx.true('mode %d' % i, np.abs(r[i] - ref).max() <= 1e-4 * big,
                     'off by %g of %g' % (np.abs(r[i] - ref).max(), big))
        return
    ctx.true('one problem per mode', len(ivp.calls) == 4)
    for i, c in enumerate(ivp.calls):
        rhs_is(ctx, 'right hand side', c['f'], A, B, None)
        ctx.eq('span', c['span'], [times[0], times[-1]])
        ctx.eq('initial conditions', c['x0'],
               [V[k, i].real for k in range(4)])
        for k in range(n):
            ctx.eq('times', c['times'][k], times[k])
            ctx.eq('states', r[i, k], ivp.solution(i, 4, times[k]))


@contract('C20', 'models._Model.simulate models._Model.simulate_modes '
          'models.MooreRiderLean2012Model.simulate', samples=30,
          wild=False)
def arrays_are_rejected(ctx):
    kind = ctx.choice('kind', ['plain', 'feedback', 'lean'])
    m, p = lean_model(ctx) if kind == 'lean' else model(ctx, kind)
    dom = lean_domain if kind == 'lean' else domain
    keys = ctx.choice('arrays', [('v',), ('g',), ('v', 'g')])
    n = ctx.length('n')
    kw = {k: ctx.array(k + '!', n, **dom(k)) for k in keys}
    x0 = [0.1] * (12 if kind == 'lean' else 4)
    Ivp(ctx)
    ctx.raises('simulate', ValueError, m.simulate, [0.0, 0.1], x0, **kw)
    if kind != 'lean':
        ctx.raises('simulate_modes', ValueError, m.simulate_modes,
                   [0.0, 0.1], **kw)
