"""C05 feedback."""
from vc.engine import contract
from bicycleparameters import bicycle, models, parameter_sets
from contracts.lib import *
from contracts import kept
from contracts.c02 import canonical_stub

F = ('models.Meijaard2007WithFeedbackModel.form_state_space_matrices '
     'models._Model._parse_parameter_overrides bicycle.ab_matrix ')


def gains(ctx):
    return {k: ctx.real(k, sample=(-5., 5.)) for k in GAINS}


def closed(A, B, p):
    """A - B K, roll torque gains in the first row."""
    K = [[p['kTphi_phi'], p['kTphi_del'], p['kTphi_phid'], p['kTphi_deld']],
         [p['kTdel_phi'], p['kTdel_del'], p['kTdel_phid'], p['kTdel_deld']]]
    A = [[A[i, j] for j in range(4)] for i in range(4)]
    B = [[B[i, j] for j in range(2)] for i in range(4)]
    return madd(A, scale(matmul(B, K), -1))


def plain(p):
    q = {k: p[k] for k in BENCH}
    m = models.Meijaard2007Model(parameter_sets.Meijaard2007ParameterSet(
        q, True))
    return m.form_state_space_matrices()


def feedback(p):
    return models.Meijaard2007WithFeedbackModel(
        framed(parameter_sets.Meijaard2007WithFeedbackParameterSet(p, True)))


@contract('C05', F)
def closed_loop(ctx):
    p = dict(meijaard(ctx), **gains(ctx))
    A, B = feedback(dict(p)).form_state_space_matrices()
    A0, B0 = plain(p)
    ctx.eq('A', A, closed(A0, B0, p))
    ctx.eq('B', B, B0)


@contract('C05', F)
def overridden_gains(ctx):
    """One scalar override of any parameter or all gains."""
    p = dict(meijaard(ctx), **gains(ctx))
    which = ctx.choice('override', [(k,) for k in GAINS + BENCH] +
                       [tuple(GAINS)])
    kw = {k: ctx.real(k + '?', **domain(k)) for k in which}
    A, B = feedback(dict(p)).form_state_space_matrices(**kw)
    p = dict(p, **kw)
    A0, B0 = plain(p)
    ctx.eq('A', A, closed(A0, B0, p))
    ctx.eq('B', B, B0)


@contract('C05', F + 'parameter_sets.Meijaard2007ParameterSet.'
          'to_parameterization')
def zero_gains_is_the_plain_model(ctx):
    """Also for a set without gains, and with gains only as overrides."""
    p = meijaard(ctx)
    how = ctx.choice('how', ['explicit', 'converted', 'override'])
    g = gains(ctx)
    if how == 'explicit':
        m = feedback(dict(p, **{k: 0.0 for k in GAINS}))
    else:
        m = models.Meijaard2007WithFeedbackModel(
            framed(parameter_sets.Meijaard2007ParameterSet(dict(p), True)))
    A0, B0 = plain(p)
    if how == 'override':
        A, B = m.form_state_space_matrices(**g)
        ctx.eq('A', A, closed(A0, B0, g))
    else:
        A, B = m.form_state_space_matrices()
        ctx.eq('A', A, A0)
    ctx.eq('B', B, B0)


def groups():
    """Sets of array overrides that mix gains and other parameters."""
    out = [(k,) for k in GAINS]
    out += [(a, b) for i, a in enumerate(GAINS) for b in GAINS[i + 1:]]
    out += [(a, b) for a in GAINS for b in ('v', 'g', 'mB', 'lam', 'IHxx')]
    out += [(b, a) for a in GAINS for b in ('v', 'g', 'mB')]
    out += [('v', 'g', a) for a in GAINS]
    out += [tuple(GAINS), tuple(GAINS[:4]), tuple(GAINS[4:]),
            tuple(BENCH), tuple(GAINS + BENCH), ('v', 'lam') + tuple(GAINS)]
    return out


@contract('C05', F, samples=150)
def array_gains(ctx):
    canonical_stub(ctx)
    p = dict(meijaard(ctx), **gains(ctx))
    which = ctx.choice('arrays', groups())
    n = ctx.length('n', long=130)
    arr = {k: ctx.array(k + '!', n, **domain(k)) for k in which}
    # a scalar override next to the arrays
    other = [k for k in ('kTdel_phid', 'kTphi_del', 'mH') if k not in which]
    k = ctx.choice('scalar', ['', 'first', 'last'])
    sca = {} if not k or not other else {
        other[0 if k == 'first' else -1]: ctx.real('scalar?',
                                                   sample=(2., 4.))}
    first = ctx.choice('order', [False, True])
    kw = dict(sca, **arr) if first else dict(arr, **sca)
    A, B = feedback(dict(p)).form_state_space_matrices(**kw)
    ctx.true('stacked', len(A.shape) == 3 and len(B.shape) == 3,
             'shapes %s %s' % (A.shape, B.shape))
    ctx.eq('length', A.shape[0], n)
    for j in ctx.index(n):
        q = dict(p, **sca)
        q.update({k: a[j] for k, a in arr.items()})
        A0, B0 = plain(q)
        ctx.eq('A', A[j], closed(A0, B0, q))
        ctx.eq('B', B[j], B0)


@contract('C05', 'models.Meijaard2007WithFeedbackModel.'
          'form_state_space_matrices', samples=40)
def edited(ctx):
    """The matrices are those of the present gains."""
    p = meijaard(ctx)
    p.update({k: ctx.real(k, sample=(-5., 5.)) for k in GAINS})
    kept.nothing_kept(
        ctx, kept.of_model('Meijaard2007WithFeedback', includes_rider=True),
        kept.FIRST, p, [
            ('state space', lambda m: m.form_state_space_matrices()),
            ('another gain',
             lambda m: m.form_state_space_matrices(kTdel_phid=3.0))])
