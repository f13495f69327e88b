"""C01 canonical matrices."""
from vc.engine import contract
from bicycleparameters import bicycle, models, parameter_sets
from contracts.lib import *
from contracts import kept

B = 'bicycle.benchmark_par_to_canonical'


def compare(ctx, mats, p):
    for name, got, want in zip(('M', 'C1', 'K0', 'K2'), mats,
                               whipple(ctx, p)):
        ctx.eq(name, got, want)


@contract('C01', B)
def plain_function(ctx):
    p = meijaard(ctx)
    given = {k: p[k] for k in CANON}
    compare(ctx, bicycle.benchmark_par_to_canonical(dict(given)), p)


@contract('C01', B)
def with_all_measured_parameters(ctx):
    """Extra parameters of the dictionary have no influence."""
    p = meijaard(ctx)
    q = dict(p, **reals(ctx, ['IRzz', 'IFzz', 'yB', 'yH', 'mD', 'mS', 'mG']))
    compare(ctx, bicycle.benchmark_par_to_canonical(q), p)


@contract('C01', 'models.Meijaard2007Model.form_reduced_canonical_matrices '
          'models._Model._parse_parameter_overrides '
          'parameter_sets.Meijaard2007ParameterSet.to_parameterization ' + B)
def model_object(ctx):
    p = meijaard(ctx)
    feedback = ctx.choice('feedback', [False, True])
    rider = ctx.choice('rider', [False, True])
    s = framed(parameter_sets.Meijaard2007ParameterSet(dict(p), rider))
    cls = models.Meijaard2007WithFeedbackModel if feedback else \
        models.Meijaard2007Model
    m = cls(s)
    compare(ctx, m.form_reduced_canonical_matrices(), p)


@contract('C01', 'main.Bicycle.canonical ' + B)
def bicycle_object_canonical(ctx):
    p = {k: ctx.real(k, u=0.01, **domain(k)) for k in BENCH}
    nominal = ctx.choice('nominal', [False, True])
    b = bicycle_object(dict(p))
    compare(ctx, b.canonical(nominal=nominal), p)


@contract('C01', 'models.Meijaard2007Model.form_reduced_canonical_matrices '
          'main.Bicycle.canonical ' + B, samples=40)
def edited(ctx):
    """The matrices are those of the present parameters."""
    if ctx.choice('object', ['model', 'bicycle']) == 'model':
        kept.nothing_kept(
            ctx, kept.of_model('Meijaard2007', includes_rider=True),
            kept.FIRST, meijaard(ctx), [
                ('canonical', lambda m: m.form_reduced_canonical_matrices()),
                ('at another speed',
                 lambda m: m.form_reduced_canonical_matrices(v=3.0)),
                ('of another mass',
                 lambda m: m.form_reduced_canonical_matrices(mB=30.0))])
        return
    p = {k: ctx.real(k, **domain(k)) for k in BENCH}
    kept.nothing_kept(ctx, kept.of_bicycle, kept.FIRST, p, [
        ('canonical', lambda b: b.canonical()),
        ('nominal', lambda b: b.canonical(nominal=True))])
