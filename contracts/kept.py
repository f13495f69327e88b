"""Answers do not depend on what was asked before.

The object under test was made with other parameters, was asked the same
questions, the answers were scribbled on, and its parameters were edited (as
the web app and the gallery do): its answers are those of a new object."""
from contracts.lib import *
from bicycleparameters import models, parameter_sets
from bicycleparameters import parameter_dicts as dicts

FIRST = dict(dicts.meijaard2007_browser_jason, g=9.7, mB=61.0, IByy=9.0,
             lam=.33, xH=.8, IHxz=-.06, v=2.5)
FIRST.update({k: .1 * i - .3 for i, k in enumerate(GAINS)})
FIRST_LEAN = dict(dicts.mooreriderlean2012_browser_jason)


def scribble(x):
    """Write over an answer; it is the caller's own."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 7.0
    elif isinstance(x, (tuple, list)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            del x[:]
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y)
        x.clear()


def nothing_kept(ctx, make, first, p, queries, tol=None):
    """make(values) gives the object and the dictionary of its parameters."""
    first = {k: first[k] for k in p}
    obj, par = make(dict(first))
    label, q = ctx.choice('question', queries)
    before = ctx.choice('before', ['the same', 'all'])
    for other, f in queries:
        if before == 'all' or other == label:
            scribble(f(obj))
    par.update(p)
    want = q(make(dict(p))[0])
    for k in ('first', 'second'):
        got = q(obj)
        ctx.eq('%s, %s time' % (label, k), got, want, tol=tol)
        scribble(got)


def used(par, first, ask):
    """The object is asked with other parameters and gets its own back."""
    own = dict(par)
    par.update({k: first[k] for k in own if k in first})
    scribble(ask())
    par.clear()
    par.update(own)


def of_set(kind, **more):
    def make(values):
        s = getattr(parameter_sets, kind + 'ParameterSet')(values, **more)
        return s, s.parameters
    return make


def of_model(kind, **more):
    def make(values):
        s, par = of_set(kind, **more)(values)
        return getattr(models, kind + 'Model')(s), par
    return make


def of_bicycle(values):
    b = bicycle_object(values, changes=True)
    return b, b.parameters['Benchmark']
