"""C19 parameter sets."""
import copy
import os
import tempfile

import yaml

from vc.engine import contract, nominal
from contracts.lib import *
from bicycleparameters import parameter_sets as ps

SETS = ['Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2012', 'Moore2019',
        'MooreRiderLean2012']
RIDER = SETS[:3]
WHEEL = ['rF', 'rR', 'w', 'rf', 'rr']


def cls(name):
    return getattr(ps, name + 'ParameterSet')


def make(ctx, name, par, rider=True):
    c = cls(name)
    return c(par, rider) if name in RIDER else c(par)


def values(ctx, name, suffix=''):
    return {k: ctx.real(k + suffix, sample=RANGES.get(k, (.1, 2.)))
            for k in sorted(cls(name).par_strings)}


BAD = ['missing', 'integer', 'text', 'none', 'boolean', 'list', 'single',
       'array']


@contract('C19', 'parameter_sets.ParameterSet._check_parameters '
          'parameter_sets.ParameterSet.__init__', samples=300)
def complete(ctx):
    """Created exactly when each required parameter is a float; the values
    are kept."""
    name = ctx.choice('set', SETS)
    p = values(ctx, name)
    keys = sorted(p)
    how = ctx.choice('how', ['complete', 'more', 'numpy'] + BAD)
    if how in ('complete', 'more', 'numpy'):
        if how == 'more':
            p.update({'note': 'made up', 'zz': 3, 'IFzz': None})
        if how == 'numpy':
            p[ctx.choice('key', keys)] = np.float64(1.5)
        snap = ctx.snapshot(p)
        rider = ctx.choice('rider', [True, False])
        s = make(ctx, name, p, rider)
        ctx.true('name', s.parameterization == name, s.parameterization)
        ctx.eq('values', dict(s.parameters), dict(p))
        ctx.unchanged('given', snap, p)
        if name in RIDER:
            ctx.true('rider', s.includes_rider is rider)
        return
    k = ctx.choice('key', keys)
    if how == 'missing':
        del p[k]
    else:
        p[k] = {'integer': 3, 'text': '1.0', 'none': None, 'boolean': True,
                'list': [1.0], 'single': np.float32(1.0),
                'array': np.array([1.0, 2.0])}[how]
    if ctx.choice('another', [True, False]):
        p['other'] = 1.0
    ctx.raises('rejected', ValueError, make, ctx, name, p)


OTHER = ['', 'meijaard2007', 'Whipple', 'ParameterSet',
         'Meijaard2007ParameterSet']


@contract('C19', 'parameter_sets.ParameterSet.to_parameterization '
          'parameter_sets.Meijaard2007ParameterSet.to_parameterization '
          'parameter_sets.Moore2019ParameterSet.to_parameterization',
          samples=100)
def own_and_unknown(ctx):
    name = ctx.choice('set', SETS)
    p = values(ctx, name)
    s = make(ctx, name, p)
    snap = ctx.snapshot(s)
    ctx.true('itself', s.to_parameterization(name) is s)
    ctx.raises('unknown', ValueError, s.to_parameterization,
               ctx.choice('to', OTHER + ['Moore2019' if name != 'Moore2019'
                                         else 'MooreRiderLean2012']))
    ctx.unchanged('the set', snap, s)


@contract('C19', 'parameter_sets.Meijaard2007ParameterSet.'
          'to_parameterization', samples=60)
def feedback(ctx):
    """Eight zero gains and nothing else, in a set of its own."""
    p = values(ctx, 'Meijaard2007')
    if ctx.choice('more', [True, False]):
        p['extra'] = ctx.real('extra')
    rider = ctx.choice('rider', [True, False])
    s = make(ctx, 'Meijaard2007', p, rider)
    want = dict(p)
    want.update({k: 0.0 for k in GAINS})
    snap = ctx.snapshot(s, p)
    r = s.to_parameterization('Meijaard2007WithFeedback')
    ctx.true('kind', type(r) is ps.Meijaard2007WithFeedbackParameterSet and
             r.parameterization == 'Meijaard2007WithFeedback')
    ctx.true('rider', r.includes_rider is rider)
    ctx.eq('values', dict(r.parameters), want)
    # gains may then be set without touching the old set
    r.parameters['kTdel_phid'] = 5.0
    r.parameters['mB'] = 5.0
    ctx.unchanged('the set', snap, s, p)


@contract('C19', 'parameter_sets.Moore2019ParameterSet.to_parameterization '
          'parameter_sets.Moore2019ParameterSet._calc_derived_params',
          samples=60)
def rider_conversion(ctx):
    """A new set with exactly the parameters of its kind; the converted set
    stays as it is, may be converted again and gives the same values; the
    feedback set is the plain one and zero gains. (The values: C08.)"""
    p = values(ctx, 'Moore2019')
    s = make(ctx, 'Moore2019', p)
    snap = ctx.snapshot(s.parameters, p)
    r = s.to_parameterization('Meijaard2007')
    ctx.unchanged('the set', snap, s.parameters, p)
    ctx.true('kind', type(r) is ps.Meijaard2007ParameterSet and
             r.parameterization == 'Meijaard2007')
    ctx.true('rider', r.includes_rider is True)
    ctx.true('complete', set(ps.Meijaard2007ParameterSet.par_strings) <=
             set(r.parameters))
    for k in ('g', 'v', 'w', 'c', 'lam', 'rR', 'rF'):
        ctx.eq(k, r.parameters[k], p[k])
    f = s.to_parameterization('Meijaard2007WithFeedback')
    ctx.true('feedback', type(f) is ps.Meijaard2007WithFeedbackParameterSet
             and f.includes_rider is True)
    want = dict(r.parameters)
    want.update({k: 0.0 for k in GAINS})
    ctx.eq('feedback values', dict(f.parameters), want)
    before = dict(r.parameters)
    f.parameters['kTdel_phid'] = f.parameters['mB'] = 5.0
    ctx.unchanged('the set', snap, s.parameters, p)
    ctx.eq('again', dict(s.to_parameterization('Meijaard2007').parameters),
           before)
    ctx.eq('the other', dict(r.parameters), before)


def whipple_moore(ctx, p):
    """Moore 2012: dimensions along and across the steer axis."""
    s, c = ctx.sin(p['lam']), ctx.cos(p['lam'])

    def turned(b):
        xx, xz, zz = p['I%sxx' % b], p['I%sxz' % b], p['I%szz' % b]
        return {'11': xx * c * c - 2 * xz * s * c + zz * s * s,
                '22': p['I%syy' % b],
                '31': (xx - zz) * s * c + xz * (c * c - s * s),
                '33': xx * s * s + 2 * xz * s * c + zz * c * c}
    out = dict(rf=p['rF'], rr=p['rR'], mc=p['mB'], md=p['mR'], me=p['mH'],
               mf=p['mF'], g=p['g'], id11=p['IRxx'], id22=p['IRyy'],
               if11=p['IFxx'], if22=p['IFyy'])
    out['d1'] = (p['w'] + p['c']) * c - p['rR'] * s
    out['d3'] = p['rF'] * s - p['c'] * c
    # along the steer axis: the difference of the wheel centres
    out['d2'] = p['w'] * s - (p['rF'] - p['rR']) * c
    x, z = p['xB'], p['zB'] + p['rR']
    out['l1'], out['l2'] = x * c - z * s, x * s + z * c
    x, z = p['xH'] - p['w'], p['zH'] + p['rF']
    out['l3'], out['l4'] = x * c - z * s, x * s + z * c
    out.update({'ic' + k: v for k, v in turned('B').items()})
    out.update({'ie' + k: v for k, v in turned('H').items()})
    return out


@contract('C19', 'parameter_sets.Meijaard2007ParameterSet.'
          'to_parameterization', samples=60)
def moore2012(ctx):
    p = values(ctx, 'Meijaard2007')
    rider = ctx.choice('rider', [True, False])
    kind = ctx.choice('set', ['Meijaard2007', 'Meijaard2007WithFeedback'])
    want = dict(whipple_moore(ctx, p), v=p['v'])
    if kind != 'Meijaard2007':
        p.update({k: ctx.real(k, sample=(-1., 1.)) for k in GAINS})
    s = make(ctx, kind, p, rider)
    snap = ctx.snapshot(s)
    r = s.to_parameterization('Moore2012')
    ctx.true('kind', type(r) is ps.Moore2012ParameterSet and
             r.parameterization == 'Moore2012')
    ctx.true('rider', r.includes_rider is rider)
    ctx.eq('values', {k: r.parameters[k] for k in want}, want)
    ctx.unchanged('the set', snap, s)


class Yaml(object):
    """Contract of yaml.dump and yaml.load on plain data: what was dumped to
    a file is loaded from it."""
    def __init__(self, ctx):
        self.store = {}
        ctx.replace(yaml, 'dump', self.dump)
        ctx.replace(yaml, 'load', self.load)
        for n in ('safe_dump', 'safe_load', 'full_load'):
            ctx.replace(yaml, n, self.dump if 'dump' in n else self.load)
        ctx.note_stub('yaml')

    def plain(self, x):
        from vc.sym import Sym, unsupported
        if isinstance(x, dict):
            return {k: self.plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.plain(v) for v in x]
        if type(x) is np.float64:
            raise ValueError('a numpy number does not survive')
        if not isinstance(x, (str, int, float, bool, type(None), Sym)):
            unsupported('yaml of %r' % type(x))
        return x

    def dump(self, data, stream=None, **kw):
        key = 'document: %d\n' % len(self.store)
        self.store[key] = self.plain(data)
        if stream is None:
            return key
        stream.write(key)

    def load(self, stream, Loader=None):
        text = stream if isinstance(stream, str) else stream.read()
        return copy.copy(self.store[text])


@contract('C19', 'parameter_sets.ParameterSet.to_yaml '
          'parameter_sets.ParameterSet._from_yaml '
          'parameter_sets.Meijaard2007ParameterSet._from_yaml '
          'parameter_sets.Moore2012ParameterSet._from_yaml', samples=100,
          assumes=['yaml.load(yaml.dump(x)) is x for plain data (the real '
                   'one is used in the bounded run)'])
def yaml_files(ctx):
    """Saved, loaded; saved again over the same file, loaded."""
    if ctx.symbolic:
        Yaml(ctx)
    name = ctx.choice('set', SETS)
    rider = ctx.choice('rider', [True, False])
    size = ctx.choice('size', [1.0, 1e-9, 1e22])
    path = os.path.join(tempfile.mkdtemp(), 'p.yml')
    for k in range(2):
        p = values(ctx, name, ' %d' % k)
        p = {a: v * size for a, v in p.items()}
        if k == 0 and ctx.choice('numpy', [True, False]) and not ctx.symbolic:
            p = {a: np.float64(v) for a, v in p.items()}
        if ctx.choice('gaps', [True, False]):
            p[sorted(p)[3]] = 0.0
        s = make(ctx, name, p, rider)
        snap = ctx.snapshot(s)
        s.to_yaml(path)
        ctx.unchanged('the set', snap, s)
        r = cls(name)._from_yaml(path)
        ctx.true('kind', type(r) is cls(name) and r.parameterization == name)
        ctx.true('names', sorted(r.parameters) == sorted(p))
        if ctx.symbolic:
            ctx.eq('values', dict(r.parameters), p)
        else:
            ctx.true('values', dict(r.parameters) == p, '%r' % r.parameters)
        if name in RIDER:
            ctx.true('rider', r.includes_rider is rider,
                     repr(r.includes_rider))


def shows(ctx, label, text, v, least):
    """A text shows v, rounded to some number of decimals."""
    concrete = not ctx.symbolic or isinstance(v, float)
    try:
        if concrete:
            x = float(text)
        else:
            from vc.sym import tokens
            x = tokens.parse(text)
            if x is not None:
                # not rounded
                ctx.eq(label, x, v)
                return
            x, n = ctx.printed(text)
    except ValueError:
        ctx.true(label, False, repr(text))
        return
    if not concrete:
        ctx.true(label + ' decimals', n >= least, repr(text))
        ctx.eq(label, x, round(v, n))
    else:
        ctx.true(label, abs(x - v) <= .5000001 * 10.0 ** -least +
                 1e-15 * abs(v), '%r for %r' % (text, v))


@contract('C19', 'parameter_sets.ParameterSet.to_ini', samples=60)
def ini_files(ctx):
    """A line name=value for each parameter and nothing else; the old file
    is replaced."""
    name = ctx.choice('set', SETS)
    path = os.path.join(tempfile.mkdtemp(), 'p.ini')
    ctx.printing()
    for i in range(2):
        p = values(ctx, name, ' %d' % i)
        if i == 0 and ctx.choice('more', [False, True]):
            p['extra'] = ctx.real('extra')
        if ctx.choice('zero %d' % i, [False, True]):
            p[sorted(p)[2]] = 0.0
        s = make(ctx, name, p, ctx.choice('rider', [True, False]))
        snap = ctx.snapshot(s, p)
        s.to_ini(path)
        ctx.unchanged('the set', snap, s, p)
        with open(path) as f:
            lines = [x for x in f.read().split('\n') if x.strip()]
        pairs = [x.partition('=') for x in lines]
        names = sorted(a.strip() for a, _, _ in pairs)
        ctx.true('each parameter once', names == sorted(p), repr(
            sorted(set(names) ^ set(p))))
        for a, _, b in pairs:
            if a.strip() in p:
                shows(ctx, a, b.strip(), p[a.strip()], 16)


@contract('C19', 'parameter_sets.ParameterSet._repr_html_', samples=60)
def listing(ctx):
    """The table in a notebook: a row with symbol and value for each
    parameter of this kind of set."""
    import re
    name = ctx.choice('set', SETS)
    p = values(ctx, name)
    ctx.printing()
    s = make(ctx, name, p)
    snap = ctx.snapshot(s, p)
    text = s._repr_html_()
    ctx.unchanged('the set', snap, s, p)
    ctx.true('kind', name in text)
    rows = [re.findall(r'<td[^>]*>(.*?)</td>', r)
            for r in re.findall(r'<tr[^>]*>(.*?)</tr>', text, re.S)]
    rows = [r for r in rows if r]
    ctx.true('rows', len(rows) == len(s.par_strings) and
             all(len(r) == 2 for r in rows), '%d rows' % len(rows))
    keys = list(s.par_strings)
    # symbols are not unique, the place in the table tells them apart
    for k, r in zip(keys, rows):
        ctx.true('symbol', s.par_strings[k] in r[0], r[0])
        shows(ctx, k, r[1], s.parameters[k], 3)


KINDS = {'Meijaard2007Model': 'Meijaard2007',
         'Meijaard2007WithFeedbackModel': 'Meijaard2007WithFeedback',
         'MooreRiderLean2012Model': 'MooreRiderLean2012'}
INTO = {'Meijaard2007': ['Meijaard2007', 'Meijaard2007WithFeedback'],
        'Meijaard2007WithFeedback': ['Meijaard2007WithFeedback'],
        'Moore2019': ['Meijaard2007', 'Meijaard2007WithFeedback'],
        'MooreRiderLean2012': ['MooreRiderLean2012'], 'Moore2012': []}


@contract('C19', 'models.Meijaard2007Model.__init__ '
          'models.Meijaard2007WithFeedbackModel.__init__ '
          'models.MooreRiderLean2012Model.__init__ '
          'parameter_sets.ParameterSet.to_parameterization', samples=60)
def models_of_sets(ctx):
    """A model has the parameters of the set it is made of, in its own
    parameterization, and is only made of a set that converts to that."""
    from bicycleparameters import models
    kind = ctx.choice('model', sorted(KINDS))
    name = ctx.choice('set', SETS)
    to = KINDS[kind]
    p = values(ctx, name)
    s = make(ctx, name, p)
    if to not in INTO[name]:
        if name != 'Meijaard2007WithFeedback':
            ctx.raises('not convertible', ValueError, getattr(models, kind),
                       s)
        return
    snap = ctx.snapshot(s.parameters, p)
    m = getattr(models, kind)(s)
    got = m.parameter_set
    ctx.true('kind', type(got) is cls(to) and got.parameterization == to)
    if name == to:
        ctx.true('the set itself', got is s)
    want = p if name != 'Moore2019' else \
        s.to_parameterization('Meijaard2007').parameters
    ctx.eq('values', {k: v for k, v in got.parameters.items()
                      if k not in GAINS or k in want}, dict(want))
    if to == 'Meijaard2007WithFeedback' and name != to:
        ctx.eq('gains', {k: got.parameters[k] for k in GAINS},
               {k: 0.0 for k in GAINS})
    ctx.unchanged('the set', snap, s.parameters, p)
