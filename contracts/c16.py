"""C16 parameter files."""
import builtins
import os
import tempfile

from uncertainties import ufloat

from vc.engine import contract, nominal
from contracts.lib import *
from bicycleparameters import io, main


class Uncertain(object):
    """Contract of a ufloat: a value and a standard deviation, printed as
    value+/-deviation."""
    def __init__(self, v, s):
        self.nominal_value, self.std_dev = v, s

    n = property(lambda self: self.nominal_value)
    s = property(lambda self: self.std_dev)

    def __str__(self):
        return '%s+/-%s' % (str(self.nominal_value), str(self.std_dev))

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __add__(self, o):
        return Uncertain(self.nominal_value + nominal(o), self.std_dev)

    __radd__ = __add__

    def __mul__(self, o):
        return Uncertain(self.nominal_value * nominal(o), self.std_dev)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Uncertain(self.nominal_value / nominal(o), self.std_dev)


def fromstr(text):
    """Contract of uncertainties.ufloat_fromstr (without '+/-' the deviation
    follows from the number of digits)."""
    v, s = text.split('+/-') if '+/-' in text else (text, '1')
    return Uncertain(io.float(v) if 'float' in vars(io) else float(v),
                     io.float(s) if 'float' in vars(io) else float(s))


def uncertain(ctx, name, **dom):
    v = ctx.real(name, **dom)
    s = ctx.real('std ' + name, lo=0.0, sample=(.001, .1))
    if ctx.symbolic:
        return Uncertain(v, s)
    return ufloat(v, s)


def parser(ctx):
    if ctx.symbolic:
        ctx.replace(io, 'ufloat_fromstr', fromstr)
        ctx.note_stub('ufloat_fromstr')


def is_uncertain(ctx, x):
    return isinstance(x, Uncertain) if ctx.symbolic else hasattr(x, 'std_dev')


def same(ctx, label, got, want, close=True):
    """Names and values; a value with uncertainty is printed to one or two
    digits of its deviation (the rule of the Particle Data Group)."""
    ctx.true(label + ' names', sorted(got) == sorted(want),
             '%s instead of %s' % (sorted(got), sorted(want)))
    for k in sorted(want):
        g, w = got[k], want[k]
        if not is_uncertain(ctx, w):
            ctx.eq('%s %s' % (label, k), g, w, tol=1e-13)
            ctx.true('%s %s is certain' % (label, k),
                     not is_uncertain(ctx, g), repr(g))
            continue
        ctx.true('%s %s is uncertain' % (label, k), is_uncertain(ctx, g),
                 repr(g))
        if ctx.symbolic:
            ctx.eq('%s %s' % (label, k), g.nominal_value, w.nominal_value)
            ctx.eq('%s std %s' % (label, k), g.std_dev, w.std_dev)
        else:
            ctx.true('%s %s' % (label, k), abs(
                g.nominal_value - w.nominal_value) <= .145 * w.std_dev,
                '%r instead of %r' % (g, w))
            ctx.true('%s std %s' % (label, k), abs(
                g.std_dev - w.std_dev) <= .145 * w.std_dev,
                'deviation of %r instead of %r' % (g, w))


NAMES = ['c', 'IBxz', 'TcB1', 'rF_mean', 'x 1']


def parameters(ctx, tag='', n=3):
    """Names with certain and uncertain values of any size."""
    out = {}
    for i in range(n):
        name = NAMES[(i * 2) % len(NAMES)]
        big = dict(sample=[(-3., 3.), (-2e8, 2e8), (-1e-7, 1e-7)][i % 3])
        kind = ctx.choice('kind %d%s' % (i, tag), ['float', 'ufloat', 'zero',
                                                   'integer'][:2 + 2 * (not i)])
        if kind == 'float':
            out[name] = ctx.real('%s%s' % (name, tag), **big)
        elif kind == 'ufloat':
            out[name] = uncertain(ctx, '%s%s' % (name, tag), **big)
        else:
            out[name] = {'zero': 0.0, 'integer': 3}[kind]
    return out


def ask(ctx, answers):
    """The user; running out of answers would ask for ever."""
    asked = []
    left = list(answers)

    def user(prompt=''):
        asked.append(prompt)
        if not left:
            raise EOFError('asked again after %r' % (answers,))
        return left.pop(0)
    ctx.replace(builtins, 'input', user)
    return asked


@contract('C16', 'io.write_parameter_text_file io.load_parameter_text_file',
          samples=150, assumes=['ufloat_fromstr(str(u)) has the value and '
                                'deviation of u, to the printed digits'])
def round_trip(ctx):
    """A written file reads back, in a new or existing directory or the
    current one."""
    parser(ctx)
    p = parameters(ctx)
    snap = ctx.snapshot(nominal(p))
    root = tempfile.mkdtemp()
    asked = ask(ctx, [])
    where = ctx.choice('where', ['new', 'nested', 'existing', 'current'])
    path = {'new': os.path.join(root, 'Parameters', 'p.txt'),
            'nested': os.path.join(root, 'a', 'b', 'Parameters', 'p.txt'),
            'existing': os.path.join(root, 'p.txt'),
            'current': 'p.txt'}[where]
    here = os.getcwd()
    os.chdir(root)
    try:
        with quiet():
            ok = io.write_parameter_text_file(path, p)
        got = io.load_parameter_text_file(path)
        files = [x for x in os.walk(root)]
    finally:
        os.chdir(here)
    ctx.true('saved', ok is True, repr(ok))
    ctx.true('not asked', not asked, repr(asked))
    ctx.true('one file', sum(len(f) for _, _, f in files) == 1)
    ctx.unchanged('the dictionary', snap, nominal(p))
    same(ctx, 'read back', got, p)


@contract('C16', 'io.write_parameter_text_file io.load_parameter_text_file',
          samples=150)
def consent(ctx):
    """Only 'y' overwrites; 'n' leaves the file; anything else asks again.
    Several saves in a row leave the last accepted one."""
    parser(ctx)
    first = parameters(ctx, ' first')
    root = tempfile.mkdtemp()
    path = os.path.join(root, 'p.txt')
    kind = ctx.choice('old file', ['written', 'other', 'empty'])
    with quiet():
        if kind == 'written':
            io.write_parameter_text_file(path, first)
        else:
            with open(path, 'w') as f:
                f.write('' if kind == 'empty' else
                        '# notes\nlong = 1.0 \n' * 40)
            first = {} if kind == 'empty' else {'long': 1.0}
    for k in range(2):
        new = {'c': ctx.real('new %d' % k, sample=(-1., 1.))}
        noise = ctx.choice('noise %d' % k, [[], [''], ['Y', 'yes', ' n', 'N']])
        ans = ctx.choice('answer %d' % k, ['y', 'n'])
        with open(path, 'rb') as f:
            before = f.read()
        asked = ask(ctx, noise + [ans])
        with quiet():
            ok = io.write_parameter_text_file(path, new)
        ctx.true('asked', len(asked) == len(noise) + 1, repr(asked))
        ctx.true('result', ok is (ans == 'y'), repr(ok))
        with open(path, 'rb') as f:
            after = f.read()
        if ans == 'n':
            ctx.true('file kept', before == after, '%r -> %r' % (
                before[:200], after[:200]))
        else:
            first = new
        same(ctx, 'after', io.load_parameter_text_file(path), first)


@contract('C16', 'io.load_parameter_text_file', samples=150)
def documented_format(ctx):
    """Spaces, comments, blank lines and comma separated measurements."""
    parser(ctx)
    n = ctx.choice('measurements', [1, 2, 3, 12])
    # which of the measurements come with an uncertainty
    u = ctx.choice('uncertain', [(0, 0, 0), (1, 1, 1), (1, 0, 1), (0, 1, 0)])
    u = (u * n)[:n]
    last = ctx.choice('last line', ['\n', ''])
    sp = ctx.choice('spaces', ['', ' ', '\t '])
    noise = ctx.choice('between', ['', '\n', '  \n', '# note\n',
                                   '   # a = 2.0\n\n'])
    tail = ctx.choice('after', ['', '# [m], measured = 3', ' #x'])
    vals = [ctx.real('v%d' % i, sample=(.05, 2.)) for i in range(n)]
    stds = [ctx.real('s%d' % i, lo=0.0, sample=(.001, .1)) for i in range(n)]
    other = ctx.real('other', sample=(-2., 2.))

    def text(v, s, u):
        v, s = (str(v), str(s)) if ctx.symbolic else (repr(v), repr(s))
        return v + sp + '+/-' + sp + s if u else v
    lines = [noise, 'whb%s=%s%s%s\n' % (sp, sp, (sp + ',' + sp).join(
        text(*a) for a in zip(vals, stds, u)), tail), noise,
        'b%s=%s%s' % (sp, sp, str(other) if ctx.symbolic else repr(other)),
        last]
    path = os.path.join(tempfile.mkdtemp(), 'p.txt')
    with open(path, 'w') as f:
        f.write(''.join(lines))
    got = io.load_parameter_text_file(path)
    ctx.true('names', sorted(got) == ['b', 'whb'], repr(sorted(got)))
    ctx.eq('mean', nominal(got['whb']), sum(vals) / n)
    ctx.eq('value', nominal(got['b']), other)
    if all(u) and not ctx.symbolic:
        ctx.eq('deviation of the mean', got['whb'].std_dev,
               sum(s * s for s in stds) ** .5 / n)
    ctx.true('kind', is_uncertain(ctx, got['whb']) == any(u[:n]))


@contract('C16', 'io.remove_uncertainties', samples=40)
def certain(ctx):
    d = {'a': ctx.real('a'), 'b': uncertain(ctx, 'b', sample=(-1., 1.)),
         'l': [uncertain(ctx, 'l%d' % i, sample=(-1., 1.)) for i in range(2)],
         'n': 0.0}
    keys = list(d)
    got = io.remove_uncertainties(d)
    ctx.eq('values', dict(got), {
        'a': d['a'], 'b': d['b'].nominal_value,
        'l': [x.nominal_value for x in d['l']], 'n': 0.0})
    ctx.true('plain', not any(is_uncertain(ctx, x) for x in [got['a'], got['b'], got['n']] + list(got['l'])))
    ctx.true('same dictionary', list(d) == keys and
             hasattr(d['b'], 'std_dev') and got is not d)


SETS = ['Benchmark', 'Sharp', 'Extra', 'Meijaard', 'Jones', 'Z']


@contract('C16', 'main.Bicycle.save_parameters main.Bicycle.__init__ '
          'io.write_parameter_text_file io.load_parameter_text_file '
          'io.space_out_camel_case', samples=80)
def bicycle_saves(ctx):
    """Every set but the measured one goes to <Short><Set>.txt and a new
    bicycle of the same name loads them; a rider's sets go to the rider's
    directory, with the combined ones in Combined, under the same name."""
    parser(ctx)
    n = ctx.choice('sets', [1, 2, 6])
    rider = ctx.choice('rider', [False, True])
    measured = ctx.choice('measured', [False, True])
    old = ctx.choice('old file', [None, 'y', 'n'])
    root = tempfile.mkdtemp()
    here = os.path.join(root, 'bicycles', 'Bike')
    os.makedirs(here)
    sets = {}
    if measured:
        sets['Measured'] = {'aW': ctx.real('aW')}
    for s in SETS[:n]:
        sets[s] = {'c': ctx.real('c ' + s),
                   'w': uncertain(ctx, 'w ' + s, sample=(.5, 2.))}
    b = bicycle_object(None, changes=True, directory=here)
    b.parameters = sets
    raw = None
    if measured:
        os.makedirs(os.path.join(here, 'RawData'))
        raw = os.path.join(here, 'RawData', 'BikeMeasured.txt')
        with open(raw, 'w') as f:
            f.write('aW = %s\n' % str(sets['Measured']['aW']))
    rsets = {}
    if rider:
        for s in SETS[:n]:
            rsets[s] = {'mB': ctx.real('mB ' + s),
                        'xB': uncertain(ctx, 'xB ' + s, sample=(.1, 1.))}
        b.hasRider, b.riderName, b.riderPar = True, 'Anna', dict(rsets)
        rsets = {'riders/Anna/Parameters/AnnaBike%s.txt' % s: v
                 for s, v in rsets.items()}
        rsets.update({'riders/Anna/Parameters/Combined/AnnaBike%s.txt' % s:
                      sets[s] for s in SETS[:n]})
    else:
        rsets = {'bicycles/Bike/Parameters/Bike%s.txt' % s: sets[s]
                 for s in SETS[:n]}
    asked = ask(ctx, [old] if old else [])
    first = sorted(rsets)[0]
    if old:
        os.makedirs(os.path.dirname(os.path.join(root, first)))
        with open(os.path.join(root, first), 'w') as f:
            f.write('old = 1.0\n')
        if old == 'n':
            rsets[first] = {'old': 1.0}
    with quiet():
        b.save_parameters()
    ctx.true('asked', len(asked) == bool(old), repr(asked))
    found = sorted(os.path.relpath(os.path.join(d, x), root)
                   for d, _, fs in os.walk(root) for x in fs)
    want = sorted(list(rsets) + ([os.path.relpath(raw, root)] if raw else []))
    ctx.true('files', found == want, '%s instead of %s' % (found, want))
    for name in sorted(rsets):
        same(ctx, name, io.load_parameter_text_file(os.path.join(root, name)),
             rsets[name])
    if rider:
        return
    before = {x: open(os.path.join(root, x)).read() for x in found}
    with quiet():
        again = main.Bicycle('Bike', root)
    ctx.true('bare', again.hasRider is False and again.bicycleName == 'Bike')
    expect = {s: rsets['bicycles/Bike/Parameters/Bike%s.txt' % s]
              for s in SETS[:n]}
    if measured:
        expect['Measured'] = sets['Measured']
    ctx.true('sets', sorted(again.parameters) == sorted(expect),
             repr(sorted(again.parameters)))
    for s in sorted(expect):
        same(ctx, 'loaded ' + s, again.parameters[s], expect[s])
    ctx.true('loading writes nothing', before == {
        x: open(os.path.join(root, x)).read() for x in found})


@contract('C16', 'main.Bicycle._check_for_bicycle_directory '
          'main.Bicycle.__init__', samples=20)
def no_directory(ctx):
    """A bicycle is only made of its directory; nothing is created."""
    root = tempfile.mkdtemp()
    what = ctx.choice('there', ['nothing', 'bicycles', 'another', 'a file'])
    if what != 'nothing':
        os.makedirs(os.path.join(root, 'bicycles',
                                 'Bikes' if what == 'another' else ''))
    if what == 'a file':
        with open(os.path.join(root, 'bicycles', 'Bike'), 'w') as f:
            f.write('w = 1.0\n')

    def make():
        with quiet():
            return main.Bicycle('Bike', root)
    before = sorted(os.walk(root))
    ctx.raises('no directory', ValueError, make)
    ctx.true('nothing created', sorted(os.walk(root)) == before)
