"""C17 updating the periods of a raw measurement file."""
import os
import tempfile

from vc.engine import contract, nominal
from contracts.lib import *
from contracts.c16 import uncertain, parser, same, is_uncertain
from bicycleparameters import io, main, period

NOTE = ('proved for files of up to five lines of each kind of line and any '
        'values, up to three updates in a row; the number of lines is bounded, '
        'the values are not')

LINES = {
    'comment': '# Tyres = new, TcB1 = 3.0 and TtP1 , TtB3 = none\n',
    'blank': '\n',
    'value': 'aTire = {0}  # [m] TcF1 = 2.0\n',
    'several': 'lF = {0}, {1}\n',
    'tight': 'whb={0}\n',
    'lower': 'tT = {0}\n',
    'compound': 'TcB1 = {0}\n',
    'torsional': 'TtP1={0} # old #\n',
    'stale': 'TcR1 = {0}+/-{1}\n',
}


def is_period(line):
    return line.startswith('T')


def text_of(ctx, x):
    return str(x) if ctx.symbolic else repr(x)


PERIODS = ['TcB1', 'TtP1', 'TtB3']


def new_periods(ctx, k):
    out = {}
    for i, name in enumerate(PERIODS):
        if i == 2 or (k + i) % 2 == ctx.choice('which', [0, 1]):
            nm = '%s %d' % (name, k)
            out[name] = uncertain(ctx, nm, sample=(.5, 3.)) if i == 1 else \
                ctx.real(nm, sample=(.5, 3.))
    return out


def check(ctx, label, path, kept, old, periods):
    """The kept lines, then one line per period."""
    with open(path) as f:
        now = f.read().splitlines()
    ctx.true(label + ': other lines', [x for x in now if not is_period(x)] ==
             [x.rstrip('\n') for x in kept], '%r from %r' % (now, kept))
    names = [x.split('=')[0].strip() for x in now if is_period(x)]
    ctx.true(label + ': one line for each period',
             sorted(names) == sorted(periods), '%r instead of %r' % (
                 names, sorted(periods)))
    same(ctx, label + ': loaded', io.load_parameter_text_file(path),
         dict(old, **periods))


@contract('C17', 'io.write_periods_to_file io.load_parameter_text_file',
          samples=200, paths=60000, seconds=200)
def update(ctx):
    """Any lines, then one to three updates."""
    parser(ctx)
    kinds = [ctx.choice('line %d' % i, sorted(LINES)) for i in range(2)]
    more = ctx.choice('more', [[], ['torsional', 'comment', 'value'],
                               ['value', 'blank', 'stale']])
    newline = ctx.choice('last newline', [True, False])
    kept, old, lines = [], {}, []
    for i, kind in enumerate(kinds + more):
        a, b = (ctx.real('%s%d' % (n, i), lo=0.0, sample=(.01, 2.))
                for n in 'ab')
        line = LINES[kind].format(text_of(ctx, a), text_of(ctx, b))
        lines.append(line)
        if not is_period(line):
            kept.append(line)
            if kind == 'several':
                old['lF'] = (a + b) / 2
            elif kind not in ('comment', 'blank'):
                old[line.split('=')[0].strip()] = a
    text = ''.join(lines)
    if not newline:
        text = text[:-1]
        if not lines[-1][:-1] and kept:     # the last line was empty
            kept.pop()
    path = os.path.join(tempfile.mkdtemp(), 'BikeMeasured.txt')
    with open(path, 'w') as f:
        f.write(text)
    times = ctx.choice('updates', [1, 3])
    for k in range(times):
        p = new_periods(ctx, k) if k < 2 else new_periods(ctx, 0)
        # the dictionary may hold other measurements too
        given = dict(p, w=1.0) if k % 2 else dict(p)
        snap = ctx.snapshot(nominal(given))
        with quiet():
            io.write_periods_to_file(path, given)
        ctx.unchanged('the dictionary', snap, nominal(given))
        check(ctx, 'update %d' % k, path, kept, old, p)


def same_number(ctx, label, got, want):
    """The value and its deviation, neither rounded nor dropped."""
    ctx.true(label + ' kind', is_uncertain(ctx, got) ==
             is_uncertain(ctx, want), '%r instead of %r' % (got, want))
    if is_uncertain(ctx, want) and is_uncertain(ctx, got):
        ctx.eq(label + ' value', got.nominal_value, want.nominal_value)
        ctx.eq(label + ' deviation', got.std_dev, want.std_dev)


@contract('C17', 'main.Bicycle.calculate_from_measured '
          'io.write_periods_to_file io.load_parameter_text_file',
          samples=60, assumes=[
              'calc_periods_for_files and calculate_benchmark_from_measured '
              'stand for their contracts (C18, C14)'])
def recalculated(ctx):
    """The periods computed from the recordings go to the file and to the
    reduction, together with everything else that was in the file."""
    parser(ctx)
    aW, old, stale = (ctx.real(n, lo=0.0, sample=(.5, 2.))
                      for n in ('aW', 'old', 'stale'))
    force = ctx.choice('force', [True, False])
    split = ctx.choice('split', [True, False])
    newline = ctx.choice('last newline', [True, False])
    root = os.path.join(tempfile.mkdtemp(), 'Bike')
    raw = os.path.join(root, 'RawData')
    os.makedirs(raw)
    path = os.path.join(raw, 'BikeMeasured.txt')
    kept = ['# Bike\n', 'aW = %s\n' % text_of(ctx, aW)]
    was = {'aW': aW}
    if split:
        kept.append('mS = 2.0\n')
        was['mS'] = 2.0
    lines = kept[:1] + ['TcB1 = %s\n' % text_of(ctx, old)] + kept[1:] + [
        'TtH9 = %s\n' % text_of(ctx, stale)]
    with open(path, 'w') as f:
        f.write(''.join(lines)[:None if newline else -1])
    for n in ('BikeFrameTorsionalFirst1.mat', 'BikeForkCompoundFirst2.mat',
              'notes.txt'):
        with open(os.path.join(raw, n), 'w') as f:
            f.write('')
    p = {'TcB1': ctx.real('TcB1', lo=0.0, sample=(.5, 2.)),
         'TtB3': uncertain(ctx, 'TtB3', lo=0.0, sample=(.5, 2.))}
    calls, seen = [], []

    def files(directory, names, fork):
        calls.append((directory, list(names), fork))
        return dict(p)

    def reduction(mp):
        seen.append(dict(mp))
        return 'parameters', 'extras'
    ctx.replace(period, 'calc_periods_for_files', files)
    ctx.replace(main, 'calculate_benchmark_from_measured', reduction)
    b = bicycle_object({}, changes=True, directory=root)
    with quiet():
        got = b.calculate_from_measured(forcePeriodCalc=force)
    ctx.true('result', tuple(got) == ('parameters', 'extras'), repr(got))
    ctx.true('recordings', len(calls) == 1 and calls[0][0] == raw and
             sorted(calls[0][1]) == ['BikeForkCompoundFirst2.mat',
                                     'BikeFrameTorsionalFirst1.mat'],
             repr(calls))
    ctx.true('fork', bool(calls[0][2]) == split)
    check(ctx, 'file', path, kept, was, p)
    mp = seen[0]
    for k, v in dict(was, **p).items():
        ctx.eq('used ' + k, nominal(mp[k]), nominal(v))
    for k, v in p.items():
        same_number(ctx, 'used ' + k, mp[k], v)
        same_number(ctx, 'held ' + k, b.parameters['Measured'][k], v)
    ctx.eq('kept', nominal(b.parameters['Measured']['aW']), aW)
