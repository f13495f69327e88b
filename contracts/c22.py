"""C22 parameter tables."""
import os
import tempfile

from uncertainties import ufloat

from vc.engine import contract
from contracts.lib import *
from contracts.c16 import Uncertain, uncertain
from bicycleparameters import tables

NOTE = ('rounding is proved for every value and for uncertainties from 1e-13 '
        'to 1e7; tables are proved for up to three bicycles with any mixture '
        'of certain, uncertain and missing values of the chosen names, the '
        'names being a bounded choice')

LOWEST, HIGHEST = -13, 7


class Certain(object):
    """A number that is not a ufloat."""
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return str(self.v)


@contract('C22', 'tables.uround', samples=300)
def rounding(ctx):
    """Value and uncertainty to the decimal place of the leading digit of the
    uncertainty."""
    kind = ctx.choice('kind', ['decade', 'decade', 'decade', 'zero',
                               'certain'])
    x = ctx.real('value', sample=(-50., 50.))
    if kind == 'certain':
        if ctx.symbolic:
            x = Certain(x)
        ctx.true('text', tables.uround(x) == str(x), repr(tables.uround(x)))
        return
    if kind == 'zero':
        got = tables.uround(Uncertain(x, 0.0) if ctx.symbolic else
                            ufloat(x, 0.0))
        v, s = got.split('+/-')
        ctx.eq('value', number(ctx, v), x)
        ctx.eq('uncertainty', number(ctx, s), 0.0)
        return
    k = ctx.choice('decade', list(range(LOWEST, HIGHEST)))
    # leading digit in the place 10^k (powers of ten themselves are exact in
    # real arithmetic but either place is right for their neighbours)
    unit = 10.0 ** k
    s = ctx.real('uncertainty', sample=(1.0001 * unit, 9.9999 * unit))
    if ctx.symbolic:
        from fractions import Fraction
        from vc.sym import const
        unit = const(Fraction(10) ** k)
    ctx.assume(s >= unit)
    ctx.assume(s < 10 * unit)
    ctx.printing()
    got = tables.uround(Uncertain(x, s) if ctx.symbolic else ufloat(x, s))
    parts = got.split('+/-')
    ctx.true('two parts', len(parts) == 2, repr(got))
    (gx, nx), (gs, ns) = [ctx.printed(t) for t in parts]
    ctx.true('decimals', nx == ns == max(0, -k), '%r for decade %d' % (got, k))
    slack = 0 if ctx.symbolic else 1e-9 * unit + 1e-14 * abs(x)
    for label, g, w in (('value', gx, x), ('uncertainty', gs, s)):
        d = g - w
        ctx.true(label + ' rounded', d <= unit / 2 + slack, got)
        ctx.true(label + ' rounded', -d <= unit / 2 + slack, got)
        m = g / unit
        if ctx.symbolic:
            from vc import sym
            ctx.true(label + ' whole units', sym.fn('rint', sym.must(m)) == m)
        else:
            ctx.true(label + ' whole units',
                     abs(m - round(m)) <= 1e-9 + 1e-14 * abs(m), got)


def number(ctx, text):
    f = vars(tables).get('float', float)
    return f(text)


CASES = [('Measured', False, tuple, ['w', 'IBxz', 'c']),
         ('Benchmark', True, list, ['lam', 'Tcr11', 'aB1']),
         ('Benchmark', False, list, ['gamma', 'xB', 'd']),
         ('Measured', True, tuple, ['alphaF2', 'mB', 'Ic'])]


def parameter_sets(ctx, source, names):
    """Bicycles with certain, uncertain and missing values."""
    n = ctx.choice('bicycles', [1, 2, 3])
    bikes = []
    for i in range(n):
        par = {}
        for j, k in enumerate(names):
            kinds = ['value', 'uncertain', 'missing']
            if n == 3:
                # one pattern with each kind in each row and column
                kind = kinds[(i + j) % 3]
            elif (i + j) % 2:
                kind = ctx.choice('%s of %d' % (k, i), kinds)
            else:
                kind = ctx.choice('%s of %d' % (k, i), kinds[:2])
            if kind == 'uncertain':
                par[k] = uncertain(ctx, '%s of %d' % (k, i),
                                   sample=(-9., 99.))
            elif kind == 'value':
                v = ctx.real('%s of %d' % (k, i), sample=(-9., 99.))
                par[k] = Certain(v) if ctx.symbolic else v
        other = {'zz': 1.0, names[0]: 2.0}
        bikes.append(bicycle_object(par))
        bikes[-1].bicycleName = ['Browser', 'Yellow Revised Long Name',
                                 'X'][(i + n) % 3]
        bikes[-1].parameters = {
            source: par,
            'Benchmark' if source == 'Measured' else 'Measured': other}
    return bikes


def cells(ctx, bikes, source, k):
    """What a row has to show."""
    out = []
    for b in bikes:
        if k not in b.parameters[source]:
            out += ['NA', 'NA']
            continue
        v = b.parameters[source][k]
        text = tables.uround(v)
        out += text.split('+/-') if '+/-' in text else [str(v), 'NA']
    return out


def stub_uround(ctx):
    """The contract of uround: the value and uncertainty in one text."""
    ctx.callee(tables, 'uround', lambda v: str(v))


def grid(text):
    """Cells of a reStructuredText grid table and its head."""
    lines = text.split('\n')
    assert lines, 'empty'
    width = {len(ln) for ln in lines}
    if len(width) != 1:
        return 'lines of different width %s' % sorted(width), None, None
    rows, rules = [], []
    for i, ln in enumerate(lines):
        if i % 2 == 0:
            if set(ln) - set('+-='):
                return 'line %d is no rule: %r' % (i, ln), None, None
            rules.append([j for j, c in enumerate(ln) if c == '+'])
            if ('=' in ln) != (i == 2) and ('=' in ln) != (i == 4):
                return 'head rule in line %d' % i, None, None
        else:
            at = [j for j, c in enumerate(ln) if c == '|']
            rows.append([ln[a + 1:b].strip() for a, b in zip(at, at[1:])])
            if at != rules[-1] and not set(at) <= set(rules[-1]):
                return 'columns of line %d are not those above' % i, None, \
                    None
            if at[0] != 0 or at[-1] != len(ln) - 1:
                return 'line %d is not closed' % i, None, None
    if rules[-1] != rules[-2]:
        return 'bottom rule', None, None
    return None, rows, rules


@contract('C22', 'tables.Table.__init__ tables.Table.generate_variable_list '
          'tables.Table.generate_table_data tables.Table.create_rst_table '
          'tables.to_latex', samples=120)
def table(ctx):
    source, latex, kind, names = CASES[ctx.choice('case', [0, 1, 2, 3])]
    bikes = parameter_sets(ctx, source, names)
    if ctx.choice('twice', [False, True]):
        bikes = list(bikes) + [bikes[0]]
    before = ctx.snapshot([b.parameters for b in bikes],
                          [b.bicycleName for b in bikes])
    stub_uround(ctx)
    t = tables.Table(source, latex, kind(bikes))
    names = sorted({k for b in bikes for k in b.parameters[source]},
                   key=lambda k: k.lower())
    head = [tables.to_latex(k) if latex else k for k in names]
    ctx.true('names', [r[0] for r in t.tableData] == head,
             '%r instead of %r' % ([r[0] for r in t.tableData], head))
    want = [[h] + cells(ctx, bikes, source, k)
            for h, k in zip(head, names)]
    for row, w in zip(t.tableData, want):
        ctx.true('cells', list(row) == w, '%r instead of %r' % (row, w))
    data = ctx.snapshot(t.tableData, t.allVariables)
    d = tempfile.mkdtemp()
    path = os.path.join(d, 'table.rst')
    texts = [t.create_rst_table(), t.create_rst_table(path),
             t.create_rst_table()]
    ctx.true('repeatable', texts[0] == texts[1] == texts[2],
             'renderings differ')
    with open(path) as f:
        ctx.true('file', f.read() == texts[0])
    ctx.unchanged('table data', data, t.tableData, t.allVariables)
    ctx.unchanged('bicycles', before, [b.parameters for b in bikes],
                  [b.bicycleName for b in bikes])
    bad, rows, rules = grid(texts[0])
    ctx.true('grid', bad is None, str(bad) + '\n' + texts[0])
    if bad:
        return
    ctx.true('bicycle names', rows[0] == [''] + [b.bicycleName for b in
                                                 bikes], repr(rows[0]))
    v, s = (':math:`v`', r':math:`\sigma`') if latex else ('v', 'sigma')
    ctx.true('head', rows[1] == ['Variable'] + [v, s] * len(bikes),
             repr(rows[1]))
    ctx.true('rows', len(rows) == 2 + len(names), '%d rows' % len(rows))
    for row, w in zip(rows[2:], want):
        w = [':math:`%s`' % w[0] if latex else w[0]] + w[1:]
        ctx.true('shown', row == w, '%r instead of %r' % (row, w))


NAMES = ('f w gamma g lcs hbb lsp lst lamst whb LhbF LhbR d l c lam xcl zcl '
         'ds1 ds3 IBxx IBxz IByy IBzz IFxx IFyy IHxx IHxz IHyy IHzz IRxx IRyy '
         'mB mF mH mR rF rR xB xH zB zH aB1 aB2 aB3 aF1 aH1 aH2 aH3 aR1 aS1 '
         'alphaB1 alphaB2 alphaB3 alphaF1 alphaH1 alphaH2 alphaH3 alphaR1 '
         'nF nR dF dR lF lR mP lP dP TcB1 TcB2 TcB3 TtB1 TtB2 TtB3 TcF1 TtF1 '
         'TcH1 TcH2 TcH3 TtH1 TtH2 TtH3 TcR1 TtR1 TtP1 TcS1 TcG1 TtS1 '
         'aB10 alphaB10 alphaB11 alphaH10 TcB10 TcH10 TtB10').split()


@contract('C22', 'tables.to_latex', numeric=True, samples=1)
def names_stay_distinct(ctx):
    """Every name of the documentation has its own formula."""
    shown = {}
    for k in NAMES:
        shown.setdefault(tables.to_latex(k), []).append(k)
    for tex, ks in shown.items():
        ctx.true('distinct', len(ks) == 1, '%s all show as %s' % (ks, tex))
        ctx.true('closed', tex.count('{') == tex.count('}'), tex)
        plain = ''.join(c for c in tex.replace('\\lambda', 'lam').replace(
            '\\gamma', 'gamma').replace('\\alpha', 'alpha') if c.isalnum())
        ctx.true('keeps the name', plain.lower() == ks[0].lower(), '%s for %s' % (tex, ks[0]))
