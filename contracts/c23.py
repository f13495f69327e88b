"""C23 the web app."""
import copy
import math
import os
import re

import dash

from vc.engine import contract, nominal
from contracts.lib import *
from uncertainties import ufloat
from bicycleparameters import app, bicycle, inertia, main, rider

NOTE = ('proved for every table entry and every bundled bicycle; the tables '
        'of the bundled files, the traces of real plotly figures and the '
        'visits, in which a stand-in for the page follows the callbacks that '
        'Dash declares, are bounded checks; the JavaScript of Dash is outside')

# what the labels of the tables say
ROWS = {
    'Radius [m]:': {'Front Wheel [F]': 'rF', 'Rear Wheel [R]': 'rR'},
    'Mass [kg]:': {'Front Wheel [F]': 'mF', 'Rear Wheel [R]': 'mR'},
    'Moment Ixx [kg*m²]:': {
        'Front Wheel [F]': 'IFxx', 'Rear Wheel [R]': 'IRxx',
        'Rear Body [B]': 'IBxx', 'Front Assembly [H]': 'IHxx'},
    'Moment Iyy [kg*m²]:': {
        'Front Wheel [F]': 'IFyy', 'Rear Wheel [R]': 'IRyy',
        'Rear Body [B]': 'IByy', 'Front Assembly [H]': 'IHyy'},
    'Center of Mass X [m]:': {'Rear Body [B]': 'xB',
                              'Front Assembly [H]': 'xH'},
    'Center of Mass Z [m]:': {'Rear Body [B]': 'zB',
                              'Front Assembly [H]': 'zH'},
    'Total Mass [kg]:': {'Rear Body [B]': 'mB', 'Front Assembly [H]': 'mH'},
    'Moment Izz [kg*m²]:': {'Rear Body [B]': 'IBzz',
                            'Front Assembly [H]': 'IHzz'},
    'Moment Ixz [kg*m²]:': {'Rear Body [B]': 'IBxz',
                            'Front Assembly [H]': 'IHxz'},
    'Wheel Base [m]:': {'Parameters': 'w'},
    'Trail [m]:': {'Parameters': 'c'},
    'Steer Axis Tilt [degrees]:': {'Parameters': 'lam'},
    'Gravity [N/kg]:': {'Parameters': 'g'},
}
KEYS = sorted(k for row in ROWS.values() for k in row.values())
TABLES = [('wheel-table', 'WHEEL_COLUMNS'), ('frame-table', 'FRAME_COLUMNS'),
          ('general-table', 'GENERAL_COLUMNS')]


def shown(ctx, tables):
    """{parameter: value} that a reader of the tables sees."""
    out = {}
    for (name, cols), data in zip(TABLES, tables):
        cols = getattr(app, cols)
        for row in data:
            for c in cols:
                if c['id'] == 'label':
                    continue
                k = ROWS[row['label']][c['name']]
                ctx.true('shown once', k not in out, k)
                out[k] = row[c['id']]
            ctx.true('columns', set(row) == {c['id'] for c in cols},
                     repr(sorted(row)))
    ctx.true('all shown', sorted(out) == KEYS,
             'not shown: %s' % (set(KEYS) - set(out)))
    return out


class Garage(object):
    """Bicycles with any parameters in place of those of the files."""
    def __init__(self, ctx, par):
        self.asked = asked = []

        def __init__(bike, bicycleName, pathToData='.', **kw):
            asked.append((bicycleName, pathToData))
            like = bicycle_object(copy.copy(par), changes=True,
                                  bicycleName=bicycleName)
            vars(bike).update(vars(like))
        ctx.replace(main.Bicycle, '__init__', __init__)
        if ctx.symbolic:
            ctx.note_stub('Bicycle (its files are the subject of C16)')


def any_bicycle(ctx):
    par = reals(ctx, KEYS)
    return par, Garage(ctx, par)


def to_degrees(ctx, x):
    return x * 180 / ctx.pi


@contract('C23', 'app.populate_wheel_data app.new_par '
          'io.remove_uncertainties', samples=60)
def tables(ctx):
    """Every parameter in the cell that bears its name."""
    par, garage = any_bicycle(ctx)
    name = ctx.choice('name', app.OPTIONS)
    before = ctx.snapshot(par)
    got = shown(ctx, app.populate_wheel_data(name, 0))
    for k in KEYS:
        want = to_degrees(ctx, par[k]) if k == 'lam' else par[k]
        ctx.eq(k, got[k], want)
    ctx.true('bicycle', {a[0] for a in garage.asked} == {name} and
             {a[1] for a in garage.asked} == {app.PATH_TO_APP_DATA},
             repr(garage.asked))
    ctx.unchanged('bicycle', before, par)


class Plots(object):
    """Which parameters and options the figures were made with."""
    def __init__(self, ctx):
        self.made = {}

        def geometry(bike, **kw):
            self.made['geometry'] = (copy.copy(
                bike.parameters['Benchmark']), bike.bicycleName, kw)
            return 'geometry figure'

        def eigen(bike, speeds, **kw):
            self.made['eigenvalues'] = (copy.copy(
                bike.parameters['Benchmark']), bike.bicycleName,
                dict(kw, speeds=speeds))
            return 'eigenvalue figure'
        ctx.replace(main.Bicycle, '_plot_bicycle_geometry_plotly', geometry)
        ctx.replace(main.Bicycle, '_plot_eigenvalues_vs_speed_plotly', eigen)
        if ctx.symbolic:
            ctx.note_stub('plotly figures')


class CallbackContext(object):
    def __init__(self, trigger):
        self.triggered = [{'prop_id': trigger, 'value': None}]
        self.triggered_id = trigger.split('.')[0]
        self.triggered_prop_ids = {trigger: self.triggered_id}


def update(ctx, name, tables, trigger, options, slider):
    wheel, frame, general = tables
    c = CallbackContext(trigger)
    c.inputs = {'bike-dropdown.value': name, 'wheel-table.data': wheel,
                'frame-table.data': frame, 'general-table.data': general,
                'geometry-checklist.value': options,
                'range-slider.value': slider}
    c.inputs_list = [{'id': k.split('.')[0], 'property': k.split('.')[1],
                      'value': v} for k, v in c.inputs.items()]
    c.states, c.args_grouping = {}, None
    ctx.replace(dash, 'callback_context', c)
    ctx.replace(dash, 'ctx', c)
    return app.plot_update(name, wheel, frame, general, options, slider)


def make_tables(ctx):
    """Tables with anything in their cells."""
    out, values = [], {}
    labels = {'wheel-table': app.WHEEL_LABELS,
              'frame-table': app.FRAME_LABELS,
              'general-table': app.GENERAL_LABELS}
    for name, cols in TABLES:
        data = []
        for lab in labels[name]:
            row = {'label': lab}
            for c in getattr(app, cols):
                if c['id'] != 'label':
                    k = ROWS[lab][c['name']]
                    values[k] = ctx.real('cell ' + k, sample=(
                        (-60., 60.) if k == 'lam' else (-20., 20.)))
                    row[c['id']] = values[k]
            data.append(row)
        out.append(data)
    return out, values


OPTION_SETS = [[], ['centers'], ['ellipse'], ['stability'],
               ['centers', 'ellipse'], ['stability', 'centers'],
               ['ellipse', 'stability', 'centers']]
EDITED = ['wheel-table.data', 'frame-table.data', 'general-table.data',
          'geometry-checklist.value', 'range-slider.value']


def options(ctx, plots, opts, slider, name):
    pg, ng, kg = plots.made['geometry']
    pe, ne, ke = plots.made['eigenvalues']
    ctx.true('which bicycle', ng == ne == name, '%s %s' % (ng, ne))
    ctx.true('centers', bool(kg.get('centerOfMass', True)) ==
             ('centers' in opts), repr(kg))
    ctx.true('ellipses', bool(kg.get('inertiaEllipse', True)) ==
             ('ellipse' in opts), repr(kg))
    ctx.true('stability', bool(ke.get('stability_region', True)) ==
             ('stability' in opts), repr(ke))
    ctx.true('not shown', not kg.get('show', True) and
             not ke.get('show', True), 'figures pop up on the server')
    v = np.asarray(ke['speeds'], dtype=float)
    ctx.true('speed range', len(v) >= (10 if slider[1] > slider[0] else 1)
             and abs(v.min() - slider[0]) < 1e-9
             and abs(v.max() - slider[1]) < 1e-9,
             '%s for the slider %s' % (v[[0, -1]] if len(v) else v, slider))
    ctx.true('speed steps', np.all(np.abs(np.diff(np.sort(v))) < 0.5),
             'coarse')


@contract('C23', 'app.plot_update', samples=60)
def plotted(ctx):
    """Both figures show the bicycle with exactly the values of the cells."""
    par, garage = any_bicycle(ctx)
    plots = Plots(ctx)
    name = ctx.choice('name', app.OPTIONS[:3])
    case = ctx.choice('case', list(range(len(OPTION_SETS))))
    trigger = ctx.choice('trigger', EDITED)
    slider = ctx.choice('slider', [[0, 10], [-45, 45], [5, 10], [5, 5]])
    tabs, values = make_tables(ctx)
    update(ctx, name, tabs, trigger, list(OPTION_SETS[case]), list(slider))
    ctx.true('both figures', sorted(plots.made) == ['eigenvalues',
                                                    'geometry'])
    options(ctx, plots, OPTION_SETS[case], slider, name)
    for fig in ('geometry', 'eigenvalues'):
        used = plots.made[fig][0]
        ctx.true(fig + ' names', sorted(used) == KEYS, repr(sorted(used)))
        for k in KEYS:
            want = values[k] * ctx.pi / 180 if k == 'lam' else values[k]
            ctx.eq('%s %s' % (fig, k), nominal(used[k]), want)


@contract('C23', 'app.plot_update app.populate_wheel_data app.new_par',
          samples=40)
def unedited(ctx):
    """Chosen in the menu, or from its own tables: the same bicycle, and
    again after another visit."""
    par, garage = any_bicycle(ctx)
    before = ctx.snapshot(par)
    plots = Plots(ctx)
    name = ctx.choice('name', app.OPTIONS[:3])
    for trigger in ['bike-dropdown.value'] + EDITED[:2]:
        tabs = app.populate_wheel_data(name, 1)
        update(ctx, name, list(tabs), trigger, ['centers'], [0, 10])
        for fig in ('geometry', 'eigenvalues'):
            used, who, _ = plots.made[fig]
            ctx.true('which bicycle', who == name)
            ctx.true('names', sorted(used) == KEYS)
            for k in KEYS:
                ctx.eq('%s %s' % (fig, k), nominal(used[k]), par[k])
        plots.made.clear()
    ctx.true('bicycle', {a[0] for a in garage.asked} == {name} and
             {a[1] for a in garage.asked} == {app.PATH_TO_APP_DATA},
             repr(garage.asked))
    ctx.unchanged('bicycle', before, par)


def file_values(name):
    out = {}
    d = os.path.join(os.path.dirname(os.path.abspath(app.__file__)),
                     'app-data', 'bicycles', name, 'Parameters')
    with open(os.path.join(d, name + 'Benchmark.txt')) as f:
        for ln in f:
            ln = ln.split('#')[0]
            if '=' in ln:
                k, v = ln.split('=')
                out[k.strip()] = float(re.split(r'\+/-', v)[0])
    return out


@contract('C23', 'app.new_par app.populate_wheel_data app.plot_update '
          'main.Bicycle.__init__', symbolic=False, samples=60)
def bundled(ctx):
    """The files of the menu's bicycles (bounded: the bundled files)."""
    name = ctx.choice('name', app.OPTIONS)
    want = file_values(name)
    with quiet():
        par = app.new_par(name)
        for k in want:
            ctx.true('nominal', isinstance(par[k], (int, float)), k)
            ctx.eq('new_par ' + k, par[k], want[k], tol=1e-15)
        tabs = app.populate_wheel_data(name, 0)
        got = shown(ctx, tabs)
        for k in KEYS:
            w = want[k] * 180 / np.pi if k == 'lam' else want[k]
            ctx.eq('table ' + k, got[k], w, tol=1e-13)
        plots = Plots(ctx)
        key = ctx.choice('edit', KEYS)
        x = ctx.real('new value', sample=(-20., 20.))
        edited = copy.deepcopy(list(tabs))
        for (t, cols), data in zip(TABLES, edited):
            for row in data:
                for c in getattr(app, cols):
                    if ROWS[row['label']].get(c['name']) == key:
                        row[c['id']] = x
        update(ctx, name, edited, ctx.choice('trigger', EDITED), [], [0, 10])
    for fig in plots.made:
        used = plots.made[fig][0]
        for k in KEYS:
            w = x if k == key else want[k]
            if k == 'lam' and k == key:
                w = x * np.pi / 180
            ctx.eq('%s %s' % (fig, k), nominal(used[k]), w, tol=1e-12)


# ------------------------------------------------------------- the whole app
class Browser(object):
    """A visitor: what Dash's page does with the layout, the callbacks' inputs
    and outputs and the answers of the server."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.web = app.app.server.test_client()
        self.props, self.seen = {}, {}
        self.walk(self.get('/_dash-layout'))
        self.calls = [c for c in self.get('/_dash-dependencies')
                      if not c.get('clientside_function')]
        for c in self.calls:
            for d in c['inputs'] + c['state']:
                ctx.true('a part of the page', d['id'] in self.seen, str(d))
            for o in self.outputs(c):
                ctx.true('a part of the page', o[0] in self.seen, str(o))
        self.run([c for c in self.calls if not c['prevent_initial_call']],
                 set())

    def get(self, path):
        return self.web.get(path).get_json()

    def walk(self, x):
        if isinstance(x, list):
            for e in x:
                self.walk(e)
        elif isinstance(x, dict) and isinstance(x.get('props'), dict):
            p = x['props']
            if 'id' in p:
                self.ctx.true('one part of a name', p['id'] not in self.seen)
                self.seen[p['id']] = p
                for k, v in p.items():
                    self.props[p['id'], k] = v
            for v in p.values():
                self.walk(v)

    @staticmethod
    def outputs(c):
        o = c['output']
        names = o[2:-2].split('...') if o.startswith('..') else [o]
        return [tuple(n.split('@')[0].rsplit('.', 1)) for n in names]

    def run(self, pending, changed):
        todo = [(c, set(changed)) for c in pending]
        for _ in range(20):
            if not todo:
                return
            for i, (c, why) in enumerate(todo):
                ins = {(d['id'], d['property']) for d in c['inputs']}
                if not any(ins & set(self.outputs(o)) for o, _ in todo
                           if o is not c):
                    break
            del todo[i]
            new = self.call(c, [d for d in c['inputs'] if (
                d['id'], d['property']) in why])
            for o in self.calls:
                if {(d['id'], d['property']) for d in o['inputs']} & new:
                    for k, (q, w) in enumerate(todo):
                        if q is o:
                            w |= new
                            break
                    else:
                        todo.append((o, set(new)))
        self.ctx.true('the page comes to rest', False)

    def call(self, c, changed):
        def given(ds):
            out = []
            for d in ds:
                e = {'id': d['id'], 'property': d['property']}
                if (d['id'], d['property']) in self.props:
                    e['value'] = self.props[d['id'], d['property']]
                out.append(e)
            return out
        outs = [{'id': i, 'property': p} for i, p in self.outputs(c)]
        r = self.web.post('/_dash-update-component', json={
            'output': c['output'],
            'outputs': outs if c['output'].startswith('..') else outs[0],
            'inputs': given(c['inputs']), 'state': given(c['state']),
            'changedPropIds': ['%s.%s' % (d['id'], d['property'])
                               for d in changed]})
        if r.status_code == 204:
            return set()
        self.ctx.true('answered', r.status_code == 200, '%s for %s' % (
            r.status, c['output']))
        new = set()
        for i, props in r.get_json()['response'].items():
            for p, v in props.items():
                new.add((i, p))
                self.props[i, p] = v
        return new

    def set(self, i, p, v):
        self.ctx.true('a part of the page', i in self.seen, i)
        self.props[i, p] = v
        self.run([c for c in self.calls if any(
            (d['id'], d['property']) == (i, p) for d in c['inputs'])],
            {(i, p)})

    def cells(self):
        """{parameter: (table, row, column)}."""
        out = {}
        for t, _ in TABLES:
            for i, row in enumerate(self.props[t, 'data']):
                for c in self.props[t, 'columns']:
                    if c['id'] != 'label':
                        k = ROWS[row['label']][c['name']]
                        self.ctx.true('shown once', k not in out, k)
                        self.ctx.true('can be edited', c.get(
                            'editable', self.props.get((t, 'editable'))), k)
                        out[k] = t, i, c['id']
        self.ctx.true('all shown', sorted(out) == KEYS,
                      'not shown: %s' % (set(KEYS) - set(out)))
        return out


TICKS = {'mass': 'centers', 'ellips': 'ellipse', 'stab': 'stability'}


@contract('C23', 'app.populate_wheel_data app.plot_update app.new_par '
          'app.input_triggers_spinner1 app.input_triggers_spinner2',
          symbolic=False, samples=12, wild=False)
def visits(ctx):
    """Two visitors of the running app, each at anything in turn: the tables
    and figures are of what each of them has chosen and typed (bounded)."""
    ctx.replace(app.time, 'sleep', lambda s: None)
    plots = Plots(ctx)
    with quiet():
        people = [Browser(ctx) for i in range(2)]
        state = []
        for b in people:
            name = b.props['bike-dropdown', 'value']
            state.append(dict(name=name, par=file_values(name), ticks=set(
                TICKS[k] for o in b.props['geometry-checklist', 'options']
                for k in TICKS if k in o['label'].lower() and o['value'] in
                b.props['geometry-checklist', 'value']),
                slider=list(b.props['range-slider', 'value']), last={}))
            check_page(ctx, b, state[-1], None)
        for step in range(8):
            who = ctx.choice('who%d' % step, [0, 1])
            b, s = people[who], state[who]
            what = ctx.choice('what%d' % step, ['choose', 'edit', 'edit',
                                                'edit', 'reset', 'tick',
                                                'slide'])
            plots.made.clear()
            if what == 'choose':
                menu = b.props['bike-dropdown', 'options']
                o = menu[ctx.choice('bike%d' % step, range(len(menu)))]
                ctx.true('menu', o['label'].split()[0] == o['value'] and
                         o['value'] in app.OPTIONS, str(o))
                s.update(name=o['value'], par=file_values(o['value']))
                b.set('bike-dropdown', 'value', o['value'])
            elif what == 'edit':
                k = ctx.choice('cell%d' % step, KEYS)
                x = ctx.real('entry%d' % step, sample=(-20., 20.))
                t, i, c = b.cells()[k]
                data = copy.deepcopy(b.props[t, 'data'])
                data[i][c] = x
                s['par'] = dict(s['par'], **{
                    k: x * math.pi / 180 if k == 'lam' else x})
                b.set(t, 'data', data)
            elif what == 'reset':
                s['par'] = file_values(s['name'])
                b.set('reset-button', 'n_clicks',
                      b.props['reset-button', 'n_clicks'] + 1)
            elif what == 'tick':
                o = b.props['geometry-checklist', 'options']
                o = o[ctx.choice('tick%d' % step, range(len(o)))]
                name, = [TICKS[k] for k in TICKS if k in o['label'].lower()]
                s['ticks'] = s['ticks'] ^ {name}
                v = list(b.props['geometry-checklist', 'value'])
                v.remove(o['value']) if o['value'] in v else v.append(
                    o['value'])
                b.set('geometry-checklist', 'value', v)
            else:
                lo = ctx.choice('lo%d' % step, [-45, -10, 0, 5])
                s['slider'] = [lo, lo + ctx.choice('span%d' % step,
                                                   [0, 5, 10, 30])]
                b.set('range-slider', 'value', list(s['slider']))
            check_page(ctx, b, s, plots)
            check_page(ctx, people[1 - who], state[1 - who], None)


def check_page(ctx, b, s, plots):
    for k, (t, i, c) in b.cells().items():
        want = s['par'][k] * (180 / math.pi if k == 'lam' else 1)
        ctx.eq('cell ' + k, float(b.props[t, 'data'][i][c]), want, tol=1e-12)
    shown = sorted(str(b.props.get((g, 'figure'))) for g in b.seen
                   if (g, 'figure') in b.props)
    ctx.true('both figures', shown == ['eigenvalue figure',
                                       'geometry figure'], str(shown))
    for k in ('geometry', 'eigen'):
        ctx.true('a loading figure stays', b.props[k + '-load', 'children'] ==
                 b.props[k + '-bin', 'children'])
    if plots is None:
        return
    ctx.true('figures are new', sorted(plots.made) == ['eigenvalues',
                                                       'geometry'],
             str(sorted(plots.made)))
    options(ctx, plots, s['ticks'], s['slider'], s['name'])
    for fig in plots.made:
        for k in KEYS:
            ctx.eq('%s %s' % (fig, k), nominal(plots.made[fig][0][k]),
                   s['par'][k], tol=1e-12)


MODES = {'Weave': 2, 'Capsize': 1, 'Castering': 1}


class Signs(np.ndarray):
    """Real parts; comparing them gives what numpy indexes with."""
    def compared(self, f):
        return np.array([bool(f(x)) for x in np.asarray(self).flat],
                        dtype=bool).reshape(self.shape)

    def __lt__(self, y):
        return self.compared(lambda x: x < y)

    def __le__(self, y):
        return self.compared(lambda x: x <= y)

    def __gt__(self, y):
        return self.compared(lambda x: x > y)

    def __ge__(self, y):
        return self.compared(lambda x: x >= y)


def eigen_traces(ctx, fig, v):
    """{'Re' or 'Im': curves in the order of MODES}, notes, rectangles."""
    drawn, notes, rects = traces(ctx, fig)
    out = {}
    for part in ('Re', 'Im'):
        out[part] = []
        for m, count in MODES.items():
            of = [t for t in drawn if t[0] == '%s %s' % (part, m)]
            ctx.true('traces', len(of) == count, '%s %s' % (part, m))
            for _, x, y in of:
                ctx.eq('speeds', list(x), list(v))
                out[part].append(y)
    ctx.true('no other traces', len(drawn) == 8, str([t[0] for t in drawn]))
    return out, notes, rects


def region_is(ctx, v, stable, region, notes, rects):
    """Where each mode is stable at a run of the speeds, the region is where
    all of them are."""
    texts = [str(q[2]) for q in notes]
    if not region:
        ctx.true('region only when asked', not (rects or texts), repr(texts))
        return
    ctx.true('one note', len(texts) == 1, repr(texts))
    if any(sum(a != b for a, b in zip([False] + s, s + [False])) > 2
           for s in stable):
        return
    both = [x for x, q in zip(v, zip(*stable)) if all(q)]
    ctx.true('a stable region', len(rects) == (len(both) > 1), '%s for %s' % (
        rects, both))
    if rects:
        ctx.eq('stable region', [float(x) for x in rects[0]],
               [both[0], both[-1]], tol=1e-12)


RUNS = [[(0, 4)] * 4, [(2, 4), (2, 4), (0, 3), (0, 4)],
        [(1, 4), (1, 4), (0, 3), (0, 4)], [(1, 4), (1, 4), (0, 4), (0, 3)],
        [(3, 4), (3, 4), (0, 3), (0, 4)], [(2, 4), (1, 4), (0, 3), (0, 4)],
        [(1, 4), (2, 4), (0, 4), (1, 4)], [(0, 0), (1, 4), (0, 4), (0, 4)],
        [(1, 4), (1, 4), (0, 0), (0, 4)], [(1, 4), (1, 4), (0, 4), (0, 0)],
        [(0, 3), (0, 3), (2, 4), (1, 4)]]


@contract('C23', 'main.Bicycle._plot_eigenvalues_vs_speed_plotly',
          samples=40)
def eigenvalue_signs(ctx):
    """Every eigenvalue at its speed, for any eigenvalues; the region where
    all modes are stable, whatever runs of speeds the modes are stable at."""
    runs = ctx.choice('runs', RUNS)
    region = ctx.choice('region', [True, False])
    v = ctx.choice('speeds', [[0., 2., 5., 6.], [6., 2., 0., 5.]])
    at, n = sorted(v), 4
    w = [[(ctx.real('re%d,%d' % (j, k), sample=(.1, 5.)),
           ctx.real('im%d,%d' % (j, k), sample=(-5., 5.)))
          for j in range(n)] for k in range(4)]
    stable = []
    for k, (a, b) in enumerate(runs):
        stable.append([a <= j < b for j in range(n)])
        for j in range(n):
            if not ctx.symbolic:
                w[k][j] = ((-1 if stable[k][j] else 1) * w[k][j][0],
                           w[k][j][1])
            ctx.assume(w[k][j][0] < 0 if stable[k][j] else w[k][j][0] > 0)
    bike = bicycle_object({})

    def number(z):
        if ctx.symbolic:
            from vc import sym
            return sym.SymC(*z)
        return complex(*z)

    def column(speeds, *ks):
        e = np.array([[number(w[k][at.index(x)]) for k in ks]
                      for x in speeds])
        if ctx.symbolic:
            from vc.shims import as_oarr
            e = as_oarr(e)
        return e if len(ks) > 1 else e[:, 0]

    def eig(speeds):
        x = tuple(float(x) for x in speeds)
        return ('values', x), ('vectors', x)

    def sort_modes(values, vectors):
        x = values[1]
        ctx.true('sorted', (values, vectors) == (('values', x),
                                                 ('vectors', x)))
        return tuple({'evals': e, 'evecs': None} for e in (
            column(x, 0, 1), column(x, 2), column(x, 3)))
    bike.eig = eig
    ctx.replace(bicycle, 'sort_modes', sort_modes)
    if ctx.symbolic:
        ctx.note_stub('eig')
        ctx.note_stub('sort_modes')
        plotly_stand_in(ctx)
        real = main.np.real
        ctx.over(main.np, 'real', lambda x: np.asarray(real(x)).view(Signs))
    snap = ctx.snapshot(v)
    with quiet():
        fig = bike._plot_eigenvalues_vs_speed_plotly(
            np.array(v), show=False, stability_region=region)
    ctx.unchanged('speeds', snap, v)
    got, notes, rects = eigen_traces(ctx, fig, at)
    ctx.eq('real parts', got['Re'], [[z[0] for z in m] for m in w])
    for k in range(4):
        for j in range(n):
            x, y = got['Im'][k][j], w[k][j][1]
            ctx.true('imaginary parts', x >= 0)
            ctx.eq('imaginary parts', x * x, y * y)
    region_is(ctx, at, stable, region, notes, rects)


@contract('C23', 'main.Bicycle._plot_eigenvalues_vs_speed_plotly '
          'main.Bicycle.eig bicycle.sort_modes',
          symbolic=False, samples=12)
def eigenvalue_figure(ctx):
    """The traces of the figure are the eigenvalues of the bicycle at the
    speeds of its axis (bounded)."""
    par = meijaard(ctx)
    for k in ('v',):
        par.pop(k)
    bike = bicycle_object(par)
    n = ctx.choice('n', [15, 40])
    v = np.linspace(ctx.choice('from', [0., -3.]), 10., n)
    region = ctx.choice('region', [True, False])
    with quiet():
        fig = bike._plot_eigenvalues_vs_speed_plotly(
            v, show=False, stability_region=region)
    got, notes, rects = eigen_traces(ctx, fig, v)
    M, C1, K0, K2 = whipple(ctx, par)
    M, C1, K0, K2 = [np.asarray(a, dtype=float) for a in (M, C1, K0, K2)]
    for i in range(n):
        Mi = np.linalg.inv(M)
        A = np.vstack((np.hstack((np.zeros((2, 2)), np.eye(2))), np.hstack(
            (-Mi @ (par['g'] * K0 + v[i]**2 * K2), -Mi @ (v[i] * C1)))))
        ref = list(np.linalg.eigvals(A))
        s = max(abs(e) for e in ref) + 1
        for a, b in zip(got['Re'], got['Im']):
            j = min(range(len(ref)), key=lambda k: abs(
                a[i] - ref[k].real) + abs(b[i] - abs(ref[k].imag)))
            d = abs(a[i] - ref[j].real) + abs(b[i] - abs(ref[j].imag))
            ctx.true('eigenvalues', d < 5e-3 * s,
                     '%g %+gi is not among %r at %g m/s' % (
                         a[i], b[i], ref, v[i]))
            ref.pop(j)
    region_is(ctx, list(v), [[bool(x < 0) for x in y] for y in got['Re']],
              region, notes, rects)


class Plotly(object):
    """Records what a plotly figure is given."""
    def __init__(self, **kw):
        self.traces, self.notes, self.rects = [], [], []

    def add_trace(self, t):
        self.traces.append(t)

    def add_scatter(self, **kw):
        self.traces.append(scatter(**kw))

    def add_annotation(self, text=None, x=None, y=None, **kw):
        self.notes.append((x, y, text))

    def add_vrect(self, x0=None, x1=None, annotation_text=None, **kw):
        self.rects.append((x0, x1))
        self.notes.append((None, None, annotation_text))

    def nothing(self, *a, **kw):
        return self
    update_layout = update_traces = update_xaxes = update_yaxes = nothing


def scatter(x=None, y=None, name=None, **kw):
    return name, list(x), list(y)


def traces(ctx, fig):
    """[(name, x, y)], annotations, rectangles."""
    if ctx.symbolic:
        return fig.traces, fig.notes, fig.rects
    return ([(t.name, list(np.asarray(t.x, float)),
              list(np.asarray(t.y, float))) for t in fig.data],
            [(a.x, a.y, a.text) for a in fig.layout.annotations or ()],
            [(q.x0, q.x1) for q in fig.layout.shapes or ()
             if q.type == 'rect'])


def plotly_stand_in(ctx):
    if ctx.symbolic:
        ctx.replace(main.go, 'Figure', Plotly)
        ctx.replace(main.go, 'Scatter', scatter)
        ctx.note_stub('plotly figures')


def level_set(ctx, label, pts, centre, I):
    """The curve is an inertia ellipse: x' I x is the same all along it."""
    q = []
    for x, y in pts:
        dx, dz = x - centre[0], -(y - centre[1])
        q.append(I[0] * dx * dx + 2 * I[1] * dx * dz + I[2] * dz * dz)
    for k in q[1:]:
        ctx.eq(label, k, q[0], scale=1e-3)
    if not ctx.symbolic:
        ctx.true(label + ' is not a point', q[0] > 0)


class Angles(object):
    """Stands for the angles that numpy.linspace divides a turn into."""
    def __init__(self, ctx):
        self.ctx, self.spans = ctx, {}
        ctx.over(main.np, 'linspace', self)

    def __call__(self, a, b, num=50):
        if (a, b, num) not in self.spans:
            t = np.array([self.ctx.real('angle %d %d' % (
                len(self.spans), i)) for i in range(3)], dtype=object)
            self.spans[a, b, num] = t
        return self.spans[a, b, num]

    def whole_turn(self):
        return any(abs(b - a - 2 * np.pi) < 1e-9 and n >= 30
                   for a, b, n in self.spans)


def axes_stub(ctx, shown):
    """Contract of principal_axes (C10): any order of the moments, any
    direction of the axes."""
    def principal(I):
        for (I1, I2, Iyy, c, s), order, (p, q) in shown:
            T = [[I1 * c * c + I2 * s * s, 0, (I2 - I1) * c * s], [0, Iyy, 0],
                 [(I2 - I1) * c * s, 0, I1 * s * s + I2 * c * c]]
            if all(ctx.provably_equal(I[i][j], T[i][j]) for i in range(3)
                   for j in range(3)):
                rows = [(I1, (p * c, 0, -p * s)), (I2, (q * s, 0, q * c))]
                rows.insert(order, (Iyy, (0, p, 0)))
                return (np.array([r[0] for r in rows], dtype=object),
                        np.array([r[1] for r in rows], dtype=object))
        ctx.true('an inertia tensor of the bicycle', False, repr(I))
    ctx.callee(inertia, 'principal_axes', principal)


def figure_body(ctx, par, b, order):
    """Moments in the plane, the smaller first, and the turn of its axis."""
    I1 = ctx.real(b + ' I1', lo=0.0, sample=(.1, 1.))
    if b in 'RFD':
        I2, c, s = I1, 1, 0
    else:
        I2 = I1 + ctx.real(b + ' more', lo=0.0, sample=(.01, 2.))
        t = ctx.real(b + ' turn', sample=(-3., 3.))
        if not ctx.symbolic and ctx.choice('aligned', [0, 0, 1]):
            t = round(t / (np.pi / 2)) * np.pi / 2
        c, s = ctx.cos(t), ctx.sin(t)
    Iyy = ctx.real(b + ' Iyy', lo=0.0, sample=(.05, 3.))
    if ctx.symbolic:
        for k, i in enumerate((I1, I2)):
            ctx.assume(Iyy >= i if k < order else Iyy <= i)
        if b in 'RFD':        # any axes will do
            t = ctx.real(b + ' turn')
            c, s = ctx.cos(t), ctx.sin(t)
    par['I%sxx' % b] = I1 * c * c + I2 * s * s if b in 'BH' else I1
    par['I%syy' % b] = Iyy
    if b in 'BH':
        par['I%szz' % b] = I1 * s * s + I2 * c * c
        par['I%sxz' % b] = (I2 - I1) * c * s
    return I1, I2, Iyy, c, s


class Joint(object):
    def __init__(self, pos, end):
        self.pos, self.end_pos = pos, end


@contract('C23', 'main.Bicycle.plot_bicycle_geometry '
          'main.Bicycle._plot_bicycle_geometry_plotly '
          'main.get_parts_in_parameters '
          'plot._generate_ellipse_plot_data', samples=60, wild=False,
          assumes=['matplotlib and plotly draw what they are given',
                   'principal_axes by its contract (C10)'])
def geometry_figure(ctx):
    """Wheels, mass centres, steer axis, inertia ellipses and pendulum axes
    of the bicycle; a rider as a chain of straight limbs."""
    import matplotlib.pyplot as plt
    from contracts import c27, c28
    par = meijaard(ctx)
    par.pop('v')
    for k in [k for k in par if k[0] == 'I']:
        del par[k]
    plotly = ctx.choice('plotly', [True, False])
    masses, ellipses = ctx.choice('shown', [(True, True), (True, False),
                                            (False, True), (False, False)])
    parts = 'BHRF'
    # (what does not meet in the code is not varied together in the proof)
    apart = ctx.symbolic and ellipses
    if ctx.choice('flywheel', [False, True] if apart or not ctx.symbolic
                  else [False]):
        par['mD'] = ctx.real('mD', lo=0.0, sample=(.5, 2.))
        parts += 'D'
    order = ctx.choice('lateral', [0, 1, 2]) if ctx.symbolic and ellipses \
        else 0
    signs = ctx.choice('signs', [(1, 1), (-1, 1)]) if \
        ctx.symbolic and ellipses else (1, 1)
    moments = {b: figure_body(ctx, par, b, order) for b in parts}
    # the steer axis is not horizontal and the axles do not lie on a line
    # through it
    ctx.assume(ctx.cos(par['lam']) > .1)
    k = par['w'] * ctx.sin(par['lam']) + (par['rR'] - par['rF']) * ctx.cos(
        par['lam'])
    ctx.assume(k * k > 1e-4)
    bike = bicycle_object(par, changes=True)
    hung = None if apart else ctx.choice('hung', [None, 'B', 'BH'])
    if hung:
        extra = {q: {b: [ctx.real('%s %s %d' % (q, b, i), lo=lo,
                                  sample=(.2, 2.)) for i in range(2)]
                     for b in hung} for q, lo in (
            ('slopes', None), ('intercepts', None),
            ('pendulumInertias', 0.0))}
        bike.extras = {q: {b: np.array([x if ctx.symbolic else ufloat(x, .01)
                                        for x in v], dtype=object)
                           for b, v in d.items()} for q, d in extra.items()}
    bike.hasRider = False if apart else ctx.choice('rider', [False, True])
    figure = bike.hasRider and not plotly
    if figure:
        joints = {n: [np.array([[ctx.real('%s%s%d' % (n, e, i))]
                                for i in range(3)]) for e in ('pos', 'end')]
                  for n in ('K1', 'K2', 'B1', 'B2', 'C')}
        bike.human = type('Human', (), {n: Joint(*v)
                                        for n, v in joints.items()})()
        bike.parameters['Measured'] = {
            k: ctx.real(k, sample=(.1, .9))
            for k in ('hbb', 'lcs', 'lsp', 'lst', 'lamst')}
    before = ctx.snapshot(bike.parameters, bike.__dict__.get('extras'))
    make = bike._plot_bicycle_geometry_plotly if plotly else \
        bike.plot_bicycle_geometry
    ctx.extremes(main)
    if ctx.symbolic:
        axes_stub(ctx, [(moments[b], order, signs) for b in parts])
        angles = Angles(ctx)
        canvas = c27.Axes()
        canvas.set_title = canvas.set_ylim = canvas.nothing
        ctx.replace(plt, 'subplots', lambda *a, **k: (c28.Fig([canvas]),
                                                      canvas))
        ctx.replace(plt, 'Circle', c27.circle)
        ctx.replace(main, 'Wedge', c27.wedge)
        ctx.replace(main, 'Ellipse', c27.ellipse)
    plotly_stand_in(ctx)
    with quiet():
        fig = make(show=False, centerOfMass=masses, inertiaEllipse=ellipses)
    ctx.unchanged('bicycle', before, bike.parameters,
                  bike.__dict__.get('extras'))
    centre = {'R': (0, par['rR']), 'F': (par['w'], par['rF']),
              'B': (par['xB'], -par['zB']), 'H': (par['xH'], -par['zH'])}
    contact = par['w'] + par['c']
    tensor = {b: [par['I%sxx' % b], par.get('I%sxz' % b, 0),
                  par.get('I%szz' % b, par['I%sxx' % b])] for b in parts}
    pendulums, limbs = [], []
    if plotly:
        shown, notes, _ = traces(ctx, fig)
        named = {}
        for name, x, y in shown:
            named.setdefault(name, []).append(list(zip(x, y)))
        if ctx.symbolic:
            ctx.true('whole circles', angles.whole_turn())
        else:
            whole = named['Rear wheel'][0]
            ctx.eq('closed', whole[0], whole[-1])
        for b, n in (('R', 'Rear wheel'), ('F', 'Front wheel')):
            ctx.true('one ' + n, len(named[n]) == 1)
            for x, y in named[n][0]:
                ctx.eq('wheel ' + b, (x - centre[b][0]) ** 2 +
                       (y - centre[b][1]) ** 2, par['r' + b] ** 2)
        coms = [c[0] for c in named.get('COM', [])]
        curves = [n[-1] for n in named if (n or '').startswith('Inertia')]
        ctx.true('ellipses', sorted(curves) == (sorted(parts) if ellipses
                                                else []), repr(curves))
        for b in curves:
            level_set(ctx, 'ellipse of ' + b, named['Inertia of ' + b][0],
                      centre['F' if b == 'D' else b], tensor[b])
        axis, ground = named['Steer axis'][0], named['Ground'][0]
        frame = named['Bicycle'][0]
        pendulums = named.get('Pendulum', [])
        labels = notes
    else:
        canvas = fig.axes[0]
        d = dict(circle=[], wedge=[], ellipse=[])
        if ctx.symbolic:
            for q in canvas.patches:
                d[q.kind].append((tuple(q.center), tuple(q.size), q.angle))
            lines, labels = canvas.curves, canvas.labels
            ctx.true('equal scales', canvas.aspect in ('equal', 1))
        else:
            ctx.true('equal scales', canvas.get_aspect() in ('equal', 1))
            for q in canvas.patches:
                if isinstance(q, c27.patches.Circle):
                    d['circle'].append((q.get_center(), (q.get_radius(),), 0))
                elif isinstance(q, c27.patches.Wedge):
                    d['wedge'].append((q.center, (q.r,), 0))
                else:
                    d['ellipse'].append((q.get_center(), (
                        q.get_width(), q.get_height()), q.angle))
            lines = [list(zip(l.get_xdata(), l.get_ydata()))
                     for l in canvas.lines]
            labels = [t.get_position() + (t.get_text(),)
                      for t in canvas.texts]
            plt.close(fig)
        for b in 'RF':
            ctx.true('wheel ' + b, any(
                same(ctx, q[0], centre[b]) and
                same(ctx, q[1], (par['r' + b],)) for q in d['circle']))
        coms = []
        for q in d['wedge']:
            if not any(same(ctx, q[0], c) for c in coms):
                coms.append(q[0])
        ctx.true('ellipses', len(d['ellipse']) == (len(parts) if ellipses
                                                   else 0))
        left = list(d['ellipse'])
        for b in parts if ellipses else '':
            at = centre['F' if b == 'D' else b]
            fits = [q for q in left if same(ctx, q[0], at)]
            ctx.true('ellipse of ' + b, len(fits) >= 1)
            q = fits[0]
            left = [r for r in left if r is not q]
            t = q[2] * ctx.pi / 180
            c, s = ctx.cos(t), ctx.sin(t)
            w, h = q[1][0] / 2, q[1][1] / 2
            level_set(ctx, 'ellipse of ' + b, [
                (at[0] + w * c, at[1] + w * s),
                (at[0] - h * s, at[1] + h * c),
                (at[0] + .6 * w * c - .8 * h * s,
                 at[1] + .6 * w * s + .8 * h * c)], at, tensor[b])
        frames = [l for l in lines if len(l) == 4]
        level = [l for l in lines if len(l) == 2 and
                 alike(ctx, [q[1] for q in l], [0, 0])]
        axes = [l for l in lines if len(l) == 2 and
                all(l is not q for q in level) and any(
            alike(ctx, q, (contact, 0)) for q in l)]
        for n, k in (('frame', frames), ('ground', level),
                     ('steer axis', axes)):
            ctx.true('one ' + n, len(k) == 1, '%d' % len(k))
        frame, ground, axis = frames[0], level[0], axes[0]
        rest = [l for l in lines if l is not frame and l is not ground and
                l is not axis]
        if figure:
            limbs = rest
        else:
            pendulums = rest
    if masses:
        left = list(coms)
        for b, c in centre.items():
            at = [q for q in left if same(ctx, q, c)]
            ctx.true('mass centre ' + b, len(at) >= 1,
                     'not drawn at %r' % (c,))
            left = [r for r in left if r is not at[0]]
        ctx.true('no other mass centres', not left)
        for b, c in centre.items():
            at = [l for l in labels if l[2] == b]
            ctx.true('label ' + b, len(at) == 1)
            for i in range(2):
                ctx.true('label %s is near' % b, abs(at[0][i] - c[i]) < .1)
    else:
        ctx.true('no mass centres', not coms)
    ctx.eq('ground', [y for x, y in ground], [0.0] * len(ground))
    # the steer axis meets the ground ahead of the front contact by the trail
    if alike(ctx, axis[0], (contact, 0)):
        axis = axis[::-1]
    ctx.eq('steer axis on the ground', axis[1], (contact, 0.0))
    s, c = ctx.sin(par['lam']), ctx.cos(par['lam'])
    ctx.eq('tilt', (axis[0][0] - axis[1][0]) * c,
           -(axis[0][1] - axis[1][1]) * s)
    ctx.true('frame', len(frame) == 4)
    if alike(ctx, frame[0], centre['F']):
        frame = frame[::-1]
    ctx.eq('rear wheel centre', frame[0], centre['R'])
    ctx.eq('front wheel centre', frame[3], centre['F'])
    for q in frame[1:3]:
        ctx.eq('frame on the steer axis', (contact - q[0]) * c, q[1] * s)
    for a, b in ((frame[0], frame[1]), (frame[3], frame[2])):
        ctx.eq('offset perpendicular to it', (b[0] - a[0]) * s,
               (b[1] - a[1]) * c)
    # the axes a body hung from: at their mean the line is nearest the body
    want = [(b, i) for b in hung or '' for i in range(2)]
    if bike.hasRider:
        want = []
    # (labels of the lines are numbers)
    ctx.true('pendulum axes', len(pendulums) == len(want),
             '%d instead of %d' % (len(pendulums), len(want)))
    # (one on each of the lines the body hung from)
    order, left = [], list(pendulums)
    for b, i in want:
        fits = [l for l in left if alike(ctx, [
            -y - extra['slopes'][b][i] * x for x, y in l], [
            extra['intercepts'][b][i]] * len(l))] or left
        order.append(fits[0])
        left = [l for l in left if l is not fits[0]]
    for (b, i), line in zip(want, order):
        m, k = extra['slopes'][b][i], extra['intercepts'][b][i]
        for x, y in line:
            ctx.eq('pendulum axis', -y, m * x + k)
        mid = [(line[0][j] + line[1][j]) / 2 for j in range(2)]
        at = centre[b]
        ctx.eq('nearest its body', (mid[0] - at[0]) - m * (mid[1] - at[1]),
               0, scale=1.)
    if figure:
        def at(n, e):
            q = rider.yeadon_vec_to_bicycle_vec(
                joints[n][e], bike.parameters['Measured'],
                bike.parameters['Benchmark'])
            return q[0, 0], -q[2, 0]
        chain = [(('K2', 1), ('K2', 0)), (('K2', 0), ('K1', 0)),
                 (('K1', 0), ('B1', 0)), (('B1', 0), ('B2', 0)),
                 (('B2', 0), ('B2', 1)), (('B1', 0), ('C', 1))]
        ctx.true('limbs', len(limbs) == len(chain), '%d' % len(limbs))
        ends = [[at(*a), at(*b)] for a, b in chain]
        drawn = []
        for l in limbs:
            back = l[::-1]
            drawn.append(back if any(alike(ctx, back, e) for e in ends) and
                         not any(alike(ctx, l, e) for e in ends) else l)
        for line, e in zip(arrange(ctx, drawn, ends), ends):
            ctx.eq('limb', line, e)


def same(ctx, a, b):
    if ctx.symbolic:
        return all(ctx.provably_equal(x, y) for x, y in zip(a, b))
    return np.allclose(np.array(a, float), np.array(b, float), atol=1e-9)
