"""Planted bugs (see mkseed.py).  Each: id, property, edits (file, old, new),
demo, needs, breaks."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks))


seed('s01-ab-matrix-reverse', 'C02',
     [('bicycle.py', 'a21 = -np.dot(invM, (g * K0 + v**2 * K2))',
       'a21 = -np.dot(invM, (g * K0 + v * abs(v) * K2))')],
     '''
from bicycleparameters.bicycle import ab_matrix
rng = np.random.default_rng(0)
for v in (3.0, 0.0, -2.5):
    M = np.array([[80.0, 2.3], [2.3, 0.3]])
    C1, K0, K2 = rng.normal(size=(3, 2, 2))
    A, B = ab_matrix(M, C1, K0, K2, v, 9.81)
    close(A[2:, :2], -np.linalg.solve(M, 9.81*K0 + v**2*K2))
    close(A[2:, 2:], -np.linalg.solve(M, v*C1))
    close(B[2:], np.linalg.inv(M))
''', 'a negative (reverse) speed',
     'the speed squared stiffness changes sign when the bicycle rolls backwards')

seed('s02-array-gravity', 'C03',
     [('models.py', '''                if 'g' in array_keys:
                    g = par['g'][i]
                else:
                    g = par['g']
                if 'v' in array_keys:
                    v = par['v'][i]
                else:
                    v = par['v']
                A[i], B[i] = ab_matrix(Mi, C1i, K0i, K2i, v, g)''',
       '''                if 'g' in array_keys:
                    g = par['g'][0]
                else:
                    g = par['g']
                if 'v' in array_keys:
                    v = par['v'][i]
                else:
                    v = par['v']
                A[i], B[i] = ab_matrix(Mi, C1i, K0i, K2i, v, g)''')],
     '''
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007Model
m = Meijaard2007Model(Meijaard2007ParameterSet(dict(D), True))
ws, gs, vs = [1.0, 1.1, 1.2], [9.81, 1.6, 3.7], [2.0, 5.0, 7.0]
A, B = m.form_state_space_matrices(w=ws, g=gs, v=vs)
for i in range(3):
    Ai, Bi = m.form_state_space_matrices(w=ws[i], g=gs[i], v=vs[i])
    close(A[i], Ai)
    close(B[i], Bi)
''', 'gravity and a geometry or inertia parameter both given as arrays',
     'every row of the batch uses the gravity of the first row')

seed('s03-shared-parameters', 'C04',
     [('parameter_sets.py', '            par = self.parameters.copy()\n            gain_names',
       '            par = self.parameters\n            gain_names')],
     '''
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007Model, Meijaard2007WithFeedbackModel
s = Meijaard2007ParameterSet(dict(D), True)
f = s.to_parameterization('Meijaard2007WithFeedback')
assert dict(s.parameters) == dict(D), sorted(set(s.parameters) ^ set(D))
f.parameters['kTdel_phid'] = 3.0
f.parameters['mB'] = 50.0
assert dict(s.parameters) == dict(D)
''', 'a conversion to the set with feedback, after which either set is used or changed',
     'the converted set shares its parameters with the original set, which gains eight keys')

seed('s04-gain-row', 'C05',
     [('models.py', '''                if k in gain_names[4:]:
                    K[:, 1, gain_names[4:].index(k)] = par[k]''',
       '''                elif k in gain_names:
                    K[:, 1, sorted(gain_names[4:]).index(k)] = par[k]''')],
     '''
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007WithFeedbackModel
m = Meijaard2007WithFeedbackModel(Meijaard2007ParameterSet(dict(D), True))
for gain in ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
             'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']:
    ks = [1.5, -2.0, 7.0]
    A, B = m.form_state_space_matrices(v=[2.0, 4.0, 6.0], **{gain: ks})
    for i, v in enumerate([2.0, 4.0, 6.0]):
        Ai, Bi = m.form_state_space_matrices(v=v, **{gain: ks[i]})
        close(A[i], Ai)
''', 'an array valued steer torque gain of the roll or steer angle or roll rate',
     'the array gain lands on another state of the feedback law')

seed('s05-controllability', 'C06',
     [('models.py', 'num = np.real(np.vdot(q, b))  # Re(q.H @ b)',
       'num = np.abs(np.vdot(q, b))  # q.H @ b')],
     '''
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007Model
m = Meijaard2007Model(Meijaard2007ParameterSet(dict(D), True))
for v in (2.0, 5.0):
    for acute in (True, False):
        beta = m._calc_modal_controllability(acute=acute, v=v)
        A, B = m.form_state_space_matrices(v=v)
        w, Q = m.calc_eigen(left=True, v=v)
        for i in range(4):
            for j in range(2):
                c = np.real(np.conj(Q[:, i])@B[:, j])/np.linalg.norm(Q[:, i])/np.linalg.norm(B[:, j])
                close(np.cos(beta[i, j]), abs(c) if acute else c, 1e-7)
''', 'a complex (oscillatory) mode, or acute=False',
     'the angle between a complex left eigenvector and an input is not the documented one')

seed('s06-capsize-vectors', 'C07',
     [('bicycle.py', "    capsize = {'evals': evalsorg[:, 1], 'evecs': evecsorg[:, :, 1]}",
       "    capsize = {'evals': evalsorg[:, 1], 'evecs': evecsorg[:, 1]}")],
     '''
from bicycleparameters.bicycle import sort_modes
rng = np.random.default_rng(1)
A = rng.normal(size=(4, 4))
evals, evecs = [], []
for s in np.linspace(0, 0.01, 3):
    w, V = np.linalg.eig(A + s*np.eye(4))
    evals.append(w.astype(complex)); evecs.append(V.astype(complex))
weave, capsize, caster = sort_modes(np.array(evals), np.array(evecs))
for k, s in enumerate(np.linspace(0, 0.01, 3)):
    As = A + s*np.eye(4)
    for mode in (capsize, caster):
        close(As@mode['evecs'][k], mode['evals'][k]*mode['evecs'][k])
    for j in range(2):
        close(As@weave['evecs'][k][:, j], weave['evals'][k, j]*weave['evecs'][k][:, j])
''', 'use of the capsize eigenvectors (the eigenvalues are right)',
     'the capsize eigenvectors are a row of the eigenvector matrix, not the vector of the mode')

seed('s07-principal-lateral', 'C08',
     [('conversions.py', '    return parallel_axis(I1, m1, com-com1) + parallel_axis(I2, m2, com-com2)',
       '    return (parallel_axis(I1, m1, com-com1) +\n            parallel_axis(I2, m1*np.linalg.norm(com-com1)/np.linalg.norm(com-com2), com-com2)\n            if m2 < m1 else\n            parallel_axis(I1, m1, com-com1) + parallel_axis(I2, m2, com-com1))')],
     '''
from bicycleparameters.conversions import _sum_central_inertias
rng = np.random.default_rng(2)
def steiner(I, m, d):
    return I + m*(d@d*np.eye(3) - np.outer(d, d))
for m1, m2 in ((10.0, 5.0), (10.0, 80.0), (3.0, 3.0)):
    I1, I2 = np.diag([1.0, 2.0, 3.0]), np.diag([4.0, 5.0, 6.0])
    c1, c2 = rng.normal(size=(2, 3))
    c = (m1*c1 + m2*c2)/(m1 + m2)
    close(np.asarray(_sum_central_inertias(m1, c1, I1, m2, c2, I2), dtype=float),
          steiner(I1, m1, c - c1) + steiner(I2, m2, c - c2))
''', 'a person heavier than the rear frame (the usual case) away from it',
     'the offset of the rear frame is used for the person when the bodies are combined')

seed('s08-moore-rear-wheel', 'C09',
     [('parameter_sets.py', """        pext['zR'] = -p['rR']
        pext['zF'] = -p['rF']
        pext['kRbb'] = p['kRaa']
        pext['kFbb'] = p['kFaa']""",
       """        pext['zR'] = -p['rR']
        pext['zF'] = pext['zR']
        pext['kRbb'] = p['kRaa']
        pext['kFbb'] = p['kFaa']""")],
     '''
from bicycleparameters.parameter_dicts import moore2019_browser_jason as D
from bicycleparameters.parameter_sets import Moore2019ParameterSet
D = {k: D[k] for k in Moore2019ParameterSet.par_strings}
D['rF'], D['rR'] = 0.25, 0.34
p = Moore2019ParameterSet(D)
close(p.form_mass_center_vector('F'), [D['w'], 0.0, -0.25])
close(p.form_mass_center_vector('R'), [0.0, 0.0, -0.34])
''', 'a bicycle whose wheels differ in size',
     'the front wheel mass center is put at the height of the rear wheel')

seed('s09-product-of-inertia', 'C10',
     [('inertia.py', '''    dMat[1] = np.array([-a * b, c**2 + a**2, -b * c])
    dMat[2] = np.array([-a * c, -b * c, a**2 + b**2])''',
       '''    dMat[1] = np.array([-a * b, c**2 + a**2, b * c])
    dMat[2] = np.array([-a * c, b * c, a**2 + b**2])''')],
     '''
from bicycleparameters.inertia import parallel_axis
rng = np.random.default_rng(3)
for _ in range(5):
    I = rng.normal(size=(3, 3)); I = I + I.T
    d = rng.normal(size=3)
    close(np.asarray(parallel_axis(I, 2.5, d), dtype=float),
          I + 2.5*(d@d*np.eye(3) - np.outer(d, d)))
''', 'an offset with a lateral and a vertical part',
     'the yz product of inertia has the wrong sign')

seed('s10-rider-lateral', 'C11',
     [('inertia.py', "                       riderPar['yB'] - cT[1],", "                       riderPar['yB'],")],
     '''
from bicycleparameters.inertia import combine_bike_rider
bike = dict(mB=10.0, xB=0.4, zB=-0.5, IBxx=1.0, IByy=2.0, IBzz=1.5, IBxz=0.1)
rider = dict(mB=70.0, xB=0.3, yB=0.0, zB=-1.1, IBxx=8.0, IByy=9.0, IBzz=3.0, IBxz=-0.5)
def steiner(I, m, d):
    return I + m*(d@d*np.eye(3) - np.outer(d, d))
def tens(p):
    return np.array([[p['IBxx'], 0, p['IBxz']], [0, p['IByy'], 0], [p['IBxz'], 0, p['IBzz']]])
for y in (0.0, 0.2):
    rider['yB'] = y
    b = np.array([bike['xB'], 0.0, bike['zB']]); r = np.array([rider['xB'], y, rider['zB']])
    c = (10.0*b + 70.0*r)/80.0
    I = steiner(tens(bike), 10.0, b - c) + steiner(tens(rider), 70.0, r - c)
    out = combine_bike_rider(dict(bike), dict(rider))
    close([float(out[k]) for k in ('IBxx', 'IBxz', 'IByy', 'IBzz')],
          [I[0, 0], I[0, 2], I[1, 1], I[2, 2]])
''', 'a rider whose mass center is off the plane of symmetry',
     'the combined roll and yaw inertia use the wrong lateral distance for the rider')

seed('s11-steer-assembly', 'C12',
     [('main.py', """            dF = np.array([par['w'] - cAss[0],
                           0.,
                           -par['rF'] - cAss[2]])""",
       """            dF = np.array([par['w'] - cAss[0],
                           0.,
                           -par['rR'] - cAss[2]])""")],
     '''
from bicycleparameters.main import Bicycle
par = dict(mH=3.0, xH=0.9, zH=-0.7, IHxx=0.2, IHxz=-0.01, IHyy=0.18, IHzz=0.05,
           mF=2.0, IFxx=0.1, IFyy=0.2, rF=0.25, rR=0.34, w=1.0, c=0.06, lam=0.3, mB=9.0, mR=2.0)
b = Bicycle.__new__(Bicycle)
b.parameters = {'Benchmark': par}
c = (3.0*np.array([0.9, 0, -0.7]) + 2.0*np.array([1.0, 0, -0.25]))/5.0
def steiner(I, m, d):
    return I + m*(d@d*np.eye(3) - np.outer(d, d))
IH = np.array([[0.2, 0, -0.01], [0, 0.18, 0], [-0.01, 0, 0.05]])
I = steiner(IH, 3.0, np.array([0.9, 0, -0.7]) - c) + steiner(np.diag([0.1, 0.2, 0.1]), 2.0, np.array([1.0, 0, -0.25]) - c)
C = np.array([[np.cos(0.3), 0, -np.sin(0.3)], [0, 1, 0], [np.sin(0.3), 0, np.cos(0.3)]])
close(np.asarray(b.steer_assembly_moment_of_inertia(nominal=True), dtype=float), C@I@C.T)
''', 'a bicycle whose wheels differ in size',
     'the front wheel is placed at the height of the rear wheel in the steer assembly inertia')

seed('s12-abc-geometry', 'C13',
     [('geometry.py', '    b = h4 - .5 * d3 - h5 + .5 * d4', '    b = h4 - .5 * d3 - h5 + .5 * d2'),],
     '''
from bicycleparameters.geometry import calculate_abc_geometry
h1, h2, h3, h4, h5 = 0.17, 0.3, 0.1, 0.28, 0.2
d1, d2, d3, d4, d = 0.03, 0.029, 0.03, 0.008, 1.0
a, b, c = calculate_abc_geometry((h1, h2, h3, h4, h5), (d1, d2, d3, d4, d))
close(a, h1 + h2 - h3 + d1/2 - d2/2)
close(b, h4 - d3/2 - h5 + d4/2)
close(c, np.sqrt((d + (d2 + d3)/2)**2 - (a - b)**2))
''', 'an axle and a head tube of different diameters (only checked against bundled bicycles)',
     'the fork offset uses the diameter of the wrong circle')

seed('s13-com-pairs', 'C14',
     [('com.py', "        if row[0] != row[1]:", "        if abs(row[0] - row[1]) == 1:")],
     '''
from bicycleparameters.com import center_of_mass
# three lines that do not meet in one point
m, b = np.array([0.5, -1.0, 3.0]), np.array([0.1, 1.0, -2.0])
pts = []
for i in range(3):
    for j in range(i):
        x = (b[j] - b[i])/(m[i] - m[j])
        pts.append((x, m[i]*x + b[i]))
close([float(c) for c in center_of_mass(m, b)], np.mean(pts, axis=0))
''', 'three or more orientations whose lines do not meet in one point',
     'intersections of orientations that are not neighbours are left out of the mean')

seed('s14-handlebar-pendulum', 'C15',
     [('main.py', "        lG = ((par['xG'] - par['w'] + u1)**2 +", "        lG = ((par['xG'] - par['w'] - u1)**2 +")],
     '''
import bicycleparameters, glob
from bicycleparameters import io, main, geometry
import bicycleparameters.period
data = io.load_parameter_text_file('data/bicycles/Rigidcl/RawData/RigidclMeasured.txt')
mp = {k: getattr(v, 'nominal_value', v) for k, v in data.items()}
par, extras = main.calculate_benchmark_from_measured(mp)
l1, l2 = geometry.calculate_l1_l2(mp['h6'], mp['h7'], mp['d5'], mp['d6'], mp['l'])
lam = float(par['lam'])
# handlebar reference point: l2 up along the steer axis, l1 forward of it
ref = np.array([par['w'], -par['rF']]) + l2*np.array([-np.sin(lam), -np.cos(lam)]) \\
    + l1*np.array([np.cos(lam), -np.sin(lam)])
l = np.hypot(par['xG'] - ref[0], par['zG'] - ref[1])
I = (mp['TcG1']/2/np.pi)**2*mp['mG']*mp['g']*l - mp['mG']*l**2
close(float(par['IGyy']), I)
''', 'a bicycle whose fork and handlebar were measured apart',
     'the distance from the pendulum axis to the handlebar mass center is wrong')


seed('s15-multi-values', 'C16',
     [('io.py', "                if '+/-' in equality[1]:", "                if '+/-' in valList[-1]:")],
     '''
from bicycleparameters.io import load_parameter_text_file
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'BikeMeasured.txt')
    with open(f, 'w') as h:
        h.write("a = 1.0+/-0.1, 2.0\\nb = 3.0, 5.0\\nc = 1.0+/-0.1, 2.0 +/- 0.3\\n")
    p = load_parameter_text_file(f)
    close(p['b'], 4.0)
    close(p['c'].nominal_value, 1.5)
    close(p['a'].nominal_value, 1.5)
''', 'several values for a parameter of which only an earlier one has an uncertainty',
     'such a line is no longer readable')

seed('s16-period-lines', 'C17',
     [('io.py', "        if not line.startswith('T'):", "        if not line[:2].strip().upper().startswith('T'):")],
     '''
from bicycleparameters.io import write_periods_to_file
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'BikeMeasured.txt')
    with open(f, 'w') as h:
        h.write("g = 9.81\\ntire = 0.02\\nTcB1 = 1.5\\n# Third line\\nw = 1.0\\n")
    write_periods_to_file(f, {'TcB1': 1.7, 'g': 9.81, 'TtB1': 2.0})
    with open(f) as h:
        got = h.read()
    assert got == "g = 9.81\\ntire = 0.02\\n# Third line\\nw = 1.0\\nTcB1 = 1.7\\nTtB1 = 2.0\\n", got
''', 'a measurement file with a parameter name that starts with a small t',
     'writing the periods deletes that measurement from the file')

seed('s17-time-average', 'C18',
     [('period.py', """        try:
            periods[periodKey].append(period)
        except KeyError:
            periods[periodKey] = [period]""",
       """        try:
            periods[periodKey] = [np.mean(periods[periodKey] + [period])]
        except KeyError:
            periods[periodKey] = [period]""")],
     '''
from bicycleparameters import period
Ts = dict(zip('abcd', [1.0, 2.0, 3.0, 6.0]))
period.load_pendulum_mat_file = lambda path: dict(
    data=os.path.basename(path)[0], sampleRate=500, part='Frame', pendulum='Compound', angle='First', rod='Rod')
period.get_period_from_truncated = lambda data, rate, path: Ts[data]
with tempfile.TemporaryDirectory() as d:
    raw = os.path.join(d, 'RawData')
    os.makedirs(raw)
    p = period.calc_periods_for_files(raw, ['a.mat', 'b.mat', 'c.mat', 'd.mat'], False)
close(p['TcB1'], 3.0)
''', 'three or more trials of one part and orientation',
     'the trials are not weighted equally: later trials count more')

seed('s18-jacobian', 'C18',
     [('period.py', "* t / dampsq * c + p[2] * p[3] * p[4] * t / dampsq * s))",
       "* t / dampsq * c + p[2] * p[3] * p[4] * t * dampsq * s))")],
     '''
from bicycleparameters.period import jac_fitfunc
def f(p, t):
    return p[0] + np.exp(-p[3]*p[4]*t)*(p[1]*np.sin(p[4]*np.sqrt(1 - p[3]**2)*t) + p[2]*np.cos(p[4]*np.sqrt(1 - p[3]**2)*t))
t = np.linspace(0, 2, 7)
for p in ([1.0, .5, .3, .01, 4.0], [0.5, 2.0, -1.0, 0.6, 3.0]):
    p = np.array(p)
    J = jac_fitfunc(p, t)
    for k in range(5):
        h = np.zeros(5); h[k] = 1e-6
        close(J[:, k], (f(p + h, t) - f(p - h, t))/2e-6, 1e-6)
''', 'a noticeable damping ratio',
     'the jacobian behind the period uncertainty is off by a factor 1 - zeta**2 in one term')

seed('s19-yaml-parameterization', 'C19',
     [('parameter_sets.py', "        self.parameterization = cls_name.split('ParameterSet')[0]",
       "        self.parameterization = cls_name.split('With')[0].split('ParameterSet')[0]")],
     '''
import yaml
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
p = Meijaard2007ParameterSet(dict(D), True)
f = p.to_parameterization('Meijaard2007WithFeedback')
assert f.to_parameterization('Meijaard2007WithFeedback') is f
with tempfile.TemporaryDirectory() as d:
    f.to_yaml(os.path.join(d, 'x.yml'))
    with open(os.path.join(d, 'x.yml')) as h:
        assert yaml.safe_load(h)['parameterization'] == 'Meijaard2007WithFeedback'
''', 'a parameter set with feedback gains that is saved or converted again',
     'the set passes for one without feedback: the gains are lost or reset')

seed('s20-simulated-input', 'C20',
     [('models.py', '                ui = input_func(ti, res.y[:, i])', '                ui = input_func(ti, res.y[:, i - 1])')],
     '''
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007Model
m = Meijaard2007Model(Meijaard2007ParameterSet(dict(D), True))
K = np.array([[0.0, 0, 0, 0], [0.1, 0.2, -1.0, 0.3]])
ts = np.linspace(0, 1, 11)
x, u = m.simulate(ts, [0.1, 0.05, 0, 0], input_func=lambda t, x: K@x, v=5.0)
for i in range(11):
    close(u[i], K@x[i])
''', 'an input function that depends on the state',
     'the returned inputs are those of the previous (or last) time value')

seed('s21-bode-phase', 'C21',
     [('main.py', 'n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)', 'n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.) if firstValue > 0 else np.floor(abs(firstValue) / 360.)')],
     '''
import matplotlib.pyplot as plt
from bicycleparameters.main import Bicycle
b = Bicycle.__new__(Bicycle)
fig, axes = plt.subplots(2, 1)
phases = [-190.0, 190.0, -540.5, 10.0, 355.0, -355.0]
todo = list(phases)
def plot_bode(speed, u, y, label=None, fig=None):
    axes[1].plot([1.0, 2.0], [todo[0], todo.pop(0) - 30.0])
b.plot_bode = plot_bode
b.compare_bode_speeds([1.0]*len(phases), 0, 0, fig=fig)
for line, p in zip(axes[1].lines, phases):
    y = line.get_ydata()
    assert abs(y[0]) <= 180.0, (p, y)
    assert abs((y[0] - p)/360 - round((y[0] - p)/360)) < 1e-9
    assert abs(y[1] - y[0] + 30.0) < 1e-9
''', 'a response whose phase starts between -360 and -180 degrees (or -720 and -540)',
     'the phase curve is not shifted to start around zero')

seed('s22-rounding', 'C22',
     [('tables.py', "            newNom = round(nom, digit)", "            newNom = round(nom, max(digit, 0))")],
     '''
from uncertainties import ufloat
from bicycleparameters.tables import uround
assert uround(ufloat(2.4563752289999, 0.0003797273827)) == '2.4564+/-0.0004'
assert uround(ufloat(12345.678, 230.0)) == '12300+/-200', uround(ufloat(12345.678, 230.0))
''', 'an uncertainty of ten or more',
     'the value is printed with digits that the uncertainty does not support')

seed('s23-negative-trail', 'C01',
     [('bicycle.py', "    uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])",
       "    uA = (xA - p['w'] - abs(p['c']))*umath.cos(p['lam']) - zA*umath.sin(p['lam'])")],
     '''
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.bicycle import benchmark_par_to_canonical
# the steer axis is a line: moving it by a change of trail has a linear effect
# on SA = mA uA + mu mT xT = -K0[0, 1]
def SA(c):
    return -benchmark_par_to_canonical(dict(D, c=c))[2][0, 1]
close(SA(-0.05) - SA(0.0), SA(0.0) - SA(0.05))
''', 'a bicycle with negative trail',
     'the front assembly is taken at the wrong distance from the steer axis')

seed('s24-app-slider', 'C23',
     [('app.py', "if ctx.triggered[0].get('prop_id') != 'bike-dropdown.value':",
       "if ctx.triggered[0].get('prop_id').endswith('table.data'):")],
     '''
import json
import bicycleparameters as bp
from bicycleparameters import app
wheel, frame, general = app.populate_wheel_data('Benchmark', 0)
general[0]['data'] = 1.3
seen = []
def geometry(self, **kw):
    seen.append(dict(self.parameters['Benchmark']))
bp.Bicycle._plot_bicycle_geometry_plotly = geometry
bp.Bicycle._plot_eigenvalues_vs_speed_plotly = lambda self, *a, **kw: None
from types import SimpleNamespace
for what in ('general-table.data', 'range-slider.value', 'geometry-checklist.value'):
    g = json.loads(json.dumps(general))
    app.dash.callback_context = SimpleNamespace(
        inputs={'wheel-table.data': wheel, 'frame-table.data': frame, 'general-table.data': g,
                'geometry-checklist.value': [], 'range-slider.value': [0, 10]},
        triggered=[{'prop_id': what}])
    app.plot_update('Benchmark', wheel, frame, g, [], [0, 10])
    w = seen[-1]['w']
    close(getattr(w, 'nominal_value', w), 1.3)
''', 'an edit of a table followed by a move of the speed slider or a change of the options',
     'the edited values are forgotten')

seed('s25-correlation', 'C26',
     [('main.py', "            # mass and com of the entire assembly\n",
       "            # the front wheel radius enters as an independent reading\n"
       "            par = dict(par)\n"
       "            if hasattr(par['rF'], 'std_dev'):\n"
       "                par['rF'] = ufloat(par['rF'].nominal_value,\n"
       "                                   par['rF'].std_dev)\n\n"
       "            # mass and com of the entire assembly\n"),
      ('main.py', "from uncertainties import unumpy\n",
       "from uncertainties import ufloat, unumpy\n")],
     '''
from uncertainties import ufloat
from bicycleparameters import main, parameter_dicts as P
D = dict(P.meijaard2007_browser_jason)
names = [k for k in D if isinstance(D[k], float)]


class B(main.Bicycle):
    def __init__(self, par):
        self.parameters = {'Benchmark': par}


import contextlib, io


def I(par):
    with contextlib.redirect_stdout(io.StringIO()):
        return B(par).steer_assembly_moment_of_inertia(aboutSteerAxis=True)[2, 2]


# wheel radius and heights measured against the same length
r = ufloat(D['rF'], 0.002)
par = dict(D, rF=r, zH=D['zH'] - (r - D['rF']))
h = 1e-5
dI = [I(dict(D, rF=D['rF'] + s, zH=D['zH'] - s)) for s in (-h, h)]
want = abs(dI[1] - dI[0]) / 2 / h * 0.002
got = I(par).std_dev
assert abs(got - want) < 1e-3 * want, (got, want)
''', 'uncertain parameters that depend on the same measurement as the front wheel radius',
     'the uncertainty of the steer assembly inertia ignores the correlation')

seed('s26-rod-uncertainty', 'C26',
     [('main.py', "    IPxx, IPyy, IPzz = inertia.tube_inertia(mp['lP'], mp['mP'],\n"
       "                                            mp['dP'] / 2., 0.)\n",
       "    rod = io.remove_uncertainties(mp)\n"
       "    IPxx, IPyy, IPzz = inertia.tube_inertia(rod['lP'], rod['mP'],\n"
       "                                            rod['dP'] / 2., 0.)\n")],
     '''
import glob
from uncertainties import ufloat
from bicycleparameters import io, main
path = os.path.join(os.path.dirname(main.__file__), '..', 'data', 'bicycles', 'Browser', 'RawData', 'BrowserMeasured.txt')
mp = io.load_parameter_text_file(path)
nom = {k: getattr(v, 'nominal_value', v) for k, v in mp.items()}
want = 2 * 0.01 / 1.0
mp = dict(nom, mP=ufloat(nom['mP'], 0.1))
par, _ = main.calculate_benchmark_from_measured(mp)
assert abs(par['IRxx'].std_dev / par['IRxx'].nominal_value - 0.1 / nom['mP']) < 1e-9
''', 'a calibration rod with uncertain mass, length or diameter',
     'the uncertainty of the rod does not reach the inertias it calibrates')

seed('s27-principal-axes', 'C27',
     [('parameter_sets.py', "        angle_to_max = np.arctan2(-evecs[1, 1], evecs[0, 1])\n",
       "        angle_to_max = np.arctan(np.abs(evecs[1, 1]/evecs[0, 1]))\n")],
     '''
import matplotlib.pyplot as plt
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
for IHxz in (-0.03, 0.03):
    p = Meijaard2007ParameterSet(dict(D, IHxz=IHxz), True)
    fig, ax = plt.subplots()
    p.plot_body_principal_radii_of_gyration('H', ax=ax)
    I = np.array([[D['IHxx'], IHxz], [IHxz, D['IHzz']]])
    for line in ax.lines:
        d = np.array([np.diff(line.get_xdata())[0], np.diff(line.get_ydata())[0]])
        d /= np.linalg.norm(d)
        assert abs(d[0]*(I @ d)[1] - d[1]*(I @ d)[0]) < 1e-9, (IHxz, d)
''', 'a body whose product of inertia has the other sign',
     'the principal axes drawn are mirrored, they are no principal axes')

seed('s28-diamond-cross', 'C27',
     [('parameter_sets.py', '''        p = self.parameters

        x_offset = np.array([
            p['wP']/2*np.cos(-p['alphaP']),''', '''        p = self.parameters
        if show_cross:
            # the diamond is sheared along with its diagonals
            p['alphaP'] = p['alphaP'] % np.pi

        x_offset = np.array([
            p['wP']/2*np.cos(-p['alphaP']),''')],
     '''
from bicycleparameters.parameter_dicts import moore2019_browser_jason as D
from bicycleparameters.parameter_sets import Moore2019ParameterSet
p = Moore2019ParameterSet(dict(D, alphaP=-0.3))
p.plot_person_diamond(show_cross=True)
assert p.parameters['alphaP'] == -0.3
''', 'a drawing with the cross of a person that leans the other way',
     'drawing changes the parameter set')

seed('s29-stable-range', 'C28',
     [('models.py', "                            where=np.all(evals.real <= 0.0, axis=1),",
       "                            where=np.all(evals.real[:, :-1] <= 0.0, axis=1),")],
     '''
import matplotlib.pyplot as plt
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007Model
m = Meijaard2007Model(Meijaard2007ParameterSet(dict(D), True))
rng = np.random.default_rng(1)
v = np.linspace(0.1, 12, 60)


for sort in (True, False):
    # make any of the modes the unstable one
    for j in range(4):
        class M(Meijaard2007Model):
            def calc_eigen(self, **kw):
                ev = -np.ones((60, 4), dtype=complex)
                ev[:, :] -= np.arange(4)
                ev[20:, j] = 3.0
                return ev, np.tile(np.eye(4, dtype=complex), (60, 1, 1))
        ax = M(m.parameter_set).plot_eigenvalue_parts(v=v, sort_modes=sort, show_stable_regions=True)
        x = [c for c in ax.collections][0].get_paths()[0].vertices[:, 0]
        assert x.max() <= v[20], (sort, j, x.max())
        plt.close('all')
''', 'a parameter range in which the last mode alone is unstable',
     'an unstable range is shaded as stable')

seed('s30-gain-override', 'C28',
     [('models.py', "                        par[name]*np.ones_like(par[x_axis_key]))",
       "                        self.parameter_set.parameters[name] *\n"
       "                        np.ones_like(par[x_axis_key]))")],
     '''
import matplotlib.pyplot as plt
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007WithFeedbackParameterSet
from bicycleparameters.models import Meijaard2007WithFeedbackModel
gains = {k: 0.0 for k in ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
                          'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']}
m = Meijaard2007WithFeedbackModel(Meijaard2007WithFeedbackParameterSet(dict(D, **gains), True))
axes = m.plot_gains(v=np.linspace(1, 5, 4), kTdel_phid=-7.0)
close(axes[1, 2].lines[0].get_ydata(), [-7.0]*4)
close(axes[0, 0].lines[0].get_ydata(), [0.0]*4)
''', 'a gain overridden by one value while another parameter varies',
     'the figure shows the value of the parameter set instead of the gain used')

SEATED = '''
from bicycleparameters.rider import rider_on_bike
from bicycleparameters.main import Bicycle
from contextlib import redirect_stdout
import io


def fit(**changes):
    with redirect_stdout(io.StringIO()):
        b = Bicycle("Browser", pathToData="data", forceRawCalc=True)
    m = dict(b.parameters["Measured"], **changes)
    bench = b.parameters["Benchmark"]
    h = rider_on_bike(bench, m, "data/riders/Jason/RawData/JasonYeadonMeas.txt",
                      "data/riders/Jason/RawData/JasonBrowserYeadonCFG.txt", False)
    k = h.meas
    d = k["La4L"] + k["La5L"] - k["La2L"]
    e = k["Lj5L"] + k["Lj6L"] - k["Lj3L"]
    hand = [np.ravel(s.pos - d*s.rot_mat[:, [2]]) for s in (h.A2, h.B2)]
    foot = [np.ravel(s.pos - e*s.rot_mat[:, [2]]) for s in (h.J2, h.K2)]
    return h, m, bench, hand, foot
'''

seed('s31-rider-hand', 'C25',
     [('rider.py', "    cfg_dict['CB1rotation'] = -cfg_dict['CA1rotation']",
       "    cfg_dict['CB1rotation'] = cfg_dict['CA1rotation']")],
     SEATED + '''
h, m, bench, (a, b), foot = fit()
# mirror images
close(a, b*[-1, 1, 1], 1e-6)
close(a[0], m["whb"]/2, 1e-6)
''', 'a posture in which the upper arms are rotated',
     'the right hand is off the handlebar')

seed('s32-rider-hubs', 'C25',
     [('rider.py', "        zero[5] = alpha_z - beta_z + r_F - r_R",
       "        zero[5] = alpha_z - beta_z")],
     SEATED + '''
from bicycleparameters.io import remove_uncertainties as plain
from bicycleparameters.rider import yeadon_vec_to_bicycle_vec as to_bike
for r in (0.0, 0.01):
    h, m, bench, hand, foot = fit()
    bench = plain(dict(bench))
    bench["rF"] += r
    h = rider_on_bike(bench, m, "data/riders/Jason/RawData/JasonYeadonMeas.txt",
                      "data/riders/Jason/RawData/JasonBrowserYeadonCFG.txt", False)
    d = h.meas["La4L"] + h.meas["La5L"] - h.meas["La2L"]
    m = plain(m)
    x = np.ravel(to_bike(h.A2.pos - d*h.A2.rot_mat[:, [2]], m, bench))
    close(np.linalg.norm(x - [0, 0, -bench["rR"]]), m["LhbR"], 1e-6)
    close(np.linalg.norm(x - [bench["w"], 0, -bench["rF"]]), m["LhbF"], 1e-6)
''', 'wheels of different radii', 'the hands are not at the grips')

LEAN = '''
from bicycleparameters.parameter_dicts import mooreriderlean2012_browser_jason as D
from bicycleparameters.parameter_sets import MooreRiderLean2012ParameterSet
from bicycleparameters.models import MooreRiderLean2012Model


def lean(**k):
    return MooreRiderLean2012Model(MooreRiderLean2012ParameterSet(
        dict(D, **k))).form_state_space_matrices()
'''

seed('s33-lean-spring', 'C24',
     [('_mooreriderlean2012.py', "    z[4205] = (2*z[4078]*z[408] - k9*z[98] ",
       "    z[4205] = (2*z[4078]*z[408] - k9*z[13] ")],
     LEAN + '''
# a spring acts as a lean torque
for v in (1.0, 5.0):
    A0, B = lean(v=v)
    A, _ = lean(v=v, k9=30.0)
    close(A[:, 7] - A0[:, 7], -30.0*B[:, 2], 1e-8)
    close(np.delete(A, 7, 1), np.delete(A0, 7, 1), 1e-8)
''', 'z[98] = c9**2 + s9**2: needs a change that matters', 'the spring')

seed('s34-lean-damper', 'C24',
     [('_mooreriderlean2012.py', "z[1028]*(c9*z[98]+z[4848])", "z[1028]*z[4848]")],
     LEAN + """
# a damper acts as a lean torque
for v in (1.0, 5.0):
    A0, B = lean(v=v)
    A, _ = lean(v=v, c9=10.0)
    close(A[:, 11] - A0[:, 11], -10.0*B[:, 2], 1e-8)
""", 'a rider lean damper, zero in the bundled parameters', 'steering by the damper')

seed('s35-gravity-and-speed', 'C03',
     [('models.py', """                if 'g' in array_keys:
                    g = par['g'][i]
                else:
                    g = par['g']
                if 'v' in array_keys:
                    v = par['v'][i]
                else:
                    v = par['v']
                A[i], B[i] = ab_matrix(M, C1, K0, K2, v, g)""",
       """                if 'g' in array_keys and 'v' not in array_keys:
                    g = par['g'][i]
                else:
                    g = np.ravel(par['g'])[0]
                if 'v' in array_keys:
                    v = par['v'][i]
                else:
                    v = par['v']
                A[i], B[i] = ab_matrix(M, C1, K0, K2, v, g)""")],
     """
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007Model
m = Meijaard2007Model(Meijaard2007ParameterSet(dict(D), True))
gs, vs = [9.81, 1.6, 3.7], [2.0, 5.0, 7.0]
for kw in (dict(g=gs), dict(v=vs), dict(g=gs, v=vs)):
    A, B = m.form_state_space_matrices(**kw)
    for i in range(3):
        Ai, Bi = m.form_state_space_matrices(**{k: x[i] for k, x in kw.items()})
        close(A[i], Ai)
        close(B[i], Bi)
""", 'gravity and speed both arrays, and no other parameter',
     'every row uses the first gravity')

seed('s36-mode-simulation-overrides', 'C20',
     [('models.py', """        evals, evecs = self.calc_eigen(**parameter_overrides)

        def eval_rhs(t, x):
            return A@x
""", """        evals, evecs = self.calc_eigen()

        def eval_rhs(t, x):
            return A@x
""")],
     """
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from bicycleparameters.models import Meijaard2007Model
m = Meijaard2007Model(Meijaard2007ParameterSet(dict(D), True))
t = np.linspace(0, 0.5, 5)
m.simulate_modes(t)
r = m.simulate_modes(t, v=6.0)
_, V = m.calc_eigen(v=6.0)
close(r[:, 0, :], np.real(V).T)
""", 'a mode simulation with an override', 'the modes start from the eigenvectors of the stored parameters')

seed('s37-saved-combination', 'C16',
     [('main.py', """                    io.write_parameter_text_file(pathToCombFile,
                                                 self.parameters[pset])""",
       """                    io.write_parameter_text_file(pathToCombFile,
                                                 parameters[pset])""")],
     """
import contextlib, io as sio, shutil
from unittest import mock
import bicycleparameters as bp
from bicycleparameters.io import load_parameter_text_file
d = tempfile.mkdtemp()
try:
    for k in ("bicycles/Browser/Parameters", "riders/Jason/Parameters"):
        shutil.copytree(os.path.join("data", k), os.path.join(d, k))
    with contextlib.redirect_stdout(sio.StringIO()), mock.patch("builtins.input", lambda *a: "y"):
        b = bp.Bicycle("Browser", pathToData=d)
        b.add_rider("Jason")
        b.save_parameters()
    found = False
    for root, _, files in os.walk(os.path.join(d)):
        for f in files:
            if "Combined" in root or "Parameters" in root:
                p = load_parameter_text_file(os.path.join(root, f))
                if "IHxx" in p and "w" in p and f.startswith("JasonBrowser"):
                    found = True
                    total = b.parameters["Benchmark"]["mB"]
                    assert abs(p["mB"].nominal_value - total.nominal_value) < 0.1, p["mB"]
    print(found)
    assert found
finally:
    shutil.rmtree(d)
""", 'saving a bicycle that has a rider', 'the file of bicycle and rider holds the rider alone')

seed('s38-many-orientations', 'C14',
     [('inertia.py', "    eye = np.squeeze(np.asarray(np.dot(betaMat.I, jay)))",
       "    eye = np.squeeze(np.asarray(np.dot(betaMat[:4].I, jay[:4])))")],
     """
from bicycleparameters.inertia import inertia_components
from uncertainties import unumpy
from uncertainties import ufloat
rng = np.random.default_rng(3)
for n in (3, 4, 5, 6):
    beta = np.linspace(0.1, 2.6, n)
    jay = rng.uniform(1, 2, n)
    M = np.vstack((np.cos(beta)**2, -2*np.sin(beta)*np.cos(beta), np.sin(beta)**2)).T
    want = np.linalg.lstsq(M, jay, rcond=None)[0]
    u = lambda x: np.array([ufloat(v, 0.001) for v in x])
    got = inertia_components(u(jay), u(beta))
    close([float(g.nominal_value) for g in np.ravel(got)[:3]],
          want if len(np.ravel(got)) == 3 else want, 1e-6)
""", 'five or more orientations whose inertias do not agree exactly', 'later orientations are ignored')

seed('s39-high-bottom-bracket', 'C11',
     [('rider.py', "np.sqrt(lcs**2 - (-hbb + rR)**2) +", "np.sqrt(lcs**2 - max(rR - hbb, 0.0)**2) +")],
     """
from bicycleparameters.rider import yeadon_vec_to_bicycle_vec
bench = dict(rR=0.3)
for hbb in (0.28, 0.3, 0.36):
    m = dict(hbb=hbb, lcs=0.42, lsp=0.2, lst=0.5, lamst=1.2)
    x = yeadon_vec_to_bicycle_vec(np.array([[0.1], [0.2], [0.3]]), m, bench)
    bb = (0.42**2 - (hbb - 0.3)**2)**0.5
    close(np.ravel(x), [bb - 0.7*np.cos(1.2) - 0.2, -0.1, -hbb - 0.7*np.sin(1.2) - 0.3])
""", 'a bottom bracket above the rear hub', 'the rider sits too far to the front')

seed('s40-long-batch', 'C05',
     [('models.py', "                vi = par['v'] if np.isscalar(par['v']) else par['v'][i]",
       "                vi = par['v'] if np.isscalar(par['v']) else par['v'][min(i, 99)]")],
     """
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007WithFeedbackParameterSet as P
from bicycleparameters.models import Meijaard2007WithFeedbackModel
D = dict(D, **{"kT%s_%s" % (a, b): 0.1 for a in ("phi", "del") for b in ("phi", "del", "phid", "deld")})
m = Meijaard2007WithFeedbackModel(P(D, True))
v = np.linspace(0, 10, 130)
A, B = m.form_state_space_matrices(v=v)
for i in (0, 57, 99, 100, 129):
    Ai, Bi = m.form_state_space_matrices(v=v[i])
    close(A[i], Ai)
    close(B[i], Bi)
""", 'more than a hundred speeds', 'the speed stays at the hundredth')

seed('s41-kept-tensors', 'C09',
     [('parameter_sets.py', """        inertia_tensor = np.array([[Ixx, 0.0, Ixz],
                                   [0.0, Iyy, 0.0],
                                   [Ixz, 0.0, Izz]])

        return inertia_tensor
""", """        if not hasattr(self, '_tensors'):
            self._tensors = {}
        if body not in self._tensors:
            self._tensors[body] = np.array([[Ixx, 0.0, Ixz],
                                            [0.0, Iyy, 0.0],
                                            [Ixz, 0.0, Izz]])

        return self._tensors[body]
""")],
     """
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet as P
p = P(dict(D), True)
p.form_inertia_tensor('B')
p.parameters['IBxx'] += 2.0
close(p.form_inertia_tensor('B')[0, 0], p.parameters['IBxx'])
t = p.form_inertia_tensor('H')
t[:] = 0.0
close(p.form_inertia_tensor('H')[0, 0], p.parameters['IHxx'])
""", 'asking for a tensor, editing the parameters (or the answer) and asking again', 'the first answer is given again')

seed('s42-kept-matrices', 'C11',
     [('main.py', "        par = self.parameters['Benchmark']\n\n        M, C1, K0, K2 = bicycle.benchmark_par_to_canonical(par)\n",
       "        par = self.parameters['Benchmark']\n\n"
       "        if getattr(self, '_canon', None) is None:\n"
       "            self._canon = bicycle.benchmark_par_to_canonical(par)\n"
       "        M, C1, K0, K2 = self._canon\n")],
     """
from bicycleparameters.main import Bicycle
from bicycleparameters.bicycle import benchmark_par_to_canonical
from bicycleparameters.parameter_dicts import meijaard2007_browser_jason as D
b = Bicycle.__new__(Bicycle)
b.bicycleName, b.hasRider = 'Bike', False
keep = ('w c lam g v rR mR IRxx IRyy xB zB mB IBxx IByy IBzz IBxz xH zH mH IHxx IHyy IHzz IHxz '
        'rF mF IFxx IFyy').split()
b.parameters = {'Benchmark': {k: D[k] for k in keep if k in D}}
b.canonical()
b.parameters['Benchmark']['mB'] += 10.0
for x, y in zip(b.canonical(), benchmark_par_to_canonical(b.parameters['Benchmark'])):
    close(x, y)
""", 'matrices asked for before the rider is added', 'the matrices stay those of the bicycle alone')
