"""C25 the rider's hands and feet are on the bicycle."""
import math
import os
import tempfile

import scipy.optimize
import yeadon

from vc.engine import contract
from bicycleparameters import rider
from contracts.lib import *

ASSUMED = ['fsolve returns a root of the function it is given (symbolic run)',
           'yeadon.Human places its segments by body fixed x, y, z rotations '
           'at the joints (compared with yeadon in human_kinematics)']
ARM = [('A', 'CA1extension', 'CA1adduction', 'CA1rotation', 'A1A2extension',
        'PJ1extension', 'PJ1adduction', 'J1J2flexion', 'a', 'j', 1),
       ('B', 'CB1extension', 'CB1abduction', 'CB1rotation', 'B1B2extension',
        'PK1extension', 'PK1abduction', 'K1K2flexion', 'b', 'k', -1)]
USED = {'j3L': (.4, .46), 'j5L': (.8, .9), 'j6L': (.05, .09),
        's4L': (.46, .56), 's4w': (.33, .43), 'a2L': (.27, .33),
        'a4L': (.52, .6), 'a5L': (.05, .1)}


# ---------------------------------------------------------------- kinematics
def rot(ctx, angles):
    """Body fixed rotations about x, y and z."""
    R = None
    for i, a in enumerate(angles):
        c, s = ctx.cos(a), ctx.sin(a)
        E = [[[1, 0, 0], [0, c, -s], [0, s, c]],
             [[c, 0, s], [0, 1, 0], [-s, 0, c]],
             [[c, -s, 0], [s, c, 0], [0, 0, 1]]][i]
        R = E if R is None else matmul(R, E)
    return R


def along(R, v, p=(0, 0, 0)):
    return [p[i] + sum(R[i][j] * v[j] for j in range(3)) for i in range(3)]


def posture(ctx, meas, cfg, hip):
    """Where the human's hands and feet are, in yeadon's axes (x left, y
    back, z up), from the middle of the hips."""
    P = rot(ctx, [cfg['somersault'], cfg['tilt'], cfg['twist']])
    T = matmul(P, rot(ctx, [cfg['PTsagittalFlexion'], cfg['PTbending'], 0]))
    C = matmul(T, rot(ctx, [cfg['TCsagittalSpinalFlexion'], 0,
                            cfg['TCspinalTorsion']]))
    out = {}
    for side, e, a, r, f, pe, pa, jf, arm, leg, s in ARM:
        m = {k: meas['L' + {'a': arm, 'j': leg}.get(k[0], k[0]) + k[1:]]
             for k in USED}
        A = matmul(C, rot(ctx, [cfg[e], cfg[a], cfg[r]]))
        F = matmul(A, rot(ctx, [cfg[f]]))
        # the trunk is straight
        shoulder = along(C, [s * m['s4w'] / 2, 0, m['s4L']])
        elbow = along(A, [0, 0, -m['a2L']], shoulder)
        out['hand ' + side] = along(F, [0, 0, m['a2L'] - m['a4L'] - m['a5L']],
                                    elbow)
        out['elbow axis ' + side] = [A[i][0] for i in range(3)]
        J = matmul(P, rot(ctx, [cfg[pe], cfg[pa]]))
        K = matmul(J, rot(ctx, [cfg[jf]]))
        knee = along(J, [0, 0, -m['j3L']], along(P, [s * hip, 0, 0]))
        out['foot ' + side] = along(K, [0, 0, m['j3L'] - m['j5L'] - m['j6L']],
                                    knee)
    return out


def of_yeadon(h):
    """The same from a yeadon.Human."""
    m = h.meas
    out = {}
    for side, arm, leg, u, l, t, s in (
            ('A', 'a', 'j', h.A1, h.A2, h.J1, h.J2),
            ('B', 'b', 'k', h.B1, h.B2, h.K1, h.K2)):
        del t
        d = m['L%s4L' % arm] + m['L%s5L' % arm] - m['L%s2L' % arm]
        out['hand ' + side] = list((l.pos - d * l.rot_mat[:, [2]]).flat)
        out['elbow axis ' + side] = list(u.rot_mat[:, 0])
        d = m['L%s5L' % leg] + m['L%s6L' % leg] - m['L%s3L' % leg]
        out['foot ' + side] = list((s.pos - d * s.rot_mat[:, [2]]).flat)
    return out


class Seated(object):
    """Contract of yeadon.Human: measurements, configuration."""
    CFGnames = yeadon.Human.CFGnames

    def __init__(self, ctx, meas, cfg):
        self.meas, self.CFG, self.drawn = meas, cfg, 0

    def set_CFG_dict(self, cfg):
        assert sorted(cfg) == sorted(self.CFGnames), sorted(cfg)
        self.CFG = cfg

    def set_CFG(self, name, value):
        assert name in self.CFGnames, name
        self.CFG[name] = value

    def draw(self, *args, **kw):
        self.drawn += 1


# ------------------------------------------------------------------ the files
HERE = os.path.dirname(os.path.abspath(__file__))


def person(ctx):
    """Measurements of Jason with others' trunk and limbs."""
    import yaml
    with open(os.path.join(HERE, 'data', 'JasonYeadonMeas.txt')) as f:
        m = yaml.safe_load(f)
    for k, (lo, hi) in sorted(USED.items()):
        mid = (lo + hi) / 2
        x = ctx.real('L' + k, lo=0.0, sample=(lo, hi)) / mid
        for limb in {'a': 'ab', 'j': 'jk'}.get(k[0], k[0]):
            m['L' + limb + k[1:]] *= x
    # lengths along a limb stay in order
    scale = m['measurementconversionfactor']
    for limb in 'ab':
        m['L%s3L' % limb] = (m['L%s2L' % limb] + m['L%s4L' % limb]) / 2
        m['L%s6L' % limb] = m['L%s5L' % limb] * 1.3
        m['L%s7L' % limb] = m['L%s5L' % limb] * 2
    for limb in 'jk':
        m['L%s4L' % limb] = (m['L%s3L' % limb] + m['L%s5L' % limb]) / 2
        m['L%s8L' % limb] = m['L%s6L' % limb] * 2.3
        m['L%s9L' % limb] = m['L%s6L' % limb] * 2.8
    for i in (5, 6, 7, 8):
        m['Ls%dL' % i] = m['Ls4L'] + (i - 4) * 8. * .01 / scale
    for i in (1, 2, 3):
        m['Ls%dL' % i] = m['Ls4L'] * i / 4.
    return m


def on_files(ctx, m, cfg):
    import yaml
    d = tempfile.mkdtemp()
    out = []
    for name, x in (('PersonYeadonMeas.txt', m), ('PersonYeadonCFG.txt', cfg)):
        out.append(os.path.join(d, name))
        with open(out[-1], 'w') as f:
            yaml.safe_dump({k: float(v) for k, v in x.items()}, f)
    return out


def angles(ctx):
    """A posture near that of riding."""
    cfg = {k: 0.0 for k in yeadon.Human.CFGnames}
    cfg['somersault'] = S = ctx.real('somersault', sample=(.05, .3))
    cfg['PJ1extension'] = ctx.real('thigh', sample=(-1.7, -1.2))
    cfg['J1J2flexion'] = ctx.real('knee', sample=(.9, 1.5))
    cfg['CA1extension'] = e = ctx.real('upper arm', sample=(-.9, -.5))
    cfg['CA1adduction'] = a = ctx.real('adduction', sample=(-.1, .1))
    cfg['A1A2extension'] = ctx.real('forearm', sample=(-.9, -.4))
    # the axis of the elbow is horizontal
    cfg['CA1rotation'] = math.atan(math.sin(a) / math.tan(e + S))
    mirror(cfg)
    return cfg


def mirror(cfg):
    for a, b, s in (('CA1extension', 'CB1extension', 1),
                    ('CA1adduction', 'CB1abduction', -1),
                    ('CA1rotation', 'CB1rotation', -1),
                    ('A1A2extension', 'B1B2extension', 1),
                    ('PJ1extension', 'PK1extension', 1),
                    ('J1J2flexion', 'K1K2flexion', 1)):
        cfg[b] = s * cfg[a]


def bicycle_under(ctx, h, cfg):
    """A bicycle that fits the posture."""
    at = of_yeadon(h)
    foot, hand = at['foot A'], at['hand A']
    bench = {'rR': ctx.real('rR', lo=0.0, sample=(.3, .36)),
             'rF': ctx.real('rF', lo=0.0, sample=(.3, .36)),
             'w': ctx.real('w', lo=0.0, sample=(.95, 1.15))}
    meas = {'hbb': ctx.real('hbb', sample=(.25, .32)),
            'lcs': ctx.real('lcs', lo=0.0, sample=(.42, .48)),
            'lsp': ctx.real('lsp', sample=(.1, .3))}
    meas['lst'] = math.hypot(foot[1], foot[2]) - meas['lsp']
    meas['lamst'] = math.atan2(-foot[2], -foot[1])
    at = to_bicycle(ctx, meas, bench, hand)
    meas['whb'] = 2 * hand[0]
    meas['LhbR'] = math.dist(at, (0, 0, -bench['rR']))
    meas['LhbF'] = math.dist(at, (bench['w'], 0, -bench['rF']))
    return bench, meas


def bracket(ctx, meas, bench):
    """The bottom bracket: hbb above the ground, a chain stay's length ahead
    of the rear wheel centre."""
    drop = meas['hbb'] - bench['rR']
    return ctx.sqrt(meas['lcs'] * meas['lcs'] - drop * drop), 0, -meas['hbb']


def to_bicycle(ctx, meas, bench, v):
    """The hips are at the upper end of the seat post, in line with the seat
    tube; bicycle axes x forward, y right, z down."""
    x, _, z = bracket(ctx, meas, bench)
    l = meas['lsp'] + meas['lst']
    return [x - l * ctx.cos(meas['lamst']) - v[1], -v[0],
            z - l * ctx.sin(meas['lamst']) - v[2]]


@contract('C25', 'rider.rider_on_bike', samples=24, assumes=ASSUMED,
          wild=False, seconds=200)
def seated(ctx):
    """Both feet at the bottom bracket, both hands a handlebar width apart at
    the measured distances from the wheel centres, the elbows' axes level."""
    draw = ctx.choice('draw', [False, True])
    u = not ctx.symbolic and ctx.choice('uncertain', [False, True])
    if ctx.symbolic:
        m = {'L' + k: ctx.real('L' + k, lo=0.0) for k in USED}
        for k in USED:
            if k[0] in 'aj':
                m['L' + {'a': 'b', 'j': 'k'}[k[0]] + k[1:]] = m['L' + k]
        cfg = {k: 0 for k in yeadon.Human.CFGnames}
        cfg['somersault'] = ctx.real('somersault')
        bench = {k: ctx.real(k, lo=0.0) for k in ('rF', 'rR', 'w')}
        meas = {k: ctx.real(k) for k in ('hbb', 'lcs', 'lsp', 'lst', 'lamst',
                                         'whb', 'LhbF', 'LhbR')}
        drop = meas['hbb'] - bench['rR']
        ctx.assume(meas['lcs'] * meas['lcs'] - drop * drop > 0)
        humans = []

        def human(meas_in, CFG=None, **kw):
            ctx.true('files', (meas_in, CFG) == ('meas', 'cfg'))
            humans.append(Seated(ctx, dict(m), dict(cfg)))
            return humans[-1]

        def fsolve(func, x0, args=(), fprime=None, full_output=0, **kw):
            r = np.array([ctx.real('angle%d' % i) for i in range(len(x0))],
                         dtype=object)
            for res in np.asarray(func(r, *args)).flat:
                ctx.assume(res == 0)
            return (r, {}, 1, '') if full_output else r
        ctx.replace(yeadon, 'Human', human)
        ctx.replace(scipy.optimize, 'fsolve', fsolve)
        ctx.note_stub('yeadon.Human')
        ctx.note_stub('fsolve')
        files = ['meas', 'cfg']
    else:
        pm, pcfg = person(ctx), angles(ctx)
        with quiet():
            h = yeadon.Human(*on_files(ctx, pm, pcfg))
            h.update()          # reading the angles alone does not
        bench, meas = bicycle_under(ctx, h, pcfg)
        cfg = {k: 0.0 for k in pcfg}
        cfg['somersault'] = pcfg['somersault']
        files = on_files(ctx, pm, cfg)
        drawn = []
        ctx.replace(yeadon.Human, 'draw', lambda self, *a, **k:
                    drawn.append(self))
        if u:
            from uncertainties import ufloat
            meas = {k: ufloat(v, 1e-3) for k, v in meas.items()}
            bench = {k: ufloat(v, 1e-3) for k, v in bench.items()}
    ctx.frame('bicycle', meas, bench)
    with quiet():
        got = rider.rider_on_bike(bench, meas, files[0], files[1], draw)
    from vc.engine import nominal
    meas, bench = nominal(meas), nominal(bench)
    if ctx.symbolic:
        ctx.true('the human', humans and got is humans[-1])
        ctx.true('drawn', humans[-1].drawn == int(draw))
        at = posture(ctx, m, got.CFG, ctx.real('half the hips'))
    else:
        ctx.true('drawn', drawn == ([got] if draw else []))
        at = of_yeadon(got)
    for k in cfg:
        if k[:2] in ('so', 'ti', 'tw', 'PT', 'TC') or k.endswith(
                ('PJ1adduction', 'PK1abduction')):
            ctx.eq(k, got.CFG[k], cfg[k])
    x, _, z = bracket(ctx, meas, bench)
    for side, s in (('A', -1), ('B', 1)):
        b = to_bicycle(ctx, meas, bench, at['foot ' + side])
        ctx.eq('foot %s at the bottom bracket' % side, [b[0], b[2]], [x, z],
               scale=1., tol=1e-5)
        b = to_bicycle(ctx, meas, bench, at['hand ' + side])
        ctx.eq('hand %s at its end of the handlebar' % side, b[1],
               s * meas['whb'] / 2, scale=1., tol=1e-5)
        for name, hub, d in (
                ('rear', (0, 0, -bench['rR']), meas['LhbR']),
                ('front', (bench['w'], 0, -bench['rF']), meas['LhbF'])):
            ctx.eq('hand %s from the %s wheel centre' % (side, name),
                   sum((p - q) * (p - q) for p, q in zip(b, hub)), d * d,
                   scale=1., tol=1e-5)
        ctx.eq('elbow %s level' % side, at['elbow axis ' + side][2], 0,
               scale=1., tol=1e-5)


@contract('C25', 'rider.rider_on_bike', samples=40, symbolic=False,
          wild=False)
def human_kinematics(ctx):
    """posture() above is what yeadon does."""
    m = person(ctx)
    cfg = {k: ctx.real(k, sample=(-.5, .5)) for k in yeadon.Human.CFGnames}
    for k in cfg:
        if k[:2] in ('PT', 'TC'):
            cfg[k] = 0.0        # the trunk of posture() is straight
    with quiet():
        h = yeadon.Human(*on_files(ctx, m, cfg))
        h.update()
    want = of_yeadon(h)
    got = posture(ctx, h.meas, h.CFG, h.J1.pos[0, 0] and math.sqrt(
        sum(float(e) ** 2 for e in h.J1.pos.flat)))
    for k in sorted(want):
        ctx.eq(k, want[k], got[k], scale=1.)
