"""C24 the rider lean linearisation is that of the mechanical system."""
from vc.engine import Skip, contract
from bicycleparameters import models, parameter_sets
import bicycleparameters._mooreriderlean2012 as generated
from contracts.lib import *
from contracts import kept
from contracts.c03 import LEAN, LEAN_ORDER, lean_domain

KEEP = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12]
KEEP_B = [0, 2, 3]


def turn(v, c, s):
    """From axes turned by the steer axis tilt to forward, right, down."""
    return [c * v[0] + s * v[1], 0, c * v[1] - s * v[0]]


def tensor(p, body):
    return [[p[body + '11'], 0, p[body + '31']], [0, p[body + '22'], 0],
            [p[body + '31'], 0, p[body + '33']]]


def turned(I, c, s):
    R = [[c, 0, s], [0, 1, 0], [-s, 0, c]]
    return matmul(matmul(R, I), transpose(R))


def bodies(p, c, s):
    """(mass, x, z, inertia) of the rear wheel, rear frame, fork and front
    wheel, from the rear wheel contact."""
    w = p['d1'] * c + p['d2'] * s + p['d3'] * c
    x, _, z = turn((p['l1'], p['l2']), c, s)
    u, _, v = turn((p['l3'], p['l4']), c, s)
    return w, ((p['md'], 0, -p['rr'], [[p['id11'], 0, 0], [0, p['id22'], 0],
                                       [0, 0, p['id11']]]),
               (p['mc'], x, z - p['rr'], turned(tensor(p, 'ic'), c, s)),
               (p['me'], w + u, v - p['rf'], turned(tensor(p, 'ie'), c, s)),
               (p['mf'], w, -p['rf'], [[p['if11'], 0, 0], [0, p['if22'], 0],
                                       [0, 0, p['if11']]]))


def lateral(p, lam, c, s):
    """Mass, damping and stiffness matrices of roll, steer and rider lean:
    the bicycle's (rider without the lean) and those of the leaning body."""
    w, bs = bodies(p, c, s)
    tr = (p['rf'] * s - p['d3']) / c
    (mR, _, _, IR), (mB, xB, zB, IB), (mH, xH, zH, IH), (mF, _, _, IF) = bs
    x, l, m = p['l5'], p['l6'], p['mg']
    hinge = p['d4'] - p['rr']
    z = hinge + l
    G = tensor(p, 'ig')
    par = dict(w=w, c=tr, lam=lam, g=p['g'], rR=p['rr'], rF=p['rf'],
               mR=mR, IRxx=IR[0][0], IRyy=IR[1][1],
               mF=mF, IFxx=IF[0][0], IFyy=IF[1][1],
               mH=mH, xH=xH, zH=zH, IHxx=IH[0][0], IHxz=IH[0][2],
               IHzz=IH[2][2],
               mB=mB, xB=xB, zB=zB, IBxx=IB[0][0], IBxz=IB[0][2],
               IBzz=IB[2][2])
    return par, w, tr, (m, x, z, l, G)


def spec(ctx, p, lam):
    c, s = ctx.cos(lam), ctx.sin(lam)
    par, w, tr, (m, x, z, l, G) = lateral(p, lam, c, s)
    # the bicycle on which the rider sits without leaning: linear in the
    # bodies, so the rider is added as a body of the rear frame
    M, C1, K0, K2 = whipple(ctx, par, [(m, x, z, G[0][0], G[0][2], G[2][2])])
    v, g = p['v'], p['g']
    yaw = c / w                 # yaw rate for v steer and trail steer rate
    M = [list(r) + [0] for r in M] + [[0] * 3]
    C = [[v * e for e in r] + [0] for r in C1] + [[0] * 3]
    K = [[g * e + v * v * f for e, f in zip(r, q)] + [0]
         for r, q in zip(K0, K2)] + [[0] * 3]
    # the leaning body: lateral velocity of the mass centre
    # v psi + x psi' - z phi' - l theta', roll rate phi' + theta'
    M[2][2] = m * l * l + G[0][0]
    M[0][2] = M[2][0] = m * z * l + G[0][0]
    M[1][2] = M[2][1] = tr * yaw * (G[0][2] - m * x * l)
    C[2][1] = v * yaw * (G[0][2] - m * x * l) - m * l * v * tr * yaw
    K[2][1] = -m * l * v * v * yaw
    # gravity: m g (hinge phi^2 + l (phi + theta)^2) / 2
    K[2][2] = m * g * l + p['k9']
    K[0][2] = K[2][0] = m * g * l
    C[2][2] = p['c9']
    return M, C, K, w, tr, yaw


def compare(ctx, A, B, p, lam):
    ctx.true('shapes', (A.shape, B.shape) == ((12, 12), (12, 3)))
    M, C, K, w, tr, yaw = spec(ctx, p, lam)
    v = p['v']
    wheels = p['rr'] / p['rf']
    ctx.use_lemmas(
        {'w': w}, {'mu': tr * yaw, 'v yaw': v * yaw},
        dict({'%s%d%d' % (k, i, j): X[i][j] for i in range(3)
              for j in range(3) for k, X in (('M', M), ('C', C), ('K', K))},
             forward=sum(p[k] for k in ('mc', 'md', 'me', 'mf', 'mg')) *
             p['rr'] * p['rr'] + p['id22'] + p['if22'] * wheels * wheels))
    names = ('q1', 'q2', 'q3', 'q4', 'q6', 'q7', 'q8', 'q9', 'u4', 'u6', 'u7',
             'u9')
    i = {k: n for n, k in enumerate(names)}
    known = {('q1', 'u6'): -p['rr'], ('q2', 'q3'): v,
             ('q3', 'q7'): v * yaw, ('q3', 'u7'): tr * yaw,
             ('q4', 'u4'): 1, ('q6', 'u6'): 1, ('q7', 'u7'): 1,
             ('q9', 'u9'): 1, ('q8', 'u6'): p['rr'] / p['rf']}
    rates, angles = ('u4', 'u7', 'u9'), ('q4', 'q7', 'q9')
    for r in names:
        for k in names:
            if r in rates and k in rates + angles:
                continue
            ctx.eq("%s' of %s" % (r, k), A[i[r], i[k]], known.get((r, k), 0),
                   scale=1. if (r, k) not in known else None)
        if r not in rates:
            ctx.eq("%s' of the torques" % r, B[i[r]], [0] * 3, scale=1.)

    def rows(X, cols):
        return [[X[i[r], j] for j in cols] for r in rates]
    for label, X, right in (
            ('torques', rows(B, range(3)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
            ('rates', rows(A, [i[k] for k in rates]), scale(C, -1)),
            ('angles', rows(A, [i[k] for k in angles]), scale(K, -1))):
        got = matmul(M, X)
        for a in range(3):
            for b in range(3):
                size = None if ctx.symbolic else 1e-2 + sum(
                    abs(M[a][k] * X[k][b]) for k in range(3))
                ctx.eq('%s[%d,%d]' % (label, a, b), got[a][b], right[a][b],
                       scale=size)


def pitch_contract(ctx, p, lam):
    """pitch_from_roll_and_steer, upright and not steered: the tilt at which
    both wheels touch the ground."""
    def pitch(q4, q7, rf, rr, d1, d2, d3, guess=None):
        ctx.true('upright', q4 == 0 and q7 == 0)
        # both wheels touch the ground (and only then is it the tilt)
        ctx.eq('on the ground', d2 * ctx.cos(lam) + rf,
               rr + (d1 + d3) * ctx.sin(lam))
        ctx.eq('geometry', [rf, rr, d1, d2, d3],
               [p[k] for k in ('rf', 'rr', 'd1', 'd2', 'd3')])
        return lam
    return pitch


@contract('C24', 'models.MooreRiderLean2012Model.form_state_space_matrices '
          '_mooreriderlean2012.eval_linear', samples=12, seconds=600)
def upright(ctx):
    p = {k: ctx.real(k, **lean_domain(k)) for k in LEAN
         if k not in ('d1', 'd2') or not ctx.symbolic}
    if ctx.symbolic:
        # every bicycle has a tilt and a wheelbase; in those terms
        lam = ctx.real('lam', sample=(.2, .5))
        w = ctx.real('w', lo=0.0, sample=(.9, 1.2))
        c, s = ctx.cos(lam), ctx.sin(lam)
        ctx.assume(c > 0)
        p['d1'] = w * c - (p['rr'] - p['rf']) * s - p['d3']
        p['d2'] = w * s + (p['rr'] - p['rf']) * c
    m = models.MooreRiderLean2012Model(
        framed(parameter_sets.MooreRiderLean2012ParameterSet(p)))
    if not ctx.symbolic:
        kept.used(m.parameter_set.parameters, kept.FIRST_LEAN,
                  m.form_state_space_matrices)
    if ctx.symbolic:
        f = pitch_contract(ctx, dict(p), lam)
        ctx.replace(generated, 'pitch_from_roll_and_steer', f)
        ctx.replace(models, 'pitch_from_roll_and_steer', f)
        ctx.note_stub('pitch_from_roll_and_steer')
    else:
        try:
            lam = models.pitch_from_roll_and_steer(
                0., 0., *[p[k] for k in ('rf', 'rr', 'd1', 'd2', 'd3')])
        except RuntimeError:
            # newton says so when it finds no tilt of an odd bicycle
            if .7 < p['d1'] < 1.3 and .2 < p['d2'] < .7:
                raise
            raise Skip('no tilt found')
    A, B = m.form_state_space_matrices()
    compare(ctx, A, B, p, lam)
