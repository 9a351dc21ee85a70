"""Velocity propagation and the manipulator Jacobian."""
from ..kin import *
from ..poly import sym, is_zero

EXPLANATION = ('forward_kinematics is interpreted on symbolic tables for several patterns of revolute and prismatic '
               'joints; the velocities of the last frame and the 6x6 Jacobian are compared with the '
               'geometric definition computed independently: column j of the Jacobian is the joint axis carried into '
               'frame 6 (angular) and axis x (origin distance), or the axis itself for a prismatic joint.')
RULE = 'one obligation per table, joint pattern and Jacobian column; velocities equal Jacobian times joint rates'
MIN_OBLIGATIONS = 60


def geometric(T, vv):
    """6x6 Jacobian expressed in frame 6 from the link transforms: columns (v; w)"""
    cols = []
    for j in range(6):
        # frame j+1 to frame 6
        Tj = mm(*T[j + 1:]) if j < 5 else hom(rotx(0))
        R = tr(rot(Tj))                       # 6 <- j+1
        z = [r[2] for r in R]
        if vv[j] == 1:
            p = pos(Tj)                       # origin of 6 in frame j+1; axis z of frame j+1 through its origin
            vlin = cross([0, 0, 1], p)
            cols.append([x[0] for x in mm(R, [[c] for c in vlin])] + z)
        elif vv[j] == 0:
            cols.append(z + [0, 0, 0])
        else:
            cols.append([0] * 6)
    return cols


def tables(ctx):
    h = PI / 2
    def rowsof(als, a, d, th):
        return [[als[i], sym('a_%d' % i) if i in a else 0, sym('d_%d' % (i + 1)) if i in d else 0,
                 sym('th_%d' % (i + 1)) if i in th else 0] for i in range(6)]
    out = []
    from itertools import combinations
    for c in combinations(range(6), 2):
        out.append(('links %d+%d symbolic' % (c[0] + 1, c[1] + 1), [dh_sym(i + 1) if i in c else IDENT for i in range(6)]))
    out.append(('parallel axes', rowsof([0, 0, 0, 0, PI, 0], (1, 2, 4), (0, 5), (0, 1, 2, 3, 4, 5))))
    out.append(('spherical wrist', rowsof([0, 0, 0, -h, h, -h], (1, 5), (0, 3, 5), (0, 3, 4, 5))))
    if ctx.thorough:
        out.append(('six revolute joints', rowsof([0, -h, 0, -h, h, -h], (2, 3), (0, 2, 3), (0, 1, 2, 3, 4, 5))))
        for c in combinations(range(6), 3):
            out.append(('links %s symbolic' % (tuple(i + 1 for i in c),),
                        [[dh_sym(i + 1)[0] if i == c[1] else h, sym('a_%d' % i), sym('d_%d' % (i + 1)), sym('th_%d' % (i + 1))] if i in c
                         else IDENT for i in range(6)]))
    return out


def run(ctx):
    F = 'ikbtbasics/kin_cl.py mechanism.forward_kinematics'
    pats = [(1, 1, 1, 1, 1, 1), (0, 1, 0, 1, 0, 1), (1, 0, 1, 0, 1, 0), (0, 0, 0, 0, 0, 0), (1, 1, 0, 0, 1, 1)]
    qd = [sym('qd_%d' % i) for i in range(1, 7)]
    for label, dh in tables(ctx):
        for vv in pats:
            def body(it):
                k = it.import_module('ikbtbasics.kin_cl')
                it.setattr(k, 'JACOBIAN', True)
                m = robot(it, dh, vv)
                return {n: unalias(it.getattr(m, n), m) for n in ('v_66', 'w_66', 'J66')}
            for it, out in ctx.explore(body, fuel=3000000):
                key = '%s/joints %s' % (label, ''.join('PR'[v] for v in vv))
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                res = out[1]
                cols = geometric([link(*r) for r in dh], vv)
                J = tr(cols)
                if len(res['J66']) != 6 or any(len(r) != 6 for r in res['J66']):
                    ctx.ob(key, False, 'the Jacobian is not 6x6', F)
                    continue
                for j in range(6):
                    d = same([[r[j]] for r in res['J66']], [[r[j]] for r in J])
                    ctx.ob('%s/column %d' % (key, j + 1), d is None, 'Jacobian column %d: %s' % (j + 1, d), F)
                d = same(res['v_66'] + res['w_66'], mm(J, [[q] for q in qd]))
                ctx.ob(key + '/velocities', d is None, 'velocity of the last frame: %s' % d, F)
