"""Numerical forward kinematics and the abbreviations used for display."""
from ..kin import *
from ..poly import sym, sin, cos, is_zero, PI, Poly
from ..interp import Native

EXPLANATION = ('The numerical forward kinematics function is interpreted on symbolic Denavit-Hartenberg tables with poses and '
               'parameters that leave distinguishable exact values (right angles, distinct lengths), and on poses with a '
               'missing entry; its entries are compared with the product of the link transforms. The abbreviation table is '
               'recovered by interpreting notation_squeeze on a recording argument, and each substituted function is compared '
               'as a trigonometric polynomial with what the name of its abbreviation says; it is also interpreted on matrices '
               'of all single and double angles.')
RULE = 'one obligation per table and pose (entries, refusal of an incomplete pose, arguments unchanged) and per abbreviation'
MIN_OBLIGATIONS = 60
W = 'ikbtbasics/kin_cl.py forward_kinematics_N'


class Rec(Native):
    """stands for any expression: remembers what is substituted in it"""
    def __init__(self, log):
        self.log = log

    def subs(self, *a, **k):
        from ..sympy_model import _subs_pairs
        self.log.extend(_subs_pairs(a))
        return self

    xreplace = subs

    def applyfunc(self, f):
        raise NotImplementedError


def run(ctx):
    h = PI / 2
    al = [0, -h, h, 0, -h, h]
    base = [[sym('al_%d' % i), sym('a_%d' % i), sym('d_%d' % (i + 1)), sym('th_%d' % (i + 1))] for i in range(6)]
    poses = [[h, 0, PI, h, -h, 0], [0, h, h, -h, PI, h], [-h, PI, 0, 0, h, PI]]
    if ctx.thorough:
        from itertools import product
        poses += [list(p) + [h, -h, 0] for p in product((0, h, PI), repeat=3)]
    for kind in ('revolute', 'prismatic'):
        for pose in poses:
            tab = [list(r) for r in base]
            for i in range(6):
                tab[i][0] = P(al[i])
                if kind == 'prismatic' and i in (0, 2):
                    tab[i][3] = P(0)
            jv = {}
            for i in range(6):
                if kind == 'prismatic' and i in (0, 2):
                    jv['d_%d' % (i + 1)] = 11 * (i + 2)
                else:
                    jv['th_%d' % (i + 1)] = pose[i]
            par = {'a_%d' % i: 2 + 3 * i for i in range(6)}
            par.update({'d_%d' % (i + 1): 29 + 7 * i for i in range(6) if 'd_%d' % (i + 1) not in jv})
            val = {**jv, **par}
            num = [[P(x).subs({sym(k).as_atom(): P(v) for k, v in val.items()}) for x in r] for r in tab]
            want = mm(*[link(*r) for r in num])
            for drop in (None, 'th_4', 'a_3'):
                def body(it):
                    k = it.import_module('ikbtbasics.kin_cl')
                    it.setattr(k, 'JACOBIAN', False)
                    m = robot(it, tab, tuple(int(not (kind == 'prismatic' and i in (0, 2))) for i in range(6)))
                    po = dict([(sym(n), P(v)) for n, v in jv.items() if n != drop])
                    pa = dict([(sym(n), P(v)) for n, v in par.items() if n != drop])
                    n0 = (len(po), len(pa))
                    T0 = rows(it.getattr(m, 'T_06'))
                    T = it.call(it.getattr(k, 'forward_kinematics_N'), [m, po, pa], {})
                    T1 = rows(it.getattr(m, 'T_06'))
                    return T, n0 == (len(po), len(pa)), all(is_zero(P(a) - P(b)) for x, y in zip(T0, T1) for a, b in zip(x, y))
                for it, out in ctx.explore(body):
                    key = '%s/%s' % (kind, ','.join(map(str, pose)))
                    if drop:
                        ctx.ob(key + '/without ' + drop, out[0] != 'return', 'a pose without a value for %s is accepted' % drop, W)
                    elif out[0] != 'return':
                        ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    else:
                        d = same(out[1][0], want)
                        ctx.ob(key, d is None, d or '', W)
                        ctx.ob(key + '/frame', out[1][1] and out[1][2], 'the pose, the parameters or T_06 were changed', W)
    # -- abbreviations
    def meaning(name):
        import re
        t = re.fullmatch(r'([sc])_(\d+)', name)
        if not t:
            return None
        return (sin if t.group(1) == 's' else cos)(sum((sym('th_' + ch) for ch in t.group(2)), Poly.const(0)))
    NS = 'ikbtbasics/pykinsym.py notation_squeeze'

    def table(it):
        log = []
        r = it.call(it.getattr(it.import_module('ikbtbasics.pykinsym'), 'notation_squeeze'), [Rec(log)], {})
        return isinstance(r, Rec), log
    for it, out in ctx.explore(table):
        if out[0] == 'return' and out[1][0] and out[1][1]:
            for old, new in out[1][1]:
                a = P(new).as_atom()
                w = meaning(a.name) if a is not None and a.kind == 'sym' else None
                ctx.ob('abbreviation/%s' % new, w is not None and is_zero(P(old) - w), '%s is shown as %s' % (old, new), NS)
    angles = [(i,) for i in range(1, 7)] + [(i, j) for i in range(1, 7) for j in range(i + 1, 7)]
    for kind in ('s', 'c'):
        f = sin if kind == 's' else cos
        for ang in angles:
            e = f(sum((sym('th_%d' % i) for i in ang), Poly.const(0))) * sym('l_3') + sym('d_2')

            def body(it):
                T = it.call(it.getattr(it.import_module('ikbtbasics.pykinsym'), 'notation_squeeze'), [VMatrix([[e, Poly.const(0)], [sym('r_11'), e * e]])], {})
                return rows(T)
            for it, out in ctx.explore(body):
                key = 'shown/%s_%s' % (kind, ''.join(map(str, ang)))
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                back = [[P(x) for x in r] for r in out[1]]
                back = [[x.subs({a: meaning(a.name) for a in x.symbols() if meaning(a.name) is not None}) for x in r] for r in back]
                bad = [p for p, q in zip(sum(back, []), [e, Poly.const(0), sym('r_11'), e * e]) if not is_zero(p - q)]
                ctx.ob(key, not bad, '%s is shown as %s' % (e, out[1][0][0]), NS)
                if len(ang) == 1:
                    ctx.ob(key + '/short', 'th_' not in str(out[1][0][0]), '%s is shown as %s' % (e, out[1][0][0]), NS)
