"""Fixture of the code-generator checks: solved robots with the expression shapes the solvers produce."""
from itertools import product
from .poly import Poly, sym, sin, cos, sqrt, fn, PI, is_zero
from .text import sq, plain
from .sympy_model import VMatrix
from . import solved

S = sym
Px, Py, Pz, r11, r12, r13, r31, r33, l1, a2, d6, K = map(sym, 'Px Py Pz r_11 r_12 r_13 r_31 r_33 l_1 a_2 d_6 K'.split())
MANY = ['b_%d' % i for i in range(1, 11)]
PARAMS = ['l_1', 'a_2', 'd_6', 'ca2'] + MANY
PVALS = {'a_2': Poly.const(1) / 2, 'd_6': PI / 6, 'ca2': cos(PI / 6), 'b_3': Poly.const(0), 'b_8': Poly.const(-2)}
ca2 = sym('ca2')


def at2(y, x):
    return fn('atan2', y, x)


def asin(x):
    return fn('asin', x)


def acos(x):
    return fn('acos', x)


METHODS = ['atan2(y,x)', ', arcsin', 'arcsin', 'arccos', ', arccos', 'sinANDcos', 'algebra', 'simultaneous eqn',
           ', best ranked, sin or cos', ', best ranked, atan2(y,x)', 'x2z2 transform and algebra',
           'x2z2 transform and arccos', 'x2z2 transform and atan2(y,x)', 'x2z2 transform and sinANDcos', 'atan2(y,x), arcsin, best ranked, sin or cos']


def forms(dep=None):
    """(key, [solutions]) for one unknown; dep: an already solved unknown"""
    t = S(dep) if dep else None
    c, s = (cos(t), sin(t)) if dep else (r33, r31)
    return [
        ('atan2', [at2(Py * c, -Px)]),
        ('atan2 pair', [at2(Py, Px * c), at2(Py, Px * c) + PI]),
        ('quotient', [3 * Px * c / (2 * l1) - Pz / 2]),
        ('constant fraction', [Poly.const(1) / 2 + r11 * c]),
        ('power', [Px ** 2 * c + l1 ** 3 - sq(Py - a2 * s)]),
        ('power of a function', [c ** 2 * Px + s * c ** 3 / 3]),
        ('bracket power quotient', [sq(Px + Py) / l1 + 1 / (Px + l1)]),
        ('asin', [asin(c * Px / a2), PI - asin(c * Px / a2)]),
        ('acos', [acos((Px + s) / l1), -acos((Px + s) / l1)]),
        ('acos squares', [acos((sq(Px * c) + Py ** 2 - l1 ** 2) / (2 * l1 * a2)), -acos((sq(Px * c) + Py ** 2 - l1 ** 2) / (2 * l1 * a2))]),
        ('asin plus atan2', [asin(c * Px / sqrt(Px ** 2 + Py ** 2)) - at2(Px, Py), PI - asin(c * Px / sqrt(Px ** 2 + Py ** 2)) - at2(Px, Py)]),
        ('asin and acos', [asin(r12 * c) + acos(r13 - Pz)]),
        ('acos of asin', [acos(Px + asin(s * r12))]),
        ('sin and cos', [at2(Px, Py) + at2(sqrt(sq(Px - d6) + Py ** 2 - l1 ** 2), c * l1), at2(Px, Py) + at2(-sqrt(sq(Px - d6) + Py ** 2 - l1 ** 2), c * l1)]),
        ('parameters', [ca2 * Px + d6 * r11 * c - a2]),
    ]


def specs(thorough):
    """(key, robot name, [(unknown, solutions, method)])"""
    out = [('nothing solved', 'Raven-II', [])]
    for k, (n, f) in enumerate(forms()):
        ms = METHODS if thorough else [METHODS[(k + j) % len(METHODS)] for j in (0, 4, 9)]
        for m in ms:
            out.append(('%s by %s' % (n, m), 'Puma', [('th_1', f, m)]))
    for k, (n, f) in enumerate(forms('th_1')):
        for j, base in enumerate(([at2(r12, r11)], [asin(r12), PI - asin(r12)])):
            if len(f) == 1 or thorough or j == k % 2 or True:
                out.append(('%s after %s' % (n, ('atan2', 'asin pair')[j]), 'Chair_Helper',
                            [('th_1', base, METHODS[(k + j) % 4]), ('d_2' if k % 2 else 'th_2', f, METHODS[(k + 3 * j) % len(METHODS)])]))
    six = [('th_1', [at2(Py, Px), at2(Py, Px) + PI], ', best ranked, atan2(y,x)'),
           ('th_3', [acos((Px * cos(S('th_1')) - l1) / a2), -acos((Px * cos(S('th_1')) - l1) / a2)], 'x2z2 transform and arccos'),
           ('th_23', [at2(Pz - S('th_3') * l1, r13 + S('th_1'))], 'simultaneous eqn'),
           ('th_2', [S('th_23') - S('th_3')], 'algebra'),
           ('th_12', [S('th_1') + S('th_2')], 'algebra'),
           ('d_4', [r11 * S('th_2') / 2 - d6 * S('th_23')], 'algebra'),
           ('th_5', [asin(r31 + S('d_4')), PI - asin(r31 + S('d_4'))], ', arcsin'),
           ('th_6', [at2(r12 + S('th_5'), S('th_2'))], 'sinANDcos')]
    out.append(('eight unknowns with sums of angles', 'ICP5p5_A21', six))
    out.append(('three letters', 'test: Wrist', [('A', [at2(r12, r11), at2(r12, r11) + PI], 'atan2(y,x)'),
                                                 ('B', [asin(r31 + S('A'))], 'arcsin'), ('C', [at2(r33, S('B'))], ', best ranked, sin or cos')]))
    names = ['th_1', 'th_2', 'd_3', 'th_4', 'th_5', 'th_6', 'th_56']
    P = [S('r_%d%d' % (i, j)) for i in (1, 2, 3) for j in (1, 2, 3)] + [Px, Py, Pz]
    out.append(('every pose entry', 'Wrist', [('th_1', [at2(sum((p * (i + 2) for i, p in enumerate(P[:6])), Poly.const(0)), P[6] - 3 * P[7] + P[8] * P[9])], 'atan2(y,x)'),
                                              ('th_2', [P[10] * P[2] + P[11] * P[5] - S('th_1') * P[8]], 'algebra')]))
    for i, p in enumerate(P):
        out.append(('pose entry %s alone' % p, 'Wrist', [('th_1', [3 * p * l1], 'algebra')]))
    out.append(('seven pairs', 'Raven-II', [(n, [S('K%d' % i) if 0 else r11 * (2 * i + 1) + Px, r12 * (2 * i + 1) - Px], 'algebra') for i, n in enumerate(names)]))
    out.append(('eleven versions', 'KR16', [(n, [r11 * (2 * i + 1) + (S(names[i - 1]) if i else Px), r12 * (2 * i + 1) - Px], 'algebra') for i, n in enumerate(names[:4])]))
    out.append(('fourteen parameters', 'ABB IRB-120.3', [('th_1', [sum((sym(b) * p for b, p in zip(MANY, P)), Poly.const(0)) + ca2 * d6 * a2 * l1], 'algebra')]))
    out.append(('long name', 'two_under_scores', [('th_1', [r11 * (2 * i + 1) + Px for i in range(2)], 'atan2(y,x)'), ('th_2', [r12 - S('th_1')], 'sinANDcos')]))
    ten = ['th_1', 'th_12', 'th_2', 'd_3', 'th_4', 'th_45', 'th_5', 'th_456', 'th_56', 'th_6']
    out.append(('ten unknowns', 'KR16', [(n, [sum(((k + 2) * S(t) for k, t in enumerate(ten[:i])), P[i] * (2 * i + 1) - Px)] + ([Pz] if i == 4 else []), 'algebra') for i, n in enumerate(ten)]))
    return out


def build(it, name, spec, mech=True):
    m = it.import_module('ikbtbasics.ik_classes')
    kc = it.import_module('ikbtbasics.kin_cl')
    pv = {sym(k): v for k, v in PVALS.items()}
    pv[ca2] = 'np.cos(pi/6)'            # as forward_kinematics records it
    T = VMatrix([[sym('T%d%d' % (i, j)) * cos(sym('th_%d' % (j + 1))) + sin(sym('th_2')) for j in range(4)] for i in range(4)])
    J = VMatrix([[sym('J%d%d' % (i, j)) * sin(sym('th_%d' % (j + 1))) for j in range(6)] for i in range(6)])
    dh = VMatrix([[sym('u%d' % i), sym('v%d' % i), sym('w%d' % i), sym('th_%d' % (i + 1))] for i in range(6)])
    params = [sym(p) for p in PARAMS]
    M = it.call(it.getattr(kc, 'mechanism'), [dh, params, [1] * 6], {})
    for k, v in (('T_06', T), ('J66', J), ('DH', dh), ('params', params), ('pvals', pv)):
        it.setattr(M, k, v)
    R = solved.new_robot(it, name, M)
    it.setattr(R, 'params', params)
    it.setattr(R, 'pvals', pv)
    unks = [solved.new_unknown(it, n) for n, _, _ in spec]
    it.setattr(R, 'variables', unks)
    for u, (n, sols, method) in zip(unks, spec):
        it.setattr(u, 'solutions', list(sols))
        it.setattr(u, 'nsolutions', len(sols))
        it.setattr(u, 'solvemethod', method)
        it.setattr(u, 'argument', (args_of(sols[0]) or [sols[0]])[0])
        it.call(it.getattr(u, 'set_solved'), [R, unks], {})
    it.call(it.getattr(R, 'create_solution_set'), [], {})
    return R, unks, M


def args_of(p):
    return [a.args[0] for a in p.atoms() if a.kind == 'fn' and a.name in ('asin', 'acos')]


def combos(spec, values=True):
    """every choice of solutions, resolved to pose and parameters: list of {unknown: value}; and all asin/acos arguments"""
    pv = {sym(k).as_atom(): v for k, v in PVALS.items()} if values else {}
    out, args = [], []
    for ch in product(*[range(len(s)) for _, s, _ in spec]):
        vals = {}
        for (n, sols, _), k in zip(spec, ch):
            e = plain(sols[k])
            e = e.subs(pv)
            e = e.subs({sym(d).as_atom(): v for d, v in vals.items()})
            vals[n] = e
            for a in args_of(e):
                if a not in args:
                    args.append(a)
        out.append(vals)
    return out, args


def range_keys(args):
    """decision keys that mean |a| > 1"""
    out = {}
    for a in args:
        for x in (a, -a):
            out[('lt0', repr(1 - abs(x)))] = a
    return out


def call_generator(it, module, func, R, *args):
    m = it.import_module(module)
    it.user['printer'] = True
    try:
        it.call(it.getattr(m, func), [R] + list(args), {})
    finally:
        it.user['printer'] = False


def written(it, ext, name):
    name = name.replace('test: ', '')
    fs = [f for f in it.files if f.endswith(ext) and name in f]
    return fs, ''.join(it.files[fs[0]]) if len(fs) == 1 else None


def same(a, b):
    return a == b or (a.symbols() == b.symbols() and is_zero(a - b))


def match_rows(rows, exp):
    """rows must be the combinations, once each, with the same unknown in the same column everywhere; '' or the difference"""
    if not exp or not exp[0]:
        return '' if not rows or rows == [[]] else 'solutions are returned although nothing was solved'
    names = list(exp[0])
    if len(rows) != len(exp):
        return '%d solutions are returned, expected %d combinations' % (len(rows), len(exp))
    if any(len(r) != len(names) for r in rows):
        return 'a solution has %s values for %d unknowns' % (sorted({len(r) for r in rows}), len(names))
    index = {}
    perm = None
    for r in rows:
        r = [x if isinstance(x, Poly) else Poly.of(x) for x in r]
        hit = None
        for c in exp:
            # columns -> unknowns
            if perm is not None:
                if all(same(c[n], x) for n, x in zip(perm, r)):
                    hit = c
                    break
                continue
            left, p = list(names), []
            for x in r:
                k = [n for n in left if same(c[n], x)]
                if not k:
                    break
                left.remove(k[0])
                p.append(k[0])
            else:
                hit, perm = c, p
                break
        if hit is None:
            return 'a returned solution is no combination of the symbolic solutions (or lists the unknowns in another order): %s' % (
                [repr(x)[:80] for x in r],)
        k = tuple(repr(hit[n]) for n in names)
        if k in index:
            return 'the combination %s is returned twice' % (list(k),)
        index[k] = 1
    return ''
