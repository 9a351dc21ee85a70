"""Forward kinematics and the matrix equation set: every equation is the documented rearrangement of T_d = T_06."""
from ..kin import *
from ..poly import sym, is_zero

EXPLANATION = ('forward_kinematics and get_mequation_set are interpreted on symbolic Denavit-Hartenberg tables in which '
               'one, two or three links are fully symbolic and the rest are identities (every pair and selection of '
               'positions, so a missing, extra, repeated or swapped factor, a wrong column or a wrong index changes '
               'some polynomial). Link transforms, their product and the two sides of every matrix equation are '
               'compared with the documented products as normal forms.')
RULE = 'one obligation per table and link transform / total transform / matrix equation / scalar equation list'
MIN_OBLIGATIONS = 300
NAMES = ['T_01', 'T_12', 'T_23', 'T_34', 'T_45', 'T_56']


def tables(ctx):
    from itertools import combinations
    out = []
    for k in (1, 2, 3) if ctx.thorough else (1, 2):
        for c in combinations(range(6), k):
            out.append(('symbolic links ' + '+'.join(str(i + 1) for i in c),
                        [dh_sym(i + 1) if i in c else IDENT for i in range(6)], (1,) * 6))
    h = PI / 2
    out.append(('all links', [[a if not isinstance(a, int) else P(a), sym('a_%d' % i) if i in (1, 3) else 0, sym('d_%d' % (i + 1)) if i in (0, 2, 4) else 0,
                               sym('th_%d' % (i + 1))] for i, a in enumerate((0, -h, 0, h, -h, h))], (1,) * 6))
    out.append(('prismatic joints', [[0, 0, sym('d_1'), 0], [-h, sym('a_1'), 0, sym('th_2')], [h, 0, sym('d_3'), 0],
                                     [PI, 0, sym('l_4'), sym('th_4')], [-h, 0, 0, sym('th_5')], [h, 0, sym('l_6'), sym('th_6')]],
                (0, 1, 0, 1, 1, 1)))
    return out


TD = [[sym('r_%d%d' % (i, j)) for j in (1, 2, 3)] + [sym(p)] for i, p in zip((1, 2, 3), ('Px', 'Py', 'Pz'))] + [[0, 0, 0, 1]]


def expected(T):
    """(left factors index, right factors index) pairs documented for the equation set"""
    inv = [hinv(t) for t in T]
    def lhs(p, q):
        return mm(*([inv[i] for i in range(p - 1, -1, -1)] + [TD] + [inv[i] for i in range(5, q - 1, -1)]))
    def rhs(p, q):
        return mm(*[T[i] for i in range(p, q)])
    words = [(0, 6), (1, 6), (2, 6), (3, 6), (4, 6), (5, 6), (1, 5), (2, 4)]
    return [(w, lhs(*w), rhs(*w)) for w in words]


def run(ctx):
    F = 'ikbtbasics/kin_cl.py '
    for label, dh, vv in tables(ctx):
        def body(it):
            k = it.import_module('ikbtbasics.kin_cl')
            it.setattr(k, 'JACOBIAN', False)
            m = robot(it, dh, vv)
            res = {n: unalias(it.getattr(m, n), m) for n in NAMES + ['T_06']}
            eqs = it.tolist(it.call(it.getattr(m, 'get_mequation_set'), [], {}))
            out = []
            for e in eqs:
                lst = it.tolist(it.call(it.getattr(e, 'get_kequation_list'), [], {}))
                out.append((unalias(it.getattr(e, 'Td'), m), unalias(it.getattr(e, 'Ts'), m),
                            [unalias([[it.getattr(q, 'LHS'), it.getattr(q, 'RHS')]], m)[0] for q in lst]))
            res['eqs'] = out
            res['T_06 after'] = unalias(it.getattr(m, 'T_06'), m)
            return res
        for it, out in ctx.explore(body, fuel=3000000):
            if out[0] != 'return':
                ctx.ob(label, False, ctx.outcome_text(out), ctx.where(out))
                continue
            res = out[1]
            T = [link(*r) for r in dh]
            for n, t in zip(NAMES, T):
                d = same(res[n], t)
                ctx.ob('%s/%s' % (label, n), d is None, '%s: %s' % (n, d), F + 'mechanism.forward_kinematics')
            for n in ('T_06', 'T_06 after'):
                d = same(res[n], mm(*T))
                ctx.ob('%s/%s' % (label, n), d is None, '%s: %s' % (n, d), F + 'mechanism.forward_kinematics')
            exp = expected(T)
            left = list(range(len(res['eqs'])))
            for w, l, r in exp:
                hit, why = None, 'no matrix equation left'
                for i in left:
                    dl, dr = same(res['eqs'][i][0][:3], l[:3]), same(res['eqs'][i][1][:3], r[:3])
                    if dl is None and dr is None:
                        hit = i
                        break
                    why = dl or dr
                if hit is not None:
                    left.remove(hit)
                ctx.ob('%s/equation T_%d0..Td.. = T_%d..%d' % (label, w[0], w[0], w[1]), hit is not None,
                       'no equation of the set is this rearrangement of T_d = T_06 (nearest differs: %s)' % why,
                       F + 'mechanism.get_mequation_set')
            ctx.ob('%s/nothing else' % label, not left, '%d further matrix equations' % len(left), F + 'mechanism.get_mequation_set')
            for i, (td, ts, lst) in enumerate(res['eqs']):
                want = [(P(td[a][b]), P(ts[a][b])) for a in range(3) for b in range(4)]
                got = [(P(a), P(b)) for a, b in lst]
                ok = len(got) == 12 and all(any(is_zero(a - c) and is_zero(b - e) for c, e in got) for a, b in want)
                ctx.ob('%s/scalar equations of matrix equation %d' % (label, i), ok,
                       'the 12 scalar equations are not the first three rows of the matrix equation',
                       F + 'matrix_equation.get_kequation_list')
