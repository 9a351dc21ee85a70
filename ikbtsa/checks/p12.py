"""Equation lists: every scalar equation is filed under its number of unsolved unknowns."""
from ..leaf import *
from itertools import product
from ..sympy_model import VMatrix

EXPLANATION = ('Robot.scan_for_equations and the list-refreshing leaf are interpreted on robots with symbolic matrix equations (two '
               'sides without a common unknown, repeated equations, zero and constant entries) and auxiliary sum-of-angle '
               'definitions, for every subset of solved unknowns, freshly and after further unknowns are solved. The lists must '
               'hold exactly the scalar equations with one, two and more unsolved unknowns.')
RULE = 'one obligation per solved subset and list: exact membership, no repetition, shortest first, auxiliary definitions, frame'
MIN_OBLIGATIONS = 300
W = 'ikbtbasics/ik_classes.py, ikbtleaves/updateL.py'
NAMES = ['th_1', 'th_2', 'th_3', 'th_23', 'd_4']


def mats(variant):
    t1, t2, t3, t23, d4 = map(sym, NAMES)
    l1, l2, Px, Py, Pz = map(sym, ('l_1', 'l_2', 'Px', 'Py', 'Pz'))
    r = lambda i, j: sym('r_%d%d' % (i, j))
    z = Poly.const(0)
    A = ([[r(1, 1), r(1, 2), r(1, 3), Px], [r(2, 1), r(2, 2), r(2, 3), Py], [r(3, 1), r(3, 2), r(3, 3), Pz]],
         [[cos(t1) * cos(t23), -sin(t23), sin(t1), d4 * sin(t1) + l1 * cos(t2)], [l2, cos(t23), cos(t1) * d4 * t2, z], [d4, d4 + l1, sin(t1), t3 * l2]])
    B = ([[r(1, 1) * cos(t1) + r(2, 1) * sin(t1), -r(1, 1) * sin(t1), r(1, 2) * cos(t1), Px * cos(t1) + Py * sin(t1) - l1],
          [r(3, 1), r(3, 2), r(3, 3), Pz], [z, r(2, 2) * t1, r(1, 3), Px]],
         [[cos(t23), sin(t3), z, l1 * cos(t2) + l2 * cos(t23)], [d4, d4 + l1, sin(t1), t3 * l2], [sin(t3), d4, l1, sin(t2) * sin(t3) * d4 * t23]])
    if variant == 1:                           # the same equations, in another order and with other sides
        A = ([row[::-1] for row in A[1]], [row[::-1] for row in A[0]])
        return [B, A]
    if variant == 2:
        return [A, B, A]
    return [A, B]


def aux(variant=0):
    t1, t2, t3, t23, d4 = map(sym, NAMES)
    if variant == 2:            # many of them: sums of angles and equations found by the squaring transform
        q = [sym(n) for n in ('r_11', 'r_23', 'l_1', 'l_2', 'Px', 'Py', 'Pz')]
        more = [(q[4] * q[4] + q[5] * q[5], d4 * d4 + q[2]), (q[0] * q[6], cos(t3) * q[2] + q[3]), (q[1], sin(t2) * cos(t1)), (t2, t1 + q[0]),
                (q[5], t1 * q[2] + d4), (q[6] * q[6], sin(t23) * q[3]), (t3, d4 + q[4]), (q[5] * q[5], cos(t2) * q[3]), (q[4], sin(t1) * d4 * t3)]
        return [(t23, t2 + t3)] + more
    return [(t23, t2 + t3)]


def count(e, unsolved):
    return len(mentions(e[0], unsolved)) + len(mentions(e[1], unsolved))


def canon(e):
    """an equation up to moving terms and an overall sign"""
    d = Poly.of(e[0]) - Poly.of(e[1])
    return frozenset((str(d), str(-d)))


def run(ctx):
    def one(case):
        variant, pat, again, how = case
        ms, ax = mats(variant), aux(variant) if variant != 1 else []
        S0 = [n for n, p in zip(NAMES, pat) if p]
        key = 'robot %d/solved %s%s/%s' % (variant, ','.join(S0) or 'none', '/then ' + again if again else '', how)

        def body(it):
            first = [n for n in NAMES if n not in S0]
            bb, R, UU = scene(it, first[0] if first else NAMES[0], first[1:], [n for n in S0 if first or n != NAMES[0]], [], [])
            if not first:
                solve(it, R, list(UU.values()), UU[NAMES[0]], [sym('r_33')])
            unks = [UU[n] for n in NAMES]
            it.call(it.getattr(bb, 'set'), ['unknowns', unks], {})
            me = it.getattr(it.import_module('ikbtbasics.kin_cl'), 'matrix_equation')
            full = lambda M: VMatrix([list(map(Poly.of, r)) for r in M] + [[Poly.of(x) for x in (0, 0, 0, 1)]])
            objs = [it.call(me, [full(a), full(b)], {}) for a, b in ms]
            it.setattr(R, 'mequation_list', objs)
            it.setattr(R, 'kequation_aux_list', [keq(it, *e) for e in ax])
            read = lambda L: [(Poly.of(it.getattr(e, 'LHS')), Poly.of(it.getattr(e, 'RHS'))) for e in it.tolist(L)]
            ml = lambda: [repr(it.getattr(o, a)) for o in objs for a in ('Td', 'Ts')] + [read(it.getattr(R, 'kequation_aux_list'))]
            frame0 = ml()

            def go():
                if how == 'scan':
                    L = it.tolist(it.call(it.getattr(R, 'scan_for_equations'), [unks], {}))
                else:
                    t = bt.new_tree(it, node(it, 'ikbtleaves.updateL', 'updateL'))
                    st, _ = bt.tick(it, t, bb)
                    if st != 'SUCCESS':
                        return st
                    L = [it.call(it.getattr(bb, 'get'), [k], {}) for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]
                return [read(x) for x in L]
            res = go()
            if again:
                solve(it, R, unks, UU[again], [sym('Py')])
                res = go()
            return res, ml() == frame0, {n: bool(it.getattr(UU[n], 'solved')) for n in NAMES}
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            L, frame, solved = out[1]
            uns = [n for n in NAMES if not solved[n]]
            ctx.ob(key + '/frame', frame, 'the matrix equations or auxiliary definitions were changed', W)
            if not ctx.ob(key + '/lists', isinstance(L, list) and len(L) == 3, 'returned %s' % (L,), W):
                continue
            mat = [(a[i][j], b[i][j]) for a, b in ms for i in range(3) for j in range(4)]
            axc = {canon(e): count(e, uns) for e in ax}
            for idx, (nm, has) in enumerate((('one', lambda n: n == 1), ('two', lambda n: n == 2), ('three or more', lambda n: n > 2))):
                got = [(str(a), str(b)) for a, b in L[idx] if canon((a, b)) not in axc]
                want = {(str(Poly.of(a)), str(Poly.of(b))) for a, b in mat if has(count((a, b), uns))}
                ctx.ob(key + '/%s' % nm, set(got) == want, 'missing %s, surplus %s' % (sorted(want - set(got)), sorted(set(got) - want)), W)
                ctx.ob(key + '/%s once' % nm, len(got) == len(set(got)), 'listed twice: %s' % got, W)
                ga = {canon(e) for e in L[idx]} & set(axc)
                wa = {c for c, n in axc.items() if has(n)}
                ctx.ob(key + '/%s auxiliary' % nm, ga == wa or idx == 2 and ga <= wa, 'auxiliary definitions listed: %s, expected %s' % (ga, wa), W)
                ops = [nops(e) for e in L[idx] if canon(e) not in axc]
                ctx.ob(key + '/%s order' % nm, all(a <= b for a, b in zip(ops, ops[1:])), 'operation counts %s of %s' % (ops, got), W)
    cases = [(v, pat, None, how) for v in range(3) for pat in product((0, 1), repeat=5) for how in ('scan', 'updateL')]
    for v in range(3):
        for pat in product((0, 1), repeat=5):
            for n, p in zip(NAMES, pat):
                if not p and (ctx.thorough or sum(pat) < 3):
                    cases.append((v, pat, n, 'updateL'))
    ctx.each(cases, one)


def nops(e):
    from ..sympy_model import _count_ops as count_ops
    return count_ops(Poly.of(e[0])) + count_ops(Poly.of(e[1]))
