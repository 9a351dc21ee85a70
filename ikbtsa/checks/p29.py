"""Equation transforms: rewritten and added equations follow from the given ones."""
from .. import poly
from ..leaf import *
from itertools import product, combinations
from ..sympy_model import VMatrix

EXPLANATION = ('The substitution leaf is interpreted on a first matrix equation T_d = T_s whose right-hand elements contain one another '
               '(as addends, factors, negated, inside functions, chains of three, constants and zeros) for every subset of solved '
               'unknowns; substituting the original elements for the pose symbols must give back the original elements. The squaring '
               'leaf is interpreted on lists of planar position equations in all orders; what it adds must be the sum of squares of two '
               'listed equations up to sum-of-angle definitions, and must have exactly one unsolved unknown.')
RULE = 'one obligation per scene: equivalence, fewer unknowns, other equations untouched, lists refreshed / implied, one unknown, found when there'
MIN_OBLIGATIONS = 200
WS, WX = 'ikbtleaves/sub_transform.py', 'ikbtleaves/x2y2_transform.py'
NAMES = ['th_1', 'th_2', 'th_3', 'd_4', 'th_23']
T1, T2, T3, D4, T23 = map(sym, NAMES)
L1, L2, A2, A3 = map(sym, ('l_1', 'l_2', 'a_2', 'a_3'))
PX, PY, PZ = map(sym, ('Px', 'Py', 'Pz'))


def td():
    r = [[sym('r_%d%d' % (i, j)) for j in (1, 2, 3)] for i in (1, 2, 3)]
    return [row + [p] for row, p in zip(r, (PX, PY, PZ))]


def sub_scenes(thorough):
    """(key, {(row, col): element}, must) - must: elements that have to be simplified when their unknowns are unsolved"""
    s1, c1, s2, c3 = sin(T1), cos(T1), sin(T2), cos(T3)
    E = {
        'addend': (s1 * cos(T2), s1 * cos(T2) + sin(T3)), 'longer addend': (L1 * s1 + D4, L1 * s1 + D4 + c3 * s2),
        'negated addend': (L1 * s1 + D4, c3 - L1 * s1 - D4), 'factor': (s1, s1 * s2), 'negated factor': (-s1, s1 * s2), 'scaled': (s1 * c3, 2 * s1 * c3 + D4),
        'inside sine': (T1 + T2, L1 * sin(T3) + D4 * (T1 + T2)), 'same up to sign': (s1, -s1), 'equal': (s1 * s2, s1 * s2), 'symbol': (D4, D4 * c1 + s2),
        'minus symbol': (-D4, D4 * c1 + s2), 'constant one': (Poly.const(1), s1 - 1), 'constant': (Poly.const(2), 2 * s1 + c3), 'minus one': (Poly.const(-1), -s1 * c3),
        'parameter': (L1, L1 * s1 + c3), 'zero': (Poly.const(0), s1 * s2), 'into zero': (s1, Poly.const(0)), 'square': (s1, s1 * s1 + c3), 'power': (s1 * s1, s1 ** 3 * c3),
        'quotient': (c1, s1 / c1 + D4), 'root': (D4, poly.sqrt(D4 * D4 + L1 * L1)), 'both': (s1 + c3, s1 + c3 + D4 * s2), 'disjoint': (s1 * c3, c1 * s2),
    }
    spots = [((0, 0), (1, 2)), ((1, 2), (0, 0)), ((0, 3), (2, 3)), ((2, 0), (2, 1)), ((1, 1), (0, 3))]
    k = 0
    for n, (e1, e2) in E.items():
        for a, b in (spots if thorough else [spots[k % 5], spots[(k + 1) % 5]]):
            yield '%s at %s,%s' % (n, a, b), {a: e1, b: e2}, {b} if n in ('addend', 'longer addend', 'both') else set()
        k += 1
    chain = {(0, 0): s1, (0, 1): s1 + D4, (1, 1): s1 + D4 + c3 * s2, (2, 3): L1 * (s1 + D4) * c3, (1, 3): D4}
    yield 'chain', chain, {(0, 1), (1, 1)}
    yield 'chain reversed', {(2 - i, 3 - j): e for (i, j), e in chain.items()}, {(2, 2), (1, 2)}
    ks = list(E)
    for i, (p, q) in enumerate(combinations(ks, 2)):
        if thorough or i % 6 == 0:
            yield '%s and %s' % (p, q), {(0, 0): E[p][0], (0, 2): E[q][1], (1, 3): E[p][1], (2, 1): E[q][0]}, set()


def unknown_count(p, unsolved):
    return len(mentions(p, unsolved))


def sub_case(ctx, key, elems, must, pat):
    S0 = [n for n, x in zip(NAMES, pat) if x]
    uns = [n for n in NAMES if n not in S0]
    key = 'substitution/%s/solved %s' % (key, ','.join(S0) or 'none')
    D = td()
    Z = [[elems.get((i, j), Poly.const(0)) for j in range(4)] for i in range(3)]
    last = [Poly.const(x) for x in (0, 0, 0, 1)]
    B = ([[sym('r_11') * cos(T1), PX, PY, L1]] * 3, [[sin(T1) * cos(T3), D4 + sin(T1), sin(T1), T2]] * 3)

    def body(it):
        bb, R, UU = scene(it, uns[0] if uns else 'th_5', uns[1:], S0, [(sym('r_33'), D4)])
        unks = [UU[n] for n in NAMES]
        it.call(it.getattr(bb, 'set'), ['unknowns', unks], {})
        me = it.getattr(it.import_module('ikbtbasics.kin_cl'), 'matrix_equation')
        objs = [it.call(me, [VMatrix([list(r) for r in a] + [last]), VMatrix([list(r) for r in b] + [last])], {}) for a, b in ((D, Z), B)]
        it.setattr(R, 'mequation_list', objs)
        it.setattr(R, 'kequation_aux_list', [keq(it, T23, T2 + T3)])
        get = lambda: it.tolist(it.getattr(R, 'mequation_list'))
        read = lambda L: [(Poly.of(it.getattr(e, 'LHS')), Poly.of(it.getattr(e, 'RHS'))) for e in it.tolist(L)]
        lists = lambda: [read(it.call(it.getattr(bb, 'get'), [k], {})) for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]
        other = lambda: (repr([it.getattr(o, a) for o in get()[1:] for a in ('Td', 'Ts')]), repr(read(it.getattr(R, 'kequation_aux_list'))), len(get()),
                         [snap(it, x) for x in unks])
        o0, l0 = other(), lists()
        st, _ = bt.tick(it, bt.new_tree(it, node(it, 'ikbtleaves.sub_transform', 'sub_transform')), bb)
        m = get()[0]
        rows = lambda a: [[Poly.of(x) for x in r] for r in it.getattr(m, a).rows]
        l1 = lists()
        fresh = [read(x) for x in it.tolist(it.call(it.getattr(R, 'scan_for_equations'), [unks], {}))]
        return st, rows('Td'), rows('Ts'), o0 == other(), l0, l1, fresh
    M = {D[i][j].as_atom(): Z[i][j] for i in range(3) for j in range(4)}
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
            continue
        st, A, C, same, l0, l1, fresh = out[1]
        ctx.ob(key + '/frame', st == 'SUCCESS' and same and A[:3] == D, 'status %s, other equations unchanged: %s, left side %s' % (st, same, A), WS)
        changed = False
        for i in range(3):
            for j in range(4):
                got, want = C[i][j], Z[i][j]
                if got == want:
                    continue
                changed = True
                back = got
                for _ in range(2):
                    back = back.subs(M) if back != want else back
                ctx.ob(key + '/equivalent %d,%d' % (i, j), is_zero(back - want), 'element %s became %s, which stands for %s' % (want, got, back), WS)
                ctx.ob(key + '/fewer %d,%d' % (i, j), unknown_count(got, uns) < unknown_count(want, uns), 'element %s became %s' % (want, got), WS)
        for ij in sorted(must):
            if mentions(Z[ij[0]][ij[1]], uns) and not pat.count(1):
                ctx.ob(key + '/found %d,%d' % ij, C[ij[0]][ij[1]] != Z[ij[0]][ij[1]], 'element %s was not simplified' % Z[ij[0]][ij[1]], WS)
        text = lambda L: [sorted(map(str, x)) for x in L]
        if changed:
            ctx.ob(key + '/lists', text(l1) == text(fresh), 'the equation lists do not show the substitution: %s, expected %s' % (l1, fresh), WS)
        else:
            ctx.ob(key + '/lists', text(l1) in (text(l0), text(fresh)), 'the equation lists changed to %s' % (l1,), WS)


def planar():
    """planar position equations: key -> equation"""
    s, c = sin, cos
    Q = PX * c(T1) + PY * s(T1)
    return {
        'x': (Q, A3 * c(T23) - L2 * s(T23) + A2 * c(T2)), 'z': (-PZ, A3 * s(T23) + L2 * c(T23) + A2 * s(T2)),
        'z offset': (L1 - PZ, A2 * s(T2) + A3 * s(T23)), 'x short': (Q - L1, A2 * c(T2) + A3 * c(T23)), 'other': (PY * c(T1) - PX * s(T1), L2 + D4 * s(T2)),
        'no position': (sym('r_33'), c(T2) * s(T23)), 'd': (PZ, D4 + s(T2)),
        'left x': (PX * c(T1) + L1, A2 * c(T2)), 'left z': (PZ - L1 * s(T1), A2 * s(T2) + A3), 'other 2': (PY, D4 * c(T2)), 'd 2': (PZ + PX, L2 * D4 - c(T2)), 'twin': (L1 - PZ, A2 * c(T2) + A3 * c(T23)),
    }


def sq_cases(thorough):
    P = planar()
    P = {k: v for k, v in P.items() if not k.endswith(' 2')}
    for n in (2, 3) if not thorough else (2, 3, 4):
        for names in combinations(P, n):
            orders = [names, names[::-1]] if n < 4 else [names]
            for o in orders:
                for target in ('th_3', 'th_2', 'th_23', 'd_4'):
                    if target in ('th_3', 'th_2') or n == 2:
                        yield o, target
                yield o, None
    for o in (('other', 'd', 'x', 'z'), ('d', 'other', 'no position', 'z', 'x'), ('x', 'other', 'd', 'no position', 'z'), ('other', 'd', 'z', 'other 2', 'x'),
              ('d', 'other', 'twin', 'z offset'), ('left x', 'd', 'other', 'left z'), ('other', 'left x', 'left z', 'd', 'x', 'z'), ('d', 'd 2', 'other 2', 'other', 'z', 'x')):
        for target in ('th_3', 'th_2', None):
            yield o, target


def chains():
    """planar arms whose angles are sums: (names, definitions, equations, wanted angle)"""
    t = lambda n: sym('th_%s' % n)
    for ab in ('12', '23', '34', '45', '56'):
        a, b = ab
        yield ['th_' + x for x in (a, b, ab)], [(t(ab), t(a) + t(b))], (t(ab), t(a))
        yield ['th_' + x for x in (b, a, ab)], [(t(ab), t(a) + t(b))], (t(b), t(ab))
    for abc in ('123', '234', '345', '456'):
        a, b, c = abc
        yield ['th_' + x for x in (a, b, c, a + b, abc)], [(t(a + b), t(a) + t(b)), (t(abc), t(a) + t(b) + t(c))], (t(abc), t(a + b))
        yield ['th_' + x for x in (a, b, c, b + c, abc)], [(t(b + c), t(b) + t(c)), (t(abc), t(a) + t(b) + t(c))], (t(abc), t(b + c))


def planar_case(ctx, names, defs, angles):
    x, y = angles
    eqs = {'x': (PX - L1, A3 * cos(x) + A2 * cos(y)), 'z': (PZ, A3 * sin(x) + A2 * sin(y))}
    extra = ['th_3'] if 'th_3' not in names else []
    sq_case(ctx, ('x', 'z'), 'th_3', [], eqs, names + extra, defs)


def sq_case(ctx, names, target, solved, P=None, NAMES=NAMES, defs=((T23, T2 + T3),)):
    P = P or planar()
    eqs = [P[n] for n in names]
    uns = [n for n in NAMES if n not in solved]
    first = target or 'th_3'
    env = {l.as_atom(): r for l, r in defs}
    expand = lambda p: p.subs(env)
    key = 'squares/%s/%s/solved %s%s' % (','.join(names), target or 'th_3 twice', ','.join(solved) or 'none', '/' + ','.join(NAMES) if 'd_4' not in NAMES else '')

    def body(it):
        one, two, three = [], [], []
        for e in eqs:
            k = len(mentions(e[0], uns)) + len(mentions(e[1], uns))
            (one if k == 1 else two if k == 2 else three if k > 2 else []).append(e)
        bb, R, UU = scene(it, first, [n for n in uns if n != first], solved, one, two, three)
        it.setattr(R, 'kequation_aux_list', [keq(it, *d) for d in defs])
        unks = [UU[n] for n in NAMES]
        it.call(it.getattr(bb, 'set'), ['unknowns', unks], {})
        before = [snap(it, x) for x in unks]
        meth = lambda: {n: it.getattr(UU[n], 'solvemethod') for n in NAMES}
        m0 = meth()
        t = bt.new_tree(it, node(it, 'ikbtleaves.x2y2_transform', 'x2z2_transform'))
        st, _ = bt.tick(it, t, bb)
        if target is None:
            bt.tick(it, t, bb)
        ax = [(Poly.of(it.getattr(q, 'LHS')), Poly.of(it.getattr(q, 'RHS'))) for q in it.tolist(it.getattr(R, 'kequation_aux_list'))]
        m1 = meth()
        return st, ax, [snap(it, x) for x in unks] == before, two, {n: (m0[n], m1[n]) for n in NAMES if m0[n] != m1[n]}
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
            continue
        st, ax, same, two, meths = out[1]
        ctx.ob(key + '/unknowns', same, 'an unknown was changed', WX)
        ctx.ob(key + '/definitions kept', ax[:len(defs)] == list(defs), 'auxiliary equations are now %s' % (ax,), WX)
        new = ax[len(defs):]
        sums = []
        for a, b in combinations(two, 2):
            l, r = a[0] * a[0] + b[0] * b[0], expand(a[1] * a[1] + b[1] * b[1])
            pos = all(any(x.as_atom() in (e[0] + e[1]).atoms() for x in (PX, PY, PZ)) for e in (a, b))
            sums.append((expand(l) - r, pos and not mentions(l, uns) and len(mentions(r, uns)) == 1))
        ctx.ob(key + '/status', st in ('SUCCESS', 'FAILURE') and (st == 'SUCCESS') == bool(new), 'status %s with %s added' % (st, new), WX)
        if first in ('th_2', 'th_3'):
            ctx.ob(key + '/found', bool(new) == any(ok for _, ok in sums), 'added %s' % (new,), WX)
        for l, r in new:
            d = expand(l) - expand(r)
            ctx.ob(key + '/implied', any(is_zero(d - s) or is_zero(d + s) for s, _ in sums), 'the added equation %s = %s is not the sum of squares of two listed equations' % (l, r), WX)
            us = mentions(l, uns) + mentions(r, uns)
            ctx.ob(key + '/one unknown', len(us) == 1, 'the added equation %s = %s contains %s' % (l, r, us), WX)
            ctx.ob(key + '/method', set(meths) == set(us) and all('x2z2' in b for _, b in meths.values()), 'method notes changed: %s' % meths, WX)


def run(ctx):
    subs = []
    for k, e, must in sub_scenes(ctx.thorough):
        for pat in product((0, 1), repeat=5):
            if ctx.thorough or sum(pat) in (0, 1) or pat in ((1, 1, 0, 0, 0), (0, 1, 1, 0, 1), (1, 1, 1, 1, 1)):
                subs.append((sub_case, (k, e, must, pat)))
    for o, target in sq_cases(ctx.thorough):
        for solved in (['th_1'], [], ['th_1', 'th_2'], ['th_1', 'd_4'], ['th_1', 'th_3']):
            if target not in solved and (target or 'th_3') not in solved:
                subs.append((sq_case, (o, target, solved)))
    subs += [(planar_case, c) for c in chains()]
    ctx.each(subs, lambda x: x[0](ctx, *x[1]))
