"""Sum of angles: equations stay equivalent, every new unknown has exactly one definition."""
from .. import poly
from ..leaf import *
from ..sympy_model import VMatrix

EXPLANATION = ('The sum-of-angles scan of the robot class and the sum-of-angles leaf are interpreted on matrix equations whose sines '
               'and cosines keep sums of two, three and four unknowns, differences and constant offsets, on either side and in '
               'several orders, with every order in which the set of matches may be visited. Replacing the new unknowns by their '
               'recorded definitions must give back every original equation.')
RULE = 'one obligation per case: equations equivalent, new unknowns defined once, named after their parts, no two- or three-angle sum left, repeat run changes nothing'
MIN_OBLIGATIONS = 100
W = 'ikbtbasics/ik_classes.py, ikbtleaves/sum_id.py'
NAMES = ['th_1', 'th_2', 'th_3', 'th_4', 'th_5']
R11, L1, L2 = sym('r_11'), sym('l_1'), sym('l_2')


def cases(thorough):
    a, b, c, d, e = map(sym, NAMES)
    S, C = poly.sin, poly.cos
    E = {
        'two': S(b + c), 'two cos': L1 * C(c + d), 'pair': S(b + c) * C(b + c), 'three': S(b + c + d), 'three and two': S(b + c + d) * C(b + c),
        'three and other two': L2 * C(b + c + d) + L1 * S(c + d), 'overlap': S(b + c) * C(c + d), 'apart': C(a + b) * S(d + e),
        'single': S(b) * C(c), 'two and single': S(b + c) * C(e) + L1 * S(e), 'difference': S(b - c), 'both signs': S(b - c) * C(b + c),
        'negative two': L1 * S(-b - c) + C(b + c), 'offset': C(b + L1), 'offset sum': C(b + c + L1), 'four': S(b + c + d + e), 'four and two': C(b + c + d + e) * S(b + c),
        'double': S(2 * b) + C(c), 'double sum': C(2 * b + c), 'plain sum': b + c + R11, 'nothing': R11 * L1, 'zero': Poly.const(0),
        'product argument': S(L1 * b), 'mixed three': S(a + b - c), 'first two': C(a + b), 'skip': S(a + c) * C(c + e),
    }
    z = Poly.const(0)
    for k, x in E.items():
        yield 'right/' + k, [[(R11, x)]]
        yield 'left/' + k, [[(x, R11)]]
        yield 'left then right/' + k, [[(x, R11), (sym('r_12'), x)], [(z, L1 * x)]]
    ks = [k for k in E if k not in ('nothing', 'zero', 'plain sum')]
    for i, p in enumerate(ks):
        for j, q in enumerate(ks):
            if p != q and (thorough or (i + 2 * j) % 11 == 0):
                yield '%s before %s' % (p, q), [[(R11, E[p])], [(E[q], z)]]
                if thorough:
                    yield '%s beside %s' % (p, q), [[(E[q], E[p])]]


def sums(p):
    """arguments of sines and cosines that are sums of two or three of the original unknowns"""
    out = set()
    for at in p.atoms():
        if at.kind == 'fn' and at.name in ('sin', 'cos'):
            t = at.args[0].t
            for sg in (1, -1):
                if 2 <= len(t) <= 3 and all(x == sg and len(m) == 1 and m[0][1] == 1 and m[0][0].name in NAMES for m, x in t.items()):
                    out.add(repr(at.args[0]))
    return out


def run(ctx):
    poly.RAW = True
    try:
        CS = list(cases(ctx.thorough))
    finally:
        poly.RAW = False
    # the equations sit at positions all over the matrix; in some cases an angle has been solved before
    ALL = [(i, j) for i in range(3) for j in range(4)]
    two = [(0, 2), (2, 1), (1, 0), (1, 2), (2, 2), (1, 1), (2, 3), (0, 1), (1, 3), (2, 0), (0, 3), (0, 0)]
    CS = [(k, c, sorted((two[n % 12], two[(n + 5) % 12]))) for n, (k, c) in enumerate(CS)]
    ctx.each([(k, c, how, pos, None) for k, c, pos in CS for how in ('scan', 'leaf', 'scan again') if ctx.thorough or how == 'scan' or k.startswith(('right', 'left/'))], lambda x: one(ctx, *x))
    # every position of the first and of a later matrix equation
    poly.RAW = True
    try:
        S, C = [poly.sin(sym('th_2') + sym('th_3')), poly.cos(sym('th_2') + sym('th_3') + sym('th_4'))]
    finally:
        poly.RAW = False
    z = Poly.const(0)
    todo = [('%s of element %d,%d' % (side, i, j), [[(L1, R11)], [(S, C)] if side == 'both sides' else [(C, z)]] if (i + j) % 2 else [[(S, C)] if side == 'both sides' else [(z, S)], [(L1, R11)]],
             how, [(i, j)], None) for (i, j) in ALL for side in ('both sides', 'one side') for how in ('scan', 'leaf')]
    ctx.each(todo, lambda x: one(ctx, *x))
    todo = [(k + '/' + n + ' solved', c, how, pos, n) for k, c, pos in CS for n in ('th_2', 'th_3', 'th_4', 'th_2 th_3', 'th_2 th_3 th_4') for how in ('scan', 'leaf')
            if k.startswith('right/') and (ctx.thorough or k.split('/')[1] in ('two', 'three', 'three and two', 'overlap', 'apart', 'single', 'offset'))]
    ctx.each(todo, lambda x: one(ctx, *x))


def one(ctx, key, mats, how, pos, done):
    key = '%s/%s' % (how, key)
    done = done.split() if done else []

    def body(it):
        it.set_orders = True
        poly.RAW = True
        try:
            bb, R, UU = scene(it, 'th_1', [n for n in NAMES[1:] if n not in done], done, [])
            unks = [UU[n] for n in NAMES]
            it.call(it.getattr(bb, 'set'), ['unknowns', unks], {})
            me = it.getattr(it.import_module('ikbtbasics.kin_cl'), 'matrix_equation')
            objs = []
            for eqs in mats:
                A, B = [[[Poly.const(0)] * 4 for _ in range(4)] for _ in range(2)]
                A[3][3] = B[3][3] = Poly.const(1)
                for (i, j), (l, r) in zip(pos, eqs):
                    A[i][j], B[i][j] = l, r
                objs.append(it.call(me, [VMatrix(A), VMatrix(B)], {}))
            it.setattr(R, 'mequation_list', objs)
            it.setattr(R, 'kequation_aux_list', [])

            def go():
                if how == 'leaf':
                    st, _ = bt.tick(it, bt.new_tree(it, node(it, 'ikbtleaves.sum_id', 'sum_id')), bb)
                    return st
                it.call(it.getattr(R, 'sum_of_angles_transform'), [unks], {})

            def state():
                us = it.tolist(it.call(it.getattr(bb, 'get'), ['unknowns'], {}))
                vs = [(it.getattr(x, 'name'), Poly.of(it.getattr(x, 'symbol')), it.getattr(x, 'n'), bool(it.getattr(x, 'solved'))) for x in us]
                ax = [(Poly.of(it.getattr(q, 'LHS')), Poly.of(it.getattr(q, 'RHS'))) for q in it.tolist(it.getattr(R, 'kequation_aux_list'))]
                ms = [tuple([[Poly.of(x) for x in row] for row in it.getattr(o, a).rows] for a in ('Td', 'Ts')) for o in it.tolist(it.getattr(R, 'mequation_list'))]
                return vs, ax, ms
            st = go()
            s1 = state()
            if how == 'scan again':
                go()
                return st, s1, state()
            return st, s1, None
        finally:
            poly.RAW = False
    seen = {}

    def ob(k, ok, msg, w=W):
        """all paths of a case count as one obligation"""
        if not ok or k not in seen:
            seen.setdefault(k, (True, '', w))
            if seen[k][0]:
                seen[k] = (ok, msg, w)
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ob(key, False, ctx.outcome_text(out), ctx.where(out))
            continue
        ob(key, True, '')
        st, (vs, ax, ms), again = out[1]
        if how == 'leaf':
            ob(key + '/status', st == 'SUCCESS', 'status %s' % st, W)
        if again is not None and 'four' not in key:
            ob(key + '/stable', [v[0] for v in again[0]] == [v[0] for v in vs] and len(again[1]) == len(ax) and repr(again[2]) == repr(ms),
                   'scanning again adds %s' % [v[0] for v in again[0][len(vs):]], W)
        old = vs[:len(NAMES)]
        ob(key + '/old unknowns', [(v[0], v[2], v[3]) for v in old] == [(n, int(n[3:]), n in done) for n in NAMES], 'unknowns are now %s' % (old,), W)
        new = vs[len(NAMES):]
        names = [v[0] for v in new]
        ob(key + '/new once', len(set(names)) == len(names) and not set(names) & set(NAMES), 'new unknowns %s' % names, W)
        ob(key + '/one definition each', sorted(repr(l) for l, _ in ax) == sorted(names), 'definitions %s for new unknowns %s' % (ax, names), W)
        defs = {}
        for l, r in ax:
            defs[l.as_atom()] = r
        env = {}

        def value(at, depth=0):
            r = defs.get(at)
            if r is None or depth > 6:
                return Poly.atom(at)
            return r.subs({x: value(x, depth + 1) for x in r.symbols()})
        for nm, symb, n, solved in new:
            v = value(symb.as_atom())
            parts = sorted(a.name[3:] for a in v.symbols())
            ok = all(c == 1 for c in v.t.values()) and all(a.name in NAMES for a in v.symbols()) and len(parts) > 1 and repr(symb) == nm
            ob(key + '/definition', ok, '%s is defined as %s' % (nm, v), W)
            ob(key + '/subscript', nm == 'th_' + ''.join(parts) and str(n) == ''.join(parts) and not solved, '%s with subscript %s stands for %s, solved %s' % (nm, n, v, solved), W)
        M = {symb.as_atom(): value(symb.as_atom()) for _, symb, _, _ in new}
        for k, (eqs, (A, B)) in enumerate(zip(mats, ms)):
            for i in range(4):
                for j in range(4):
                    want = dict(zip(pos, eqs)).get((i, j), (Poly.const(int(i == j == 3)),) * 2)
                    for side, got, w in (('left', A[i][j], want[0]), ('right', B[i][j], want[1])):
                        dlt = got.subs(M).renorm() - w.renorm()
                        if w.t or not is_zero(dlt):
                            ob(key + '/equivalent', is_zero(dlt), 'the %s side of element %d,%d became %s, from %s' % (side, i, j, got, w), W)
                        if w.t:
                            left = sums(got)
                            ob(key + '/no sum left', not left, 'sums left in %s: %s' % (got, sorted(left)), W)
    for k, (ok, msg, w) in seen.items():
        ctx.ob(k, ok, msg, w)
