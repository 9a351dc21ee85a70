"""The ranking leaf picks one produced candidate."""
from ..leaf import *
from itertools import product

EXPLANATION = ('The ranking leaf is interpreted on every combination of candidate lists of the two competing methods (0 to 2 '
               'solutions each, 0 to 3 other unknowns in each). The solutions recorded afterwards must be exactly those of one '
               'method, the one with fewer solutions or, on a tie, with fewer unknowns in its solution, with the equations of '
               'the same method, whatever equation was worked on last; nothing is marked solved when nothing was produced.')
RULE = 'one obligation per pair of candidate lists: choice, completeness, source equations, solved flag'
MIN_OBLIGATIONS = 100
W = 'ikbtleaves/rank_leaf.py'


def contest(ctx):
    """the real identifiers and solvers of both methods, followed by the ranking leaf"""
    u, w, v5 = sym('th_1'), sym('th_4'), sym('th_5')
    l1, l2, r11, r12, Px, Pz = map(sym, ('l_1', 'l_2', 'r_11', 'r_12', 'Px', 'Pz'))
    g = cos(sym('th_2'))
    consts = {'plain': (Pz, Px), 'one solved': (Pz * cos(w), Px), 'two solved': (Pz * cos(w), Px + l2 * sin(v5))}
    singles = {}
    for fn_, f in (('sin', sin(u)), ('cos', cos(u))):
        for kn, k in (('plain', r12), ('one solved', r12 * sin(w)), ('two solved', r12 * sin(w) + v5)):
            singles['%s %s' % (fn_, kn)] = [(k, l1 * f)]
    singles['none'] = []
    pairs = {'none': ([], [])}
    for n, (y, x) in consts.items():
        pairs['factor ' + n] = ([], [(y, l2 * sin(u) * g), (x, r11 * cos(u) * g)])
        pairs['pair ' + n] = ([(y, l2 * sin(u)), (x, r11 * cos(u))], [])
    for sn, one in singles.items():
        for pn, (p1, p2) in pairs.items():
            for first in (0, 1) if p1 and one else (0,):
                if not one and not p1 and not p2:
                    continue
                eqs = p1 + one if first else one + p1
                key = 'contest/%s, %s%s' % (sn, pn, '/pair first' if first else '')
                res = []
                for who in ('sincos', 'tan', 'ranked'):
                    def body(it):
                        bb, R, UU = scene(it, 'th_1', ['th_2'], ['th_4', 'th_5', 'th_6'], eqs, p2)
                        x = UU['th_1']
                        st, _ = bt.tick(it, bt.new_tree(it, group(it, who)), bb)
                        rd = lambda e: None if isinstance(e, (int, Poly)) or e is None else Poly.of(it.getattr(e, 'LHS')) - Poly.of(it.getattr(e, 'RHS'))
                        return (st, bool(it.getattr(x, 'solved')), [Poly.of(p) for p in it.tolist(it.getattr(x, 'solutions'))], it.getattr(x, 'nsolutions'),
                                rd(it.getattr(x, 'eqntosolve')), rd(it.getattr(x, 'secondeqn')))
                    res.append([(it, o) for it, o in ctx.explore(body)])
                bad = [o for r in res for _, o in r if o[0] != 'return']
                if bad:
                    ctx.ob(key, False, ctx.outcome_text(bad[0]), ctx.where(bad[0]))
                    continue
                if any(len(r) != 1 for r in res):
                    continue
                (_, _, sc, _, esc, _), (_, _, tn, _, et, et2), (st, solved, sols, n, e1, e2) = [r[0][1][1] for r in res]
                cnt = lambda ss: len(mentions(ss[0], ['th_1', 'th_2', 'th_4', 'th_5', 'th_6']))
                ok = [('sincos', sc)] if not tn else [('tan', tn)] if not sc else None
                if ok is None:
                    a, b = (len(sc), cnt(sc)), (len(tn), cnt(tn))
                    ok = [('sincos', sc)] * (a <= b) + [('tan', tn)] * (b <= a)
                got = [m for m, x in ok if x == sols and x]
                ctx.ob(key, solved and got and st == 'SUCCESS' and n == len(sols), 'recorded %s (count %s); arcsine/arccosine gives %s, the tangent %s' % (sols, n, sc, tn), W)
                if got:
                    same = lambda p, q: p is not None and q is not None and (is_zero(p - q) or is_zero(p + q))
                    eq = [m for m in got if m == 'sincos' and same(e1, esc) or m == 'tan' and (same(e1, et) and same(e2, et2) or same(e1, et2) and same(e2, et))]
                    ctx.ob(key + '/equation', bool(eq), 'chosen %s, recorded equations %s, %s' % (got, e1, e2), W)


def run(ctx):
    contest(ctx)
    deps = ['th_4', 'th_5', 'th_6']

    def cand(tag, n, k):
        return [sym('%s_%d' % (tag, i)) + sum((sym(d) for d in deps[:k]), Poly.const(0)) for i in range(n)]
    for nsc in range(3):
        for ntan in range(3):
            for ksc in range(4 if nsc else 1):
                for ktan in range(4 if ntan else 1):
                    for flags, last in product(((True, True), (bool(nsc), bool(ntan))), ('sincos', 'tan', 'other') if nsc and ntan else ('own',)):
                        key = 'sincos %d solutions %d unknowns, tan %d solutions %d unknowns, flags %s%s, last equation %s' % (nsc, ksc, ntan, ktan, *map(int, flags), last)

                        def body(it):
                            bb, R, UU = scene(it, 'th_1', ['th_2'], deps, [], [])
                            x = UU['th_1']
                            sc, tn = cand('r', nsc, ksc), cand('p', ntan, ktan)
                            e0, es, e1, e2 = keq(it, sym('q_0'), 0), keq(it, sym('q_1'), 0), keq(it, sym('q_2'), 0), keq(it, sym('q_3'), 0)
                            put = lambda n, v: it.setattr(x, n, v)
                            put('solvable_sincos', flags[0])
                            put('solvable_tan', flags[1])
                            put('tan_solutions', list(tn))
                            put('sincos_solutions', list(sc))
                            put('solutions', list(tn) + list(sc))          # both solvers append to the common list
                            put('nsolutions', nsc or ntan)
                            put('solvemethod', 'atan2(y,x), arcsin')
                            if nsc:
                                put('sincos_eqnlist', [es])
                                put('eqntosolve', es)
                            if ntan:
                                put('tan_eqnlist', [e1, e2])
                                put('secondeqn', e2)
                                if not nsc:
                                    put('eqntosolve', e1)
                            if last != 'own':                              # whichever solver worked on it last
                                put('eqntosolve', {'sincos': es, 'tan': e1, 'other': e0}[last])
                                put('secondeqn', e0 if last == 'other' else e2)
                            n0 = it.getattr(R, 'solveN')
                            before = {n: snap(it, y) for n, y in UU.items() if n != 'th_1'}
                            st, _ = bt.tick(it, bt.new_tree(it, node(it, *('ikbtleaves.rank_leaf', 'rank'))), bb)
                            sols = [Poly.of(p) for p in it.tolist(it.getattr(x, 'solutions'))]
                            eq = it.getattr(x, 'eqntosolve')
                            src = 'sc' if eq is es else 'tan' if eq is e1 else None
                            return (st, bool(it.getattr(x, 'solved')), sols, it.getattr(x, 'nsolutions'), src, it.getattr(x, 'secondeqn') is e2,
                                    it.getattr(R, 'solveN') - n0, all(snap(it, y) == before[n] for n, y in UU.items() if n != 'th_1'), sc, tn)
                        for it, out in ctx.explore(body):
                            if out[0] != 'return':
                                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                                continue
                            st, solved, sols, ns, src, second, dN, frame, sc, tn = out[1]
                            if not nsc and not ntan:
                                ctx.ob(key, not solved and not sols and dN == 0, 'nothing was produced, yet solved=%s with %s' % (solved, sols), W)
                                continue
                            if nsc and ntan:
                                want = 'sc' if (nsc, ksc) < (ntan, ktan) else 'tan'
                                tie = (nsc, ksc) == (ntan, ktan)
                            else:
                                want, tie = ('sc' if nsc else 'tan'), False
                            got = 'sc' if sols == sc else 'tan' if sols == tn else None
                            ctx.ob(key, solved and (got == want or tie and got), 'recorded %s; candidates: %s and %s' % (sols, sc, tn), W)
                            ctx.ob(key + '/count', ns == len(sols), 'count %s for %s' % (ns, sols), W)
                            ctx.ob(key + '/equation', src == got and (got != 'tan' or second), 'the recorded equation is not the one of the chosen method', W)
                            ctx.ob(key + '/once', dN == 1, 'registered %s times' % dN, W)
                            ctx.ob(key + '/frame', frame, 'another unknown was changed', W)
                            ctx.ob(key + '/status', st == 'SUCCESS', 'status %s' % st, W)
