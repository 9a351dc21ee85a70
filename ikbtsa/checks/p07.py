"""A solved unknown is final; solution order is a topological order of the dependencies."""
from ..shapes import *
from ..sympy_model import VMatrix
from itertools import permutations, product
from ..poly import fn

EXPLANATION = ('Typestate unsolved -> solved of an unknown. (a) Every solver group is interpreted with a target that is already '
               'solved, on equations it could use: nothing may change. (b) The assigner is interpreted from every position of its '
               'counter and every pattern of solved unknowns. (c) Assigner, solvers, list refresh and completion detection are '
               'interpreted together, tick after tick, on robots with symbolic matrix equations in several orders of the '
               'unknowns; after every tick the solved unknowns, the solution nodes, orders, dependencies and edges are compared '
               'with the previous tick. (d) An unknown with several solutions that use different earlier unknowns: '
               'dependencies and edges are those of all of them. (e) Up to fourteen unknowns: '
               'dependencies on each of the solved ones, wherever it stands in the list.')
RULE = 'one obligation per state and step: solved unknowns frozen, registered once, order 1..k, dependencies solved earlier, fair assignment'
MIN_OBLIGATIONS = 400
W = 'ikbtleaves/assigner_leaf.py, ikbtbasics/kin_cl.py set_solved'


def full(it, x):
    g = lambda n: it.getattr(x, n)
    return snap(it, x) + (tuple(it.tolist(g('solutionNames'))), tuple(sorted(it.getattr(d, 'name') for d in it.tolist(g('dependencies')))),
                          g('nversions'))


def frozen(ctx):
    x = u
    S = [('x', (r12, x + l1)), ('sin', (r12, l1 * sin(x))), ('cos', (Px, l2 * cos(x))), ('sin, cos', (r12, l1 * sin(x)), (Px, l2 * cos(x))),
         ('a sin + b cos', (r11, l1 * sin(x) + l2 * cos(x))), ('pair', (r11, l1 * sin(x) + l2 * cos(x)), (Px, l1 * cos(x) - l2 * sin(x))),
         ('factor', (r12, l1 * sin(x) * sin(v)), (Px, l2 * cos(x) * sin(v)))]

    def one(case):
        g, (key, *eqs), meth = case
        k = 'frozen/%s/%s/%s' % (g, key, meth)

        def body(it):
            bb, R, UU = scene(it, 'th_1', ['th_2'], ['th_4'], [e for e in eqs], [e for e in eqs])
            X = UU['th_1']
            if meth == 'by hand':
                solve(it, R, list(UU.values()), X, [sym('r_33')])
            else:                                        # solve it with the machinery itself, then offer it again
                t = bt.new_tree(it, group(it, 'all'))
                bt.tick(it, t, bb)
                if not it.getattr(X, 'solved'):
                    return None
                it.call(it.getattr(bb, 'set'), ['curr_unk', X], {})
            b = {n: full(it, y) for n, y in UU.items()}
            n0 = (it.getattr(R, 'solveN'), len(it.tolist(it.getattr(R, 'solution_nodes'))))
            t = bt.new_tree(it, group(it, g))
            st, _ = bt.tick(it, t, bb)
            return b == {n: full(it, y) for n, y in UU.items()}, (it.getattr(R, 'solveN'), len(it.tolist(it.getattr(R, 'solution_nodes')))) == n0, full(it, X)
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(k, False, ctx.outcome_text(out), ctx.where(out))
            elif out[1] is not None:
                ctx.ob(k, out[1][0], 'the solved unknown was changed: now %s' % (out[1][2],), W)
                ctx.ob(k + '/nodes', out[1][1], 'the solved unknown was registered again', W)
    ctx.each([(g, s, m) for g in ('algebra', 'ranked', 'sinandcos', 'simu', 'all') for s in S for m in ('by hand', 'by solver')], one)


def assign(ctx):
    names = ['th_1', 'th_2', 'd_3', 'th_4', 'th_5', 'th_6', 'd_7', 'th_12', 'th_23', 'th_34', 'th_45', 'th_56']

    def one(case):
        n, pat, c0 = case
        ns = names[:n]
        key = 'assigner/%s/counter %s' % (''.join('S' if pat >> i & 1 else 'u' for i in range(n)), c0)

        def body(it):
            un = [m for i, m in enumerate(ns) if not pat >> i & 1]
            bb, R, UU = scene(it, (un or ns)[0], un[1:], [m for m in ns if m not in un and (un or m != ns[0])], [], [])
            if not un:
                solve(it, R, list(UU.values()), UU[ns[0]], [sym('r_33')])
            put = it.getattr(bb, 'set')
            it.call(put, ['unknowns', [UU[m] for m in ns]], {})
            it.call(put, ['curr_unk', None], {})
            if c0 is not None:
                it.call(put, ['counter', c0], {})
            t = bt.new_tree(it, node(it, 'ikbtleaves.assigner_leaf', 'assigner'))
            got = []
            for _ in range(2 * n):
                st, _x = bt.tick(it, t, bb)
                cu = it.call(it.getattr(bb, 'get'), ['curr_unk'], {})
                got.append((st, it.getattr(cu, 'name')))
            return un, got
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            un, got = out[1]
            ctx.ob(key, all(st == 'SUCCESS' for st, _ in got), 'statuses %s' % got, W)
            if un:
                ctx.ob(key + '/unsolved', all(m in un for _, m in got), 'hands out %s although %s are unsolved' % ([m for _, m in got], un), W)
                ctx.ob(key + '/fair', all(set(un) == {m for _, m in got[i:i + n]} for i in range(n + 1)),
                       'hands out %s: not every unsolved unknown of %s within one round' % ([m for _, m in got], un), W)
    ctx.each([(n, pat, c) for n in range(1, 5) for pat in range(2 ** n) for c in [None] + list(range(n + 1))] +
             [(n, pat, c) for n in range(5, 13) for pat in {0, 2 ** n - 1, 1, 2 ** (n - 1), 2 ** n - 2, 2 ** (n - 1) - 1, 2 ** n - 1 - 2 ** (n - 3), 0b10101010101 % 2 ** n}
              for c in (None, 0, 1, n // 2, n - 1, n)], one)


NAMES = ['th_1', 'th_2', 'd_3', 'th_4', 'th_24']          # the last like a sum of angles


def robots():
    t1, t2, d3, t4, t5 = map(sym, NAMES)
    r = lambda i, j: sym('r_%d%d' % (i, j))
    l1, l2, Px, Py, Pz = map(sym, ('l_1', 'l_2', 'Px', 'Py', 'Pz'))
    z = Poly.const(0)
    L = [[r(1, 1), r(1, 2), r(1, 3), Px], [r(2, 1), r(2, 2), r(2, 3), Py], [r(3, 1), r(3, 2), r(3, 3), Pz]]
    R1 = [[cos(t1) * sin(t4), cos(t1) * cos(t4), sin(t1), d3 * cos(t2)], [t5 * cos(t2) * sin(t4) * d3, sin(t2) * t5 * sin(t1) * t4, cos(t1), d3 * sin(t2)],
          [cos(t4) * cos(t2) * sin(t1), sin(t4) * t5 * d3, l1 * sin(t5) + l2 * cos(t5), d3 + l1]]
    R2 = [[sin(t1), z, cos(t4) * sin(t1), l1 * cos(t1) + l2], [l2 * cos(t2) + l1, t5 + l2, sin(t4) * sin(t1), d3 - l2], [z, Poly.const(1), sin(t2) * t5, z]]
    # only the last unknown can be found first
    R3 = [[sin(t1) * sin(t2), cos(t1) * sin(t2), sin(t2) * sin(t5), d3 * sin(t4)], [cos(t2) * sin(t4) * d3, cos(t2) * cos(t4) * d3, cos(t5), d3 * cos(t4) * t5],
          [z, sin(t5) * sin(t4), sin(t5) * cos(t4), d3 * sin(t5)]]
    return [('tangents', [(L, R1)]), ('sines', [(L, R2)]), ('backwards', [(L, R3)]), ('two', [(L, R3), (L, R1)])]


def history(ctx):
    perms = list(permutations(NAMES))
    perms = perms if ctx.thorough else perms[::17]

    def one(case):
        (rn, ms), order, c0 = case
        key = 'history/%s/%s/%s' % (rn, ','.join(order), c0)

        def body(it):
            bb, R, UU = scene(it, order[0], order[1:], [], [], [])
            unks = [UU[n] for n in order]
            put = it.getattr(bb, 'set')
            it.call(put, ['unknowns', unks], {})
            it.call(put, ['curr_unk', None], {})
            if c0 is not None:
                it.call(put, ['counter', c0], {})
            me = it.getattr(it.import_module('ikbtbasics.kin_cl'), 'matrix_equation')
            M = lambda m: VMatrix([list(map(Poly.of, q)) for q in m] + [[Poly.of(q) for q in (0, 0, 0, 1)]])
            it.setattr(R, 'mequation_list', [it.call(me, [M(a), M(b)], {}) for a, b in ms])
            b3 = it.import_module('b3')
            refresh = bt.new_tree(it, seq(it, 'updateL'))
            work = bt.new_tree(it, it.call(it.getattr(b3, 'Sequence'), [[seq(it, 'assigner'), group(it, 'all')]], {}))
            done = bt.new_tree(it, seq(it, 'comp'))
            log = []
            state = lambda: {n: full(it, UU[n]) for n in order}
            prev = state()
            idle = 0
            for step in range(40):
                bt.tick(it, refresh, bb)
                st, _ = bt.tick(it, work, bb)
                now = state()
                nodes = [it.getattr(it.getattr(q, 'unknown'), 'name') for q in it.tolist(it.getattr(R, 'solution_nodes'))]
                edges = sorted((it.getattr(it.getattr(e, 'StartNode'), 'name'), it.getattr(it.getattr(e, 'dependsOn'), 'name'))
                               for e in it.tolist(it.getattr(R, 'notation_graph_edges')))
                deps = {n: {m for p in it.tolist(it.getattr(UU[n], 'solutions')) for m in mentions(p, order)} for n in order}
                fin, _ = bt.tick(it, done, bb)
                log.append((st, prev, now, nodes, edges, deps, it.getattr(R, 'solveN'), fin))
                idle = idle + 1 if now == prev else 0
                prev = now
                if fin == 'SUCCESS' or idle > len(order):
                    break
            return log
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            for i, (st, prev, now, nodes, edges, deps, N, fin) in enumerate(out[1]):
                k = '%s/tick %d' % (key, i)
                for n in order:
                    if prev[n][0]:
                        ctx.ob(k + '/frozen', prev[n] == now[n], '%s was solved and changed from %s to %s' % (n, prev[n], now[n]), W)
                solved = sorted((n for n in order if now[n][0]), key=lambda n: now[n][3])
                ctx.ob(k + '/order', [now[n][3] for n in solved] == list(range(1, len(solved) + 1)), 'solution orders %s' % [(n, now[n][3]) for n in solved], W)
                ctx.ob(k + '/nodes', nodes == solved and N == len(solved), 'solution nodes %s, solved in order %s, counter %s' % (nodes, solved, N), W)
                for n in solved:
                    ctx.ob(k + '/dependencies', set(now[n][6]) == deps[n], '%s depends on %s, recorded %s' % (n, deps[n], now[n][6]), W)
                    ctx.ob(k + '/earlier', all(m in solved and solved.index(m) < solved.index(n) for m in deps[n]),
                           '%s uses %s; solved in order %s' % (n, sorted(deps[n]), solved), W)
                    ctx.ob(k + '/names', len(now[n][5]) == now[n][2] == len(set(now[n][5])), 'solution names %s for %s solutions' % (now[n][5], now[n][2]), W)
                ctx.ob(k + '/done', (fin == 'SUCCESS') == (len(solved) == len(order)), 'completion %s with %s solved' % (fin, solved), W)
                ctx.ob(k + '/edges', edges == sorted({(n, m) for n in solved for m in deps[n]}),
                       'edges %s, dependencies %s' % (edges, deps), W)
            ctx.ob(key + '/progress', any(x[0] for x in out[1][-1][2].values()), 'nothing is solved', W)
    ctx.each([(r, list(p), c) for r in robots() for p in perms for c in ((None, 3) if ctx.thorough else (None,))], one)


def branches(ctx):
    """an unknown whose solutions use different earlier unknowns: dependencies and edges of all of them"""
    deps = ['th_2', 'th_4', 'd_3']
    subsets = [tuple(d for i, d in enumerate(deps) if m >> i & 1) for m in range(8)]
    for a, b in product(subsets, repeat=2):
        for c in [None] + (subsets if ctx.thorough else [(), ('d_3',), ('th_2', 'd_3')]):
            use = [a, b] + ([c] if c is not None else [])
            key = 'branches/%s' % ' | '.join(','.join(x) or '-' for x in use)

            def body(it):
                bb, R, UU = scene(it, 'th_1', ['th_5'], deps, [], [])
                X = UU['th_1']
                # the fixture's dependencies are solved; the new unknown gets one solution per entry of `use`
                solve(it, R, list(UU.values()), X, [sym('K_%d' % k) + sum((fn('atan2', sym(d), sym('Px')) * (k + 2) for d in ds), Poly.const(0)) for k, ds in enumerate(use)])
                edges = [it.getattr(it.getattr(e, 'dependsOn'), 'name') for e in it.tolist(it.getattr(R, 'notation_graph_edges'))
                         if it.getattr(it.getattr(e, 'StartNode'), 'name') == 'th_1']
                return sorted(it.getattr(d, 'name') for d in it.tolist(it.getattr(X, 'dependencies'))), sorted(edges), it.getattr(X, 'nsolutions')
            for it, out in ctx.explore(body):
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                want = sorted(set().union(*use))
                ctx.ob(key, out[1][0] == want, 'dependencies %s, the solutions use %s' % (out[1][0], want), W)
                ctx.ob(key + '/edges', out[1][1] == want, 'edges to %s, the solutions use %s' % (out[1][1], want), W)
                ctx.ob(key + '/count', out[1][2] == len(use), '%s solutions recorded of %s' % (out[1][2], len(use)), W)


MANY = ['th_1', 'th_2', 'd_3', 'th_4', 'th_5', 'th_6', 'd_7', 'th_12', 'th_23', 'th_34', 'th_45', 'th_56', 'th_123', 'th_234']


def crowd(ctx):
    """many unknowns: a solution may use any of the solved ones, wherever they stand in the list"""
    def one(case):
        n, pos, ds = case
        names = MANY[:n]
        x = names[pos]
        others = [m for m in names if m != x]
        use = [others[d] for d in ds]
        key = 'crowd/%d/%s uses %s' % (n, x, ','.join(use) or '-')

        def body(it):
            bb, R, UU = scene(it, x, [], others, [], [])
            X = UU[x]
            it.setattr(X, 'argument', sym('K'))
            solve(it, R, [UU[m] for m in names], X, [sym('K') + sum((sym(d) * sym('Px') for d in use), Poly.const(0))])
            edges = [it.getattr(it.getattr(e, 'dependsOn'), 'name') for e in it.tolist(it.getattr(R, 'notation_graph_edges'))
                     if it.getattr(it.getattr(e, 'StartNode'), 'name') == x]
            return sorted(it.getattr(d, 'name') for d in it.tolist(it.getattr(X, 'dependencies'))), sorted(edges)
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            ctx.ob(key, out[1][0] == sorted(use), 'dependencies %s, the solution uses %s' % (out[1][0], sorted(use)), W)
            ctx.ob(key + '/edges', out[1][1] == sorted(use), 'edges to %s, the solution uses %s' % (out[1][1], sorted(use)), W)
    cases = []
    for n in (6, 10, 14):
        for pos in (range(n) if ctx.thorough else (0, n // 2, n - 1)):
            cases += [(n, pos, (d,)) for d in range(n - 1)] + [(n, pos, (d, n - 2)) for d in range(n - 2)]
            cases += [(n, pos, ()), (n, pos, tuple(range(n - 1)))]
    ctx.each(cases, one)


def run(ctx):
    branches(ctx)
    crowd(ctx)
    frozen(ctx)
    assign(ctx)
    history(ctx)
