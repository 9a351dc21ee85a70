"""Debugging output and node logging never change what is computed."""
from .. import program, poly
from ..shapes import *
from ..interp import VInst, VClass, VFunc, VModule, VBound
from ..sympy_model import VMatrix
from itertools import product
from . import p36

EXPLANATION = ('Non-interference of the debugging switches. Every solver, transform, list and assignment leaf is interpreted twice on the same abstract '
               'scene, with debugging off and with debugging on (each leaf alone and all together); statuses and everything recorded in unknowns, equation '
               'lists, matrix equations and the robot are compared as normal forms. The main program is interpreted for whole robots with debugging '
               'switched on in every node of its tree and with node logging at every level. Trees of opaque nodes are ticked with debugging and logging on and off.')
RULE = 'one obligation per scene and switch: no error, same statuses, same recorded state'
MIN_OBLIGATIONS = 300
W = 'ikbtleaves, b3/core/basenode.py'
SKIP = {'BHdebug', 'id', 'log_file', 'log_flag'}


def deep(it, x, seen=None):
    """the recorded content of a value"""
    seen = seen if seen is not None else {}
    if isinstance(x, VInst):
        if id(x) in seen:
            return ('@', seen[id(x)])
        seen[id(x)] = len(seen)
        n = x.cls.name
        if 'symbol' in x.d and n != 'unknown':
            return (n, repr(x.d['symbol']))
        return (n,) + tuple((k, deep(it, v, seen)) for k, v in sorted(x.d.items()) if k not in SKIP)
    if isinstance(x, (VClass, VFunc, VModule, VBound)):
        return 'code'
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted((deep(it, v, dict(seen)) for v in x), key=repr))
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted(((repr(k), deep(it, v, seen)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(deep(it, v, seen) for v in x)
    return repr(x)


def nodes(it, n):
    """the nodes of a tree, children before parents"""
    out = []
    for k in ('children', 'child'):
        c = n.d.get(k)
        for x in (it.tolist(c) if k == 'children' and c is not None else [c] if c is not None else []):
            out += nodes(it, x)
    return out + [n]


def debug(it, root, which):
    """switch debugging on: 'all', or the number of one node"""
    for i, n in enumerate(nodes(it, root)):
        it.setattr(n, 'BHdebug', which == 'all' or which == i)


KEYS = ('curr_unk', 'eqns_1u', 'eqns_2u', 'eqns_3pu', 'unknowns', 'Robot', 'Tm', 'counter', 'sub_eqns')


def observe(it, bb, R, UU):
    get = it.getattr(bb, 'get')
    return deep(it, [[UU[k] for k in sorted(UU)], R] + [it.call(get, [k], {}) for k in KEYS])


def differ(a, b, path=''):
    if type(a) is not type(b) or not isinstance(a, tuple):
        return '' if a == b else '%s: %s, with debugging %s' % (path, str(a)[:120], str(b)[:120])
    if len(a) != len(b):
        return '%s: %d entries, with debugging %d' % (path, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        d = differ(x, y, '%s.%s' % (path, x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))
        if d:
            return d
    return ''


def twice(ctx, key, make, switches=('all',), nticks=2):
    """make(it) -> (bb, R, UU, tree root)"""
    for sw in switches:
        def body(it):
            res = []
            for s in (None, sw):
                bb, R, UU, root = make(it)
                debug(it, root, s)
                t = bt.new_tree(it, root)
                sts = []
                for _ in range(nticks):
                    try:
                        sts.append(bt.tick(it, t, bb)[0])
                    except program.PyRaise as e:
                        sts.append('raises %s at %s' % (e.text(), e.where))
                        break
                res.append((sts, observe(it, bb, R, UU)))
            return res
        k = '%s/debug %s' % (key, sw)
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(k, False, ctx.outcome_text(out), ctx.where(out))
                continue
            (s0, o0), (s1, o1) = out[1]
            ctx.ob(k + '/status', s0 == s1, 'statuses %s, with debugging %s' % (s0, s1), W)
            ctx.ob(k + '/state', o0 == o1, differ(o0, o1), W)


def solvers(ctx):
    cases = []
    S = list(scenes(ctx.thorough)) + list(raw_scenes())
    for gi, g in enumerate(('algebra', 'ranked', 'sinandcos', 'simu', 'all')):
        step = 1 if ctx.thorough else (11 if g != 'all' else 37)
        cases += [(g, s) for s in S[gi::step]]
        if g == 'ranked' and not ctx.thorough:
            cases += [(g, s) for s in S if 'y factor' in s[0] or '1/sin' in s[0]]

    def one(case):
        g, (key, target, other, eqs) = case
        poly.RAW = key.startswith('sums kept')
        try:
            def make(it):
                one_, two, three = classify(eqs, [target, other])
                bb, R, UU = scene(it, target, [other, 'd_5'], ['th_4'], one_, two, three)
                return bb, R, UU, group(it, g)
            twice(ctx, 'solver/%s/%s' % (g, key), make)
        finally:
            poly.RAW = False
    ctx.each(cases, one)


def crowded(ctx):
    """solvers that pass over unusable equations"""
    L = [(n, t, an, items) for n, t, an, us, bad in p36.worlds() for items in p36.lists(us, bad, False)]
    seen, todo = set(), []
    for i, (n, t, an, items) in enumerate(L):
        lone = len(items) - len([1 for k, _ in items if k == '+']) == 1 and items[0][0] != '+'     # each unusable equation first, once
        if ctx.thorough or i % 41 == 0 or (lone and (n, t, an.split()[0], items[0][0]) not in seen):
            seen.add((n, t, an.split()[0], items[0][0]))
            todo.append((n, t, an, items))

    def one(x):
        n, t, an, items = x
        uns = [t, 'th_2' if t != 'th_2' else 'th_1', 'd_5']

        def make(it):
            ls = ([], [], [])
            for _, e in items:
                ls[max(min(len(set(mentions(e[0], uns)) | set(mentions(e[1], uns))), 3), 1) - 1].append(e)
            bb, R, UU = scene(it, t, uns[1:], ['th_4'], *ls)
            return bb, R, UU, group(it, n)
        twice(ctx, 'crowded/%s/%s/%s/%s' % (n, t, an, ', '.join(k for k, _ in items)), make, nticks=1)
    ctx.each(todo, one)


NAMES = ['th_1', 'th_2', 'th_3', 'd_4', 'th_23', 'th_5']


def mats(which):
    T1, T2, T3, D4, T23, T5 = map(sym, NAMES)
    L1, L2, PX, PY, PZ = map(sym, ('l_1', 'l_2', 'Px', 'Py', 'Pz'))
    z = Poly.const(0)
    D = [[sym('r_%d%d' % (i, j)) for j in (1, 2, 3)] + [p] for i, p in ((1, PX), (2, PY), (3, PZ))]
    s1, c1, s2, c2 = sin(T1), cos(T1), sin(T2), cos(T2)
    out = {
        'contained': [[s1, s1 + D4, z, c1 * L1], [z, s1 + D4 + cos(T3) * s2, z, D4], [L1 * (s1 + D4), c2, z, L1 * s1 + L2]],
        'sums': [[s1 * sin(T2 + T3), cos(T2 + T3), z, D4 * cos(T1 + T2)], [sin(T1 + T2 + T3), z, T5, T2 + T3], [z, z, cos(T2 - T3), L1 * c2 + L2 * cos(T2 + T3)]],
        'planar': [[c1, z, z, L1 * c2 + L2 * cos(T23)], [s1, z, z, D4], [z, z, z, L1 * s2 + L2 * sin(T23)]],
        'single': [[s1, c1, z, L1 * c2], [z, T5, z, L2 * s2], [z, z, z, D4 * 2 - L1]],
        'many': [[s1 * c2 * sin(T3) * D4, s1 * c2, s1, z], [c1, s1 * D4, s1 * c2 * D4, T5], [s2 * sin(T3), z, L1, c2 * D4 * T5]],
    }
    return D, out[which]


def transforms(ctx):
    leaves = ['sub', 'sum_id', 'x2z2', 'updateL', 'comp', 'assigner']
    pats = [p for p in product((0, 1), repeat=6)]
    cases = []
    for i, (l, w) in enumerate(product(leaves, ('contained', 'sums', 'planar', 'single', 'many'))):
        ps = pats if ctx.thorough else [pats[0], pats[-1], pats[(7 * i + 1) % 63], pats[(11 * i + 5) % 63], pats[16], pats[1]]
        cases += [(l, w, p) for p in ps]

    def one(case):
        l, w, pat = case
        poly.RAW = w == 'sums' or l == 'sum_id'
        try:
            D, Z = mats(w)
            S0 = [n for n, x in zip(NAMES, pat) if x]
            uns = [n for n in NAMES if n not in S0]

            def make(it):
                bb, R, UU = scene(it, uns[0] if uns else 'd_6', uns[1:], S0, [])
                me = it.getattr(it.import_module('ikbtbasics.kin_cl'), 'matrix_equation')
                last = [Poly.const(x) for x in (0, 0, 0, 1)]
                it.setattr(R, 'mequation_list', [it.call(me, [VMatrix([list(r) for r in D] + [last]), VMatrix([list(r) for r in Z] + [last])], {})])
                if w == 'planar':
                    it.setattr(R, 'kequation_aux_list', [keq(it, sym('th_23'), sym('th_2') + sym('th_3'))])
                unks = [UU[n] for n in NAMES] + ([UU['d_6']] if not uns else [])
                put = it.getattr(bb, 'set')
                it.call(put, ['unknowns', unks], {})
                L = it.tolist(it.call(it.getattr(R, 'scan_for_equations'), [unks], {}))
                for k, x in zip(('eqns_1u', 'eqns_2u', 'eqns_3pu'), L):
                    it.call(put, [k, x], {})
                return bb, R, UU, seq(it, l)
            twice(ctx, 'leaf/%s/%s/%s' % (l, w, ''.join(map(str, pat))), make)
        finally:
            poly.RAW = False
    ctx.each(cases, one)


def trees(ctx):
    """opaque nodes: debugging of inner nodes, of the tree, and logging at every level"""
    def case(it, name, kids, opts):
        m = bt.b3(it)
        cls = bt.stub_class(it)
        ks = [bt.stub(it, cls, 'n%d' % i, cost=i + 1) for i in range(kids)]
        if name in ('Inverter', 'Repeater', 'Limiter', 'RepeatUntilFailure', 'RepeatUntilSuccess', 'MaxTime'):
            n = it.call(it.getattr(m, name), [ks[0]] + ([2] if name != 'Inverter' else []), {})
        else:
            n = it.call(it.getattr(m, name), [ks], {})
        return n, ks
    for name in ('Sequence', 'Priority', 'OrNode', 'MemSequence', 'MemPriority', 'Inverter', 'Repeater', 'Limiter', 'RepeatUntilFailure', 'RepeatUntilSuccess'):
        for flag, dbg in product((0, 1, 2), (False, True)):
            if (flag, dbg) == (0, False):
                continue

            def body(it):
                res = []
                script = []
                for on in (False, True):
                    n, ks = case(it, name, 2, None)
                    tree, bb = bt.new_tree(it, n), bt.new_bb(it)
                    if on:
                        debug(it, n, 'all' if dbg else None)
                        it.setattr(tree, 'log_flag', flag)
                        it.setattr(tree, 'log_file', it.call(it.builtins['open'], ['log%d.txt' % flag, 'w'], {}))
                        if dbg:
                            it.setattr(tree, 'debug', True)
                    log = []
                    choose = it.choose

                    def scripted(opts, what, pos=[0]):
                        i = pos[0]
                        pos[0] += 1
                        if i < len(script) and on:
                            return script[i]
                        c = choose(opts, what)
                        script.append(c)
                        return c
                    it.choose = scripted
                    try:
                        for _ in range(2):
                            st, ev = bt.tick(it, tree, bb)
                            log.append((st, [e for e in ev if e[0] == 'tick'], it.call(it.getattr(bb, 'get'), ['TotalCost'], {}), [(k.d['N_ticks_all'], k.d['N_success'], k.d['Cost']) for k in ks + [n]]))
                    finally:
                        it.choose = choose
                    res.append(log)
                return res
            key = 'tree/%s/log %d, debug %s' % (name, flag, dbg)
            for it, out in ctx.explore(body):
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                else:
                    a, b = out[1]
                    ctx.ob(key, a == b, 'executed %s; with debugging or logging %s' % (a, b), 'b3/core')


ROBOTS = ('Wrist', 'Puma', 'UR5', 'Chair_Helper', 'Stanford', 'Khat6DOF', 'KR16')


def programs(ctx):
    names = program.robots(ctx)

    def one(job):
        name, sums, flag = job
        key = 'program/%s%s/log %d' % (name, '/sums of angles' if sums else '', flag)

        def run(on):
            out_ = []
            tick_tree = 'b3.core.behaviortree.BehaviorTree.tick'

            def switch(it, f, a, k):
                if on:
                    debug(it, it.getattr(a[0], 'root'), 'all')
                    it.setattr(a[0], 'log_flag', flag)
                    it.setattr(a[0], 'log_file', it.call(it.builtins['open'], ['node_log.txt', 'w'], {}))
                return it.call_func(f, a, k)
            program.SOA_EXTRA.clear()
            program.SOA_EXTRA[tick_tree] = switch
            try:
                for it, out, st in program.solving(ctx, name, sums):
                    if st is None:
                        out_.append((ctx.outcome_text(out), None, None))
                        continue
                    files = {k: ''.join(str(x) for x in v) for k, v in it.files.items() if k.endswith(('.py', '.cpp', '.tex'))}
                    out_.append((out[0] if out[0] == 'return' else ctx.outcome_text(out), deep(it, [st['R'], st['unks']]), files))
            finally:
                program.SOA_EXTRA.clear()
            return out_
        a, b = run(False), run(True)
        ctx.ob(key + '/paths', len(a) == len(b) > 0, '%d paths, with debugging %d' % (len(a), len(b)), 'ikSolver.py')
        for (s0, d0, f0), (s1, d1, f1) in zip(a, b):
            ctx.ob(key + '/ends', s0 == s1, 'ends with %s, with debugging %s' % (s0, s1), 'ikSolver.py')
            ctx.ob(key + '/state', d0 == d1, differ(d0, d1) if d0 and d1 else 'no result', 'ikSolver.py')
            ctx.ob(key + '/files', f0 == f1, 'the generated files differ: %s' % sorted(k for k in set(f0 or {}) | set(f1 or {}) if (f0 or {}).get(k) != (f1 or {}).get(k)), 'ikSolver.py')
    jobs = [(r, False, 1 + i % 2) for i, r in enumerate(names) if ctx.thorough or r in ROBOTS]
    if ctx.thorough:
        jobs += [(r, True, 2) for r in ('Parkman13', 'Arm_3', 'Khat6DOF')]
    ctx.each(jobs, one)


def run(ctx):
    trees(ctx)
    solvers(ctx)
    crowded(ctx)
    transforms(ctx)
    programs(ctx)
