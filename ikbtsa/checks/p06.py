"""Execution accounting: tick and success counters, composite cost, total cost, success log."""
from ..bt import *

EXPLANATION = ('Effect analysis of node execution: nodes are interpreted abstractly with opaque child statuses and '
               'symbolic (opaque) child costs, and the counters, the composite cost and the shared total cost after '
               'each path are compared, as polynomial normal forms, with the sums the property states.')
RULE = 'one obligation per composite, path and counter'
MIN_OBLIGATIONS = 300


def run(ctx):
    from ..poly import anyexpr, Poly
    N = 4 if ctx.thorough else 3
    T = 3 if ctx.thorough else 2
    # leaf counters
    def body(it):
        b3(it)
        node = stub(it, stub_class(it), 'n', cost=3)
        tree, bb = new_tree(it, node), new_bb(it)
        out = []
        for _ in range(T + 1):
            st, ev = tick(it, tree, bb)
            out.append((st, node.d['N_ticks_all'], node.d['N_success'],
                        it.call(it.getattr(bb, 'get'), ['TotalCost'], {}), node.d['Cost'], tree.d['tick_count']))
        return out
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob('leaf', False, ctx.outcome_text(out), ctx.where(out))
            continue
        succ = 0
        for i, (st, nt, ns, tot, cost, tc) in enumerate(out[1]):
            succ += st == 'SUCCESS'
            ctx.ob('leaf/ticks', nt == i + 1, 'ticked %d times, counted %s' % (i + 1, nt), 'b3.BaseNode')
            ctx.ob('leaf/successes', ns == succ, '%d successes, counted %s' % (succ, ns), 'b3.BaseNode')
            ctx.ob('leaf/total-cost', tot == 3 * (i + 1) and cost == 3, 'total cost %s after %d ticks of cost 3' % (tot, i + 1),
                   'b3.BaseNode')
            ctx.ob('tree/ticks', tc == i + 1, 'tree tick count %s after %d ticks' % (tc, i + 1), 'b3.BehaviorTree')
    # composite costs and total cost; two ticks with fresh costs (leaves may change their cost)
    for name, sign in (('Sequence', 1), ('Priority', 1), ('OrNode', 1), ('Sequence', -1), ('OrNode', -1)):
        for n in range(N + 1 if sign > 0 else 3):
            def body(it):
                m = b3(it)
                cls = stub_class(it)
                kids = [stub(it, cls, i, cost=sign * 10 ** i) for i in range(n)]
                node = it.call(it.getattr(m, name), [kids], {})
                tree, bb = new_tree(it, node), new_bb(it)
                out = []
                for _ in range(2 if n < 3 else 1):
                    st, ev = tick(it, tree, bb)
                    out.append((st, [e[1] for e in ev if e[0] == 'tick'], node.d['Cost'],
                                it.call(it.getattr(bb, 'get'), ['TotalCost'], {}),
                                [k.d['N_ticks_all'] for k in kids], node.d['N_ticks_all'], node.d['N_success']))
                return out
            for it, out in ctx.explore(body):
                key = '%s/children=%d%s' % (name, n, '' if sign > 0 else '/negative')
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                total, cnt, succ = 0, [0] * n, 0
                for k, (st, order, cost, tot, nts, nt, ns) in enumerate(out[1]):
                    for i in order:
                        cnt[i] += 1
                    exp = sign * sum(10 ** i for i in order)
                    total += 2 * exp
                    succ += st == 'SUCCESS'
                    ctx.ob(key + '/cost', cost == exp, 'ticked %s: cost %s, expected %s' % (order, cost, exp), 'b3.' + name)
                    ctx.ob(key + '/total', tot == total, 'total cost %s, expected %s' % (tot, total), 'b3.BaseNode')
                    ctx.ob(key + '/counters', nts == cnt and nt == k + 1 and ns == succ,
                           'tick counters %s (expected %s), own %s/%s' % (nts, cnt, nt, ns), 'b3.BaseNode')
    # success log: level 0 nothing, 1 successes, 2 successes and failures
    for level, dbg in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)):
        def body(it):
            m = b3(it)
            cls = stub_class(it)
            node = it.call(it.getattr(m, 'OrNode'), [[stub(it, cls, 'a'), stub(it, cls, 'b')]], {})
            node.d['Name'] = 'root'
            if dbg:
                for x in [node] + list(node.d['children']):
                    x.d['BHdebug'] = 1
            tree, bb = new_tree(it, node), new_bb(it)
            tree.d['log_flag'] = level
            f = it.call(it.builtins['open'], ['log', 'w'], {})
            tree.d['log_file'] = f if level else None
            st, ev = tick(it, tree, bb)
            return st, [(e[1], e[2]) for e in ev if e[0] == 'tick'], ''.join(f.buf).split('\n')
        for it, out in ctx.explore(body):
            key = 'log/level=%d' % level
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            st, kids, lines = out[1]
            exp = []
            for t, s in kids + [('root', st)]:
                if s == 'SUCCESS' and level > 0:
                    exp.append('S ' + t)
                if s == 'FAILURE' and level > 1:
                    exp.append('F ' + t)
            ctx.ob(key, [x for x in lines if x] == exp, 'log %s, expected %s' % (lines, exp), 'b3.BaseNode')
