"""Node life cycle: callback order, open/close pairing, and the tree's record of open nodes."""
from ..bt import *

EXPLANATION = ('Typestate analysis of node execution: the base node is interpreted abstractly with an opaque tick '
               'status and recording callbacks, from both typestates (open, closed) of the node, so that the result '
               'is inductive over tick histories; nested trees of sequences and priorities are interpreted to decide '
               "the tree's record of open nodes and the number of nodes visited.")
RULE = 'one obligation per typestate, tree shape and abstract path'
MIN_OBLIGATIONS = 150


def run(ctx):
    hooks = ('enter', 'open', 'close', 'exit')
    T = 4 if ctx.thorough else 3
    for base in ('Action', 'Condition'):
        def body(it):
            b3(it)
            cls = stub_class(it, base, hooks)
            node = stub(it, cls, 'n')
            tree, bb = new_tree(it, node), new_bb(it)
            out = []
            for _ in range(T):
                st, ev = tick(it, tree, bb)
                out.append((st, [e[0] for e in ev if e[0] in hooks + ('tick',)], [e[2] for e in ev if e[0] == 'tick'],
                            list(it.tolist(it.call(it.getattr(bb, 'get'), ['open_nodes', it.getattr(tree, 'id')], {})))
                            == [node]))
            return out
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob('lifecycle/' + base, False, ctx.outcome_text(out), ctx.where(out))
                continue
            is_open = False
            for st, calls, produced, rec in out[1]:
                exp = ['enter'] + ([] if is_open else ['open']) + ['tick'] + ([] if st == 'RUNNING' else ['close']) + ['exit']
                ok = calls == exp and produced == [st]
                ctx.ob('lifecycle/' + base, ok, 'node %s, tick returned %s: callbacks %s, expected %s, tree status %s'
                       % ('open' if is_open else 'closed', produced, calls, exp, st), 'b3.BaseNode')
                if not ok:
                    break
                is_open = st == 'RUNNING'
                ctx.ob('open-record/' + base, rec == is_open,
                       'after a tick returning %s the tree %s the node as open' % (st, 'records' if rec else 'does not record'),
                       'b3.BehaviorTree.tick')
    # two independent trees sharing one blackboard, and two nodes in one tree: open state must not leak
    def body(it):
        b3(it)
        cls = stub_class(it, 'Action', hooks)
        n1, n2 = stub(it, cls, 'n1'), stub(it, cls, 'n2')
        m = it.import_module('b3')
        t1, t2, bb = new_tree(it, n1), new_tree(it, n2), new_bb(it)
        out = [('n1',) + tick(it, t1, bb), ('n2',) + tick(it, t2, bb), ('n1',) + tick(it, t1, bb)]
        return out
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob('isolation', False, ctx.outcome_text(out), ctx.where(out))
            continue
        opened = {}
        for tag, st, ev in out[1]:
            did = ('open', tag) in ev
            ctx.ob('isolation', did == (not opened.get(tag, False)), '%s: open callback %s' % (tag, did), 'b3.BaseNode')
            opened[tag] = st == 'RUNNING'
    # the same node object ticked from two trees is open per tree
    def body(it):
        b3(it)
        cls = stub_class(it, 'Action', hooks)
        n = stub(it, cls, 'n')
        t1, t2, bb = new_tree(it, n), new_tree(it, n), new_bb(it)
        return [('t1',) + tick(it, t1, bb), ('t2',) + tick(it, t2, bb), ('t1',) + tick(it, t1, bb)]
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob('isolation/shared-node', False, ctx.outcome_text(out), ctx.where(out))
            continue
        opened = {}
        for tag, st, ev in out[1]:
            did = ('open', 'n') in ev
            ctx.ob('isolation/shared-node', did == (not opened.get(tag, False)), '%s: open callback %s' % (tag, did),
                   'b3.BaseNode')
            opened[tag] = st == 'RUNNING'
    # nested trees
    shapes = [('Sequence', 'Sequence'), ('Sequence', 'Priority'), ('Priority', 'Sequence'), ('Priority', 'Priority')]
    for outer, inner in shapes:
        def body(it):
            m = b3(it)
            cls = stub_class(it, 'Action', hooks)
            mk = lambda t: stub(it, cls, t, options=('SUCCESS', 'FAILURE', 'RUNNING'))
            inn = it.call(it.getattr(m, inner), [[mk('b'), mk('c')]], {})
            out = it.call(it.getattr(m, outer), [[mk('a'), inn, mk('d')]], {})
            inn.d['tag'], out.d['tag'] = 'inner', 'outer'
            tree, bb = new_tree(it, out), new_bb(it)
            res = []
            for _ in range(2):
                st, ev = tick(it, tree, bb)
                get = it.getattr(bb, 'get')
                tid = it.getattr(tree, 'id')
                rec = [x.d['tag'] for x in it.tolist(it.call(get, ['open_nodes', tid], {}))]
                cnt = it.call(get, ['node_count', tid], {})
                res.append((st, ev, rec, cnt))
            return res
        for it, out in ctx.explore(body):
            key = 'nested/%s-of-%s' % (outer, inner)
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            for st, ev, rec, cnt in out[1]:
                sts = {e[1]: e[2] for e in ev if e[0] == 'tick'}
                running = [t for t in ('a', 'b', 'c', 'd') if sts.get(t) == 'RUNNING']
                exp = []
                if running:
                    exp = ['outer'] + (['inner'] if running[0] in 'bc' else []) + running
                visited = 1 + len(sts) + (1 if ('b' in sts or 'c' in sts) else 0)
                ctx.ob(key, rec == exp, 'statuses %s: recorded open nodes %s, running nodes %s' % (sts, rec, exp),
                       'b3.BehaviorTree.tick')
                ctx.ob(key + '/count', cnt == visited, 'nodes visited %s, recorded %s' % (visited, cnt),
                       'b3.Tick')
    # every callback sees the tree, target and blackboard of the tick (whatever the target is)
    for target in ('target', None, 0, []):
        context(ctx, hooks, target)


def context(ctx, hooks, target):
    def body(it):
        m = b3(it)
        seen = []
        ns = {}
        for h in hooks + ('tick',):
            def mk(h):
                def f(self, t):
                    seen.append((h, it.getattr(t, 'tree'), it.getattr(t, 'target'), it.getattr(t, 'blackboard')))
                    return it.user['st']['SUCCESS']
                f._binds_self = True
                return f
            ns[h] = mk(h)
        cls = VClass('Stub', [it.getattr(m, 'Action')], ns, m)
        leaf = it.call(cls, [], {})
        root = it.call(it.getattr(m, 'Sequence'), [[leaf]], {})
        tree, bb = new_tree(it, root), new_bb(it)
        it.call(it.getattr(tree, 'tick'), [target, bb], {})
        return tree, bb, seen
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob('context', False, ctx.outcome_text(out), ctx.where(out))
            continue
        tree, bb, seen = out[1]
        ctx.ob('context', len(seen) == 5 and all(x[1] is tree and x[2] is target and x[3] is bb for x in seen),
               'tick context seen by the callbacks: %s' % [(x[0], x[1] is tree, x[2], x[3] is bb) for x in seen], 'b3.Tick')
    # a tick object can be made with its context directly
    def body(it):
        m = b3(it)
        t = it.call(it.getattr(m, 'Tick'), ['tree', 'target', 'bb', 'debug'], {})
        return [it.getattr(t, k) for k in ('tree', 'target', 'blackboard', 'debug')]
    for it, out in ctx.explore(body):
        ctx.ob('context/constructor', out[0] == 'return' and out[1] == ['tree', 'target', 'bb', 'debug'],
               ctx.outcome_text(out), 'b3.Tick')
