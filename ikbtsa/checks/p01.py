"""Composite nodes: child order, short circuit, returned status, resume position."""
from ..bt import *

EXPLANATION = ('Abstract interpretation of the composite nodes of the behaviour-tree package (through the public '
               'tree tick): every child is an opaque leaf whose status is any of the four, child lists of length 0..N '
               'and histories of consecutive ticks are enumerated, and on every abstract path the sequence of '
               'children ticked and the returned status are compared with the status algebra of the property.')
RULE = 'one obligation per composite class, child count and abstract path'
ASSUMPTIONS = ['composites treat children uniformly, so child lists longer than the bound behave alike']
MIN_OBLIGATIONS = 500


def expect_seq(seen, n, start, stop_on, default):
    """seen: statuses actually produced, in order; returns (expected child order, status)"""
    order, i = [], start
    for st in seen:
        if i >= n:
            return None
        order.append(i)
        i += 1
        if stop_on(st):
            return order, st
    if i < n:
        return None             # must have gone on
    return order, default


def run(ctx):
    N = 5 if ctx.thorough else 4
    for name, stop, dflt in (('Sequence', lambda s: s != 'SUCCESS', 'SUCCESS'),
                             ('Priority', lambda s: s != 'FAILURE', 'FAILURE'),
                             ('MemSequence', lambda s: s != 'SUCCESS', 'SUCCESS'),
                             ('MemPriority', lambda s: s != 'FAILURE', 'FAILURE'),
                             ('OrNode', None, 'FAILURE')):
        mem = name.startswith('Mem')
        cases = [(n, 1) for n in range(N + 1)] + [(2, 2), (1, 2)]
        if mem:
            cases = [(n, 1) for n in range(N)] + [(3, 2), (2, 3)] + ([(3, 3), (4, 2)] if ctx.thorough else [])
        cases = [(n, t, None) for n, t in cases] + [(3, 1, (0, 1, 0)), (2, 1, (0, 0)), (3, 1, (0, 1, 1))]     # one child several times
        for n, ticks, same in cases:
            def body(it):
                it.set_orders = True
                m = b3(it)
                cls = stub_class(it)
                kids = [stub(it, cls, i) for i in range(n)]
                kids = [kids[i] for i in same or range(n)]
                node = it.call(it.getattr(m, name), [kids] if n else [], {})
                tree, bb = new_tree(it, node), new_bb(it)
                return [tick(it, tree, bb) for _ in range(ticks)]
            for it, out in ctx.explore(body, max_paths=60000):
                key = '%s/children=%s' % (name, same or n)
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                resume = 0
                for k, (status, ev) in enumerate(out[1]):
                    order = [e[1] for e in ev if e[0] == 'tick']
                    sts = [e[2] for e in ev if e[0] == 'tick']
                    if same:
                        if name == 'OrNode':
                            exp = (list(same), 'SUCCESS' if any(s != 'FAILURE' for s in sts) else 'FAILURE')
                        else:
                            e = expect_seq(sts, n, 0, stop, dflt)
                            exp = e and ([same[i] for i in e[0]], e[1])
                    elif name == 'OrNode':
                        exp = (list(range(n)), 'SUCCESS' if any(s != 'FAILURE' for s in sts) else 'FAILURE')
                    else:
                        exp = expect_seq(sts, n, resume if mem else 0, stop, dflt)
                    ok = exp == (order, status)
                    ctx.ob(key, ok, 'tick %d: children ticked %s with %s, returned %s; expected %s'
                           % (k + 1, order, sts, status, exp), 'b3.%s' % name)
                    if not ok:
                        break
                    if mem:
                        resume = order[-1] if status == 'RUNNING' and order else 0
    # -- the memory of one node is its own: two memory nodes side by side in a tree, nested, or in two trees
    kinds = {'MemSequence': ('SUCCESS', lambda s: s != 'SUCCESS', 'SUCCESS'),
             'MemPriority': ('FAILURE', lambda s: s != 'FAILURE', 'FAILURE')}
    for na in kinds:
        for nb in kinds:
            for how in ('one tree', 'two trees', 'one node in two trees', 'one inside the other'):
                if how == 'one node in two trees' and na != nb:
                    continue

                def body(it):
                    m = b3(it)
                    cls = stub_class(it)

                    def mk(name, tag, extra=None):
                        kids = [stub(it, cls, (tag, i), options=(kinds[name][0], 'RUNNING')) for i in range(3 if extra is not None or ctx.thorough else 2)]
                        if extra is not None:
                            kids[1] = extra
                        return it.call(it.getattr(m, name), [kids], {})
                    b = mk(nb, 'b')
                    if how == 'one inside the other':
                        a = mk(na, 'a', b)
                        return interleaved(it, [a], [(0,)] * (3 if ctx.thorough else 2))
                    a = b if how == 'one node in two trees' else mk(na, 'a')
                    return interleaved(it, [a, b], [(0,), (1,), (0,)] + [(1,)] * (how == 'one tree'), how != 'one tree')
                for it, out in ctx.explore(body, max_paths=60000):
                    key = '%s and %s/%s' % (na, nb, how)
                    if out[0] != 'return':
                        ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                        continue
                    resume = {}
                    for i, st, ev in out[1]:
                        order = [e[1][1] for e in ev if e[0] == 'tick']
                        sts = [e[2] for e in ev if e[0] == 'tick']
                        if how == 'one inside the other':
                            # flattened view: the children a0, (b0 b1 b2), a2 in the order they can run
                            tags = [e[1] for e in ev if e[0] == 'tick']
                            ra, rb = resume.get('a', 0), resume.get('b', 0)
                            exp, est, na_, nb_ = nested(kinds[na], kinds[nb], sts, ra, rb, 3 if ctx.thorough else 2)
                            ok = exp == tags and est == st
                            ctx.ob(key, ok, 'children ticked %s with %s, returned %s; expected %s, %s'
                                   % (tags, sts, st, exp, est), 'b3.' + na)
                            resume = {'a': na_, 'b': nb_}
                        else:
                            name = (na, nb)[i]
                            exp = expect_seq(sts, 3 if ctx.thorough else 2, resume.get(i, 0), kinds[name][1], kinds[name][2])
                            ok = exp == (order, st)
                            ctx.ob(key, ok, 'node %d: children ticked %s with %s, returned %s; expected %s'
                                   % (i + 1, order, sts, st, exp), 'b3.' + name)
                            resume[i] = order[-1] if st == 'RUNNING' and order else 0
                        if not ok:
                            break


def nested(ka, kb, sts, ra, rb, n):
    """expected children of a memory node a0, b, a2 whose middle child is a memory node b0 b1 b2"""
    it = iter(sts)
    tags, i = [], ra
    while i < 3:
        if i != 1:
            tags.append(('a', i))
            s = next(it, None)
        else:
            s, j = kb[2], rb
            while j < n:
                tags.append(('b', j))
                s = next(it, None)
                if s is None or kb[1](s):
                    break
                s = kb[2]
                j += 1
            rb = j if s == 'RUNNING' else 0
        if s is None:
            return tags, None, 0, 0
        if ka[1](s):
            return tags, s, (i if s == 'RUNNING' else 0), rb
        i += 1
    return tags, ka[2], 0, rb
