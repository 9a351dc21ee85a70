"""Abstract behaviour-tree fixtures: stub children whose tick returns any status, and a driver."""
from . import interp as I
from .interp import VClass, VInst

S, F, R, E = 1, 2, 3, 4
NAMES = {1: 'SUCCESS', 2: 'FAILURE', 3: 'RUNNING', 4: 'ERROR'}


def b3(it):
    m = it.import_module('b3')
    want = {'SUCCESS': S, 'FAILURE': F, 'RUNNING': R, 'ERROR': E}
    got = {k: it.getattr(m, k) for k in want}
    it.user['st'] = got
    if len(set(got.values())) != 4:
        it.throw(ValueError('the four statuses are not distinct'))
    return m


def stub_class(it, base='Action', hooks=()):
    m = it.import_module('b3')
    b = it.getattr(m, base)

    def tick(self, t):
        st = it.user['st']
        opts = self.d.get('options', ('SUCCESS', 'FAILURE', 'RUNNING', 'ERROR'))
        c = it.choose(list(opts), 'status of %s' % (self.d['tag'],))
        it.events.append(('tick', self.d['tag'], c))
        cap = it.user.get('tick_cap', 400)
        if len(it.events) > cap:
            raise I.FuelOut()       # children are ticked without end
        after = it.user.get('after_child')
        if after:
            after(self)
        return st[c]
    tick._binds_self = True
    ns = {'tick': tick}
    for h in hooks:
        def mk(h):
            def f(self, t):
                it.events.append((h, self.d['tag']))
            f._binds_self = True
            return f
        ns[h] = mk(h)
    return VClass('Stub', [b], ns, b.module)


def stub(it, cls, tag, cost=0, options=None):
    n = it.call(cls, [], {})
    n.d['tag'] = tag
    n.d['Name'] = tag
    n.d['Cost'] = cost
    if options:
        n.d['options'] = options
    return n


def new_tree(it, root):
    m = it.import_module('b3')
    t = it.call(it.getattr(m, 'BehaviorTree'), [], {})
    it.setattr(t, 'root', root)
    return t


def new_bb(it):
    return it.call(it.getattr(it.import_module('b3'), 'Blackboard'), [], {})


def tick(it, tree, bb):
    """one tree tick; returns (status name, events of this tick)"""
    n = len(it.events)
    v = it.call(it.getattr(tree, 'tick'), ['target', bb], {})
    names = {x: k for k, x in it.user['st'].items()}
    return names.get(v, repr(v)), it.events[n:]


def interleaved(it, nodes, schedule, two_trees=False):
    """execute nodes in the given order over several ticks (schedule: one tuple of node numbers per tick), either side
    by side in one tree or as the roots of two trees on one blackboard; returns [(node number, status, events)]"""
    names = {v: k for k, v in it.user['st'].items()}
    bb = new_bb(it)
    got = []
    if two_trees:
        trees = [new_tree(it, n) for n in nodes]
        for which in schedule:
            for i in which:
                st, ev = tick(it, trees[i], bb)
                got.append((i, st, ev))
        return got
    base = it.getattr(it.import_module('b3'), 'Composite')
    now = {}

    def par(self, t):
        for i in now['which']:
            n = len(it.events)
            st = it.call(it.getattr(nodes[i], '_execute'), [t], {})
            got.append((i, names.get(st, repr(st)), it.events[n:]))
        return it.user['st']['RUNNING']
    par._binds_self = True
    p = it.call(VClass('Both', [base], {'tick': par}, base.module), [list(nodes)], {})
    tree = new_tree(it, p)
    for which in schedule:
        now['which'] = which
        tick(it, tree, bb)
    return got
