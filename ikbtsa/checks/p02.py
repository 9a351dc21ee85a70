"""Decorator nodes: status mapping and loop bounds."""
from ..bt import *

EXPLANATION = ('Abstract interpretation of every decorator of the behaviour-tree package through the public tree tick, '
               'with an opaque child whose status is any of the four on every tick, small symbolic loop limits, and '
               'histories of consecutive ticks; each path is compared with the automaton the property states '
               '(which child ticks may happen, and the status returned).')
RULE = 'one obligation per decorator, limit and abstract path'
ASSUMPTIONS = ['loop limits larger than the bound behave like the ones enumerated (the loops are uniform in the limit)']
MIN_OBLIGATIONS = 300


def _mk(it, m, name, child, lim):
    cls = it.getattr(m, name)
    if lim is None:
        return it.call(cls, [child], {})
    return it.call(cls, [child, lim], {})


class Spec:
    """reference automaton of the looping decorators; state = completed child ticks since the node opened"""
    def __init__(self, name, lim):
        self.name, self.lim, self.i, self.open = name, lim, 0, False

    def tick(self, sts):
        """sts: statuses the child produced in this tick; returns (ok, allowed statuses)"""
        if not self.open:
            self.i = 0
        n, lim, used = self.name, self.lim, 0
        again = {'Repeater': ('SUCCESS', 'FAILURE'), 'RepeatUntilFailure': ('SUCCESS',),
                 'RepeatUntilSuccess': ('FAILURE',)}.get(n)
        if n == 'Limiter':
            if self.i >= lim:
                st, want = {'FAILURE'}, 0
            else:
                want = 1
                st = {sts[0]} if sts else set()
                if sts and sts[0] in ('SUCCESS', 'FAILURE'):
                    self.i += 1
        else:
            last, want = None, 0
            while (lim < 0 or self.i < lim):
                want += 1
                if want > len(sts):
                    break
                last = sts[want - 1]
                if last in again:
                    self.i += 1
                else:
                    break
            if last is not None:
                st = {last}
            else:
                st = {'SUCCESS'} if n == 'Repeater' else {'SUCCESS', 'FAILURE', 'ERROR'}
        return want == len(sts), st, want

    def after(self, status):
        self.open = status == 'RUNNING'


def run(ctx):
    D = 3 if ctx.thorough else 2
    # -- status mapping of the inverter; childless decorators report an error status
    def body(it):
        m = b3(it)
        node = _mk(it, m, 'Inverter', stub(it, stub_class(it), 0), None)
        tree, bb = new_tree(it, node), new_bb(it)
        return [tick(it, tree, bb) for _ in range(2)]
    swap = {'SUCCESS': 'FAILURE', 'FAILURE': 'SUCCESS'}
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob('Inverter', False, ctx.outcome_text(out), ctx.where(out))
            continue
        for status, ev in out[1]:
            c = [e[2] for e in ev if e[0] == 'tick']
            ctx.ob('Inverter', len(c) == 1 and status == swap.get(c[0], c[0]),
                   'child ticks %s, returned %s' % (c, status), 'b3.Inverter')
    for name, lim in (('Inverter', None), ('Limiter', 1), ('MaxTime', 1), ('Repeater', 1), ('RepeatUntilFailure', 1),
                      ('RepeatUntilSuccess', 1)):
        def body(it):
            m = b3(it)
            it.user['time'] = lambda: 0
            node = _mk(it, m, name, None, lim)
            return tick(it, new_tree(it, node), new_bb(it))
        for it, out in ctx.explore(body):
            ctx.ob('%s/childless' % name, out[0] == 'return' and out[1][0] == 'ERROR',
                   'no child: ' + ctx.outcome_text(out), ctx.where(out))
    # -- loops and limits
    for name in ('Limiter', 'Repeater', 'RepeatUntilFailure', 'RepeatUntilSuccess'):
        limits = range(0, 5 if ctx.thorough else 4) if name == 'Limiter' else range(-1, 5 if ctx.thorough else 4)
        for lim in limits:
            def body(it):
                m = b3(it)
                it.user['tick_cap'] = D * ((lim if lim > 0 else 4) + 1)
                cls = stub_class(it)
                child = stub(it, cls, 0)
                if lim < 0:         # unbounded loop: the child may run at most 4 times before it reports RUNNING/ERROR
                    cnt = [0]
                    def cap(self):
                        cnt[0] += 1
                        if cnt[0] % 4 == 3:
                            self.d['options'] = ('RUNNING', 'ERROR')
                        else:
                            self.d['options'] = ('SUCCESS', 'FAILURE', 'RUNNING', 'ERROR')
                    it.user['after_child'] = cap
                node = _mk(it, m, name, child, lim)
                tree, bb = new_tree(it, node), new_bb(it)
                return [tick(it, tree, bb) for _ in range(D)]
            for it, out in ctx.explore(body, fuel=20000):
                key = '%s/limit=%s' % (name, lim if lim >= 0 else 'none')
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                sp = Spec(name, lim)
                for status, ev in out[1]:
                    sts = [e[2] for e in ev if e[0] == 'tick']
                    ok, st, want = sp.tick(sts)
                    good = ok and status in st
                    ctx.ob(key, good, 'child statuses %s, returned %s; expected %d child tick(s) and status in %s'
                           % (sts, status, want, sorted(st)), 'b3.' + name)
                    if not good:
                        break
                    sp.after(status)
    # -- default limit is "no limit"
    for name in ('Repeater', 'RepeatUntilFailure', 'RepeatUntilSuccess'):
        def body(it):
            m = b3(it)
            it.user['script'] = None
            cls = stub_class(it)
            child = stub(it, cls, 0)
            cont = {'Repeater': 'SUCCESS', 'RepeatUntilFailure': 'SUCCESS', 'RepeatUntilSuccess': 'FAILURE'}[name]
            child.d['options'] = (cont,)
            cnt = [0]
            def cap(self):
                cnt[0] += 1
                if cnt[0] == 25:
                    self.d['options'] = ('ERROR',)
            it.user['after_child'] = cap
            node = _mk(it, m, name, child, None)
            return tick(it, new_tree(it, node), new_bb(it))
        for it, out in ctx.explore(body, fuel=200000):
            ok = out[0] == 'return' and out[1][0] == 'ERROR' and len([e for e in out[1][1] if e[0] == 'tick']) == 26
            ctx.ob('%s/default-limit' % name, ok, ctx.outcome_text(out) if out[0] != 'return' else
                   'stopped after %d ticks' % len(out[1][1]), ctx.where(out))
    # -- time limit
    for limit in (0, 3):
        def body(it):
            m = b3(it)
            now = [10]
            it.user['time'] = lambda: now[0]
            cls = stub_class(it)
            node = _mk(it, m, 'MaxTime', stub(it, cls, 0), limit)
            tree, bb = new_tree(it, node), new_bb(it)
            r, start, openp = [], None, False
            for _ in range(2):
                if not openp:
                    start = now[0]
                st, ev = tick(it, tree, bb)
                r.append((st, ev, now[0] - start))
                openp = st == 'RUNNING'
                now[0] += it.choose([1, 5], 'elapsed')
            return r
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob('MaxTime/limit=%s' % limit, False, ctx.outcome_text(out), ctx.where(out))
                continue
            for st, ev, el in out[1]:
                c = [e[2] for e in ev if e[0] == 'tick']
                if el > limit:
                    ok = st == 'FAILURE'
                else:
                    ok = len(c) == 1 and st == c[0]
                ctx.ob('MaxTime/limit=%s' % limit, ok, 'elapsed %s, child %s, returned %s' % (el, c, st), 'b3.MaxTime')
    # -- the counters of one decorator are its own: two side by side in a tree, one inside the other, or in two trees
    L = {'Limiter': 1}
    stop = {'Limiter': ('SUCCESS', 'RUNNING'), 'Repeater': ('SUCCESS', 'RUNNING'),
            'RepeatUntilFailure': ('SUCCESS', 'RUNNING'), 'RepeatUntilSuccess': ('FAILURE', 'RUNNING')}
    for na in stop:
        for nb in stop:
            for how in ('one tree', 'two trees', 'one node in two trees'):
                if na != nb and (how == 'one node in two trees' or how == 'two trees' and not ctx.thorough):
                    continue

                def body(it):
                    m = b3(it)
                    it.user['tick_cap'] = 60
                    cls = stub_class(it)
                    b = _mk(it, m, nb, stub(it, cls, 'b', options=stop[nb]), L.get(nb, 2))
                    a = b if how == 'one node in two trees' else _mk(it, m, na, stub(it, cls, 'a', options=stop[na]), L.get(na, 2))
                    return interleaved(it, [a, b], [(0,), (1,), (0,), (1,)] + ([(0, 1)] if ctx.thorough else []), how != 'one tree')
                for it, out in ctx.explore(body, fuel=20000):
                    key = '%s and %s/%s' % (na, nb, how)
                    if out[0] != 'return':
                        ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                        continue
                    sp = [Spec(na, L.get(na, 2)), Spec(nb, L.get(nb, 2))]
                    for i, status, ev in out[1]:
                        sts = [e[2] for e in ev if e[0] == 'tick']
                        ok, st, want = sp[i].tick(sts)
                        good = ok and status in st
                        ctx.ob(key, good, 'decorator %d: child statuses %s, returned %s; expected %d child tick(s) and status in %s'
                               % (i + 1, sts, status, want, sorted(st)), 'b3.' + (na, nb)[i])
                        if not good:
                            break
                        sp[i].after(status)
    for how in ('one tree', 'two trees', 'one node in two trees'):
        def body(it):
            m = b3(it)
            now = [20]
            it.user['time'] = lambda: now[0]
            cls = stub_class(it)
            b = _mk(it, m, 'MaxTime', stub(it, cls, 'b', options=('RUNNING', 'SUCCESS')), 3)
            a = b if how == 'one node in two trees' else _mk(it, m, 'MaxTime', stub(it, cls, 'a', options=('RUNNING', 'SUCCESS')), 3)
            at = []

            class Clocked(list):
                def __iter__(self):
                    for w in list.__iter__(self):
                        yield w
                        now[0] += 2
                        at.append(now[0])
            return interleaved(it, [a, b], Clocked([(0,), (1,), (0,), (1,), (0,), (1,)]), how != 'one tree')
        for it, out in ctx.explore(body):
            key = 'MaxTime/' + how
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            opened = {}
            for k, (i, st, ev) in enumerate(out[1]):
                t = 20 + 2 * k
                t0 = opened.setdefault(i, t)
                c = [e[2] for e in ev if e[0] == 'tick']
                ok = st == 'FAILURE' if t - t0 > 3 else c == [st]
                ctx.ob(key, ok, 'decorator %d, %d s after opening: child %s, returned %s' % (i + 1, t - t0, c, st), 'b3.MaxTime')
                if not ok:
                    break
                if st != 'RUNNING':
                    del opened[i]
