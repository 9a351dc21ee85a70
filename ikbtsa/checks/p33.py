"""Library actions: constant statuses and the waiting action."""
from ..bt import *
from itertools import product

EXPLANATION = ('Every action of the behaviour-tree package is interpreted through the public tree tick, in both life-cycle '
               'states. The waiting action is followed over ticks with an abstract clock: an arbitrary origin and a chosen '
               'advance between ticks, including re-opening after it has finished, sharing by two trees and two waiting '
               'actions on one blackboard.')
RULE = 'one obligation per action, waiting time and abstract path'
MIN_OBLIGATIONS = 60
CONST = {'Succeeder': 'SUCCESS', 'Failer': 'FAILURE', 'Runner': 'RUNNING', 'Error': 'ERROR'}


def run(ctx):
    # -- constant actions
    for name, want in CONST.items():
        def body(it):
            m = b3(it)
            n = it.call(it.getattr(m, name), [], {})
            tree, bb = new_tree(it, n), new_bb(it)
            return [tick(it, tree, bb)[0] for _ in range(3)]
        for it, out in ctx.explore(body):
            ok = out[0] == 'return' and out[1] == [want] * 3
            ctx.ob(name, ok, 'three ticks: ' + (str(out[1]) if out[0] == 'return' else ctx.outcome_text(out)), ctx.where(out))
    # -- the waiting action
    D = 4 if ctx.thorough else 3
    for ms in (0, 1500, None):
        limit = (ms or 0) / 1000

        def body(it):
            m = b3(it)
            now = [1000.5]
            it.user['time'] = lambda: now[0]
            cls = it.getattr(m, 'Wait')
            w = it.call(cls, [] if ms is None else [ms], {})
            tree, bb = new_tree(it, w), new_bb(it)
            r, opened = [], None
            for k in range(D):
                if opened is None:
                    opened = now[0]
                st = tick(it, tree, bb)[0]
                r.append((now[0] - opened, st))
                if st != 'RUNNING':
                    opened = None
                now[0] += it.choose([0.25, 0.75, 1.75], 'elapsed')
            return r
        for it, out in ctx.explore(body):
            key = 'Wait/%s' % ('default' if ms is None else '%d ms' % ms)
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            for el, st in out[1]:
                ok = st == ('SUCCESS' if el > limit else 'RUNNING')
                ctx.ob(key, ok, '%.2f s after opening: %s' % (el, st), 'b3/actions/wait.py')
    # -- two waiting actions, and one action in two trees, on one blackboard
    for how in ('two actions', 'two trees'):
        def body(it):
            m = b3(it)
            now = [50.0]
            it.user['time'] = lambda: now[0]
            mk = lambda ms: it.call(it.getattr(m, 'Wait'), [ms], {})
            a = mk(1000)
            b = mk(3000) if how == 'two actions' else a
            ta, tb, bb = new_tree(it, a), new_tree(it, b), new_bb(it)
            r = [tick(it, ta, bb)[0]]
            now[0] += 0.75
            r.append(tick(it, tb, bb)[0])
            now[0] += 0.5
            r.append(tick(it, ta, bb)[0])       # 1.25 s after it was opened
            r.append(tick(it, tb, bb)[0])       # 0.5 s after it was opened
            return r
        for it, out in ctx.explore(body):
            ok = out[0] == 'return' and out[1] == ['RUNNING', 'RUNNING', 'SUCCESS', 'RUNNING']
            ctx.ob('Wait/' + how, ok, str(out[1]) if out[0] == 'return' else ctx.outcome_text(out), ctx.where(out))
    # -- two waiting actions under one composite of the same tree, opened at different times
    for la, lb in product((500, 1000, 3000), repeat=2):
        def body(it):
            m = b3(it)
            now = [50.0]
            it.user['time'] = lambda: now[0]
            ws = [it.call(it.getattr(m, 'Wait'), [ms], {}) for ms in (la, lb)]
            got = []

            def par(self, t):
                for i in self.d['which']:
                    got.append((i, now[0], names[it.call(it.getattr(ws[i], '_execute'), [t], {})]))
                return it.user['st']['RUNNING']
            par._binds_self = True
            base = it.getattr(m, 'Composite')
            p = it.call(VClass('Both', [base], {'tick': par}, base.module), [list(ws)], {})
            names = {v: k for k, v in it.user['st'].items()}
            tree, bb = new_tree(it, p), new_bb(it)
            for which, dt in (((0,), 0.75), ((0, 1), 0.5), ((0, 1), 0.75), ((1, 0), 0.25), ((0, 1), 1.5), ((0, 1), 0)):
                p.d['which'] = which
                tick(it, tree, bb)
                now[0] += dt
            return got
        for it, out in ctx.explore(body):
            key = 'Wait/one composite/%d, %d' % (la, lb)
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            opened = {}
            for i, at, st in out[1]:
                t0 = opened.setdefault(i, at)
                limit = (la, lb)[i] / 1000
                ok = st == ('SUCCESS' if at - t0 > limit else 'RUNNING')
                ctx.ob(key, ok, 'action %d, %.2f s after opening: %s' % (i, at - t0, st), 'b3/actions/wait.py')
                if st != 'RUNNING':
                    del opened[i]
    # -- as the waiting step of a sequence
    def body(it):
        m = b3(it)
        now = [7.0]
        it.user['time'] = lambda: now[0]
        cls = stub_class(it)
        w = it.call(it.getattr(m, 'Wait'), [1000], {})
        for n, t in ((w, 'wait'),):
            it.setattr(n, 'Name', t)
            it.setattr(n, 'Cost', 0)
        after = stub(it, cls, 'next', options=('SUCCESS',))
        tree, bb = new_tree(it, it.call(it.getattr(m, 'Sequence'), [[w, after]], {})), new_bb(it)
        r = []
        for _ in range(3):
            st, ev = tick(it, tree, bb)
            r.append((st, len([e for e in ev if e[0] == 'tick'])))
            now[0] += 0.75
        return r
    for it, out in ctx.explore(body):
        ok = out[0] == 'return' and out[1] == [('RUNNING', 0), ('RUNNING', 0), ('SUCCESS', 1)]
        ctx.ob('Wait/in a sequence', ok, str(out[1]) if out[0] == 'return' else ctx.outcome_text(out), ctx.where(out))
