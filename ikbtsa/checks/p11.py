"""Completion detection."""
from ..leaf import *
from itertools import product

EXPLANATION = ('The completion detector is interpreted for every assignment of solved and unsolved to up to five unknowns, and for up to ten unknowns with at most two unlike the others, at both '
               'settings of its inversion flag; its status decides when the solver stops.')
RULE = 'one obligation per assignment: success exactly when all unknowns are solved (inverted with the flag), nothing changed'
MIN_OBLIGATIONS = 60
W = 'ikbtleaves/comp_detect.py'


def few(n):
    """none, one or two of one kind, at every place; and every prefix"""
    out = {tuple(i < k for i in range(n)) for k in range(n + 1)}
    for i in range(n):
        for j in range(i, n):
            p = tuple(k in (i, j) for k in range(n))
            out |= {p, tuple(not x for x in p)}
    return sorted(out)


def run(ctx):
    names = ['th_1', 'th_2', 'd_3', 'th_4', 'th_23', 'th_5', 'th_6', 'd_7', 'th_12', 'th_34']
    for n in range(1, 11):
        full = n < (8 if ctx.thorough else 6)
        for pat in product((False, True), repeat=n) if full else few(n):
            for flag in (None, True, False):
                key = '%s/%s' % (''.join('S' if p else 'u' for p in pat), {None: 'default', True: 'inverted', False: 'plain'}[flag])

                def body(it):
                    m = [nm for nm, p in zip(names, pat) if not p]
                    s = [nm for nm, p in zip(names, pat) if p]
                    first = (m + s)[0]
                    bb, R, UU = scene(it, first, [x for x in m if x != first], [x for x in s if x != first], [], [])
                    if not m:
                        solve(it, R, list(UU.values()), UU[first], [sym('r_11')])
                    it.call(it.getattr(bb, 'set'), ['unknowns', [UU[nm] for nm in names[:n]]], {})
                    for i, x in enumerate(m):             # work in progress is not a solution
                        if (i + n) % 2:
                            for a, v in (('readytosolve', True), ('solvable_tan', True), ('solvable_sincos', True), ('solvemethod', 'arcsin'), ('solutions', [sym('r_12')]), ('nsolutions', 1)):
                                it.setattr(UU[x], a, v)
                    before = {k: snap(it, y) for k, y in UU.items()}
                    c = node(it, 'ikbtleaves.comp_detect', 'comp_det')
                    if flag is not None:
                        it.setattr(c, 'FailAllDone', flag)
                    st, _ = bt.tick(it, bt.new_tree(it, c), bb)
                    us = it.call(it.getattr(bb, 'get'), ['unknowns'], {})
                    return st, all(snap(it, y) == before[k] for k, y in UU.items()) and [it.getattr(y, 'name') for y in it.tolist(us)] == names[:n]
                for it, out in ctx.explore(body):
                    if out[0] != 'return':
                        ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                        continue
                    st, frame = out[1]
                    want = 'SUCCESS' if all(pat) != bool(flag) else 'FAILURE'
                    ctx.ob(key, st == want, 'status %s with %d of %d solved' % (st, sum(pat), n), W)
                    ctx.ob(key + '/frame', frame, 'the unknowns were changed', W)
