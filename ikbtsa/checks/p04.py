"""Blackboard scoping."""
from ..bt import *

EXPLANATION = ('Effect analysis of the blackboard: every sequence of at most k writes/increments over keys and scopes '
               '(global, per tree, per node of a tree) is interpreted abstractly with opaque values, and the complete '
               'read-back of all (key, scope) cells is compared with a store that keeps the cells independent.')
RULE = 'one obligation per operation sequence and cell read back'
ASSUMPTIONS = ['keys used internally for bookkeeping are not used by clients',
               'cells are independent dictionary entries, so sequences longer than the bound add no interference']
MIN_OBLIGATIONS = 2000

SCOPES = [(), ('t1',), ('t2',), ('t1', 'n1'), ('t1', 'n2'), ('t2', 'n1')]
KEYS = ['k', 'j']
ODD = [(), ('',), (0,), ('t1',), ('', ''), ('t1', ''), ('t1', 0), (0, 'n1')]
FALSY = [0, '', False, None, 0.0]


def run(ctx):
    from ..poly import anyexpr
    cells = [(k, s) for k in KEYS for s in SCOPES]
    names = ['t1', 'n1', 'k']           # keys that are also the names of scopes
    ops = [('set', k, s) for k in KEYS for s in SCOPES]

    def drive(it, seq):
        b3(it)
        bb = new_bb(it)
        ref = {}
        vals = 0
        for op, k, s, *more in seq:
            vals += 1
            if op == 'put':
                it.call(it.getattr(bb, 'set'), [k, FALSY[more[0]]] + list(s), {})
                ref[(k, s)] = FALSY[more[0]]
                continue
            v = anyexpr('v%d' % vals) if op == 'set' else vals
            if op == 'set' or op == 'seti':
                it.call(it.getattr(bb, 'set'), [k, v] + list(s), {})
                ref[(k, s)] = v
            elif op == 'inc':
                it.call(it.getattr(bb, 'inc'), [k, v] + list(s), {})
                ref[(k, s)] = ref[(k, s)] + v
            elif op == 'incn':
                it.call(it.getattr(bb, 'inc'), [k, -5] + list(s), {})
                ref[(k, s)] = ref[(k, s)] - 5
        cells = [(k, s) for k in (names if any(o[1] in names[:2] for o in seq) else KEYS) for s in (SCOPES if all(o[2] in SCOPES for o in seq) else ODD)]
        got = {}
        for k, s in cells:
            got[(k, s)] = it.call(it.getattr(bb, 'get'), [k] + list(s), {})
        got2 = {c: it.call(it.getattr(bb, 'get'), [c[0]] + list(c[1]), {}) for c in cells}
        return ref, got, got2

    seqs = [()] + [(a,) for a in ops] + [(a, b) for a in ops for b in ops]
    ints = [('seti', k, s) for k, s in cells]
    seqs += [(a, b, ('inc', a[1], a[2])) for a in ints for b in ints]
    # falsy scope names and values are scopes and values like any other
    odd, falsy = ODD, FALSY
    seqs += [(('set', 'k', a), ('set', 'k', b)) for a in odd for b in odd]
    seqs += [(('seti', 'k', a), ('seti', 'k', b), ('inc', 'k', a)) for a in odd for b in odd]
    seqs += [(('put', 'k', s, i), ) for s in SCOPES[:4] for i in range(len(falsy))]
    seqs += [(('set', 'k', s), ('put', 'k', s, i)) for s in SCOPES[:4] for i in range(len(falsy))]
    seqs += [(('set', 'k', s), ('put', 'k', z, i)) for s in SCOPES for z in SCOPES[:4] for i in (0, 3) if s != z]
    seqs += [(('set', a, s), ('set', b, z)) for a in names for b in names for s in SCOPES for z in SCOPES if a != 'k' or b != 'k']
    seqs += [(('put', 'k', s, 0), ('inc', 'k', s), ('incn', 'k', s)) for s in SCOPES]
    if ctx.thorough:
        seqs += [(a, b, c) for a in ops for b in ops for c in ops if a[1] == 'k']
    for seq in seqs:
        for it, out in ctx.explore(lambda it: drive(it, seq)):
            key = 'cells/' + ('inc' if any(o[0] in ('inc', 'incn') for o in seq) else 'set')
            if out[0] != 'return':
                ctx.ob(key, False, '%s: %s' % (seq, ctx.outcome_text(out)), ctx.where(out))
                continue
            ref, got, got2 = out[1]
            for c in got:
                ctx.ob(key, got[c] == ref.get(c) and got2[c] == ref.get(c) and type(got[c]) is type(ref.get(c)),
                       'after %s: cell %s reads %r, expected %r' % (seq, c, got[c], ref.get(c)), 'b3.Blackboard')
