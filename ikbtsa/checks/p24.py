"""Solution sets: the final version equations enumerate every combination of the solutions exactly once."""
from ..poly import Poly, sym, is_zero
from ..solved import *

EXPLANATION = ('Unknowns with one or two symbolic solutions each and every dependency pattern considered are marked '
               'solved through the real code, then create_solution_set and make_LHS_versions are interpreted. Each '
               'tuple of the solution set is resolved through the version equations down to the pose symbols, as '
               'polynomial normal forms, and compared with the values of every combination of solutions: names must '
               'be defined, the tuple must be self-consistent, and the tuples must cover all combinations once.')
RULE = 'one obligation per solution pattern: names defined, tuples complete, combinations covered exactly once'
MIN_OBLIGATIONS = 300


def resolve(name, eqs, memo, depth=0):
    if name in memo:
        return memo[name]
    if depth > 40:
        raise KeyError('circular definition of %s' % name)
    if name not in eqs:
        raise KeyError('%s is not defined by any version equation' % name)
    e = eqs[name]
    sub = {}
    for a in e.symbols():
        if a.name in eqs or VERSION.match(a.name):
            sub[a] = resolve(a.name, eqs, memo, depth + 1)
    memo[name] = e.subs(sub)
    return memo[name]


import re
VERSION = re.compile(r'^(th_\d+|d_\d+)(v|s)\d+$')


def run(ctx):
    W = 'ikbtbasics/ik_classes.py Robot.create_solution_set / make_LHS_versions'
    for spec in specs(ctx.thorough):
        key = ' '.join('%s:%d%s' % (n, k, '(' + ','.join(d) + ')' if d else '') for n, k, d in spec)

        def body(it):
            r = new_robot(it)
            solve_all(it, r, spec)
            it.call(it.getattr(r, 'create_solution_set'), [], {})
            it.call(it.getattr(r, 'make_LHS_versions'), [], {})
            tuples = [it.tolist(t) for t in it.iterate(it.getattr(r, 'solutionSet'))]
            rows = [[(it.getattr(e, 'LHS'), it.getattr(e, 'RHS')) for e in it.tolist(row)]
                    for row in it.tolist(it.getattr(r, 'FinalEqnMatrix'))]
            return tuples, rows, it.getattr(r, 'nversions')
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            tuples, rws, nver = out[1]
            exp = expected_values(spec)
            eqs, dup = {}, None
            for row in rws:
                for l, r in row:
                    n = str(l)
                    if n in eqs and eqs[n] != r:
                        dup = n
                    eqs[n] = Poly.of(r)
            ctx.ob(key + '/one definition per version', dup is None, '%s is defined twice' % dup, W)
            seen = {}
            bad = None
            for t in tuples:
                names = [str(x) for x in t]
                vals = {}
                for n in names:
                    base = re.sub(r'[vs]\d+$', '', n)
                    try:
                        vals[base] = resolve(n, eqs, {})
                    except KeyError as e:
                        bad = 'solution %s: %s' % (names, e.args[0])
                if bad:
                    break
                hits = [ch for ch, v in exp.items() if set(v) == set(vals) and all(is_zero(v[k] - vals[k]) for k in v)]
                if len(hits) != 1 or len(names) != len(spec):
                    bad = 'solution %s is not a consistent choice of one solution per unknown' % (names,)
                    break
                seen.setdefault(hits[0], []).append(names)
            ctx.ob(key + '/consistent tuples', bad is None, bad or '', W)
            if bad is None:
                lost = [c for c in exp if c not in seen]
                twice = [c for c, v in seen.items() if len(v) > 1]
                ctx.ob(key + '/all combinations', not lost and not twice,
                       '%d of %d combinations lost, %d repeated' % (len(lost), len(exp), len(twice)), W)
            ctx.ob(key + '/row count', nver == len(exp) == len(rws), '%s version rows for %d combinations' % (nver, len(exp)), W)
