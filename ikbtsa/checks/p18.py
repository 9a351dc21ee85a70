"""Robot catalogue: every offered robot is a complete, consistent description."""
import ast
from ..kin import *
from ..poly import sym, Atom

EXPLANATION = ('robot_params is interpreted for every string constant of its source as robot name (so every catalogue '
               'entry and every branch is covered). For each accepted name the returned Denavit-Hartenberg table, '
               'joint types, parameters, parameter values and unknowns are checked against each other symbolically: '
               'shape, joint flags, position and uniqueness of each unknown, numbering, and that every symbol of the '
               'table is an unknown or a parameter with a value. Names with a branch but no catalogue entry, and '
               'entries without a branch, are reported.')
RULE = 'one obligation per robot and consistency rule'
MIN_OBLIGATIONS = 250


def candidates(tree):
    names, described = set(), set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name == 'robot_params':
            par = f.args.args[0].arg if f.args.args else None
            for n in ast.walk(f):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    names.add(n.value)
                if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id == par and \
                        len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(n.comparators[0], ast.Constant):
                    described.add(n.comparators[0].value)
    for n in ast.walk(tree):                      # tables moved out of the function still offer their keys
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 20 and ' ' not in n.value:
            names.add(n.value)
    return names, described


def run(ctx):
    src = ctx.project.find('ikbtfunctions.ik_robots')
    ctx.need(src is not None, 'ikbtfunctions/ik_robots.py is gone')
    names, described = candidates(src[0])
    accepted = []
    W = 'ikbtfunctions/ik_robots.py robot_params'
    for name in sorted(names) + ['no such robot', '']:
        def body(it):
            m = it.import_module('ikbtfunctions.ik_robots')
            r = it.tolist(it.call(it.getattr(m, 'robot_params'), [name], {}))
            dh, vv, params, pvals, unks = r
            return (rows(dh), it.tolist(vv), it.tolist(params), dict(pvals),
                    [(it.getattr(u, 'symbol'), it.getattr(u, 'name'), it.getattr(u, 'n'), it.getattr(u, 'solved')) for u in it.tolist(unks)])
        for it, out in ctx.explore(body):
            rejected = out[0] == 'raise' and out[1].name() == 'SystemExit'
            if rejected:
                if name in described:
                    ctx.ob('%s/offered' % name, False, 'robot %r is described but not in the catalogue: it is rejected as unknown' % name, W)
                continue
            if name not in described and out[0] == 'raise' and name not in names:
                ctx.ob('unknown name %r' % name, False, 'an unknown name is not rejected: ' + ctx.outcome_text(out), W)
                continue
            if out[0] != 'return':
                ctx.ob('%s/described' % name, False, 'offered robot has no usable description: ' + ctx.outcome_text(out), W)
                continue
            if name in ('no such robot', ''):
                ctx.ob('unknown name %r' % name, False, 'an unknown name is accepted', W)
                continue
            accepted.append(name)
            robot_rules(ctx, name, W, *out[1])
    ctx.ob('unknown names are rejected', True)
    ctx.extra['robots'] = accepted


def robot_rules(ctx, name, W, dh, vv, params, pvals, unks):
    def ob(rule, ok, msg):
        ctx.ob('%s/%s' % (name, rule), ok, '%s: %s' % (name, msg), W)
    ob('table shape', len(dh) == 6 and all(len(r) == 4 for r in dh), 'the DH table is not 6x4')
    ob('joint types', len(vv) == 6 and all(v in (0, 1) for v in vv), 'joint types %s: must be six flags 0/1' % (vv,))
    if len(dh) != 6 or any(len(r) != 4 for r in dh) or len(vv) < 6:
        return
    syms = [P(u[0]).as_atom() for u in unks]
    ob('unknowns', len(unks) > 0 and all(a is not None and a.kind == 'sym' for a in syms) and len(set(syms)) == len(syms),
       'the unknowns are not distinct symbols: %s' % ([u[0] for u in unks],))
    ob('unknown names', all(u[1] == a.name and not u[3] for u, a in zip(unks, syms)), 'an unknown is misnamed or already solved')
    ob('numbering', [u[2] for u in unks] == list(range(1, len(unks) + 1)), 'unknowns are numbered %s' % ([u[2] for u in unks],))
    where = []
    for a in syms:
        cells = [(i, j) for i in range(6) for j in range(4) if a in P(dh[i][j]).atoms()]
        where.append(cells)
        ok = len(cells) == 1 and cells[0][1] == (3 if vv[cells[0][0]] == 1 else 2) and \
            is_zero(P(dh[cells[0][0]][cells[0][1]]).derivative(a) - 1)
        ob('place of ' + a.name, ok, '%s must occur once, in the %s column of its joint (found in cells %s, joint types %s)' % (
            a.name, 'theta (revolute) or d (prismatic)', cells, vv))
    rowsq = [c[0][0] for c in where if c]
    ob('joint order', rowsq == sorted(rowsq), 'unknowns are not listed in joint order')
    patoms = {P(p).as_atom() for p in params}
    used = {a for r in dh for x in r for a in P(x).symbols() if a.name not in ('pi', 'I')}
    missing = sorted(a.name for a in used - patoms - set(syms))
    ob('declared symbols', not missing, 'table symbols neither unknown nor parameter: %s' % missing)
    ob('parameters are not unknowns', not (patoms & set(syms)), 'a parameter is also an unknown')
    vals = {P(k).as_atom(): v for k, v in pvals.items()}
    nov = sorted(a.name for a in (used - set(syms)) if a not in vals or not is_num(vals[a]))
    ob('parameter values', not nov, 'table parameters without a numeric value: %s' % nov)


def is_num(v):
    try:
        return not {a for a in P(v).symbols() if a.name != 'pi'}
    except TypeError:
        return False
