"""The kinematics cache never supplies the kinematics of another robot description."""
from .. import program
from ..kin import *
from ..poly import sym, is_zero

EXPLANATION = ('kinematics_pickle is interpreted over a model of the file system (a pickle holds a deep copy of what was '
               'dumped): a first call fills the cache, a second call of the same program or with one element of the '
               'description changed (each table cell, the number of rows, each joint type, parameter values, name) '
               'reads it, followed by the documented check_the_pickle. The result must be the result of a computation '
               'from the arguments of the second call, or the program must stop. '
               'Both main programs are interpreted with a kinematics file under the name of their robot that was stored for another '
               'table or other joint types: they must stop before they write a result.')
RULE = 'one obligation per changed element: result equals a fresh computation, or the run stops'
MIN_OBLIGATIONS = 50
W = 'ikbtbasics/ik_classes.py kinematics_pickle / check_the_pickle'


def description():
    h = PI / 2
    dh = [[0, 0, sym('d_1'), 0], [-h, sym('a_1'), 0, sym('th_2')], [sym('al_2'), 0, sym('l_3'), sym('th_3')],
          [h, 0, 0, sym('th_4')], [0, 0, 0, 0], [0, 0, 0, 0]]
    return {'name': 'Robby', 'dh': dh, 'vv': [0, 1, 1, 1, 1, 1], 'params': [sym('a_1'), sym('l_3'), sym('al_2')],
            'pvals': {sym('a_1'): 5, sym('l_3'): 7, sym('al_2'): 2}, 'unks': ['d_1', 'th_2', 'th_3', 'th_4']}


def compute(it, d, check=0):
    k, c = it.import_module('ikbtbasics.kin_cl'), it.import_module('ikbtbasics.ik_classes')
    unks = [it.call(it.getattr(k, 'unknown'), [sym(n)], {}) for n in d['unks']]
    dh = VMatrix([list(r) for r in d['dh']])
    m, r, u = it.tolist(it.call(it.getattr(c, 'kinematics_pickle'),
                                [d['name'], dh, list(d['params']), dict(d['pvals']), list(d['vv']), unks, False], {}))
    if check:
        mdh = it.getattr(m, 'DH')
        it.call(it.getattr(c, 'check_the_pickle'), [mdh, dh] if check == 1 else [dh, mdh], {})
    return m, r, u


def content(it, d, m, r, u):
    """everything later stages read from the triple"""
    mats = {n: rows(it.getattr(m, n)) for n in ('T_01', 'T_12', 'T_23', 'T_34', 'T_45', 'T_56', 'T_06', 'J66')}
    g = lambda o, n: it.getattr(o, n)
    return {
        'DH': rows(g(m, 'DH')), 'joint types': it.tolist(g(m, 'vv')), 'name': g(r, 'name'),
        'parameters': sorted(str(x) for x in it.tolist(g(m, 'params'))),
        'parameter values': {str(a): str(b) for a, b in g(m, 'pvals').items()},
        'matrices': mats, 'own mechanism': g(r, 'Mech') is m,
        'equations': [(rows(g(e, 'Td')), rows(g(e, 'Ts'))) for e in it.tolist(g(r, 'mequation_list'))],
        'aux equations': sorted(str(e) for e in it.tolist(g(r, 'kequation_aux_list'))),
        'unknowns': [g(x, 'name') for x in it.tolist(u)], 'solved': [g(x, 'solved') for x in it.tolist(u)],
        'sum of angles scan': [g(x, 'name') for x in it.tolist(u)].count('th_23'),
        'limits': (g(r, 'min_index'), g(r, 'max_index')),
    }


SUMS = ['th_23', 'th_34', 'th_234', 'th_45']


def soa(it, f, args, kw):
    r, u = args[0], args[1]
    k = it.import_module('ikbtbasics.kin_cl')
    for name in SUMS:
        n = it.call(it.getattr(k, 'unknown'), [sym(name)], {})
        e = Poly.const(0)
        for c in name[3:]:
            e = e + sym('th_' + c)
        it.getattr(r, 'kequation_aux_list').append(it.call(it.getattr(k, 'kequation'), [sym(name), e], {}))
        u.append(n)
    return None


def differs(a, b):
    for k in a:
        x, y = a[k], b[k]
        if k == 'matrices':
            for n in x:
                w = same(x[n], y[n])
                if w:
                    return '%s %s' % (n, w)
        elif k == 'equations':
            if len(x) != len(y):
                return 'number of matrix equations'
            for (p, q), (s, t) in zip(x, y):
                if same(p, s) or same(q, t):
                    return 'a matrix equation'
        elif k == 'DH':
            if same(x, y):
                return 'DH table: %s' % same(x, y)
        elif x != y:
            return '%s: %s instead of %s' % (k, x, y)
    return None


def variants(d):
    import copy
    def v(label, f):
        n = {k: (dict(x) if isinstance(x, dict) else [list(r) if isinstance(r, list) else r for r in x] if isinstance(x, list) else x)
             for k, x in d.items()}
        f(n)
        return label, n
    out = [v('same description again', lambda n: None), v('another robot name', lambda n: n.update(name='Robby2'))]
    # names that differ in one respect only, each with other joint parameters under it
    for name in ('robby', 'ROBBY', 'Robby_2', 'Robby-2', 'Robby.2', 'Robby 2', 'Rob', 'Robbyrobby', 'ybboR', 'R2', 'Robby_pickle', 'Robby_'):
        out.append(v('another robot name %r' % name, lambda n, name=name: n.update(name=name)))
        out.append(v('another robot name %r and parameters' % name, lambda n, name=name: (n.update(name=name), n['pvals'].__setitem__(sym('a_1'), 77))))
    for k in range(1, 6):
        out.append(v('prismatic joint at place %d' % (k + 1), lambda n, k=k: n.update(vv=[0 if i == k else 1 for i in range(6)])))
    for i in range(6):
        for j in range(4):
            def f(n, i=i, j=j):
                if j == 0:
                    n['dh'][i][j] = PI / 2 if i in (0, 2, 4) else PI
                else:
                    n['dh'][i][j] = P(n['dh'][i][j]) + (sym('a_1') if j in (1, 2) else PI)
            out.append(v('table cell [%d,%d] changed' % (i, j), f))
        out.append(v('type of joint %d changed' % (i + 1), lambda n, i=i: n['vv'].__setitem__(i, 1 - n['vv'][i])))
    for p in d['params']:
        out.append(v('value of %s changed' % p, lambda n, p=p: n['pvals'].__setitem__(p, 99)))
    return out


def other_tables(dh, vv):
    """(label, table, joint types) of robots that are not the one of the catalogue"""
    n = [list(r) for r in dh]
    k = max([i for i, t in enumerate(vv) if t == 1] or [0])
    for i, j, d in ((0, 2, sym('d_9')), (k, 0, PI / 2), (5, 1, sym('a_9')), (1, 3, PI / 2)):
        m = [list(r) for r in n]
        m[i][j] = P(m[i][j]) + d
        yield 'table cell [%d,%d] differs' % (i, j), m, list(vv)
    yield 'type of joint %d differs' % (k + 1), n, [1 - t if i == k else t for i, t in enumerate(vv)]


def programs(ctx):
    ic = {'ikbtbasics.ik_classes.Robot.sum_of_angles_transform': lambda it, f, a, k: None,
          program.ASSIGN: lambda it, f, a, k: it.getattr(it.import_module('b3'), 'FAILURE')}

    def one(job):
        prog, name, n = job

        def body(it):
            program.prepare(it, [prog + '.py', name])
            m = it.import_module('ikbtfunctions.ik_robots')
            c = it.import_module('ikbtbasics.ik_classes')
            dh, vv, params, pvals, unks = it.tolist(it.call(it.getattr(m, 'robot_params'), [name], {}))
            it.user['label'], table, types = list(other_tables(rows(dh), it.tolist(vv)))[n]
            it.call(it.getattr(c, 'kinematics_pickle'), [name, VMatrix(table), params, pvals, types, unks, False], {})
            it.user['stored'] = sorted(it.files)
            it.import_module(prog)
        for it, out in ctx.explore(body, fuel=10 ** 8, intercepts=ic):
            key = '%s.py %s/%s' % (prog, name, it.user.get('label', n))
            new = sorted(set(it.files) - set(it.user.get('stored', ())))
            stops = out[0] == 'raise' and out[1].name() == 'SystemExit'
            ctx.ob(key, stops and not new, 'the program goes on with the stored kinematics of another table (%s, wrote %s)' %
                   ('it stops' if stops else 'it runs on', new or 'nothing'), prog + '.py')
    names = program.robots(ctx)
    ctx.need(len(names) >= 5, 'fewer than five robots in the catalogue')
    names = names if ctx.thorough else names[::7]
    ctx.each([(p, r, n) for p in ('ikSolver', 'fkOnly') for r in names for n in range(5)], one)


def run(ctx):
    base = description()
    ic = {'ikbtbasics.ik_classes.Robot.sum_of_angles_transform': soa}

    def setup(it):
        it.user['fs'] = True
    vs = variants(base)

    def one(job):
        k, order = job
        label, d2 = vs[k]
        def body(it):
            setup(it)
            compute(it, base)
            x = content(it, d2, *compute(it, d2, order))
            return x

        def fresh(it):
            setup(it)
            return content(it, d2, *compute(it, d2))
        want = None
        for it, out in ctx.explore(fresh, fuel=6000000, intercepts=ic):
            if out[0] != 'return':
                ctx.ob(label + '/first computation', False, ctx.outcome_text(out), ctx.where(out))
            else:
                want = out[1]
                ok = same(want['DH'], d2['dh']) is None and want['joint types'] == d2['vv'] and want['name'] == d2['name'] and want['own mechanism'] \
                    and want['unknowns'] == d2['unks'] + SUMS and all(want['parameter values'].get(str(k)) == str(v) for k, v in d2['pvals'].items()) \
                    and set(map(str, d2['params'])) <= set(want['parameters'])
                ctx.ob(label + '/first computation', ok, 'the computed robot is not the one described: %s' % {k: want[k] for k in want if k not in ('matrices', 'equations')}, W)
        if want is None:
            return
        for it, out in ctx.explore(body, fuel=6000000, intercepts=ic):
            key = label + '/cached'
            if out[0] == 'raise' and out[1].name() == 'SystemExit':
                ctx.ob(key, label != 'same description again' and not label.startswith('another robot name') and not label.startswith('value of'),
                       'the run stops although the stored kinematics are usable', W)
                continue
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            w = differs(out[1], want)
            ctx.ob(key, w is None, 'loaded kinematics differ from computed ones: %s' % w, W)
    ctx.each([(k, o) for k in range(len(vs)) for o in (1, 2)], one)
    programs(ctx)
    # a table with another number of rows
    for dr in (5, 7):
        def body(it):
            c = it.import_module('ikbtbasics.ik_classes')
            a, b = [VMatrix([list(r) for r in (base['dh'] + [[0, 0, 0, 0]])[:n]]) for n in (6, dr)]
            it.call(it.getattr(c, 'check_the_pickle'), [a, b], {})
        for it, out in ctx.explore(body):
            ctx.ob('table of %d rows' % dr, out[0] == 'raise' and out[1].name() == 'SystemExit', 'a table with another number of rows is accepted: %s' % ctx.outcome_text(out), W)
