"""Every name, module attribute and call signature used by the solver resolves, whatever is imported first."""
import ast
import re
import builtins
from ..interp import VModule, VFunc, VClass

EXPLANATION = ('Every module of the behaviour-tree library and the solver packages is interpreted as the first import of a fresh program '
               '(star imports and circular imports take effect in order, names injected by sympy.var included). For the resulting name '
               'spaces every function is scanned: each global name it reads, each attribute it takes from a project module, each call of '
               'a project function or class, and each local variable must resolve.')
RULE = 'one obligation per first import, function and name: bound; attribute of a project module exists; arguments fit the parameters; a local has a reaching assignment'
MIN_OBLIGATIONS = 2000


def bases(c):
    return {getattr(b, 'attr', None) or getattr(b, 'id', None) for b in c.bases}


def functions(tree):
    """(qualified name, function) outside tests and script sections"""
    out = []

    def rec(body, q):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                out.append((q + n.name, n))
            elif isinstance(n, ast.ClassDef):
                if 'TestCase' not in bases(n) and not n.name.lower().startswith('test'):
                    rec(n.body, q + n.name + '.')
            elif isinstance(n, ast.If):
                t = n.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__':
                    rec(n.orelse, q)
                else:
                    rec(n.body, q), rec(n.orelse, q)
            elif isinstance(n, ast.Try):
                rec(n.body, q), rec(n.orelse, q), rec(n.finalbody, q)
            elif isinstance(n, (ast.For, ast.While, ast.With)):
                rec(n.body, q)
    rec(tree.body, '')
    return out


def params(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)


def own(fn):
    """nodes of a function's own scope; nested scopes are reported, not entered"""
    inner = []

    def walk(n, top=False):
        if isinstance(n, SCOPES) and not top:
            inner.append(n)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    yield from walk(d)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                yield from walk(n.generators[0].iter)
            yield n
            return
        yield n
        for c in ast.iter_child_nodes(n):
            yield from walk(c)
    body = fn.body if isinstance(getattr(fn, 'body', None), list) else [fn]
    nodes = []
    if isinstance(fn, ast.Lambda):
        nodes = list(walk(fn.body))
    elif isinstance(fn, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        parts = [fn.elt] if hasattr(fn, 'elt') else [fn.key, fn.value]
        for k, g in enumerate(fn.generators):
            parts += [g.target] + g.ifs + ([g.iter] if k else [])
        for p in parts:
            nodes += list(walk(p))
    else:
        for b in body:
            nodes += list(walk(b))
    return nodes, inner


def captures(p):
    """names a match pattern binds"""
    return {x for n in ast.walk(p) for x in (getattr(n, 'name', None) if isinstance(n, (ast.MatchAs, ast.MatchStar)) else
                                             getattr(n, 'rest', None) if isinstance(n, ast.MatchMapping) else None,) if x}


def bound(fn, nodes):
    b, gl = set(), set()
    if hasattr(fn, 'args'):
        b |= set(params(fn.args))
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            b.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            b.add(n.name)
        elif isinstance(n, ast.pattern):
            b |= captures(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            b |= {(a.asname or a.name).split('.')[0] for a in n.names}
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            gl |= set(n.names)
    return b - gl


def var_literals(fn):
    """names a call sympy.var('...') in this function adds to the module"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and (getattr(n.func, 'attr', None) or getattr(n.func, 'id', None)) == 'var' and n.args:
            if isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                out |= set(n.args[0].value.replace(',', ' ').split())
    return out


def globals_read(fn):
    """{name: first line} of the global names a function and its nested scopes read; (node, visible local names) of their calls and attributes"""
    used, sites = {}, []
    inj = var_literals(fn)

    def visit(f, outer):
        nodes, inner = own(f)
        sc = outer | bound(f, nodes)
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in sc and n.id not in inj:
                used.setdefault(n.id, n.lineno)
            if isinstance(n, (ast.Call, ast.Attribute)):
                sites.append((n, sc))
        for n in inner:
            if not isinstance(n, ast.ClassDef):
                visit(n, sc)
    visit(fn, set())
    return used, sites


def assigned_at_module(tree):
    """names that some function declares global and assigns"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    return out


class Unbound(ast.NodeVisitor):
    """local variables read where no assignment of them can have been executed"""
    def __init__(self, fn):
        nodes, _ = own(fn)
        self.locals = bound(fn, nodes) - set(params(fn.args))
        self.bad = {}
        self.n = 0
        self.block(fn.body, set(), [])

    def use(self, e, st):
        if e is None:
            return
        for n in walk_expr(e):
            if isinstance(n, ast.NamedExpr):
                st.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals:
                self.n += 1
                if n.id not in st:
                    self.bad.setdefault(n.id, n.lineno)

    def store(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)):
                self.use(n, st)

    def block(self, body, st, loops):
        """maybe-assigned names after the block; None if control never leaves it normally"""
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, loops)
        return st

    def join(self, *ss):
        ss = [s for s in ss if s is not None]
        return set().union(*ss) if ss else None

    def stmt(self, s, st, loops):
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.store(t, st)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals and s.target.id not in st:
                    self.bad.setdefault(s.target.id, s.lineno)
            self.store(s.target, st)
        elif isinstance(s, ast.AnnAssign):
            self.use(s.value, st)
            if s.value is not None:
                self.store(s.target, st)
        elif isinstance(s, (ast.Expr, ast.Return)):
            self.use(s.value, st)
            if isinstance(s, ast.Return):
                return None
        elif isinstance(s, ast.Raise):
            self.use(s.exc, st)
            return None
        elif isinstance(s, ast.Assert):
            self.use(s.test, st)
        elif isinstance(s, ast.If):
            self.use(s.test, st)
            return self.join(self.block(s.body, set(st), loops), self.block(s.orelse, set(st), loops))
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.use(s.iter, st)
            exits = []
            cur = set(st)
            for _ in range(2):
                if isinstance(s, ast.While):
                    self_bad = dict(self.bad)
                    self.use(s.test, cur)
                b = set(cur)
                if isinstance(s, ast.For):
                    self.store(s.target, b)
                frame = {'break': [], 'continue': []}
                keep = dict(self.bad)
                b = self.block(s.body, b, loops + [frame])
                nxt = self.join(cur, b, *frame['continue'])
                exits = frame['break']
                if nxt == cur:
                    break
                self.bad = keep          # a later iteration may see assignments of an earlier one: judged in the second pass
                cur = nxt
            after = self.block(s.orelse, set(cur), loops)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            return self.join(None if forever else after, *exits)
        elif isinstance(s, ast.Match):
            self.use(s.subject, st)
            outs, cur = [], set(st)
            for c in s.cases:
                b = set(cur) | captures(c.pattern)
                self.use(c.guard, b)
                outs.append(self.block(c.body, set(b), loops))
                cur |= captures(c.pattern)            # a failing guard leaves its captures bound
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    cur = None
                    break
            return self.join(cur, *outs)
        elif isinstance(s, ast.Break):
            loops[-1]['break'].append(set(st))
            return None
        elif isinstance(s, ast.Continue):
            loops[-1]['continue'].append(set(st))
            return None
        elif isinstance(s, ast.Try):
            stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            stored |= {(a.asname or a.name).split('.')[0] for b in s.body for n in ast.walk(b) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            b = self.block(s.body, set(st), loops)
            b = self.block(s.orelse, b, loops) if b is not None else None
            hs = []
            for h in s.handlers:
                e = set(st) | stored | ({h.name} if h.name else set())
                hs.append(self.block(h.body, e, loops))
            out = self.join(b, *hs)
            if s.finalbody:
                f = self.block(s.finalbody, set(st) | stored | (out or set()), loops)
                return None if out is None or f is None else f
            return out
        elif isinstance(s, ast.With):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            return self.block(s.body, st, loops)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st |= {(a.asname or a.name).split('.')[0] for a in s.names}
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.use(t, st)
        elif not isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return set(self.locals)          # other statements: nothing claimed afterwards
        return st


def walk_expr(e):
    yield e
    if isinstance(e, SCOPES):
        return
    for c in ast.iter_child_nodes(e):
        yield from walk_expr(c)


def signature_error(f, call, skip):
    """why a call cannot bind to a project function, or None"""
    a = f.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if len(call.args) > len(pos) and not a.vararg:
        return '%d positional arguments for %d parameters' % (len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg in given:
            return 'two values for %s' % k.arg
        if k.arg not in names and not a.kwarg:
            return 'unexpected argument %s' % k.arg
        given.add(k.arg)
    req = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [r for r in req if r not in given]
    return 'no value for %s' % ', '.join(miss) if miss else None


def resolve(e, ns):
    """value of a dotted name through project modules; (found, value)"""
    if isinstance(e, ast.Name):
        return (True, ns[e.id]) if e.id in ns else (False, None)
    if isinstance(e, ast.Attribute):
        ok, v = resolve(e.value, ns)
        if ok and isinstance(v, VModule) and e.attr in v.ns:
            return True, v.ns[e.attr]
    return False, None


def root_name(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def find_init(c):
    f, _ = c.lookup('__init__')
    return f if isinstance(f, VFunc) else None


class Attributes:
    """attribute names some statement of the project gives to some object"""
    def __init__(self):
        self.names, self.patterns = set(), []

    def __contains__(self, n):
        return n in self.names or any(re.fullmatch(p, n) for p in self.patterns)


def name_pattern(e):
    """regular expression of the names an expression can be"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return re.escape(e.value)
    if isinstance(e, ast.JoinedStr):
        return ''.join(re.escape(v.value) if isinstance(v, ast.Constant) else r'\w*' for v in e.values)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return name_pattern(e.left) + name_pattern(e.right)
    return r'\w*'


def stored_attributes(project, mods):
    """attribute names some statement of the project assigns (to any object), and class-level names"""
    out = Attributes()
    for m in mods:
        for n in ast.walk(project.find(m)[0]):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.names.add(n.attr)
            elif isinstance(n, ast.Call) and (getattr(n.func, 'id', '') == 'setattr' or getattr(n.func, 'attr', '') == '__setattr__') and len(n.args) > 1:
                out.patterns.append(name_pattern(n.args[-2]))
            elif isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('namedtuple', 'make_dataclass'):
                out.names |= {w for a in n.args for c in ast.walk(a) if isinstance(c, ast.Constant) and isinstance(c.value, str) for w in c.value.replace(',', ' ').split()}
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and (
                    getattr(n.func.value, 'attr', '') == '__dict__' or isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'vars'):
                out.patterns.append(r'\w*')
            elif isinstance(n, ast.ClassDef):
                out.names |= {b.target.id for b in n.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)}
    return out


def self_attributes(cls, fn, stored):
    """attributes of the first parameter that neither the class nor any assignment defines"""
    if not fn.args.args or any(getattr(d, 'id', '') in ('staticmethod', 'classmethod') for d in fn.decorator_list):
        return []
    me = fn.args.args[0].arg
    bad = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
            v, _ = cls.lookup(n.attr)
            if v is None and n.attr not in stored and not hasattr(object, n.attr) and n.attr != '__dict__':
                bad.append('%s (line %d)' % (n.attr, n.lineno))
    return bad


def script_imports(project):
    """modules that the main program imports"""
    out = []
    r = project.find('ikSolver')
    for n in ast.walk(r[0]):
        if isinstance(n, ast.ImportFrom) and n.module:
            out.append(n.module)
        elif isinstance(n, ast.Import):
            out += [a.name for a in n.names]
    return [m for m in out if project.is_local(m) and project.path_of(m)]


def run(ctx):
    needed = script_imports(ctx.project)
    ctx.need(len(needed) > 10, 'the main program imports too few project modules: %s' % needed)
    mods = []
    for m in ctx.project.all_modules(extra=()):
        try:
            ctx.project.find(m)
            mods.append(m)
        except SyntaxError as e:         # a legacy file nobody imports does not matter; a needed one does
            if m in needed:
                ctx.ob('%s/parses' % m, False, e, m)
    stored = stored_attributes(ctx.project, mods)
    ctx.each(mods, lambda m: first_import(ctx, m, stored))
    for m in mods:
        tree, path = ctx.project.find(m)
        for q, f in functions(tree):
            u = Unbound(f)
            ctx.ob('%s/%s/locals' % (m, q), not u.bad, 'read before any assignment: %s' % ', '.join('%s (line %d)' % x for x in sorted(u.bad.items())), '%s:%s' % (path, q))


def first_import(ctx, entry, stored):
    def body(it):
        it.import_module(entry)
        return {n: m for n, m in it.modules.items() if isinstance(m, VModule)}
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob('%s first/import' % entry, False, ctx.outcome_text(out), ctx.where(out))
            continue
        ctx.ob('%s first/import' % entry, True)
        for m, mod in sorted(out[1].items()):
            r = ctx.project.find(m)
            if r is None:
                continue
            tree, path = r
            ns = mod.ns
            later = assigned_at_module(tree)
            for q, f in functions(tree):
                used, sites = globals_read(f)
                ctx.functions.add(m + '.' + q)
                key = '%s first/%s/%s' % (entry, m, q)
                miss = ['%s (line %d)' % (n, ln) for n, ln in sorted(used.items()) if n not in ns and n not in later and not hasattr(builtins, n)]
                ctx.ob(key + '/names', not miss, 'unbound: ' + ', '.join(miss), '%s:%s' % (path, q))
                bad = []
                if entry == m and q.count('.') == 1 and isinstance(ns.get(q.split('.')[0]), VClass):
                    bad += ['the object has no attribute ' + x for x in self_attributes(ns[q.split('.')[0]], f, stored)]
                for n, sc in sites:
                    if isinstance(n, ast.Attribute):
                        if root_name(n) in sc:
                            continue
                        ok, v = resolve(n.value, ns)
                        if ok and isinstance(v, VModule) and v.path and n.attr not in v.ns and n.attr not in ('__name__', '__file__', '__doc__'):
                            bad.append('%s has no %s (line %d)' % (v.name, n.attr, n.lineno))
                    elif isinstance(n.func, (ast.Name, ast.Attribute)) and root_name(n.func) not in sc:
                        ok, v = resolve(n.func, ns)
                        if not ok:
                            continue
                        if isinstance(v, VFunc) and isinstance(v.node, ast.FunctionDef):
                            e = signature_error(v.node, n, 0)
                        elif isinstance(v, VClass):
                            g = find_init(v)
                            e = signature_error(g.node, n, 1) if g else None
                        else:
                            continue
                        if e:
                            bad.append('call of %s: %s (line %d)' % (ast.unparse(n.func), e, n.lineno))
                ctx.ob(key + '/uses', not bad, '; '.join(bad), '%s:%s' % (path, q))
