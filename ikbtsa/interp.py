"""Abstract interpreter over Python syntax trees.

The repository's source is parsed (never imported or executed) and evaluated over an abstract domain:
  * Python scalars and containers whose contents are known from the source are kept as they are;
  * numbers and expressions that depend on inputs are polynomial normal forms (poly.Poly) over opaque symbols;
  * undecided conditions are `Cond` values: both branches are explored (once per path, consistently);
  * collaborators that a check does not want to look into are replaced by summaries (`intercepts`).
All abstract paths are enumerated (explore()); set iteration order is itself a nondeterministic choice.
"""
import ast
import copy as _copy
import operator
import os
import string
import sys

import _string

from .poly import Poly, Atom, anyexpr

sys.setrecursionlimit(60000)


class Unsupported(Exception):
    """the analyser cannot interpret a construct: the run is analysis-broken (never a silent pass)"""


class FuelOut(Exception):
    """step bound of one abstract path exceeded (reported as possible non-termination)"""


class PathPruned(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, where=None):
        Exception.__init__(self, exc)
        self.exc = exc
        self.where = where

    def name(self):
        e = self.exc
        return e.cls.name if isinstance(e, VInst) else type(e).__name__

    def text(self):
        e = self.exc
        if isinstance(e, VInst):
            return '%s%r' % (e.cls.name, tuple(e.d.get('args', ())))
        return '%s: %s' % (type(e).__name__, e)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


CUR = None          # the interpreter of the path being analysed


def cur():
    return CUR


HOLE_L, HOLE_R = '\ue000', '\ue001'


def hole(text):
    return HOLE_L + text + HOLE_R


class Cond:
    """an undecided boolean; equal keys are the same condition on a path"""
    def __init__(self, key):
        self.key = key

    def __bool__(self):
        return CUR.decide(self.key)

    def __repr__(self):
        return 'Cond(%r)' % (self.key,)

    def __invert__(self):
        return not self

    def __and__(self, o):
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__


class Scope:
    __slots__ = ('vars', 'parent', 'globals', 'kind', 'locals', 'globs', 'func', 'nonlocs', 'cell_self')

    def __init__(self, kind, globals_, parent=None, locals_=None, globs=None, nonlocs=None, func=None):
        self.vars = {}
        self.kind = kind
        self.globals = globals_
        self.parent = parent
        self.locals = locals_
        self.globs = globs or ()
        self.nonlocs = nonlocs or ()
        self.func = func


class VModule:
    def __init__(self, name, ns=None, path=None):
        self.name = name
        self.ns = {} if ns is None else ns
        self.path = path

    def __repr__(self):
        return '<module %s>' % self.name


class VFunc:
    def __init__(self, node, scope, module, name, defaults, kw_defaults, cls=None):
        self.node = node
        self.scope = scope
        self.module = module
        self.name = name
        self.defaults = defaults
        self.kw_defaults = kw_defaults
        self.cls = cls
        self.d = {}
        self.qual = module.name + '.' + (cls + '.' if cls else '') + name

    def __call__(self, *a, **k):
        return CUR.call(self, list(a), k)

    def __repr__(self):
        return '<function %s>' % self.qual

    def __deepcopy__(self, memo):
        return self


class VBound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __call__(self, *a, **k):
        return CUR.call(self, list(a), k)

    def __eq__(self, o):
        return isinstance(o, VBound) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return '<bound %r>' % self.func


class VProperty:
    __get__ = None

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class VStatic:
    __get__ = None

    def __init__(self, f):
        self.f = f


class VClassMethod:
    __get__ = None

    def __init__(self, f):
        self.f = f


class VClass:
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.qual = module.name + '.' + name
        self.mro = _c3(self)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, VClass):
                if name in c.ns:
                    return c.ns[name], c
            elif c is not object and hasattr(c, name):
                return getattr(c, name), c
        return None, None

    def is_exc(self):
        return any(isinstance(c, type) and issubclass(c, BaseException) for c in self.mro)

    def __call__(self, *a, **k):
        return CUR.call(self, list(a), k)

    def __repr__(self):
        return '<class %s>' % self.name

    def __deepcopy__(self, memo):
        return self


def _c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO for %s' % cls.name)
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def mro(b):
        return b.mro if isinstance(b, VClass) else list(getattr(b, '__mro__', (b,)))
    return [cls] + merge([mro(b) for b in cls.bases] + [list(cls.bases)])


class VInst:
    def __init__(self, cls, d=None):
        self.cls = cls
        self.d = {} if d is None else d

    def __eq__(self, o):
        if o is self:
            return True
        f, _ = self.cls.lookup('__eq__')
        if isinstance(f, VFunc):
            r = CUR.call(VBound(f, self), [o], {})
            return False if r is NotImplemented else CUR.truth(r)
        return False

    def __ne__(self, o):
        f, _ = self.cls.lookup('__ne__')
        if isinstance(f, VFunc):
            return CUR.truth(CUR.call(VBound(f, self), [o], {}))
        return not self.__eq__(o)

    def __hash__(self):
        f, _ = self.cls.lookup('__hash__')
        if isinstance(f, VFunc):
            h = CUR.call(VBound(f, self), [], {})
            return hash(h)
        g, _ = self.cls.lookup('__eq__')
        if isinstance(g, VFunc) and f is None and any('__eq__' in c.ns for c in self.cls.mro if isinstance(c, VClass)):
            raise PyRaise(TypeError("unhashable type: '%s'" % self.cls.name))
        return id(self) // 16

    def __str__(self):
        for n in ('__str__', '__repr__'):
            f, _ = self.cls.lookup(n)
            if isinstance(f, VFunc):
                return CUR.call(VBound(f, self), [], {})
        if self.cls.is_exc():
            return exc_text(self, False)
        return '<%s object>' % self.cls.name

    def __format__(self, spec):
        f, _ = self.cls.lookup('__format__')
        if isinstance(f, VFunc):
            return CUR.call(VBound(f, self), [spec], {})
        return format(str(self), spec)

    def __repr__(self):
        f, _ = self.cls.lookup('__repr__')
        if isinstance(f, VFunc) and CUR is not None:
            return CUR.call(VBound(f, self), [], {})
        if self.cls.is_exc():
            return exc_text(self, True)
        return '<%s object>' % self.cls.name

    def __bool__(self):
        f, _ = self.cls.lookup('__bool__')
        if isinstance(f, VFunc):
            return CUR.truth(CUR.call(VBound(f, self), [], {}))
        f, _ = self.cls.lookup('__len__')
        if isinstance(f, VFunc):
            return CUR.call(VBound(f, self), [], {}) != 0
        return True

    def __len__(self):
        f, _ = self.cls.lookup('__len__')
        if isinstance(f, VFunc):
            return CUR.call(VBound(f, self), [], {})
        raise TypeError("object of type '%s' has no len()" % self.cls.name)

    def _conv(self, n):
        f, _ = self.cls.lookup(n)
        if isinstance(f, VFunc):
            return CUR.call(VBound(f, self), [], {})
        raise TypeError("'%s' object cannot be interpreted as a number" % self.cls.name)

    def __index__(self):
        return self._conv('__index__')

    def __int__(self):
        return self._conv('__int__')

    def __float__(self):
        return self._conv('__float__')

    def __deepcopy__(self, memo):
        n = VInst(self.cls)
        memo[id(self)] = n
        n.d = _copy.deepcopy(self.d, memo)
        return n

    def __copy__(self):
        return VInst(self.cls, dict(self.d))


def exc_text(e, rep):
    a = tuple(e.d.get('args', ()))
    if rep:
        return '%s(%s)' % (e.cls.name, ', '.join(map(repr, a)))
    host = [c for c in e.cls.mro if isinstance(c, type) and issubclass(c, BaseException)][0]
    return '' if not a else (repr(a[0]) if issubclass(host, KeyError) else str(a[0])) if len(a) == 1 else str(a)


class VSuper:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


for _n in ('__lt__', '__le__', '__gt__', '__ge__'):
    def _mk(n, swap):
        import ast as _ast

        def f(self, o):
            m, _ = self.cls.lookup(n)
            if isinstance(m, VFunc):
                return CUR.call(VBound(m, self), [o], {})
            return NotImplemented
        return f
    setattr(VInst, _n, _mk(_n, None))


class Native:
    """base class of model objects: attributes are the host attributes"""
    pass


class OpaqueModule(Native):
    """an external module or object that no check models: every use yields another opaque object"""
    def __init__(self, name):
        self._n = name

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return OpaqueModule(self._n + '.' + k)

    def __call__(self, *a, **k):
        if CUR is not None:
            CUR.imprecise.add(self._n)
        return OpaqueModule(self._n + '()')

    def __bool__(self):
        return CUR.decide(('opaque', self._n))

    def __iter__(self):
        raise Unsupported('iteration over opaque %s' % self._n)

    def __repr__(self):
        return '<opaque %s>' % self._n

    def __str__(self):
        return hole('opaque:' + self._n)

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self


for _op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'mod', 'neg', 'lt', 'gt',
            'le', 'ge', 'getitem'):
    def _mk(op):
        def f(self, *a):
            if CUR is not None:
                CUR.imprecise.add(self._n + ':' + op)
            if op in ('lt', 'gt', 'le', 'ge'):
                return Cond(('opaque', op, self._n, repr(a)))
            return OpaqueModule('(%s %s %s)' % (self._n, op, ','.join(map(repr, a))))
        return f
    setattr(OpaqueModule, '__%s__' % _op, _mk(_op))


class Oracle:
    def __init__(self, trace):
        self.trace = trace          # list of [choice, n, label]
        self.pos = 0

    def choose(self, n, label=''):
        if n <= 1:
            return 0
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
            if c[1] != n:
                raise Unsupported('nondeterministic replay at %r / %r' % (label, c))
        else:
            c = [0, n, label]
            self.trace.append(c)
        self.pos += 1
        return c[0]


_LIB = {}


def library(name):
    """the syntax tree of a standard-library module that is modelled by a simplified source (pylib)"""
    if name not in _LIB:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pylib', name.replace('.', '_') + '.py')
        _LIB[name] = (ast.parse(open(p).read()), '<%s>' % name) if os.path.exists(p) else None
    return _LIB[name]


def explore(project, run, setup=None, max_paths=20000, fuel=400000, **kw):
    """enumerate all abstract paths of run(interp); yields (interp, outcome) with outcome one of
    ('return', value), ('raise', PyRaise), ('diverge', None)"""
    global CUR
    trace = []
    n = 0
    while True:
        n += 1
        if n > max_paths:
            raise Unsupported('more than %d abstract paths' % max_paths)
        it = Interp(project, Oracle(trace), fuel=fuel, **kw)
        CUR = it
        pruned = False
        try:
            if setup:
                setup(it)
            out = ('return', run(it))
        except PyRaise as e:
            out = ('raise', e)
        except FuelOut:
            out = ('diverge', None)
        except PathPruned:
            pruned = True
        if not pruned:
            yield it, out
        del trace[it.oracle.pos:]
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace:
            return
        trace[-1][0] += 1


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
          ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
          ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.BitOr: operator.ior,
        ast.BitAnd: operator.iand}
DUN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
       ast.Mod: 'mod', ast.Pow: 'pow', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor',
       ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul'}
HOSTERR = (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, AssertionError,
           StopIteration, OverflowError)


def assigned_names(body, args=None):
    """names bound in a function body (not in nested scopes), with its global and nonlocal declarations"""
    loc, glob, nonl = set(), set(), set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    loc.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            loc.add(a.arg)
        if args.vararg:
            loc.add(args.vararg.arg)
        if args.kwarg:
            loc.add(args.kwarg.arg)
    loc -= glob | nonl
    return loc, glob, nonl


class _Formatter(string.Formatter):
    """str.format() whose replacement fields may name attributes of objects of the program"""
    def get_field(self, name, args, kwargs):
        first, rest = _string.formatter_field_name_split(name)
        o = self.get_value(first, args, kwargs)
        for is_attr, k in rest:
            o = CUR.getattr(o, k) if is_attr else CUR.getitem(o, k)
        return o, first


def _mangle(n, cls):
    """private names of a class body (once per class)"""
    if getattr(n, '_ikb_mangled', False):
        return
    n._ikb_mangled = True
    pre = '_' + cls.lstrip('_')

    def m(k):
        return pre + k if k.startswith('__') and not k.endswith('__') and '.' not in k else k

    def visit(x):
        if isinstance(x, ast.ClassDef):
            x.name = m(x.name)
            for d in x.bases + x.decorator_list:
                visit(d)
            return
        if isinstance(x, ast.Attribute):
            x.attr = m(x.attr)
        elif isinstance(x, ast.Name):
            x.id = m(x.id)
        elif isinstance(x, ast.FunctionDef):
            x.name = m(x.name)
        elif isinstance(x, ast.arg):
            x.arg = m(x.arg)
        elif isinstance(x, ast.keyword) and x.arg:
            x.arg = m(x.arg)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            x.names = [m(k) for k in x.names]
        for c in ast.iter_child_nodes(x):
            visit(c)
    for s in n.body:
        visit(s)


class _Value(ast.expr):
    """an expression that is already evaluated"""
    _fields = ()

    def __init__(self, v):
        self.v = v


def _has_yield(n):
    r = getattr(n, '_ikb_yield', None)
    if r is None:
        r = _is_gen([n])
        n._ikb_yield = r
    return r


class VGen:
    """a generator of the analysed program"""
    def __init__(self, it, f, sc):
        self.it, self.f, self.sc = it, f, sc
        self.frame = [f.qual, f.module.path, f.node]
        self.g = self._run()
        self.running = False

    def _run(self):
        try:
            yield from self.it.g_block(self.f.node.body, self.sc, self.f.module)
        except _Return as r:
            return r.v

    def _resume(self, step):
        if self.running:
            self.it.throw(ValueError('generator already executing'))
        self.it.tickfuel()
        self.running = True
        depth = len(self.it.stack)
        self.it.stack.append(self.frame)
        try:
            return step()
        except PyRaise as e:
            if isinstance(e.exc, StopIteration):
                raise PyRaise(RuntimeError('generator raised StopIteration'), e.where)
            raise
        finally:
            del self.it.stack[depth:]
            self.running = False

    def __iter__(self):
        return self

    def __next__(self):
        return self._resume(lambda: next(self.g))

    def send(self, v):
        return self._resume(lambda: self.g.send(v))

    def throw(self, e, *a):
        if isinstance(e, VClass) or isinstance(e, type):
            e = a[0] if a and a[0] is not None else self.it.call(e, [], {})
        return self._resume(lambda: self.g.throw(PyRaise(e, self.it.where(4))))

    def close(self):
        if self.running:
            self.it.throw(ValueError('generator already executing'))
        return self._resume(lambda: self.g.close())

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'generator' object")

    def __repr__(self):
        return '<generator %s>' % self.f.qual


def _is_gen(body):
    def has(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(has(c) for c in ast.iter_child_nodes(n))
    return any(has(s) for s in body)


class Interp:
    def __init__(self, project, oracle, fuel=400000, set_orders=False, models=None, intercepts=None):
        from . import builtin_models
        self.project = project
        self.oracle = oracle
        self.fuel = fuel
        self.set_orders = set_orders
        self.modules = {}
        self.models = dict(builtin_models.MODULES)
        if models:
            self.models.update(models)
        self.intercepts = dict(intercepts or {})
        self.builtins = builtin_models.make_builtins(self)
        self.memo = {}
        self.events = []
        self.imprecise = set()
        self.stack = []          # (function qualname, current node)
        self.funcs_seen = set()
        self.files = {}
        self.poly_methods = {}
        self.attr_hooks = []
        self.user = {}
        self.decided = []

    # ---- bookkeeping
    def where(self, depth=1):
        out = []
        for q, path, node in reversed(self.stack[-depth:]):
            out.append('%s:%s in %s' % (path, getattr(node, 'lineno', '?'), q))
        return ' <- '.join(out) or '<top>'

    def event(self, *ev):
        self.events.append(ev + (self.where(),))

    def decide(self, key, label=None):
        if key in self.memo:
            return self.memo[key]
        v = bool(self.oracle.choose(2, label or key))
        v = not v
        self.memo[key] = v
        self.decided.append((key, v))
        return v

    def choose(self, options, label=''):
        options = list(options)
        return options[self.oracle.choose(len(options), label)]

    def throw(self, exc):
        raise PyRaise(exc, self.where(4))

    # ---- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.models:
            m = self.models[name]
            m = m(self) if callable(m) and not isinstance(m, (Native, VModule)) else m
            self.modules[name] = m
            return m
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
        else:
            parent = None
        src = self.project.find(name)
        if src is None:
            src = library(name)
        if src is None:
            if parent is not None and not isinstance(parent, VModule):
                try:
                    return getattr(parent, name.rsplit('.', 1)[1])
                except AttributeError:
                    pass
            if self.project.is_local(name):
                self.throw(ModuleNotFoundError("No module named '%s'" % name))
            m = OpaqueModule(name)
            self.modules[name] = m
            return m
        tree, path = src
        mod = VModule(name, path=path)
        mod.ns['__name__'] = name
        mod.ns['__file__'] = path
        self.modules[name] = mod
        sc = Scope('module', mod.ns)
        sc.vars = mod.ns
        self.stack.append([name + ':<module>', path, None])
        try:
            self.exec_block(tree.body, sc, mod)
        finally:
            self.stack.pop()
        if isinstance(parent, VModule):
            parent.ns[name.rsplit('.', 1)[1]] = mod
        return mod

    def do_import(self, node, scope, mod):
        if isinstance(node, ast.Import):
            for a in node.names:
                m = self.import_module(a.name)
                if a.asname:
                    self.bind(a.asname, m, scope)
                else:
                    top = a.name.split('.')[0]
                    self.bind(top, self.modules[top] if top in self.modules else m, scope)
            return
        if node.level:
            base = mod.name.split('.')
            ispkg = mod.path and os.path.basename(mod.path) == '__init__.py'
            up = node.level - (1 if ispkg else 0)
            base = base[:len(base) - up] if up else base
            modname = '.'.join(base + ([node.module] if node.module else []))
        else:
            modname = node.module
        m = self.import_module(modname)
        for a in node.names:
            if a.name == '*':
                if isinstance(m, VModule):
                    names = m.ns.get('__all__')
                    names = list(names) if names is not None else [k for k in m.ns if not k.startswith('_')]
                    for k in names:
                        if k not in m.ns and self.project.find(modname + '.' + k) is not None:
                            m.ns[k] = self.import_module(modname + '.' + k)
                        if k not in m.ns:
                            self.throw(AttributeError("module '%s' has no attribute '%s'" % (modname, k)))
                        self.bind(k, m.ns[k], scope)
                elif hasattr(m, 'star_names'):
                    for k in m.star_names():
                        self.bind(k, getattr(m, k), scope)
                continue
            if isinstance(m, VModule):
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif self.project.find(modname + '.' + a.name) is not None:
                    v = self.import_module(modname + '.' + a.name)
                else:
                    self.throw(ImportError("cannot import name '%s' from '%s'" % (a.name, modname)))
            else:
                v = self.getattr(m, a.name)
            self.bind(a.asname or a.name, v, scope)

    # ---- names
    def bind(self, name, v, scope):
        if scope.kind == 'module':
            scope.globals[name] = v
        elif name in scope.globs:
            scope.globals[name] = v
        elif name in scope.nonlocs:
            s = scope.parent
            while s is not None:
                if s.kind == 'function' and s.locals and name in s.locals:
                    s.vars[name] = v
                    return
                s = s.parent
            scope.vars[name] = v
        elif scope.kind == 'comp' and scope.locals is not None and name not in scope.locals:
            s = scope.parent             # walrus inside a comprehension
            while s.kind == 'comp':
                s = s.parent
            self.bind(name, v, s)
        else:
            scope.vars[name] = v

    def load(self, name, scope):
        s = scope
        first = True
        while s is not None and s.kind != 'module':
            if not (s.kind == 'class' and not first):
                if name in s.globs:
                    break
                if name in s.vars:
                    return s.vars[name]
                if s.locals is not None and name in s.locals and s.kind in ('function', 'comp'):
                    self.throw(UnboundLocalError("local variable '%s' referenced before assignment" % name))
            first = False if s.kind != 'comp' else first
            s = s.parent
        g = scope.globals
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw(NameError("name '%s' is not defined" % name))

    # ---- attributes
    def getattr(self, o, name, default=Ellipsis):
        for h in self.attr_hooks:
            r = h(self, o, name)
            if r is not None:
                return r
        try:
            r = self._getattr(o, name)
        except PyRaise as e:
            if default is not Ellipsis and isinstance(e.exc, AttributeError):
                return default
            raise
        if r is _MISSING:
            if default is not Ellipsis:
                return default
            tn = o.cls.name if isinstance(o, VInst) else (o.name if isinstance(o, (VModule, VClass)) else type(o).__name__)
            self.throw(AttributeError("'%s' object has no attribute '%s'" % (tn, name)))
        return r

    def _getattr(self, o, name):
        if isinstance(o, VInst):
            ga, _ = o.cls.lookup('__getattribute__')
            if isinstance(ga, VFunc):
                raise Unsupported('__getattribute__ of %s' % o.cls.name)
            cv, owner = o.cls.lookup(name)
            if isinstance(cv, VProperty):
                try:
                    return self.call(cv.fget, [o], {})
                except PyRaise as e:
                    ga, _ = o.cls.lookup('__getattr__')
                    if isinstance(ga, VFunc) and isinstance(e.exc, AttributeError):
                        return self.call(ga, [o, name], {})
                    raise
            if isinstance(cv, VInst):
                f, _ = cv.cls.lookup('__get__')
                if isinstance(f, VFunc) and (name not in o.d or isinstance(cv.cls.lookup('__set__')[0], VFunc)):
                    return self.call(VBound(f, cv), [o, o.cls], {})
            if name in o.d:
                return o.d[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.d
            if owner is not None:
                return self.bind_method(cv, o, o.cls)
            if name in ('__cause__', '__context__', '__traceback__', '__doc__'):
                return None
            if name == '__module__':
                return o.cls.module.name
            ga, _ = o.cls.lookup('__getattr__')
            if isinstance(ga, VFunc):
                return self.call(ga, [o, name], {})
            return _MISSING
        if isinstance(o, VModule):
            if name in o.ns:
                return o.ns[name]
            if self.project.find(o.name + '.' + name) is not None and (o.name + '.' + name) in self.modules:
                return self.modules[o.name + '.' + name]
            return _MISSING
        if isinstance(o, VClass):
            if name == '__name__' or name == '__qualname__':
                return o.name
            if name == '__dict__':
                return o.ns
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__module__':
                return o.module.name
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__doc__':
                return o.ns.get('__doc__')
            if name == '__annotations__':
                return o.ns.setdefault('__annotations__', {})
            cv, owner = o.lookup(name)
            if owner is None:
                if name == 'mro':
                    return lambda: list(o.mro)
                if name == '__class__':
                    return self.builtins['type']
                return _MISSING
            if isinstance(cv, VInst):
                f, _ = cv.cls.lookup('__get__')
                if isinstance(f, VFunc):
                    return self.call(VBound(f, cv), [None, o], {})
            if isinstance(cv, VStatic):
                return cv.f
            if isinstance(cv, VClassMethod):
                return VBound(cv.f, o)
            return cv
        if isinstance(o, VSuper):
            inst = o.self_
            icls = inst.cls if isinstance(inst, VInst) else inst
            if isinstance(o.cls, type) or not isinstance(icls, VClass):
                try:
                    return getattr(super(o.cls, inst), name)
                except AttributeError:
                    return _MISSING
            mro = icls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, VClass):
                    if name in c.ns:
                        return self.bind_method(c.ns[name], inst, icls)
                elif c is not object and hasattr(c, name):
                    if name == '__init__':
                        return lambda *a, **k: (inst.d.__setitem__('args', a), None)[1]
                    if name in ('__str__', '__repr__') and icls.is_exc():
                        return lambda: exc_text(inst, name == '__repr__')
                    if name == '__new__':
                        return lambda c, *a, **k: self.new(c, a)
                    return getattr(c, name)
            if name == '__init__':
                return lambda *a, **k: None
            if name == '__repr__' or name == '__str__':
                return lambda: '<%s object>' % icls.name
            if name == '__setattr__':
                return lambda k, v: inst.d.__setitem__(k, v)
            if name == '__init_subclass__':
                return lambda **k: None
            if name == '__new__':
                return lambda c, *a, **k: self.new(c, a)
            if name == '__eq__':
                return lambda x: True if x is inst else NotImplemented
            if name == '__hash__':
                return lambda: id(inst) // 16
            if name == '__delattr__':
                return lambda k: inst.d.__delitem__(k)
            return _MISSING
        if isinstance(o, VFunc):
            if name in o.d:
                return o.d[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return o.d
            if name == '__defaults__':
                return tuple(o.defaults) or None
            if name == '__get__':
                return lambda inst, cls=None: o if inst is None else VBound(o, inst)
            if name == '__call__':
                return o
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            return o.d.get(name, _MISSING)
        if isinstance(o, VBound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, Poly):
            if name in self.poly_methods:
                return self.poly_methods[name](o)
            from . import sympy_model
            r = sympy_model.poly_attr(self, o, name)
            if r is sympy_model.NOATTR:
                raise Unsupported('attribute %r of a symbolic expression' % name)
            return r
        if o is object and name in ('__new__', '__setattr__', '__getattribute__', '__delattr__', '__init__'):
            return {'__new__': lambda c, *a, **k: self.new(c, a), '__setattr__': lambda x, k, v: x.d.__setitem__(k, v),
                    '__getattribute__': lambda x, k: self.plain_attr(x, k), '__init__': lambda *a, **k: None,
                    '__delattr__': lambda x, k: x.d.__delitem__(k)}[name]
        if isinstance(o, VProperty) and name in ('setter', 'getter', 'deleter'):
            def deco(f):
                if name == 'setter':
                    return VProperty(o.fget, f, o.fdel)
                if name == 'deleter':
                    return VProperty(o.fget, o.fset, f)
                return VProperty(f, o.fset, o.fdel)
            return deco
        if isinstance(o, (bool, int, float)) and not hasattr(o, name):
            from . import sympy_model
            r = sympy_model.poly_attr(self, Poly.of(o), name)
            return _MISSING if r is sympy_model.NOATTR else r
        if isinstance(o, str) and name in ('join', 'format'):
            if name == 'join':
                return lambda xs: o.join(self.tolist(xs))
            return lambda *a, **k: _Formatter().vformat(o, a, k)
        if name != 'kind' and getattr(o, 'kind', None) in ('sp', 'npa', 'npm'):
            from . import sympy_model
            r = (sympy_model.mat_attr if o.kind == 'sp' else sympy_model.np_attr)(self, o, name)
            if r is not sympy_model.NOATTR:
                return r
        if isinstance(o, list) and name in ('extend',):
            return lambda xs: o.extend(self.tolist(xs))
        if isinstance(o, list) and name in ('index', 'remove', 'count'):
            return lambda *a: self.list_search(o, name, *a)
        if isinstance(o, set) and name == 'pop':
            def pop():
                if not o:
                    self.throw(KeyError('pop from an empty set'))
                x = self.set_list(o)[0]
                o.discard(x)
                return x
            return pop
        try:
            return getattr(o, name)
        except AttributeError:
            if getattr(o, 'kind', None) in ('sp', 'npa', 'npm'):
                raise Unsupported('attribute %r of a matrix' % name)
            return _MISSING

    def plain_attr(self, o, name):
        if name in o.d:
            return o.d[name]
        cv, owner = o.cls.lookup(name)
        if owner is None:
            self.throw(AttributeError(name))
        return self.bind_method(cv, o, o.cls)

    def list_search(self, o, what, x, start=0, *rest):
        n = 0
        for i, y in enumerate(list(o)):
            if i < start:
                continue
            if y is x or self.truth(self.compare_eq(y, x)):
                if what == 'index':
                    return i
                if what == 'remove':
                    del o[i]
                    return None
                n += 1
        if what == 'count':
            return n
        self.throw(ValueError('list.%s(x): x not in list' % what))

    def bind_method(self, v, inst, cls):
        if isinstance(v, VFunc):
            return VBound(v, inst)
        if isinstance(v, VStatic):
            return v.f
        if isinstance(v, VClassMethod):
            return VBound(v.f, cls)
        if isinstance(v, VProperty):
            return self.call(v.fget, [inst], {})
        if isinstance(v, (VInst, VClass, VBound)):
            return v
        if getattr(v, '_binds_self', False):
            return lambda *a, **k: v(inst, *a, **k)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, VInst):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, VProperty):
                if cv.fset is None:
                    self.throw(AttributeError("can't set attribute '%s'" % name))
                self.call(cv.fset, [o, v], {})
                return
            if isinstance(cv, VInst):
                f, _ = cv.cls.lookup('__set__')
                if isinstance(f, VFunc):
                    self.call(VBound(f, cv), [o, v], {})
                    return
            sa, _ = o.cls.lookup('__setattr__')
            if isinstance(sa, VFunc):
                self.call(sa, [o, name, v], {})
                return
            hook = self.user.get('on_setattr')
            if hook:
                hook(self, o, name, v)
            o.d[name] = v
        elif isinstance(o, VModule):
            o.ns[name] = v
        elif isinstance(o, VClass):
            o.ns[name] = v
        elif isinstance(o, VFunc):
            o.d[name] = v
        elif isinstance(o, OpaqueModule):
            pass
        else:
            try:
                setattr(o, name, v)
            except (AttributeError, TypeError) as e:
                self.throw(AttributeError(str(e)))

    # ---- truth, comparison
    def truth(self, v):
        if v is True or v is False or v is None:
            return bool(v)
        if isinstance(v, Poly):
            return not v.is_const() or v.constval() != 0
        try:
            return bool(v)
        except HOSTERR as e:
            self.throw(e)

    def compare_eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, VInst) or isinstance(b, VInst):
            if isinstance(a, VInst):
                f, _ = a.cls.lookup('__eq__')
                if isinstance(f, VFunc):
                    r = self.call(VBound(f, a), [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, VInst):
                f, _ = b.cls.lookup('__eq__')
                if isinstance(f, VFunc):
                    r = self.call(VBound(f, b), [a], {})
                    if r is not NotImplemented:
                        return r
            return False
        if isinstance(a, Poly) or isinstance(b, Poly):
            try:
                d = Poly.of(a) - Poly.of(b)
            except TypeError:
                return False
            if not d.t:
                return True
            if d.is_const() or not d.has_any():
                return False
            k = min(repr(d), repr(-d))
            return Cond(('eq0', k))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.compare_eq(x, y)):
                    return False
            return True
        try:
            return a == b
        except HOSTERR as e:
            self.throw(e)

    def contains(self, c, x):
        if isinstance(c, VInst):
            f, _ = c.cls.lookup('__contains__')
            if isinstance(f, VFunc):
                return self.truth(self.call(VBound(f, c), [x], {}))
            return any(x is y or self.truth(self.compare_eq(y, x)) for y in self.iterate(c))
        if isinstance(c, (list, tuple)) or type(c).__name__ in ('dict_values',):
            for y in c:
                if y is x or self.truth(self.compare_eq(y, x)):
                    return True
            return False
        if isinstance(c, VClass):
            return any(x is y or self.truth(self.compare_eq(y, x)) for y in self.iterate(c))
        try:
            return x in c
        except HOSTERR as e:
            self.throw(e)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.Eq):
            return self.compare_eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, VInst):
                f, _ = a.cls.lookup('__ne__')
                if isinstance(f, VFunc):
                    return self.call(VBound(f, a), [b], {})
            return not self.truth(self.compare_eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        name = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)]
        for x, y, n in ((a, b, name), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[name])):
            if isinstance(x, VInst):
                f, _ = x.cls.lookup('__%s__' % n)
                if isinstance(f, VFunc):
                    return self.call(VBound(f, x), [y], {})
        if isinstance(a, Poly) or isinstance(b, Poly):
            try:
                d = Poly.of(a) - Poly.of(b)
            except TypeError as e:
                self.throw(e)
            if d.is_const():
                return getattr(operator, name)(d.constval(), 0)
            # canonical: 'd < 0' / 'd > 0' style keys; le is not-gt
            if name in ('gt', 'le'):
                return _flip(Cond(self._order_key(-d)), name == 'le', self)
            return _flip(Cond(self._order_key(d)), name == 'ge', self)
        try:
            return getattr(operator, name)(a, b)
        except HOSTERR as e:
            self.throw(e)

    def _order_key(self, d):
        return ('lt0', repr(d))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, str, float, bool)) and isinstance(b, (int, str, float, bool)):
            return type(a) is type(b) and a == b
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a == b
        if isinstance(a, tuple) and a == () and b == ():
            return True
        return False

    # ---- iteration
    def set_list(self, s):
        xs = sorted(s, key=lambda x: (str(type(x)), safe_repr(x)))
        if self.set_orders and len(xs) > 1:
            k = self.oracle.choose(2, 'set-order')
            if k:
                xs = xs[::-1]
        return xs

    def iterate(self, v):
        if isinstance(v, (set, frozenset)):
            return iter(self.set_list(v))
        if isinstance(v, (list, tuple, str, dict, range)):
            return iter(v)
        if isinstance(v, VInst):
            f, _ = v.cls.lookup('__iter__')
            if isinstance(f, VFunc):
                r = self.call(VBound(f, v), [], {})
                if r is v:
                    return self._iter_next(v)
                return self.iterate(r)
            f, _ = v.cls.lookup('__getitem__')
            if isinstance(f, VFunc):
                return self._iter_getitem(v, f)
            self.throw(TypeError("'%s' object is not iterable" % v.cls.name))
        if isinstance(v, VClass) and v.lookup('_ikb_iter')[0] is not None:
            return self.iterate(self.call(self.getattr(v, '_ikb_iter'), [], {}))
        if isinstance(v, (Poly, VModule, VClass, VFunc)):
            self.throw(TypeError("'%s' object is not iterable" % type(v).__name__))
        try:
            return iter(v)
        except TypeError as e:
            self.throw(e)

    def _iter_getitem(self, v, f):
        i = 0
        while True:
            try:
                x = self.call(VBound(f, v), [i], {})
            except PyRaise as e:
                if isinstance(e.exc, IndexError):
                    return
                raise
            yield x
            i += 1

    def _iter_next(self, v):
        f, _ = v.cls.lookup('__next__')
        while True:
            try:
                x = self.call(VBound(f, v), [], {})
            except PyRaise as e:
                if isinstance(e.exc, StopIteration):
                    return
                raise
            yield x

    def tolist(self, v):
        return list(self.iterate(v))

    # ---- calls
    def call(self, f, args, kwargs):
        self.tickfuel()
        if isinstance(f, VBound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, VFunc):
            ic = self.intercepts.get(f.qual)
            if ic is not None:
                return ic(self, f, args, kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, VClass):
            ic = self.intercepts.get(f.qual)
            if ic is not None:
                return ic(self, f, args, kwargs)
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VInst):
            m, _ = f.cls.lookup('__call__')
            if isinstance(m, VFunc):
                return self.call(VBound(m, f), args, kwargs)
            self.throw(TypeError("'%s' object is not callable" % f.cls.name))
        if callable(f):
            try:
                return f(*args, **kwargs)
            except HOSTERR as e:
                self.throw(e)
        self.throw(TypeError("'%s' object is not callable" % type(f).__name__))

    def new(self, cls, args=()):
        if not isinstance(cls, VClass):
            raise Unsupported('__new__ of %r' % (cls,))
        if not hasattr(cls, 'abstract'):
            cls.abstract = [k for c in cls.mro if isinstance(c, VClass) for k, v in c.ns.items()
                            if getattr(v.fget if isinstance(v, VProperty) else v.f if isinstance(v, (VStatic, VClassMethod))
                                       else v, 'd', {}).get('__isabstractmethod__') is True and cls.lookup(k)[0] is v]
        if cls.abstract:
            self.throw(TypeError("Can't instantiate abstract class %s with abstract methods %s"
                                 % (cls.name, ', '.join(cls.abstract))))
        inst = VInst(cls)
        if cls.is_exc():
            inst.d['args'] = tuple(args)
        return inst

    def instantiate(self, cls, args, kwargs):
        cc, _ = cls.lookup('_ikb_call')
        if cc is not None and not cls.ns.get('_ikb_plain'):
            return self.call(self.getattr(cls, '_ikb_call'), args, kwargs)
        nw, _ = cls.lookup('__new__')
        if isinstance(nw, VStatic):
            nw = nw.f
        if isinstance(nw, VFunc):
            inst = self.call(nw, [cls] + list(args), kwargs)
            if not isinstance(inst, VInst) or cls not in inst.cls.mro:
                return inst
        else:
            inst = self.new(cls, args)
        hook = self.user.get('on_new')
        init, owner = cls.lookup('__init__')
        if isinstance(init, VFunc):
            self.call(init, [inst] + list(args), kwargs)
        elif getattr(init, '_binds_self', False):
            init(inst, *args, **kwargs)
        elif not cls.is_exc() and (args or kwargs) and owner is None and not isinstance(nw, VFunc):
            self.throw(TypeError('%s() takes no arguments' % cls.name))
        if hook:
            hook(self, inst)
        return inst

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        nd = len(f.defaults)
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                out[p] = args[i]
                if p in kwargs:
                    self.throw(TypeError("%s() got multiple values for argument '%s'" % (f.name, p)))
            elif p in kwargs and i >= len(a.posonlyargs):
                out[p] = kwargs.pop(p)
            elif i >= len(params) - nd:
                out[p] = f.defaults[i - (len(params) - nd)]
            else:
                self.throw(TypeError("%s() missing 1 required positional argument: '%s'" % (f.name, p)))
        if len(args) > len(params):
            if a.vararg:
                out[a.vararg.arg] = tuple(args[len(params):])
            else:
                self.throw(TypeError('%s() takes %d positional arguments but %d were given'
                                     % (f.name, len(params), len(args))))
        elif a.vararg:
            out[a.vararg.arg] = ()
        for p, d in zip(a.kwonlyargs, f.kw_defaults):
            if p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            elif d is not _MISSING:
                out[p.arg] = d
            else:
                self.throw(TypeError("%s() missing keyword-only argument '%s'" % (f.name, p.arg)))
        if a.kwarg:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            self.throw(TypeError("%s() got an unexpected keyword argument '%s'" % (f.name, sorted(kwargs)[0])))
        return out

    def call_func(self, f, args, kwargs):
        node = f.node
        if len(self.stack) > 400:
            self.throw(RecursionError('maximum recursion depth exceeded'))
        bound = self.bind_args(f, args, kwargs)
        info = getattr(node, '_ikb_scope', None)
        if info is None:
            if isinstance(node, ast.Lambda):
                info = (assigned_names([], node.args), False)
            else:
                info = (assigned_names(node.body, node.args), _is_gen(node.body))
            node._ikb_scope = info
        (loc, glob, nonl), gen = info
        sc = Scope('function', f.module.ns, f.scope, loc, glob, nonl, f)
        sc.vars.update(bound)
        self.funcs_seen.add(f.qual)
        self.stack.append([f.qual, f.module.path, node])
        try:
            if gen:
                return VGen(self, f, sc)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, sc, f.module)
            try:
                self.exec_block(node.body, sc, f.module)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    def tickfuel(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise FuelOut()

    # ---- statements
    def exec_block(self, body, sc, mod):
        for s in body:
            self.exec(s, sc, mod)

    def exec(self, n, sc, mod):
        self.fuel -= 1
        if self.fuel < 0:
            raise FuelOut()
        self.stack[-1][2] = n
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(n).__name__, self.where()))
        m(n, sc, mod)

    def x_Expr(self, n, sc, mod):
        self.eval(n.value, sc, mod)

    def x_Pass(self, n, sc, mod):
        pass

    def x_Global(self, n, sc, mod):
        pass
    x_Nonlocal = x_Global

    def x_Import(self, n, sc, mod):
        self.do_import(n, sc, mod)
    x_ImportFrom = x_Import

    def x_Return(self, n, sc, mod):
        raise _Return(None if n.value is None else self.eval(n.value, sc, mod))

    def x_Break(self, n, sc, mod):
        raise _Break()

    def x_Continue(self, n, sc, mod):
        raise _Continue()

    def x_If(self, n, sc, mod):
        self.exec_block(n.body if self.truth(self.eval(n.test, sc, mod)) else n.orelse, sc, mod)

    def x_While(self, n, sc, mod):
        while True:
            if not self.truth(self.eval(n.test, sc, mod)):
                self.exec_block(n.orelse, sc, mod)
                return
            try:
                self.exec_block(n.body, sc, mod)
            except _Break:
                return
            except _Continue:
                pass
            self.tickfuel()
            self.stack[-1][2] = n

    def x_For(self, n, sc, mod):
        for v in self.iterate(self.eval(n.iter, sc, mod)):
            self.assign(n.target, v, sc, mod)
            try:
                self.exec_block(n.body, sc, mod)
            except _Break:
                return
            except _Continue:
                pass
            self.tickfuel()
            self.stack[-1][2] = n
        self.exec_block(n.orelse, sc, mod)

    def x_Assign(self, n, sc, mod):
        v = self.eval(n.value, sc, mod)
        for t in n.targets:
            self.assign(t, v, sc, mod)

    def x_AnnAssign(self, n, sc, mod):
        if sc.kind == 'class' and isinstance(n.target, ast.Name):
            sc.vars.setdefault('__annotations__', {})[n.target.id] = ast.unparse(n.annotation)
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, sc, mod), sc, mod)

    def x_AugAssign(self, n, sc, mod):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.load(t.id, sc)
            store = lambda v: self.bind(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc, mod)
            old = self.getattr(o, t.attr)
            store = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.eval(t.value, sc, mod)
            k = self.eval(t.slice, sc, mod)
            old = self.getitem(o, k)
            store = lambda v: self.setitem(o, k, v)
        r = self.eval(n.value, sc, mod)
        if isinstance(old, VInst):
            f, _ = old.cls.lookup('__i%s__' % DUN[type(n.op)])
            if isinstance(f, VFunc):
                store(self.call(VBound(f, old), [r], {}))
                return
        if isinstance(old, list) and isinstance(n.op, ast.Add):
            if isinstance(r, (int, float, Poly)):
                self.throw(TypeError("'%s' object is not iterable" % type(r).__name__))
            old.extend(self.tolist(r))
            store(old)
            return
        if isinstance(old, set) and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(r, (set, frozenset)):
            store(IOPS[type(n.op)](old, r))
            return
        store(self.binop(n.op, old, r))

    def x_Delete(self, n, sc, mod):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id not in sc.vars:
                    self.throw(NameError(t.id))
                del sc.vars[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, sc, mod), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc, mod)
                self.delitem(o, self.eval(t.slice, sc, mod))
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.x_Delete(ast.Delete(targets=t.elts), sc, mod)

    def delitem(self, o, k):
        if isinstance(o, VInst):
            f, _ = o.cls.lookup('__delitem__')
            if isinstance(f, VFunc):
                self.call(VBound(f, o), [k], {})
                return
            self.throw(TypeError("'%s' object doesn't support item deletion" % o.cls.name))
        if not isinstance(o, dict):
            k = self.index(k)
        try:
            del o[k]
        except HOSTERR as e:
            self.throw(e)

    def delattr(self, o, name):
        if isinstance(o, VInst):
            f, _ = o.cls.lookup('__delattr__')
            if isinstance(f, VFunc):
                self.call(VBound(f, o), [name], {})
                return
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, VProperty):
                if cv.fdel is None:
                    self.throw(AttributeError("can't delete attribute '%s'" % name))
                self.call(cv.fdel, [o], {})
                return
            if isinstance(cv, VInst):
                f, _ = cv.cls.lookup('__delete__')
                if isinstance(f, VFunc):
                    self.call(VBound(f, cv), [o], {})
                    return
            d = o.d
        elif isinstance(o, (VModule, VClass)):
            d = o.ns
        elif isinstance(o, VFunc):
            d = o.d
        else:
            try:
                delattr(o, name)
            except HOSTERR as e:
                self.throw(e)
            return
        if name not in d:
            self.throw(AttributeError(name))
        del d[name]

    def x_Assert(self, n, sc, mod):
        if not self.truth(self.eval(n.test, sc, mod)):
            self.throw(AssertionError(self.eval(n.msg, sc, mod) if n.msg else ''))

    def x_Raise(self, n, sc, mod):
        if n.exc is None:
            e = self.user.get('_exc')
            if e is None:
                self.throw(RuntimeError('No active exception to reraise'))
            raise e
        v = self.eval(n.exc, sc, mod)
        if isinstance(v, VClass) or (isinstance(v, type) and issubclass(v, BaseException)):
            v = self.call(v, [], {})
        if not (isinstance(v, BaseException) or (isinstance(v, VInst) and v.cls.is_exc())):
            self.throw(TypeError('exceptions must derive from BaseException'))
        if n.cause is not None:
            c = self.eval(n.cause, sc, mod)
            if isinstance(c, VClass) or (isinstance(c, type) and issubclass(c, BaseException)):
                c = self.call(c, [], {})
            if isinstance(v, VInst):
                v.d['__cause__'] = c
            elif isinstance(c, BaseException) or c is None:
                v.__cause__ = c
        self.throw(v)

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(t, VClass):
            return isinstance(e, VInst) and t in e.cls.mro
        if isinstance(t, type):
            if isinstance(e, VInst):
                return t in e.cls.mro
            return isinstance(e, t)
        if isinstance(t, OpaqueModule):
            return self.decide(('exc', repr(t)))
        self.throw(TypeError('catching classes that do not inherit from BaseException is not allowed'))

    def x_Try(self, n, sc, mod):
        depth = len(self.stack)
        try:
            try:
                self.exec_block(n.body, sc, mod)
            except PyRaise as e:
                del self.stack[depth:]
                for h in n.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, sc, mod)):
                        if h.name:
                            self.bind(h.name, e.exc, sc)
                        old = self.user.get('_exc')
                        self.user['_exc'] = e
                        try:
                            self.exec_block(h.body, sc, mod)
                        finally:
                            self.user['_exc'] = old
                            if h.name:
                                sc.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, sc, mod)
        finally:
            if n.finalbody and not isinstance(sys.exc_info()[1], (Unsupported, FuelOut, PathPruned)):
                self.exec_block(n.finalbody, sc, mod)

    def leave(self, m, exc):
        """calls __exit__; true if it swallows the exception"""
        f = self.getattr(m, '__exit__')
        if exc is None:
            return self.truth(self.call(f, [None, None, None], {}))
        t = exc.cls if isinstance(exc, VInst) else type(exc)
        return self.truth(self.call(f, [t, exc, None], {}))

    def x_With(self, n, sc, mod, i=0):
        if i == len(n.items):
            self.exec_block(n.body, sc, mod)
            return
        item = n.items[i]
        m = self.eval(item.context_expr, sc, mod)
        v = self.call(self.getattr(m, '__enter__'), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, sc, mod)
        try:
            self.x_With(n, sc, mod, i + 1)
        except PyRaise as e:
            if not self.leave(m, e.exc):
                raise
        except (_Return, _Break, _Continue):
            self.leave(m, None)
            raise
        else:
            self.leave(m, None)

    def x_FunctionDef(self, n, sc, mod):
        f = self.make_func(n, sc, mod, n.name)
        for d in reversed(n.decorator_list):
            f = self.call(self.eval(d, sc, mod), [f], {})
        self.bind(n.name, f, sc)

    def make_func(self, n, sc, mod, name):
        a = n.args
        cls = None
        if sc.kind == 'class':
            cls = sc.func
        elif sc.kind == 'function' and sc.func is not None:
            cls = (sc.func.cls + '.' if sc.func.cls else '') + sc.func.name + '.<locals>'
        return VFunc(n, sc if sc.kind != 'module' else None, mod, name,
                     [self.eval(d, sc, mod) for d in a.defaults],
                     [_MISSING if d is None else self.eval(d, sc, mod) for d in a.kw_defaults], cls)

    def x_ClassDef(self, n, sc, mod):
        bases = []
        for b in n.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.tolist(self.eval(b.value, sc, mod)))
            else:
                bases.append(self.eval(b, sc, mod))
        kw = {k.arg: self.eval(k.value, sc, mod) for k in n.keywords}
        _mangle(n, n.name)
        csc = Scope('class', mod.ns, sc if sc.kind != 'module' else None, func=n.name)
        doc = ast.get_docstring(n)
        if doc is not None:
            csc.vars['__doc__'] = doc
        self.stack.append([mod.name + '.' + n.name + ':<class>', mod.path, n])
        try:
            self.exec_block(n.body, csc, mod)
        finally:
            self.stack.pop()
        r = self.make_class(n.name, bases, csc.vars, mod, kw)
        for d in reversed(n.decorator_list):
            r = self.call(self.eval(d, sc, mod), [r], {})
        self.bind(n.name, r, sc)

    def make_class(self, name, bases, ns, mod, kw=None):
        kw = dict(kw or {})
        meta = kw.pop('metaclass', None)
        if meta is not None and getattr(meta, '__name__', '') != 'ABCMeta' and meta != type:
            raise Unsupported('metaclass %r of class %s' % (meta, name))
        hooks = [b for b in bases if hasattr(b, '_ikb_class')]
        if hooks:
            return hooks[0]._ikb_class(self, name, bases, ns, mod)
        bases = [getattr(b, '_t', b) if type(b).__name__ == '_ConvBase' else b for b in bases]
        host = [b for b in bases if isinstance(b, type) and b is not object and not issubclass(b, BaseException)]
        if host:
            if any(isinstance(b, VClass) for b in bases):
                raise Unsupported('class %s derives from %s and a class of the program' % (name, host[0].__name__))
            return self.host_class(name, tuple(bases), ns)
        bases = [b if isinstance(b, (VClass, type)) else object for b in bases] or [object]
        if len(bases) > 1:
            bases = [b for b in bases if b is not object] or [object]
        c = VClass(name, bases, ns, mod)
        for v in ns.values():
            self.own(v, c)
        for k, v in list(ns.items()):
            if isinstance(v, VInst):
                f, _ = v.cls.lookup('__set_name__')
                if isinstance(f, VFunc):
                    self.call(VBound(f, v), [c, k], {})
        for b in c.mro[1:]:
            if isinstance(b, VClass) and '__init_subclass__' in b.ns:
                f = b.ns['__init_subclass__']
                self.call(f.f if isinstance(f, VClassMethod) else f, [c], kw)
                break
        return c

    def own(self, v, c):
        g = v.f if isinstance(v, (VStatic, VClassMethod)) else v
        for h in ((g.fget, g.fset, g.fdel) if isinstance(g, VProperty) else (g,)):
            if isinstance(h, VFunc):
                h.defcls = c
        if isinstance(g, VInst):
            for h in g.d.values():
                if isinstance(h, VFunc) and not hasattr(h, 'defcls'):
                    h.defcls = c

    def host_class(self, name, bases, ns):
        """a class of the program that derives from a class of the host (list, dict, a named tuple, ...)"""
        def wrap(v):
            if isinstance(v, VFunc):
                return lambda *a, **k: CUR.call(v, list(a), k)
            if isinstance(v, VProperty):
                return property(lambda o: CUR.call(v.fget, [o], {}),
                                None if v.fset is None else lambda o, x: CUR.call(v.fset, [o, x], {}))
            if isinstance(v, VStatic):
                return staticmethod(wrap(v.f) if isinstance(v.f, VFunc) else v.f)
            if isinstance(v, VClassMethod):
                return classmethod(wrap(v.f))
            return v
        c = type(name, bases, {k: wrap(v) for k, v in ns.items() if k != '__annotations__'})
        for v in ns.values():
            self.own(v, c)
        return c

    def x_Match(self, n, sc, mod):
        v = self.eval(n.subject, sc, mod)
        for c in n.cases:
            if self.match_pat(c.pattern, v, sc, mod) and \
                    (c.guard is None or self.truth(self.eval(c.guard, sc, mod))):
                self.exec_block(c.body, sc, mod)
                return

    def match_pat(self, p, v, sc, mod):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare_eq(v, self.eval(p.value, sc, mod)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, sc, mod) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, sc, mod):
                return False
            if p.name:
                self.bind(p.name, v, sc)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if len(v) != n if not star else len(v) < n - 1:
                return False
            i = star[0] if star else n
            k = n - i - 1
            for q, x in zip(p.patterns[:i], v):
                if not self.match_pat(q, x, sc, mod):
                    return False
            if star:
                if p.patterns[i].name:
                    self.bind(p.patterns[i].name, list(v[i:len(v) - k]), sc)
                for q, x in zip(p.patterns[i + 1:], v[len(v) - k:]):
                    if not self.match_pat(q, x, sc, mod):
                        return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            keys = [self.eval(k, sc, mod) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                if k not in v or not self.match_pat(q, v[k], sc, mod):
                    return False
            if p.rest:
                self.bind(p.rest, {k: x for k, x in v.items() if k not in keys}, sc)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, sc, mod)
            if not self.truth(self.call(self.builtins['isinstance'], [v, c], {})):
                return False
            if p.patterns:
                if type(c).__name__ == '_ConvBase':
                    if len(p.patterns) > 1 or not self.match_pat(p.patterns[0], v, sc, mod):
                        return False
                else:
                    names = self.getattr(c, '__match_args__', ())
                    if len(names) < len(p.patterns):
                        self.throw(TypeError('%r() accepts %d positional sub-patterns' % (c, len(names))))
                    for nm, q in zip(names, p.patterns):
                        x = self.getattr(v, nm, _MISSING)
                        if x is _MISSING or not self.match_pat(q, x, sc, mod):
                            return False
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, nm, _MISSING)
                if x is _MISSING or not self.match_pat(q, x, sc, mod):
                    return False
            return True
        raise Unsupported('match pattern %s' % type(p).__name__)

    def assign(self, t, v, sc, mod):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, sc, mod), self.eval(t.slice, sc, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.tolist(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    self.throw(ValueError('not enough values to unpack'))
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                self.throw(ValueError('%s values to unpack (expected %d)' % (
                    'too many' if len(vs) > len(t.elts) else 'not enough', len(t.elts))))
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc, mod)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    # ---- items
    def index(self, k):
        if isinstance(k, Poly) and k.is_const() and k.constval().denominator == 1:
            return int(k.constval())
        if isinstance(k, tuple):
            return tuple(self.index(x) for x in k)
        return k

    def getitem(self, o, k):
        if isinstance(o, VInst):
            f, _ = o.cls.lookup('__getitem__')
            if isinstance(f, VFunc):
                return self.call(VBound(f, o), [k], {})
            self.throw(TypeError("'%s' object is not subscriptable" % o.cls.name))
        if isinstance(o, VClass):
            f, _ = o.lookup('_ikb_getitem')
            if f is not None:
                return self.call(self.getattr(o, '_ikb_getitem'), [k], {})
            f, _ = o.lookup('__class_getitem__')
            if f is not None:
                return self.call(VBound(f, o) if isinstance(f, VFunc) else self.getattr(o, '__class_getitem__'), [k], {})
            self.throw(TypeError("type '%s' is not subscriptable" % o.name))
        if not isinstance(o, dict):
            k = self.index(k)
        if isinstance(o, (list, tuple, str)) and isinstance(k, (Poly, Cond)):
            raise Unsupported('subscript with an undetermined index at %s' % self.where())
        try:
            return o[k]
        except HOSTERR as e:
            self.throw(e)

    def setitem(self, o, k, v):
        if isinstance(o, VInst):
            f, _ = o.cls.lookup('__setitem__')
            if isinstance(f, VFunc):
                self.call(VBound(f, o), [k, v], {})
                return
            self.throw(TypeError("'%s' object does not support item assignment" % o.cls.name))
        if not isinstance(o, dict):
            k = self.index(k)
        try:
            o[k] = v
        except HOSTERR as e:
            self.throw(e)

    # ---- expressions
    def eval(self, n, sc, mod):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.where()))
        return m(n, sc, mod)

    def e_Constant(self, n, sc, mod):
        if isinstance(n.value, complex):
            from .poly import sym
            return sym('I') * n.value.imag
        return n.value

    def e_Name(self, n, sc, mod):
        return self.load(n.id, sc)

    def e_Attribute(self, n, sc, mod):
        return self.getattr(self.eval(n.value, sc, mod), n.attr)

    def e_Subscript(self, n, sc, mod):
        return self.getitem(self.eval(n.value, sc, mod), self.eval(n.slice, sc, mod))

    def e_Slice(self, n, sc, mod):
        g = lambda x: None if x is None else self.index(self.eval(x, sc, mod))
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Index(self, n, sc, mod):
        return self.eval(n.value, sc, mod)

    def e_Tuple(self, n, sc, mod):
        return tuple(self.elts(n.elts, sc, mod))

    def e_List(self, n, sc, mod):
        return self.elts(n.elts, sc, mod)

    def e_Set(self, n, sc, mod):
        return set(self.elts(n.elts, sc, mod))

    def elts(self, es, sc, mod):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.tolist(self.eval(e.value, sc, mod)))
            else:
                out.append(self.eval(e, sc, mod))
        return out

    def e_Dict(self, n, sc, mod):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, sc, mod))
            else:
                kk = self.eval(k, sc, mod)
                try:
                    hash(kk)
                except TypeError as e:
                    self.throw(e)
                d[kk] = self.eval(v, sc, mod)
        return d

    def e_BoolOp(self, n, sc, mod):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.eval(x, sc, mod)
            t = self.truth(v)
            if t != isand:
                return t if isinstance(v, Cond) else v
        return bool(v) if isinstance(v, Cond) else v

    def e_UnaryOp(self, n, sc, mod):
        v = self.eval(n.operand, sc, mod)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        nm = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(n.op)]
        if isinstance(v, VInst):
            f, _ = v.cls.lookup('__%s__' % nm)
            if isinstance(f, VFunc):
                return self.call(VBound(f, v), [], {})
        try:
            return {'neg': operator.neg, 'pos': operator.pos, 'invert': operator.invert}[nm](v)
        except HOSTERR as e:
            self.throw(e)

    def e_BinOp(self, n, sc, mod):
        a = self.eval(n.left, sc, mod)
        b = self.eval(n.right, sc, mod)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        nm = DUN[type(op)]
        if isinstance(a, VInst):
            f, _ = a.cls.lookup('__%s__' % nm)
            if isinstance(f, VFunc):
                r = self.call(VBound(f, a), [b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(b, VInst):
            f, _ = b.cls.lookup('__r%s__' % nm)
            if isinstance(f, VFunc):
                r = self.call(VBound(f, b), [a], {})
                if r is not NotImplemented:
                    return r
        if isinstance(a, VInst) and not (isinstance(a, str)) or (isinstance(b, VInst) and not isinstance(a, str)):
            self.throw(TypeError('unsupported operand type(s) for %s' % nm))
        if isinstance(a, list) and isinstance(op, ast.Add) and not isinstance(b, list):
            self.throw(TypeError('can only concatenate list (not "%s") to list' % type(b).__name__))
        if isinstance(a, Cond):
            a = bool(a)
        if isinstance(b, Cond):
            b = bool(b)
        try:
            return BINOPS[type(op)](a, b)
        except HOSTERR as e:
            self.throw(e)

    def e_Compare(self, n, sc, mod):
        a = self.eval(n.left, sc, mod)
        r = True
        for op, c in zip(n.ops, n.comparators):
            b = self.eval(c, sc, mod)
            r = self.compare(op, a, b)
            if len(n.ops) > 1 and not self.truth(r):
                return r
            a = b
        return r

    def e_IfExp(self, n, sc, mod):
        return self.eval(n.body if self.truth(self.eval(n.test, sc, mod)) else n.orelse, sc, mod)

    def e_Lambda(self, n, sc, mod):
        return self.make_func(n, sc, mod, '<lambda>')

    def e_NamedExpr(self, n, sc, mod):
        v = self.eval(n.value, sc, mod)
        self.bind(n.target.id, v, sc)
        return v

    def e_JoinedStr(self, n, sc, mod):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.e_FormattedValue(v, sc, mod))
        return ''.join(out)

    def e_FormattedValue(self, v, sc, mod):
        x = self.eval(v.value, sc, mod)
        if v.conversion == 114:
            x = repr(x)
        elif v.conversion == 115:
            x = str(x)
        spec = self.e_JoinedStr(v.format_spec, sc, mod) if v.format_spec else ''
        try:
            return format(x, spec)
        except HOSTERR as e:
            self.throw(e)

    def e_Call(self, n, sc, mod):
        f = self.eval(n.func, sc, mod)
        if f is _SUPER:
            return self.do_super(n, sc, mod)
        if f is _LOCALS:
            return sc.vars
        if f is _GLOBALS:
            return sc.globals
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.tolist(self.eval(a.value, sc, mod)))
            else:
                args.append(self.eval(a, sc, mod))
        for k in n.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, sc, mod))
            else:
                kwargs[k.arg] = self.eval(k.value, sc, mod)
        if getattr(f, '_wants_scope', False):
            return f(sc, *args, **kwargs)
        if isinstance(f, VFunc) or isinstance(f, VBound) or isinstance(f, VClass):
            self.stack[-1][2] = n
        return self.call(f, args, kwargs)

    def do_super(self, n, sc, mod):
        if n.args:
            a = [self.eval(x, sc, mod) for x in n.args]
            inst = a[1]
            cls = a[0]
            if isinstance(cls, type):
                return VSuper(cls, inst)
            if not isinstance(cls, VClass):
                self.throw(TypeError('super() argument 1 must be a type'))
            icls = inst.cls if isinstance(inst, VInst) else inst
            if cls not in icls.mro:
                self.throw(TypeError('super(type, obj): obj must be an instance or subtype of type'))
            return VSuper(cls, inst)
        s = sc
        while s is not None and s.kind != 'function':
            s = s.parent
        f = s.func
        a = f.node.args
        first = (a.posonlyargs + a.args)[0].arg if a.posonlyargs + a.args else a.vararg.arg
        inst = s.vars[first] if a.posonlyargs + a.args else s.vars[first][0]
        return VSuper(f.defcls, inst)

    def comp(self, gens, sc, mod, leaf):
        names = set()
        for g in gens:
            for w in ast.walk(g.target):
                if isinstance(w, ast.Name):
                    names.add(w.id)
        inner = Scope('comp', sc.globals, sc, names)

        def rec(i):
            if i == len(gens):
                yield leaf(inner)
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, sc if i == 0 else inner, mod))
            for v in it:
                self.tickfuel()
                self.assign(g.target, v, inner, mod)
                if all(self.truth(self.eval(c, inner, mod)) for c in g.ifs):
                    for x in rec(i + 1):
                        yield x
        return rec(0)

    def e_ListComp(self, n, sc, mod):
        return list(self.comp(n.generators, sc, mod, lambda s: self.eval(n.elt, s, mod)))

    def e_SetComp(self, n, sc, mod):
        return set(self.comp(n.generators, sc, mod, lambda s: self.eval(n.elt, s, mod)))

    def e_GeneratorExp(self, n, sc, mod):
        return self.comp(n.generators, sc, mod, lambda s: self.eval(n.elt, s, mod))

    def e_DictComp(self, n, sc, mod):
        return dict(self.comp(n.generators, sc, mod,
                              lambda s: (self.eval(n.key, s, mod), self.eval(n.value, s, mod))))

    def e_Starred(self, n, sc, mod):
        raise Unsupported('starred expression')

    def e_Yield(self, n, sc, mod):
        raise Unsupported('yield inside an expression at %s' % self.where())
    e_YieldFrom = e_Yield

    # ---- generator functions: the statements that contain a yield are executed by host generators
    def g_block(self, body, sc, mod):
        for s in body:
            if not _has_yield(s):
                self.exec(s, sc, mod)
                continue
            self.tickfuel()
            self.stack[-1][2] = s
            m = getattr(self, 'g_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('yield in %s at %s' % (type(s).__name__, self.where()))
            yield from m(s, sc, mod)

    def g_value(self, n, sc, mod):
        """value of an expression statement part that may be a yield"""
        if isinstance(n, ast.Yield):
            v = yield (None if n.value is None else (yield from self.g_value(n.value, sc, mod)))
            return v
        if isinstance(n, ast.YieldFrom):
            src = self.eval(n.value, sc, mod)
            if isinstance(src, VGen):
                r = yield from src
                return r
            for x in self.iterate(src):
                yield x
            return None
        if n is None or not _has_yield(n):
            return None if n is None else self.eval(n, sc, mod)
        # operands are evaluated from left to right: replace the parts that yield by their values
        if isinstance(n, (ast.BinOp, ast.Compare, ast.Call, ast.Tuple, ast.List, ast.UnaryOp, ast.Attribute,
                          ast.Subscript, ast.IfExp, ast.Starred)) and not isinstance(n, ast.IfExp):
            c = _copy.copy(n)
            for field, val in ast.iter_fields(n):
                if isinstance(val, ast.expr):
                    setattr(c, field, (yield from self.g_part(val, sc, mod)))
                elif isinstance(val, list) and val and isinstance(val[0], ast.expr):
                    new = []
                    for x in val:
                        new.append((yield from self.g_part(x, sc, mod)))
                    setattr(c, field, new)
                elif isinstance(val, list) and val and isinstance(val[0], ast.keyword) and _has_yield(n):
                    if any(_has_yield(x) for x in val):
                        raise Unsupported('yield in a keyword argument at %s' % self.where())
            return self.eval(c, sc, mod)
        raise Unsupported('yield inside %s at %s' % (type(n).__name__, self.where()))

    def g_part(self, n, sc, mod):
        if isinstance(n, ast.Starred) or isinstance(n, (ast.Constant,)):
            if _has_yield(n):
                raise Unsupported('yield inside a starred expression at %s' % self.where())
            return n
        v = yield from self.g_value(n, sc, mod)
        return _Value(v)

    def e__Value(self, n, sc, mod):
        return n.v

    def g_Expr(self, n, sc, mod):
        yield from self.g_value(n.value, sc, mod)

    def g_Return(self, n, sc, mod):
        raise _Return((yield from self.g_value(n.value, sc, mod)))

    def g_Assign(self, n, sc, mod):
        v = yield from self.g_value(n.value, sc, mod)
        for t in n.targets:
            self.assign(t, v, sc, mod)

    def g_AnnAssign(self, n, sc, mod):
        v = yield from self.g_value(n.value, sc, mod)
        self.assign(n.target, v, sc, mod)

    def g_AugAssign(self, n, sc, mod):
        c = _copy.copy(n)
        c.value = _Value((yield from self.g_value(n.value, sc, mod)))
        self.x_AugAssign(c, sc, mod)

    def g_If(self, n, sc, mod):
        t = self.truth((yield from self.g_value(n.test, sc, mod)))
        yield from self.g_block(n.body if t else n.orelse, sc, mod)

    def g_While(self, n, sc, mod):
        while True:
            if not self.truth((yield from self.g_value(n.test, sc, mod))):
                yield from self.g_block(n.orelse, sc, mod)
                return
            try:
                yield from self.g_block(n.body, sc, mod)
            except _Break:
                return
            except _Continue:
                pass
            self.tickfuel()

    def g_For(self, n, sc, mod):
        for v in self.iterate((yield from self.g_value(n.iter, sc, mod))):
            self.assign(n.target, v, sc, mod)
            try:
                yield from self.g_block(n.body, sc, mod)
            except _Break:
                return
            except _Continue:
                pass
            self.tickfuel()
        yield from self.g_block(n.orelse, sc, mod)

    def g_Match(self, n, sc, mod):
        v = yield from self.g_value(n.subject, sc, mod)
        for c in n.cases:
            if self.match_pat(c.pattern, v, sc, mod) and \
                    (c.guard is None or self.truth(self.eval(c.guard, sc, mod))):
                yield from self.g_block(c.body, sc, mod)
                return

    def g_Try(self, n, sc, mod):
        try:
            try:
                yield from self.g_block(n.body, sc, mod)
            except (PyRaise, GeneratorExit) as e:
                exc = e.exc if isinstance(e, PyRaise) else e
                for h in n.handlers:
                    if h.type is None or self.exc_match(exc, self.eval(h.type, sc, mod)):
                        if h.name:
                            self.bind(h.name, exc, sc)
                        old = self.user.get('_exc')
                        self.user['_exc'] = e
                        try:
                            yield from self.g_block(h.body, sc, mod)
                        finally:
                            self.user['_exc'] = old
                            if h.name:
                                sc.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                yield from self.g_block(n.orelse, sc, mod)
        finally:
            if n.finalbody and self.stack and not isinstance(sys.exc_info()[1], (Unsupported, FuelOut, PathPruned)):
                yield from self.g_block(n.finalbody, sc, mod)

    def g_With(self, n, sc, mod):
        if len(n.items) > 1:
            inner = _copy.copy(n)
            inner.items = n.items[1:]
            outer = _copy.copy(n)
            outer.items, outer.body = n.items[:1], [inner]
            yield from self.g_With(outer, sc, mod)
            return
        item = n.items[0]
        m = yield from self.g_value(item.context_expr, sc, mod)
        v = self.call(self.getattr(m, '__enter__'), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, sc, mod)
        try:
            yield from self.g_block(n.body, sc, mod)
        except (PyRaise, GeneratorExit) as e:
            if not self.leave(m, e.exc if isinstance(e, PyRaise) else e):
                raise
        except (_Return, _Break, _Continue):
            self.leave(m, None)
            raise
        else:
            self.leave(m, None)


def safe_repr(x):
    if isinstance(x, VInst):
        nm = x.d.get('name', x.d.get('Name', x.d.get('id', '')))
        return x.cls.name + repr(nm)
    return repr(x)


def _flip(c, neg, it):
    if not neg:
        return c
    return not it.truth(c)


class _M:
    def __repr__(self):
        return '<missing>'


_MISSING = _M()
_SUPER = _M()
_LOCALS = _M()
_GLOBALS = _M()
