"""Models of Python builtins and standard-library modules for the abstract interpreter."""
import builtins as _b
import collections
import copy as _copy
import functools
import itertools
import math as _math
import operator as _op
import posixpath as _pp
import re as _re

from . import interp as I
from .interp import (Native, OpaqueModule, VModule, VClass, VInst, VFunc, VBound, VProperty, VStatic, VClassMethod,
                     PyRaise, Cond, Unsupported, hole)
from .poly import Poly, sym


class Unmodelled(OpaqueModule):
    """a function of the algebra libraries that has no model: calling it gives no answer (never a wrong one)"""
    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return Unmodelled(self._n + '.' + k)

    def __call__(self, *a, **k):
        raise I.Unsupported('call of %s, which has no model' % self._n)


class NS(Native):
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__dict__['_name'] = name

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        n = self.__dict__['_name']
        return (Unmodelled if n.split('.')[0] in ('sympy', 'numpy') else OpaqueModule)(n + '.' + k)

    def star_names(self):
        return [k for k in self.__dict__ if not k.startswith('_')]

    def __repr__(self):
        return '<model %s>' % self.__dict__['_name']


class FileModel(Native):
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.closed = False
        it = I.cur()
        if 'a' in mode:
            it.files.setdefault(name, [])
        elif 'w' in mode:
            it.files[name] = []
        it.event('open', name, mode)
        self.buf = it.files.setdefault(name, [])

    def write(self, s):
        if not isinstance(s, (str, bytes, _Pickled)):
            I.cur().throw(TypeError('write() argument must be str, not %s' % type(s).__name__))
        if self.closed:
            I.cur().throw(ValueError('I/O operation on closed file.'))
        self.buf.append(s)
        I.cur().event('write', self.name)

    def writelines(self, xs):
        for x in I.cur().iterate(xs):
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True
        I.cur().event('close', self.name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return None

    def read(self, *a):
        if len(self.buf) == 1 and isinstance(self.buf[0], _Pickled):
            return self.buf[0]
        return ''.join(self.buf)

    def readlines(self):
        return ''.join(self.buf).splitlines(True)

    def __iter__(self):
        return iter(self.readlines())


def _norm(p):
    return '/'.join(x for x in str(p).split('/') if x not in ('', '.'))


class _Pickled:
    """the content of a pickle file: a deep copy of what was dumped"""
    def __init__(self, o):
        self.o = o


def _m_pickle(it):
    def dump(o, f, *a, **k):
        f.buf.append(_Pickled(_copy.deepcopy(o)))
        it.event('pickle', f.name)

    def load(f, *a, **k):
        pos = f.__dict__.setdefault('_pos', 0)
        objs = [x for x in f.buf if isinstance(x, _Pickled)]
        if pos >= len(objs):
            it.throw(EOFError('Ran out of input'))
        f._pos = pos + 1
        return _copy.deepcopy(objs[pos].o)
    return NS('pickle', dump=dump, load=load, dumps=lambda o, *a, **k: _Pickled(_copy.deepcopy(o)),
              loads=lambda b, *a, **k: _copy.deepcopy(b.o), HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4,
              PickleError=ValueError, UnpicklingError=ValueError)


def _open(name, mode='r', *a, **k):
    it = I.cur()
    h = it.user.get('open')
    if h:
        return h(name, mode)
    if it.user.get('fs'):
        name = _norm(name)
        if 'r' in mode and name not in it.files:
            it.throw(FileNotFoundError(2, 'No such file or directory', name))
        if name.rpartition('/')[0] not in it.user.setdefault('dirs', {''}):
            it.throw(FileNotFoundError(2, 'No such file or directory', name))
    return FileModel(name, mode)


def make_builtins(it):
    d = {}
    for n in ('abs', 'round', 'divmod', 'pow', 'range', 'ord', 'chr', 'bin', 'hex', 'format', 'slice', 'object',
              'bytes', 'bytearray', 'complex', 'Ellipsis', 'NotImplemented', 'oct', 'ascii'):
        d[n] = getattr(_b, n)
    for n in dir(_b):
        v = getattr(_b, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = v
    d['True'], d['False'], d['None'] = True, False, None
    d['__debug__'] = True
    d['__name__'] = 'builtins'

    def _print(*a, **k):
        f = k.get('file')
        if f is None:
            f = it.modules['sys'].stdout if 'sys' in it.modules else None
        if f is None or isinstance(f, FileModelStd):
            if 'shown' in it.user:
                it.user['shown'].extend(a)
            for x in a:
                if isinstance(x, VInst):
                    str(x)
            return
        sep, end = k.get('sep'), k.get('end')
        it.call(it.getattr(f, 'write'), [(' ' if sep is None else sep).join(str(x) for x in a)
                                         + ('\n' if end is None else end)], {})
    d['print'] = _print

    def _len(x):
        if isinstance(x, VClass) and x.lookup('_ikb_len')[0] is not None:
            return it.call(it.getattr(x, '_ikb_len'), [], {})
        return len(x)
    d['len'] = _len

    class _TypeConv:
        """int/str/list/... as callables that also work in isinstance() and type() comparisons"""
    def conv(t, f):
        return _Conv(t, f)

    d['int'] = _conv(int, lambda x=0, *a: _int(x, *a))
    d['float'] = _conv(float, lambda x=0.0: _float(x))
    d['bool'] = _conv(bool, lambda x=False: it.truth(x))
    d['callable'] = lambda x: isinstance(x.cls.lookup('__call__')[0], VFunc) if isinstance(x, VInst) else callable(x)
    d['round'] = lambda x, *a, **k: _round(it, x, *a, **k)
    d['str'] = _conv(str, lambda x='', *a: _str(x) if not a else str(x, *a))
    d['list'] = _conv(list, lambda x=(): it.tolist(x))
    d['tuple'] = _conv(tuple, lambda x=(): tuple(it.tolist(x)))
    d['set'] = _conv(set, lambda x=(): set(it.tolist(x)))
    d['frozenset'] = _conv(frozenset, lambda x=(): frozenset(it.tolist(x)))
    d['dict'] = _conv(dict, lambda *a, **k: _dict(it, *a, **k))
    d['type'] = _conv(type, lambda x, *a: it.make_class(x, list(a[0]), dict(a[1]), it.modules.get('__main__') or VModule('<type>'))
                      if a else _type(x))
    d['isinstance'] = lambda x, t: _isinstance(it, x, t)
    d['issubclass'] = lambda x, t: _issubclass(x, t)
    d['repr'] = lambda x: repr(x) if isinstance(x, (str, VInst)) else _str(x)
    d['hash'] = lambda x: hash(x)
    d['id'] = lambda x: id(x)
    d['iter'] = lambda x, *a: it.iterate(x) if not a else iter(x, *a)
    d['next'] = lambda x, *a: _next(it, x, *a)
    d['enumerate'] = lambda x, start=0: enumerate(it.iterate(x), start)
    d['zip'] = lambda *xs, **k: zip(*[it.iterate(x) for x in xs], **k)
    d['map'] = lambda f, *xs: map(lambda *a: it.call(f, list(a), {}), *[it.iterate(x) for x in xs])
    d['filter'] = lambda f, xs: (x for x in it.iterate(xs) if it.truth(x if f is None else it.call(f, [x], {})))
    d['reversed'] = lambda x: reversed(x if isinstance(x, (list, tuple, range, str, dict)) else it.tolist(x))
    d['sorted'] = lambda xs, key=None, reverse=False: _sorted(it, xs, key, reverse)
    d['any'] = lambda xs: any(it.truth(x) for x in it.iterate(xs))
    d['all'] = lambda xs: all(it.truth(x) for x in it.iterate(xs))
    d['sum'] = lambda xs, start=0: _sum(it, xs, start)
    d['min'] = lambda *a, **k: _minmax(it, 'min', a, k)
    d['max'] = lambda *a, **k: _minmax(it, 'max', a, k)
    d['getattr'] = lambda o, n, *dflt: it.getattr(o, n, *dflt)
    d['hasattr'] = lambda o, n: _hasattr(it, o, n)
    d['setattr'] = lambda o, n, v: it.setattr(o, n, v)
    d['delattr'] = lambda o, n: it.delattr(o, n)
    d['vars'] = lambda o: it.getattr(o, '__dict__')
    d['dir'] = lambda o: sorted(o.d) if isinstance(o, VInst) else sorted(getattr(o, 'ns', {}))
    d['open'] = _open
    d['input'] = lambda *a: hole('input')
    d['quit'] = d['exit'] = lambda *a: it.throw(SystemExit(*a))
    d['super'] = I._SUPER
    d['locals'] = I._LOCALS
    d['globals'] = I._GLOBALS
    d['property'] = lambda fget=None, fset=None, fdel=None, doc=None: VProperty(fget, fset, fdel)
    d['staticmethod'] = lambda f: VStatic(f)
    d['classmethod'] = lambda f: VClassMethod(f)
    d['__import__'] = lambda n, *a: it.import_module(n)
    return d


def _round(it, x, n=None):
    if isinstance(x, VInst):
        return it.call(it.getattr(x, '__round__'), [] if n is None else [n], {})
    if isinstance(x, Poly):
        if x.is_const():
            c = x.constval()
            return round(c) if n is None else round(float(c), n)
        if str(x) == 'pi':
            return round(_math.pi) if n is None else round(_math.pi, n)
        raise Unsupported('round() of an undetermined value')
    return round(x) if n is None else round(x, n)


_conv_cache = {}


class _ConvBase(Native):
    def __init__(self, t, f):
        self._t, self._f = t, f

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, k):
        if k in ('_t', '_f'):
            raise AttributeError(k)
        return getattr(self._t, k)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return (self,) + (o if isinstance(o, tuple) else (o,))

    def __ror__(self, o):
        return (o if isinstance(o, tuple) else (o,)) + (self,)

    def __eq__(self, o):
        return (o._t if isinstance(o, _ConvBase) else o) is self._t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._t)

    def __repr__(self):
        return repr(self._t)

    def __deepcopy__(self, m):
        return self


def _conv(t, f):
    return _ConvBase(t, f)


def _str(x):
    if isinstance(x, str):
        return x
    return str(x)


def _int(x, *a):
    if isinstance(x, Poly):
        if x.is_const():
            return int(x.constval())
        raise Unsupported('int() of an undetermined value')
    if isinstance(x, Cond):
        return int(bool(x))
    return int(x, *a) if a else int(x)


def _float(x):
    if isinstance(x, Poly):
        return x
    return float(x)


def _dict(it, *a, **k):
    r = {}
    if a:
        if isinstance(a[0], dict):
            r.update(a[0])
        else:
            for kv in it.iterate(a[0]):
                kk, vv = it.tolist(kv)
                r[kk] = vv
    r.update(k)
    return r


def _type(x):
    if isinstance(x, VInst):
        return x.cls
    if isinstance(x, Cond):
        return it_conv(bool)
    if isinstance(x, Poly):
        from . import sympy_model
        return sympy_model.type_of(x)
    return it_conv(type(x))


def it_conv(t):
    b = I.cur().builtins
    for v in b.values():
        if isinstance(v, _ConvBase) and v._t is t:
            return v
    return t


def _isinstance(it, x, t):
    if isinstance(t, tuple):
        return any(_isinstance(it, x, y) for y in t)
    if isinstance(t, VClass):
        return isinstance(x, VInst) and t in x.cls.mro
    if t is None:
        return x is None
    if isinstance(t, _ConvBase):
        if t._t is type:
            return isinstance(x, (VClass, type, _ConvBase))
        if isinstance(x, Cond):
            return t._t is bool
        if isinstance(x, Poly):
            return False
        return isinstance(x, t._t)
    if hasattr(t, '_isinstance'):
        return t._isinstance(x)
    if isinstance(t, type):
        if isinstance(x, VInst):
            return t in x.cls.mro or t is object
        return isinstance(x, t)
    if isinstance(t, OpaqueModule):
        return it.decide(('isinstance', repr(x), repr(t)))
    it.throw(TypeError('isinstance() arg 2 must be a type'))


def _issubclass(x, t):
    if isinstance(t, tuple):
        return any(_issubclass(x, y) for y in t)
    if t is object:
        return True
    if isinstance(x, VClass):
        return t in x.mro
    x = x._t if isinstance(x, _ConvBase) else x
    t = t._t if isinstance(t, _ConvBase) else t
    return isinstance(x, type) and isinstance(t, type) and issubclass(x, t)


def _next(it, x, *a):
    if isinstance(x, VInst):
        f, _ = x.cls.lookup('__next__')
        return it.call(VBound(f, x), [], {})
    return next(x, *a)


class _Key:
    __slots__ = ('v', 'it')

    def __init__(self, it, v):
        self.v, self.it = v, it

    def __lt__(self, o):
        import ast
        a, b = self.v, o.v
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if self.it.truth(self.it.compare_eq(x, y)):
                    continue
                return _Key(self.it, x) < _Key(self.it, y)
            return len(a) < len(b)
        return self.it.truth(self.it.compare(ast.Lt(), a, b))


def _sorted(it, xs, key, reverse):
    xs = it.tolist(xs)
    ks = [(_Key(it, x if key is None else it.call(key, [x], {})), x) for x in xs]
    return [x for _, x in sorted(ks, key=lambda t: t[0], reverse=bool(reverse))]


def _sum(it, xs, start):
    import ast
    r = start
    for x in it.iterate(xs):
        r = it.binop(ast.Add(), r, x)
    return r


def _minmax(it, which, a, k):
    import ast
    xs = it.tolist(a[0]) if len(a) == 1 else list(a)
    key = k.get('key')
    if not xs:
        if 'default' in k:
            return k['default']
        it.throw(ValueError('%s() arg is an empty sequence' % which))
    best = xs[0]
    kb = best if key is None else it.call(key, [best], {})
    for x in xs[1:]:
        kx = x if key is None else it.call(key, [x], {})
        if it.truth(it.compare(ast.Lt() if which == 'min' else ast.Gt(), kx, kb)):
            best, kb = x, kx
    return best


def _hasattr(it, o, n):
    try:
        return it.getattr(o, n, I._MISSING) is not I._MISSING
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


class _DefaultDict(dict):
    def __init__(self, f=None, *a):
        dict.__init__(self, *a)
        self.f = f

    def __missing__(self, k):
        if self.f is None:
            raise KeyError(k)
        v = I.cur().call(self.f, [], {})
        self[k] = v
        return v


def _m_copy(it):
    return NS('copy', deepcopy=lambda x, *a: _copy.deepcopy(x), copy=lambda x: _copy.copy(x))


def _reduce(f, xs, *init):
    it = I.cur()
    return functools.reduce(lambda a, b: it.call(f, [a, b], {}), it.iterate(xs), *init)


def _m_functools(it):
    return NS('_functools_host', reduce=_reduce,
              lru_cache=lambda *a, **k: (a[0] if a and callable(a[0]) else (lambda g: g)), cache=lambda g: g,
              cmp_to_key=lambda f: functools.cmp_to_key(lambda a, b: it.call(f, [a, b], {})))


def _m_itertools(it):
    def conv(x):
        return it.iterate(x) if isinstance(x, (set, frozenset, VInst, VClass)) else x

    def w(f):
        def g(*a, **k):
            return f(*[conv(x) for x in a], **k)
        return g

    class _Chain(Native):
        def __call__(self, *a):
            return itertools.chain(*[conv(x) for x in a])

        def from_iterable(self, xs):
            for x in it.iterate(xs):
                for y in it.iterate(x):
                    yield y

    def groupby(xs, key=None):
        return itertools.groupby(conv(xs), None if key is None else lambda x: it.call(key, [x], {}))

    def pred(f):
        return lambda p, xs: f(None if p is None else lambda x: it.truth(it.call(p, [x], {})), conv(xs))

    def accumulate(xs, func=None, *, initial=None):
        import ast
        return itertools.accumulate(conv(xs), (lambda a, b: it.binop(ast.Add(), a, b)) if func is None
                                    else lambda a, b: it.call(func, [a, b], {}), initial=initial)

    def batched(xs, n, *, strict=False):
        xs = iter(it.iterate(xs))
        while True:
            b = tuple(itertools.islice(xs, n))
            if not b:
                return
            yield b
    return NS('itertools', chain=_Chain(), groupby=groupby, accumulate=accumulate, batched=batched,
              takewhile=pred(itertools.takewhile), dropwhile=pred(itertools.dropwhile),
              filterfalse=pred(itertools.filterfalse),
              starmap=lambda f, xs: (it.call(f, it.tolist(x), {}) for x in it.iterate(xs)),
              **{n: w(getattr(itertools, n)) for n in
                 ('product', 'combinations', 'permutations', 'count', 'repeat', 'islice', 'zip_longest', 'cycle',
                  'combinations_with_replacement', 'tee', 'compress', 'pairwise')})


def _m_collections(it):
    return NS('collections',
              OrderedDict=_conv(collections.OrderedDict, lambda *a, **k: collections.OrderedDict(_dict(it, *a, **k))),
              defaultdict=_conv(_DefaultDict, lambda *a, **k: _DefaultDict(*a, **k)),
              deque=_conv(collections.deque, lambda xs=(), *a, **k: collections.deque(it.tolist(xs), *a, **k)),
              Counter=_conv(collections.Counter, lambda *a, **k: collections.Counter(
                  *[x if isinstance(x, dict) else it.tolist(x) for x in a], **k)), ChainMap=collections.ChainMap,
              namedtuple=lambda n, f, *a, **k: collections.namedtuple(n, f if isinstance(f, str) else it.tolist(f), *a, **k),
              UserDict=collections.UserDict, UserList=collections.UserList, UserString=collections.UserString,
              abc=_LazyModule(it, 'collections.abc'))


class _LazyModule(Native):
    def __init__(self, it, name):
        self._it, self._name = it, name

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return self._it.getattr(self._it.import_module(self._name), k)


class _Marker(Native):
    """a base class with its own way of making classes"""
    def __init__(self, make, call=None):
        self._ikb_class = make
        self._call = call

    def __call__(self, *a, **k):
        return self._call(*a, **k)


class _Proto(Native):
    """an abstract collection class: only good for isinstance()"""
    def __init__(self, name):
        self._name = name

    def __getitem__(self, k):
        return self

    def _isinstance(self, x):
        import collections.abc as A
        if isinstance(x, VInst):
            m = {'Iterable': '__iter__', 'Iterator': '__next__', 'Sequence': '__getitem__', 'Mapping': 'keys',
                 'Callable': '__call__', 'Sized': '__len__', 'Container': '__contains__', 'Hashable': '__hash__'}
            return isinstance(x.cls.lookup(m.get(self._name, '__iter__'))[0], VFunc)
        if isinstance(x, (Poly, VModule)):
            return self._name == 'Hashable'
        return isinstance(x, getattr(A, self._name))


def _m_typing(it):
    def named(it, name, bases, ns, mod):
        ann = list(ns.get('__annotations__', {}))
        base = collections.namedtuple(name, ann, defaults=[ns[a] for a in ann if a in ns])
        rest = {k: v for k, v in ns.items() if k not in ann and k != '__annotations__'}
        return it.host_class(name, (base,), dict(rest, __slots__=())) if rest else base

    def call(name, fields=(), **k):
        return collections.namedtuple(name, [it.tolist(f)[0] for f in it.tolist(fields)] + list(k))
    return NS('_typing_host', NamedTuple=_Marker(named, call),
              TypedDict=_Marker(lambda it, *a: it.builtins['dict'], lambda *a, **k: it.builtins['dict']),
              **{n: _Proto(n) for n in ('Iterable', 'Iterator', 'Sequence', 'Mapping', 'Callable', 'Hashable',
                                        'MutableMapping', 'MutableSequence', 'Sized', 'Container', 'Collection',
                                        'Generator', 'Set', 'MutableSet')})


def _host(name):
    """a pure standard-library module whose functions are applied to concrete values"""
    def make(it):
        import importlib
        m = importlib.import_module(name)

        def w(f):
            def g(*a, **k):
                if any(isinstance(x, (Poly, OpaqueModule)) for x in a):
                    raise Unsupported('%s.%s of an undetermined value' % (name, getattr(f, '__name__', '?')))
                return f(*a, **k)
            return g
        return NS(name, **{n: v if isinstance(v, type) or not callable(v) else w(v)
                           for n, v in ((n, getattr(m, n)) for n in dir(m) if not n.startswith('_'))})
    return make


def _m_operator(it):
    import ast
    bins = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv,
            'mod': ast.Mod, 'pow': ast.Pow, 'and_': ast.BitAnd, 'or_': ast.BitOr, 'xor': ast.BitXor,
            'lshift': ast.LShift, 'rshift': ast.RShift, 'matmul': ast.MatMult, 'concat': ast.Add}
    cmps = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'is_': ast.Is,
            'is_not': ast.IsNot}
    d = {n: (lambda a, b, c=c: it.binop(c(), a, b)) for n, c in bins.items()}
    d.update({n: (lambda a, b, c=c: it.compare(c(), a, b)) for n, c in cmps.items()})
    for n in ('neg', 'pos', 'inv', 'invert', 'abs', 'index', 'iadd', 'isub', 'imul', 'ior', 'iand', 'length_hint'):
        d[n] = getattr(_op, n)

    def attrgetter(*ns):
        def one(o, n):
            return functools.reduce(lambda x, p: it.getattr(x, p), n.split('.'), o)
        return lambda o: one(o, ns[0]) if len(ns) == 1 else tuple(one(o, n) for n in ns)
    return NS('operator', not_=lambda x: not it.truth(x), truth=lambda x: it.truth(x),
              contains=lambda c, x: it.contains(c, x), getitem=lambda o, k: it.getitem(o, k),
              setitem=lambda o, k, v: it.setitem(o, k, v), delitem=lambda o, k: it.delitem(o, k),
              call=lambda f, *a, **k: it.call(f, list(a), k),
              countOf=lambda xs, x: sum(1 for y in it.iterate(xs) if it.truth(it.compare_eq(y, x))),
              indexOf=lambda xs, x: it.list_search(it.tolist(xs), 'index', x), attrgetter=attrgetter,
              itemgetter=lambda *ks: (lambda o: it.getitem(o, ks[0]) if len(ks) == 1 else
                                      tuple(it.getitem(o, k) for k in ks)),
              methodcaller=lambda n, *a, **k: (lambda o: it.call(it.getattr(o, n), list(a), k)), **d)


def _m_math(it):
    from .poly import fn, PI

    def w(n, head=None):
        def f(*a):
            if any(isinstance(x, Poly) for x in a):
                return fn(head or n, *a)
            return getattr(_math, n)(*a)
        return f
    d = {n: w(n) for n in ('sin', 'cos', 'tan', 'sqrt', 'atan2', 'floor', 'ceil', 'fabs', 'log', 'exp', 'degrees',
                           'radians', 'hypot', 'isnan', 'isclose', 'gcd', 'prod', 'log2')}
    for n in dir(_math):
        if not n.startswith('_') and n not in d and callable(getattr(_math, n)):
            d[n] = w(n)
    d['degrees'] = lambda x: Poly.of(x) * 180 / PI if isinstance(x, Poly) else _math.degrees(x)
    d['radians'] = lambda x: Poly.of(x) * PI / 180 if isinstance(x, Poly) else _math.radians(x)
    d.update(tau=2 * PI, nan=_math.nan)
    d.update(asin=w('asin'), acos=w('acos'), atan=w('atan'), pi=PI, e=_math.e, inf=_math.inf)
    return NS('math', **d)


def _m_uuid(it):
    def uid():
        n = it.user['_uuid'] = it.user.get('_uuid', 0) + 1
        return 'uuid-%d' % n
    return NS('uuid', uuid1=uid, uuid4=uid)


def _m_time(it):
    from .poly import anyexpr

    def t():
        h = it.user.get('time')
        if h:
            return h()
        n = it.user['_time'] = it.user.get('_time', 0) + 1
        return anyexpr('time%d' % n)
    return NS('time', time=t, sleep=lambda *a: None, monotonic=t, perf_counter=t, strftime=lambda *a: hole('time'))


def _m_sys(it):
    return NS('sys', argv=it.user.get('argv', ['prog']), path=[], stdout=FileModelStd(), stderr=FileModelStd(),
              exit=lambda *a: it.throw(SystemExit(*a)), version_info=(3, 12, 0), maxsize=2 ** 63 - 1, modules={},
              setrecursionlimit=lambda n: None, exc_info=lambda: (None, None, None), version='3')


class FileModelStd(Native):
    def write(self, s):
        pass

    def flush(self):
        pass


def _m_os(it):
    def h(n, dflt):
        def f(*a, **k):
            it.event('os', n) if False else None
            g = it.user.get('os.' + n)
            return g(*a, **k) if g else fs[n](*a, **k) if it.user.get('fs') and n in fs else dflt(*a, **k)
        return f
    dirs = it.user.setdefault('dirs', {''})

    def rm(p):
        if _norm(p) not in it.files:
            it.throw(FileNotFoundError(2, 'No such file or directory', p))
        del it.files[_norm(p)]

    def mv(a, b):
        c = it.files.get(_norm(a))
        rm(a)
        it.files[_norm(b)] = c
    fs = {'path.isdir': lambda p: _norm(p) in dirs, 'path.isfile': lambda p: _norm(p) in it.files,
          'path.exists': lambda p: _norm(p) in dirs or _norm(p) in it.files, 'mkdir': lambda p, *a: dirs.add(_norm(p)),
          'makedirs': lambda p, *a, **k: dirs.update(_norm(p)[:i] for i in range(len(_norm(p)) + 1)
                                                     if i == len(_norm(p)) or _norm(p)[i] == '/'),
          'remove': rm, 'rename': mv,
          'listdir': lambda p='.': sorted(f.rpartition('/')[2] for f in it.files if f.rpartition('/')[0] == _norm(p))}
    path = NS('os.path', isdir=h('path.isdir', lambda p: it.decide(('isdir', p))),
              isfile=h('path.isfile', lambda p: True if str(p).endswith('.py') and __import__('os').path.isfile(__import__('os').path.join(it.project.root, str(p))) else it.decide(('isfile', p))),
              exists=h('path.exists', lambda p: it.decide(('exists', p))),
              join=lambda *a: _pp.join(*[str(x) for x in a]),
              islink=lambda p: False, basename=lambda p: _pp.basename(str(p)), dirname=lambda p: _pp.dirname(str(p)),
              splitext=_pp.splitext, abspath=lambda p: str(p), realpath=lambda p: str(p), split=_pp.split, normpath=_pp.normpath,
              isabs=_pp.isabs, commonprefix=_pp.commonprefix, expanduser=lambda p: str(p), expandvars=lambda p: str(p),
              sep='/', relpath=_pp.relpath, getsize=lambda p: len(''.join(str(x) for x in it.files.get(_norm(p), []))))
    return NS('os', path=path, getcwd=lambda: '/cwd', mkdir=h('mkdir', lambda *a: None),
              makedirs=h('makedirs', lambda *a, **k: None), listdir=h('listdir', lambda *a: []),
              remove=h('remove', lambda *a: None), unlink=h('remove', lambda *a: None),
              rename=h('rename', lambda *a: None), replace=h('rename', lambda *a: None),
              system=h('system', lambda *a: 0), sep='/', linesep='\n', environ={}, getenv=lambda *a: None)


def _m_ospath(it):
    return it.import_module('os').path


class _TestCase:
    pass


def _m_unittest(it):
    return NS('unittest', TestCase=object, main=lambda *a, **k: None, TestLoader=OpaqueModule('TestLoader'))


def _m_re(it):
    def w(n):
        def f(*a, **k):
            a = list(a)
            if n == 'sub' and not isinstance(a[1], str):
                fn_ = a[1]
                a[1] = lambda m: it.call(fn_, [m], {})
            return getattr(_re, n)(*a, **k)
        return f
    return NS('re', **{n: w(n) for n in ('sub', 'match', 'search', 'findall', 'split', 'compile', 'fullmatch',
                                         'finditer', 'escape')},
              M=_re.M, I=_re.I, S=_re.S, MULTILINE=_re.M, IGNORECASE=_re.I, DOTALL=_re.S)


def _m_datetime(it):
    class _D(Native):
        def now(self, *a):
            return self
        today = utcnow = now

        def __str__(self):
            return '2000-01-01 00:00:00'

        def strftime(self, f):
            return '2000-01-01'

        def isoformat(self, *a):
            return '2000-01-01'

        def __call__(self, *a):
            return self
        year, month, day = 2000, 1, 1
    d = _D()
    return NS('datetime', datetime=d, date=d)


def _m_sympy(it):
    from . import sympy_model
    return sympy_model.module(it)


def _m_numpy(it):
    from . import sympy_model
    return sympy_model.numpy_module(it)


def _m_glob(it):
    import os

    def g(pat, *a, **k):
        d, base = os.path.split(pat)
        full = os.path.join(it.project.root, d)
        if not os.path.realpath(full).startswith(os.path.realpath(it.project.root)) or not os.path.isdir(full):
            return []
        import fnmatch
        return [os.path.join(d, f) for f in sorted(os.listdir(full)) if fnmatch.fnmatch(f, base)]
    return NS('glob', glob=g)


MODULES = {
    'copy': _m_copy, '_functools_host': _m_functools, '_typing_host': _m_typing, 'itertools': _m_itertools, 'collections': _m_collections,
    'math': _m_math, 'uuid': _m_uuid, 'time': _m_time, 'sys': _m_sys, 'os': _m_os, 'os.path': _m_ospath,
    'unittest': _m_unittest, 're': _m_re, 'datetime': _m_datetime, 'operator': _m_operator, 'sympy': _m_sympy,
    'numpy': _m_numpy, **{n: _host(n) for n in ('string', 'textwrap', 'json', 'heapq', 'bisect', 'fnmatch', 'keyword', 'shlex', 'html', 'numbers', 'difflib', 'statistics', 'fractions', 'decimal', 'token', 'unicodedata', 'base64', 'hashlib')}, 'pickle': _m_pickle, 'glob': _m_glob,
}
