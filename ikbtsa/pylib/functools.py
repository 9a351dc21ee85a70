from _functools_host import reduce, cmp_to_key, lru_cache, cache

WRAPPER_ASSIGNMENTS = ('__module__', '__name__', '__qualname__', '__doc__')
WRAPPER_UPDATES = ('__dict__',)


def update_wrapper(wrapper, wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    for n in assigned:
        if hasattr(wrapped, n):
            setattr(wrapper, n, getattr(wrapped, n))
    wrapper.__wrapped__ = wrapped
    return wrapper


def wraps(wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    def deco(wrapper):
        return update_wrapper(wrapper, wrapped)
    return deco


class partial:
    def __init__(self, func, /, *args, **keywords):
        self.func, self.args, self.keywords = func, args, keywords

    def __call__(self, /, *a, **k):
        return self.func(*self.args, *a, **{**self.keywords, **k})


class partialmethod:
    def __init__(self, func, /, *args, **keywords):
        self.func, self.args, self.keywords = func, args, keywords

    def __get__(self, obj, cls=None):
        f = self.func if obj is None else self.func.__get__(obj, cls)
        return partial(f, *self.args, **self.keywords)


class cached_property:
    def __init__(self, func):
        self.func = func
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        if self.name not in obj.__dict__:
            obj.__dict__[self.name] = self.func(obj)
        return obj.__dict__[self.name]


def total_ordering(cls):
    if '__lt__' in cls.__dict__:
        if '__gt__' not in cls.__dict__:
            cls.__gt__ = _inherit(cls, lambda a, b: not (a < b) and a != b)
        if '__le__' not in cls.__dict__:
            cls.__le__ = _inherit(cls, lambda a, b: a < b or a == b)
        if '__ge__' not in cls.__dict__:
            cls.__ge__ = _inherit(cls, lambda a, b: not (a < b))
    elif '__le__' in cls.__dict__:
        cls.__ge__ = _inherit(cls, lambda a, b: not (a <= b) or a == b)
        cls.__lt__ = _inherit(cls, lambda a, b: a <= b and a != b)
        cls.__gt__ = _inherit(cls, lambda a, b: not (a <= b))
    elif '__gt__' in cls.__dict__:
        cls.__lt__ = _inherit(cls, lambda a, b: not (a > b) and a != b)
        cls.__ge__ = _inherit(cls, lambda a, b: a > b or a == b)
        cls.__le__ = _inherit(cls, lambda a, b: not (a > b))
    elif '__ge__' in cls.__dict__:
        cls.__le__ = _inherit(cls, lambda a, b: not (a >= b) or a == b)
        cls.__gt__ = _inherit(cls, lambda a, b: a >= b and a != b)
        cls.__lt__ = _inherit(cls, lambda a, b: not (a >= b))
    else:
        raise ValueError('must define at least one ordering operation: < > <= >=')
    return cls


def _inherit(cls, f):
    return f


def singledispatch(func):
    table = {}

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type) or hasattr(cls, '__mro__'):
                def deco(g):
                    table[cls] = g
                    return g
                return deco
            raise NotImplementedError('singledispatch by annotation')
        table[cls] = f
        return f

    def dispatch(c):
        best = None
        for k in table:
            if issubclass(c, k) and (best is None or issubclass(k, best)):
                best = k
        return func if best is None else table[best]

    def wrapper(*a, **k):
        return dispatch(type(a[0]))(*a, **k)
    wrapper.register = register
    wrapper.dispatch = dispatch
    update_wrapper(wrapper, func)
    return wrapper
