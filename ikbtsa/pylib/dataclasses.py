class _Missing:
    def __repr__(self):
        return '<dataclasses.MISSING>'


MISSING = _Missing()


class FrozenInstanceError(AttributeError):
    pass


class KW_ONLY:
    pass


class Field:
    def __init__(self, default, default_factory, init, repr, hash, compare, metadata, kw_only):
        self.name = None
        self.type = None
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.hash = hash
        self.compare = compare
        self.metadata = metadata
        self.kw_only = kw_only


def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None, compare=True, metadata=None,
          kw_only=False):
    return Field(default, default_factory, init, repr, hash, compare, metadata, kw_only)


def _process(cls, init, repr_, eq, order, unsafe_hash, frozen, match_args, kw_only):
    fs = {}
    for b in cls.__mro__[-1:0:-1]:
        for f in getattr(b, '__dict__', {}).get('__dataclass_fields__', {}).values():
            fs[f.name] = f
    kw = kw_only
    for name, ann in cls.__dict__.get('__annotations__', {}).items():
        if ann.startswith(('ClassVar', 'typing.ClassVar', 't.ClassVar')):
            continue
        if ann in ('KW_ONLY', 'dataclasses.KW_ONLY'):
            kw = True
            continue
        d = cls.__dict__.get(name, MISSING)
        if isinstance(d, Field):
            f = d
            if f.default is MISSING:
                delattr(cls, name)
            else:
                setattr(cls, name, f.default)
        else:
            if isinstance(d, (list, dict, set)):
                raise ValueError('mutable default %s for field %s is not allowed: use default_factory' % (type(d), name))
            f = Field(d, MISSING, True, True, None, True, None, False)
        f.name = name
        f.type = ann
        f.kw_only = f.kw_only or kw
        fs[name] = f
    cls.__dataclass_fields__ = fs
    fields_ = list(fs.values())
    pos = [f for f in fields_ if f.init and not f.kw_only]
    kws = [f for f in fields_ if f.init and f.kw_only]
    seen = None
    for f in pos:
        if f.default is MISSING and f.default_factory is MISSING:
            if seen is not None:
                raise TypeError('non-default argument %r follows default argument %r' % (f.name, seen))
        else:
            seen = f.name
    if init and '__init__' not in cls.__dict__:
        def __init__(self, *args, **kwargs):
            given = {}
            if len(args) > len(pos):
                raise TypeError('%s.__init__() takes %d positional arguments but %d were given'
                                % (cls.__name__, len(pos) + 1, len(args) + 1))
            for f, a in zip(pos, args):
                given[f.name] = a
            for k, v in kwargs.items():
                if k in given:
                    raise TypeError("%s.__init__() got multiple values for argument '%s'" % (cls.__name__, k))
                if k not in [f.name for f in pos + kws]:
                    raise TypeError("%s.__init__() got an unexpected keyword argument '%s'" % (cls.__name__, k))
                given[k] = v
            extra = []
            for f in fields_:
                if f.name in given:
                    v = given[f.name]
                elif f.default is not MISSING:
                    v = f.default
                elif f.default_factory is not MISSING:
                    v = f.default_factory()
                elif f.init:
                    raise TypeError("%s.__init__() missing 1 required argument: '%s'" % (cls.__name__, f.name))
                else:
                    continue
                if f.type.startswith(('InitVar', 'dataclasses.InitVar')):
                    extra.append(v)
                elif frozen:
                    self.__dict__[f.name] = v
                else:
                    setattr(self, f.name, v)
            if hasattr(self, '__post_init__'):
                self.__post_init__(*extra)
        cls.__init__ = __init__
    if repr_ and '__repr__' not in cls.__dict__:
        def __repr__(self):
            return type(self).__name__ + '(' + ', '.join('%s=%r' % (f.name, getattr(self, f.name))
                                                         for f in fields_ if f.repr) + ')'
        cls.__repr__ = __repr__

    def key(o):
        return tuple(getattr(o, f.name) for f in fields_ if f.compare)
    if eq and '__eq__' not in cls.__dict__:
        def __eq__(self, other):
            if type(other) is not type(self):
                return NotImplemented
            return key(self) == key(other)
        cls.__eq__ = __eq__
    if order:
        def __lt__(self, other):
            return key(self) < key(other) if type(other) is type(self) else NotImplemented

        def __le__(self, other):
            return key(self) <= key(other) if type(other) is type(self) else NotImplemented

        def __gt__(self, other):
            return key(self) > key(other) if type(other) is type(self) else NotImplemented

        def __ge__(self, other):
            return key(self) >= key(other) if type(other) is type(self) else NotImplemented
        cls.__lt__, cls.__le__, cls.__gt__, cls.__ge__ = __lt__, __le__, __gt__, __ge__
    if '__hash__' not in cls.__dict__:
        if unsafe_hash or (eq and frozen):
            def __hash__(self):
                return hash(tuple(getattr(self, f.name) for f in fields_ if (f.compare if f.hash is None else f.hash)))
            cls.__hash__ = __hash__
        elif eq:
            cls.__hash__ = None
    if frozen:
        def __setattr__(self, k, v):
            raise FrozenInstanceError("cannot assign to field '%s'" % k)

        def __delattr__(self, k):
            raise FrozenInstanceError("cannot delete field '%s'" % k)
        cls.__setattr__ = __setattr__
        cls.__delattr__ = __delattr__
    if match_args:
        cls.__match_args__ = tuple(f.name for f in pos)
    return cls


def dataclass(cls=None, /, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False,
              match_args=True, kw_only=False, slots=False, weakref_slot=False):
    def wrap(c):
        return _process(c, init, repr, eq, order, unsafe_hash, frozen, match_args, kw_only)
    return wrap if cls is None else wrap(cls)


def fields(o):
    return tuple(o.__dataclass_fields__.values())


def is_dataclass(o):
    return hasattr(o, '__dataclass_fields__')


def _plain(v):
    if is_dataclass(v):
        return {f.name: _plain(getattr(v, f.name)) for f in fields(v)}
    if isinstance(v, (list, tuple)):
        return type(v)([_plain(x) for x in v])
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    return v


def asdict(o, *, dict_factory=dict):
    return dict_factory([(f.name, _plain(getattr(o, f.name))) for f in fields(o)])


def astuple(o):
    return tuple(tuple(astuple(v)) if is_dataclass(v) else v for v in [getattr(o, f.name) for f in fields(o)])


def replace(o, /, **kw):
    d = {f.name: getattr(o, f.name) for f in fields(o) if f.init}
    d.update(kw)
    return type(o)(**d)


class InitVar:
    def __class_getitem__(cls, k):
        return cls
