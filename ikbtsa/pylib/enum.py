class auto:
    pass


class Enum:
    def __init_subclass__(cls, **kw):
        members = {}
        last = 0
        for k, v in list(cls.__dict__.items()):
            if k.startswith('_') or hasattr(v, '__get__'):
                continue
            if isinstance(v, auto) or v is auto:
                v = cls._next(members, last)
            if isinstance(v, int):
                last = v
            alias = [m for m in members.values() if m._value_ == v]
            if alias:
                m = alias[0]
            else:
                m = object.__new__(cls)
                m._name_ = k
                m._value_ = v
                if hasattr(cls, '__init__'):
                    m.__init__(*(v if isinstance(v, tuple) else (v,)))
            members[k] = m
            setattr(cls, k, m)
        cls._members = members

    @staticmethod
    def _next(members, last):
        return last + 1

    @property
    def name(self):
        return self._name_

    @property
    def value(self):
        return self._value_

    @classmethod
    def _ikb_call(cls, value):
        for m in cls._members.values():
            if m is value or m._value_ == value:
                return m
        raise ValueError('%r is not a valid %s' % (value, cls.__name__))

    @classmethod
    def _ikb_iter(cls):
        seen = []
        for m in cls._members.values():
            if not any(m is x for x in seen):
                seen.append(m)
        return iter(seen)

    @classmethod
    def _ikb_getitem(cls, k):
        return cls._members[k]

    @classmethod
    def _ikb_len(cls):
        return len(list(cls._ikb_iter()))

    def __repr__(self):
        return '<%s.%s: %r>' % (type(self).__name__, self._name_, self._value_)

    def __str__(self):
        return '%s.%s' % (type(self).__name__, self._name_)

    def __hash__(self):
        return hash(self._name_)


class _Mixed(Enum):
    def __eq__(self, o):
        return self._value_ == (o._value_ if isinstance(o, Enum) else o)

    def __hash__(self):
        return hash(self._value_)

    def __lt__(self, o):
        return self._value_ < (o._value_ if isinstance(o, Enum) else o)

    def __le__(self, o):
        return self._value_ <= (o._value_ if isinstance(o, Enum) else o)

    def __gt__(self, o):
        return self._value_ > (o._value_ if isinstance(o, Enum) else o)

    def __ge__(self, o):
        return self._value_ >= (o._value_ if isinstance(o, Enum) else o)

    def __str__(self):
        return str(self._value_)

    def __format__(self, spec):
        return format(self._value_, spec)


class IntEnum(_Mixed):
    def __int__(self):
        return self._value_

    __index__ = __int__

    def __add__(self, o):
        return self._value_ + (o._value_ if isinstance(o, Enum) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._value_ - (o._value_ if isinstance(o, Enum) else o)

    def __rsub__(self, o):
        return o - self._value_

    def __mul__(self, o):
        return self._value_ * (o._value_ if isinstance(o, Enum) else o)

    __rmul__ = __mul__

    def __bool__(self):
        return self._value_ != 0


class StrEnum(_Mixed):
    @staticmethod
    def _next(members, last):
        raise NotImplementedError('auto() in StrEnum')

    def __len__(self):
        return len(self._value_)

    def __add__(self, o):
        return self._value_ + str(o)

    def __radd__(self, o):
        return o + self._value_

    def __getattr__(self, k):
        return getattr(self._value_, k)


def unique(cls):
    return cls
