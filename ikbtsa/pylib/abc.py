def abstractmethod(f):
    f.__isabstractmethod__ = True
    return f


class _ABCMeta:
    pass


class ABCMeta(type):
    pass


class ABC:
    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)


abstractproperty = property
