class SimpleNamespace:
    def __init__(self, /, *a, **kw):
        for m in a:
            self.__dict__.update(m)
        self.__dict__.update(kw)

    def __repr__(self):
        return 'namespace(' + ', '.join('%s=%r' % (k, v) for k, v in self.__dict__.items()) + ')'

    def __eq__(self, o):
        if isinstance(o, SimpleNamespace):
            return self.__dict__ == o.__dict__
        return NotImplemented


def _f():
    yield 1


def MappingProxyType(d):
    return d


def MethodType(f, o):
    return f.__get__(o)


FunctionType = LambdaType = type(_f)
GeneratorType = type(_f())
NoneType = type(None)
