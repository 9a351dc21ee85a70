class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class ContextDecorator:
    def __call__(self, func):
        def inner(*a, **k):
            with self:
                return func(*a, **k)
        inner.__name__ = func.__name__
        return inner


class _GeneratorContextManager(ContextDecorator, AbstractContextManager):
    def __init__(self, func, a, k):
        self.gen = func(*a, **k)
        self.make = (func, a, k)

    def __call__(self, f):
        func, a, k = self.make

        def inner(*x, **y):
            with _GeneratorContextManager(func, a, k):
                return f(*x, **y)
        inner.__name__ = f.__name__
        return inner

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(v)
        except StopIteration as e:
            return e is not v
        except BaseException as e:
            if e is v:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(func):
    def helper(*a, **k):
        return _GeneratorContextManager(func, a, k)
    helper.__name__ = func.__name__
    return helper


class closing(AbstractContextManager):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class suppress(AbstractContextManager):
    def __init__(self, *excs):
        self.excs = excs

    def __exit__(self, t, v, tb):
        return v is not None and isinstance(v, self.excs)


class nullcontext(AbstractContextManager):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result


class _redirect(AbstractContextManager):
    def __init__(self, target):
        self.target = target
        self.old = []

    def __enter__(self):
        import sys
        self.old.append(getattr(sys, self.stream))
        setattr(sys, self.stream, self.target)
        return self.target

    def __exit__(self, *a):
        import sys
        setattr(sys, self.stream, self.old.pop())


class redirect_stdout(_redirect):
    stream = 'stdout'


class redirect_stderr(_redirect):
    stream = 'stderr'


class ExitStack(AbstractContextManager):
    def __init__(self):
        self.todo = []

    def enter_context(self, cm):
        r = cm.__enter__()
        self.todo.append(lambda t, v, tb: cm.__exit__(t, v, tb))
        return r

    def push(self, e):
        self.todo.append(lambda t, v, tb: e.__exit__(t, v, tb) if hasattr(e, '__exit__') else e(t, v, tb))
        return e

    def callback(self, f, *a, **k):
        def call(t, v, tb):
            f(*a, **k)
        self.todo.append(call)
        return f

    def pop_all(self):
        n = ExitStack()
        n.todo, self.todo = self.todo, []
        return n

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, v, tb):
        had = v is not None
        pending = None
        while self.todo:
            f = self.todo.pop()
            try:
                if f(t, v, tb):
                    t = v = pending = None
            except BaseException as e:
                t, v, pending = type(e), e, e
        if pending is not None:
            raise pending
        return had and v is None
