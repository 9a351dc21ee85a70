class _Any:
    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__


Any = Union = Optional = List = Dict = Tuple = Set = FrozenSet = Callable = Iterable = Iterator = Sequence = _Any()
Mapping = MutableMapping = Type = ClassVar = Final = Literal = Generator = TypeAlias = Self = Annotated = _Any()
MutableSequence = Hashable = Collection = Deque = DefaultDict = Text = AnyStr = NoReturn = Never = Concatenate = _Any()
Awaitable = Coroutine = ContextManager = Reversible = Sized = Container = Counter = OrderedDict = Pattern = Match = _Any()
SupportsInt = SupportsFloat = SupportsIndex = Required = NotRequired = TypeGuard = IO = TextIO = BinaryIO = _Any()
TYPE_CHECKING = False


def TypeVar(name, *a, **k):
    return Any


ParamSpec = TypeVar


def cast(t, v):
    return v


def overload(f):
    return f


def final(f):
    return f


override = no_type_check = runtime_checkable = final


def get_type_hints(o, *a):
    return {}


def NewType(name, t):
    return lambda v: v


class Generic:
    def __class_getitem__(cls, k):
        return cls


class Protocol:
    def __class_getitem__(cls, k):
        return cls


from _typing_host import NamedTuple, TypedDict
