from _typing_host import (Iterable, Iterator, Sequence, Mapping, Callable, Hashable, MutableMapping, MutableSequence,
                          Sized, Container, Collection, Generator, Set, MutableSet)
