"""Values, classes and functions for hygienic capture; importable in any process."""


class Box:
    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return type(other) is type(self) and self.value == other.value

    def __hash__(self):
        return 7


class Point(tuple):
    pass


class NoPickle:
    def __reduce__(self):
        raise TypeError("this value does not support pickling")


def func(x=None):
    return ("func", x)


def other(x=None):
    return ("other", x)


def cyclic():
    x = [1]
    x.append(x)
    return x


def shared():
    x = [1]
    return [x, x]


def canon(v, seen=None):
    """Canonical description of a value: type, content, sharing."""
    seen = {} if seen is None else seen
    if isinstance(v, (list, dict, set, Box, Point)):
        if id(v) in seen:
            return ("ref", seen[id(v)])
        seen[id(v)] = len(seen)
    t = type(v).__qualname__
    if isinstance(v, (list, tuple)):
        return (t, [canon(x, seen) for x in v])
    if isinstance(v, dict):
        return (t, [(canon(k, seen), canon(x, seen)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return (t, sorted(repr(canon(x, seen)) for x in v))
    if isinstance(v, Box):
        return (t, canon(v.value, seen))
    if callable(v):
        return ("callable", v.__module__, v.__qualname__)
    return (t, repr(v))
