"""A Bunch behaves as a mapping whose items are its attributes."""

import collections.abc
import copy
import pickle

from hypothesis import strategies as st

from harness.core import Test, Violation, require
from harness.sut import bunch

PROPERTY = "B01"
RULE = ("Cases: sequences of up to 25 operations (item and attribute access, assignment and deletion, get, pop, popitem, setdefault, update, clear, copy, copy.copy, pickling, replace, bunchify, "
        "comparisons) on several Bunches and the mappings they were made from, run side by side with dictionaries; results, errors and contents must agree after each step. Non-trivial: at "
        "least five operations that change something.")
ASSUMPTIONS = []
NAMES = ["a", "b", "c", "x_1", "é"]
RESERVED = ["get", "pop", "keys", "copy", "update", "items", "values", "clear", "replace", "popitem", "setdefault"]
VALUES = st.sampled_from([0, 1, 2, "s", None, True, 2.5])


class NotEq:
    pass


def op():
    i = st.integers(0, 3)
    n = st.sampled_from(NAMES)
    return st.one_of(
        st.tuples(st.just("setitem"), i, n, VALUES), st.tuples(st.just("setattr"), i, n, VALUES),
        st.tuples(st.just("setitem"), i, n, VALUES), st.tuples(st.just("setattr"), i, n, VALUES),
        st.tuples(st.just("delitem"), i, n), st.tuples(st.just("delattr"), i, n),
        st.tuples(st.just("get"), i, n, VALUES), st.tuples(st.just("get1"), i, n),
        st.tuples(st.just("pop"), i, n), st.tuples(st.just("popdef"), i, n, VALUES), st.tuples(st.just("popitem"), i),
        st.tuples(st.just("setdefault"), i, n, VALUES), st.tuples(st.just("setdefault1"), i, n),
        st.tuples(st.just("update"), i, st.dictionaries(n, VALUES, max_size=3)),
        st.tuples(st.just("clear"), i),
        st.tuples(st.just("copy"), i, i), st.tuples(st.just("copycopy"), i, i), st.tuples(st.just("deepcopy"), i, i), st.tuples(st.just("pickle"), i, i),
        st.tuples(st.just("replace"), i, i), st.tuples(st.just("badreplace"), i),
        st.tuples(st.just("bunchify"), i, st.dictionaries(n, VALUES, max_size=3)), st.tuples(st.just("bunchify_same"), i),
        st.tuples(st.just("outside"), i, n, VALUES),
        st.tuples(st.just("reserved"), i, st.sampled_from(RESERVED), VALUES),
        st.tuples(st.just("eq"), i, i),
        st.tuples(st.just("new"), i, st.dictionaries(n, VALUES, max_size=4)),
    ).map(list)


def attempt(f):
    try:
        return ("value", f())
    except (KeyError, AttributeError, TypeError, ValueError) as err:
        return ("error", "KeyError" if isinstance(err, KeyError) else "AttributeError" if isinstance(err, AttributeError) else type(err).__name__)


MISSING = object()


def compare(b, d, what):
    require(dict(b.items()) == d and list(b) == list(d) and list(b.keys()) == list(d) and list(b.values()) == list(d.values()) and len(b) == len(d),
            lambda: f"{what}: contents {dict(b.items())}, expected {d}")
    require(b == d and d == b and not (b != d) and not (d != b), f"{what}: not equal to the equal dictionary")
    for n in NAMES:
        require((n in b) == (n in d), f"{what}: {n!r} in b")
        require(hasattr(b, n) == (n in d), f"{what}: hasattr {n!r}")
        require(attempt(lambda: b[n]) == (("value", d[n]) if n in d else ("error", "KeyError")), f"{what}: b[{n!r}]")
        require(attempt(lambda: getattr(b, n)) == (("value", d[n]) if n in d else ("error", "AttributeError")), f"{what}: b.{n}")
        require(getattr(b, n, MISSING) == d.get(n, MISSING), f"{what}: getattr(b, {n!r}, default)")


def check(case, ctx):
    bs = [bunch.Bunch(**d) for d in case["init"]]
    ds = [dict(d) for d in case["init"]]
    sources = [None] * 4     # the mapping a Bunch was made from
    changes = 0
    for step in case["ops"]:
        o, i, *a = step
        b, d = bs[i], ds[i]
        ctx.event(o)
        before = copy.deepcopy(d)
        if o == "setitem":
            b[a[0]] = a[1]
            d[a[0]] = a[1]
        elif o == "setattr":
            setattr(b, a[0], a[1])
            d[a[0]] = a[1]
        elif o == "delitem":
            require(attempt(lambda: b.__delitem__(a[0])) == attempt(lambda: d.__delitem__(a[0])), f"{step}")
        elif o == "delattr":
            require(attempt(lambda: delattr(b, a[0])) == (("value", None) if a[0] in d else ("error", "AttributeError")), f"{step}")
            d.pop(a[0], None)
        elif o == "get":
            require(b.get(a[0], a[1]) == d.get(a[0], a[1]), f"{step}")
        elif o == "get1":
            require(b.get(a[0]) == d.get(a[0]), f"{step}")
        elif o == "pop":
            require(attempt(lambda: b.pop(a[0])) == attempt(lambda: d.pop(a[0])), f"{step}")
        elif o == "popdef":
            require(attempt(lambda: b.pop(a[0], a[1])) == attempt(lambda: d.pop(a[0], a[1])), f"{step}")
        elif o == "popitem":
            require(attempt(b.popitem) == attempt(d.popitem), f"{step}")
        elif o == "setdefault":
            require(b.setdefault(a[0], a[1]) == d.setdefault(a[0], a[1]), f"{step}")
        elif o == "setdefault1":
            require(b.setdefault(a[0]) == d.setdefault(a[0]), f"{step}")
        elif o == "update":
            b.update(**a[0])
            d.update(a[0])
        elif o == "clear":
            b.clear()
            d.clear()
        elif o in ("copy", "copycopy", "deepcopy", "pickle"):
            new = {"copy": b.copy, "copycopy": lambda: copy.copy(b), "deepcopy": lambda: copy.deepcopy(b), "pickle": lambda: pickle.loads(pickle.dumps(b))}[o]()
            require(type(new) is bunch.Bunch and new is not b, f"{step}: {new!r}")
            bs[a[0]], ds[a[0]], sources[a[0]] = new, dict(d), None
        elif o == "replace":
            b.replace(bs[a[0]])
            ds[i] = dict(ds[a[0]])
            sources[i] = None
        elif o == "badreplace":
            require(attempt(lambda: b.replace({"a": 1})) == ("error", "TypeError"), f"{step}")
        elif o == "bunchify":
            src = dict(a[0])
            bs[i] = bunch.bunchify(src)
            require(type(bs[i]) is bunch.Bunch, f"{step}")
            ds[i], sources[i] = dict(a[0]), src
        elif o == "bunchify_same":
            require(bunch.bunchify(b) is b, f"{step}")
        elif o == "outside":
            # a bunchified mapping is the storage of the Bunch
            if sources[i] is not None:
                sources[i][a[0]] = a[1]
                d[a[0]] = a[1]
        elif o == "reserved":
            require(attempt(lambda: setattr(b, a[0], a[1])) == ("error", "AttributeError"), f"{step}: reserved name assigned")
            require(callable(getattr(b, a[0])), f"{step}: method shadowed")
        elif o == "eq":
            c, e = bs[a[0]], ds[a[0]]
            require((b == c) == (d == e) and (b != c) == (d != e), f"{step}: comparison of {b!r} and {c!r}")
            require((b == NotEq()) is False and b != 1, "equal to something else")
        elif o == "new":
            bs[i], ds[i], sources[i] = bunch.Bunch(**a[0]), dict(a[0]), None
        changes += before != ds[i]
        for k, (x, y) in enumerate(zip(bs, ds)):
            compare(x, y, f"after {step}: bunch {k}")
            if sources[k] is not None:
                require(sources[k] == y, f"after {step}: the bunchified mapping {k} is {sources[k]}, expected {y}")
    ctx.nontrivial_case(changes >= 5)
    for c in ("Mapping", "MutableMapping", "Container", "Iterable", "Sized"):
        require(isinstance(bs[0], getattr(collections.abc, c)), f"not a {c}")


@st.composite
def cases(draw):
    return {"init": draw(st.lists(st.dictionaries(st.sampled_from(NAMES), VALUES, max_size=3), min_size=4, max_size=4)),
            "ops": draw(st.lists(op(), min_size=8, max_size=25))}


def check_bunchify(case, ctx):
    d = case
    ctx.nontrivial_case(len(d) > 0)
    ok = all(k.isidentifier() for k in d)
    r = attempt(lambda: bunch.bunchify(d))
    ctx.event("valid" if ok else "invalid")
    if ok:
        require(r[0] == "value" and r[1] == d, lambda: f"bunchify({d}): {r}")
        for k in d:
            if k not in dir(bunch.Bunch):
                require(getattr(r[1], k) == d[k], f"attribute {k}")
    else:
        require(r == ("error", "ValueError"), lambda: f"bunchify({d}): {r}")
    for bad in (1, None, [1], "abc", {1, 2}):
        require(attempt(lambda: bunch.bunchify(bad)) == ("error", "TypeError"), f"bunchify({bad!r})")


TESTS = [
    Test("operations", cases(), check, quick=3000, thorough=80000),
    Test("bunchify", st.dictionaries(st.sampled_from(["a", "b c", "", "1x", "é", "if", "get", "x1"]), VALUES, max_size=4), check_bunchify, quick=300, thorough=2000),
]
