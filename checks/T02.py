"""Generated identifiers and small AST utilities are sound."""

import ast
import collections
import os
import re

from hypothesis import strategies as st

from harness import corpus, pygen
from harness.core import Test, Violation, require
from harness.sut import markers, unparser, utils

PROPERTY = "T02"
RULE = ("Cases: base names and histories of gensym calls, also in forked processes; nested lists with None; binding tables with aliases and look-alike functions; statement lists, docstrings and "
        "constants of all types; trees with locations removed, in markers and lists; nested, failing and invalid changes of a nesting level. Each result is compared with an independent "
        "reference. Non-trivial: per test, a non-empty or non-default input.")
ASSUMPTIONS = ["uuid4 does not collide within a run"]

ANSI = re.compile(r"\033\[[0-9;]*m")


# ---------------------------------------------------------------- gensym
def check_gensym(case, ctx):
    ctx.nontrivial_case(len(case["names"]) > 1)
    seen = set()
    out = []
    kids = []
    for i, name in enumerate(case["names"]):
        if i in case["forks"]:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.write(w, "\n".join(utils.gensym("child") for _ in range(3)).encode())
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                kids += f.read().split("\n")
            os.waitpid(pid, 0)
            ctx.event("fork")
        g = utils.gensym(name) if name is not None else utils.gensym()
        out.append(utils.gensym("child"))
        base = "gensym" if name is None else name
        require(isinstance(g, str) and g not in seen, lambda: f"gensym({name!r}) repeats {g}")
        seen.add(g)
        if base:
            require(g.startswith(base + "_") and len(g) > len(base) + 8, lambda: f"gensym({name!r}) gives {g}")
            require(g.isidentifier() == base.isidentifier(), lambda: f"gensym({name!r}) gives {g}, not an identifier")
            require(utils.scrub_uuid(g) == base, lambda: f"scrub_uuid({g!r}) gives {utils.scrub_uuid(g)!r}, expected {base!r}")
            again = utils.gensym(g)
            require(utils.scrub_uuid(again) == g, lambda: f"scrub_uuid({again!r}) removes more than the last suffix")
        require(utils.scrub_uuid(base) == base or base in case.get("suffixed", ()), lambda: f"scrub_uuid({base!r}) gives {utils.scrub_uuid(base)!r}")
    require(len(set(out + kids)) == len(out + kids), lambda: "the same identifier in two processes")
    for bad in (1, ["a"], b"x", ast.Name(id="x")):
        try:
            utils.gensym(bad)
        except TypeError:
            continue
        raise Violation(f"gensym({bad!r}) accepted")


BASES = st.one_of(st.none(), st.sampled_from(["", "x", "kitty", "_", "__x__", "é", "not an identifier", "a_b_c", "x_", "abc_123", "_" * 33, "deadbeef" * 4, "x_" + "g" * 32, "x_" + "a" * 31, "x_" + "a" * 33, "a.b"]),
                  st.text("abc_ é1.", max_size=8))


@st.composite
def gensyms(draw):
    names = draw(st.lists(BASES, min_size=1, max_size=6))
    return {"names": names, "forks": draw(st.lists(st.integers(0, len(names) - 1), max_size=2)) if draw(st.integers(0, 3)) == 0 else []}


# ---------------------------------------------------------------- flatten
def nested(depth):
    leaf = st.one_of(st.none(), st.integers(0, 9), st.just("s"), st.just([]))
    return st.lists(st.recursive(leaf, lambda x: st.lists(x, max_size=3), max_leaves=10), max_size=5)


def ref_flatten(x):
    out = []
    stack = [iter(x)]
    while stack:
        for e in stack[-1]:
            if isinstance(e, list):
                stack.append(iter(e))
                break
            if e is not None:
                out.append(e)
        else:
            stack.pop()
    return out


def check_flatten(case, ctx):
    import copy
    lst = case
    ctx.nontrivial_case(any(isinstance(x, list) for x in lst))
    saved = copy.deepcopy(lst)
    want = ref_flatten(lst)
    for what, arg in (("list", lst), ("generator", (x for x in lst)), ("tuple", tuple(lst))):
        got = utils.flatten(arg)
        require(type(got) is list and got == want, lambda: f"flatten({what} {lst}) gives {got}, expected {want}")
    require(lst == saved, "flatten changed its input")
    one = []
    clean = [[y for y in x if y is not None] if isinstance(x, list) else x for x in lst]
    for x in clean:
        if isinstance(x, list):
            one += x
        elif x is not None:
            one.append(x)
    got = utils.flatten(clean, recursive=False)
    require(got == one, lambda: f"flatten({clean}, recursive=False) gives {got}, expected {one}")
    nodes = [ast.Pass() for _ in want]
    require([id(x) for x in utils.flatten([[n] for n in nodes])] == [id(x) for x in nodes], "flatten copies the elements")


# ---------------------------------------------------------------- bindings
def check_bindings(case, ctx):
    def mk(i):
        def macro(tree, **kw):
            return i
        return macro
    funcs = [mk(i) for i in range(4)]
    local = {k: funcs[i] for k, i in case["local"].items()}
    glob = {k: funcs[i] for k, i in case["global"].items()}
    table = collections.ChainMap(local, glob) if case["chain"] else dict(glob, **local)
    want = {k: f for k, f in dict(glob, **local).items() if any(f is funcs[i] for i in case["pick"])}
    ctx.nontrivial_case(bool(want))
    got = utils.extract_bindings(table, *[funcs[i] for i in case["pick"]])
    require(type(got) is dict and got == want, lambda: f"extract_bindings gives {sorted(got)}, expected {sorted(want)}")
    got["new"] = 1
    require("new" not in table, "the result is not a new dictionary")


def binding_cases():
    d = st.dictionaries(st.sampled_from(["a", "b", "c", "d", "e"]), st.integers(0, 3), max_size=5)
    return st.fixed_dictionaries({"local": d, "global": d, "chain": st.booleans(), "pick": st.lists(st.integers(0, 3), max_size=3)})


# ---------------------------------------------------------------- docstrings and locations
FIRST = ["", "'doc'", "'''multi\n  line'''", "'a' 'b'", "b'bytes'", "42", "None", "...", "f'x'", "f'{x}'", "'a' + 'b'", "('par')", "u'u'", "x", "'s' % 1", "True", "'é'", "''", "(yield)", "pass", "'x'.y"]


def check_doc(case, ctx):
    src = case["first"] + "\n" + case["rest"]
    try:
        tree = ast.parse(src)
    except SyntaxError:
        tree = ast.parse(case["first"])
    want = ast.get_docstring(tree, clean=False)
    ctx.nontrivial_case(want is not None)
    got = utils.getdocstring(tree.body)
    require(got == want and type(got) is type(want), lambda: f"getdocstring gives {got!r}, expected {want!r}")
    require(utils.getdocstring(None) is None and utils.getdocstring([]) is None, "empty body")
    for bad in (tree, "doc", (1,)):
        try:
            utils.getdocstring(bad)
        except TypeError:
            continue
        raise Violation(f"getdocstring({bad!r}) accepted")


def first_lineno(x):
    if x is None:
        return None
    if isinstance(x, list):
        for y in x:
            r = first_lineno(y)
            if r:
                return r
        return None
    if not isinstance(x, ast.AST):
        return None
    if "lineno" in x.__dict__:
        return x.lineno
    for f in x._fields:
        r = first_lineno(getattr(x, f, None))
        if r:
            return r
    return None


def check_locations(case, ctx):
    import random
    rng = random.Random(case["seed"])
    tree = corpus.statement(case["lib"], 300) if "lib" in case else ast.parse(case["src"])
    for n in ast.walk(tree):
        if "lineno" in n._attributes and rng.random() < case["rate"]:
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                if hasattr(n, a):
                    delattr(n, a)
    things = [tree, getattr(tree, "body", tree), markers.ASTMarker(tree), [markers.ASTMarker([tree])], markers.ASTMarker(None), [], None]
    ctx.nontrivial_case(case["rate"] > 0)
    for x in things:
        want = first_lineno(x.body if isinstance(x, markers.ASTMarker) else x)
        got = utils.get_lineno(x)
        require(got == want, lambda: f"get_lineno gives {got}, expected {want}")
        for code in (None, "x", "x\ny"):
            text = ANSI.sub("", utils.format_location("some file.py", x, code))
            tail = "" if code is None else " x" if code == "x" else "\nx\ny"
            require(text == f"some file.py:{want}:{tail}", lambda: f"format_location gives {text!r}")
    for n in (1, 3, 5, 1000):
        lines = unparser.unparse_with_fallbacks(tree, debug=True, color=True).split("\n")
        got = ANSI.sub("", utils.format_context(tree, n=n)).split("\n")
        want = [ANSI.sub("", x) for x in lines[:n]] + (["..."] if len(lines) > n else [])
        require(got == want, lambda: f"format_context(n={n}) gives {got}, expected {want}")
    for f, name in ((check_locations, __name__ + ".check_locations"), (42, "42"), (dict, "builtins.dict")):
        got = utils.format_macrofunction(f)
        require(got == (name if not callable(f) or f is dict else f"{f.__module__}.check_locations"), lambda: f"format_macrofunction gives {got}")


@st.composite
def locations(draw):
    case = {"seed": draw(st.integers(0, 9999)), "rate": draw(st.sampled_from([0, 0.5, 0.9, 1.0]))}
    if draw(st.integers(0, 9)) == 0:
        case["lib"] = draw(corpus.statements())
    else:
        case["src"] = draw(pygen.module_source(budget=12))
    return case


# ---------------------------------------------------------------- nesting levels
class Stop(Exception):
    pass


def check_nesting(case, ctx):
    t = utils.NestingLevelTracker(case["start"]) if case["start"] is not None else utils.NestingLevelTracker()
    stack = [case["start"] or 0]
    ctx.nontrivial_case(len(case["plan"]) > 2)

    def go(plan, i):
        require(t.value == stack[-1], lambda: f"level is {t.value}, expected {stack[-1]}")
        if i >= len(plan):
            return
        op, n = plan[i]
        if op == "raise":
            raise Stop
        if op == "back":
            return
        if op == "readonly":
            try:
                t.value = n
                raise Violation("value can be assigned")
            except AttributeError:
                return go(plan, i + 1)
        level = n if op == "set" else stack[-1] + n
        if op == "set" and case["bad"]:
            for bad in ("1", 1.5, None):
                try:
                    t.set_to(bad)
                    raise Violation(f"set_to({bad!r}) accepted")
                except TypeError:
                    pass
        try:
            cm = t.set_to(n) if op == "set" else t.changed_by(n)
        except ValueError:
            require(level < 0, lambda: f"ValueError for level {level}")
            return go(plan, i + 1)
        require(level >= 0, lambda: f"level {level} accepted")
        require(t.value == stack[-1], "the level changed before the block is entered")
        with cm:
            stack.append(level)
            try:
                go(plan, i + 1)
            finally:
                stack.pop()
        require(t.value == stack[-1], lambda: f"level is {t.value} after the block, expected {stack[-1]}")

    for plan in (case["plan"], case["plan2"]):
        try:
            go(plan, 0)
        except Stop:
            ctx.event("exception through blocks")
        require(t.value == stack[-1] and len(stack) == 1, lambda: f"level is {t.value} in the end, expected {stack[-1]}")


def nestings():
    step = st.tuples(st.sampled_from(["set", "change", "change", "raise", "back", "readonly", "set"]), st.integers(-3, 5)).map(list)
    plan = st.lists(step, max_size=7)
    return st.fixed_dictionaries({"start": st.one_of(st.none(), st.integers(0, 3)), "plan": plan, "plan2": plan, "bad": st.booleans()})


TESTS = [
    Test("gensym", gensyms(), check_gensym, quick=4000, thorough=40000),
    Test("flatten", nested(3), check_flatten, quick=4000, thorough=40000),
    Test("bindings", binding_cases(), check_bindings, quick=2000, thorough=20000),
    Test("docstring", st.fixed_dictionaries({"first": st.sampled_from(FIRST), "rest": pygen.module_source(budget=5)}), check_doc, quick=2000, thorough=20000),
    Test("locations", locations(), check_locations, quick=2500, thorough=40000),
    Test("nesting", nestings(), check_nesting, quick=4000, thorough=40000),
]
