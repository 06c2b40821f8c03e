"""Source locations are filled in without moving what is already located."""

import ast
import random

from hypothesis import strategies as st

from harness import corpus, pygen
from harness.core import Test, require
from harness.sut import astfixers

PROPERTY = "F02"
RULE = ("Cases: generated code and statements of the standard library, parsed; the start (with end) line, the start (with end) column, or all of them, or only the ends, are removed from random "
        "nodes; fix_locations is called on a module, a statement list, one node or None, with a reference node that has full, start-only or no location, in each mode. Every location attribute "
        "of every node must equal a recursive reference. 'compiles': a compilable program still compiles after locations were removed and filled in. Non-trivial: some locations were "
        "missing and some were not.")
ASSUMPTIONS = []

ATTRS = ["lineno", "col_offset", "end_lineno", "end_col_offset"]
MISSING = "missing"


def loc(node):
    return [getattr(node, a, MISSING) for a in ATTRS]


def located(tree):
    return [n for n in ast.walk(tree) if "lineno" in n._attributes]


def strip(tree, rng, rate, kinds):
    gone = 0
    for n in located(tree):
        if rng.random() < rate:
            kind = rng.choice(kinds)
            for a in {"all": ATTRS, "line": ["lineno", "end_lineno"], "col": ["col_offset", "end_col_offset"]}[kind]:
                if hasattr(n, a):
                    delattr(n, a)
            gone += 1
    return gone


def predict(node, ref, mode, out):
    """Append the expected location of each node, in `ast.walk`-independent (recursive) order."""
    line, col = ref
    if "lineno" in node._attributes:
        l, c, el, ec = loc(node)
        mine_line, mine_col = (l, el), (c, ec)
        if mode == "overwrite" or l is MISSING:
            mine_line = line
        if mode == "overwrite" or c is MISSING:
            mine_col = col
        if mode == "update":
            line, col = mine_line, mine_col
        out.append((type(node).__name__, [mine_line[0], mine_col[0], mine_line[1], mine_col[1]]))
    for child in ast.iter_child_nodes(node):
        predict(child, (line, col), mode, out)


def observe(node, out):
    if "lineno" in node._attributes:
        out.append((type(node).__name__, loc(node)))
    for child in ast.iter_child_nodes(node):
        observe(child, out)


def same(a, b):
    # an end that the reference does not have may be missing or None, or equal to the start, which is what these mean to Python
    def ok(i):
        x, y = a[1][i], b[1][i]
        return x == y or y in (None, MISSING) and (x in (None, MISSING) or i >= 2 and x == a[1][i - 2])
    return a[0] == b[0] and all(ok(i) for i in range(4))


@st.composite
def cases(draw):
    case = {"seed": draw(st.integers(0, 9999)), "rate": draw(st.sampled_from([0.1, 0.5, 0.9, 1.0])),
            "mode": draw(st.sampled_from(["reference", "update", "overwrite"])),
            "kinds": draw(st.sampled_from([["all"], ["line"], ["col"], ["all", "line", "col"]])),
            "how": draw(st.sampled_from(["module", "list", "node"])),
            "ref": draw(st.sampled_from(["full", "full", "full", "start", "none"]))}
    if draw(st.integers(0, 9)) == 0:
        case["lib"] = draw(corpus.statements())
    else:
        case["src"] = draw(pygen.module_source(budget=30))
    return case


def check(case, ctx):
    rng = random.Random(case["seed"])
    tree = corpus.statement(case["lib"]) if "lib" in case else ast.parse(case["src"])
    gone = strip(tree, rng, case["rate"], case["kinds"])
    kept = sum(hasattr(n, "lineno") for n in located(tree))
    ctx.event("mode " + case["mode"])
    ctx.event("reference " + case["ref"])
    ctx.nontrivial_case(gone > 0 and (kept > 0 or case["rate"] == 1.0))
    ref = ast.Name(id="r", ctx=ast.Load())
    if case["ref"] != "none":
        ref.lineno, ref.col_offset = 1001, 13
    if case["ref"] == "full":
        ref.end_lineno, ref.end_col_offset = 1003, 17
    line, col = (1001, 1003 if case["ref"] == "full" else None), (13, 17 if case["ref"] == "full" else None)
    target = tree
    roots = [tree]
    if case["how"] == "list" and isinstance(tree, ast.Module):
        target = roots = tree.body
    elif case["how"] == "node":
        target = rng.choice(list(ast.walk(tree)))
        roots = [target]
    expected, got = [], []
    before = ast.dump(tree)
    for r in roots:
        if case["ref"] == "none":
            observe(r, expected)
        else:
            predict(r, (line, col), case["mode"], expected)
    inside = {id(n) for r in roots for n in ast.walk(r)}
    outside = [(n, loc(n)) for n in ast.walk(tree) if id(n) not in inside]
    reflocs = loc(ref)
    out = astfixers.fix_locations(target, ref, mode=case["mode"])
    require(out is target, "fix_locations returned something else than its input")
    require(ast.dump(tree) == before, "fix_locations changed more than locations")
    require(loc(ref) == reflocs, "fix_locations changed the reference node")
    for r in roots:
        observe(r, got)
    require(len(got) == len(expected), "nodes lost")
    for g, e in zip(got, expected):
        require(same(g, e), lambda: f"{case['mode']}: {g[0]} is at {g[1]}, expected {e[1]}")
    for n, l in outside:
        require(loc(n) == l, "a node outside the given tree was changed")
    require(astfixers.fix_locations(None, ref, mode=case["mode"]) is None, "fix_locations(None)")


def compiles(tree):
    try:
        compile(tree, "<case>", "exec", dont_inherit=True)
        return None
    except (SyntaxError, ValueError, TypeError) as err:
        return f"{type(err).__name__}: {err}"


def check_compiles(case, ctx):
    rng = random.Random(case["seed"])
    tree = ast.parse(case["src"])
    if compiles(ast.parse(case["src"])):
        from harness.core import Reject
        raise Reject("not compilable")
    gone = strip(tree, rng, case["rate"], ["all"])
    ctx.nontrivial_case(gone > 0)
    ref = ast.parse("x + y").body[0].value
    if case["start"]:
        ref = ast.Name(id="x", lineno=1, col_offset=0)
    astfixers.fix_locations(tree, ref, mode=case["mode"])
    err = compiles(tree)
    require(err is None, lambda: f"{case['mode']}: does not compile after fix_locations: {err}")


@st.composite
def compilable(draw):
    return {"seed": draw(st.integers(0, 9999)), "rate": draw(st.sampled_from([0.1, 0.5, 1.0])), "mode": draw(st.sampled_from(["reference", "update", "overwrite"])),
            "start": draw(st.booleans()), "src": draw(pygen.module_source(budget=30, compilable=True))}


TESTS = [
    Test("locations", cases(), check, quick=10000, thorough=200000),
    Test("compiles", compilable(), check_compiles, quick=4000, thorough=80000),
]
