"""Renaming renames every occurrence of an identifier and nothing else."""

import ast
import io
import keyword
import tokenize

from hypothesis import strategies as st

from harness import corpus, pygen
from harness.core import Reject, Test, require
from harness.sut import diff, dump, utils

PROPERTY = "T01"
RULE = ("Cases: source text of generated modules and of statements of the standard library, an identifier (mostly one that occurs in it), and a new one; other identifiers are made equal to the first, so that one node has it several times. The oracle replaces NAME tokens in the "
        "source text and parses it. Non-trivial: the identifier occurs in it.")
ASSUMPTIONS = ["CPython's tokenizer and parser are the reference for where identifiers occur",
               "dotted module names in imports are one name, as documented ('name and asname in imports'): sources with a dotted import that contains the identifier as a component are left out"]
NAMES = ["a", "b", "x", "y", "obj", "f", "self", "key", "T", "_x"]
SOFT = {"_", "match", "case", "type"}


def token_rename(src, old, new):
    n = 0
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    lines = src.splitlines(keepends=True)
    edits = []
    for prev, t in zip([None] + toks, toks):
        if prev is not None and prev.type == tokenize.OP and prev.string == "!":
            continue      # conversion in an f-string
        if t.type == tokenize.NAME and t.string == old:
            edits.append((t.start, t.end))
            n += 1
    for (row, c0), (row2, c1) in sorted(edits, reverse=True):
        line = lines[row - 1]
        lines[row - 1] = line[:c0] + new + line[c1:]
    return "".join(lines), n


def dotted(tree, old):
    for node in ast.walk(tree):
        if isinstance(node, ast.Import) and any("." in a.name and old in a.name.split(".") for a in node.names):
            return True
        if isinstance(node, ast.ImportFrom) and node.module and "." in node.module and old in node.module.split("."):
            return True
    return False


@st.composite
def cases(draw):
    case = {"new": draw(st.sampled_from(["renamed", "z", "a", "b", "x_0123456789abcdef", "é"])), "pick": draw(st.integers(0, 30)),
            "how": draw(st.sampled_from(["module", "body", "stmts"])), "merge": draw(st.lists(st.integers(0, 30), max_size=6))}
    if draw(st.integers(0, 7)) == 0:
        case["lib"] = draw(corpus.statements())
    else:
        case["src"] = draw(pygen.module_source(budget=35, names=NAMES))
    return case


def check(case, ctx):
    if "lib" in case:
        src = ast.unparse(corpus.statement(case["lib"]))
    else:
        src = case["src"]
    toks = sorted({t.string for t in tokenize.generate_tokens(io.StringIO(src).readline) if t.type == tokenize.NAME and t.string.isidentifier()} - SOFT - set(keyword.kwlist))
    pool = toks + ["nothere"]
    old = pool[case["pick"] % len(pool)]
    for i in case.get("merge", ()):     # let other identifiers be the same, so that it occurs more than once in a node
        merged, _ = token_rename(src, pool[i % len(pool)], old)
        try:
            ast.parse(merged)
        except SyntaxError:
            continue
        src = merged
    tree = ast.parse(src)
    if dotted(tree, old):
        raise Reject("dotted import")
    newsrc, n = token_rename(src, old, case["new"])
    try:
        want = ast.parse(newsrc)
    except SyntaxError:
        raise Reject("not parseable after renaming")
    for node in ast.walk(tree):
        for f in ("attr", "id", "arg", "name", "asname", "module", "rest"):
            if getattr(node, f, None) == old and "name" in getattr(node, "_fields", ()):
                ctx.event("in " + type(node).__name__ + "." + f)
    ctx.nontrivial_case(n > 0)
    ctx.event("occurrences", n)
    if case["how"] == "module":
        target, expect = tree, want
    elif case["how"] == "body":
        target, expect = tree.body, want.body
    else:
        if not tree.body:
            raise Reject("empty")
        i = case["pick"] % len(tree.body)
        target, expect = tree.body[i], want.body[i]
    locs = [(getattr(x, "lineno", None), getattr(x, "col_offset", None)) for x in ast.walk(tree)]
    out = utils.rename(old, case["new"], target)
    require(out is target, "rename returned something else than the tree")
    a, b = dump(expect), dump(out)
    require(a == b, lambda: f"rename({old!r}, {case['new']!r})\n{diff(a, b)}")
    require(locs == [(getattr(x, "lineno", None), getattr(x, "col_offset", None)) for x in ast.walk(tree)], "locations changed")


TESTS = [Test("rename", cases(), check, quick=10000, thorough=200000)]
