"""Macro functions receive the documented invocation arguments."""

import ast
import re
import warnings

from hypothesis import strategies as st

from harness import mac, mexp, pygen
from harness.core import Test, Reject, require
from harness.sut import diff, expander

PROPERTY = "E03"
RULE = ("Cases: generated programs with uses of four macros (parametric or not, identifier macro or not) in every syntax, with 0-2 arguments in bracket or call notation, as-parts, several "
        "items or decorators, and look-alikes. Each macro records every argument it gets, with source locations; the records must equal those of a reference expander. Non-trivial: at least "
        "one macro invocation, and over all: arguments, as-parts and multiple items are counted in the distribution.")
ASSUMPTIONS = ["the order of sibling uses is the order of the AST fields"]
KINDS = {"expr": ["id", "drop", "recurse"], "block": ["id", "recurse", "drop", "one"], "decorator": ["id", "drop", "body"], "name": ["same", "drop"]}


def full(tree):
    if tree is None:
        return None
    import copy
    tree = mexp.strip(copy.deepcopy(tree))
    if isinstance(tree, list):
        return [full(x) for x in tree]
    # The expander fixes expression contexts after each expansion, so what a later macro sees has fixed contexts;
    # contexts are the subject of property E04 and F01, not compared here.
    return re.sub(r"(, )?ctx=\w+\(\)", "", ast.dump(tree, include_attributes=True))


def recording(case, log, reference):
    out = {}
    for m, spec in case["macros"].items():
        def macro(tree, m=m, spec=spec, **kw):
            entry = {"macro": m, "names": sorted(kw), "syntax": kw["syntax"], "tree": full(tree), "invocation": full(kw["invocation"]),
                     "args": kw["args"] if kw["args"] is None else [full(a) for a in kw["args"]]}
            if kw["syntax"] == "block":
                entry["optional_vars"] = full(kw["optional_vars"])
            e = kw["expander"]
            entry["expander"] = [e.filename, e.recursive, reference or (isinstance(e, expander.MacroExpander) and e.isbound(m) is out[m])]
            log.append(entry)
            # no marks in the code: it stays as parsed, with locations
            syntax = kw["syntax"]
            kind = spec[syntax][0]
            if kind in ("id", "same"):
                return tree
            if kind == "drop":
                return None
            if kind == "one":
                return tree[0]
            if kind == "recurse":
                return e.visit_recursively(tree)
            if kind == "body":
                tree.body = mexp.aslist(e.visit_recursively(tree.body))
                return tree
        macro.spec = spec
        if spec["param"]:
            macro = expander.parametricmacro(macro)
        if spec["nm"]:
            macro = expander.namemacro(macro)
        out[m] = macro
    return out


@st.composite
def programs(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s, kinds=KINDS)
    for sp in specs.values():
        sp["param"] = s.chance(1, 2)
    g = mexp.MGen(s, specs, budget=20, fstrings=False, strings=["", "a"])
    src = pygen.render(ast.Module(body=g.many(lambda: g.stmt(3), 1, 3), type_ignores=[]))
    return {"src": src or "x", "macros": specs}


def check(case, ctx):
    src = case["src"]
    try:
        ref = ast.parse(src)
    except SyntaxError:
        raise Reject("not parseable")
    rlog, log = [], []
    R = mexp.RefExpander(recording(case, rlog, True), filename="the file.py")
    try:
        R.visit(ref)
        failed = False
    except SyntaxError:
        failed = True
    b = recording(case, log, False)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            expander.expand_macros(ast.parse(src), b, filename="the file.py")
            require(not failed, "invalid macro argument syntax accepted")
        except Exception as err:
            seen = err
            while seen is not None and not isinstance(seen, SyntaxError):
                seen = seen.__cause__ or seen.__context__
            if seen is None or not failed:
                raise
    ctx.nontrivial_case(bool(rlog))
    for e in rlog:
        ctx.event("use " + e["syntax"])
        if e["args"]:
            ctx.event("use with arguments")
        if e.get("optional_vars"):
            ctx.event("use with as-part")
    for i, (x, y) in enumerate(zip(log, rlog)):
        for k in y:
            require(x.get(k) == y[k], lambda: f"invocation {i} of {y['macro']} ({y['syntax']}): {k} is\n  {x.get(k)}\nexpected\n  {y[k]}")
    require(len(log) == len(rlog), lambda: f"{len(log)} invocations, expected {len(rlog)}")
    got = any(issubclass(x.category, SyntaxWarning) and "parametricmacro" in str(x.message) for x in w)
    if R.warned:
        ctx.event("arguments given to a non-parametric block or decorator macro")
    if not failed:
        require(got == R.warned, f"warning about a missing @parametricmacro declaration: {got}, expected {R.warned}")


TESTS = [Test("arguments", programs(), check, quick=12000, thorough=200000)]
