"""Macro expansion order and result follow the documented semantics."""

import ast
import copy

from hypothesis import strategies as st

from harness import mac, mexp, pygen
from harness.core import Test, Reject, require
from harness.sut import diff, dump, expander

PROPERTY = "E01"
RULE = ("Cases: four generated macros (parametric or not, identifier macro or not, and one of 12 expression, 12 block, 10 decorator and 7 identifier behaviours each, some of which "
        "expand their input explicitly or emit further macro uses) and a generated program with uses of them and look-alikes in every syntax and nesting. The sequence of invocations "
        "with their inputs, and the resulting code, must equal those of a reference expander. Non-trivial: at least three macro invocations happened.")
ASSUMPTIONS = ["macros are functions of their inputs", "expression macros return one node or None",
               "the order of sibling uses is the order of the AST fields, as in `ast.NodeTransformer`"]


@st.composite
def programs(draw, root="module"):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s)
    g = mexp.MGen(s, specs, budget=22, strings=["", "a"], fstrings=s.chance(1, 3))
    if root == "expr":
        src = pygen.render(ast.Expression(body=g.expr_use(4) if s.chance(3, 4) else g.expr(4)))
    else:
        src = pygen.render(ast.Module(body=g.many(lambda: g.stmt(3), 1, 3), type_ignores=[]))
    return {"src": src or "x", "macros": specs, "root": root}


def parse(case):
    src = case["src"]
    try:
        if case["root"] == "expr":
            t = ast.parse(src, mode="eval").body
        else:
            t = ast.parse(src)
            if case["root"] == "stmts":
                t = t.body
    except SyntaxError:
        raise Reject("not parseable")
    return t


class TooMuch(Exception):
    pass


class Limited(list):
    def append(self, x):
        if len(self) > 400:
            raise TooMuch
        super().append(x)


def reference(case, tree):
    log = Limited()
    macros = {m: mexp.make_macro(m, sp, log) for m, sp in case["macros"].items()}
    try:
        out = mexp.RefExpander(macros).visit(tree)
    except SyntaxError:
        return log, "syntax error"
    except TooMuch:
        raise Reject("too many invocations")
    return log, mexp.finish(out)


def causes(err):
    seen = []
    while err is not None:
        seen.append(err)
        err = err.__cause__ or err.__context__
    return seen


def check(case, ctx):
    rlog, rout = reference(case, parse(case))
    log = []
    b = mexp.bindings_for(case["macros"], log)
    names = dict(b)
    try:
        out = expander.expand_macros(parse(case), b, filename="<case>")
        out = mexp.finish(out)
    except Exception as err:
        if not any(isinstance(e, SyntaxError) for e in causes(err)):
            raise
        out = "syntax error"
    ctx.nontrivial_case(len(rlog) >= 3)
    ctx.event("invocations", len(rlog))
    for e in rlog:
        kind = case["macros"][e[0]][e[1]][0]
        ctx.event(f"{e[1]} {kind}")
    for i, (x, y) in enumerate(zip(log, rlog)):
        require(x == y, lambda: f"invocation {i} is\n  {x}\nexpected\n  {y}\nafter {[e[:2] for e in log[:i]]}")
    require(len(log) == len(rlog), lambda: f"{len(log)} invocations {[e[:2] for e in log]}, expected {len(rlog)} {[e[:2] for e in rlog]}")
    require(out == rout, lambda: f"expanded code\n{diff(rout, out)}")
    require(b == names, "macro bindings changed")


TESTS = [
    Test("module", programs("module"), check, quick=12000, thorough=200000),
    Test("stmts", programs("stmts"), check, quick=1000, thorough=20000),
    Test("expr", programs("expr"), check, quick=8000, thorough=150000),
]
