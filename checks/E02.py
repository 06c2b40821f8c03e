"""Code without macros is untouched by macro expansion."""

import ast

from hypothesis import strategies as st

from harness import mac, mexp, pygen
from harness.core import Test, Reject, require
from harness.sut import core as mcore, diff, expander

PROPERTY = "E02"
RULE = ("'untouched': generated programs with things that look like macro uses but are not (run-time calls, attributes, keywords, subscripts of expressions, `async with`, bare names of "
        "non-identifier macros, arguments given to non-parametric macros), expanded in three modes with those macros bound; the full dump with locations must not change. Non-trivial: a "
        "name bound as a macro occurs in it. 'around': programs with macro uses that are all replaced by a hole; everything else must be as parsed, with locations, and the holes at the "
        "locations of the uses. Non-trivial: at least one hole and some other code.")
ASSUMPTIONS = ["CPython's ast.parse gives the reference locations"]


def full(tree):
    if isinstance(tree, list):
        return "[" + ", ".join(full(x) for x in tree) + "]"
    return ast.dump(tree, include_attributes=True)


class LikeGen(mexp.MGen):
    def __init__(self, src, specs, **kw):
        super().__init__(src, specs, **kw)
        self.extra_expr = [LikeGen.like]
        self.extra_stmt = [LikeGen.like_stmt]
        self.plain = [m for m in specs if not specs[m]["nm"]]
        self.nonparam = [m for m in self.plain if not specs[m]["param"]]

    def like(self, d):
        s = self.s
        e = lambda: self.expr(d - 1)
        name = self.mname()
        k = s.int(0, 9)
        m = ast.Name(id=s.choice(self.plain), ctx=ast.Load()) if self.plain else ast.Name(id="x", ctx=ast.Load())
        if k == 0:
            return m
        if k == 1:
            return ast.Call(func=m, args=[self.maybe_starred(d) for _ in range(s.int(0, 2))], keywords=[])
        if k == 2:
            return ast.Attribute(value=m, attr="x", ctx=ast.Load())
        if k == 3:
            return ast.Subscript(value=ast.Attribute(value=ast.Name(id="x", ctx=ast.Load()), attr=name, ctx=ast.Load()), slice=e(), ctx=ast.Load())
        if k == 4:
            return ast.Subscript(value=ast.Call(func=m, args=[e()], keywords=[ast.keyword(arg="k", value=e())]), slice=e(), ctx=ast.Load())
        if k == 5:
            return ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[], keywords=[ast.keyword(arg=name, value=e())])
        if k == 6:
            return ast.Subscript(value=ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[m], keywords=[]), slice=e(), ctx=ast.Load())
        if k == 7 and self.nonparam:
            return ast.Subscript(value=ast.Call(func=ast.Name(id=s.choice(self.nonparam), ctx=ast.Load()), args=[e()], keywords=[]), slice=e(), ctx=ast.Load())
        if k == 8:
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=name, annotation=None)], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=e())
        return ast.Constant(value=name)

    def like_stmt(self, d):
        s = self.s
        name = self.mname()
        k = s.int(0, 6)
        m = ast.Name(id=s.choice(self.plain), ctx=ast.Load()) if self.plain else ast.Name(id="x", ctx=ast.Load())
        if k == 0:
            return ast.AsyncWith(items=[ast.withitem(context_expr=m, optional_vars=None)], body=self.body(d - 1))
        if k == 1:
            t = self.funcdef(d - 1)
            t.name = name
            t.decorator_list = [ast.Attribute(value=ast.Name(id="x", ctx=ast.Load()), attr=name, ctx=ast.Load())]
            return t
        if k == 2 and self.nonparam:
            n = ast.Name(id=s.choice(self.nonparam), ctx=ast.Load())
            return ast.With(items=[ast.withitem(context_expr=ast.Call(func=n, args=[self.expr(1)], keywords=[]), optional_vars=None)], body=self.body(d - 1))
        if k == 3 and self.nonparam:
            t = self.classdef(d - 1)
            n = ast.Name(id=s.choice(self.nonparam), ctx=ast.Load())
            t.decorator_list = [ast.Call(func=n, args=[self.expr(1)], keywords=[])]
            return t
        if k == 4:
            return ast.Import(names=[ast.alias(name="os", asname=name)])
        if k == 5:
            return ast.Global(names=[name])
        return ast.With(items=[ast.withitem(context_expr=ast.Call(func=m, args=[], keywords=[ast.keyword(arg="k", value=self.expr(1))]), optional_vars=None)], body=self.body(d - 1))


@st.composite
def likes(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s)
    g = LikeGen(s, specs, budget=24, names_too=False)
    src = pygen.render(ast.Module(body=g.many(lambda: g.stmt(3), 1, 3), type_ignores=[]))
    return {"src": src or "x", "macros": specs, "mode": s.choice(["top", "once", "recursive", "list"])}


def check_likes(case, ctx):
    log = []
    src = case["src"]
    try:
        ref = ast.parse(src)
    except SyntaxError:
        raise Reject("not parseable")
    rlog = []
    try:
        mexp.RefExpander(mexp.bindings_for(case["macros"], rlog)).visit(ast.parse(src))
    except SyntaxError:
        raise Reject("uses macros")
    if rlog:
        raise Reject("uses macros")
    ctx.nontrivial_case(any(m in src for m in case["macros"]))
    tree = ast.parse(src)
    b = mexp.bindings_for(case["macros"], log)
    before = dict(b)
    exp = expander.MacroExpander(b, "<case>")
    mode = case["mode"]
    ctx.event("mode " + mode)
    if mode == "top":
        out = expander.expand_macros(tree, b, filename="<case>")
    elif mode == "once":
        out = exp.visit_once(tree)
        require(isinstance(out, mcore.Done), f"visit_once gives {out!r}")
        out = mcore.global_postprocess(out)
    elif mode == "recursive":
        out = exp.visit_recursively(tree)
    else:
        out = exp.visit(tree.body)
        ref = ref.body
    require(log == [], lambda: f"macros invoked: {log}")
    e, g = full(ref), full(out)
    require(e == g, lambda: f"code without macros changed ({mode})\n{diff(e, g)}")
    require(b == before, "bindings changed")


HOLES = {"expr": ["hole", None], "block": ["hole", None], "decorator": ["hole", None], "name": ["hole", None]}


@st.composite
def around(draw):
    s = pygen.Src(draw)
    specs = {m: dict(HOLES, param=s.chance(1, 3), nm=s.chance(1, 4)) for m in mexp.MACROS}
    g = mexp.MGen(s, specs, budget=24, fstrings=False)
    g.extra_rate, g.extra_stmt_rate = (1, 6), (1, 6)
    src = pygen.render(ast.Module(body=g.many(lambda: g.stmt(3), 1, 4), type_ignores=[]))
    return {"src": src or "x", "macros": {m: [specs[m]["param"], specs[m]["nm"]] for m in specs}}


def hole_macros(case, log, located):
    out = {}
    for m, (param, nm) in case["macros"].items():
        def macro(tree, *, syntax, invocation, m=m, **kw):
            log.append([m, syntax])
            node = ast.Constant(value=f"{m} {syntax}")
            loc = [node]
            if syntax in ("block", "decorator"):
                node = ast.Expr(value=node)
                loc.append(node)
            if located:
                for x in loc:
                    ast.copy_location(x, invocation)
            return node
        macro.spec = {"param": param, "nm": nm}
        if param:
            macro = expander.parametricmacro(macro)
        if nm:
            macro = expander.namemacro(macro)
        out[m] = macro
    return out


def check_around(case, ctx):
    src = case["src"]
    try:
        ref = ast.parse(src)
    except SyntaxError:
        raise Reject("not parseable")
    rlog, log = [], []
    n = len(list(ast.walk(ref)))
    try:
        want = mexp.strip(mexp.RefExpander(hole_macros(case, rlog, True)).visit(ref))
    except SyntaxError:
        raise Reject("invalid macro arguments")
    got = expander.expand_macros(ast.parse(src), hole_macros(case, log, False), filename="<case>")
    got = mexp.strip(got)
    ctx.nontrivial_case(bool(rlog) and len(list(ast.walk(want))) > 4)
    ctx.event("holes", len(rlog))
    ctx.event("nodes around", len(list(ast.walk(want))))
    require(log == rlog, lambda: f"invoked {log}, expected {rlog}")
    e, g = full(want), full(got)
    require(e == g, lambda: f"code around macro uses\n{diff(e, g)}")


TESTS = [
    Test("untouched", likes(), check_likes, quick=8000, thorough=150000),
    Test("around", around(), check_around, quick=8000, thorough=150000),
]
