"""Expanded code is valid and correctly located, whatever well-typed output macros return."""

import ast
import copy
import random
import warnings

from hypothesis import strategies as st

from harness import pygen
from harness.core import Reject, Test, Violation, require
from harness.sut import core as mcore, diff, dump, expander as mexpander, unparser

PROPERTY = "E04"
RULE = ("Cases: generated programs (all statement and expression types of Python 3.12 that compile) with uses of expression, block, decorator and identifier macros, nested, also as targets of assignments, deletions, loops, `with` and comprehensions. "
        "The macros return generated code with their input moved, duplicated by reference or by copy, or dropped, expanded before or after, with further macro uses; the nodes that they create have no, own or incomplete locations, and no, wrong or shared contexts; parts may be marked as done, or be `None` or sequences. "
        "The result must compile; its contexts must be those that the parser gives to its unparsed text; nodes of the user's must have the location that they had, new ones that of the macro use that made them (or their own); no markers may remain; each expanded block and decorator must have a statement on its line. "
        "Non-trivial: at least two invocations, and a new node.")
ASSUMPTIONS = ["CPython's parser gives the reference contexts", "a macro gives a node that it locates itself either all of its location or its start", "in the place of a target, macros return targets"]

EXPR_MACROS = ["m0", "m1", "m2"]
BLOCK_MACROS = ["b0", "b1"]
DECO_MACROS = ["d0", "d1"]
NAME_MACROS = ["n0", "n1"]
TARGET_MACROS = ["t0", "u0"]            # one target; also several
TARGET_NAMES = ["k0"]                   # identifier macro that gives a target
ALL = EXPR_MACROS + BLOCK_MACROS + DECO_MACROS + NAME_MACROS + TARGET_MACROS + TARGET_NAMES
NAMES = ["a", "b", "c", "x", "y", "f", "g", "obj"]
SINGLE = ["HOLE", "HOLE.attr", "HOLE[HOLE]", "other", "f(HOLE).x", "obj[HOLE, 1]", "obj[HOLE:HOLE]", "(lambda z: HOLE)().a", "t9", "[z for z in HOLE][0].a", "(z := HOLE).b"]
MULTI = ["(HOLE, x)", "[HOLE, y]", "HOLE, (HOLE.a, obj[HOLE])", "HOLE, *rest", "[*HOLE]", "HOLE,"]
BLOCKS = ["HOLE", "HOLE\nHOLE", "if x:\n    HOLE\nelse:\n    HOLE", "def fn(a, /, b=1, *c, d: int=2, **e) -> 3:\n    HOLE", "class K(Base, metaclass=M):\n    HOLE", "try:\n    HOLE\nexcept (A, B) as err:\n    pass\nfinally:\n    HOLE",
          "match x:\n    case {'k': [1, *rest], **kw} if x:\n        HOLE\n    case K(a, b=None) | (1 as z):\n        HOLE\n    case _:\n        pass", "with x as (y, z), w:\n    HOLE", "for i, (j, *k) in x:\n    HOLE\nelse:\n    HOLE", "while x:\n    HOLE",
          "async def co():\n    async for i in x:\n        HOLE\n    async with y as z:\n        HOLE\n    return [i async for i in await w]", "import os.path as p, sys\nfrom . import z as q\nHOLE", "type T[A: int, *B, **C] = list[A]\nHOLE", "def gen[T](x: T):\n    global g1\n    y = yield x\n    HOLE",
          "del x, y[0], z.a\nHOLE", "x: int = 1\n(y): str\nz.a: float = 2\nHOLE", "x = y = z\nx += 1\na, *b = c\nHOLE", "try:\n    pass\nexcept* E:\n    HOLE", "pass", "g = lambda *a, b=1: [b for a in a if a]", "f'{x!r:>{y}}'\nHOLE", "assert x, y\nraise x from y\nHOLE"]
EXPRS = ["HOLE", "NONE", "f(HOLE)", "(HOLE, HOLE)", "[HOLE for v in HOLE if HOLE]", "{HOLE: v for v, w in z}", "lambda p, *q, r=HOLE: (HOLE, p)", "(w := HOLE)", "f'{HOLE!r:>{HOLE}}'", "HOLE.a[HOLE].b(*HOLE, k=HOLE, **HOLE)", "x if HOLE else HOLE", "{**HOLE, 'k': HOLE}", "not -HOLE", "HOLE < HOLE <= x", "a[HOLE:HOLE, ::HOLE]", "(v for v in (HOLE,))", "1", "HOLE and HOLE or x",
         "{HOLE, *x}", "[*HOLE, 1]", "None", "'text'"]
EMIT_E = ["m{i}[HOLE]", "f(m{i}[x], HOLE)", "m{i}[m{i}[HOLE]]", "n{j}"]
EMIT_B = ["with b{i}:\n    HOLE", "with b{i}, x as y:\n    HOLE", "@d0\ndef fn():\n    HOLE", "m0[x]\nHOLE", "with b{i} as z:\n    HOLE\n    m0[1]"]
DECOS = ["SELF", "SELF\nx = 1", "x = 1", "SELF\nSELF", "if x:\n    SELF", "class K:\n    SELF", "try:\n    SELF\nexcept E as e:\n    pass", "NONE", "with y as z:\n    SELF", "@d0\nclass C: pass\nSELF"]


# ---------------------------------------------------------------- generator
class Gen(pygen.PyGen):
    def __init__(self, src, **kw):
        super().__init__(src, names=NAMES, compilable=True, **kw)
        self.extra_rate, self.extra_stmt_rate = (1, 3), (1, 2)
        self.extra_expr = [Gen.use, Gen.use, Gen.nuse]
        self.extra_stmt = [Gen.block, Gen.block, Gen.deco, Gen.deco, Gen.target_stmt, Gen.target_stmt]

    def use(self, d):
        return ast.Subscript(value=ast.Name(id=self.s.choice(EXPR_MACROS), ctx=ast.Load()), slice=self.expr(d - 1), ctx=ast.Load())

    def nuse(self, d):
        return ast.Name(id=self.s.choice(NAME_MACROS), ctx=ast.Load())

    def block(self, d):
        s = self.s
        items = [ast.withitem(context_expr=ast.Name(id=s.choice(BLOCK_MACROS), ctx=ast.Load()), optional_vars=self.target(1) if s.chance(1, 4) else None) for _ in range(s.weighted([(4, 1), (1, 2)]))]
        if s.chance(1, 4):
            items.insert(s.int(0, len(items)), ast.withitem(context_expr=self.expr(1), optional_vars=None))
        return ast.With(items=items, body=self.body(d - 1))

    def deco(self, d):
        s = self.s
        fn = self.funcdef(d - 1) if s.chance(2, 3) else self.classdef(d - 1)
        fn.decorator_list = [ast.Name(id=s.choice(DECO_MACROS), ctx=ast.Load()) if s.chance(2, 3) else self.expr(1) for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)]))]
        return fn

    def tuse(self, multi=False):
        s = self.s
        inner = s.choice(["x", "y", "obj.a", "a[b]", "f(x).b", "k0"])
        k = s.choice(["{m}[{i}]", "{m}[{i}]", "k0"] + ["({m}[{i}], y)", "[{m}[{i}], *u0[x]]", "x, k0"] * multi)
        m = s.choice(["t0", "u0"]) if multi else "t0"
        tree = ast.parse(k.format(m=m, i=inner), mode="eval").body
        return tree

    def target_stmt(self, d):
        s = self.s
        k = s.int(0, 8)
        t = lambda multi=True: ast.unparse(self.tuse(multi))  # noqa: E731
        src = ["{t} = x", "for {t} in x:\n    y", "with x as {t}, y as {u}:\n    pass", "del {d}, {e}", "{d} += f(x)", "t0[x]: int = y", "[v for {t} in x]", "{t} = {u} = y", "{{a: b for {d} in x for {t} in y}}"][k]
        return ast.parse(src.format(t=t(), u=t(), d=t(False), e=t(False))).body[0]


@st.composite
def cases(draw):
    s = pygen.Src(draw)
    specs = {}

    def style():
        return {"loc": s.choice(["none", "none", "none", "own", "some", "start"]), "ctx": s.choice(["keep", "drop", "load", "random", "shared"]), "fill": s.choice(["same", "copy", "mixed"]), "visit": s.choice(["", "", "", "before", "after", "once"]),
                "done": s.chance(1, 8), "seed": s.int(0, 999)}

    def template(pool, emit, i):
        if i > 0 and s.chance(1, 2):
            return s.choice(emit).format(i=s.int(0, i - 1), j=0)
        if s.chance(1, 3) and pool is EXPRS:
            g = pygen.PyGen(s, names=["HOLE", "x", "y"], compilable=True, budget=15)
            return pygen.render(ast.Expression(body=g.expr(3)))
        if s.chance(1, 3) and pool is BLOCKS:
            g = pygen.PyGen(s, names=["x", "y"], compilable=True, budget=20)
            return pygen.render(g.module(1, 2, 2)) + "\nHOLE"
        return s.choice(pool)
    for i, m in enumerate(EXPR_MACROS):
        specs[m] = dict(style(), template=template(EXPRS, EMIT_E[:3], i))
    for i, m in enumerate(BLOCK_MACROS):
        specs[m] = dict(style(), template=template(BLOCKS, EMIT_B, i), form=s.choice(["list", "list", "gen", "none", "tuple"]))
    for i, m in enumerate(DECO_MACROS):
        specs[m] = dict(style(), template=s.choice(DECOS[:9] if i == 0 else DECOS), form="list", add=s.chance(1, 3), qadd=s.chance(1, 6))
    for i, m in enumerate(NAME_MACROS):
        specs[m] = dict(style(), template=s.choice(EXPRS + (EMIT_E if i else EMIT_E[:3])).replace("{i}", "0").replace("{j}", "0"), visit="")
    for m in TARGET_MACROS + TARGET_NAMES:
        specs[m] = dict(style(), template=s.choice(SINGLE if m != "u0" else MULTI))
        specs[m]["visit"] = ""
    g = Gen(s, budget=s.choice([15, 30, 60]))
    body = [g.stmt(3) for _ in range(s.int(1, 4))]
    return {"specs": specs, "src": pygen.render(ast.Module(body=body, type_ignores=[]))}


# ---------------------------------------------------------------- macros
LOCS = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def location(n):
    return tuple(getattr(n, a, None) for a in LOCS)


def full(loc):
    """A location with its optional parts filled in."""
    return (loc[0], loc[1], loc[2] if loc[2] is not None else loc[0], loc[3] if loc[3] is not None else loc[1])


class Macros:
    def __init__(self, case, ctx):
        self.case = case
        self.specs = case["specs"]
        self.log = []
        self.abort = False
        self.dropped = set()
        self.stack = []
        self.made = 0
        self.bindings = {m: self.make(m) for m in ALL}

    def make(self, name):
        spec = self.specs[name]

        def macro(tree, *, syntax, expander, invocation, **kw):
            if len(self.log) > 150:
                self.abort = True
                raise ValueError
            loc = location(invocation)
            inner = bool(self.stack)    # expanded by another macro, while that is running
            self.vague = inner and loc[0] is None   # a macro made the use, and expands it before it has a location
            if self.vague:
                loc = self.stack[-1]
            elif loc[0] is None or loc[1] is None:
                raise Violation(f"the invocation of {name} has no location: {loc}")
            where = loc
            if syntax == "decorator":
                mine = [d for d in invocation.decorator_list if isinstance(base(d), ast.Name) and base(d).id in ALL]
                where = location(mine[-1])
                if inner and where[0] is None:
                    where = None
            elif inner and location(invocation)[0] is None:
                where = None
            self.log.append((name, syntax, full(loc), where and full(where)))
            if (syntax == "block") != (name in BLOCK_MACROS) or (syntax == "decorator") != (name in DECO_MACROS):
                return tree     # used in another way than it is made for
            self.stack.append(full(loc))
            try:
                return self.output(name, dict(spec, vague=self.vague), tree, syntax, expander, full(loc), kw)
            finally:
                self.stack.pop()
        macro.__name__ = macro.__qualname__ = name
        if name in NAME_MACROS + TARGET_NAMES:
            return mexpander.namemacro(macro)
        return macro

    def output(self, name, spec, tree, syntax, expander, use, kw):
        rng = random.Random(spec["seed"])
        text = spec["template"]
        if text == "NONE":
            self.drop(tree)
            return None
        holes = "HOLE" in text or "SELF" in text
        if spec["visit"] == "before" and holes:
            tree = expander.visit_recursively(tree)
        elif spec["visit"] == "once" and holes:
            tree = expander.visit_once(tree)
        isblock = syntax in ("block", "decorator")
        out = ast.parse(text).body if isblock else ast.parse("(" + text + "\n)", mode="eval").body
        # (a macro that drops its input does not change it: the input may be shared)
        if syntax == "decorator" and holes and not isinstance(tree, mcore.Done) and not isinstance(tree, list):
            if spec["add"]:
                tree.decorator_list.append(self.fresh(ast.parse("deco(1)", mode="eval").body, spec, rng, use))
                tree.body.insert(0, self.fresh(ast.parse("inside = 1").body[0], spec, rng, use))
            if spec["qadd"]:
                tree.returns = self.fresh(ast.parse("ann", mode="eval").body, spec, rng, use) if not isinstance(tree, ast.ClassDef) else None
                if isinstance(tree, ast.ClassDef):
                    del tree.returns
        # nodes of the template, prepared; then the input is put into it
        everything = ast.Module(body=out, type_ignores=[]) if isblock else ast.Expression(body=out)
        self.fresh(everything, spec, rng, use)
        fill = Fill(tree, syntax, spec["fill"], rng)
        everything = fill.visit(everything)
        if not fill.n:
            self.drop(tree)
        out = everything.body
        if isblock:
            v = kw.get("optional_vars")
            if v is not None:
                s = ast.parse(f"T = {name!r}").body[0]
                self.fresh(s, spec, rng, use)
                s.targets = [v]
                out.insert(0, s)
            if not out:
                return None
        if spec["visit"] == "after" and (isblock or holes):
            out = expander.visit_recursively(out)
        if spec["done"]:
            # `Done` stops expansion
            out = [mcore.Done(x) if isinstance(x, ast.AST) and not isinstance(x, mcore.Done) else x for x in out] if isinstance(out, list) else mcore.Done(out)
        if isblock and isinstance(out, list):
            if len(out) == 1 and rng.random() < 0.5:
                return out[0]
            if spec["form"] == "gen":
                return (x for x in out)
            if spec["form"] == "tuple":
                return tuple(out)
        return out

    def drop(self, tree):
        """A macro drops what was (perhaps) expanded in `tree`."""
        for x in tree if isinstance(tree, list) else [tree]:
            if isinstance(x, ast.AST):
                self.dropped |= {n.lineno for n in nodes(x) if isinstance(n, ast.Assign) and hasattr(n, "lineno")}

    def fresh(self, tree, spec, rng, use):
        """Make `tree` (from a parser) look like nodes that a macro created."""
        shared = ast.Load()
        for n in ast.walk(tree):
            if "lineno" in n._attributes:
                own = location(n)
                mode = spec["loc"]
                if mode == "some":
                    mode = rng.choice(["none", "own", "start"])
                if mode == "start" and isinstance(n, (ast.pattern, ast.type_param)):
                    mode = "own"
                for a in LOCS:
                    if hasattr(n, a):
                        delattr(n, a)
                own = (own[0] + 1000, own[1], own[2] + 1000, own[3])
                if mode == "none":
                    tag(n, use, None, spec["visit"] == "after" or spec["vague"])
                elif mode == "own":
                    for a, v in zip(LOCS, own):
                        setattr(n, a, v)
                    tag(n, use, own)
                else:
                    n.lineno, n.col_offset = own[:2]
                    tag(n, use, (own[0], own[1], own[0], own[1]))
                    self.made += 1
            if "ctx" in n._fields:
                c = spec["ctx"]
                if c == "random":
                    c = rng.choice(["keep", "drop", "load", "store", "del", "shared"])
                if c == "drop":
                    del n.ctx
                elif c == "shared":
                    n.ctx = shared
                elif c != "keep":
                    n.ctx = {"load": ast.Load, "store": ast.Store, "del": ast.Del}[c]()
        return tree


def tag(n, use, own, early=False):
    # `early`: the macro itself has its output expanded, so uses in it may give their location to new nodes in them
    n._verif = ("own", own) if own else ("any" if early else "use", use)


def base(d):
    """The macro name in a decorator: `m`, or `m` with no arguments in brackets."""
    if isinstance(d, ast.Subscript) and isinstance(d.slice, ast.Tuple) and not d.slice.elts:
        return d.value
    return d


class Fill(ast.NodeTransformer):
    def __init__(self, tree, syntax, mode, rng):
        self.tree, self.syntax, self.mode, self.rng, self.n = tree, syntax, mode, rng, 0

    def piece(self):
        self.n += 1
        mode = self.mode if self.mode != "mixed" else self.rng.choice(["same", "copy"])
        if self.n == 1 or mode == "same":
            return self.tree
        return copy.deepcopy(self.tree)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Name) and node.value.id in ("HOLE", "SELF") and self.syntax in ("block", "decorator"):
            x = self.piece()
            x = list(x) if isinstance(x, list) else [] if x is None else [x]
            # an expression in the place of a statement is not well-typed
            return x if x else ast.copy_location(keep(ast.Pass(), node), node)
        return self.generic_visit(node)

    def visit_Name(self, node):
        if node.id == "HOLE" and self.syntax not in ("block", "decorator"):
            if self.syntax == "name":
                return keep(ast.copy_location(ast.Name(id="hole", ctx=ast.Load()), node), node)
            return self.piece()
        return node


def keep(new, old):
    if hasattr(old, "_verif"):
        new._verif = old._verif
    return new


# ---------------------------------------------------------------- check
def nodes(tree):
    """All nodes, each place that it appears in."""
    stack = [tree]
    n = 0
    while stack:
        x = stack.pop()
        n += 1
        if n > 20000:
            raise Reject("too large")
        yield x
        stack.extend(ast.iter_child_nodes(x))


def noctx(s):
    import re
    s = re.sub(r"(?:, )?ctx=(?:Load|Store|Del)\(\)", "", s)
    return s.replace("(, ", "(")


def compiles(tree):
    try:
        return compile(tree, "<case>", "exec", dont_inherit=True), None
    except (SyntaxError, TypeError, ValueError) as e:
        return None, e


def check(case, ctx):
    warnings.simplefilter("ignore")
    try:
        tree = ast.parse(case["src"])
    except (SyntaxError, ValueError):
        raise Reject
    for n in ast.walk(tree):
        if "lineno" in n._attributes:
            n._verif = ("user", location(n))
    m = Macros(case, ctx)
    try:
        res = mexpander.expand_macros(tree, dict(m.bindings), filename="<case>")
    except Exception as e:
        if m.abort:
            raise Reject("too many invocations")
        while e.__cause__ is not None:
            e = e.__cause__
        if isinstance(e, SyntaxError) and "must provide at least one argument" in str(e):
            raise Reject("`with n0():` in the generated program")
        raise
    require(isinstance(res, ast.Module), lambda: f"result {type(res).__name__}")
    where = "\nprogram:\n" + case["src"] + "\nresult:\n" + unparser.unparse_with_fallbacks(res)[:3000]
    uses = {w for _, _, a, b in m.log for w in (a, b) if w}
    own = {n._verif[1] for n in nodes(res) if getattr(n, "_verif", ("",))[0] == "own"}
    lines = set()
    for n in nodes(res):
        require(type(n).__module__ in ("ast", "_ast"), lambda: f"marker {type(n).__name__} remains{where}")
        if isinstance(n, ast.stmt) and hasattr(n, "lineno"):
            lines.add(n.lineno)
        if "lineno" not in n._attributes:
            continue
        got = location(n)
        kind, loc = getattr(n, "_verif", (None, None))
        name = f"{type(n).__name__} `{noctx(dump(n))[:150]}`"
        require(got[0] is not None and got[1] is not None, lambda: f"{name} has no location ({got}){where}")
        if kind is None:
            require(full(got) in uses, lambda: f"{name}, which the expander made, is at {got}, where no macro use is{where}")
        elif kind == "user":
            require(got == loc, lambda: f"{name} of the user's code was at {loc}, is now at {got}{where}")
        else:
            require(full(got) == loc or kind == "any" and full(got) in uses | own, lambda: f"{name}, created by a macro, is at {got}, expected {loc} ({'that of the macro use' if kind == 'use' else 'its own'}){where}")
        if isinstance(n, ast.pattern):
            require(None not in got, lambda: f"pattern {name} has an incomplete location {got}{where}")
    for name, syntax, _, w in m.log:
        if syntax in ("block", "decorator") and w:
            require(w[0] in lines or w[0] in m.dropped, lambda: f"no statement on line {w[0]}, where {syntax} macro {name} was used{where}")
        ctx.event(syntax)
    # contexts
    try:
        text = ast.unparse(res)
        want = ast.parse(text)
    except (SyntaxError, ValueError, RecursionError):
        raise Reject("the output is not well-typed")
    a, b = dump(want), dump(res)
    if noctx(a) != noctx(b):
        raise Reject("not faithfully unparsed")
    require(a == b, lambda: f"contexts: {diff(a, b)}{where}")
    good, why = compiles(want)
    code, err = compiles(res)
    if good is None:
        require(code is None and type(err) is type(why), lambda: f"result compiles ({err!r}), but should give {why!r}{where}")
        ctx.event("not compilable either way")
    else:
        require(code is not None, lambda: f"result does not compile: {err!r}{where}")
        ctx.event("compiles")
    ctx.nontrivial_case(len(m.log) >= 2 and m.made > 0 and good is not None)


TESTS = [Test("outputs", cases(), check, quick=6000, thorough=200000)]
