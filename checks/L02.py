"""Splicing into templates keeps every statement, in order and once."""

import ast
import copy

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, require
from harness.sut import coreutils, diff, markers, splicing

PROPERTY = "L02"
RULE = ("'expr'/'stmts': generated templates (statement list, module, single statement or expression; default and custom tag) with paste-here markers anywhere, also as names that are not markers (arguments, attributes, "
        "targets), and generated code to splice, itself containing the tag. The result must equal substitution on the parse of the template, locations included, in the template object itself, with no node in two "
        "places. 'dialect': user module and template made of docstrings, future-imports, __all__, macro- and dialect-imports (top level and nested) and other statements; the result must be the documented "
        "arrangement. 'split': split_futureimports and inject_after_futureimports. Non-trivial: at least one substitution and three statements in the template ('expr', 'stmts'), at least three kinds of special "
        "statements ('dialect'), at least one docstring or future-import and one other statement ('split').")
ASSUMPTIONS = ["user code spliced with splice_dialect has at least one statement that stays in place, and no block consisting only of macro-imports"]

TAG = "__paste_here__"


def adump(x):
    if isinstance(x, list):
        return "[" + ",\n ".join(adump(y) for y in x) + "]"
    return ast.dump(x, include_attributes=True)


def subst(x, hit, make):
    """Reference substitution, in place. `make()` returns a node or a list of nodes."""
    if isinstance(x, list):
        out = []
        for y in x:
            r = subst(y, hit, make)
            out += r if isinstance(r, list) else [r]
        return out
    if not isinstance(x, ast.AST):
        return x
    if hit(x):
        return make()
    for f in x._fields:
        v = getattr(x, f, None)
        if isinstance(v, (list, ast.AST)):
            setattr(x, f, subst(v, hit, make))
    return x


def unshared(x, seen):
    """Every node (other than context and operator singletons) is in one place only."""
    if isinstance(x, list):
        for y in x:
            unshared(y, seen)
    elif isinstance(x, ast.AST) and not isinstance(x, (ast.expr_context, ast.operator, ast.boolop, ast.unaryop, ast.cmpop)):
        require(id(x) not in seen, lambda: f"node {ast.dump(x)[:200]} is in two places of the result")
        seen[id(x)] = x
        for f in x._fields:
            unshared(getattr(x, f, None), seen)


def gen(draw, tag, rate, *, budget=20, hi=4, mod=True):
    def mark_expr(g, d):
        return ast.Name(id=tag, ctx=ast.Load())

    def mark_stmt(g, d):
        return ast.Expr(value=ast.Name(id=tag, ctx=ast.Load()))
    g = pygen.PyGen(pygen.Src(draw), budget=budget, names=["a", "b", "x", "f", tag if rate else "c"], extra_expr=[mark_expr] if rate else None, extra_stmt=[mark_stmt] if rate else None)
    g.extra_rate = (1, 6)
    g.extra_stmt_rate = (1, 3)
    src = pygen.render(g.module(1, hi, 3) if mod else ast.Expression(body=g.expr(3)))
    return src if src is not None else "pass" if mod else "x"


@st.composite
def expr_cases(draw):
    s = pygen.Src(draw)
    tag = s.choice([TAG, TAG, "here"])
    how = s.choice(["list", "module", "stmt", "expr"])
    return {"tag": tag, "how": how, "tpl": gen(draw, tag, True, mod=how != "expr"), "src": gen(draw, tag, s.chance(1, 3), budget=8, mod=False),
            "marked": s.chance(1, 4)}


def template(case):
    if case["how"] == "expr":
        return ast.parse(case["tpl"], mode="eval").body
    tree = ast.parse(case["tpl"])
    return {"list": tree.body, "module": tree, "stmt": tree.body[-1]}[case["how"]]


def check_expr(case, ctx):
    tag = case["tag"]
    expr = ast.parse("\n\n\n" + case["src"].strip(), mode="eval").body
    expr = markers.ASTMarker(expr) if case["marked"] else expr
    tpl = template(case)
    n = [0]

    def make():
        n[0] += 1
        return copy.deepcopy(expr)
    want = subst(template(case), lambda x: type(x) is ast.Name and x.id == tag, make)
    kw = {} if tag == TAG and case["how"] != "stmt" else {"tag": tag}
    original = tpl
    got = splicing.splice_expression(expr, tpl, **kw)
    ctx.nontrivial_case(n[0] >= 1 and (case["how"] == "expr" or len(ast.parse(case["tpl"]).body) >= 3))
    ctx.event("substitutions", n[0])
    a, b = adump(want), adump(got)
    require(a == b, lambda: diff(a, b))
    if not (case["how"] == "expr" and type(original) is ast.Name and original.id == tag):
        require(got is original, "the template was not edited in place")
    unshared(got, {})
    if n[0]:
        found = []
        subst(got, lambda x: found.append(x) if x is expr else False, lambda: None) if got is not expr else found.append(expr)
        require(len(found) == 1, lambda: f"the given expression is in the result {len(found)} times")


@st.composite
def stmt_cases(draw):
    s = pygen.Src(draw)
    tag = s.choice([TAG, TAG, "here"])
    return {"tag": tag, "how": s.choice(["list", "module", "stmt"]), "tpl": gen(draw, tag, True), "src": gen(draw, tag, s.chance(1, 3), budget=8, hi=3), "single": s.chance(1, 5)}


def check_stmt(case, ctx):
    tag = case["tag"]
    body = ast.parse("\n\n\n" + case["src"]).body
    body = body[0] if case["single"] else body
    as_list = body if isinstance(body, list) else [body]
    n = [0]

    def make():
        n[0] += 1
        return copy.deepcopy(as_list)
    hit = lambda x: type(x) is ast.Expr and type(x.value) is ast.Name and x.value.id == tag  # noqa: E731
    want = subst(template(case) if case["how"] == "list" else [template(case)], hit, make)
    tpl = template(case)
    kw = {} if tag == TAG and case["how"] != "stmt" else {"tag": tag}
    got = splicing.splice_statements(body, tpl, **kw)
    ctx.nontrivial_case(n[0] >= 1 and len(ast.parse(case["tpl"]).body) >= 3)
    ctx.event("substitutions", n[0])
    a, b = adump(want), adump(got)
    require(a == b, lambda: diff(a, b))
    if case["how"] == "list":
        require(got is tpl, "the template was not edited in place")
    unshared(got, {})
    if n[0]:
        ids = set()

        def note(x):
            ids.add(id(x))
            return False
        subst(got, note, None)
        require(all(id(x) in ids for x in as_list), "the given statements are not in the result")


# ---------------------------------------------------------------- splice_dialect
FUTURES = ["annotations", "generator_stop", "division", "print_function as pf"]
SPECIAL = ["__all__ = ['a']", "__all__ = ['b', 'c']", "from dia import dialects, D1", "from ..dia import dialects, D2", "from mac import macros, m1", "from .mac import macros, m2 as k", "from mac import macros",
           "from mac import macros as notmacros, x", "from mac import x, macros", "import macros", "a = __all__ = []", "__all__ += ['x']", "from dia import m as dialects",
           "if x:\n    from mac import macros, m3\n    y = 1", "with w:\n    from dia import dialects, D3\n    from mac import macros, m4\n    __all__ = 1\n    y = 2", "def f():\n    y = 1\n    from mac import macros, m5", "__all__: list = []", "__all__ = ()"]


@st.composite
def part(draw, is_template):
    s = pygen.Src(draw)
    doc = s.choice([None, "'''doc'''", "'it\\'s\\nthis'", "''", "b'no'", "f'no'"])
    fut = [f"from __future__ import {s.choice(FUTURES)}" for _ in range(s.weighted([(3, 0), (2, 1), (1, 2)]))]
    pieces = []
    for _ in range(s.int(0, 5)):
        pieces.append(s.choice(SPECIAL) if s.chance(1, 2) else gen(draw, TAG, False, budget=5, hi=1))
    mark = None
    if is_template:
        mark = TAG
        for _ in range(s.int(0, 3)):
            how = s.choice(["with w:\n{}", "if x:\n    a = 1\n{}\n    b = 2", "def g():\n{}\n    return 1", "try:\n{}\nfinally:\n    z()", "class C:\n    a = 1\n{}"])
            mark = how.format("\n".join("    " + ln for ln in mark.split("\n")))
    else:
        pieces.append(s.choice(["keep = 1", "print('x')"]))
    pos = s.int(0, len(pieces))
    if mark:
        pieces.insert(pos, mark)
        if s.chance(1, 5):
            pieces.append(TAG)
    return "\n".join(([doc] if doc else []) + fut + pieces)


@st.composite
def dialect_cases(draw):
    s = pygen.Src(draw)
    loc = s.choice([None, [3, 4], [12, 0], [3, 4], [12, 0], [5, None], [None, 4]])
    return {"user": draw(part(False)), "tpl": draw(part(True)), "loc": loc, "user_single": s.chance(1, 8), "tpl_single": s.chance(1, 8)}


def is_doc(stmt):
    return isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant) and isinstance(stmt.value.value, str)


def ref_split(body):
    body = list(body)
    doc = [body.pop(0)] if body and is_doc(body[0]) else []
    fut = []
    while body and isinstance(body[0], ast.ImportFrom) and body[0].module == "__future__":
        fut.append(body.pop(0))
    return doc, fut, body


def is_import(magic):
    return lambda x: isinstance(x, ast.ImportFrom) and x.names[0].name == magic and x.names[0].asname is None


def is_all(x):
    return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "__all__"


def extract(body, hit):
    out = []

    def note(x):
        if hit(x):
            out.append(x)
            return True
        return False
    rest = subst(body, note, lambda: [])
    return rest, out


def located(tree, loc, where):
    """Template nodes: everything at the given location."""
    for n in ast.walk(tree):
        if "lineno" in n._attributes:
            got = (n.lineno, n.col_offset)
            require(got == loc, lambda: f"{where}: template node {ast.dump(n)[:100]} at {got}, expected {loc}")


def check_dialect(case, ctx):
    def parse():
        user, tpl = ast.parse(case["user"]).body, ast.parse(case["tpl"]).body
        return (user[-1:] if case["user_single"] else user), (tpl if not case["tpl_single"] else [x for x in tpl if TAG in ast.unparse(x)][:1])
    user, tpl = parse()
    loc = tuple(case["loc"]) if case["loc"] and None not in case["loc"] else (user[0].lineno, user[0].col_offset)
    for x in tpl:   # mark template nodes
        for n in ast.walk(x):
            n.from_template = True
    udoc, ufut, ubody = ref_split(user)
    tdoc, tfut, tbody = ref_split(tpl)
    if udoc and tdoc:
        text = udoc[0].value.value + "\n" + "-" * 79 + "\n" + tdoc[0].value.value
        doc = [ast.copy_location(ast.Expr(value=ast.copy_location(ast.Constant(value=text), udoc[0])), udoc[0])]
    else:
        doc = udoc or tdoc
    uall = [x for x in ubody if is_all(x)]
    ubody = [x for x in ubody if not is_all(x)]
    tbody = [x for x in tbody if not is_all(x)]
    tbody, tdia = extract(tbody, is_import("dialects"))
    tbody, tmac = extract(tbody, is_import("macros"))
    ubody, udia = extract(ubody, is_import("dialects"))
    ubody, umac = extract(ubody, is_import("macros"))
    if not ubody:
        ctx.event("nothing left in place")
        return
    ctx.nontrivial_case(sum(map(bool, [udoc, ufut, tdoc, tfut, uall, tdia, tmac, udia, umac])) >= 3)
    hit = lambda x: type(x) is ast.Expr and type(x.value) is ast.Name and x.value.id == TAG  # noqa: E731
    rest = subst(tbody, hit, lambda: copy.deepcopy(ubody))
    want = doc + tfut + ufut + uall + tdia + udia + tmac + umac + rest

    u2, t2 = parse()
    u2 = u2[0] if case["user_single"] else u2
    t2 = t2[0] if case["tpl_single"] else t2
    kw = {k: v for k, v in zip(("lineno", "col_offset"), case["loc"]) if v is not None} if case["loc"] else {}
    got = splicing.splice_dialect(u2, t2, **kw)
    a, b = ast.dump(ast.Module(body=want, type_ignores=[])), ast.dump(ast.Module(body=got, type_ignores=[]))
    require(a == b, lambda: diff(a, b) + "\n" + ast.unparse(ast.fix_missing_locations(ast.Module(body=got, type_ignores=[]))))

    future_parts = {id(n) for x in tfut for n in ast.walk(x)} if ufut else set()

    def locs(w, g):
        if isinstance(w, list):
            for x, y in zip(w, g):
                locs(x, y)
            return
        if not isinstance(w, ast.AST):
            return
        if "lineno" in w._attributes:
            have = (g.lineno, g.col_offset)
            if hasattr(w, "from_template") and id(w) in future_parts:
                pass    # must be where Python accepts them: checked by compiling
            elif hasattr(w, "from_template"):
                require(have == loc, lambda: f"template node {ast.dump(w)[:100]} is at {have}, expected {loc}")
            else:
                exp = (w.lineno, w.col_offset, w.end_lineno, w.end_col_offset)
                have += (getattr(g, "end_lineno", None), getattr(g, "end_col_offset", None))
                require(have == exp, lambda: f"user node {ast.dump(w)[:100]} is at {have}, expected {exp}")
        for f in w._fields:
            locs(getattr(w, f, None), getattr(g, f, None))
    locs(want, got)
    try:
        compile(ast.unparse(ast.fix_missing_locations(ast.Module(body=want, type_ignores=[]))), "x", "exec")
        ctx.event("compiles")
    except (SyntaxError, ValueError):
        return
    compile(ast.Module(body=got, type_ignores=[]), "x", "exec")


@st.composite
def split_cases(draw):
    s = pygen.Src(draw)
    return {"src": draw(part(False)) if s.chance(1, 2) else "\n".join(([s.choice(["''", "'doc'", "f''", "b''", "1"])] if s.chance(1, 2) else []) + [f"from __future__ import {f}" for f in s.sublist(FUTURES)] +
                                                                         (["x = 1"] if s.chance(1, 2) else []) + (["from __future__ import annotations"] if s.chance(1, 4) else [])),
            "stmts": s.int(0, 2), "single": s.chance(1, 4)}


def check_split(case, ctx):
    body = ast.parse(case["src"]).body
    want = ref_split(body)
    original = list(body)
    ctx.nontrivial_case(bool(want[0] or want[1]) and bool(want[2]))
    got = coreutils.split_futureimports(body)
    ids = lambda parts: [[id(x) for x in p] for p in parts]  # noqa: E731
    require(len(got) == 3 and ids(got) == ids(want), lambda: f"split_futureimports({case['src']!r}) -> {[[ast.unparse(y) for y in x] for x in got]}")
    require(body == original, "split_futureimports changed its input")
    new = ast.parse("u = 1\nv = 2").body[:case["stmts"]]
    new = ast.parse("w = 3").body[0] if case["single"] else new
    got = coreutils.inject_after_futureimports(new, body)
    exp = want[0] + want[1] + (new if isinstance(new, list) else [new]) + want[2]
    require([id(x) for x in got] == [id(x) for x in exp], lambda: f"inject_after_futureimports into {case['src']!r} -> {[ast.unparse(x) for x in got]}")


TESTS = [
    Test("split", split_cases(), check_split, quick=1500, thorough=20000, fixed=[{"src": "", "stmts": 1, "single": False}]),
    Test("expr", expr_cases(), check_expr, quick=6000, thorough=120000),
    Test("stmts", stmt_cases(), check_stmt, quick=6000, thorough=120000),
    Test("dialect", dialect_cases(), check_dialect, quick=5000, thorough=100000),
]
