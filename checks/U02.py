"""Colored, debug and dump renderings are faithful to the AST."""

import ast
import copy
import re

from hypothesis import strategies as st

from checks.U01 import libfiles, libtree, fstring_text
from harness import pygen
from harness.core import Test, Reject, require
from harness.sut import astdumper, colorizer, core as mcore, diff, dump, expander, markers, mcpyrate, quotes, unparser

PROPERTY = "U02"
RULE = ("'render': generated modules, statements of the standard library and f-strings, as module, statement list, statement, interactive or expression, with random source locations removed: colored text without "
        "escape sequences equals the plain text, in plain and debug mode; the debug text without labels and names of invisible nodes equals the plain text line by line, and the line of each statement is labelled "
        "with its line number. 'markers': AST markers (of one or several fields) and hygienic captures put around or in place of random expressions and statements; the text must be that of the tree with a "
        "placeholder, with the placeholder replaced by the notation for the marker and the text of its content; code that only looks like a capture is rendered like any code. 'dump': all options; the text is "
        "evaluated with the node classes and compared. 'fallback': arbitrary objects and damaged ASTs. 'colors': nested colors in setcolor and colorize, macro names of an expander. Non-trivial: at least 8 nodes; at "
        "least one marker or capture placed; damaged AST or non-AST.")
ASSUMPTIONS = ["markers are not put within f-strings, or in pattern position"]

ANSI = re.compile(r"\x1b\[[0-9;]*m")
LABEL = re.compile(r"L(?: ----|[ \d]{4}\d+) ")


def plain(text):
    return ANSI.sub("", text)


def count(tree):
    return sum(1 for x in (tree if isinstance(tree, list) else [tree]) for _ in ast.walk(x))


def parse(src, mode="exec"):
    try:
        return ast.parse(src, mode=mode)
    except (SyntaxError, ValueError):
        raise Reject("not parseable")


# ---------------------------------------------------------------- render

@st.composite
def renders(draw):
    s = pygen.Src(draw)
    how = s.choice(["module", "module", "list", "stmt", "interactive", "expr", "lib", "fstring"])
    if how == "lib":
        src = [s.int(0, 3000), s.int(0, 200)]
    elif how == "fstring":
        src = draw(fstring_text())
    elif how == "expr":
        src = draw(pygen.expr_source(budget=25))
    else:
        src = draw(pygen.module_source(budget=30))
    return {"how": how, "src": src, "gap": s.choice([0, 0, 1, 98, 9997, 123456]), "unlocate": [s.int(0, 15) for _ in range(s.weighted([(3, 0), (1, 2)]))], "missing": s.chance(1, 2)}


def root_of(case):
    how, src = case["how"], case["src"]
    if how == "lib":
        tree = libtree(libfiles()[src[0] % len(libfiles())])
        if tree is None or not tree.body:
            raise Reject("not parseable")
        tree = tree.body[src[1] % len(tree.body)]
        if count(tree) > 6000:
            raise Reject("too large")
        return copy.deepcopy(tree)
    if how == "fstring":
        return parse(src, "eval").body
    if how == "expr":
        return parse(src, "eval")
    tree = parse("\n" * case["gap"] + src if case["gap"] < 200 else src)
    if case["gap"] >= 200:
        ast.increment_lineno(tree, case["gap"])
    if how == "list":
        return tree.body
    if how == "stmt":
        return tree.body[-1]
    if how == "interactive":
        return ast.Interactive(body=tree.body)
    return tree


def stmts(root):
    return [n for x in (root if isinstance(root, list) else [root]) for n in ast.walk(x) if isinstance(n, ast.stmt)]


def split_debug(text, root, extra_lines=0):
    """Labels and lines of debug text, without the line of the top-level node, blank lines and labels."""
    out = []
    lines = text.split("\n")
    shift = ""
    if isinstance(root, (ast.Module, ast.Interactive)):
        require(lines[0] == f"L ---- ${type(root).__name__}:", lambda: f"first line of debug text is {lines[0]!r}")
        lines = lines[1:]
        shift = "    "
    for x in lines:
        if not x.strip():
            continue
        m = LABEL.match(x)
        require(m, lambda: f"line of debug text without label: {x!r}")
        rest = x[m.end():]
        require(rest.startswith(shift), lambda: f"line of debug text not indented: {x!r}")
        out.append((m.group(), rest[len(shift):]))
    return out


EXPR_AT = re.compile(r"^( *)\$Expr: ")


def check_render(case, ctx):
    root = root_of(case)
    nodes = stmts(root)
    for i in case["unlocate"]:
        if i < len(nodes):
            if case["missing"]:
                vars(nodes[i]).pop("lineno", None)
            else:
                nodes[i].lineno = None
    before = dump(root)
    text = {(d, c): unparser.unparse(root, debug=d, color=c) for d in (False, True) for c in (False, True)}
    require(dump(root) == before, "unparse changed the AST")
    ctx.nontrivial_case(count(root) >= 8)
    ctx.event(case["how"])
    for d in (False, True):
        a, b = plain(text[d, False]), plain(text[d, True])
        require(a == b, lambda: f"colored text differs (debug={d})\n{diff(a, b)}")
        require(ANSI.search(text[d, False]) is None or "\\x1b" in repr(ast.dump(root)), "escape sequence in plain text")
    P, D = text[False, False], text[True, False]
    require(unparser.unparse(root) == P, "default is not plain")
    require(unparser.unparse_with_fallbacks(root, debug=True) == D, "unparse_with_fallbacks differs")
    if isinstance(root, ast.expr):
        require(D == P, lambda: f"debug text of an expression\n{D}\nexpected\n{P}")
        return
    if isinstance(root, ast.Expression):
        require(D == "L ---- $Expression:" + P or D == "L ---- $Expression: " + P, lambda: f"debug text of an Expression\n{D}\nexpected\n{P}")
        return
    got = split_debug(D, root)
    plines = P.split("\n")
    want = [(i + 1, x) for i, x in enumerate(plines) if x.strip()]
    require(len(got) == len(want), lambda: f"debug text has {len(got)} lines of code, plain text {len(want)}")
    try:
        back = ast.parse(P)
    except (SyntaxError, ValueError):
        raise Reject("see U01")
    label_at = {}
    pairs = list(zip(nodes, stmts(back.body if isinstance(root, list) else back.body[0] if isinstance(root, ast.stmt) else back)))
    require(len(nodes) == len(stmts(back)), "see U01")
    isexpr = set()
    for a, b in pairs:
        no = getattr(a, "lineno", None)
        label_at[b.lineno] = f"L{no:5d} " if no else "L ---- "
        if isinstance(a, ast.Expr):
            isexpr.add(b.lineno)
    for (label, x), (no, y) in zip(got, want):
        if no in isexpr:
            m = EXPR_AT.match(x)
            require(m, lambda: f"expression statement shown as {x!r}")
            x = m.group(1) + x[m.end():]
        require(x.rstrip() == y.rstrip(), lambda: f"debug text {x!r}, expected {y!r}")
        if no in label_at:
            require(label == label_at[no], lambda: f"line {y!r} of the plain text is labelled {label!r}, expected {label_at[no]!r}")


# ---------------------------------------------------------------- markers

class Pair(markers.ASTMarker):
    def __init__(self, body=None, extra=None, note=None):
        super().__init__(body)
        self.extra = extra
        self.note = note
        self._fields += ["extra", "note"]


class Mine(markers.ASTMarker):
    pass


NAMES = ["x", "y", "f", "quotes", "mcpyrate"]


def a_macro(tree, **kw):
    return tree


@st.composite
def marks(draw):
    s = pygen.Src(draw)
    g = pygen.PyGen(s, budget=25, fstrings=False, strings=["", "a"])
    src = pygen.render(g.module(1, 3, 3)) or "f(x)"
    subs = []
    for i in range(s.int(1, 3)):
        kind = s.choice(["done", "mine", "stmt", "stmts", "value", "value2", "macro", "looks", "nested", "none", "pair", "pairs"])
        g2 = pygen.PyGen(s, budget=8, fstrings=False, strings=["", "a"])
        e = pygen.render(ast.Expression(body=g2.expr(3))) or "x"
        b = pygen.render(g2.module(1, 2, 2)) or "x = 1"
        subs.append([kind, s.int(0, 40), e, b])
    return {"src": src, "subs": subs, "debug": s.chance(1, 2)}


LOOKS = ["mcpyrate.quotes.lookup_value(x)", "mcpyrate.quotes.lookup_value()", "mcpyrate.quotes.lookup_value(*x)", "mcpyrate.quotes.lookup_value(key=x)", "mcpyrate.quotes.lookup_value((x, y))",
         "mcpyrate.quotes.lookup_value(('x', y))", "mcpyrate.quotes.lookup_value(('x', 1))", "mcpyrate.quotes.capture_value(x)", "mcpyrate.quotes.capture_value(x, y)", "mcpyrate.quotes.lookup_macro(x)",
         "mcpyrate.quotes.capture_value(x, 1)", "mcpyrate.quotes.lookup_macro(('x', 'y'))", "mcpyrate.quotes.lookup_macro(('x', 'y', z))", "__import__().quotes.lookup_value(x)", "__import__('mcpyrate.quotes').quotes.lookup_macro(x)",
         "quotes.lookup_value(('x', b''))", "a.mcpyrate.quotes.lookup_value(('x', b''))", "mcpyrate.quotes.lookup_value", "mcpyrate.quotes.lookup_value('ab')", "mcpyrate.quotes.lookup_value(('a', b'b'), x)[1]", "lookup_value(('x', b''))",
         "mcpyrate.quotes.lookup_macro((1, 2, 3))", "mcpyrate.quotes.lookup_macro()", "mcpyrate.quotes.lookup_value(['x', b''])[0]"]
LOOKS = [x for x in LOOKS if x not in ("mcpyrate.quotes.lookup_value(('a', b'b'), x)[1]", "mcpyrate.quotes.lookup_value(['x', b''])[0]")]


def slots(tree):
    """Places for an expression / statement: (parent, field, index)."""
    exprs, stmts_ = [], []

    def walk(node):
        for f in node._fields:
            v = getattr(node, f, None)
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.stmt):
                        stmts_.append((node, f, i))
                    elif isinstance(x, ast.expr) and f in ("args", "elts", "values", "ifs", "decorator_list", "bases", "comparators") and not isinstance(x, ast.Starred):
                        exprs.append((node, f, i))
                    if isinstance(x, ast.AST):
                        walk(x)
            elif isinstance(v, ast.AST):
                if isinstance(v, ast.expr) and isinstance(v.__dict__.get("ctx", ast.Load()), ast.Load) and not isinstance(v, ast.Starred) and not isinstance(node, (ast.MatchValue, ast.MatchClass)) and f not in ("target", "slice"):
                    exprs.append((node, f, None))
                walk(v)
    walk(tree)
    return exprs, stmts_


def put(slot, node):
    parent, f, i = slot
    if i is None:
        setattr(parent, f, node)
    else:
        getattr(parent, f)[i] = node


def indent_of(line):
    return len(line) - len(line.lstrip(" "))


def text_of(x, debug):
    t = unparser.unparse(x, debug=debug)
    if debug:
        t = "\n".join(LABEL.sub("", y, count=1) if LABEL.match(y) else y for y in t.split("\n"))
    return t


def lines_of(t):
    return [x.rstrip() for x in t.split("\n") if x.strip()]


def check_marks(case, ctx):
    tree, other = parse(case["src"]), parse(case["src"])
    debug = case["debug"]
    placed, taken = {}, set()
    (exprs, stmts_), (exprs2, stmts2) = slots(other), slots(tree)
    for k, (kind, at, e, b) in enumerate(case["subs"]):
        hole = f"HOLE{k}X"
        expr = parse(e, "eval").body
        body = parse(b).body
        if kind in ("stmt", "stmts", "pairs"):
            if not stmts_:
                continue
            i = at % len(stmts_)
            cls = mcore.Done if at % 2 else Mine
            inner = body if kind != "stmt" else body[0]
            if kind == "pairs":
                node = Pair(inner, expr, at)
                head = None
            else:
                node = cls(inner)
                head = f"$ASTMarker<{cls.__name__}>:"
            new, new2 = ast.Expr(value=ast.Name(id=hole, ctx=ast.Load())), node
            if ("stmt", i) in taken:
                continue
            taken.add(("stmt", i))
            # an `if` alone in an else block is shown as `elif`; a marker there is not
            put(stmts_[i], new)
            put(stmts2[i], new2)
            placed[hole] = ("stmt", head, lines_of(text_of(inner, debug)), node, expr)
        else:
            if not exprs:
                continue
            i = at % len(exprs)
            if ("expr", i) in taken:
                continue
            taken.add(("expr", i))
            et = text_of(expr, debug)
            if kind in ("done", "mine"):
                cls = mcore.Done if kind == "done" else Mine
                node, want = cls(expr), f"($ASTMarker<{cls.__name__}>: {et})"
            elif kind == "nested":
                node, want = mcore.Done(Mine(expr)), f"($ASTMarker<Done>: ($ASTMarker<Mine>: {et}))"
            elif kind == "none":
                node, want = Mine(None), "($ASTMarker<Mine>: None)"
            elif kind == "pair":
                node, want = Pair(expr, ast.Name(id="abc", ctx=ast.Load()), "n"), f"($ASTMarker<Pair>: body=({et}), extra=(abc), note=('n'))"
            elif kind == "value":
                node = quotes.capture_value([1, at], f"nm{at}")
                want = f"$h[nm{at}]" if debug else text_of(node, False)
            elif kind == "value2":
                node = expander.expand_macros(parse(f"r = q[h[nm{at}]]"), {"q": quotes.q, "h": quotes.h}, filename="<case>").body[0].value
                node = next(x for x in ast.walk(node) if isinstance(x, ast.Call) and x.func.attr == "capture_value")
                want = f"$h[nm{at}]" if debug else text_of(node, False)
            elif kind == "macro":
                key = quotes.capture_macro(a_macro, f"mac{at}")
                node = key
                want = f"$h[mac{at}]" if debug else text_of(node, False)
            elif kind == "looks":
                node = parse(LOOKS[at % len(LOOKS)], "eval").body
                want = ast.unparse(node)
                require(quotes.is_captured_value(node) is False and quotes.is_captured_macro(node) is False, lambda: f"{want} taken for a capture")
            put(exprs[i], ast.Name(id=hole, ctx=ast.Load()))
            put(exprs2[i], node)
            placed[hole] = ("expr", want, None, node, None)
            if kind in ("value", "value2"):
                isx = quotes.is_captured_value(node)
                require(isx and isx[0] == f"nm{at}" and quotes.is_captured_macro(node) is False, lambda: f"is_captured_value gives {isx!r}")
                require((isx[1] is None) == (kind == "value2"), lambda: f"is_captured_value gives {isx!r}")
                if kind == "value":
                    require(quotes.lookup_value(isx) == [1, at], "the detected capture does not give the value")
            elif kind == "macro":
                isx = quotes.is_captured_macro(node)
                require(isx and isx[0] == f"mac{at}" and quotes.is_captured_value(node) is False, lambda: f"is_captured_macro gives {isx!r}")
    if not placed:
        raise Reject("no place for a marker")
    ctx.nontrivial_case()
    for p in placed.values():
        ctx.event(p[0])
    template = text_of(other, debug)
    holes = re.findall(r"HOLE\dX", template)
    if sorted(holes) != sorted(placed):
        raise Reject("a placeholder was covered by another one")
    got = text_of(tree, debug)
    require(plain(unparser.unparse(tree, debug=debug, color=True)) == unparser.unparse(tree, debug=debug), "colored text differs")
    want = []
    loose = []
    for line in lines_of(template):
        m = re.fullmatch(r" *(?:\$Expr: )?(HOLE\dX)", line)
        if m and placed[m.group(1)][0] == "stmt":
            _, head, inner, node, expr = placed[m.group(1)]
            ind = " " * indent_of(line)
            if head is None:
                loose.append((node, inner, expr))
                want.append(None)
            else:
                want.append(ind + head)
                want += [ind + "    " + x for x in inner]
            continue
        want.append(re.sub(r"HOLE\dX", lambda m: placed[m.group()][1], line))
    gl = lines_of(got)
    if not loose:
        # markers' content: an expression may print in several lines only if it has such strings; none here
        norm = lambda ls: [x.replace(" ", "") if "HOLE" in x else x for x in ls]  # noqa: E731
        require(norm(gl) == norm([x for w in want for x in w.split("\n")]), lambda: f"debug={debug}:\n{got}\nexpected\n" + "\n".join(want))
    else:
        text = "\n".join(gl)
        for node, inner, expr in loose:
            require("$ASTMarker<Pair>" in text, "marker not shown")
            for x in inner + [text_of(expr, debug), repr(node.note)]:
                require(x.strip() in text, lambda: f"{x!r} in a marker is not shown\n{text}")
            for f in ("body", "extra", "note"):
                require(re.search(rf"^ *{f}:", text, re.M), lambda: f"field {f} not shown\n{text}")
        i = want.index(None)
        require(gl[:i] == want[:i], lambda: f"before the marker\n{gl[:i]}\nexpected\n{want[:i]}")


# ---------------------------------------------------------------- dump

@st.composite
def dumps(draw):
    s = pygen.Src(draw)
    how = s.choice(["module", "list", "stmt", "interactive", "expr", "fstring", "lib"])
    if how == "lib":
        src = [s.int(0, 3000), s.int(0, 200)]
    else:
        src = draw(fstring_text() if how == "fstring" else pygen.expr_source(budget=20) if how == "expr" else pygen.module_source(budget=20, hi=3))
    return {"how": how, "src": src, "gap": 0, "mark": [s.int(0, 30) for _ in range(s.int(0, 2))], "unlocate": [s.int(0, 30) for _ in range(s.int(0, 2))], "drop": s.chance(1, 4),
            "attrs": s.chance(1, 2), "multiline": s.chance(1, 2), "color": s.chance(1, 2), "strange": s.weighted([(3, 0), (1, s.int(1, 8))])}


STRANGE = [None, "[1, 2]", "[", "L    1 x", b"[", float("inf"), complex(0, float("inf")), -0.0, ("a", frozenset([1]), ...)]


def same(a, b, attrs, path=""):
    if isinstance(a, ast.AST):
        require(type(a) is type(b), lambda: f"{path}: {a!r} became {b!r}")
        fa, fb = dict(ast.iter_fields(a)), dict(ast.iter_fields(b))
        for k in fa.keys() | fb.keys():
            same(fa.get(k), fb.get(k), attrs, f"{path}.{k}")
        if attrs:
            for k in a._attributes:
                x, y = getattr(a, k, None), getattr(b, k, None)
                require(x == y, lambda: f"{path}: {k} {x!r} became {y!r}")
        return
    if isinstance(a, list):
        require(type(b) is list and len(a) == len(b), lambda: f"{path}: {a!r} became {b!r}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, attrs, f"{path}[{i}]")
        return
    require(type(a) is type(b) and repr(a) == repr(b), lambda: f"{path}: {a!r} became {b!r}")


def check_dump(case, ctx):
    root = root_of(case)
    nodes = [n for x in (root if isinstance(root, list) else [root]) for n in ast.walk(x)]
    if len(nodes) > 1500:
        raise Reject("too large")
    for i in case["mark"]:
        if isinstance(root, list) and root:
            root[i % len(root)] = mcore.Done(root[i % len(root)])
        elif not isinstance(root, list) and nodes:
            n = nodes[i % len(nodes)]
            for k, v in list(ast.iter_fields(n)):
                if isinstance(v, ast.AST):
                    setattr(n, k, Mine(v))
                    break
    if case["strange"]:
        for n in nodes:
            if isinstance(n, ast.Constant):
                n.value = STRANGE[case["strange"]]
                break
    for i in case["unlocate"]:
        if i < len(nodes):
            for k in ("lineno", "end_lineno"):
                if k in vars(nodes[i]):
                    delattr(nodes[i], k)
    if case["drop"] and nodes:
        n = nodes[sum(case["mark"]) % len(nodes)]
        for k in list(vars(n)):
            if k in n._fields and k in ("type_ignores", "keywords", "type_comment", "decorator_list"):
                delattr(n, k)
    before = repr([ast.dump(x, include_attributes=True) for x in (root if isinstance(root, list) else [root])])
    ctx.nontrivial_case(len(nodes) >= 8)
    kw = {"include_attributes": case["attrs"], "multiline": case["multiline"], "color": case["color"]}
    if case["multiline"] and case["strange"] % 2:
        del kw["multiline"]     # the default
    text = astdumper.dump(root, **kw)
    require(repr([ast.dump(x, include_attributes=True) for x in (root if isinstance(root, list) else [root])]) == before, "dump changed the AST")
    if case["color"]:
        text2 = astdumper.dump(root, **dict(kw, color=False))
        require(plain(text) == text2, lambda: f"colored dump differs\n{diff(text2, plain(text))}")
        text = text2
    ns = {**vars(ast), "Ellipsis": ..., "Done": mcore.Done, "Mine": Mine, "inf": float("inf"), "infj": complex(0, float("inf"))}
    back = eval("(" + text + ")", ns)
    same(root, back, case["attrs"])
    single = astdumper.dump(root, include_attributes=case["attrs"], multiline=False)
    require("\n" not in single, "multiline=False gives several lines")
    multi = astdumper.dump(root, include_attributes=case["attrs"])
    require(re.sub(r",\n *", ", ", multi) == single, "the multiline dump differs from the single line one")


# ---------------------------------------------------------------- fallback

@st.composite
def fallbacks(draw):
    s = pygen.Src(draw)
    kind = s.choice(["object", "damaged", "damaged", "junk", "cycle", "list", "empty"])
    return {"kind": kind, "src": draw(pygen.module_source(budget=14, hi=2)), "damage": [[s.int(0, 40), s.int(0, 5), s.choice(["del", "none", "int", "str", "list", "obj", "listnone", "node", "cls", "value"])] for _ in range(s.int(1, 3))],
            "which": s.int(0, 11), "debug": s.chance(1, 2), "color": s.chance(1, 2)}


class BadRepr:
    def __repr__(self):
        raise ValueError("no repr")


class Foo(ast.AST):
    _fields = ("x",)


class FooStmt(ast.stmt):
    _fields = ("body",)


def check_fallback(case, ctx):
    ctx.nontrivial_case()
    tree = parse(case["src"])
    nodes = [n for n in ast.walk(tree) if n._fields]
    kind = case["kind"]
    if kind == "object":
        tree = [None, 1, "x", b"x", object(), BadRepr(), {}, (), int, 1.5, iter([]), Foo][case["which"]]
    elif kind == "junk":
        tree = [Foo(), Foo(x=1), FooStmt(body=tree.body), ast.Name(), ast.Expr(), ast.Set(elts=[]), ast.Raise(exc=None, cause=ast.Name(id="x")), ast.Constant(value=object()), ast.Constant(value=BadRepr()), ast.Name(id=None),
                mcore.Done(), ast.Load()][case["which"]]
    elif kind == "cycle":
        n = ast.Tuple(elts=[], ctx=ast.Load())
        n.elts.append(ast.List(elts=[n], ctx=ast.Load()))
        tree = n
    elif kind == "list":
        tree = [[], [None], [1, tree], [tree, [tree]], [BadRepr()], [Foo()], [[]], ["x"], [tree.body], [ast.Load()], [Foo], [tree, None]][case["which"]]
    elif kind == "empty":
        # what macros may well produce
        text = unparser.unparse(ast.Assign(targets=[ast.Name(id="x", ctx=ast.Store())], value=ast.Set(elts=[])), debug=case["debug"], color=case["color"])
        ns = {}
        exec(re.sub("L ---- ", "", plain(text)), ns)
        require(ns["x"] == set(), lambda: f"empty set shown as {text!r}")
        return
    else:
        for i, j, how in case["damage"]:
            n = nodes[i % len(nodes)]
            f = n._fields[j % len(n._fields)]
            if how == "del":
                if f in vars(n):
                    delattr(n, f)
            else:
                setattr(n, f, {"none": None, "int": 7, "str": "s", "list": [], "obj": object(), "listnone": [None], "node": ast.Load(), "cls": ast.Name, "value": ast.Constant(value=1)}[how])
    try:
        text = unparser.unparse_with_fallbacks(tree, debug=case["debug"], color=case["color"])
    except Exception as err:
        require(False, f"unparse_with_fallbacks raised {type(err).__name__}: {err}")
    require(type(text) is str, lambda: f"unparse_with_fallbacks returned {text!r}")
    try:
        t2 = unparser.unparse(tree, debug=case["debug"], color=case["color"])
    except Exception:
        ctx.event("fallback used")
        require(text.strip() != "", "nothing to show")
    else:
        require(t2 == text, "unparse_with_fallbacks differs from unparse")


# ---------------------------------------------------------------- colors

@st.composite
def colors(draw):
    s = pygen.Src(draw)
    pool = ["Fore.RED", "Fore.GREEN", "Style.BRIGHT", "Style.DIM", "Back.BLUE", "Style.RESET_ALL", "Style.ITALIC", "Style.URL"]

    def nest(d):
        if d and s.chance(1, 3):
            return [nest(d - 1) for _ in range(s.int(0, 3))]
        return s.choice(pool)
    return {"colors": [nest(2) for _ in range(s.int(0, 3))], "tuples": s.chance(1, 2), "reset": s.chance(1, 2), "text": s.choice(["", "abc", "two\nlines"]), "src": draw(pygen.module_source(budget=25, names=["mmm", "nnn", "x", "len"], strings=["", "a"], fstrings=False)),
            "bound": s.sublist(["mmm", "nnn", "len"])}


def check_colors(case, ctx):
    def make(c):
        if isinstance(c, list):
            xs = [make(x) for x in c]
            return tuple(xs) if case["tuples"] else xs
        a, b = c.split(".")
        return getattr(getattr(colorizer, a), b)

    def flat(c):
        return "".join(map(flat, c)) if isinstance(c, (list, tuple)) else c
    cs = [make(c) for c in case["colors"]]
    reset = colorizer.Style.RESET_ALL
    require(colorizer.setcolor(*cs, reset=case["reset"]) == (reset if case["reset"] else "") + flat(cs), "setcolor")
    require(colorizer.setcolor(*cs) == reset + flat(cs), "setcolor")
    require(colorizer.colorize(case["text"], *cs) == reset + flat(cs) + case["text"] + reset, "colorize")
    # names bound to macros
    tree = parse(case["src"])
    exp = expander.MacroExpander({m: a_macro for m in case["bound"]}, "<case>")
    P = unparser.unparse(tree)
    C = unparser.unparse(tree, color=True, expander=exp)
    require(plain(C) == P and unparser.unparse(tree, expander=exp) == P, "text with an expander differs")
    for m in ("mmm", "nnn"):
        n = [0]

        def walk(node):
            if isinstance(node, ast.Name) and node.id == m:
                n[0] += 1
            for f in node._fields:
                if f == "decorator_list":
                    continue
                v = getattr(node, f, None)
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.AST):
                        walk(x)
        walk(tree)
        k = C.count(colorizer.colorize(m, colorizer.ColorScheme.MACRONAME))
        require(k == (n[0] if m in case["bound"] else 0), lambda: f"{m} is highlighted as a macro name {k} times, expected {n[0] if m in case['bound'] else 0}")
    ctx.nontrivial_case(len(cs) >= 1 and count(tree) >= 8)


TESTS = [
    Test("render", renders(), check_render, quick=10000, thorough=80000),
    Test("markers", marks(), check_marks, quick=10000, thorough=80000),
    Test("dump", dumps(), check_dump, quick=8000, thorough=60000),
    Test("fallback", fallbacks(), check_fallback, quick=5000, thorough=50000),
    Test("colors", colors(), check_colors, quick=800, thorough=8000),
]
