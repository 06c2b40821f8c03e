"""Unparsing: the source text means the same as the AST."""

import ast
import functools
import os

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, Reject, Violation, require
from harness.sut import mcpyrate, diff, dump, norm

PROPERTY = "U01"
RULE = ("Cases: source text of (a) a generated module over all 3.12 statement, expression and pattern node types, (b) a generated "
        "expression, (c) f-string-heavy expressions, (d) match statements, (e) one top-level statement of a standard library file. "
        "Unparsed as a whole AST, as a statement list, and node by node; reparsed; compared structurally with the original. "
        "Non-trivial: the AST has at least 8 nodes.")
ASSUMPTIONS = ["ast.parse and ast.dump of CPython 3.12 are the reference for what source text means",
               "the AST came from the parser (no negative Constants, no empty Set), and nests less than the parser's limit of 200 parentheses"]

LIB = os.path.dirname(os.__file__)


@functools.lru_cache(maxsize=None)
def libfiles():
    out = []
    for root, dirs, files in os.walk(LIB):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "site-packages", "dist-packages"))
        out += [os.path.relpath(os.path.join(root, f), LIB) for f in sorted(files) if f.endswith(".py")]
    return sorted(out)


@functools.lru_cache(maxsize=64)
def libtree(rel):
    with open(os.path.join(LIB, rel), "rb") as f:
        data = f.read()
    try:
        return ast.parse(data)
    except (SyntaxError, ValueError):
        return None


def roundtrip(tree, parse, what):
    before = dump(tree)
    code = mcpyrate.unparse(tree)
    require(dump(tree) == before, lambda: f"unparse changed the AST it was given ({what})")
    try:
        back = parse(code)
    except (SyntaxError, ValueError) as err:
        raise Violation(f"unparsed {what} does not parse: {err}\n{code[:800]}")
    a, b = dump(norm(tree)), dump(norm(back))
    require(a == b, lambda: f"unparsed {what} parses to a different AST\n{diff(a, b)}\n{code[:800]}")
    return code


def parse_body(s):
    return ast.parse(s).body


def parse_stmt(s):
    body = ast.parse(s).body
    if len(body) != 1:
        raise SyntaxError(f"{len(body)} statements, expected one")
    return body[0]


def parse_eval(s):
    return ast.parse(s, mode="eval")


def parse_expr(s):
    return ast.parse(s, mode="eval").body


def count(tree):
    return sum(1 for _ in ast.walk(tree))


def check_module(src, ctx):
    tree = ast.parse(src)
    ctx.nontrivial_case(count(tree) >= 8)
    for n in ast.walk(tree):
        ctx.event(type(n).__name__)
    roundtrip(tree, ast.parse, "module")
    roundtrip(list(tree.body), parse_body, "statement list")
    for stmt in tree.body:
        roundtrip(stmt, parse_stmt, "statement")
    roundtrip(ast.Interactive(body=tree.body), lambda s: ast.Interactive(body=ast.parse(s).body), "interactive")


def check_expr(src, ctx):
    tree = ast.parse(src, mode="eval")
    ctx.nontrivial_case(count(tree) >= 8)
    for n in ast.walk(tree):
        ctx.event(type(n).__name__)
    roundtrip(tree, parse_eval, "ast.Expression")
    roundtrip(tree.body, parse_expr, "expression")
    # In every position an expression can be in, its text must not run into its surroundings.
    for template in ("_a.b[{}]", "_f({}, k={})", "[{} for _x in {} if {}]", "f'{{{}!r:>{{{}}}}}'", "(yield {})"):
        outer = ast.parse(template.replace("{}", "_HOLE").replace("{{", "{").replace("}}", "}"), mode="eval")
        if "f'" in template:
            outer = ast.parse("f'{_HOLE!r:>{_HOLE}}'", mode="eval")
            if any(isinstance(n, ast.JoinedStr) for n in ast.walk(tree)):
                continue
        class Fill(ast.NodeTransformer):
            def visit_Name(self, n):
                return tree.body if n.id == "_HOLE" else n
        outer = Fill().visit(outer)
        roundtrip(outer.body, parse_expr, "expression in context")


def check_lib(case, ctx):
    rel, k = case
    files = libfiles()
    tree = libtree(files[rel % len(files)])
    if tree is None or not tree.body:
        raise Reject("not parseable")
    stmt = tree.body[k % len(tree.body)]
    n = count(stmt)
    if n > 20000:
        raise Reject("too large")
    ctx.nontrivial_case(n >= 8)
    ctx.event("lib")
    roundtrip(stmt, parse_stmt, "statement")


def check_chain(case, ctx):
    """Long operator chains nest deeply in the AST, although they do not in the source."""
    op, n = case
    src = op.join(f"x{i}" for i in range(n)) if op != "." else "x" + "".join(f".a{i}" for i in range(n))
    if op == "()":
        src = "f" + "()" * n
    tree = ast.parse(src, mode="eval")
    ctx.nontrivial_case(n > 4)
    try:
        roundtrip(tree, parse_eval, "chain")
    except Violation as err:
        if "too many nested parentheses" in str(err) and n >= 190:
            ctx.known_finding("U01-deep-chain", str(err)[:300])
            return
        raise


@st.composite
def fstring_src(draw):
    g = pygen.PyGen(pygen.Src(draw), budget=14)
    src = pygen.render(ast.Expression(body=ast.Tuple(elts=g.many(lambda: g.fstring(3), 1, 2), ctx=ast.Load())))
    return src if src is not None else "f'a'"


# f-string source text, directly (CPython's unparser does not produce all of the notation)
_LIT = st.sampled_from(["a", "{{", "}}", "\\n", "\\\\", "'", "\\t", "é", " ", "%", "\\x00", "\\x7b", "#", "!", ":", "N"])
_EXPR = st.sampled_from(["x", " {1: 2}[1]", " {1, 2}", "x if y else z", "(lambda: 1)", "'s'", "x!r", "x!s", "x!a", "x=", "x = !r", "f'{y}'", "(y := 1)",
                         "a != b", "a[1:2]", "{'k': 1}['k']", "x.real", "-x", "not x", "*a, b", "yield", "await z"])
_SPEC = st.sampled_from(["", ":", ":>10", ":{w}", ":{w}.{p}f", ":\\x7b", ":{w!r:}", ":\\n", ":'^{w}"])


@st.composite
def fstring_text(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            out.append(draw(_LIT))
        else:
            e = draw(_EXPR)
            out.append("{" + (" " if e.startswith("{") else "") + e + draw(_SPEC) + "}")
    return 'f"""' + "".join(out) + '"""'


def check_fstring_text(src, ctx):
    try:
        ast.parse(src, mode="eval")
    except SyntaxError:
        raise Reject("not valid")
    check_expr(src, ctx)


@st.composite
def match_src(draw):
    g = pygen.PyGen(pygen.Src(draw), budget=14)
    src = pygen.render(ast.Module(body=[g.match_(1)], type_ignores=[]))
    return src if src is not None else "match x:\n    case _:\n        pass"


# Pattern source text, directly, with arbitrary (redundant) grouping
@st.composite
def pattern_text(draw):
    names = iter(f"v{i}" for i in range(100))
    def pat(d, bind=True, refutable=False):
        k = draw(st.integers(0, 13 if d > 0 else 6))
        if k == 0:
            return draw(st.sampled_from(["1", "-1", "-1.5", "2j", "-2j", "1+2j", "-1-2j", "-1.5+0j"]))
        if k == 1:
            return draw(st.sampled_from(["'a'", "b'x'", "'it\\'s'", "'a' 'b'"]))
        if k == 2:
            return draw(st.sampled_from(["None", "True", "False"]))
        if k == 3:
            return draw(st.sampled_from(["a.b", "a.b.c"]))
        if k == 4:
            return next(names) if bind and not refutable else "0"
        if k == 5:
            return "_" if not refutable else "0"
        if k == 6:
            return "[]"
        if k == 7:
            return "(" + pat(d - 1, bind, refutable) + ")"
        if k == 8:
            items = [pat(d - 1, bind) for _ in range(draw(st.integers(1, 3)))]
            if draw(st.booleans()):
                items.insert(draw(st.integers(0, len(items))), "*_" if not bind else "*" + next(names))
            return "(" + ", ".join(items) + ",)" if draw(st.booleans()) else "[" + ", ".join(items) + "]"
        if k == 9:
            keys = draw(st.lists(st.sampled_from(["1", "-2", "'k'", "a.b", "1+2j", "None", "b'z'"]), max_size=3, unique=True))
            items = [f"{key}: {pat(d - 1, bind)}" for key in keys]
            if bind and draw(st.booleans()):
                items.append("**" + next(names))
            return "{" + ", ".join(items) + "}"
        if k == 10:
            items = [pat(d - 1, bind) for _ in range(draw(st.integers(0, 2)))]
            items += [f"{key}={pat(d - 1, bind)}" for key in ["u", "v"][:draw(st.integers(0, 2))]]
            return draw(st.sampled_from(["C", "a.C"])) + "(" + ", ".join(items) + ")"
        if k == 11 and bind:
            return "(" + pat(d - 1, bind, True) + " as " + next(names) + ")"
        return "(" + " | ".join(pat(d - 1, False, True) for _ in range(draw(st.integers(2, 3)))) + ")"
    top = pat(3)
    guard = draw(st.sampled_from(["", " if x", " if (y := 2)"]))
    return f"match x:\n    case {top}{guard}:\n        pass"


def check_pattern_text(src, ctx):
    try:
        ast.parse(src)
    except SyntaxError:
        raise Reject("not valid")
    check_module(src, ctx)


TESTS = [
    Test("chain", st.tuples(st.sampled_from(["+", " and ", ".", "()", " < ", " if y else ", "**"]), st.integers(2, 60)), check_chain, quick=80, thorough=300,
         fixed=[["+", 250], ["+", 120]]),
    Test("module", pygen.module_source(), check_module, quick=7000, thorough=160000),
    Test("expr", pygen.expr_source(budget=25), check_expr, quick=7000, thorough=160000),
    Test("fstring", fstring_src(), check_expr, quick=2500, thorough=50000),
    Test("fstring_text", fstring_text(), check_fstring_text, quick=5000, thorough=80000),
    Test("match", match_src(), check_module, quick=2500, thorough=50000),
    Test("pattern_text", pattern_text(), check_pattern_text, quick=5000, thorough=80000),
    Test("lib", st.tuples(st.integers(0, 1000), st.integers(0, 400)), check_lib, quick=2500, thorough=40000),
]
