"""Quasiquoting and unastifying reproduce the quoted code."""

import ast
import copy

from hypothesis import strategies as st

from harness import mac, pygen
from harness.core import Test, Reject, require
from harness.sut import diff, dump, quotes

PROPERTY = "Q01"
RULE = ("Cases: generated expression or statement-suite source with no unquotes over all node types, quoted (block or expr `q`, under a random alias, at a "
        "quote depth of 1 to 3) in real macro-enabled code that is expanded, compiled and run; results compared structurally with ast.parse. "
        "Non-trivial: at least 8 AST nodes in the quoted code.")
ASSUMPTIONS = ["ast.parse of CPython 3.12 defines the quoted code's AST",
               "the quoted code does not use the names of the quasiquote operators other than as a nested quote"]


def count(tree):
    return sum(1 for t in (tree if isinstance(tree, list) else [tree]) for _ in ast.walk(t))


def nodes(tree):
    return [n for t in (tree if isinstance(tree, list) else [tree]) for n in ast.walk(t)]


def same(expected, got, what):
    e, g = dump(expected), dump(got)
    require(e == g, lambda: f"{what}\n{diff(e, g)}")


def no_shared(a, b, what):
    ids = {id(n) for n in nodes(a) if n._fields}
    require(not any(id(n) in ids for n in nodes(b)), what)


def indent(src, by="    "):
    return "\n".join(by + line for line in src.split("\n"))


def check_expr(case, ctx):
    src, depth, alias = case
    expected = ast.parse(src, mode="eval").body
    Q = "Q" if alias else "q"
    bindings = mac.qbindings({"q": Q})
    ctx.nontrivial_case(count(expected) >= 8)
    ctx.event(f"expr depth {depth}")
    for n in ast.walk(expected):
        ctx.event(type(n).__name__)
    text = f"({src})" if not src.startswith("*") else src
    quoted = text
    for _ in range(depth):
        quoted = f"{Q}[{quoted}]"
    # `q` at the outermost; each run takes off one level
    expanded = mac.expand_src(f"def quote():\n    return {quoted}\nR1 = quote()\nR2 = quote()\n", bindings)
    ns = mac.execute(expanded)
    tree = ns["R1"]
    for level in range(depth - 1, 0, -1):
        want = src_at(text, Q, level)
        same(want, tree, f"quote of depth {depth}, after {depth - level} evaluations")
        module = ast.parse("R = 0")
        module.body[0].value = tree
        ast.fix_missing_locations(module)
        ns = mac.execute(mac.expand(module, bindings))
        tree = ns["R"]
    same(expected, tree, f"quoted expression, depth {depth}")
    if depth == 1:
        no_shared(ns["R1"], ns["R2"], "two evaluations of the quote share AST nodes")
        same(expected, ns["R2"], "second evaluation")
        require(not any(mac.has_location(n) for n in nodes(tree)), "quoted AST has source locations of the quoting site")


def src_at(text, Q, level):
    for _ in range(level):
        text = f"{Q}[{text}]"
    return ast.parse(text, mode="eval").body


def check_block(case, ctx):
    src, alias = case
    expected = ast.parse(src).body
    if not expected:
        raise Reject("empty")
    Q = "Q" if alias else "q"
    bindings = mac.qbindings({"q": Q})
    ctx.nontrivial_case(count(expected) >= 8)
    for n in nodes(expected):
        ctx.event(type(n).__name__)
    module = ast.parse(f"def quote():\n    with {Q} as quoted:\n        pass\n    return quoted\nR1 = quote()\nR2 = quote()\n")
    module.body[0].body[0].body = copy.deepcopy(expected)
    ns = mac.execute(mac.expand(module, bindings))
    require(isinstance(ns["R1"], list), f"block quote gave {type(ns['R1'])}, expected a list of statements")
    same(expected, ns["R1"], "quoted block")
    same(expected, ns["R2"], "quoted block, second evaluation")
    require(not any(mac.has_location(n) for n in nodes(ns["R1"])), "quoted AST has source locations of the quoting site")
    ids = {id(n) for n in nodes(ns["R1"]) if n._fields}
    require(not any(id(n) in ids for n in nodes(ns["R2"])), "two evaluations of the quote share AST nodes")


def check_nested_block(case, ctx):
    """A block quote inside a block quote: one level per evaluation."""
    src, inner_is_expr = case
    stmts = ast.parse(src).body
    if not stmts:
        raise Reject("empty")
    ctx.nontrivial_case(count(stmts) >= 8)
    bindings = mac.qbindings()
    inner = ast.parse("before\nwith q as inner:\n    pass\nafter").body
    inner[1].body = copy.deepcopy(stmts)
    if inner_is_expr:
        inner[0] = ast.parse("xs = [q[y + 1], q[q[z]]]").body[0]
    module = ast.parse("with q as outer:\n    pass\n")
    module.body[0].body = copy.deepcopy(inner)
    ns = mac.execute(mac.expand(ast.fix_missing_locations(module), bindings))
    same(inner, mac.strip_coverage(ns["outer"]), "outer quote of a nested block quote")
    module = ast.Module(body=[s for s in ns["outer"] if isinstance(s, (ast.With, ast.Assign))], type_ignores=[])
    ns = mac.execute(mac.expand(ast.fix_missing_locations(module), bindings))
    same(stmts, ns["inner"], "inner quote of a nested block quote")
    if inner_is_expr:
        same(ast.parse("y + 1", mode="eval").body, ns["xs"][0], "inner expr quote")
        same(ast.parse("q[z]", mode="eval").body, ns["xs"][1], "inner nested expr quote")


def check_astify(src, ctx):
    """The functions underneath: `unastify` inverts `astify` and `q`; running an astified AST gives the AST."""
    body = ast.parse(src).body
    ctx.nontrivial_case(count(body) >= 8)
    astified = quotes.astify(copy.deepcopy(body))
    same(body, quotes.unastify(astified), "unastify(astify(stmts))")
    ns = mac.execute(mac.expand(ast.fix_missing_locations(ast.Module(body=[ast.Assign(targets=[ast.Name(id="R", ctx=ast.Store())], value=astified)],
                                                                     type_ignores=[])), {}))
    same(body, ns["R"], "running the astified statement suite")
    for stmt in body:
        same(stmt, quotes.unastify(quotes.astify(stmt)), "unastify(astify(stmt))")
    # the output of the macro `q`
    module = ast.parse("with q as quoted:\n    pass\n")
    module.body[0].body = copy.deepcopy(body)
    expanded = mac.expand(module, mac.qbindings())
    assign = [s for s in expanded.body if isinstance(s, ast.Assign) and s.targets[0].id == "quoted"]
    require(len(assign) == 1, "block q should expand into one assignment")
    same(body, quotes.unastify(assign[0].value), "unastify of expanded block q")


def equal_values(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal_values(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(equal_values(k1, k2) and equal_values(v1, v2) for (k1, v1), (k2, v2) in zip(a.items(), b.items()))
    if isinstance(a, set):
        return a == b
    return repr(a) == repr(b)


leaf_values = st.one_of(st.integers(), st.booleans(), st.none(), st.floats(allow_nan=True), st.complex_numbers(allow_nan=False),
                        st.text(max_size=8), st.binary(max_size=6), st.just(...))
hashable = st.one_of(st.integers(), st.booleans(), st.none(), st.text(max_size=4), st.binary(max_size=4))
values = st.recursive(leaf_values, lambda c: st.one_of(st.lists(c, max_size=4), st.lists(c, max_size=4).map(tuple),
                                                       st.dictionaries(hashable, c, max_size=3), st.sets(hashable, max_size=3)), max_leaves=12)


def check_value(text, ctx):
    """`astify` of a plain value evaluates to an equal value, and `unastify` takes it back."""
    value = eval(text, {"inf": float("inf"), "nan": float("nan"), "infj": complex(0, float("inf")), "nanj": complex(0, float("nan"))})
    ctx.nontrivial_case(isinstance(value, (list, tuple, dict, set)) and len(value) > 0)
    tree = quotes.astify(value)
    module = ast.fix_missing_locations(ast.Module(body=[ast.Assign(targets=[ast.Name(id="R", ctx=ast.Store())], value=tree)], type_ignores=[]))
    ns = mac.execute(mac.expand(module, {}))
    require(equal_values(value, ns["R"]), lambda: f"astify({text}) evaluates to {ns['R']!r}")
    back = quotes.unastify(tree)
    require(equal_values(value, back), lambda: f"unastify(astify({text})) is {back!r}")


NAMES = mac.SAFE
expr_src = pygen.expr_source(budget=25, names=NAMES)
stmts_src = pygen.module_source(names=NAMES, hi=3)

TESTS = [
    Test("expr", st.tuples(expr_src, st.sampled_from([1, 1, 2, 3]), st.booleans()), check_expr, quick=5000, thorough=100000),
    Test("block", st.tuples(stmts_src, st.booleans()), check_block, quick=4000, thorough=80000),
    Test("nested_block", st.tuples(stmts_src, st.booleans()), check_nested_block, quick=1500, thorough=30000),
    Test("astify", stmts_src, check_astify, quick=2000, thorough=40000),
    Test("value", values.map(repr), check_value, quick=3000, thorough=50000, fixed=["1j", "[1j, (2+3j)]"]),
]
