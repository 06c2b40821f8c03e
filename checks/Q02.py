"""Unquotes put exactly the right thing in exactly the right place."""

import ast

from hypothesis import strategies as st

from harness import mac, pygen, ref
from harness.core import Test, Reject, Violation, require
from harness.sut import astfixers, diff, dump, quotes

PROPERTY = "Q02"
RULE = ("Cases: a generated quoted template (expression or suite, any node types) with unquotes u, n, a, s, t, block `a`, list-valued `a`, and nested quotes at "
        "depths up to 3, plus the operands' values; expanded, compiled and run for real, then compared with substitution of the operands into the parsed template. "
        "Non-trivial: at least one operand was substituted.")
ASSUMPTIONS = ["the quoted code does not use the names of the quasiquote operators other than as the operators",
               "list-valued `a` is used only in list positions of the AST (call arguments, elements, bases)"]
OPS = ("u", "n", "a", "s", "t")

VALUES = ["0", "-3", "1.5", "1j", "'it\\'s'", "b'x'", "None", "True", "...", "[]", "()", "{}", "[1, (2, 'k'), {'a': [None]}]", "{1: 2, 'b': (3,)}", "{7}", "(4,)"]
LOADS = ["x", "x.y", "x[0]", "f(x, *y)", "1", "(x, y)", "[x, *y]", "x + 1", "lambda: x", "[z for z in y if z]", "'s'", "f'{x}!'", "(w := 3)"]
TARGETS = ["x", "x.y", "x[0]", "x.y[1].z", "f(x).y"]
STMTS = ["pass", "x = 1", "f(x)", "if x:\n    y = 2\nelse:\n    del y", "def g(p, *q, r=1):\n    return p", "for i in x: i", "x: int = 3", "global x"]


class Gen(pygen.PyGen):
    """PyGen with unquotes. `self.level` is the quote level; operands are collected in `self.ops`."""
    def __init__(self, src, **kw):
        super().__init__(src, **kw)
        self.level = 1
        self.ops = []
        self.extra_expr = [Gen.unquote, Gen.unquote, Gen.nested]
        self.extra_stmt = [Gen.block_a, Gen.block_q]

    def operand(self, kind):
        s = self.s
        if kind == "u":
            spec = s.choice(VALUES)
        elif kind in ("n", "a"):
            spec = s.choice(LOADS)
        elif kind in ("n_t", "a_t"):
            spec = s.choice(TARGETS)
        elif kind in ("s", "t", "a_list"):
            spec = [s.choice(["list", "tuple", "gen"] if kind != "a_list" else ["list", "tuple"]), self.nested_list(LOADS)]
        elif kind == "a_stmt":
            spec = s.choice([None, "list"])
            spec = self.nested_list(STMTS) if spec else s.choice(STMTS)
        self.ops.append([kind, spec])
        return ast.Call(func=ast.Name(id="_p", ctx=ast.Load()), args=[ast.Constant(value=len(self.ops) - 1)], keywords=[])

    def nested_list(self, pool):
        s = self.s
        out = [s.choice(pool) for _ in range(s.int(0, 3))]
        if s.chance(1, 4):
            out.insert(s.int(0, len(out)), [s.choice(pool) for _ in range(s.int(0, 2))])
        return out

    def sub(self, op, inner, ctx=None):
        return ast.Subscript(value=ast.Name(id=op, ctx=ast.Load()), slice=inner, ctx=ctx or ast.Load())

    def unquote(self, d):
        op = self.s.choice(OPS)
        if self.level > 1:
            self.level -= 1
            try:
                return self.sub(op, self.expr(d - 1))
            finally:
                self.level += 1
        return self.sub(op, self.operand(op))

    def nested(self, d):
        if self.level >= 3:
            return self.leaf()
        self.level += 1
        try:
            return self.sub("q", self.expr(d - 1))
        finally:
            self.level -= 1

    def block_a(self, d):
        items = []
        for _ in range(self.s.int(1, 2)):
            if self.level > 1:
                self.level -= 1
                try:
                    items.append(ast.Expr(value=self.expr(2)))
                finally:
                    self.level += 1
            else:
                items.append(ast.Expr(value=self.operand("a_stmt")))
        return ast.With(items=[ast.withitem(context_expr=ast.Name(id="a", ctx=ast.Load()), optional_vars=None)], body=items)

    def block_q(self, d):
        if self.level >= 3:
            return ast.Pass()
        self.level += 1
        try:
            body = self.body(d - 1)
        finally:
            self.level -= 1
        return ast.With(items=[ast.withitem(context_expr=ast.Name(id="q", ctx=ast.Load()), optional_vars=ast.Name(id="inner", ctx=ast.Store()))], body=body)

    def maybe_starred(self, d):
        if self.level == 1 and self.s.chance(1, 8):
            return self.sub("a", self.operand("a_list"))
        return super().maybe_starred(d)

    def target(self, d=2, simple=False, star=False):
        if not simple and self.level == 1 and self.s.chance(1, 5):
            op = self.s.choice(["n", "a"])
            return self.sub(op, self.operand(op + "_t"), ast.Store())
        return super().target(d, simple, star)

    def fexpr(self, d):
        return self.expr(min(d, 2))


@st.composite
def template(draw, block):
    g = Gen(pygen.Src(draw), budget=16, names=mac.SAFE)
    if block:
        body = g.many(lambda: g.stmt(2), 1, 3)
        src = pygen.render(ast.Module(body=body, type_ignores=[]))
    else:
        src = pygen.render(ast.Expression(body=g.expr(4)))
    if src is None:
        return ["x", []]
    return [src, g.ops]


def build(spec_list, mode):
    out = []
    for x in spec_list:
        out.append(build(x, mode) if isinstance(x, list) else parse(x, mode))
    return out


def parse(src, mode):
    if mode == "eval":
        return ast.parse(src, mode="eval").body
    return ast.parse(src).body[0]


def make_operand(kind, spec):
    """-> (run-time value for the unquote operator, expected AST or list of ASTs)"""
    if kind == "u":
        v = eval(spec)
        return v, ref.lift(v)
    if kind in ("n", "n_t"):
        return spec, parse(spec, "eval")
    if kind in ("a", "a_t"):
        return parse(spec, "eval"), parse(spec, "eval")
    if kind in ("s", "t", "a_list"):
        container, items = spec
        nodes = build(items, "eval")
        value = {"list": list, "tuple": tuple, "gen": iter}[container](nodes)
        expected = ref.flatten(build(items, "eval"))
        if kind == "s":
            expected = ast.List(elts=expected, ctx=ast.Load())
        elif kind == "t":
            expected = ast.Tuple(elts=expected, ctx=ast.Load())
        return value, expected
    if isinstance(spec, list):
        return build(spec, "exec"), ref.flatten(build(spec, "exec"))
    return parse(spec, "exec"), [parse(spec, "exec")]


class Subst:
    """Reference: substitute operands into the parsed template."""
    def __init__(self, expected):
        self.expected = expected
        self.used = []

    def op_of(self, node):
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and node.value.id in OPS + ("q",):
            return node.value.id, "slice"
        if isinstance(node, ast.With) and len(node.items) == 1 and isinstance(node.items[0].context_expr, ast.Name) \
                and node.items[0].context_expr.id in ("a", "q"):
            return node.items[0].context_expr.id, "body"
        return None, None

    def operand(self, call):
        k = call.args[0].value
        self.used.append(k)
        return self.expected[k]

    def walk(self, node, level):
        """-> node, or list of nodes to splice"""
        if isinstance(node, list):
            out = []
            for x in node:
                y = self.walk(x, level)
                if isinstance(y, list):
                    out += y
                else:
                    out.append(y)
            return out
        if not isinstance(node, ast.AST):
            return node
        op, field = self.op_of(node)
        if op is not None:
            newlevel = level + 1 if op == "q" else level - 1
            if newlevel == 0:
                if field == "slice":
                    return self.operand(node.slice)
                out = []
                for e in node.body:
                    out += self.operand(e.value)
                return out
            setattr(node, field, self.walk(getattr(node, field), newlevel))
            return node
        for name, value in ast.iter_fields(node):
            setattr(node, name, self.walk(value, level))
        return node


def empty_arguments(node):
    """Whether an operator is used in block or decorator position, as `u[()]`, or as `u[()][x]`: that is a macro use without arguments."""
    uses = [node.value] if isinstance(node, ast.Subscript) else [i.context_expr for i in node.items] if isinstance(node, ast.With) else getattr(node, "decorator_list", [])
    return any(isinstance(u, ast.Subscript) and isinstance(u.value, ast.Name) and u.value.id in OPS + ("q",)
               and isinstance(u.slice, ast.Tuple) and not u.slice.elts for u in uses)


def check(case, ctx, block):
    src, ops = case
    operands = [make_operand(k, s) for k, s in ops]
    counts = [0] * len(ops)
    def _p(k):
        counts[k] += 1
        return operands[k][0]
    tree = ast.parse(src).body if block else ast.parse(src, mode="eval").body
    if block:
        module = ast.parse("with q as R:\n    pass")
        module.body[0].body = tree
    else:
        module = ast.parse("R = q[0]")
        module.body[0].value.slice = tree
    if any(map(empty_arguments, ast.walk(module))):
        raise Reject("`with u[()]` is `with u`, which is an error")
    sub = Subst([e for _, e in operands])
    reference = sub.walk(ast.parse(src).body if block else ast.parse(src, mode="eval").body, 1)
    if not block and isinstance(reference, list):
        raise Reject("list-valued `a` at the top level of an expression")
    # A splice may leave a place empty that cannot be; the quoted AST just is so.
    expected_counts = [sub.used.count(k) for k in range(len(ops))]
    ctx.nontrivial_case(any(expected_counts))
    for k, c in enumerate(expected_counts):
        if c:
            ctx.event("operand " + ops[k][0])
    expanded = mac.expand(ast.fix_missing_locations(module), mac.qbindings())
    ns = mac.execute(expanded, {"_p": _p})
    got = mac.strip_coverage(ns["R"])
    require(counts == expected_counts, lambda: f"operands evaluated {counts} times, expected {expected_counts}")
    e, g = mac.dump_noctx(reference), mac.dump_noctx(got)
    require(e == g, lambda: f"quoted code is not the template with the operands substituted\n{diff(e, g)}")
    # After local postprocessing, the contexts are right too.
    got = astfixers.fix_ctx(got, copy_seen_nodes=True)
    want = ref.set_ctx(ref.unshare(reference))
    e, g = dump(want), dump(got)
    require(e == g, lambda: f"expression contexts of the quoted code\n{diff(e, g)}")


def check_expr(case, ctx):
    check(case, ctx, False)


def check_block(case, ctx):
    check(case, ctx, True)


# ---- wrong operands are errors

BAD = {"n[_v]": ["1", "None", "b'x'", "[]", "ast.Name('x')", "'x +'", "'x = 1'", "''"],
       "a[_v]": ["1", "None", "3.5", "ast.Pass()", "ast.Assign([], ast.Name('x'))", "ast.Module([], [])"],
       "f(a[_v])": ["[1]", "[ast.Pass()]", "[None, 'x']", "[ast.Name('x'), 2]"],
       "x + a[_v]": ["[ast.Name('y')]", "[ast.Name('y'), ast.Name('z')]", "()"],
       "s[_v]": ["1", "None", "[1]", "[ast.Pass()]", "ast.Name('x')", "['x']"],
       "t[_v]": ["1", "None", "[1]", "[ast.Pass()]", "ast.Name('x')", "[ast.Name('x'), 'x']"],
       "u[_v]": ["object()", "ast", "len", "frozenset()", "[object()]", "{1: object()}", "range(3)", "type('B', (int,), {})(3)"]}
BADBLOCK = ["1", "ast.Name('x')", "[ast.Name('x')]", "[ast.Pass(), 1]", "[[ast.Pass()], [ast.Name('x')]]", "'pass'"]
bad_cases = st.one_of(*[st.tuples(st.just(k), st.sampled_from(v)) for k, v in BAD.items()],
                      st.tuples(st.just("block"), st.sampled_from(BADBLOCK)))


def check_bad(case, ctx):
    where, text = case
    value = eval(text, {"ast": ast})
    ctx.nontrivial_case(True)
    if where == "block":
        src = "with q as R:\n    x = 1\n    with a:\n        _v\n"
    else:
        src = f"R = q[[x, {where}]]"
        if where == "x + a[_v]":
            src = f"R = q[{where}]"
    expanded = mac.expand_src(src, mac.qbindings())
    try:
        ns = mac.execute(expanded, {"_v": value})
    except (TypeError, SyntaxError, RuntimeError, ValueError):
        return
    raise Violation(f"operand {text} accepted in {where}: got {dump(ns['R'])}")


# unquotes outside of quotes are errors
MISPLACED = ["u[x]", "n['x']", "a[x]", "s[x]", "t[x]", "h[x]", "q[u[u[x]]]", "q[a[n['x']]]", "q[q[u[u[u[x]]]]]", "q[h[h[x]]]", "q[u[x]] + a[y]", "lambda: s[x]",
             "with a:\n    x", "with q as z:\n    with a:\n        with a:\n            x", "with q:\n    x", "with q as (y, z):\n    x", "with u:\n    x", "with h:\n    x",
             "with q as z:\n    with a as w:\n        x", "with q as z:\n    with a:\n        x = 1", "@q\ndef f(): pass", "@u\ndef f(): pass", "@a\nclass C: pass"]


def check_misplaced(case, ctx):
    src, wrap = case
    ctx.nontrivial_case(True)
    if wrap == "if":
        src = "if x:\n" + "\n".join("    " + line for line in src.split("\n"))
    elif wrap == "def":
        src = "y = q[u[1]]\ndef ff():\n" + "\n".join("    " + line for line in src.split("\n"))
    try:
        tree = mac.expand_src(src, mac.qbindings())
    except Exception as err:
        seen = err
        kinds = set()
        while seen is not None:
            kinds.add(type(seen).__name__)
            seen = seen.__cause__ or seen.__context__
        require("SyntaxError" in kinds, f"misplaced operator reported as {sorted(kinds)}")
    else:
        raise Violation(f"misplaced operator accepted; expands to\n{ast.unparse(ast.fix_missing_locations(tree))}")
    # and it leaves no state behind: the quote level is back where it was
    ns = mac.run_src("R = q[x + u[1]]", mac.qbindings())
    require(dump(ns["R"]) == dump(ast.parse("x + 1", mode="eval").body), "quasiquotes broken after an error")
    try:
        mac.expand_src("u[x]", mac.qbindings())
    except Exception:
        pass
    else:
        raise Violation("quote level wrong after an error: a bare u[x] is accepted")


TESTS = [
    Test("expr", template(False), check_expr, quick=6000, thorough=120000),
    Test("block", template(True), check_block, quick=5000, thorough=90000),
    Test("bad", bad_cases, check_bad, quick=300, thorough=600),
    Test("misplaced", st.tuples(st.sampled_from(MISPLACED), st.sampled_from(["", "if", "def"])), check_misplaced, quick=300, thorough=600),
]
