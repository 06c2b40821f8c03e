"""Expression contexts are fixed to what the parser would give."""

import ast
import random

from hypothesis import strategies as st

from harness import corpus, pygen
from harness.core import Test, require
from harness.sut import astfixers, diff

PROPERTY = "F01"
RULE = ("Cases: generated modules, statements, expressions and statements of the standard library, parsed; contexts are removed or replaced at random ('scrambled'), or structurally equal subtrees "
        "are replaced by one shared node ('shared', with copy_seen_nodes). After fix_ctx the dump must equal that of the fresh parse. Non-trivial: at least one context was changed and the code "
        "has a Store or Del context.")
ASSUMPTIONS = ["CPython's ast.parse gives the reference contexts"]


def parsed(case):
    if "lib" in case:
        return corpus.statement(case["lib"])
    tree = ast.parse(case["src"])
    return tree


def scramble(tree, rng, rate):
    n = 0
    for node in ast.walk(tree):
        if "ctx" in node._fields and rng.random() < rate:
            k = rng.randrange(4)
            new = [ast.Load, ast.Store, ast.Del, None][k]
            if new is None:
                if hasattr(node, "ctx"):
                    del node.ctx
                n += 1
            else:
                n += type(node.ctx) is not new
                node.ctx = new()
    return n


class Share(ast.NodeTransformer):
    """Replace structurally equal (ignoring contexts) nodes by the same node object."""
    def __init__(self, rng, rate):
        self.rng, self.rate, self.table, self.n = rng, rate, {}, 0

    def generic_visit(self, node):
        super().generic_visit(node)
        if not isinstance(node, (ast.expr, ast.stmt, ast.withitem, ast.comprehension, ast.keyword)):
            return node
        key = key_of(node)
        if key in self.table and self.rng.random() < self.rate:
            self.n += 1
            return self.table[key]
        self.table.setdefault(key, node)
        return node


def key_of(node):
    import re
    return re.sub(r"ctx=\w+\(\)", "", ast.dump(node))


def parts(tree, how):
    """The thing to give to fix_ctx, and how to dump it."""
    if how == "list" and isinstance(tree, ast.Module):
        return list(tree.body)
    if how == "expr":
        for n in ast.walk(tree):
            if isinstance(n, ast.expr) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and not isinstance(n, (ast.Slice, ast.Starred)):
                return n
    return tree


def full(x, attrs):
    if isinstance(x, list):
        return [full(y, attrs) for y in x]
    return ast.dump(x, include_attributes=attrs)


@st.composite
def cases(draw, share=False):
    k = draw(st.integers(0, 9))
    case = {"seed": draw(st.integers(0, 9999)), "rate": draw(st.sampled_from([0.1, 0.5, 1.0])), "how": draw(st.sampled_from(["module", "module", "list", "expr"]))}
    if k == 0:
        case["lib"] = draw(corpus.statements())
    elif share:
        case["src"] = draw(pygen.module_source(budget=30, names=["a", "b"], strings=["", "s"], simple_consts=True))
    else:
        case["src"] = draw(pygen.module_source(budget=40))
    return case


def check_scrambled(case, ctx):
    rng = random.Random(case["seed"])
    want = parts(parsed(case), case["how"])
    tree = parts(parsed(case), case["how"])
    box = ast.Module(body=tree if isinstance(tree, list) else [tree], type_ignores=[])
    stores = sum(isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)) for n in ast.walk(box))
    n = scramble(box, rng, case["rate"])
    ctx.nontrivial_case(n > 0 and stores > 0)
    ctx.event("contexts changed", n)
    nodes = [id(x) for x in ast.walk(box) if "ctx" in x._fields]
    for copying in (False, True):
        out = astfixers.fix_ctx(tree, copy_seen_nodes=copying)
        a, b = full(want, True), full(out, True)
        require(a == b, lambda: f"fix_ctx(copy_seen_nodes={copying})\n{diff(str(a), str(b))}")
        require(out is tree, "fix_ctx returned something else than its input")
        after = [id(x) for x in ast.walk(box) if "ctx" in x._fields]
        require(after == nodes, f"fix_ctx(copy_seen_nodes={copying}) replaced nodes that appear only once")
        scramble(box, rng, case["rate"])


def check_shared(case, ctx):
    rng = random.Random(case["seed"])
    want = parts(parsed(case), case["how"])
    tree = parts(parsed(case), case["how"])
    box = ast.Module(body=tree if isinstance(tree, list) else [tree], type_ignores=[])
    share = Share(rng, case["rate"])
    share.visit(box)
    if not isinstance(tree, list):
        tree = box.body[0]
    else:
        tree = box.body
    ctx.nontrivial_case(share.n > 0)
    ctx.event("shared nodes", share.n)
    out = astfixers.fix_ctx(tree, copy_seen_nodes=True)
    a, b = full(want, False), full(out, False)
    require(a == b, lambda: f"fix_ctx(copy_seen_nodes=True) with shared nodes\n{diff(str(a), str(b))}")


TESTS = [
    Test("scrambled", cases(), check_scrambled, quick=8000, thorough=150000),
    Test("shared", cases(share=True), check_shared, quick=8000, thorough=150000),
]
