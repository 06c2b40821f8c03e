"""AST markers can be found, removed and checked completely."""

import ast
import random

from hypothesis import strategies as st

from harness import corpus, pygen
from harness.core import Test, require
from harness.sut import core as mcore, diff, dump, markers

PROPERTY = "K01"
RULE = ("Cases: generated code; random nodes in any field (expressions, statements, with-items, patterns, arguments, ...), runs of statements, the root, and other markers are wrapped in markers "
        "of four related and unrelated classes, some with extra fields. For each class: get_markers gives exactly the planted instances, check_no_markers_remaining raises iff there are some, "
        "delete_markers gives the tree that was planted without that class. Non-trivial: at least three markers.")
ASSUMPTIONS = []


class A(markers.ASTMarker):
    pass


class B(A):
    pass


class C(markers.ASTMarker):
    def __init__(self, body=None, note=None):
        super().__init__(body)
        self.note = note
        self._fields += ["note"]


CLASSES = {"A": A, "B": B, "C": C, "D": mcore.Done}
QUERY = {"ASTMarker": markers.ASTMarker, "A": A, "B": B, "C": C, "D": mcore.Done, "MacroExpanderMarker": mcore.MacroExpanderMarker}
WRAPPABLE = (ast.expr, ast.stmt, ast.withitem, ast.pattern, ast.arg, ast.keyword, ast.alias, ast.comprehension, ast.excepthandler, ast.match_case)


def make(kind, body):
    return C(body, ast.Name(id="note", ctx=ast.Load())) if kind == "C" else CLASSES[kind](body)


def plant(tree, seed, rate, skip=()):
    """Wrap nodes at random, the same way for the same seed. Markers of kinds in `skip` are left out. Returns (tree, markers in visiting order)."""
    rng = random.Random(seed)

    def wrap(x, depth=0):
        if rng.random() < rate:
            kind = rng.choice("ABCD")
            inner = wrap(x, depth + 1) if depth < 3 else x
            return inner if kind in skip else make(kind, inner)
        return x

    def walk(x):
        if isinstance(x, list):
            out = [walk(y) for y in x]
            if out and isinstance(x[0], ast.stmt):
                i = 0
                new = []
                while i < len(out):
                    if rng.random() < rate / 2:
                        n = rng.randrange(1, 4)
                        kind = rng.choice("ABCD")
                        group = out[i:i + n]
                        new += group if kind in skip else [make(kind, group)]
                        i += n
                    else:
                        new.append(out[i])
                        i += 1
                out = new
            return out
        if isinstance(x, ast.AST):
            for f, v in list(ast.iter_fields(x)):
                if isinstance(v, (list, ast.AST)):
                    setattr(x, f, walk(v))
            if isinstance(x, WRAPPABLE):
                return wrap(x)
        return x
    return walk(tree)


def find(x, out):
    if isinstance(x, markers.ASTMarker):
        out.append(x)
    if isinstance(x, list):
        for y in x:
            find(y, out)
    elif isinstance(x, ast.AST):
        for f in x._fields:
            find(getattr(x, f, None), out)
    return out


@st.composite
def cases(draw):
    case = {"seed": draw(st.integers(0, 9999)), "rate": draw(st.sampled_from([0.0, 0.05, 0.2, 0.5])), "how": draw(st.sampled_from(["module", "body", "stmt", "expr"])),
            "cls": draw(st.sampled_from(sorted(QUERY)))}
    if draw(st.integers(0, 9)) == 0:
        case["lib"] = draw(corpus.statements())
    else:
        case["src"] = draw(pygen.module_source(budget=25))
    return case


def root(case):
    tree = corpus.statement(case["lib"], 400) if "lib" in case else ast.parse(case["src"])
    if case["how"] == "body" and isinstance(tree, ast.Module):
        return tree.body
    if case["how"] == "stmt" and isinstance(tree, ast.Module) and tree.body:
        return tree.body[0]
    if case["how"] == "expr":
        for n in ast.walk(tree):
            if isinstance(n, ast.expr) and not isinstance(n, (ast.Slice, ast.Starred)):
                return n
    return tree


def check(case, ctx):
    cls = QUERY[case["cls"]]
    tree = plant(root(case), case["seed"], case["rate"])
    skip = [k for k, c in CLASSES.items() if issubclass(c, cls)]
    want = plant(root(case), case["seed"], case["rate"], skip)
    planted = find(tree, [])
    mine = [m for m in planted if isinstance(m, cls)]
    ctx.nontrivial_case(len(planted) >= 3)
    ctx.event("markers planted", len(planted))
    ctx.event("markers to be removed", len(mine))
    before = dump(tree)
    got = markers.get_markers(tree, cls)
    require([id(x) for x in got] == [id(x) for x in mine], lambda: f"get_markers finds {got}, expected {mine}")
    if cls is markers.ASTMarker:
        require([id(x) for x in markers.get_markers(tree)] == [id(x) for x in mine], "get_markers without a class")
    for kw in [{"cls": cls}] + ([{}] if cls is markers.ASTMarker else []):
        try:
            markers.check_no_markers_remaining(tree, filename="some file.py", **kw)
            raised = None
        except mcore.MacroExpansionError as err:
            raised = str(err)
        require((raised is not None) == bool(mine), lambda: f"check_no_markers_remaining {'raised' if raised else 'did not raise'}, with {len(mine)} markers")
        if raised:
            require("some file.py" in raised, lambda: f"the error does not show the file name: {raised}")
    require(dump(tree) == before, "finding markers changed the tree")
    out = markers.delete_markers(tree, cls) if cls is not markers.ASTMarker else markers.delete_markers(tree)
    a, b = dump(want), dump(out)
    require(a == b, lambda: f"delete_markers({case['cls']})\n{diff(a, b)}")
    markers.check_no_markers_remaining(out, filename="some file.py", cls=cls)
    # an empty marker goes without a trace
    box = ast.Module(body=[ast.Pass(), A(None), ast.Pass()], type_ignores=[])
    require(dump(markers.delete_markers(box)) == dump(ast.Module(body=[ast.Pass(), ast.Pass()], type_ignores=[])), "empty marker")


TESTS = [Test("markers", cases(), check, quick=10000, thorough=200000)]
