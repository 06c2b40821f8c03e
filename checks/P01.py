"""Postprocessors run after macro expansion, in order, on each top-level expansion."""

import ast
import contextlib
import io
import re
import sys
import types

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, Violation, require
from harness.sut import compiler, core as mcore, dialects, expander as mexpander, importer, markers, walkers

PROPERTY = "P01"
RULE = ("Cases: histories of up to 16 operations: registering postprocessors (functions and methods; again, in any order), removing them (also ones that are not there), and expanding generated programs through each of "
        "`expand_macros` (module, list of statements, expression), `compiler.expand`, `compiler.run`, the import hook (also with several phases, and with a dialect that has a postprocessor, too), and the console, with macros that wrap code in AST markers of their own, mark it as done, "
        "expand it once, or start another top-level expansion. The postprocessors change numbers (so that order shows), delete markers of a class and its subclasses, give a new tree, or fail. After each: the calls of postprocessors "
        "with the markers each saw, and the resulting code, are as a model of the registered list says. Non-trivial: two postprocessors ran in an expansion, after at least three registrations or removals.")
ASSUMPTIONS = ["postprocessors do not change the list of postprocessors while they run"]


class A(markers.ASTMarker):
    pass


class B(A):
    pass


class C(markers.ASTMarker):
    pass


CLASSES = {"A": A, "B": B, "C": C}
DELETES = {"A": ("A", "B"), "B": ("B",), "C": ("C",)}


class PostError(Exception):
    pass


LOG = []


def seen(tree):
    """Names of the classes of markers in `tree`."""
    class Finder(walkers.ASTVisitor):
        def examine(self, tree):
            if isinstance(tree, markers.ASTMarker):
                self.collect(type(tree).__name__)
            self.generic_visit(tree)
    f = Finder()
    f.visit(tree)
    return sorted(set(f.collected))


class Mapper(ast.NodeTransformer):
    """n -> 3n + k on integers. Its results are new nodes."""
    def __init__(self, k):
        self.k = k

    def visit(self, node):
        if isinstance(node, list):
            return [self.visit(x) for x in node]
        return super().visit(node)

    def generic_visit(self, node):
        if isinstance(node, ast.Constant) and type(node.value) is int:
            return ast.copy_location(ast.Constant(value=3 * node.value + self.k), node)
        if isinstance(node, markers.ASTMarker):
            node.body = self.visit(node.body)
            return node
        return super().generic_visit(node)


def post0(tree):
    LOG.append((0, seen(tree)))
    return Mapper(1).visit(tree)


def post1(tree):
    LOG.append((1, seen(tree)))
    return markers.delete_markers(tree, cls=A)


def post2(tree):
    LOG.append((2, seen(tree)))
    raise PostError("post2")


class Library:
    """Postprocessors that are methods: equal, not identical, each time."""
    def post3(self, tree):
        LOG.append((3, seen(tree)))
        return Mapper(2).visit(tree)

    def post4(self, tree):
        LOG.append((4, seen(tree)))
        return markers.delete_markers(tree, cls=B)


LIBRARY = Library()


def post5(tree):
    LOG.append((5, seen(tree)))
    tree = markers.delete_markers(tree, cls=C)
    new = Mapper(0).visit(tree)
    return ast.Module(body=list(new.body), type_ignores=[]) if isinstance(new, ast.Module) else new


def post(i):
    return {0: post0, 1: post1, 2: post2, 3: LIBRARY.post3, 4: LIBRARY.post4, 5: post5}[i]


MAPS = {0: 1, 3: 2, 5: 0}
CUTS = {1: "A", 4: "B", 5: "C"}


# ---- the macros

def _marker(cls):
    def macro(tree, *, expander, **kw):
        return cls(expander.visit_recursively(tree))
    return macro


mka, mkb, mkc, done = map(_marker, (A, B, C, mcore.Done))


for _name in ("mka", "mkb", "mkc", "done"):
    globals()[_name].__name__ = _name


def once(tree, *, expander, **kw):
    return expander.visit_once(expander.visit_recursively(tree))


def ident(tree, **kw):
    return tree


def inner(tree, *, expander, **kw):
    return mexpander.expand_macros(tree, expander.bindings, filename=expander.filename)


MACROS = {"mka": mka, "mkb": mkb, "mkc": mkc, "done": done, "once": once, "ident": ident, "inner": inner}
MARKS = {"mka": "A", "mkb": "B", "mkc": "C", "done": None, "once": None, "ident": None}

class Clean(dialects.Dialect):
    """Its postprocessor runs after the registered ones."""
    def postprocess_ast(self, tree):
        LOG.append((6, seen(tree)))
        tree.body = markers.delete_markers(tree.body, cls=C)
        return Mapper(5).visit(tree)


lib = types.ModuleType("p01lib_verif")
lib.__dict__.update(MACROS, Clean=Clean)
DIALECT = f"from {lib.__name__} import dialects, Clean\n"
PHASES = "from mcpyrate.multiphase import macros, phase\n"


# ---- programs. An expression is an int, ["list", e, ...], [macro, e]; a statement is [variable, e] or [block macro, [statement, ...]].

def gen_expr(s, d):
    k = s.int(0, 9) if d > 0 else 0
    if k < 3:
        return s.int(0, 9)
    if k < 5:
        return ["list"] + [gen_expr(s, d - 1) for _ in range(s.int(0, 2))]
    return [s.weighted([(2, "ident"), (3, "mka"), (3, "mkb"), (3, "mkc"), (2, "done"), (2, "once"), (2, "inner")]), gen_expr(s, d - 1)]


def gen_body(s, d, prefix, counter):
    out = []
    for _ in range(s.int(1, 3)):
        if d > 0 and s.chance(1, 5):
            out.append([s.choice(["ident", "mka", "mkb", "mkc", "done", "once", "inner"]), gen_body(s, d - 1, prefix, counter)])
        else:
            counter[0] += 1
            out.append([f"{prefix}{counter[0]}", gen_expr(s, 4)])
    return out


def text_expr(e):
    if isinstance(e, int):
        return str(e)
    if e[0] == "list":
        return "[" + ", ".join(map(text_expr, e[1:])) + "]"
    return f"{e[0]}[{text_expr(e[1])}]"


def text_body(body, indent=""):
    out = []
    for name, x in body:
        if name in MACROS:
            out += [f"{indent}with {name}:"] + text_body(x, indent + "    ")
        else:
            out.append(f"{indent}{name} = {text_expr(x)}")
    return out


def used(text):
    """The macros of a program, as bindings: just those that it uses (and those that `inner` needs are among them)."""
    return {k: v for k, v in MACROS.items() if re.search(rf"\b{k}\b", text)}


def macro_import(text, indent=""):
    """There is none in a program without macros."""
    return f"{indent}from {lib.__name__} import macros, {', '.join(used(text))}\n" if used(text) else ""


class Model:
    """What becomes of a program. The same notation, with the names of marker classes for macros."""
    def __init__(self, posts):
        self.posts = posts
        self.log = []

    def expand(self, x):
        if isinstance(x, int) or x is None:
            return x
        if isinstance(x, list) and x and isinstance(x[0], str):
            if x[0] == "list":
                return ["list"] + [self.expand(y) for y in x[1:]]
            body = self.expand(x[1])
            if x[0] == "inner":
                return ["", self.postprocess(body)]
            if MARKS.get(x[0]):
                return [MARKS[x[0]], body]
            if x[0] in MARKS:
                return ["", body]
            return [x[0], body]
        return [self.expand(y) for y in x]

    def marks(self, x):
        if isinstance(x, int):
            return set()
        if isinstance(x, list) and x and isinstance(x[0], str):
            out = {x[0]} & set(CLASSES)
            for y in x[1:]:
                out |= self.marks(y)
            return out
        return set().union(*map(self.marks, x)) if x else set()

    def map(self, x, f):
        if isinstance(x, int):
            return f(x)
        return [y if isinstance(y, str) else self.map(y, f) for y in x]

    def postprocess(self, x):
        for i in self.posts:
            self.log.append((i, sorted(self.marks(x))))
            if i == 2:
                raise PostError("model")
            if i in CUTS:
                x = self.cut(x, DELETES[CUTS[i]])
            if i in MAPS:
                x = self.map(x, lambda n: 3 * n + MAPS[i])
        return x

    def cut(self, x, classes):
        if isinstance(x, int):
            return x
        if x and isinstance(x[0], str) and x[0] in classes:
            return ["", self.cut(x[1], classes)]
        return [y if isinstance(y, str) else self.cut(y, classes) for y in x]

    def values(self, body, out):
        """Variables of an expanded body, any markers ignored."""
        for x in body:
            if x[0] in CLASSES or x[0] == "":
                self.values(x[1], out)
            else:
                out[x[0]] = self.value(x[1])
        return out

    def value(self, x):
        if isinstance(x, int):
            return x
        if x[0] == "list":
            return [self.value(y) for y in x[1:]]
        return self.value(x[1])


def chain(err):
    while err is not None:
        yield err
        err = err.__cause__ or err.__context__


def values_of(tree):
    """Run expanded code (any markers deleted) and return its variables."""
    tree = markers.delete_markers(tree, cls=markers.ASTMarker)
    body = tree if isinstance(tree, list) else tree.body
    ns = {}
    exec(compile(ast.fix_missing_locations(ast.Module(body=body, type_ignores=[])), "<values>", "exec"), ns)
    return ns


FILE = "<p01 case>"


def perform(how, body, high):
    """Expand (and run) a program. -> (variables, marker classes left or None if not known)"""
    text = "\n".join(text_body(body)) + "\n"
    if how == "module":
        t = mexpander.expand_macros(ast.parse(text), used(text), filename=FILE)
        left = seen(t)
        return values_of(t), left
    if how == "list":
        t = mexpander.expand_macros(ast.parse(text).body, used(text), filename=FILE)
        left = seen(t)
        return values_of(t), left
    if how == "expr":
        t = mexpander.expand_macros(ast.parse(text_expr(body[0][1]), mode="eval").body, used(text_expr(body[0][1])), filename=FILE)
        left = seen(t)
        t = markers.delete_markers(t, cls=markers.ASTMarker)
        return {body[0][0]: eval(compile(ast.fix_missing_locations(ast.Expression(body=t)), "<values>", "eval"))}, left
    if how == "expand":
        t = compiler.expand(macro_import(text) + text, filename=FILE)
        left = seen(t)
        return values_of(t), left
    if how == "run":
        with compiler.temporary_module("p01_case_verif", FILE) as module:
            compiler.run(macro_import(text) + text, module)
            return dict(module.__dict__), None
    if how in ("import", "phases", "dialect"):
        if how == "phases":
            text = PHASES + macro_import(text) + "".join(f"with phase[{k}]:\n" + macro_import("\n".join(text_body(b)), "    ") + "\n".join(text_body(b, "    ")) + "\n" for k, b in sorted(enumerate(high, 1), reverse=True)) + text
        else:
            text = (DIALECT if how == "dialect" else "") + macro_import(text) + text
        loader = importer.SourceFileLoader("p01_case_verif", FILE)
        ns = {"__name__": "p01_case_verif"}
        before = sys.modules.get("p01_case_verif")
        try:
            exec(importer.source_to_xcode(loader, text.encode(), FILE), ns)
        finally:
            require(sys.modules.get("p01_case_verif") is before, "temporary module left in sys.modules")
        return ns, None
    raise AssertionError(how)


def check_case(case, ctx):
    registered, changes, ran = [], 0, 0
    sys.modules[lib.__name__] = lib
    console = None
    try:
        for op in case:
            kind = op[0]
            if kind == "add":
                require(mcore.add_postprocessor(post(op[1])) is None, "value of add_postprocessor")
                if op[1] not in registered:
                    registered.append(op[1])
                changes += 1
            elif kind == "remove":
                require(mcore.remove_postprocessor(post(op[1])) is None, "value of remove_postprocessor")
                if op[1] in registered:
                    registered.remove(op[1])
                changes += 1
            elif kind == "console":
                if console is None:
                    from mcpyrate.repl.console import MacroConsole
                    console = MacroConsole(dict(MACROS))
                    LOG.clear()
                    saved = list(registered)
                    for i in saved:
                        mcore.remove_postprocessor(post(i))
                    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                        for name in MACROS:
                            console.push(f"macro({name})")
                    for i in saved:
                        mcore.add_postprocessor(post(i))
                ran = max(ran, run_one(op, registered, ctx, console))
            else:
                ran = max(ran, run_one(op, registered, ctx, None))
        ctx.nontrivial_case(ran >= 2 and changes >= 3)
    finally:
        for i in range(6):
            mcore.remove_postprocessor(post(i))
            mcore.remove_postprocessor(post(i))
        sys.modules.pop(lib.__name__, None)


def run_one(op, registered, ctx, console):
    how, body, high = op
    if how == "expr":
        body = [x for x in body if x[0] not in MACROS][:1] or [["r", 1]]
    model = Model(list(registered))
    failed, left, want = False, set(), {}
    try:
        # The code of a phase is also part of the phases below it.
        lifted = []
        for b in reversed(high if how == "phases" else []):
            lifted = lifted + b
            t = model.postprocess(model.expand(lifted))
            left |= model.marks(t)
            if left:
                break
        if not left:
            t = model.postprocess(model.expand(lifted + body if how != "expr" else body[0][1]))
            if how == "dialect":
                model.log.append((6, sorted(model.marks(t))))
                t = model.map(model.cut(t, ["C"]), lambda n: 3 * n + 5)
            left = model.marks(t)
            want = model.values(t, {}) if how != "expr" else {body[0][0]: model.value(t)}
    except PostError:
        failed = True
    LOG.clear()
    text = lambda: f"{how}, postprocessors {registered}: {text_body(body)} {high if how == 'phases' else ''}"
    ctx.event(how)
    err = None
    if how == "console":
        out = io.StringIO()
        with contextlib.redirect_stderr(out), contextlib.redirect_stdout(out):
            source = "\n".join(text_body(body))
            if len(body) > 1 or body[0][0] in MACROS:
                source = "if 1:\n" + "\n".join(text_body(body, "    ")) + "\n"
            console.push(source)
        got, gotleft = dict(console.locals), None
        if failed or left:
            require(out.getvalue(), lambda: f"{text()}: no error reported")
            require(not failed or "PostError: post2" in out.getvalue(), lambda: f"{text()}: the error of the postprocessor is not reported: {out.getvalue()}")
        else:
            require(out.getvalue() == "", lambda: f"{text()}: {out.getvalue()}")
    else:
        try:
            got, gotleft = perform(how, body, high)
        except Violation:
            raise
        except Exception as e:
            err = e
        if failed:
            require(err is not None, lambda: f"{text()}: a postprocessor failed, and that is not an error")
            require(any(isinstance(x, PostError) for x in chain(err)), lambda: f"{text()}: a postprocessor failed, but the error is {err!r}")
        elif left and how not in ("module", "list", "expr"):
            require(err is not None, lambda: f"{text()}: markers {left} left, and that is not an error")
            require(FILE in str(err), lambda: f"{text()}: markers left, but the error is {err!r}")
        elif err is not None:
            raise err
    log = LOG[:]
    LOG.clear()
    wantlog = model.log
    require(log == wantlog, lambda: f"{text()}: calls of postprocessors\n{log}\nexpected\n{wantlog}")
    if err is None and not failed and not (left and how == "console"):
        require(gotleft is None or gotleft == sorted(left), lambda: f"{text()}: markers {gotleft} left, expected {left}")
        have = {k: got.get(k, "unset") for k in want}
        require(have == want, lambda: f"{text()}: values {have}, expected {want}")
    ctx.event("failed" if failed else "markers left" if left else "clean")
    return len(set(i for i, _ in model.log))


HOW = ["module", "list", "expr", "expand", "run", "import", "phases", "console", "dialect"]


@st.composite
def histories(draw):
    s = pygen.Src(draw)
    ops = []
    for _ in range(s.int(3, 16)):
        k = s.int(0, 9)
        if k < 4:
            ops.append(["add", s.weighted([(3, 0), (3, 1), (3, 3), (2, 4), (3, 5), (1, 2)])])
        elif k < 6:
            ops.append(["remove", s.weighted([(2, 0), (2, 1), (2, 3), (2, 4), (2, 5), (4, 2)])])
        else:
            how = s.choice(HOW)
            high = [gen_body(s, 1, f"p{j}_", [0]) for j in range(s.int(1, 2))] if how == "phases" else []
            ops.append([how, gen_body(s, 2, "r", [0]), high])
    return ops


TESTS = [
    Test("history", histories(), check_case, quick=5000, thorough=60000),
]
