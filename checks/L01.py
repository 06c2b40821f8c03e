"""Dialects transform in the documented order, each exactly once."""

import ast
import copy
import io
import contextlib
import re
import sys
import types

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, require
from harness.sut import colorizer, compiler, diff, dialects

PROPERTY = "L01"
RULE = ("Cases: up to five dialects in three modules (absolute and relative), each with generated source transformer, AST transformer and postprocessor (absent, declining, appending, prepending, replacing, "
        "injecting or removing dialect-imports, raising, returning an empty result), imported by a generated module (several dialects in one import, repeated imports, invalid forms that are not "
        "dialect-imports, non-Python surface syntax for the source transformers, macro uses), given as str, bytes, ast.Module or statement list, with or without the debug dialect. The sequence of transformer calls with what each was "
        "given, the resulting code and the errors must be those of a reference model of the documented algorithm. Non-trivial: at least three transformer calls.")
ASSUMPTIONS = ["each name of a dialect is imported from one module", "dialect-imports in source text are written in the documented form, or in one of a few forms documented not to work"]

LOG = []
MODS = {"lda": ["D0", "D1"], "ldb": ["D2", "D3"], "ldp.ldc": ["D4", "D5"]}
HOME = {d: m for m, ds in MODS.items() for d in ds}
SOURCE_OPS = ["none", "ni", "append", "prepend", "replace", "same", "inject", "inject_end", "remove_own", "remove_other", "raise", "empty", "none_result"]
AST_OPS = ["none", "ni", "append", "prepend", "new", "inject", "inject_end", "remove_other", "raise", "none_result"]
POST_OPS = ["none", "ni", "append", "prepend", "new", "raise", "none_result"]
BAD = ["notdialect", "instance", "badinit", "missing"]


class Boom(Exception):
    pass


def import_line(target):
    """The dialect-import that a transformer injects."""
    return f"from {HOME[target]} import dialects, {target}"


# what a transformer does, shared by the real dialects and the model
def do_source(name, op, text):
    kind, arg = op
    if kind == "append":
        return text + f"\nS_{name} = {arg}\n"
    if kind == "prepend":
        return f"P_{name} = {arg}\n" + text
    if kind == "replace":
        return text.replace(f"<<{name}>>", f"R_{name} = 1")
    if kind == "inject":
        return import_line(arg) + "\n" + text
    if kind == "inject_end":
        return text + "\n" + import_line(arg) + "\n"
    if kind == "remove_own":
        return "\n".join(x for x in text.split("\n") if not (x.startswith("from ") and re.search(rf"\b{name}\b", x)))
    if kind == "remove_other":
        return "\n".join(x for x in text.split("\n") if not (x.startswith("from ") and re.search(rf"\b{arg}\b", x)))
    if kind == "empty":
        return ""
    return text


def ispy(x, name):
    return isinstance(x, ast.ImportFrom) and any(a.name == name for a in x.names)


def do_ast(name, op, tree, which="A"):
    kind, arg = op
    if kind == "append":
        tree.body.append(ast.parse(f"{which}_{name} = {arg}").body[0])
    elif kind == "prepend":
        tree.body.insert(0, ast.parse(f"{which}P_{name} = {arg}").body[0])
    elif kind == "new":
        tree = ast.Module(body=list(tree.body) + ast.parse(f"{which}N_{name} = {arg}").body, type_ignores=[])
    elif kind == "inject":
        tree.body.insert(0, ast.parse(import_line(arg)).body[0])
    elif kind == "inject_end":
        tree.body.append(bare(ast.parse(import_line(arg)).body[0]))
    elif kind == "remove_other":
        tree.body = [x for x in tree.body if not ispy(x, arg)]
    return tree


def bare(node):
    for n in ast.walk(node):
        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            if hasattr(n, a):
                delattr(n, a)
    return node


def text_of(content):
    return content if isinstance(content, str) else ast.dump(content)


def make_dialect(name, ops, log):
    def method(which):
        op = ops[which]

        def transform(self, content):
            log.append((which, name, text_of(content), self.lineno, self.col_offset, self.expander.filename, id(self)))
            log.keep.append(self)
            if op[0] == "ni":
                return NotImplemented
            if op[0] == "raise":
                raise Boom(f"boom in {name}")
            if op[0] == "none_result":
                return None
            if which == "source":
                return do_source(name, op, content)
            return do_ast(name, op, content, "A" if which == "ast" else "Z")
        return transform
    ns = {m: method(w) for w, m in (("source", "transform_source"), ("ast", "transform_ast"), ("post", "postprocess_ast")) if ops[w][0] != "none"}
    return type(name, (dialects.Dialect,), ns)


class Log(list):
    def __init__(self):
        self.keep = []


def mm(tree, *, syntax, **kw):
    LOG[0].append(("macro", "mm"))
    return ast.Call(func=ast.Name(id="MM", ctx=ast.Load()), args=[tree], keywords=[])


def install(case, log):
    for m in ["ldp", "lmac"] + list(MODS):
        mod = types.ModuleType(m)
        sys.modules[m] = mod
        if m == "ldp":
            mod.__path__ = []
    sys.modules["ldp"].ldc = sys.modules["ldp.ldc"]
    sys.modules["lmac"].mm = mm
    for name, home in HOME.items():
        mod = sys.modules[home]
        bad = case["bad"].get(name)
        if bad is None:
            setattr(mod, name, make_dialect(name, case["dialects"][name], log))
        elif bad == "notdialect":
            setattr(mod, name, type(name, (), {}))
        elif bad == "instance":
            setattr(mod, name, lambda *a, **kw: None)
        elif bad == "badinit":
            def init(self, *a, **kw):
                raise Boom("init")
            setattr(mod, name, type(name, (dialects.Dialect,), {"__init__": init}))


# ---------------------------------------------------------------- model
class Fail(Exception):
    def __init__(self, kind, *words):
        self.kind = kind
        self.words = words


class Model:
    def __init__(self, case):
        self.case = case
        self.log = []
        self.steps = 0
        self.debug = False
        self.shown = []

    def names_of(self, imp):
        """(module, names) for an ast.ImportFrom"""
        if any(a.asname for a in imp.names[1:]):
            raise Fail("asname")
        mod = imp.module if not imp.level else "ldp." + imp.module
        names = list(dict.fromkeys(a.name for a in imp.names[1:]))
        for n in names:
            if n != "StepExpansion" and self.case["bad"].get(n) == "missing":
                raise Fail("missing", n)
        return mod, names

    def apply(self, which, mod, names, content, lineno, col):
        """One dialect-import. Returns the content, and the dialects that ran."""
        ran = []
        for name in names:
            if name == "StepExpansion":
                ran.append(name)
                if not self.debug:
                    self.debug = True
                    self.steps += 1
                    self.shown.append(("StepExpansion", which, self.steps))
                elif which == "source":     # the source transformer always takes a step
                    self.steps += 1
                    self.shown.append(("StepExpansion", which, self.steps))
                continue
            bad = self.case["bad"].get(name)
            if bad in ("notdialect", "instance"):
                raise Fail("type", name)
            if bad == "badinit":
                raise Fail("init", name)
            content = self.one(which, name, content, lineno, col)
            ran.append(name)
        return content, ran

    def one(self, which, name, content, lineno, col):
        op = self.case["dialects"][name][which]
        if op[0] == "none":
            return content
        self.log.append((which, name, text_of(content), lineno, col))
        if op[0] == "ni":
            return content
        if op[0] == "raise":
            raise Fail("raise", name)
        new = None if op[0] == "none_result" else do_source(name, op, content) if which == "source" else do_ast(name, op, content, "A" if which == "ast" else "Z")
        if not new:
            raise Fail("empty", name)
        self.steps += 1
        if self.debug:
            self.shown.append((name, which, self.steps))
        return new

    def source(self, text):
        seen = set()
        while True:
            for i, line in enumerate(text.split("\n")):
                m = re.match(r"from [.A-Za-z0-9_]+ import dialects, [^(\\]+$", line)
                if m and line.strip() not in seen:
                    break
            else:
                return text
            seen.add(line.strip())
            mod, names = self.names_of(ast.parse(line.strip()).body[0])
            text, _ = self.apply("source", mod, names, text, i + 1, 0)

    def ast(self, tree):
        ran = []
        while True:
            for i, x in enumerate(tree.body):
                if isinstance(x, ast.ImportFrom) and x.names[0].name == "dialects" and x.names[0].asname is None:
                    break
            else:
                return tree, ran
            mod, names = self.names_of(x)
            tree.body[i] = ast.Import(names=[ast.alias(name=mod)])
            tree, r = self.apply("ast", mod, names, tree, getattr(x, "lineno", None), getattr(x, "col_offset", None))
            ran += r

    def macros(self, tree):
        bound = [False]
        for i, x in enumerate(tree.body):
            if isinstance(x, ast.ImportFrom) and x.names[0].name == "macros":
                tree.body[i] = ast.Import(names=[ast.alias(name="lmac")])
                bound[0] = True
        log = self.log

        class E(ast.NodeTransformer):
            def visit_Subscript(self, n):
                if bound[0] and isinstance(n.value, ast.Name) and n.value.id == "mm":
                    log.append(("macro", "mm"))
                    return ast.Call(func=ast.Name(id="MM", ctx=ast.Load()), args=[self.visit(n.slice)], keywords=[])
                return self.generic_visit(n)
        return E().visit(tree)

    def run(self, src, tree):
        if tree is None:
            text = self.source(src)
            try:
                tree = ast.parse(text)
            except SyntaxError:
                raise Fail("parse")
        tree, ran = self.ast(tree)
        tree = self.macros(tree)
        for name in ran:
            if name != "StepExpansion":
                tree = self.one("post", name, tree, "same", "same")
        return tree


# ---------------------------------------------------------------- cases
@st.composite
def cases(draw):
    s = pygen.Src(draw)
    names = sorted(HOME)
    form = s.choice(["str", "str", "bytes", "tree", "list"])

    def op(kinds, i):
        k = s.choice(kinds)
        if k in ("raise", "empty", "none_result") and not s.chance(1, 4):
            k = "append"
        arg = s.int(0, 9)
        if k in ("inject", "inject_end"):
            if i == len(names) - 1:
                k = "ni"
            else:
                arg = s.choice(names[i + 1:])
        if k == "remove_other":
            arg = s.choice(names)
        return [k, arg]
    ds = {n: {"source": op(SOURCE_OPS, i), "ast": op(AST_OPS, i), "post": op(POST_OPS, i)} for i, n in enumerate(names)}
    bad = {}
    if s.chance(1, 12):
        bad[s.choice(names)] = s.choice(BAD)
    lines = []
    if s.chance(1, 3):
        lines.append("'''doc'''")
    for _ in range(s.int(1, 6)):
        k = s.weighted([(8, "imp"), (2, "multi"), (3, "stmt"), (1, "debug"), (2, "odd"), (2, "token"), (2, "macro")])
        if k == "imp":
            d = s.choice(names)
            mod = HOME[d]
            if mod == "ldp.ldc" and s.chance(1, 2):
                mod = ".ldc"
            lines.append(f"from {mod} import dialects, {d}" + s.choice(["", "", " ", "  # comment"]))
        elif k == "multi":
            mod = s.choice(sorted(MODS))
            lines.append(f"from {mod} import dialects, " + ", ".join(s.choice([MODS[mod], MODS[mod][::-1], MODS[mod] + MODS[mod][:1]])))
        elif k == "debug":
            lines.append("from mcpyrate.debug import dialects, StepExpansion")
        elif k == "stmt":
            lines.append(s.choice(["x = 1", "y = f(2)", "def g():\n    return (1, 2)", "z = 'a\\\\b'", "# comment", "from lda import z, dialects", "import lda", "from lda import macros_, D0", "from lda import x as dialects, D1"]))
        elif k == "odd":
            lines.append(s.choice(["if 1:\n    from lda import dialects, D0", "from lda import (dialects, D1)", "from ldb import dialects, (D2)" if False else "from ldb import (dialects, D2)", "from ldb import dialects, \\\n  D3",
                                   "'''\n from lda import dialects, D0\n'''"]))
        elif k == "token" and form in ("str", "bytes"):
            lines.append(f"<<{s.choice(names)}>>" if s.chance(1, 3) else "x = 2")
            if lines[-1].startswith("<<"):
                d = lines[-1][2:-2]
                ds[d]["source"] = ["replace", 0]
                if s.chance(7, 8) and not bad:
                    lines.insert(s.int(0, len(lines) - 1), import_line(d))
        else:
            lines.append(s.choice(["from lmac import macros, mm", "u = mm[1 + mm[2]]", "def h():\n    return mm[x]"]))
    if s.chance(1, 15):
        lines.append("from lda import dialects, D0 as E0")
    return {"dialects": ds, "bad": bad, "lines": lines, "form": form}


def observe_post(real):
    """Postprocessors have the instance of the AST transformer: its location too."""
    out = []
    for e in real:
        out.append(e[:5] if e[0] != "post" else e[:3] + ("same", "same"))
    return out


def check(case, ctx):
    filename = "/nowhere/ldp/user.py"
    src = "\n".join(case["lines"]) + "\n"
    tree = None
    if case["form"] in ("tree", "list"):
        try:
            tree = ast.parse(src)
        except SyntaxError:
            tree = ast.parse("from lda import dialects, D0\nfrom ldb import dialects, D2")
    model = Model(case)
    fail = want = None
    try:
        want = model.run(src, copy.deepcopy(tree))
        if want is not None and not isinstance(want, ast.Module):
            raise AssertionError
    except Fail as f:
        fail = f
    log = Log()
    LOG[:] = [log]
    install(case, log)
    sys.path.insert(0, "/nowhere")
    err = got = None
    out = io.StringIO()
    arg = src if case["form"] == "str" else ("# -*- coding: latin-1 -*-\n" + src + "# \xe9\n").encode("latin-1") if case["form"] == "bytes" else tree if case["form"] == "tree" else tree.body
    if case["form"] == "bytes":
        model = Model(case)
        fail = want = None
        try:
            want = model.run(arg.decode("latin-1"), None)
        except Fail as f:
            fail = f
    try:
        with contextlib.redirect_stderr(out):
            got = compiler.expand(arg, filename=filename, self_module="ldp.user")
    except Exception as e:
        err = e
    finally:
        sys.path.remove("/nowhere")
        for m in ["ldp", "lmac"] + list(MODS):
            sys.modules.pop(m, None)
    calls = [e for e in model.log]
    ctx.nontrivial_case(sum(e[0] != "macro" for e in calls) >= 3)
    ctx.event("form " + case["form"])
    ctx.event("fails: " + fail.kind if fail else "succeeds")
    show = lambda es: [e[:2] for e in es]  # noqa: E731
    real = observe_post(log)
    require(show(real) == show(calls), lambda: f"calls {show(real)}, expected {show(calls)}; error {err!r}")
    for r, w in zip(real, calls):
        require(r[:3] == w[:3], lambda: f"{w[0]} of {w[1]} got {r[2]!r:.400}\nexpected {w[2]!r:.400}")
        require(r[3:] == w[3:], lambda: f"{w[0]} of {w[1]}: location {r[3:]}, expected {w[3:]}")
    names = {}
    for e in log:
        if e[0] != "macro":
            require(e[5] == filename, lambda: f"file name {e[5]!r}")
            names.setdefault((e[0], e[6]), []).append(e[1])
    srcids, astids, postids = ({e[6] for e in log if e[0] == w} for w in ("source", "ast", "post"))
    require(not srcids & (astids | postids), "a dialect instance is shared between source and AST transformation")
    for (which, i), who in names.items():
        require(len(who) == 1, lambda: f"one dialect instance transformed more than once: {which} {who}")
    order = {e[6]: n for n, e in enumerate(e for e in log if e[0] == "ast")}
    seq = [order[e[6]] for e in log if e[0] == "post" and e[6] in order]
    require(seq == sorted(seq), "postprocessors are not in the order of the AST transformers")
    # the instance that postprocesses is the one that transformed: match the two by occurrence, for dialects that have both
    for d in HOME:
        both = case["dialects"][d]["ast"][0] != "none" and case["dialects"][d]["post"][0] != "none"
        if both:
            a = [e[6] for e in log if e[:2] == ("ast", d)]
            p = [e[6] for e in log if e[:2] == ("post", d)]
            require(p == a[:len(p)], f"postprocessing {d} used another instance")
    if fail is None:
        require(err is None, lambda: f"unexpected error {err!r}, cause {err.__cause__!r}")
        a, b = ast.dump(want), ast.dump(got)
        require(a == b, lambda: diff(a, b))
    else:
        require(err is not None, lambda: f"no error; expected {fail.kind} {fail.words}")
        require(isinstance(err, TypeError if fail.kind == "type" else ImportError), lambda: f"error {err!r} for {fail.kind}")
        for w in fail.words:
            require(w in str(err), lambda: f"the error does not name {w}: {err!r}")
        if fail.kind in ("raise", "init"):
            require(isinstance(err.__cause__, Boom), lambda: f"the cause is {err.__cause__!r}")
    # debug mode
    txt = re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())
    if not model.debug:
        require(txt == "", lambda: f"output without debug mode: {txt[:300]}")
    else:
        got_steps = [(m.group(1), {"transform_source": "source", "transform_ast": "ast", "postprocess_ast": "post"}[m.group(2)], int(m.group(3))) for m in re.finditer(r"after (.+)\.(\w+) \(step (\d+)\):", txt)]
        exp = [(("mcpyrate.dialects." if n == "StepExpansion" else "") + n, w, k) for n, w, k in model.shown]
        ctx.event("debug steps", len(exp))
        require([(x[0].split(".")[-1], x[1], x[2]) for x in got_steps if x[1] != "post"] == [(x[0].split(".")[-1], x[1], x[2]) for x in exp if x[1] != "post"], lambda: f"steps shown {got_steps}, expected {exp}")
        require([x[1:] for x in got_steps] == [x[1:] for x in exp], lambda: f"steps shown {got_steps}, expected {exp}")


assert colorizer
TESTS = [Test("pipeline", cases(), check, quick=25000, thorough=400000)]
