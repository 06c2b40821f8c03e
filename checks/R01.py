"""Interactive console sessions, against plain consoles that are fed the expanded code."""

import ast
import builtins
import code
import codeop
import contextlib
import importlib
import io
import os
import re
import shutil
import sys
import types
import warnings

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, isolated, require
from harness.sut import activate

PROPERTY = "R01"
RULE = ("Cases: sessions of 3-25 inputs, pushed line by line into one or two `MacroConsole`s of a new process: statements and displayed expressions with uses of expression, name, block, decorator and parametric macros (nested), definitions used later, macro-imports (as-names, several at once, quasiquotes), macros defined in the session "
        "(`macro`, `from __self__`, with quasiquotes), redefined, re-imported after the library on disk changed; inputs that fail: syntax, macro errors of each kind, invalid output, missing or broken libraries, wrong names, run time errors, alone or after other statements of the same input; `obj?`, `obj??`, `macros?`, comments and strings ending in `?`. "
        "After each input: same output, `_`, variables and error as a plain console has after the code as expanded by hand, same answer to whether more lines are needed; a failed input is reported, with its cause, and changes no variable or macro binding; macro functions are available for inspection. Non-trivial: a session with macro uses and at least one failed input before the last use.")
ASSUMPTIONS = ["user variables and macros mostly have different names", "traceback text before the last line is not compared"]

MACROS = ["ma", "mb", "nm", "blk", "infunc", "deco", "drop", "lam", "clos", "par", "alias"]
FAILING = ["boom", "bad", "inval", "ret", "kbd", "nest", "gen"]
LIB = '''
if BROKEN == "zero":
    1/0
if BROKEN == "syntax":
    x = = 1
print("loading", __name__, V)
import ast
from mcpyrate import namemacro, parametricmacro
def tup(*xs): return ast.Tuple(elts=[x if isinstance(x, ast.AST) else ast.Constant(value=x) for x in xs], ctx=ast.Load())
def ma(tree, **kw):
    "doc of ma @V"
    return tup(V, tree)
def mb(tree, **kw):
    "doc of mb @V"
    return ast.List(elts=[tree, ast.Constant(value=V), tree], ctx=ast.Load())
@namemacro
def nm(tree, *, syntax, **kw):
    "doc of nm @V"
    return ast.Constant(value=V * 10) if syntax == "name" else tree
def blk(tree, *, syntax, **kw):
    "doc of blk @V"
    return tree + ast.parse(f"blk_done = {V}").body
def infunc(tree, **kw):
    "doc of infunc @V"
    f = ast.parse(f"def infunc_f():\\n    pass\\ninfunc_r = infunc_f(), {V}").body
    f[0].body = tree
    return f
def deco(tree, **kw):
    "doc of deco @V"
    return [tree] + ast.parse(f"deco_done = {V}").body
def drop(tree, **kw):
    "doc of drop @V"
lam = lambda tree, **kw: tup(tree, V)
lam.__doc__ = "doc of lam @V"
def make():
    def clos(tree, **kw):
        "doc of clos @V"
        return ast.Dict(keys=[ast.Constant(value=V)], values=[tree])
    return clos
clos = make()
@parametricmacro
def par(tree, *, args, **kw):
    "doc of par @V"
    return tup(V, tree, *args)
def _other(tree, **kw):
    "doc of alias @V"
    return tup("alias", tree)
alias = _other
del _other
def boom(tree, **kw): raise ValueError(f"boom {V}")
def bad(tree, **kw): return V
def inval(tree, **kw): return ast.BinOp(left=tree)
def ret(tree, **kw): return ast.Yield(value=tree)
def kbd(tree, **kw): raise KeyboardInterrupt
def nest(tree, *, expander, **kw): return expander.visit(ast.parse("nosuch_boom[1]", mode="eval").body) and boom(tree)
def gen(tree, **kw):
    yield tree
    raise LookupError("gen")
'''


def libtext(v, broken):
    text = LIB if broken == "syntax" else LIB.replace("    x = = 1\n", "    pass\n")
    text = re.sub(r"\bV\b", str(v), text.replace("@V", f"@{v}"))
    macro = "from mcpyrate.quotes import macros, q, u\nu[1]\n" if broken == "macro" else ""
    return f"V = {v}\nBROKEN = {broken!r}\n" + macro + text


# what the errors of each failing macro must say
WHY = {"boom": "boom", "bad": "expected macro to return", "inval": "BinOp", "ret": "yield", "kbd": "KeyboardInterrupt", "nest": "boom", "gen": "gen"}


class Gen:
    """Generates a session, tracking the macro bindings that it has."""
    def __init__(self, s):
        self.s = s
        self.steps = []
        self.ncon = s.weighted([(5, 1), (1, 2)])
        self.bind = [{} for _ in range(self.ncon)]      # name -> (macro, version)
        self.defs = [{} for _ in range(self.ncon)]      # macros defined in the session: name -> version (so far not bound)
        self.vars = [{"v0"} for _ in range(self.ncon)]
        self.future = [False] * self.ncon
        self.funcs = [set() for _ in range(self.ncon)]
        self.disk = {"la": [1, None], "lb": [2, None]}
        self.c = 0
        self.n = 10

    def some(self, seq, lo, hi):
        seq = list(seq)
        return [seq.pop(self.s.int(0, len(seq) - 1)) for _ in range(min(self.s.int(lo, hi), len(seq)))]

    def expr(self, d=2):
        """(text with macros, text without)"""
        s, bind = self.s, self.bind[self.c]
        uses = [n for n, (m, _) in bind.items() if m in ("ma", "mb", "nm", "drop", "lam", "clos", "par", "alias", "self", "selfname")]
        if uses and d > 0 and s.chance(3, 5):
            name = s.choice(sorted(uses))
            m, v = bind[name]
            if m == "nm":
                return name, str(v * 10)
            if m == "selfname":
                return name, str(v)
            a, b = self.expr(d - 1)
            if m == "par":
                x, y = self.expr(0)
                return f"{name}[{x}][{a}]", f"({v}, {b}, {y})"
            return f"{name}[{a}]", {"ma": f"({v}, {b})", "mb": f"[{b}, {v}, {b}]", "drop": "None", "lam": f"({b}, {v})", "clos": f"{{{v}: {b}}}", "alias": f"('alias', {b})", "self": f"({v}, {b}, 's')"}[m]
        k = s.int(0, 5)
        if k <= 1 or d <= 0:
            t = s.choice(sorted(self.vars[self.c])) if s.chance(1, 2) else str(s.int(0, 99))
            return t, t
        if k == 2:
            (a, b), (x, y) = self.expr(d - 1), self.expr(d - 1)
            return f"[{a}, {x}]", f"[{b}, {y}]"
        if k == 3:
            (a, b), (x, y) = self.expr(d - 1), self.expr(d - 1)
            return f"({a} if {x} else 0)", f"({b} if {y} else 0)"
        if k == 4 and self.funcs[self.c]:
            f = s.choice(sorted(self.funcs[self.c]))
            a, b = self.expr(d - 1)
            return f"{f}({a})", f"{f}({b})"
        a, b = self.expr(d - 1)
        return f"repr({a})", f"repr({b})"

    def find(self, *kinds):
        r = [n for n, (m, _) in sorted(self.bind[self.c].items()) if m in kinds]
        return self.s.choice(r) if r else None

    def simple(self):
        """A simple statement: (with macros, without)"""
        s = self.s
        a, b = self.expr()
        k = s.int(0, 5)
        if k <= 1:
            return a, b
        if k == 2:
            return f"print({a})", f"print({b})"
        v = s.choice(["v0", "v1", "v2"])
        if s.chance(1, 8) and v in self.vars[self.c] and v != "v0":
            self.vars[self.c].discard(v)
            return f"del {v}", f"del {v}"
        self.vars[self.c].add(v)
        return f"{v} = {a}", f"{v} = {b}"

    def indent(self, texts):
        return "\n".join("    " + x for t in texts for x in t.split("\n"))

    def statement(self):
        s = self.s
        k = s.weighted([(8, "simple"), (2, "many"), (1, "if"), (1, "for"), (2, "def"), (1, "class"), (3, "with"), (2, "deco"), (1, "future"), (1, "multi"), (1, "infunc"), (1, "comment"), (1, "string")])
        if k == "many":
            xs = [self.simple() for _ in range(s.int(2, 3))]
            return "; ".join(x for x, _ in xs), "\n".join(y for _, y in xs)
        if k in ("if", "for"):
            xs = [self.simple()]
            head = "if 1:" if k == "if" else "for i_ in range(2):"
            return f"{head}\n{self.indent([x for x, _ in xs])}\n", f"{head}\n{self.indent([y for _, y in xs])}"
        if k == "def":
            f = s.choice(["f0", "f1"])
            a, b = self.expr()
            self.funcs[self.c].add(f)
            return f"def {f}(p, *q_):\n    return p, {a}\n", f"def {f}(p, *q_):\n    return p, {b}\n"
        if k == "class":
            a, b = self.expr()
            return f"class C0:\n    '''Doc?\n\n    Doc??\n    '''\n    attr = {a}\n", f"class C0:\n    '''Doc?\n\n    Doc??\n    '''\n    attr = {b}"
        if k == "with":
            n = self.find("blk")
            if n:
                xs = [self.simple() for _ in range(s.int(1, 2))]
                v = self.bind[self.c][n][1]
                return f"with {n}:\n{self.indent([x for x, _ in xs])}\n", "\n".join(y for _, y in xs) + f"\nblk_done = {v}"
        if k == "infunc":
            n = self.find("infunc")
            if n:
                a, b = self.expr()
                v = self.bind[self.c][n][1]
                return f"with {n}:\n    return {a}\n", f"def infunc_f():\n    return {b}\ninfunc_r = infunc_f(), {v}"
        if k == "deco":
            n = self.find("deco")
            if n:
                a, b = self.expr()
                v = self.bind[self.c][n][1]
                self.funcs[self.c].add("f1")
                return f"@{n}\ndef f1(p):\n    return {a}\n", f"def f1(p):\n    return {b}\ndeco_done = {v}"
        if k == "future" and self.future[self.c]:
            return "def f2(p: nosuch_name) -> v0: return 1\n", "def f2(p: nosuch_name) -> v0: return 1"
        if k == "future":
            self.future[self.c] = True
            return "from __future__ import annotations; v9 = 1", "from __future__ import annotations\nv9 = 1"
        if k == "multi":
            a, b = self.expr()
            return f"(\n    {a},\n\n)", f"({b},)"
        if k == "comment":
            a, b = self.expr()
            q = s.choice(["?", "??"])
            return f"{a}  # why{q}", b
        if k == "string":
            q = s.choice(["?", "??"])
            return f"v1 = '''what{q}\nis this'''", f"v1 = '''what{q}\nis this'''"
        return self.simple()

    def add(self, src, plain=None, pre="", **kw):
        self.steps.append(dict(con=self.c, src=src, plain=plain, pre=pre, **kw))

    def load(self, lib):
        return f"loading {lib} {self.disk[lib][0]}\n"

    def step(self):
        s = self.s
        self.c = s.int(0, self.ncon - 1)
        c = self.c
        bind = self.bind[c]
        k = s.weighted([(9, "run"), (4 if len(bind) > 3 else 9, "import"), (2, "quotes"), (3, "define"), (5 if self.defs[c] else 1, "selfimport"), (2, "edit"), (2, "syntax"), (4, "fail"), (2, "runtime"), (2, "importfail"), (2, "inspect"), (1, "list"), (1, "macrocall"), (1, "shadow")])
        if k == "run":
            a, b = self.statement()
            self.add(a, b)
        elif k == "import":
            lib = s.choice(["la", "lb"])
            v, broken = self.disk[lib]
            names = self.some(MACROS + FAILING, 1, 5)
            pairs = [(n, n if s.chance(3, 4) else n + "_x") for n in names]
            src = f"from {lib} import macros, " + ", ".join(n if n == a else f"{n} as {a}" for n, a in pairs)
            if broken:
                self.add(src, fails={"zero": ["ZeroDivisionError"], "syntax": ["SyntaxError", lib + ".py"], "macro": ["u[1]"]}[broken])
                return
            new = {a: (n, v) for n, a in pairs}
            pre = self.load(lib)
            if s.chance(1, 4):
                bind.update(new)
                a, b = self.simple()
                self.add(f"{src}; {a}", b, pre, macros=[[a_, f"doc of {n_} @{v}"] for n_, a_ in pairs if n_ in MACROS])
            elif s.chance(1, 8):
                self.add(f"{src}; {s.choice(names)}x = = 1", fails=["SyntaxError"])
            elif s.chance(1, 5):
                # imports macros, but then fails before it runs
                f = s.choice([n for n in FAILING if n != "kbd"])
                self.add(f"{src}; from {lib} import macros, {f} as zz; v0 = zz[1]", pre=pre + pre, fails=[WHY[f]])
            elif s.chance(1, 6):
                # imports macros, but then fails when it runs
                bind.update(new)
                self.add(f"{src}; v0 = 7; nosuch_name; v0 = 8", "v0 = 7\nnosuch_name", pre, macros=[[a_, f"doc of {n_} @{v}"] for n_, a_ in pairs if n_ in MACROS])
            else:
                bind.update(new)
                self.add(src, "", pre, macros=[[a_, f"doc of {n_} @{v}"] for n_, a_ in pairs if n_ in MACROS])
        elif k == "quotes":
            names = self.some(["q", "u", "a", "n", "h", "s", "t"], 1, 4) if s.chance(1, 2) else ["q", "u", "a"]
            bind.update({n: ("quote", 0) for n in names})
            self.add(f"from mcpyrate.quotes import macros, {', '.join(names)}", "", macros=[[n, ""] for n in names])
        elif k == "define":
            g = s.choice(sorted(set(self.defs[c]) - {"gn"}) or ["g1"]) if s.chance(1, 2) else s.choice(["g0", "g1", "g2"])
            v = self.n = self.n + 1
            name = s.chance(1, 5)
            if name:
                body = f"return ast.Constant(value={v}) if kw['syntax'] == 'name' else tree"
                g = "gn"
            elif all(n in bind for n in "qua") and s.chance(2, 3):
                body = f"return q[u[{v}], a[tree], 's']"
            else:
                body = f"return ast.Tuple(elts=[ast.Constant(value={v}), tree, ast.Constant(value='s')], ctx=ast.Load())"
            how = "" if name else s.choice(["", "", "@macro\n"])
            text = f"{how}{'@mcpyrate.namemacro' + chr(10) if name else ''}def {g}(tree, **kw):\n    '''Doc of {g}.'''\n    {body}\n"
            self.add(text, f"def {g}(tree, **kw): pass")
            self.defs[c][g] = v
            if how:
                bind[g] = ("self", v)
        elif k == "selfimport":
            if not self.defs[c]:
                return
            g = s.choice(sorted(self.defs[c]))
            v = self.defs[c][g]
            if g != "gn" and s.chance(1, 8):
                # a definition that is not there any more cannot be imported
                del self.defs[c][g]
                self.add(f"del {g}", f"del {g}")
                self.add(f"from __self__ import macros, {g}", fails=[g, "ImportError"])
                return
            if g == "gn" or s.chance(1, 2):
                a = g if s.chance(2, 3) else g + "_y"
                self.add(f"from __self__ import macros, {g}" + (f" as {a}" if a != g else ""), "")
                bind[a] = ("selfname" if g == "gn" else "self", v)
            else:
                self.add(f"{g} = macro({g})", "")
                bind[g] = ("self", v)
        elif k == "edit":
            lib = s.choice(["la", "lb"])
            self.n += 1
            self.disk[lib] = [self.n, s.weighted([(4, None), (1, "zero"), (1, "syntax"), (1, "macro")])]
            self.steps.append(dict(con=c, edit=lib, v=self.disk[lib][0], broken=self.disk[lib][1]))
        elif k == "syntax":
            self.add(s.choice(["x = = 1", "foo(?", "1 +", ")", "if 1\n", "if 1:\npass", "def f(:", "v0 = 3; v0 = ", "return 5", "'abc", "x ? y", "$", "v0 = 1 ?? 2", "1 = v0", "print v0", "??", "?", "v0 v0?", "for?", "from la import macros, ; 1", "\tv0 = 1\n"]), fails=[["Error"]])
        elif k == "fail":
            n = self.find(*FAILING)
            if n:
                m = bind[n][0]
                a, _ = self.expr(1)
                t = s.choice([f"{n}[{a}]", f"v0 = {n}[{a}]", f"v0 = 5; print(1); {n}[{a}]", f"def f0(p):\n    return {n}[{a}]\n", f"from lb import nosuch; {n}[{a}]"])
                outer = self.find("ma", "mb", "lam")
                if outer and s.chance(1, 3):
                    t = f"{outer}[{n}[{a}]]"
                if m == "ret" and t.startswith("def"):
                    t = f"{n}[{a}]"
                self.add(t, fails=[WHY[m]] + ([n] if m not in ("inval", "ret", "kbd") else []))
        elif k == "runtime":
            a, b = self.expr(1)
            t, u = s.choice([("1/0", "1/0"), (f"v0 = {a}; nosuch_name", f"v0 = {b}\nnosuch_name"), (f"v0 = 1; ({a}).nosuch_attribute; v0 = 2", f"v0 = 1\n({b}).nosuch_attribute"), ("raise KeyboardInterrupt", "raise KeyboardInterrupt"), (f"raise ValueError({a}) from LookupError(1)", f"raise ValueError({b}) from LookupError(1)"),
                             ("import nosuch_module", "import nosuch_module"), ("macro(5)", "raise TypeError(\"`function` must be callable, got <class 'int'> with value 5\")"), ("macro(lambda tree, **kw: tree)", "raise TypeError('`function` must be a named function, got a lambda.')"), ("assert 0, 'no'", "assert 0, 'no'"),
                             ("raise SyntaxError('mine')", "raise SyntaxError('mine')"), ("exec('x = = 1')", "exec('x = = 1')"), (f"for i_ in range(2):\n    print(i_); v1 = {a}; [][1]\n", f"for i_ in range(2):\n    print(i_)\n    v1 = {b}\n    [][1]")])
            if "v1 =" in t:
                self.vars[c].add("v1")
            self.add(t, u)
        elif k == "importfail":
            lib = s.choice(["la", "lb"])
            other = s.choice(["ma", "blk"])
            broken = self.disk[lib][1]
            t, why = s.choice([("from nosuch_module import macros, x", "nosuch_module"), ("from __self__ import macros, nosuch_thing", "nosuch_thing"), ("from . import macros, x", "missing module name"), ("from .__self__ import macros, x", "relative"), ("from os import macros, sep", "callable"), ("from __self__ import macros, v0", "callable"),
                               (f"from {lib} import macros, {other}, nosuch_macro", "nosuch_macro"), (f"from {lib} import macros, V", "callable"), (f"from {lib} import macros, {other} as zz; from nosuch_module import macros, yy; v0 = 1", "nosuch_module")])
            if broken and lib in t:
                why = ""
            pre = self.load(lib) if lib in t and not broken else ""
            self.add(t, pre=pre, fails=[why, ["Error"]])
        elif k == "inspect":
            t, want = s.choice([("f0?", None), ("len?", "Return the number"), ("len??", "<no source code available>"), ("nosuch_name?", "NameError"), ("importlib_?", "NameError"), ("ast.parse?", "Parse the source"), ("ast.parse??", "def parse("), ("nosuch_name??", "NameError"), ("(1).real?", "int"), ("1/0?", "ZeroDivisionError")])
            if s.chance(1, 2) and (n := self.find(*MACROS)):
                m, v = bind[n]
                if not any(x["con"] == c and x.get("shadow") == n for x in self.steps):
                    t, want = s.choice([(f"{n}?", f"doc of {m} @"), (f"{n}??", f"doc of {m} @")])
                    if self.disk["la"][1] or self.disk["lb"][1] or t.endswith("??"):
                        want = None
            self.add(t, inspect=want)
        elif k == "list":
            self.add("macros?", listing=sorted(bind))
        elif k == "macrocall":
            if self.defs[c] and (g := s.choice(sorted(self.defs[c]))) != "gn":
                self.add(f"v1 = macro({g}) is {g}", "v1 = True")
                bind[g] = ("self", self.defs[c][g])
                self.vars[c].add("v1")
        elif k == "shadow":
            n = self.find("ma", "mb", "lam", "blk")
            if n:
                self.add(f"{n} = 5", "", shadow=n)

    def make(self):
        for c in range(self.ncon):
            self.c = c
            self.add("import ast; v0 = 4", "import ast\nv0 = 4")
        for _ in range(self.s.int(3, 25)):
            self.step()
        return {"steps": self.steps, "locals": self.s.choice([None, {}, {"given": 3}, {"given": 3, "__name__": "__main__"}]), "filename": self.s.choice([None, None, "<console>"])}


@st.composite
def cases(draw):
    return Gen(pygen.Src(draw)).make()


class Ref(code.InteractiveConsole):
    """A console that runs what is given as plain statements in one input."""
    def run(self, plain):
        tree = ast.parse(plain)
        if tree.body:
            for n in tree.body:
                if isinstance(n, ast.ImportFrom) and n.module == "__future__":
                    self.compile.compiler("from __future__ import annotations", "x", "single")
            self.runcode(compile(ast.Interactive(tree.body), "<ref>", "single", self.compile.compiler.flags, 1))


HIDDEN = {"ast", "mcpyrate", "macro", "la", "lb", "_mcpyrate_coverage", "__builtins__", "__macro_expander__", "__name__", "__doc__", "importlib", "_mcpyrate_quotes", "__annotations__"}


def canon(x):
    if isinstance(x, types.FunctionType):
        return ("function", x.__name__, repr(x.__annotations__))
    if isinstance(x, type):
        return ("class", x.__name__, x.__doc__, canon(getattr(x, "attr", None)))
    if isinstance(x, types.ModuleType):
        return ("module", x.__name__)
    if hasattr(x, "compiler_flag"):
        return "feature"
    return repr(x)


def child(case, base):
    warnings.simplefilter("ignore")
    from mcpyrate.repl.console import MacroConsole
    activate.activate()
    for m in ("quotes", "multiphase", "debug", "metatools"):
        importlib.import_module("mcpyrate." + m)
    sys.path.insert(0, base)
    sys.dont_write_bytecode = True
    clock = [1_600_000_000]

    def write(lib, v, broken):
        path = os.path.join(base, lib + ".py")
        with open(path, "w") as f:
            f.write(libtext(v, broken))
        clock[0] += 10
        os.utime(path, (clock[0], clock[0]))
        importlib.invalidate_caches()

    write("la", 1, None)
    write("lb", 2, None)
    events = []
    cons, refs, probes = [], [], []
    for _ in range(1 + max(x["con"] for x in case["steps"])):
        given = None if case["locals"] is None else dict(case["locals"])
        kw = {} if case["filename"] is None else {"filename": case["filename"]}
        con = MacroConsole(given, **kw)
        require(given is None or con.locals is given, "the console does not use the namespace it was given")
        cons.append(con)
        refs.append(Ref(None if case["locals"] is None else dict(case["locals"])))
        probes.append(codeop.CommandCompiler())
    last = [None, None]     # value of `_` on each side
    expected = [set() for _ in cons]
    text = []

    def output(side, fn):
        out, err = io.StringIO(), io.StringIO()
        builtins._ = last[side]
        exc = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                fn()
            except SystemExit:
                raise
            except BaseException as e:
                exc = e
        last[side] = builtins._
        return out.getvalue(), re.sub(r"\x1b\[[0-9;]*m", "", err.getvalue()), exc

    def variables(ns, i):
        return {k: canon(v) for k, v in ns.items() if k not in HIDDEN and k not in expected[i]}

    for i, step in enumerate(case["steps"]):
        if "edit" in step:
            write(step["edit"], step["v"], step["broken"])
            text.append(f"# {step['edit']}.py is now version {step['v']}, broken: {step['broken']}")
            continue
        con, ref = cons[step["con"]], refs[step["con"]]
        text.append((f"#{step['con']} " if len(cons) > 1 else "") + ">>> " + step["src"].replace("\n", "\n... "))
        where = lambda: "\nsession:\n" + "\n".join(text)
        before = {k: v for k, v in con.locals.items() if k not in ("__builtins__",)}
        bindings = dict(con.expander.bindings)
        answers = []

        def feed():
            lines = step["src"].split("\n")
            for j, line in enumerate(lines):
                prefix = "\n".join(lines[:j + 1])
                try:
                    want = probes[step["con"]](prefix, "<probe>", "single") is None
                except (SyntaxError, ValueError, OverflowError):
                    want = False
                got = con.push(line)
                answers.append((prefix, bool(got), want))
                if not got and not want:
                    # e.g. `if 1:` `pass` fails at the second line
                    if j < len(lines) - 1 and "fails" in step:
                        break
        out, err, exc = output(0, feed)
        interrupted = isinstance(exc, KeyboardInterrupt) and "fails" in step and "KeyboardInterrupt" in step["fails"]
        if interrupted:
            con.resetbuffer()
            err += "KeyboardInterrupt"
            exc = None
        if exc is not None:
            raise exc
        for prefix, got, want in answers:
            require(got == want, lambda: f"after {prefix!r}, the console says that {'more' if got else 'no more'} lines are needed{where()}")
        if con.buffer:
            require("fails" in step, lambda: f"the input is left in the buffer{where()}")
            con.resetbuffer()
            continue
        same = lambda: all(before.get(k, con) is con.locals.get(k, ref) for k in before.keys() | con.locals.keys() - {"__builtins__"})
        diff = lambda: sorted(k for k in before.keys() | con.locals.keys() if before.get(k, con) is not con.locals.get(k, ref))
        if "fails" in step:
            events.append("failed")
            require(out == step["pre"] or step["pre"].startswith(out), lambda: f"a failed input has output {out!r}{where()}")
            for why in step["fails"]:
                require(why[0] in err if isinstance(why, list) else why in err, lambda: f"error report {err!r} does not say {why!r}{where()}")
            require(same(), lambda: f"a failed input changed the variables {diff()}{where()}")
            require(con.expander.bindings == bindings, lambda: f"a failed input changed macro bindings: {sorted(con.expander.bindings)}, were {sorted(bindings)}{where()}")
        elif "inspect" in step:
            events.append("inspected")
            require(out == "", lambda: f"output {out!r}{where()}")
            require(err != "" and (step["inspect"] is None or step["inspect"] in err), lambda: f"output {err!r} does not have {step['inspect']!r}{where()}")
            require(same() and con.expander.bindings == bindings, lambda: f"inspection changed {diff()}{where()}")
        elif "listing" in step:
            require(out == "", lambda: f"output {out!r}{where()}")
            for name in step["listing"]:
                require(f"{name}" in err, lambda: f"{name} is not listed in {err!r}{where()}")
            require(len(con.expander.bindings) == len(step["listing"]), lambda: f"macro bindings {sorted(con.expander.bindings)}, expected {step['listing']}{where()}")
            require(len([x for x in err.split("\n") if ": " in x]) == len(step["listing"]), lambda: f"listing {err!r}, expected {step['listing']}{where()}")
            require(same() and con.expander.bindings == bindings, lambda: f"listing macros changed {diff()}{where()}")
        else:
            rout, rerr, rexc = output(1, lambda: ref.run(step["plain"]))
            require(rexc is None, lambda: f"reference fails: {rexc!r}")
            rout = step["pre"] + rout
            require(out == rout, lambda: f"output {out!r}, expected {rout!r}{where()}; stderr {err!r}")
            last_line = lambda t: t.rstrip("\n").split("\n")[-1].replace("`.  Did", "` Did")
            require(last_line(err) == last_line(rerr), lambda: f"error {err!r}, expected {rerr!r}{where()}")
            events.append("error" if rerr else "ok")
            if step.get("shadow"):
                require(con.locals[step["shadow"]] == 5, lambda: f"the variable was not set{where()}")
            for name, doc in step.get("macros", ()):
                expected[step["con"]].add(name)
                require(name in con.expander.bindings, lambda: f"macro {name} is not bound{where()}")
                require(con.locals.get(name) is con.expander.bindings[name], lambda: f"{name} is {con.locals.get(name)!r}, which is not the macro that was imported{where()}")
                require(not doc or con.locals[name].__doc__ == doc, lambda: f"docstring of {name} is {con.locals[name].__doc__!r}, expected {doc!r}{where()}")
                events.append("macro-import")
            if not step.get("macros"):
                for name in expected[step["con"]] - {step.get("shadow")}:
                    require(con.locals.get(name) is before.get(name), lambda: f"the input changed {name}{where()}")
            else:
                for name in expected[step["con"]] - {n for n, _ in step["macros"]}:
                    require(con.locals.get(name) is before.get(name), lambda: f"importing other macros changed {name} from {before.get(name)!r} to {con.locals.get(name)!r}{where()}")
            a, b = variables(con.locals, step["con"]), variables(ref.locals, step["con"])
            for name in con.expander.bindings:      # macros defined in the session
                a.pop(name, None), b.pop(name, None)
            require(a == b, lambda: f"variables {a}, expected {b}{where()}")
        va, vb = canon(last[0]), canon(last[1])
        require(va == vb, lambda: f"the value of `_` is {va}, expected {vb}{where()}")
        require(con.expander.recursive, lambda: f"the expander is left in non-recursive mode{where()}")
    used = any("[" in x.get("src", "") or "with" in x.get("src", "") for x in case["steps"])
    return events, used


COUNTER = [0]


def check(case, ctx):
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"r01_{COUNTER[0]}")
    COUNTER[0] += 1
    os.makedirs(base)
    try:
        events, used = isolated(child, case, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for e in events:
        ctx.event(e)
    ctx.nontrivial_case("macro-import" in events and ("failed" in events or "error" in events))


TESTS = [Test("session", cases(), check, quick=3000, thorough=60000)]
