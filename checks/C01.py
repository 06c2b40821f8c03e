"""Multi-phase compilation equals running the phases one after another."""

import ast
import contextlib
import copy
import importlib
import importlib.util
import io
import os
import re
import shutil
import sys
import types

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, require
from harness.sut import activate, compiler, diff, expander, unparser

PROPERTY = "C01"
RULE = ("Cases: a module of up to nine blocks in up to four phases, in any order: macro definitions (constant, tagging, embedding the phase at expansion time, calling a helper of an earlier phase, using macros of earlier phases "
        "in their own bodies, transmitting data), self-macro-imports (plain, renamed, of macros that are not there), macro-imports from other modules (absolute and relative), uses in expressions, blocks and names, mutable state, "
        "statements conditional on `__phase__`, future-imports, docstrings, failures at a chosen phase, invalid `with phase` forms; imported from a file, as a submodule, as a package, reloaded, or run from text, a tree or a list. The history of macro calls and "
        "of executed statements over all phases, the final namespace, `sys.modules` and the parent package must be those of a reference that lifts, expands and executes phase by phase. Non-trivial: at least two phases and three macro calls.")
ASSUMPTIONS = ["macros are used only in modules that import them at the top level of some phase"]

MOD = "c01mod"
PKG = "c01pkg.deep"
LOG = []


class Boom(Exception):
    pass


# ---------------------------------------------------------------- what generated modules use
def run_macro(name, kind, phase, tree, syntax, extra=None):
    """The behaviour of generated macros. `phase`: the `__phase__` that the macro's module had; `extra`: from a helper."""
    LOG.append(("macro", name, phase, syntax, dump(tree), extra))
    call = lambda *args: ast.Call(func=ast.Name(id="tag", ctx=ast.Load()), args=[ast.Constant(value=a) if not isinstance(a, ast.AST) else a for a in args], keywords=[])  # noqa: E731
    if syntax == "name":
        return call(name, phase, extra)
    if syntax == "block":
        first = ast.Expr(value=ast.Call(func=ast.Name(id="log", ctx=ast.Load()), args=[ast.Name(id="__phase__", ctx=ast.Load()), ast.Constant(value=name), call(phase, extra)], keywords=[]))
        return [first] + (tree if kind != "drop" else [])
    if kind == "const":
        return ast.Constant(value=(name, phase, extra))
    if kind == "dup":
        return call(name, tree, copy.deepcopy(tree))
    return call(name, phase, extra, tree)


def dump(tree):
    if isinstance(tree, list):
        return [dump(x) for x in tree]
    return ast.dump(tree)


def ext_macro(name):
    def macro(tree, *, syntax, **kw):
        return run_macro(name, "tag", "ext", tree, syntax)
    return macro


def log(*what):
    LOG.append(("run",) + what)


def tag(*args):
    return ("tag",) + args


def boom(phase, n):
    if phase == n:
        raise Boom(phase)


WHERE = [None, None, None]     # package name, file name, parent's attribute before


def look(name, ns):
    """Is the module that is running in `sys.modules` under its own name, and the parent's reference untouched?"""
    if ns.get("__ref__"):
        LOG.append(("look", True, True, True, True))
        return
    here = sys.modules.get(name)
    parent = sys.modules.get(PKG)
    same = True
    if parent is not None and "." in name and ns.get("__phase__"):
        same = getattr(parent, name.rsplit(".", 1)[1], None) is WHERE[2]
    LOG.append(("look", here is not None and here.__dict__ is ns, same, ns.get("__file__") == WHERE[1] or ns.get("__file__"),
                (ns.get("__package__") or "") == WHERE[0] or ns.get("__package__")))


# ---------------------------------------------------------------- reference
class Fail(Exception):
    pass


def phase_of(stmt):
    """n for a `with phase[n]`, else 0."""
    if type(stmt) is ast.With and len(stmt.items) == 1 and stmt.items[0].optional_vars is None:
        x = stmt.items[0].context_expr
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == "phase" and isinstance(x.slice, ast.Constant):
            n = x.slice.value
            if type(n) is int and n >= 1:
                return n
    return 0


def is_future(x):
    return isinstance(x, ast.ImportFrom) and x.module == "__future__"


class Expand(ast.NodeTransformer):
    def __init__(self, bindings, names):
        self.b = bindings
        self.names = names

    def call(self, name, tree, syntax):
        if name == "phase":
            raise Fail("phase")
        if isinstance(self.b[name], type):
            raise Fail("type")
        out = self.b[name](tree, syntax=syntax)
        if isinstance(out, list):
            res = []
            for x in out:
                x = self.visit(x)
                res += x if isinstance(x, list) else [x]
            return res
        return self.visit(out)

    def is_macro(self, x):
        return isinstance(x, ast.Name) and x.id in self.b

    def visit_Subscript(self, n):
        if self.is_macro(n.value):
            return self.call(n.value.id, n.slice, "expr")
        return self.generic_visit(n)

    def visit_With(self, n):
        x = n.items[0].context_expr
        if self.is_macro(x):
            return self.call(x.id, n.body, "block")
        if isinstance(x, ast.Subscript) and self.is_macro(x.value):
            return self.call(x.value.id, n.body, "block")
        if isinstance(x, ast.Call) and self.is_macro(x.func) and x.func.id == "phase":
            return self.call("phase", n.body, "block")
        return self.generic_visit(n)

    def visit_Name(self, n):
        if n.id in self.b and n.id in self.names:
            return self.call(n.id, n, "name")
        return n


def reference(text, modname, form):
    """Run the phases one after another. Returns the final namespace, and the statements of each phase."""
    tree = ast.parse(text)
    body = tree.body
    shown = {}
    highest = max([phase_of(x) for x in body] + [0])
    prev = None
    for k in range(highest, -1, -1):
        mine = []
        for x in ast.parse(text).body:
            n = phase_of(x)
            if n and n >= k:
                mine += x.body
            elif k == 0 or is_future(x):
                mine.append(x)
        shown[k] = copy.deepcopy(mine)
        pre = []
        if mine and isinstance(mine[0], ast.Expr) and isinstance(mine[0].value, ast.Constant) and isinstance(mine[0].value.value, str):
            pre.append(mine.pop(0))
        while mine and is_future(mine[0]):
            pre.append(mine.pop(0))
        bindings, names = {}, set()
        out = []
        for x in mine:
            if isinstance(x, ast.ImportFrom) and x.names[0].name == "macros":
                if x.module == "__self__":
                    ns = prev or {}
                elif x.module == "mcpyrate.multiphase":
                    ns = {"phase": None}
                elif x.module == "mcpyrate.debug":
                    ns = {"step_phases": None}
                else:
                    mod = ((modname if form == "init" else PKG) + "." if x.level else "") + x.module
                    ns = vars(sys.modules[mod])
                    if not x.level or form in ("sub", "init"):
                        out.append(ast.Import(names=[ast.alias(name=mod)]))
                for a in x.names[1:]:
                    if a.name not in ns:
                        raise Fail("import")
                    if x.module != "mcpyrate.debug":
                        if x.module != "mcpyrate.multiphase" and not callable(ns[a.name]):
                            raise Fail("import")
                        bindings[a.asname or a.name] = ns[a.name]
                        if expander.isnamemacro(ns[a.name]):
                            names.add(a.asname or a.name)
            else:
                out.append(x)
        mex = Expand(bindings, names)
        final = []
        for x in out:
            x = mex.visit(x)
            final += x if isinstance(x, list) else [x]
        final = pre + [ast.parse(f"__phase__ = {k}").body[0]] + final
        mod = ast.fix_missing_locations(ast.Module(body=final, type_ignores=[]))
        code = compile(mod, "ref", "exec", dont_inherit=True)
        ns = {"__name__": modname, "__ref__": True, "__package__": PKG if "." in modname else modname if form == "init" else ""}
        exec(code, ns)
        prev = ns
    return ns, shown, mod


# ---------------------------------------------------------------- cases
BADPHASE = ["with phase[0]:", "with phase[-1]:", "with phase['1']:", "with phase[1.0]:", "with phase[n]:", "with phase[1, 2]:", "with phase[1] as p:", "with phase[1], phase[2]:", "with phase:",
            "if 1:\n    with phase[1]:", "def f():\n    with phase[1]:", "phase[1]\nif 1:", "with phase[1]:\n    with phase[2]:", "x = phase[1]\nif 1:", "with phase(1):"]


@st.composite
def cases(draw):
    s = pygen.Src(draw)
    uid = [0]

    def new():
        uid[0] += 1
        return uid[0]
    highest = s.weighted([(4, 1), (5, 2), (3, 3), (1, 4)])
    nblocks = s.int(2, 9)
    phases = [s.int(0, highest) for _ in range(nblocks)]
    macros = {}       # name -> (phase, is name macro)
    helpers = {}      # name -> phase
    form = s.weighted([(4, "file"), (3, "sub"), (2, "reload"), (2, "init"), (2, "text"), (2, "tree"), (1, "list"), (1, "pyname")])
    blocks = []
    # decide which macros there are, so that uses may precede the definitions in the text
    for i, p in enumerate(phases):
        for _ in range(s.int(0, 2)):
            if p >= 1:
                macros[f"m{len(macros)}"] = [p, i, s.chance(1, 5)]
        if p >= 1 and s.chance(1, 2):
            helpers[f"h{len(helpers)}"] = [p, i]
    imported = {}      # name in use -> [lowest phase it's needed.., isname]

    def usable(p):
        """Names of macros that some block imports at phase >= p"""
        return [n for n, (q, nm) in imported.items() if q >= p]

    def expr(p, depth=0):
        u = usable(p)
        k = s.weighted([(4, "use"), (2, "const"), (1, "tup")]) if u and depth < 3 else "const"
        if k == "use":
            m = s.choice(u)
            if imported[m][1]:
                return m
            return f"{m}[{expr(p, depth + 1)}]"
        if k == "tup":
            return f"({expr(p, depth + 1)}, {expr(p, depth + 1)})"
        return s.choice(["1", "'a'", "__phase__", "len('abc')", f"{s.int(2, 99)}"])

    # imports first (they decide what is usable), placed in some block later
    imports = {}
    for i, p in enumerate(phases):
        lines = []
        if s.chance(3, 5):
            avail = [m for m, (q, _, _) in macros.items() if q > p]
            if avail:
                chosen = s.sublist(avail) or avail[:1]
                if s.chance(1, 5):
                    al = f"a{i}"
                    lines.append(f"from __self__ import macros, {chosen[0]} as {al}")
                    if not any(al == x for x in imported):
                        imported[al] = [max(p, imported.get(al, [0])[0]), macros[chosen[0]][2]]
                else:
                    lines.append("from __self__ import macros, " + ", ".join(chosen))
                    for c in chosen:
                        imported[c] = [max(p, imported.get(c, [0])[0]), macros[c][2]]
        if s.chance(1, 6):
            x = s.choice(["xm", "xn"])
            lines.append(f"from c01ext import macros, {x}")
            imported[x] = [max(p, imported.get(x, [0])[0]), False]
        if form in ("file", "sub", "reload") and s.chance(1, 8):
            if form == "sub":
                lines.append("from .sib import macros, sm")
                imported["sm"] = [max(p, imported.get("sm", [0])[0]), False]
            else:
                lines.append(f"from {PKG}.sib import macros, sm")
                imported["sm"] = [max(p, imported.get("sm", [0])[0]), False]
        if form == "init" and s.chance(1, 5):
            lines.append(s.choice(["from .subm import macros, pm", f"from {MOD}.subm import macros, pm"]))
            imported["pm"] = [max(p, imported.get("pm", [0])[0]), False]
        if s.chance(1, 25):
            lines.append("from __self__ import macros, " + s.choice(["nosuch", "NOTCALLABLE"] + [m for m, (q, _, _) in macros.items() if q <= p]))
        imports[i] = lines
    for i, p in enumerate(phases):
        lines = list(imports[i])
        mine = [m for m, (_, j, _) in macros.items() if j == i]
        for h in [h for h, (_, j) in helpers.items() if j == i]:
            lines.append(f"def {h}():\n    return ('{h}', __phase__, {expr(p)})")
        for m in mine:
            kind = s.choice(["tag", "tag", "const", "dup"])
            hs = [h for h, (q, _) in helpers.items() if q >= p]
            extra = s.choice(["None", "None"] + [f"{h}()" for h in hs] + ["COUNT"] * 1 + [expr(p)])
            if extra == "COUNT":
                extra = "globals().get('LATE')"
            deco = "@namemacro\n" if macros[m][2] else ""
            imp = "from mcpyrate import namemacro\n" if macros[m][2] else ""
            lines.append(f"{imp}{deco}def {m}(tree, *, syntax, **kw):\n    extra = {extra}\n    return run_macro('{m}', '{kind}', __phase__, tree, syntax, extra)")
        for _ in range(s.int(0, 3)):
            k = s.weighted([(5, "log"), (2, "state"), (2, "block"), (2, "cond"), (1, "ann"), (2, "look"), (1, "late"), (1, "func"), (1, "name"), (1, "sib")])
            n = new()
            if k == "log":
                lines.append(f"v{n} = {expr(p)}\nlog(__phase__, {n}, v{n})")
            elif k == "state":
                lines.append(f"try:\n    STATE{p} += 1\nexcept NameError:\n    STATE{p} = {n}\nlog(__phase__, {n}, STATE{p})")
            elif k == "block":
                bs = [b for b in usable(p) if not imported[b][1]]
                if bs:
                    lines.append(f"with {s.choice(bs)}:\n    log(__phase__, {n}, {expr(p)})")
            elif k == "cond":
                lines.append(f"if __phase__ {s.choice(['==', '>=', '<'])} {s.int(0, highest)}:\n    log(__phase__, {n}, {expr(p)})")
            elif k == "ann":
                lines.append(f"def f{n}(x: int): pass\nlog(__phase__, {n}, repr(f{n}.__annotations__['x']))")
            elif k == "look":
                lines.append("look(__name__, globals())")
            elif k == "late":
                lines.append("LATE = __phase__")
            elif k == "func":
                lines.append(f"def g{n}(): return ({expr(p)}, __phase__)\nlog(__phase__, {n}, g{n}())")
            elif k == "name" and form != "init":
                lines.append(f"log(__phase__, {n}, __name__)")
            elif k in ("sib", "name") and form == "init":
                lines.append(s.choice([f"from .subm import VALUE as w{n}", f"from . import subm as s{n}\nw{n} = s{n}.VALUE", f"import {MOD}.subm as s{n}\nw{n} = s{n}.VALUE"]) + f"\nlog(__phase__, {n}, w{n})")
            elif k == "sib" and form == "sub":
                lines.append(f"from .sib import VALUE as w{n}\nlog(__phase__, {n}, w{n})")
        if s.chance(1, 25):
            lines.append(f"boom(__phase__, {s.int(0, p)})")
        if p and not lines:
            lines.append("pass")
        blocks.append([p, lines])
    head = []
    if s.chance(1, 3):
        head.append(s.choice(["'''The docstring.'''", "'doc'"]))
    if s.chance(1, 3):
        head.append("from __future__ import annotations")
    if s.chance(1, 8):
        head.append("from __future__ import division, generator_stop")
    text = []
    for p, lines in blocks:
        body = "\n".join(lines)
        if not body:
            continue
        text.append(body if not p else f"with phase[{p}]:\n" + "\n".join("    " + x for x in body.split("\n")))
    bad = None
    if s.chance(1, 20):
        bad = s.choice(BADPHASE)
        text.insert(s.int(0, len(text)), bad + "\n" + "    " * (bad.count("    ") + 1) + "pass")
    flag = "from mcpyrate.multiphase import macros, phase"
    debug = s.chance(1, 8)
    enable = not s.chance(1, 30)
    where = s.int(0, len(text)) if s.chance(1, 3) else 0
    if enable:
        text.insert(where, flag)
    if debug:
        text.insert(s.int(0, len(text)), "from mcpyrate.debug import macros, step_phases")
    text = head + text
    return {"text": "\n".join(text) + "\n", "form": form, "bad": bad, "enable": enable, "debug": debug, "highest": highest, "old": s.chance(1, 2)}


PRELUDE = "run_macro log tag look boom".split()


def setup():
    rt = types.ModuleType("c01rt")
    for n, f in (("run_macro", run_macro), ("log", log), ("tag", tag), ("look", look), ("boom", boom)):
        setattr(rt, n, f)
    rt.pm = ext_macro("pm")
    sys.modules["c01rt"] = rt
    ext = types.ModuleType("c01ext")
    ext.xm, ext.xn = ext_macro("xm"), ext_macro("xn")
    sys.modules["c01ext"] = ext
    top = types.ModuleType("c01pkg")
    top.__path__ = []
    sys.modules["c01pkg"] = top
    pkg = top.deep = types.ModuleType(PKG)
    sib = types.ModuleType(PKG + ".sib")
    sib.sm = ext_macro("sm")
    sib.VALUE = 42
    pkg.sib = sib
    sys.modules[PKG] = pkg
    sys.modules[PKG + ".sib"] = sib


def teardown():
    for n in ["c01rt", "c01ext", "c01pkg", PKG, PKG + ".sib", MOD, PKG + "." + MOD, MOD + ".subm"]:
        sys.modules.pop(n, None)


def clean(ns):
    """The plain values of a namespace."""
    def ok(v):
        return isinstance(v, (int, str, tuple, float)) or v is None
    return {k: v for k, v in ns.items() if not k.startswith(("__", "_mcpyrate_coverage")) and ok(v)}


COUNTER = [0]


def check(case, ctx):
    # what the module needs is imported from phase `highest` on, ahead of everything but the docstring and the future-imports
    imp = f"from c01rt import {', '.join(PRELUDE)}"
    lines = case["text"].split("\n")
    i = 0
    while i < len(lines) and (lines[i].startswith("'") or "__future__" in lines[i]):
        i += 1
    lines[i:i] = [f"with phase[{case['highest']}]:", "    " + imp] if case["enable"] else [imp]
    text = "\n".join(lines)
    if not case["enable"] and "with phase[" not in text:
        return
    form = case["form"]
    name = f"{PKG}.{MOD}" if form == "sub" else MOD
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c01_{COUNTER[0]}")
    COUNTER[0] += 1
    os.makedirs(os.path.join(base, *PKG.split(".")))
    filename = os.path.join(base, *PKG.split("."), MOD + ".py") if form == "sub" else os.path.join(base, MOD, "__init__.py") if form == "init" else os.path.join(base, MOD + ".py")
    if form == "init":
        os.makedirs(os.path.join(base, MOD))
        with open(os.path.join(base, MOD, "subm.py"), "w") as f:
            f.write("from c01rt import pm\nVALUE = 77\n")
    try:
        setup()
        LOG.clear()
        fail = ns = None
        shown = {}
        try:
            if not case["enable"]:
                raise Fail("disabled")
            if form == "init":
                fake = types.ModuleType(name)
                fake.__path__ = []
                fake.subm = sys.modules[name + ".subm"] = types.ModuleType(name + ".subm")
                fake.subm.VALUE, fake.subm.pm = 77, sys.modules["c01rt"].pm
                sys.modules[name] = fake
            ns, shown, final = reference(text, name, form)
        except (Fail, Boom, NameError, TypeError) as e:
            fail = e
        finally:
            sys.modules.pop(name, None)
            sys.modules.pop(name + ".subm", None)
        want = list(LOG)
        LOG.clear()
        if isinstance(fail, (NameError, TypeError)) or isinstance(fail, Fail) and fail.args[0] == "type":
            ctx.event("reference error")   # an odd program; only the error is compared
        real_check(case, ctx, form, name, base, filename, text, fail, ns, want, shown)
    finally:
        teardown()
        shutil.rmtree(base, ignore_errors=True)


def real_check(case, ctx, form, name, base, filename, text, fail, ns, want, shown):
    pkg = sys.modules[PKG]
    pkg.__path__ = [os.path.join(base, *PKG.split("."))]
    err = mod = old = None
    out = io.StringIO()
    WHERE[:] = name if form == "init" else name.rpartition(".")[0], filename if form in ("file", "sub", "reload", "init", "pyname") else "<c01>", None
    if form == "sub" and case["old"]:
        WHERE[2] = pkg.c01mod = types.ModuleType("older")
    elif hasattr(pkg, MOD):
        del pkg.c01mod
    sys.path.insert(0, base)
    importlib.invalidate_caches()
    before = set(sys.modules)
    try:
        with contextlib.redirect_stderr(out):
            if form in ("file", "sub", "reload", "init"):
                dwb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
                activate.activate()
                try:
                    with open(filename, "w") as f:
                        f.write("VERSION = 1\n" if form == "reload" else text)
                    if form == "reload":
                        old = importlib.import_module(name)
                        with open(filename, "w") as f:
                            f.write(text)
                        mod = importlib.reload(old)
                    else:
                        mod = importlib.import_module(name)
                finally:
                    activate.deactivate()
                    sys.dont_write_bytecode = dwb
            else:
                old = compiler.create_module(name, filename=filename if form == "pyname" else "<c01>")
                src = text if form in ("text", "pyname") else ast.parse(text) if form == "tree" else ast.parse(text).body
                mod = compiler.run(src, old)
    except Exception as e:
        err = e
    finally:
        sys.path.remove(base)
    got = list(LOG)
    ncalls = sum(e[0] == "macro" for e in want)
    ctx.nontrivial_case(ncalls >= 3 and len(shown) >= 2)
    ctx.event("form " + form)
    ctx.event(f"phases {len(shown)}")
    ctx.event("macro calls", ncalls)
    ctx.event("statement records", len(want) - ncalls)
    # sys.modules is as it was
    here = sys.modules.get(name)
    if old is not None:
        require(here is old, lambda: f"sys.modules[{name!r}] is {here!r}, not the module that was there ({err!r})")
    elif err is None:
        require(here is mod, lambda: f"sys.modules[{name!r}] is {here!r}, not the imported module")
    else:
        require(here is None, lambda: f"sys.modules[{name!r}] is {here!r} after a failed import ({err!r})")
    if fail is not None:
        kind = fail.args[0] if isinstance(fail, Fail) else type(fail).__name__
        ctx.event("fails: " + str(kind))
        require(err is not None, lambda: f"no error; expected {fail!r}")
        chain, e = [], err
        while e is not None:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if kind == "import":
            require(any(isinstance(x, ImportError) for x in chain), lambda: f"error {err!r}, expected an ImportError")
        elif kind == "phase":
            require(any(isinstance(x, SyntaxError) for x in chain), lambda: f"error {err!r}, expected a SyntaxError")
        elif kind == "Boom":
            require(any(isinstance(x, Boom) for x in chain), lambda: f"error {err!r}, expected {fail!r}")
            require(got == want, lambda: first_diff(want, got))
        return
    require(err is None, lambda: f"unexpected error {err!r}, cause {err.__cause__!r}\n{text}")
    require(got == want, lambda: first_diff(want, got))
    a, b = clean(ns), clean(mod.__dict__)
    b.pop("VERSION", None)
    require(a == b, lambda: f"final namespace: {[(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]}")
    require(mod.__phase__ == 0, lambda: f"final __phase__ is {mod.__phase__!r}")
    doc = ast.get_docstring(ast.parse(text), clean=False)
    require(mod.__doc__ == doc, lambda: f"docstring {mod.__doc__!r}, expected {doc!r}")
    extra = {n for n in set(sys.modules) - before if n.startswith(("c01", "dynamically"))} - {name, name + ".subm"}
    require(not extra, lambda: f"left in sys.modules: {extra}")
    subm = sys.modules.get(name + ".subm")
    if subm is not None:
        require(getattr(mod, "subm", None) is subm, lambda: f"the package has no attribute for its submodule; subm = {getattr(mod, 'subm', None)!r}")
    if form == "sub":
        require(getattr(pkg, MOD) is mod, "the parent package does not refer to the final module")
    # debug mode
    txt = re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())
    if not case["debug"]:
        require(txt == "", lambda: f"output without step_phases: {txt[:200]!r}")
    else:
        ctx.event("step_phases")
        parts = re.split(r"\*\*AST for PHASE (\d+) of module .*\n", txt)
        got_p = [int(x) for x in parts[1::2]]
        require(got_p == sorted(shown, reverse=True), lambda: f"phases shown {got_p}, expected {sorted(shown, reverse=True)}")
        for k, part in zip(got_p, parts[2::2]):
            if k and not shown[k]:
                continue
            gutter = lambda t: [y for y in (re.sub(r"^(L[ 0-9-]{5}|LINENO) ?", "", x).strip() for x in t.split("\n")) if y and not y.startswith("__phase__ =")]  # noqa: E731
            a = "\n".join(gutter(unparser.unparse(ast.Module(body=shown[k], type_ignores=[]), debug=True)))
            b = "\n".join(gutter(part))
            require(a == b, lambda: f"phase {k} shown as: " + diff(a, b))


def first_diff(want, got):
    for i in range(max(len(want), len(got))):
        w = want[i] if i < len(want) else None
        g = got[i] if i < len(got) else None
        if w != g:
            return f"event {i}: got {g}\nexpected {w}\nbefore: {want[max(0, i - 2):i]}"
    return ""


TESTS = [Test("phases", cases(), check, quick=9000, thorough=200000)]
