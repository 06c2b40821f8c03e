"""Activation and deactivation of the import hooks."""

import importlib
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import warnings

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, isolated, require
from harness.sut import activate, compiler

PROPERTY = "A01"
RULE = ("Cases: sequences of up to 25 operations in a new process: `activate`, `deactivate` (repeated, and called by modules in the midst of being imported, around the import of others), imports of modules that use macros (expression, block, name, phases), dialects (of the tree, of the text), "
        "or neither, of packages and their submodules, by `import`, by a file loader of the user's own (subclass, no `.py` ending, explicit name), reloads, imports that fail (syntax error, macro error, error at run time), and run-time compilation. Some processes had import hooks of another tool before mcpyrate came. "
        "After each operation, the hooks, what was expanded, the error and its traceback, and the cache files written are those the state implies; at the end everything imported still works. Non-trivial: an import while active and an import while inactive.")
ASSUMPTIONS = ["bytecode that was cached in one state is not removed when the state changes (documented as bytecode caching), so each module file is imported in one state, unless bytecode is not written", "mcpyrate.activate itself is not reloaded"]

KINDS = ["expr", "block", "name", "phase", "dialect", "text", "plain", "package", "chain", "toggle_off", "toggle_on", "toggle_fail", "syntax", "runtime", "macrofail", "missing", "lambda"]
HOW = ["import", "import", "import", "from", "loader", "subclass", "noext", "spec", "find"]
LIB = '''
import ast
from mcpyrate.dialects import Dialect
import mcpyrate
CALLS = []
class Both:
    """What a macro and its use look like without macro expansion."""
    def __init__(self, f): self.f = f; self.__name__ = f.__name__; self.__qualname__ = f.__qualname__; self.__module__ = f.__module__
    def __call__(self, *a, **k): CALLS.append(self.__name__); return self.f(*a, **k)
    def __getitem__(self, x): return ("raw", x)
    def __enter__(self): return self
    def __exit__(self, *a): pass
macros = dialects = None
@Both
def mac(tree, **kw): return ast.Tuple(elts=[ast.Constant(value="expanded"), tree], ctx=ast.Load())
@Both
def blk(tree, **kw): return ast.parse("R = 'expanded'").body + tree
@Both
@mcpyrate.namemacro
def nam(tree, **kw): return ast.Constant(value="expanded")
mcpyrate.namemacro(nam)
@Both
def bad(tree, **kw): raise ValueError("bad")
class Dia(Dialect):
    def transform_ast(self, tree): CALLS.append("Dia"); tree.body.extend(ast.parse("R = 'expanded'").body); return tree
class Txt(Dialect):
    def transform_source(self, text): CALLS.append("Txt"); return text.replace("'plain'", "'expanded'")
'''
# what a module of each kind looks like, and the value of its `result()` in each state
SOURCES = {
    "expr": ("from a01lib import macros, mac\ndef result(): return mac[42]", ("expanded", 42), ("raw", 42)),
    "block": ("from a01lib import macros, blk\nR = 'raw'\nwith blk:\n    pass\ndef result(): return R", "expanded", "raw"),
    "name": ("from a01lib import macros, nam\ndef result(): return nam if isinstance(nam, str) else 'raw'", "expanded", "raw"),
    "phase": ("class phase:\n    def __class_getitem__(cls, x): return open(__file__)\nfrom a01mp import macros, phase\nfrom a01lib import macros, mac\nwith phase[1]:\n    import a01lib\n    from a01lib import macros, mac\n    Y = mac[1]\n    mine = a01lib.Both(lambda tree, **kw: a01lib.ast.Constant(value=(Y, 'expanded')))\n"
              "import sys\nif '__phase__' not in globals(): globals()['macros'] = None; sys.modules['__self__'] = sys.modules[__name__]\nfrom __self__ import macros, mine\ndef result(): return mine[0]", None, ("raw", 0)),
    "dialect": ("from a01lib import dialects, Dia\nR = 'raw'\ndef result(): return R", "expanded", "raw"),
    "text": ("from a01lib import dialects, Txt\ndef result(): return 'plain'", "expanded", "plain"),
    "plain": ("'''Doc.'''\ndef result(): return __doc__", "Doc.", "Doc."),
    "lambda": ("from a01lib import macros, mac as m2\nresult = lambda: [m2[x] for x in range(2)]", [("expanded", 0), ("expanded", 1)], [("raw", 0), ("raw", 1)]),
    "syntax": ("from a01lib import macros, mac\nx = = 1", None, None),
    "runtime": ("from a01lib import macros, mac\nR = mac[1]\nraise RuntimeError(R[0])", None, None),
    "macrofail": ("from a01lib import macros, bad\nR = bad[1]\nraise RuntimeError('raw')", None, None),
    "missing": ("from a01lib import macros, nosuch\nresult = nosuch", None, None),
}
del SOURCES["phase"]
SOURCES["phase"] = ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    from a01lib import macros, mac\n    Y = mac[1]\n    import ast\n    def mine(tree, **kw): return ast.Constant(value=Y)\n"
                    "from __self__ import macros, mine\ndef result(): return mine[0]", ("expanded", 1), None)


@st.composite
def cases(draw):
    s = pygen.Src(draw)
    ops = []
    for _ in range(s.int(2, 25)):
        k = s.weighted([(2, "activate"), (3, "deactivate"), (8, "import"), (2, "reload"), (1, "run"), (1, "again")])
        if k == "import":
            ops.append([k, s.choice(KINDS), s.choice(HOW), s.choice(KINDS[:7])])
        elif k == "reload":
            ops.append([k, s.int(0, 9)])
        else:
            ops.append([k])
    return {"ops": ops, "write": s.chance(1, 2), "foreign": s.chance(1, 6)}


def foreign_source_to_code(self, data, path, *, _optimize=-1):
    code = _original(self, data, path, _optimize=_optimize)
    FOREIGN.append(os.path.basename(path))
    return code


FOREIGN = []
_original = activate.stdlib_source_to_code
_original_stats = activate.stdlib_path_stats


def show(e):
    return f"{type(e).__name__}: {e}"[:200]


def through_mcpyrate(e):
    """Does any traceback of `e` or what led to it go through mcpyrate?"""
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        tb = e.__traceback__
        while tb:
            if f"{os.sep}mcpyrate{os.sep}" in tb.tb_frame.f_code.co_filename:
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def child(case, base):
    warnings.simplefilter("ignore")
    Loader = importlib.machinery.SourceFileLoader
    for m in ("quotes", "multiphase", "debug", "metatools"):
        importlib.import_module("mcpyrate." + m)
    sys.path.insert(0, base)
    sys.dont_write_bytecode = not case["write"]
    with open(os.path.join(base, "a01lib.py"), "w") as f:
        f.write(LIB)
    act = activate
    if case["foreign"]:
        # another tool's hook is there before mcpyrate is activated for the first time
        Loader.source_to_code = foreign_source_to_code
        del sys.modules["mcpyrate.activate"]
        act = importlib.import_module("mcpyrate.activate")
        require(Loader.source_to_code is not foreign_source_to_code, "importing mcpyrate.activate does not activate")
        act.deactivate()
        require(Loader.source_to_code is foreign_source_to_code, "deactivate does not restore the hook that was there before mcpyrate")
    plain = (Loader.source_to_code, Loader.path_stats)
    require(plain == ((foreign_source_to_code if case["foreign"] else _original), _original_stats), "the hooks are not Python's own at the start")
    others = {k: v for k, v in vars(Loader).items() if k not in ("source_to_code", "path_stats", "__doc__")}
    inherited = {k: getattr(Loader, k) for k in dir(Loader) if k not in ("source_to_code", "path_stats") and not k.startswith("__")}
    import a01lib
    active = False
    n = [0]
    loaded = []     # (module name or module, kind, value it must give)
    events = []

    def invariant(when):
        require(((Loader.source_to_code, Loader.path_stats) == plain) is (not active), lambda: f"{when}: hooks are {'not ' if active else ''}active")
        require({k: v for k, v in vars(Loader).items() if k in others} == others, lambda: f"{when}: other attributes of the loader changed")
        require({k: getattr(Loader, k) for k in inherited} == inherited, lambda: f"{when}: other attributes of the loader changed")

    def fresh(kind):
        n[0] += 1
        return f"a01m{n[0]}_{kind}"

    def put(name, text, ext=".py"):
        path = os.path.join(base, name.replace(".", os.sep) + ext)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text + "\n")
        importlib.invalidate_caches()
        return path

    def load(name, path, how):
        if how == "import":
            return importlib.import_module(name)
        if how == "from":
            ns = {}
            exec(f"from {name} import result", ns)
            return sys.modules[name]
        cls = type("Mine", (Loader,), {}) if how == "subclass" else Loader
        if how in ("loader", "subclass", "noext"):
            spec = importlib.util.spec_from_file_location(name, path, loader=cls(name, path))
        elif how == "spec":
            spec = importlib.util.spec_from_file_location(name, path)
        else:
            spec = importlib.util.find_spec(name)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        try:
            spec.loader.exec_module(m)
        except BaseException:
            del sys.modules[name]
            raise
        return m

    def one(kind, how, inner, when):
        """Import a module; judge. `inner`: kind of the module that this one imports, for some kinds."""
        nonlocal active
        events.append(f"{kind} {'active' if active else 'inactive'}")
        name = fresh(kind)
        before = active
        own = kind if kind in SOURCES else "expr"
        text, want_on, want_off = SOURCES[own]
        others = []
        if kind in ("package", "chain", "toggle_off", "toggle_on", "toggle_fail"):
            inner = inner if inner != "phase" or active else "expr"
            other = fresh(inner)
            pre = "" if not kind.startswith("toggle") else f"import mcpyrate.activate as act__\nact__.{'activate' if kind == 'toggle_on' else 'deactivate'}()\n"
            itext = SOURCES[inner][0]
            if kind == "package":
                put(name + ".sub", itext)
                name_path = put(name + ".__init__", text)
                other = name + ".sub"
            else:
                put(other, itext)
                inner_state = before if kind == "chain" else kind == "toggle_on"
                if inner == "phase" and not inner_state:
                    inner = "expr"
                    put(other, SOURCES["expr"][0])
                text = pre + f"import {other} as other__\n" + text + (f"\nact__.{'activate' if kind == 'toggle_off' else 'deactivate'}()" if kind in ("toggle_off", "toggle_on") else "")
                if kind == "toggle_fail":
                    text += "\nraise RuntimeError('toggle')"
                others.append((other, inner, inner_state))
                name_path = put(name, text)
            how = "import" if how in ("noext", "from") or kind == "package" else how
        else:
            name_path = put(name, text, ".mcp" if how == "noext" else ".py")
            if how == "noext":
                how = "loader"
        fails = kind in ("syntax", "runtime", "missing") or kind == "macrofail" or kind == "toggle_fail" or (own == "phase" and not active)
        calls, foreign = len(a01lib.CALLS), len(FOREIGN)
        err = m = None
        try:
            m = load(name, name_path, how)
        except Exception as e:
            err = e
        if kind.startswith("toggle"):
            active = kind == "toggle_off"
        invariant(when)
        if fails:
            require(err is not None, lambda: f"{when}: import of a module that cannot be imported gives no error")
            if before or kind == "toggle_on":
                want = {"syntax": "SyntaxError", "runtime": "expanded", "macrofail": "bad", "missing": "nosuch", "toggle_fail": "toggle"}.get(kind, "")
            else:
                require(not through_mcpyrate(err), lambda: f"{when}: traceback of {show(err)} goes through mcpyrate, which is not active")
                want = {"syntax": "SyntaxError", "runtime": "raw", "macrofail": "raw", "missing": "nosuch", "toggle_fail": "toggle"}.get(kind, "")
            chain = []
            e = err
            while e is not None and len(chain) < 9:
                chain.append(show(e))
                e = e.__cause__ or e.__context__
            require(any(want in x for x in chain), lambda: f"{when}: error {chain}, expected {want}")
        else:
            require(err is None, lambda: f"{when}: import fails: {show(err)}, because of {err.__cause__!r}")
            want = want_on if before else want_off
            got = m.result()
            require(got == want, lambda: f"{when}: result {got!r}, expected {want!r}")
            loaded.append((m, name, own, want))
            if kind == "package":
                sub = importlib.import_module(other)
                want = SOURCES[inner][1 if active else 2]
                require(sub.result() == want, lambda: f"{when}: submodule gives {sub.result()!r}, expected {want!r}")
                loaded.append((sub, other, inner, want))
        for other, inner, state in others:
            sub = sys.modules[other]
            want = SOURCES[inner][1 if state else 2]
            require(sub.result() == want, lambda: f"{when}: module {inner} that it imported while {'active' if state else 'inactive'} gives {sub.result()!r}, expected {want!r}")
            loaded.append((sub, other, inner, want))
        if not before and kind not in ("toggle_on", "toggle_off"):
            require(len(a01lib.CALLS) == calls, lambda: f"{when}: macros or dialects were called while inactive: {a01lib.CALLS[calls:]}")
            if not kind.startswith("toggle"):
                left = [f for _, _, fs in os.walk(base) for f in fs if name.split(".")[-1] in f and f.endswith(".pickle")]
                require(not left, lambda: f"{when}: wrote {left} while inactive")
            if case["foreign"] and kind not in ("package", "chain", "toggle_fail"):
                require(len(FOREIGN) == foreign + (kind != "syntax"), lambda: f"{when}: the other tool's hook was called {FOREIGN[foreign:]}")

    invariant("at the start")
    for i, op in enumerate(case["ops"]):
        when = f"operation {i} {op}"
        if op[0] == "activate":
            require(act.activate() is None, "value of activate()")
            active = True
        elif op[0] == "deactivate":
            require(act.deactivate() is None, "value of deactivate()")
            active = False
        elif op[0] == "import":
            kind, inner = op[1], op[3]
            if kind == "phase" and not active:
                kind = "block"
            one(kind, op[2], inner, when)
        elif op[0] == "reload" and loaded and not case["write"]:
            m, name, kind, want = loaded[op[1] % len(loaded)]
            if kind == "phase" and not active or not hasattr(m, "__spec__") or sys.modules.get(name) is not m:
                continue
            src = open(m.__file__).read()
            if "act__" in src or "other__" in src or m.__file__.endswith(".mcp"):
                continue
            importlib.reload(m)
            want = SOURCES[kind][1 if active else 2]
            require(m.result() == want, lambda: f"{when}: after reload of {name}, result {m.result()!r}, expected {want!r}")
            loaded[op[1] % len(loaded)] = (m, name, kind, want)
            events.append("reload")
        elif op[0] == "run":
            # explicit run-time compilation does not depend on the state; what it imports does
            other = fresh("expr")
            put(other, SOURCES["expr"][0])
            ns = compiler.run(f"from a01lib import macros, mac\nimport {other}\nX = mac[1]\nY = {other}.result()")
            require(ns.X == ("expanded", 1), lambda: f"{when}: run gives {ns.X!r}")
            require(ns.Y == SOURCES["expr"][1 if active else 2], lambda: f"{when}: module imported by run-time code gives {ns.Y!r}")
            loaded.append((sys.modules[other], other, "expr", ns.Y))
            events.append("run")
        elif op[0] == "again":
            exec("import mcpyrate.activate\nfrom mcpyrate import activate\nimport mcpyrate.importer")
        invariant(when)
    for m, name, kind, want in loaded:
        require(m.result() == want, lambda: f"at the end: {name} gives {m.result()!r}, expected {want!r}")
    act.deactivate()
    active = False
    invariant("at the end")
    return events


COUNTER = [0]


def check(case, ctx):
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"a01_{COUNTER[0]}")
    COUNTER[0] += 1
    os.makedirs(base)
    try:
        events = isolated(child, case, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for e in events:
        ctx.event(e)
    ctx.nontrivial_case(any(e.endswith(" active") for e in events) and any(e.endswith(" inactive") for e in events))


TESTS = [Test("history", cases(), check, quick=4000, thorough=100000)]
