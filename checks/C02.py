"""Run-time compilation behaves like a module's own code."""

import ast
import builtins
import copy
import re
import sys
import types

from hypothesis import strategies as st

from harness import pygen
from harness.core import Reject, Test, require
from harness.sut import compiler, dialects, diff, dump, unparser

PROPERTY = "C02"
RULE = ("'sequence': up to twelve operations (create_module with and without names, file names and parents; run in a new, named, given, missing or invalid module; temporary_module blocks with operations inside, left "
        "normally or by an exception; removal of modules) on generated snippets (state, docstrings, future-imports, relative imports, macros, dialects, phases, macros defined by earlier snippets, failures), given as text, bytes, tree, statement list, located or not, "
        "compiled code, or expanded tree. After every operation the namespaces, sys.modules, the parent packages' attributes and the module attributes must be those of a model that executes hand-expanded snippets. "
        "'compile': the code object of generated macro-free programs, as text, bytes, tree or list, with each optimization setting, must be the one that Python's compile gives. Non-trivial: at least three runs / ten nodes.")
ASSUMPTIONS = ["only modules of the generated names are created or removed"]

PARENTS = ["c02p", "c02p.q"]
NAMES = ["c02a", "c02b", "c02p.s", "c02p.q.t"]


class Boom(Exception):
    pass


def mt(tree, *, syntax, **kw):
    """Tags an expression, doubles a block."""
    if syntax == "block":
        return tree + copy.deepcopy(tree)
    return ast.Tuple(elts=[ast.Constant(value="mt"), tree], ctx=ast.Load())


class AddsStatement(dialects.Dialect):
    def transform_ast(self, tree):
        tree.body.append(ast.parse("ADDED = globals().get('ADDED', 0) + 1").body[0])
        return tree


class Surface(dialects.Dialect):
    def transform_source(self, text):
        return text.replace("<<three>>", "3")


def setup():
    lib = types.ModuleType("c02lib")
    lib.mt, lib.AddsStatement, lib.Surface, lib.Boom, lib.VALUE = mt, AddsStatement, Surface, Boom, 5
    sys.modules["c02lib"] = lib
    for p in PARENTS:
        m = types.ModuleType(p)
        m.__path__ = []
        sys.modules[p] = m
        if "." in p:
            sys.modules["c02p"].q = m
        sib = types.ModuleType(p + ".sib")
        sib.VALUE = p
        sys.modules[p + ".sib"] = m.sib = sib


def teardown():
    for n in list(sys.modules):
        if n.startswith(("c02", "dynamically_created_module_")):
            del sys.modules[n]


# ---------------------------------------------------------------- snippets: pairs of a macro-enabled line and what it means
def snippet(s, dotted, defs):
    """Lines of a snippet, and of the hand-expanded one. As many lines in both."""
    a, b = [], []
    flags = {"surface": False, "added": 0, "doc": None, "boom": False, "phases": False, "relative": False, "imports": None}

    def add(x, y=None):
        a.append(x)
        b.append(x if y is None else y)
    if s.chance(1, 3):
        flags["doc"] = s.choice(["Doc.", "d\u00e9j\u00e0", ""])
        add(repr(flags["doc"]))
    if s.chance(1, 5):
        add("from __future__ import annotations")
    phases = s.chance(1, 6)
    if phases:
        flags["phases"] = True
        add("from mcpyrate.multiphase import macros, phase", "__phase__ = 0; import mcpyrate.multiphase")
    if s.chance(1, 2):
        add("from c02lib import macros, mt", "import c02lib")
        macros = True
    else:
        macros = False
    if s.chance(1, 8):
        flags["added"] += 1
        add("from c02lib import dialects, AddsStatement", "import c02lib")
    if defs and s.chance(1, 3):
        d = s.choice(defs)
        flags["imports"] = d
        add(f"from {d} import macros, dm", f"import {d}")
    n = [0]

    def expr(depth=0):
        k = s.weighted([(3, "const"), (2, "state"), (4 if macros else 0, "mt"), (3 if flags["imports"] else 0, "dm"), (1, "tup")]) if depth < 3 else "const"
        if k == "mt":
            x, y = expr(depth + 1)
            return f"mt[{x}]", f"('mt', {y})"
        if k == "dm":
            x, y = expr(depth + 1)
            return f"dm[{x}]", f"['dm', {y}]"
        if k == "tup":
            (x, y), (u, v) = expr(depth + 1), expr(depth + 1)
            return f"({x}, {u})", f"({y}, {v})"
        if k == "state":
            v = s.choice(["globals().get('COUNT')", "globals().get('x1')", "__name__", "__file__", "__package__", "__doc__"])
            return v, v
        c = s.choice(["1", "'s'", "None", "2.5"])
        return c, c
    for _ in range(s.int(1, 5)):
        k = s.weighted([(4, "set"), (2, "count"), (1, "func"), (2 if macros else 0, "block"), (1, "ann"), (1, "phase"), (1, "defmacro"), (2, "rel"), (1, "boom"), (1, "del"), (1, "assert"), (1, "multi"), (1, "setdoc"), (1, "surface")])
        n[0] += 1
        i = n[0]
        if k == "set":
            x, y = expr()
            add(f"x{s.int(0, 3)} = {x}", None)
            b[-1] = a[-1].split("=")[0] + "= " + y
        elif k == "count":
            add("COUNT = globals().get('COUNT', 0) + 1")
        elif k == "func":
            x, y = expr()
            add(f"def f{i}():")
            add(f"    return {x}", f"    return {y}")
            add(f"r{i} = f{i}()")
        elif k == "block":
            x, y = expr()
            add("with mt:", "for _ in range(2):")
            add("    COUNT = globals().get('COUNT', 0) + 1")
            add(f"    x2 = {x}", f"    x2 = {y}")
        elif k == "ann":
            add("def g(x: int): pass")
            add("y = repr(g.__annotations__['x'])")
        elif k == "phase" and phases:
            add("with phase[1]:", "if 1:")
            add(f"    ph{i} = ('p', __phase__)")
        elif k == "defmacro":
            add("import ast")
            add("def dm(tree, **kw):")
            add("    return ast.List(elts=[ast.Constant(value='dm'), tree], ctx=ast.Load())")
        elif k == "rel" and dotted:
            flags["relative"] = True
            add(s.choice(["from .sib import VALUE as sv", "from . import sib\nsv = sib.VALUE" if False else "from . import sib as sv"]))
        elif k == "boom" and s.chance(1, 3):
            flags["boom"] = True
            add("raise __import__('c02lib').Boom(COUNT if 'COUNT' in globals() else 0)")
            break
        elif k == "del":
            add("globals().pop('x1', None)")
        elif k == "assert":
            add("x3 = (__debug__, 7)")
        elif k == "multi":
            add("x0 = '''a")
            add("b'''; x1 = 3")
        elif k == "setdoc" and s.chance(1, 3):
            add("__doc__ = 'changed'")
        elif k == "surface" and not flags["surface"]:
            flags["surface"] = True
    return {"a": a, "b": b, "flags": flags}


@st.composite
def sequences(draw):
    s = pygen.Src(draw)
    defs = ["c02a", "c02b"] if s.chance(2, 3) else []
    made = []

    def ops(depth=0):
        out = []
        for _ in range(s.int(3, 12) if depth == 0 else s.int(1, 4)):
            k = s.weighted([(3, "create"), (10, "run"), (1, "drop"), (2 if depth < 2 else 0, "temp"), (1, "badcreate"), (1, "badrun"), (1, "expand"), (1, "dropparent"), (1, "rerun")])
            if k == "create":
                made.append(s.choice([None] + NAMES * 2))
                out.append(["create", made[-1], s.choice([None, None, "descr", "/nowhere/x.py"]), s.chance(2, 3)])
            elif k == "run":
                name = s.choice(made * 3 + NAMES[:1] + [None])
                how = s.choice(["name", "object", "object"])
                sn = snippet(s, name is not None and "." in name, defs)
                if name in defs and s.chance(2, 3):
                    add = ["import ast", "def dm(tree, **kw):", "    return ast.List(elts=[ast.Constant(value='dm'), tree], ctx=ast.Load())"]
                    sn["a"] += add
                    sn["b"] += add
                form = s.choice(["text", "text", "bytes", "tree", "list", "bare", "code", "expanded"])
                if sn["flags"]["surface"]:
                    form = s.choice(["text", "bytes"])
                    j = 1 if sn["flags"]["doc"] is not None else 0
                    j += sum("__future__" in x for x in sn["a"][j:j + 1])
                    sn["a"].insert(j, "from c02lib import dialects, Surface")
                    sn["b"].insert(j, "import c02lib")
                    sn["a"].insert(j + 1, "x1 = <<three>>")
                    sn["b"].insert(j + 1, "x1 = 3")
                out.append(["run", name, how, form, sn, s.choice([-1, -1, 0, 1, 2])])
            elif k == "rerun":
                sn = snippet(s, False, [])
                if not sn["flags"]["surface"] and not sn["flags"]["boom"]:
                    out.append(["rerun", s.choice(made + ["c02a"]), sn, s.choice(["tree", "list", "bare"]), s.int(2, 3)])
            elif k == "expand":
                out.append(["expand", snippet(s, False, []), s.choice(["text", "tree", "list"])])
            elif k == "drop":
                out.append(["drop", s.choice(NAMES)])
            elif k == "dropparent":
                out.append(["dropparent", s.choice(["remove", "restore"])])
            elif k == "temp":
                made.append(s.choice([None] + NAMES * 2))
                out.append(["temp", made[-1], s.choice([None, "descr", "/nowhere/t.py"]), s.chance(2, 3), ops(depth + 1), s.choice([None, None, "Boom", "KeyboardInterrupt"])])
            elif k == "badcreate":
                out.append(["badcreate", s.int(0, 8)])
            elif k == "badrun":
                out.append(["badrun", s.int(0, 9), s.choice(made + ["c02a"])])
        return out
    return {"ops": ops()}


# ---------------------------------------------------------------- the model
class ModelModule:
    def __init__(self, name, filename, package):
        self.name, self.filename, self.package = name, filename, package
        self.doc = None
        self.ns = {"__name__": name, "__file__": filename, "__package__": package, "__doc__": None}
        self.real = None
        self.lines = {}     # function name -> line


class World:
    def __init__(self, ctx):
        self.mods = {}      # name -> ModelModule, for what is in sys.modules
        self.attrs = {}     # (parent, child) -> ModelModule
        self.all = []       # every module ever created
        self.parents = {p: sys.modules[p] for p in PARENTS}
        self.ctx = ctx
        self.runs = 0


def modulelike(real):
    return {k: v for k, v in real.__dict__.items()}


def plain(v, world):
    """A comparable rendering of a namespace value."""
    if isinstance(v, types.FunctionType):
        return ("function", v.__name__)
    if isinstance(v, types.ModuleType):
        return ("module", v.__name__)
    if isinstance(v, (tuple, list)):
        return type(v)(plain(x, world) for x in v)
    return v


def autoname(x):
    return re.sub(r"dynamically_created_module_\w+|<dynamically created module \w+>", "AUTO", x) if isinstance(x, str) else type(x)(autoname(y) for y in x) if isinstance(x, (tuple, list)) else x


SKIP = {"__builtins__", "__spec__", "__loader__", "_mcpyrate_coverage", "__annotations__", "__name__", "__file__", "__package__", "__doc__", "_"}


def compare(world, where):
    """All of the state against the model."""
    for m in world.all:
        real = m.real
        for attr, want in (("__name__", m.name), ("__file__", m.filename), ("__package__", m.package)):
            got = real.__dict__.get(attr)
            if m.name is None and attr == "__name__":
                require(isinstance(got, str) and got.startswith("dynamically_created_module_"), lambda: f"{where}: name {got!r}")
            elif attr == "__file__" and want is None:
                require(isinstance(got, str) and "dynamically created" in got and (m.name is None or m.name in got), lambda: f"{where}: file name {got!r}")
            else:
                require(got == want, lambda: f"{where}: {attr} is {got!r}, expected {want!r}")
        require(real.__dict__.get("__doc__") == m.ns["__doc__"], lambda: f"{where}: docstring {real.__dict__.get('__doc__')!r}, expected {m.ns['__doc__']!r}")
        a = {k: autoname(plain(v, world)) for k, v in m.ns.items() if k not in SKIP}
        b = {k: autoname(plain(v, world)) for k, v in real.__dict__.items() if k not in SKIP}
        require(a == b, lambda: f"{where}: namespace of {m.name}: {[(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k) or (k in a) != (k in b)]}")
        for f, line in m.lines.items():
            fn = real.__dict__.get(f)
            if fn is not None:
                require(fn.__code__.co_firstlineno == line, lambda: f"{where}: {f} is at line {fn.__code__.co_firstlineno}, expected {line}")
    for name in NAMES:
        real = sys.modules.get(name)
        want = world.mods.get(name)
        require((real is None) == (want is None), lambda: f"{where}: sys.modules[{name!r}] is {real!r}, expected {'nothing' if want is None else 'a module'}")
        require(want is None or real is want.real, lambda: f"{where}: sys.modules[{name!r}] is another module")
    for name, m in world.mods.items():
        require(sys.modules.get(name) is m.real, lambda: f"{where}: sys.modules[{name!r}] is {sys.modules.get(name)!r}")
    extra = {n for n in sys.modules if n.startswith("dynamically_created_module_")} - set(world.mods)
    require(not extra, lambda: f"{where}: left in sys.modules: {extra}")
    for name in NAMES:
        if "." in name:
            parent, child = name.rsplit(".", 1)
            got = getattr(world.parents[parent], child, None)
            want = world.attrs.get((parent, child))
            require(got is (want.real if want else None), lambda: f"{where}: attribute {child} of {parent} is {got!r}, expected {want and want.real!r}")


def model_create(world, name, filename, update):
    if name is not None and "." in name and name.rsplit(".", 1)[0] not in sys.modules:
        return None
    m = ModelModule(name, filename, name.rsplit(".", 1)[0] if name is not None and "." in name else None)
    if name is not None and "." in name and update:
        world.attrs[tuple(name.rsplit(".", 1))] = m
    return m


def created(world, m, real):
    """The real module exists now: put it into the model."""
    m.real = real
    m.ns["__name__"] = real.__name__
    m.ns["__file__"] = real.__file__
    world.mods[real.__name__] = m
    world.all.append(m)


def bare(tree):
    for n in ast.walk(tree):
        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            if hasattr(n, a):
                delattr(n, a)
    return tree


def runnable(world, sn):
    """The snippet macro-imports only from modules that define the macro by now."""
    d = sn["flags"]["imports"]
    return d is None or (d in world.mods and callable(world.mods[d].ns.get("dm")))


def has_location(form):
    return form not in ("bare",)


def model_run(world, m, sn, form, optimize, filename):
    """Execute the hand-expanded snippet in the model's namespace. Returns the exception, if any."""
    text = "\n".join(sn["b"]) + "\n"
    f = sn["flags"]
    m.ns["__doc__"] = None if form in ("code", "expanded") and False else f["doc"]
    if form == "code":
        m.ns["__doc__"] = None
    code = compile(text, filename or "f", "exec", dont_inherit=True, optimize=optimize)
    err = None
    world.runs += 1
    try:
        exec(code, m.ns)
        for _ in range(f["added"]):
            m.ns["ADDED"] = m.ns.get("ADDED", 0) + 1
    except Exception as e:
        err = e
    if f["phases"]:
        m.ns["__phase__"] = 0
    return err


def source_of(sn, form, filename):
    text = "\n".join(sn["a"]) + "\n"
    if form == "text":
        return text, text
    if form == "bytes":
        return ("# -*- coding: latin-1 -*-\n" + text).encode("latin-1"), "#\n" + text
    tree = ast.parse(text)
    if form == "bare" and not (filename or "").endswith(".py"):
        bare(tree)
    seen = text if (filename or "").endswith(".py") else unparser.unparse(tree)
    return (tree.body if form == "list" else tree), seen


def set_lines(m, sn, seen, real, err):
    if sn["flags"]["phases"]:
        return
    for i, line in enumerate(seen.split("\n")):
        k = re.match(r"def (f\d+)\(", line)
        if k and err is None:
            m.lines[k.group(1)] = i + 1


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def do_run(world, op, where):
    _, name, how, form, sn, optimize = op
    if not runnable(world, sn):
        return
    target = world.mods.get(name) if name is not None else None
    if name is not None and target is None:
        # not there: an error, and nothing else happens
        _, err = attempt(lambda: compiler.run("x = 1", name))
        require(isinstance(err, ModuleNotFoundError) and name in str(err), lambda: f"{where}: running in a missing module gave {err!r}")
        return
    if name is not None and "." in name and sn["flags"]["relative"] and name.rsplit(".", 1)[0] not in sys.modules:
        return
    if sn["flags"]["phases"] and name is not None and "." in name and name.rsplit(".", 1)[0] not in sys.modules:
        return
    if name is None and (sn["flags"]["relative"]):
        return
    if sn["flags"]["phases"] and name is not None and sn["flags"]["imports"] == name:
        return      # while phases are compiled, that is the module of the previous phase
    filename = target.real.__file__ if target else "<auto>"
    src, seen = source_of(sn, form, filename)
    before = copy.deepcopy(src) if form in ("tree", "list", "bare") else None
    keep = set(sys.modules)
    if form == "code":
        src, err = attempt(lambda: compiler.compile(src, filename, optimize, self_module=name or "c02x"))
        require(err is None, lambda: f"{where}: compile: {err!r}")
    elif form == "expanded":
        src, err = attempt(lambda: compiler.expand(src, filename, optimize, self_module=name or "c02x"))
        require(err is None and isinstance(src, ast.Module), lambda: f"{where}: expand: {err!r}")
        if sn["flags"]["phases"] or not filename.endswith(".py"):
            seen = unparser.unparse(src) if not filename.endswith(".py") else seen
    arg = None if name is None else name if how == "name" else target.real
    new, err = attempt(lambda: compiler.run(src, arg, optimize) if optimize != -1 else compiler.run(src, arg))
    if name is None:
        auto = {n for n in sys.modules if n not in keep and n.startswith("dynamically_created_module_")}
        require(len(auto) == 1, lambda: f"{where}: new modules {auto}")
        real = sys.modules[auto.pop()]
        target = ModelModule(None, None, None)
        created(world, target, real)
    want = model_run(world, target, sn, form, optimize, filename)
    require((err is None) == (want is None), lambda: f"{where}: error {err!r}, cause {getattr(err, '__cause__', None)!r}; expected {want!r}\n{sn['a']}")
    if want is not None:
        require(type(err) is type(want) and str(err) == str(want), lambda: f"{where}: error {err!r}, expected {want!r}")
    else:
        require(new is target.real, lambda: f"{where}: run returned {new!r}")
    if before is not None and not filename.endswith(".py"):
        a, b = dump(before), dump(src) if form != "expanded" else dump(before)
        require(a == b, lambda: f"{where}: run changed its input: " + diff(a, b))
    if form == "code" and sn["flags"]["doc"] is not None and optimize != 2:
        target.ns["__doc__"] = target.real.__doc__    # either is fine: Python's own code sets the docstring
        require(target.real.__doc__ in (None, sn["flags"]["doc"], "changed"), lambda: f"{where}: docstring {target.real.__doc__!r}")
    for f in re.findall(r"^def (f\d+)\(", "\n".join(sn["a"]), re.M):
        target.lines.pop(f, None)
    set_lines(target, sn, seen, target.real, err)
    world.ctx.event("form " + form)


def do_op(world, op, where):
    kind = op[0]
    world.ctx.event(kind)
    if kind == "create":
        _, name, filename, update = op
        m = model_create(world, name, filename, update)
        real, err = attempt(lambda: compiler.create_module(name, filename, update_parent=update))
        if m is None:
            require(isinstance(err, ModuleNotFoundError), lambda: f"{where}: parent is missing, but {real!r}, {err!r}")
        else:
            require(err is None, lambda: f"{where}: {err!r}")
            created(world, m, real)
            require(sys.modules.get(real.__name__) is real, "not in sys.modules")
    elif kind == "run":
        do_run(world, op, where)
    elif kind == "rerun":
        _, name, sn, form, times = op
        target = world.mods.get(name)
        if target is None or not runnable(world, sn) or target.real.__file__.endswith(".py"):
            return
        if sn["flags"]["phases"] and ("." in name and name.rsplit(".", 1)[0] not in sys.modules or sn["flags"]["imports"] == name):
            return
        src, seen = source_of(sn, form, target.real.__file__)
        for i in range(times):
            _, err = attempt(lambda: compiler.run(src, target.real))
            want = model_run(world, target, sn, form, -1, None)
            require(err is None and want is None, lambda: f"{where}: run number {i + 1}: {err!r}")
            for f in re.findall(r"^def (f\d+)\(", "\n".join(sn["a"]), re.M):
                target.lines.pop(f, None)
            compare(world, f"{where}, run number {i + 1}")
    elif kind == "expand":
        _, sn, form = op
        if sn["flags"]["surface"] or sn["flags"]["phases"]:
            return
        src, _ = source_of(sn, form, "x.py")
        tree, err = attempt(lambda: compiler.expand(src, "x.py"))
        require(err is None and isinstance(tree, ast.Module), lambda: f"{where}: expand: {err!r}")
        code, err = attempt(lambda: builtins.compile(tree, "x.py", "exec", dont_inherit=True))
        require(err is None, lambda: f"{where}: the expansion does not compile: {err!r}")
        m = ModelModule("c02x", "x.py", None)
        model_run(world, m, sn, "text", -1, None)
        ns = {"__name__": "c02x", "__file__": "x.py", "__package__": None, "__doc__": None}
        attempt(lambda: exec(code, ns))
        a = {k: plain(v, world) for k, v in m.ns.items() if k not in SKIP}
        b = {k: plain(v, world) for k, v in ns.items() if k not in SKIP}
        require(a == b, lambda: f"{where}: namespace {[(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]}")
    elif kind == "drop":
        if op[1] in world.mods:
            del world.mods[op[1]], sys.modules[op[1]]
    elif kind == "dropparent":
        if op[1] == "remove":
            sys.modules.pop("c02p.q", None)
        else:
            sys.modules["c02p.q"] = world.parents["c02p.q"]
    elif kind == "temp":
        _, name, filename, update, inner, exc = op
        m = model_create(world, name, filename, update)
        reached = False
        try:
            with compiler.temporary_module(name, filename, update_parent=update) as real:
                reached = True
                require(m is not None, lambda: f"{where}: parent is missing, but {real!r}")
                created(world, m, real)
                compare(world, f"{where}, inside")
                for i, o in enumerate(inner):
                    do_op(world, o, f"{where}/{i} {o[0]}")
                    compare(world, f"{where}/{i} {o[0]}")
                if exc:
                    raise KeyboardInterrupt if exc == "KeyboardInterrupt" else Boom(7)
        except (Boom, KeyboardInterrupt) as e:
            require(exc == type(e).__name__, lambda: f"{where}: {e!r}")
        except ModuleNotFoundError:
            require(m is None and not reached, f"{where}: ModuleNotFoundError")
        else:
            require(exc is None, f"{where}: the exception was swallowed")
        if m is not None:
            world.mods.pop(m.real.__name__, None)
            if name is not None and "." in name and update and name.rsplit(".", 1)[0] in sys.modules:
                world.attrs.pop(tuple(name.rsplit(".", 1)), None)
    elif kind == "badcreate":
        args, exc = [((3,), TypeError), (("a b",), TypeError), (("a..b",), TypeError), ((".a",), TypeError), (("1a",), TypeError), (("a", 3), TypeError), (("c02p.nosuch.x",), ModuleNotFoundError),
                     (("c02nosuch.x",), ModuleNotFoundError), (("c02p.",), TypeError)][op[1]]
        keep = set(sys.modules)
        _, err = attempt(lambda: compiler.create_module(*args))
        require(isinstance(err, exc), lambda: f"{where}: create_module{args} gave {err!r}")
        require(set(sys.modules) == keep, "a failing create_module changed sys.modules")
    elif kind == "badrun":
        n, name = op[1], op[2]
        target = world.mods.get(name)
        if target is None:
            return
        real = target.real
        bad = [lambda: (compiler.run(3, real), TypeError), lambda: (compiler.run([ast.Constant(value=1)], real), TypeError), lambda: (compiler.run("x = = 1", real), ImportError), lambda: (compiler.run("x", 3), TypeError),
               lambda: (compiler.run(ast.Expression(body=ast.Constant(value=1)), real), TypeError), lambda: (compiler.expand("from mcpyrate.multiphase import macros, phase", "x.py"), ValueError),
               lambda: (compiler.run("from c02lib import macros, nosuch", real), ImportError), lambda: (compiler.run("x", real.__dict__), TypeError), lambda: (compiler.run("x = 1\n return 3", real), ImportError),
               lambda: (compiler.run("from c02nosuch import macros, x", real), ImportError)][n]
        if n in (1, 4) and not real.__file__.endswith(".py"):
            return      # source text is made of it first
        excs = [TypeError, TypeError, ImportError, TypeError, TypeError, ValueError, ImportError, TypeError, ImportError, ImportError]
        _, err = attempt(bad)
        require(isinstance(err, excs[n]), lambda: f"{where}: bad run {n} gave {err!r}")
        if n in (2, 8):
            require(isinstance(err.__cause__, SyntaxError), lambda: f"{where}: the cause is {err.__cause__!r}")


def check_sequence(case, ctx):
    teardown()
    setup()
    try:
        world = World(ctx)
        for i, op in enumerate(case["ops"]):
            where = f"operation {i} {op[0]}"
            do_op(world, op, where)
            compare(world, where)
        ctx.nontrivial_case(world.runs >= 3)
    finally:
        teardown()


# ---------------------------------------------------------------- code objects
def same_code(a, b, path="module"):
    """Where two code objects differ, or None."""
    for attr in ("co_name", "co_qualname", "co_filename", "co_firstlineno", "co_flags", "co_argcount", "co_posonlyargcount", "co_kwonlyargcount", "co_nlocals", "co_names", "co_varnames", "co_freevars", "co_cellvars", "co_stacksize", "co_code", "co_exceptiontable"):
        x, y = getattr(a, attr), getattr(b, attr)
        if x != y:
            return f"{attr} of {path}: {y!r}, expected {x!r}"
    if list(a.co_positions()) != list(b.co_positions()):
        for x, y in zip(a.co_positions(), b.co_positions()):
            if x != y:
                return f"position in {path}: {y}, expected {x}"
    if len(a.co_consts) != len(b.co_consts):
        return f"constants of {path}: {b.co_consts!r}, expected {a.co_consts!r}"
    for x, y in zip(a.co_consts, b.co_consts):
        if isinstance(x, types.CodeType) and isinstance(y, types.CodeType):
            d = same_code(x, y, path + "." + x.co_name)
            if d:
                return d
        elif type(x) is not type(y) or repr(x) != repr(y) and not isinstance(x, frozenset) or x != y and x == x:
            return f"constant in {path}: {y!r}, expected {x!r}"
    return None


@st.composite
def programs(draw):
    s = pygen.Src(draw)
    src = draw(pygen.compilable_source())
    return {"src": src, "form": s.choice(["text", "bytes", "tree", "list"]), "optimize": s.choice([-1, 0, 1, 2]), "macros": s.chance(1, 3), "encoding": s.choice(["utf-8", "utf-8-sig", "latin-1"])}


def check_compile(case, ctx):
    src, form, opt = case["src"], case["form"], case["optimize"]
    try:
        want = builtins.compile(src, "c02.py", "exec", dont_inherit=True, optimize=opt)
    except (SyntaxError, ValueError) as e:
        try:
            ast.parse(src)
        except (SyntaxError, ValueError):
            raise Reject("does not parse")
        ctx.event("invalid program")
        try:
            compiler.compile(src, "c02.py", opt)
        except Exception as err:
            require(type(err) is type(e) and err.args == e.args, lambda: f"error {err!r}, expected {e!r}")
        else:
            require(False, f"compiled; expected {e!r}")
        return
    tree = ast.parse(src, "c02.py")
    ctx.nontrivial_case(sum(1 for _ in ast.walk(tree)) >= 10)
    ctx.event("form " + form)
    arg = src
    if form == "bytes":
        try:
            arg = src.encode(case["encoding"]) if case["encoding"] == "utf-8-sig" else (f"# coding: {case['encoding']}\n" + src).encode(case["encoding"])
        except UnicodeEncodeError:
            raise Reject("not in that encoding")
        want = builtins.compile(arg, "c02.py", "exec", dont_inherit=True, optimize=opt)
    elif form == "tree":
        arg = tree
    elif form == "list":
        arg = tree.body
    try:
        got = compiler.compile(arg, "c02.py", opt)
    except Exception as e:
        require(False, f"compile failed: {e!r}, cause {e.__cause__!r}")
    if case["macros"] and not any("__future__" in x for x in src.split("\n")):
        # a macro that is imported but not used changes nothing else
        setup()
        try:
            text = "from c02lib import macros, mt as zzmt\n" + src
            tree = ast.parse(text, "c02.py")
            tree.body[0] = ast.copy_location(ast.Import(names=[ast.copy_location(ast.alias(name="c02lib"), tree.body[0])]), tree.body[0])
            want2 = builtins.compile(tree, "c02.py", "exec", dont_inherit=True, optimize=opt)
            d = same_code(want2, compiler.compile(text, "c02.py", opt))
        finally:
            teardown()
        ctx.event("unused macro")
        require(d is None, lambda: f"with an unused macro: {d}")
    d = same_code(want, got)
    require(d is None, lambda: d)


TESTS = [Test("sequence", sequences(), check_sequence, quick=14000, thorough=400000),
         Test("compile", programs(), check_compile, quick=6000, thorough=120000)]
