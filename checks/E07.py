"""Macro-imports establish exactly the imported bindings."""

import ast
import contextlib
import importlib
import os
import sys
import types

from hypothesis import strategies as st

from harness import mac, pygen
from harness.core import Test, isolated, require
from harness.sut import activate, coreutils, diff, expander

PROPERTY = "E07"
RULE = ("'find': generated modules with macro-imports (absolute, relative, self-, aliased, repeated, rebinding, failing in each documented way, nested in other statements, near misses) in any place; "
        "find_macros must give the bindings of the model and rewrite exactly the macro-imports, or raise the documented error. 'import': generated package trees in a scratch directory, whose modules import "
        "macros from each other with absolute and relative imports and use them, are imported for real; each use must show the macro that the model says, and the namespace of each module what the rewritten "
        "imports bind. 'paths': generated sys.path and file names (relative entries, symbolic links, common prefixes, nested entries); the package of a file must be that relative to the deepest entry that contains it. "
        "Non-trivial: at least two macro-imports ('find', 'import'), at least two entries contain the file or share a prefix with it ('paths').")
ASSUMPTIONS = ["the package of a file is determined by the deepest sys.path entry that contains it, as documented"]


# ---------------------------------------------------------------- find_macros
class Callable:
    def __call__(self, tree, **kw):
        return tree


def fake_modules():
    mods = {}
    for m in ("fa", "fp", "fp.b", "fp.s", "fp.s.c", "fself"):
        mod = types.ModuleType(m)
        mods[m] = mod
        mod.notmacro = 42
        mod.none = None
        for i in range(4):
            def f(tree, **kw):
                return tree
            f.__qualname__ = f"{m}:{i}"
            setattr(mod, f"m{i}", f)
        mod.obj = Callable()
        mod.cls = type("K", (), {})
    for m in ("fp", "fp.s"):
        mods[m].__path__ = []
    mods["fp"].b, mods["fp"].s, mods["fp.s"].c = mods["fp.b"], mods["fp.s"], mods["fp.s.c"]
    return mods


FILES = {"/nowhere/root.py": None, "/nowhere/fp/x.py": "fp", "/nowhere/fp/__init__.py": "fp", "/nowhere/fp/s/y.py": "fp.s", "<interactive>": "?", "/elsewhere/fp/z.py": "??"}
NAMES = ["m0", "m0", "m1", "m2", "m3", "obj", "cls"]
BADNAMES = ["notmacro", "none", "nosuch", "__doc__"]


@st.composite
def find_cases(draw):
    s = pygen.Src(draw)
    lines = []
    for _ in range(s.int(1, 6)):
        kind = s.weighted([(10, "import"), (3, "code"), (2, "near"), (1, "self"), (1, "nested")])
        if kind in ("import", "nested"):
            mod = s.choice(["fa", "fa", "fp", "fp.b", "fp.s", "fp.s.c", ".b", ".s", ".s.c", ".c", "..b", "..s.c", "fa"] if s.chance(1, 2) else ["fa", "fp", "fp.b", "fp.s.c"])
            if s.chance(1, 25):
                mod = s.choice(["nosuch", "fp.nosuch", ".nosuch", "...b", ".", "fa.sub"])
            names = []
            for _ in range(s.int(0, 3)):
                n = s.choice(NAMES if not s.chance(1, 30) else BADNAMES)
                names.append(n + (f" as {s.choice(['k0', 'm1', 'macros', 'm0'])}" if s.chance(1, 3) else ""))
            line = f"from {mod} import " + ", ".join(["macros"] + names)
            if kind == "nested":
                line = s.choice(["if x:\n    {}", "def f():\n    {}", "with phase[1]:\n    {}", "class C:\n    {}", "try:\n    {}\nfinally:\n    pass"]).format(line)
            lines.append(line)
        elif kind == "self":
            lines.append(s.choice(["from __self__ import macros, m0, m1 as k1", "from __self__ import macros", "from __self__ import macros, nosuch", "from .__self__ import macros, m0", "from __self__ import m0, macros"]))
        elif kind == "near":
            lines.append(s.choice(["from fa import macros as mm, m0", "from fa import m0, macros", "import macros", "from macros import m0", "from fa import Macros, m0", "import fa as macros", "from fa import dialects, m0", "from macros import macros"]))
        else:
            lines.append(s.choice(["x = 1", "'''doc'''", "def g():\n    return m0[x]", "m0[y]", "import fa", "with m1:\n    z = 2"]))
    return {"lines": lines, "file": s.choice(list(FILES)), "self": s.choice(["fself", "fself", "nomod", None]), "noloc": s.chance(1, 6), "transform": not s.chance(1, 6)}


class Expect(Exception):
    def __init__(self, types_, *words):
        self.types = types_
        self.words = words


def model_find(tree, case, mods):
    bindings = {}
    out = []
    for x in tree.body:
        if not (isinstance(x, ast.ImportFrom) and x.names[0].name == "macros" and x.names[0].asname is None):
            out.append(("keep", x))
            continue
        package = FILES[case["file"]]
        if x.level and package in (None, "??"):
            raise Expect((ImportError,), case["file"])
        if x.module is None:
            raise Expect((SyntaxError,))
        if x.module == "__self__":
            if x.level:
                raise Expect((SyntaxError,))
            absname = case["self"]
            if absname not in mods:
                raise Expect((ModuleNotFoundError,))
        elif x.level:
            if package == "?":
                raise Expect((ImportError,))
            base = package.split(".")
            if x.level > len(base):
                raise Expect((ImportError,))
            absname = ".".join(base[:len(base) - x.level + 1] + [x.module])
        else:
            absname = x.module
        if absname not in mods:
            raise Expect((ModuleNotFoundError,), absname.split(".")[0])
        for a in x.names[1:]:
            f = getattr(mods[absname], a.name, None) if a.name != "macros" else None
            if not hasattr(mods[absname], a.name) or not callable(f):
                raise Expect((ImportError,), a.name, absname)
            bindings[a.asname or a.name] = f
        out.append(("self", x) if x.module == "__self__" and case["self"] else ("import", x, absname))
    return bindings, out


def check_find(case, ctx):
    mods = fake_modules()
    src = "\n".join(case["lines"])
    tree = ast.parse(src)
    if case["noloc"]:
        for n in ast.walk(tree):
            for a in n._attributes:
                if hasattr(n, a):
                    delattr(n, a)
    before = list(tree.body)
    dumps = [ast.dump(x, include_attributes=True) for x in before]
    expect = None
    try:
        bindings, out = model_find(tree, case, mods)
    except Expect as e:
        expect = e
    ctx.nontrivial_case(src.count("import macros") >= 2)
    ctx.event("error" if expect else "ok")
    kw = {} if case["transform"] else {"transform": False}
    err = got = None
    path = list(sys.path)
    saved = dict(sys.modules)
    try:
        sys.modules.update(mods)
        sys.path.insert(0, "/nowhere")
        got = expander.find_macros(tree, filename=case["file"], self_module=case["self"], **kw)
    except Exception as e:
        err = e
    finally:
        sys.path[:] = path
        for m in set(sys.modules) - set(saved):
            del sys.modules[m]
    if expect:
        require(err is not None, lambda: f"no error for {case['lines']}, bindings {got}; expected {expect.types}")
        require(isinstance(err, expect.types), lambda: f"{err!r}, expected {expect.types}")
        for w in expect.words:
            require(w in str(err), lambda: f"the error does not mention {w!r}: {err!r}")
        return
    require(err is None, lambda: f"unexpected {type(err).__name__}: {err}")
    require(sorted(got) == sorted(bindings) and all(got[k] is bindings[k] for k in got), lambda: f"bindings {got}, expected {bindings}")
    if not case["transform"]:
        require(all(a is b for a, b in zip(tree.body, before)) and [ast.dump(x, include_attributes=True) for x in tree.body] == dumps, "transform=False changed the tree")
        return
    body = list(tree.body)
    for kind, x, *rest in out:
        if kind == "self" and case["noloc"]:
            continue
        require(body, "statements are missing")
        y = body.pop(0)
        if kind == "keep":
            require(y is x and ast.dump(y, include_attributes=True) == dumps[before.index(x)], lambda: f"statement changed: {ast.unparse(y)}")
        elif kind == "self":
            require(mac.is_coverage_dummy(y), lambda: f"self-macro-import became {ast.dump(y)}")
            y = y.body if not isinstance(y, ast.stmt) else y
            require(y.lineno == x.lineno, "location of the self-macro-import")
        else:
            want = ast.dump(ast.Import(names=[ast.alias(name=rest[0])]))
            require(ast.dump(y) == want, lambda: f"{ast.unparse(x)} became {ast.dump(y)}, expected {want}")
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                require(getattr(y, a, None) == getattr(x, a, None), "location of the import")
    require(not body, lambda: f"extra statements {[ast.unparse(x) for x in body]}")


# ---------------------------------------------------------------- real packages
PKGS = ["", "pk", "pk.sub", "pk.sub.deep", "qk"]


@st.composite
def import_cases(draw):
    s = pygen.Src(draw)
    mods = []
    n = s.int(2, 5)
    for i in range(n):
        pkg = s.choice(PKGS)
        isinit = pkg and s.chance(1, 6) and not any(m["name"] == pkg for m in mods)
        name = pkg if isinit else (pkg + "." if pkg else "") + f"mod{i}"
        imports = []
        for _ in range(s.int(0 if i else 0, 3) if i else 0):
            j = s.int(0, i - 1)
            names = []
            for _ in range(s.int(1, 3)):
                m = f"m{s.int(0, 2)}"
                names.append([m, f"k{s.int(0, 2)}" if s.chance(1, 3) else None])
            imports.append([j, s.chance(1, 2), names, s.choice(["top", "top", "bottom"])])
        mods.append({"name": name, "init": isinit, "imports": imports, "reexport": s.chance(1, 4)})
    return {"mods": mods, "uses": [s.choice(["m0", "m1", "m2", "k0", "k1", "k2"]) for _ in range(3)], "twice": s.chance(1, 4)}


def rel(target, me):
    """Relative import text for module `target` from module `me`, or None."""
    package = me["name"].split(".") if me["init"] else me["name"].split(".")[:-1]
    if not package:
        return None
    t = target.split(".")
    for up in range(len(package)):
        base = package[:len(package) - up]
        if t[:len(base)] == base and len(t) > len(base):
            return "." * (up + 1) + ".".join(t[len(base):])
    return None


def write_package(case, top):
    expect = []
    files = {}
    tags = []    # per module: {macro name: tag}
    for i, m in enumerate(case["mods"]):
        own = {f"m{k}": f"{i}:{k}" for k in range(3)}
        bindings = {}
        head, tail = ["import json"], []
        binds = {}
        for j, relative, names, where in m["imports"]:
            target = case["mods"][j]["name"]
            r = rel(target, m) if relative else None
            text = ", ".join(a + (f" as {b}" if b else "") for a, b in names)
            (head if where == "top" else tail).append(f"from {r or target} import macros, {text}")
            binds[(where, len(head), len(tail))] = (j, names)
        order = [v for k, v in binds.items() if k[0] == "top"] + [v for k, v in binds.items() if k[0] == "bottom"]
        for j, names in order:
            for a, b in names:
                bindings[b or a] = tags[j][a]
        lines = head
        lines.append("log = []")
        for u in case["uses"]:
            lines.append(f"try:\n    log.append(({u!r}, {u}[0]))\nexcept NameError:\n    log.append(({u!r}, None))\nexcept TypeError:\n    log.append(({u!r}, 'run time'))")
        lines += tail
        lines.append("names = {k: getattr(v, '__name__', None) for k, v in globals().items() if not k.startswith('__') and k not in ('log', 'ast')}")
        lines.append("import ast")
        for k in range(3):
            lines.append(f"def m{k}(tree, **kw):\n    return ast.Constant(value={own[f'm{k}']!r})")
        if m["reexport"] and order:   # a macro imported for run time is a macro that others can import
            j, names = order[0]
            target = case["mods"][j]["name"]
            lines.append(f"from {target} import m0 as m1")
            own["m1"] = tags[j]["m0"]
        tags.append(own)
        top_names = {"json": "json"}
        for j, names in order:
            t = case["mods"][j]["name"]
            top_names[t.split(".")[0]] = t.split(".")[0]
        expect.append((m["name"], [(u, bindings.get(u)) for u in case["uses"]], top_names))
        path = m["name"].replace(".", "/") + ("/__init__.py" if m["init"] else ".py")
        files[path] = "\n".join(lines) + "\n"
        for d in range(1, m["name"].count(".") + 1):
            files.setdefault("/".join(m["name"].split(".")[:d]) + "/__init__.py", "")
    for path, text in files.items():
        p = os.path.join(top, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    return expect


def child_import(case, top):
    expect = write_package(case, top)
    sys.path.insert(0, top)
    activate.activate()
    sys.dont_write_bytecode = True
    out = []
    for name, _, _ in reversed(expect):
        mod = importlib.import_module(name)
        out.append((name, mod.log, mod.names))
    return expect, out[::-1]


COUNT = [0]


def check_import(case, ctx):
    names = [m["name"] for m in case["mods"]]
    if len(set(names)) != len(names):
        return
    COUNT[0] += 1
    top = os.path.join(os.environ["VERIF_SCRATCH"], f"imp{COUNT[0]}")
    os.mkdir(top)
    # a package whose __init__ imports macros from its own submodule that needs the package, etc. is a cycle: only earlier modules are imported, so
    # the only cycles are through parents' __init__
    for i, m in enumerate(case["mods"]):
        for j, *_ in m["imports"]:
            pass
    inits = {m["name"]: i for i, m in enumerate(case["mods"]) if m["init"]}

    def needs(i, seen):
        """Modules that importing module i imports."""
        if i in seen:
            return
        seen.add(i)
        parts = case["mods"][i]["name"].split(".")
        for d in range(1, len(parts)):
            p = inits.get(".".join(parts[:d]))
            if p is not None:
                needs(p, seen)
        for j, *_ in case["mods"][i]["imports"]:
            needs(j, seen)
    for p in inits.values():
        seen = set()
        for j, *_ in case["mods"][p]["imports"]:
            needs(j, seen)
        if p in seen:
            ctx.event("import cycle, skipped")
            return
    expect, got = isolated(child_import, case, top)
    ctx.nontrivial_case(sum(len(m["imports"]) for m in case["mods"]) >= 2)
    ctx.event("macro-imports", sum(len(m["imports"]) for m in case["mods"]))
    for (name, log, bound), (_, glog, gnames) in zip(expect, got):
        require(glog == log, lambda: f"{name}: macros {glog}, expected {log}")
        require(gnames == bound, lambda: f"{name}: namespace {gnames}, expected {bound}")


# ---------------------------------------------------------------- paths
PARTS = ["a", "lib", "lib2", "library", "li"]


def layout():
    top = os.path.join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "paths")
    if not os.path.isdir(top):
        for a in PARTS:
            for b in PARTS:
                os.makedirs(os.path.join(top, a, b))
        os.symlink(os.path.join(top, "lib", "a"), os.path.join(top, "link"))
        os.symlink("lib2", os.path.join(top, "link2"))
    return top


@st.composite
def path_cases(draw):
    s = pygen.Src(draw)

    def some(n):
        return "/".join(s.choice(PARTS + ["link", "link2"]) if i == 0 else s.choice(PARTS) for i in range(s.int(0, n)))
    entries = [[s.choice(["abs", "abs", "abs", "rel", "slash", "dots"]), some(3)] for _ in range(s.int(0, 4))]
    if s.chance(1, 4):
        entries.insert(s.int(0, len(entries)), s.choice([["cwd", ""], ["root", ""], ["zip", "x.zip"]]))
    return {"entries": entries, "cwd": some(2), "file": some(4), "name": s.choice(["x.py", "__init__.py", "lib"]), "how": s.choice(["abs", "abs", "rel", "dots"])}


def check_paths(case, ctx):
    top = layout()
    cwd = os.path.join(top, case["cwd"])
    if not os.path.isdir(cwd):
        cwd = top

    def spell(how, p):
        full = os.path.join(top, p) if p else top
        if how == "rel":
            return os.path.relpath(os.path.realpath(full), os.path.realpath(cwd))
        if how == "slash":
            return full + "/"
        if how == "dots":
            return os.path.join(full, "nosuch", "..")
        return full
    entries = []
    for how, p in case["entries"]:
        entries.append("" if how == "cwd" else "/" if how == "root" else "/nowhere/x.zip" if how == "zip" else spell(how, p))
    filename = spell(case["how"] if case["how"] != "dots" else "dots", case["file"])
    filename = os.path.join(filename, case["name"])
    saved, old = list(sys.path), os.getcwd()
    results = []
    try:
        os.chdir(cwd)
        want_file = os.path.realpath(filename)
        real = [os.path.realpath(e or ".") for e in entries]
        holders = [e for e in real if want_file == e or want_file.startswith(e.rstrip("/") + "/")]
        best = max(holders, key=lambda e: len([x for x in e.split("/") if x]), default=None)
        sys.path[:] = entries
        for f in (coreutils.match_syspath, coreutils.relativize, coreutils.resolve_package):
            try:
                results.append(f(filename))
            except Exception as e:
                results.append(e)
    finally:
        os.chdir(old)
        sys.path[:] = saved
    ctx.nontrivial_case(sum(want_file.startswith(e) for e in real) >= 2)
    ctx.event("holders", len(holders))
    where = f"file {filename} ({want_file}), sys.path {entries}, cwd {cwd}"
    ms, rl, rp = results
    if best is None:
        for r in results:
            require(isinstance(r, ValueError), lambda: f"{where}: {r!r}, expected ValueError")
        return
    require(not isinstance(ms, Exception) and str(ms) == best, lambda: f"match_syspath: {where}: {ms!r}, expected {best}")
    relpath = os.path.relpath(want_file, best)
    relpath = "" if relpath == "." else relpath
    require(not isinstance(rl, Exception) and str(rl[0]) == best and rl[1] == relpath, lambda: f"relativize: {where}: {rl!r}, expected {(best, relpath)}")
    # the package: that of the containing directory, which may be above the entry that holds the file itself
    d = os.path.dirname(want_file)
    dholders = [e for e in real if d == e or d.startswith(e.rstrip("/") + "/")]
    dbest = max(dholders, key=lambda e: len([x for x in e.split("/") if x]), default=None)
    if dbest is None:
        require(isinstance(rp, ValueError), lambda: f"resolve_package: {where}: {rp!r}, expected ValueError")
    elif dbest == d:
        require(isinstance(rp, ImportError), lambda: f"resolve_package: {where}: {rp!r}, expected ImportError")
    else:
        want = os.path.relpath(d, dbest).replace("/", ".")
        require(rp == want, lambda: f"resolve_package: {where}: {rp!r}, expected {want}")


assert contextlib and diff
TESTS = [
    Test("paths", path_cases(), check_paths, quick=6000, thorough=100000),
    Test("find", find_cases(), check_find, quick=12000, thorough=150000),
    Test("import", import_cases(), check_import, quick=3500, thorough=20000),
]
