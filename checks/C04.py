"""Cached bytecode is never stale with respect to macro dependencies, and is not recompiled needlessly."""

import importlib
import importlib.machinery
import importlib.util
import os
import pickle
import shutil
import sys
import warnings

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, isolated, require
from harness.sut import activate, importer

PROPERTY = "C04"
RULE = ("Cases: two to seven modules (top level, in a package and its subpackage, package `__init__` modules, namespace package) that import macros or dialects from one another, acyclically: by absolute or relative imports, renamed, in parentheses, in a phase, "
        "several times, by dialects that edit the tree or that edit the source text so that the file is not Python; then a history of edits (value, dependencies, breaking and repairing; at increasing times), touches, older versions put back with their older times (from then on only `path_stats` is checked), module-to-package conversions, "
        "removal or corruption of cache files, processes that import some of the modules in some order (with and without writing bytecode, with and without a cache prefix), and processes that edit and reload. `path_stats` must be as documented. Each import must give the value "
        "that the current sources imply, or fail if they do; no module may be compiled again if nothing in its macro-import closure was changed since its bytecode was written. Non-trivial: two processes with an edit of a dependency between them.")
ASSUMPTIONS = ["each edit gives the file a later modification time than all before, by at least a second (the resolution of pyc files), except that for `path_stats` it may also be a new, older one",
               "macro definition modules get their values from macros and their own text; what they import as plain modules is not tracked, as documented", "files are not edited while a process that imports them is starting; processes that reload, reload what they changed in dependency order"]

PLACES = ["top", "top", "top", "pkg", "pkg", "sub", "init", "subinit", "ns"]
FORMS = ["macro", "macro", "macro", "block", "alias", "phase", "dialect", "sdialect", "sdialect", "twice", "paren", "unused", "both"]
BROKEN = ["", "", "", "", "", "", "syntax", "runtime", "nomacro", "raises"]
T0 = 2_000_000_000


# ---------------------------------------------------------------- generator
@st.composite
def cases(draw):
    s = pygen.Src(draw)
    n = s.int(2, 7)
    places = []
    for i in range(n):
        p = s.choice(PLACES)
        if p in ("init", "subinit") and p in places:
            p = "pkg"
        places.append(p)

    def deps(i):
        if i == 0:
            return []
        out = []
        for _ in range(s.weighted([(1, 0), (5, 1), (3, 2), (1, 3)])):
            out.append([s.int(max(0, i - 3), i - 1), s.choice(FORMS), s.chance(1, 2)])
        return out
    mods = [{"deps": deps(i), "val": i, "broken": ""} for i in range(n)]
    ops = []
    v = [100]
    restore = s.chance(1, 4)

    def edit():
        i = s.int(0, n - 1)
        k = s.weighted([(5, "val"), (3, "deps"), (1, "broken"), (2, "touch"), (1, "package")])
        v[0] += 1
        if restore and s.chance(1, 4):    # an older version is put back, with its time
            return ["restore", i, {"deps": deps(i), "val": v[0]}]
        if k == "val":
            return ["edit", i, {"val": v[0] if s.chance(3, 4) else s.int(0, 3)}]
        if k == "deps":
            return ["edit", i, {"deps": deps(i), "val": v[0]} if s.chance(1, 2) else {"deps": deps(i)}]
        if k == "broken" and not restore:
            return ["edit", i, {"broken": s.choice(BROKEN)}]
        return ["touch" if k == "broken" else k, i]
    for _ in range(s.int(3, 10)):
        k = s.weighted([(5, "edit"), (6, "process"), (1, "clean"), (1, "session")])
        if k == "edit":
            ops.append(edit())
        elif k == "process":
            roots = s.sublist(range(n)) or [n - 1]
            if s.chance(1, 2):
                roots = [n - 1]
            ops.append(["process", roots if s.chance(1, 2) else roots[::-1], s.chance(7, 8), s.chance(1, 10)])
        elif k == "clean":
            ops.append(["clean", s.choice(["all", "pyc", "pickle", "corrupt", "garbage", "empty", "other"]), s.int(0, n - 1)])
        else:
            e = [edit() for _ in range(s.int(1, 2))]
            ops.append(["session", e, s.int(0, n - 1)])
    if not any(o[0] == "process" for o in ops[-1:]):
        ops.append(["process", [n - 1], True, False])
    # a broken module is repaired sooner or later
    for i in sorted({o[1] for o in ops if o[0] == "edit" and o[2].get("broken")}):
        ops.append(["edit", i, {"broken": ""}])
    ops.append(["process", [n - 1], True, False])
    return {"places": places, "mods": mods, "ops": ops}


# ---------------------------------------------------------------- model of the files
class World:
    def __init__(self, case, base):
        self.base = base
        self.places = case["places"]
        self.mods = [dict(m) for m in case["mods"]]
        self.n = len(self.mods)
        self.time = T0
        self.oldtime = T0 - 100_000     # for older versions that are put back
        self.restored = False
        self.mtime = [0] * self.n
        self.ispkg = [p in ("init", "subinit") for p in self.places]
        self.compiled = {}      # (prefix?, file) -> closure that its bytecode was made from
        inits = {}
        for p, name in (("init", "c04p"), ("subinit", "c04p.sub")):
            if p not in self.places:
                inits[name] = os.path.join(base, *name.split("."), "__init__.py")
        self.plain_inits = inits

    def start(self):
        for d in ("c04p/sub", "c04ns"):
            os.makedirs(os.path.join(self.base, d))
        for f in self.plain_inits.values():
            with open(f, "w"):
                pass
            os.utime(f, (T0, T0))
        for i in range(self.n):
            self.write(i)

    def name(self, i):
        p = self.places[i]
        return {"top": f"c04_m{i}", "pkg": f"c04p.m{i}", "sub": f"c04p.sub.m{i}", "init": "c04p", "subinit": "c04p.sub", "ns": f"c04ns.m{i}"}[p]

    def file(self, i):
        f = os.path.join(self.base, *self.name(i).split("."))
        return os.path.join(f, "__init__.py") if self.ispkg[i] else f + ".py"

    def package(self, i):
        """Parts of the name of the package in which relative imports of module `i` are resolved."""
        parts = self.name(i).split(".")
        return parts if self.ispkg[i] else parts[:-1]

    def module_ref(self, i, j, relative):
        """How module i names module j in an import."""
        target = self.name(j).split(".")
        here = self.package(i)
        if relative and here:
            common = 0
            while common < len(here) and common < len(target) and here[common] == target[common]:
                common += 1
            if common and common < len(target):
                return "." * (len(here) - common + 1) + ".".join(target[common:])
        return ".".join(target)

    def source(self, i):
        m = self.mods[i]
        head, body, late = [], [], []
        if i % 3 == 1:
            head.append(f"'''Docstring of {i}.'''")
        if i % 4 == 2:
            head.append("from __future__ import annotations")
        phased = False
        for k, (j, form, relative) in enumerate(m["deps"]):
            ref = self.module_ref(i, j, relative)
            if form in ("macro", "twice", "both"):
                head.append(f"from {ref} import macros, mk{j}")
                late.append(f"V.append(mk{j}[0])")
                if form == "twice":
                    head.append(f"from {ref} import macros, mk{j} as again{k}")
                    late.append(f"V.append(again{k}[0])")
                elif form == "both":
                    head.append(f"from {ref} import OWN as own{k}")
            elif form == "paren":
                head.append(f"from {ref} import (macros,\n    mk{j} as\n    par{k},\n)")
                late.append(f"V.append(par{k}[0])")
            elif form == "alias":
                late.append(f"from {ref} import macros, mk{j} as al{k}")
                late.append(f"def f{k}():\n    return (lambda: al{k}[0])()\nV.append(f{k}())")
            elif form == "block":
                head.append(f"from {ref} import macros, mk{j} as bl{k}")
                late.append(f"with bl{k}:\n    pass")
            elif form == "unused":
                head.append(f"from {ref} import macros, mk{j} as un{k}")
            elif form == "dialect":
                head.append(f"from {ref} import dialects, D{j}")
            elif form == "sdialect":
                head.append(f"from {ref} import dialects, S{j}")
                late.append(f"V.append(§{j}§)")
            elif form == "phase":
                if not phased:
                    head.append("from mcpyrate.multiphase import macros, phase")
                    phased = True
                head.append(f"with phase[{1 + k % 2}]:\n    import ast\n    from {ref} import macros, mk{j}\n    W{k} = mk{j}[0]\n    def loc{k}(tree, **kw):\n        return ast.Constant(value=W{k})")
                if k % 2:
                    head.append(f"with phase[1]:\n    import ast\n    from __self__ import macros, loc{k}\n    X{k} = loc{k}[0]\n    def loc{k}(tree, **kw):\n        return ast.Constant(value=X{k})")
                head.append(f"from __self__ import macros, loc{k}")
                late.append(f"V.append(loc{k}[0])")
        # a docstring and future-imports come first
        head.sort(key=lambda x: (not x.startswith("'''"), not x.startswith("from __future__")))
        body.append(f"OWN = {m['val']}\nV = [OWN]")
        body.append("import ast\nfrom mcpyrate.dialects import Dialect\n\ndef val():\n    return repr([V[0], *sorted(V[1:])])\n"
                    f"\ndef mk{i}(tree, *, syntax, **kw):\n    {'1 / 0' if m['broken'] == 'raises' else ''}\n"
                    "    if syntax == 'block':\n        return ast.parse(f'V.append({val()!r})').body\n    return ast.Constant(value=val())\n"
                    f"\nclass D{i}(Dialect):\n    def transform_ast(self, tree):\n        tree.body.extend(ast.parse(f'V.append({{val()!r}})').body)\n        return tree\n"
                    f"\nclass S{i}(Dialect):\n    def transform_source(self, text):\n        return text.replace('\\xa7{i}\\xa7', repr(val()))\n")
        if m["broken"] == "nomacro":
            head.append("from mcpyrate.debug import macros, c04_nosuch")
        elif m["broken"] == "syntax":
            late.append("x = = 1")
        elif m["broken"] == "runtime":
            late.append("raise RuntimeError('broken')")
        return "\n".join(head + body + late) + "\n"

    def stamp(self, i):
        self.time += 2
        self.mtime[i] = self.time
        os.utime(self.file(i), (self.time, self.time))

    def write(self, i):
        f = self.file(i)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w", encoding="utf-8") as ff:
            ff.write(self.source(i))
        self.stamp(i)

    def edit(self, op):
        k, i = op[0], op[1]
        if k == "edit":
            self.mods[i].update(op[2])
            self.write(i)
        elif k == "restore":
            self.mods[i].update(op[2])
            self.write(i)
            self.oldtime += 2
            self.mtime[i] = self.oldtime
            os.utime(self.file(i), (self.oldtime, self.oldtime))
            self.restored = True
        elif k == "touch":
            self.stamp(i)
        elif k == "package" and not self.ispkg[i]:
            os.unlink(self.file(i))
            self.ispkg[i] = True
            self.write(i)

    # ---- what should happen
    def closure(self, i):
        out = {(self.file(i), self.mtime[i])}
        for j, _, _ in self.mods[i]["deps"]:
            out |= self.closure(j)
        return frozenset(out)

    def parents(self, i):
        """Modules of the world that are imported as packages that contain module `i`."""
        parts = self.name(i).split(".")
        names = {".".join(parts[:k]) for k in range(1, len(parts))}
        return [j for j in range(self.n) if self.name(j) in names and j != i]

    def loads(self, i, seen=None):
        seen = set() if seen is None else seen
        if i not in seen:
            seen.add(i)
            for j in self.parents(i) + [d[0] for d in self.mods[i]["deps"]]:
                self.loads(j, seen)
        return seen

    def fails(self, i):
        for j in self.loads(i):
            m = self.mods[j]
            if m["broken"] in ("syntax", "runtime", "nomacro"):
                return True
            for d, form, _ in m["deps"]:
                if self.mods[d]["broken"] == "raises" and form not in ("unused", "dialect", "sdialect"):
                    return True
        return False

    def value(self, i):
        m = self.mods[i]
        rest = []
        for j, form, _ in m["deps"]:
            rest += [self.value(j)] * {"twice": 2, "unused": 0}.get(form, 1)
        return repr([m["val"], *sorted(rest)])

    def circular(self):
        """Packages are imported before what is in them, so the dependencies of a package must not need the package's macros."""
        for i in range(self.n):
            stack = []

            def walk(j):
                if j in stack:
                    return True
                stack.append(j)
                try:
                    return any(walk(d) for d in self.parents(j) + [x[0] for x in self.mods[j]["deps"]])
                finally:
                    stack.pop()
            if walk(i):
                return True
        return False


# ---------------------------------------------------------------- processes
def child(base, names, write, prefix, world=None, edits=(), files=()):
    """Import the modules `names` in turn. (In a new process.) With `world`: then make the edits and reload everything."""
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = not write
    sys.pycache_prefix = os.path.join(base, "prefix") if prefix else None
    sys.path.insert(0, base)
    activate.activate()
    log = []
    real = importlib.machinery.SourceFileLoader.source_to_code

    def source_to_code(self, data, path, *a, **kw):
        log.append(["try", path])
        code = real(self, data, path, *a, **kw)
        log.append(["done", path])
        return code
    importlib.machinery.SourceFileLoader.source_to_code = source_to_code
    out = []

    def observe(fn):
        try:
            out.append(["value", fn().val()])
        except BaseException as e:
            chain = []
            while e is not None and len(chain) < 4:
                chain.append(f"{type(e).__name__}: {str(e)[-300:]}")
                e = e.__cause__ or e.__context__
            out.append(["error", chain])
    for name in names:
        observe(lambda: importlib.import_module(name))
    for f in files:
        try:
            out.append(importer.path_stats(f))
        except Exception as e:
            out.append(repr(e))
    if world is not None:
        first, log[:] = list(log), []
        for e in edits:
            world.edit(e)
        importlib.invalidate_caches()
        for name in names:
            if name in sys.modules:
                observe(lambda: importlib.reload(sys.modules[name]))
            else:
                observe(lambda: importlib.import_module(name))
        return out, first, log
    return out, log, []


COUNTER = [0]


def check(case, ctx):
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c04_{COUNTER[0]}")
    COUNTER[0] += 1
    os.makedirs(base)
    try:
        history(World(case, base), case, ctx)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def history(w, case, ctx):
    w.start()
    processes = edits = 0
    stale = set()       # modules whose dependency was edited after a process had imported them
    seen = set()

    def judge(i, res, when):
        if w.fails(i):
            ctx.event("import fails")
            require(res[0] == "error", lambda: f"{when}: {w.name(i)} should not be importable now, but gives {res[1]}")
        else:
            require(res[0] == "value", lambda: f"{when}: import of {w.name(i)} fails: {res[1]}\n{w.source(i)}")
            want = w.value(i)
            require(res[1] == want, lambda: f"{when}: {w.name(i)} has value {res[1]}, its sources say {want}")
            if i in stale:
                ctx.event("right after an edit of a dependency")
                stale.discard(i)
            seen.update(w.loads(i))

    def account(log, write, prefix, when):
        files = {w.file(i): i for i in range(w.n)}
        for what, path in log:
            if path not in files:
                continue
            i = files[path]
            now = w.closure(i)
            if what == "try":
                old = w.compiled.get((prefix, path))
                require(old != now, lambda: f"{when}: {w.name(i)} was compiled again, though nothing changed since its bytecode was written")
                ctx.event("compiled")
            elif write:
                w.compiled[prefix, path] = now
    for k, op in enumerate(case["ops"]):
        when = f"operation {k} {op}"
        if op[0] in ("edit", "touch", "package", "restore"):
            if op[0] == "package" and w.circular():
                continue
            before = dict(w.mods[op[1]])
            w.edit(op)
            if w.circular():    # through a package that contains what it depends on
                w.mods[op[1]] = before
                w.write(op[1])
            edits += 1
            for i in seen:
                if i != op[1] and any(f == w.file(op[1]) for f, _ in w.closure(i)):
                    stale.add(i)
            ctx.event(op[0])
        elif op[0] == "clean":
            clean(w, op[1], op[2])
            ctx.event("clean")
        elif op[0] == "process":
            if w.circular():
                continue
            roots = op[1]
            names = [] if w.restored else [w.name(i) for i in roots]
            out, log, _ = isolated(child, w.base, names, op[2], op[3], None, (), [w.file(i) for i in roots])
            for i, res in zip(roots, out[len(names):]):
                if not w.fails(i):
                    want = {"mtime": max(t for _, t in w.closure(i)), "size": os.path.getsize(w.file(i))}
                    require(isinstance(res, dict) and abs(res.pop("mtime") - want.pop("mtime")) < 1e-3 and res == want, lambda: f"{when}: path_stats of {w.name(i)} is {out[len(names):]}, expected {max(t for _, t in w.closure(i))} and the size")
            if w.restored:      # the latest time may be the same as before: only what `path_stats` says is specified
                ctx.event("process after an older version was put back")
            else:
                for i, res in zip(roots, out):
                    judge(i, res, when)
                account(log, op[2], op[3], when)
            processes += 1
            ctx.event("process")
        elif op[0] == "session":
            if w.restored or any(e[0] == "restore" for e in op[1]) or w.circular() or any(w.fails(i) for i in range(w.n)):
                continue
            order = [i for i in range(w.n) if i in w.loads(op[2])]
            mine = [e for e in op[1] if e[1] in order and not (e[0] == "edit" and "broken" in e[2]) and e[0] != "package"]
            trial = pickle.loads(pickle.dumps(w))
            for e in mine:
                if e[0] == "edit":
                    trial.mods[e[1]].update(e[2])
            if trial.circular() or any(trial.fails(i) for i in range(trial.n)):
                continue
            order = sorted(set(order) | trial.loads(op[2]))
            out, log1, log2 = isolated(child, w.base, [w.name(i) for i in order], True, False, w, mine)
            for i, res in zip(order, out):
                judge(i, res, when)
            account(log1, True, False, when)
            # the child has written the files
            for e in mine:
                w.edit(e)
            for i, res in zip(order, out[len(order):]):
                judge(i, res, when + ", reloading")
            account(log2, True, False, when + ", reloading")
            ctx.event("session")
    ctx.nontrivial_case(processes >= 2 and edits >= 1)


def clean(w, kind, i):
    if kind == "all":
        for root, dirs, _ in os.walk(w.base):
            if "__pycache__" in dirs:
                shutil.rmtree(os.path.join(root, "__pycache__"))
        shutil.rmtree(os.path.join(w.base, "prefix"), ignore_errors=True)
        w.compiled.clear()
        return
    pyc = importlib.util.cache_from_source(w.file(i))
    pick = pyc[:-4] + ".mcpyrate.pickle"
    if kind == "pyc":
        if os.path.exists(pyc):
            os.unlink(pyc)
        w.compiled.pop((False, w.file(i)), None)
    elif os.path.exists(pick):
        if kind == "pickle":
            os.unlink(pick)
        else:
            with open(pick, "rb") as f:
                data = f.read()
            with open(pick, "wb") as f:
                f.write({"corrupt": data[:len(data) // 2], "garbage": b"garbage\n", "empty": b"", "other": pickle.dumps([1, 2])}[kind])


TESTS = [Test("history", cases(), check, quick=1800, thorough=40000)]
