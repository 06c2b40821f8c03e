"""The macropython command runs main programs the way Python itself does."""

import os
import re
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from harness import pygen
from harness.core import REPO, Test, require

PROPERTY = "R02"
RULE = ("Cases: directory trees with a main program, modules beside it and packages around it (ordinary and namespace packages, `__main__.py`, file names with dots, dashes, spaces, other letters, without suffix, or the names of built-in modules, packages and modules of the same name), "
        "run as `macropython file` or `macropython -m module`, as the installed command and as `python -m mcpyrate.repl.macropython`, from several directories, absolute and relative, twice (so that the second run has bytecode). Programs use expression, block, decorator and name macros, dialects and phases, "
        "imports (relative, of siblings, of themselves), look at `__name__`, `__main__`, `sys.path[0]`, pickle their own classes, register exit handlers, and end normally, by `sys.exit` of all kinds, or by an exception. "
        "Oracle: `python` itself, run on the same tree in which macro uses are replaced by what they expand to: same output, exit status, error, and places in the traceback. 'session': input piped into `macropython -i`, with imports of macros and modules from the working directory (also after changing it), errors, and ways to end; same output, prompts, "
        "errors and exit status as an `InteractiveConsole` of Python in that directory. Non-trivial: the program uses macros.")
ASSUMPTIONS = ["arguments for the program are not covered: the command line has no room for them, and `sys.argv` is left as it is", "`-i` is covered by R01 as far as the console is concerned, here with a few kinds of input; programs inside zip files, and built-in or frozen modules given to -m, are out of domain",
               "after an exception, `__main__` is the bootstrapper again (documented), so exit handlers do not look at it then"]

SCRATCH = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()

LIB = '''
import ast
from mcpyrate import namemacro, parametricmacro
from mcpyrate.dialects import Dialect
def expr(tree, **kw): return ast.Tuple(elts=[ast.Constant(value="X"), tree], ctx=ast.Load())
@parametricmacro
def arg(tree, *, args, **kw): return ast.List(elts=args + [tree], ctx=ast.Load())
def blk(tree, **kw): return tree + tree
def deco(tree, **kw): tree.name = tree.name + "_d"; return tree
@namemacro
def nam(tree, **kw): return ast.Constant(value="N")
def boom(tree, **kw): raise ValueError("boom")
class Dia(Dialect):
    def transform_ast(self, tree): tree.body.extend(ast.parse("print('dialect', __name__)").body); return tree
class Txt(Dialect):
    def transform_source(self, text): return text.replace("PLAIN", "TEXT!")
'''

# Pieces of programs: [lines for macropython, lines for python]; as many of each.
PIECES = {
    "name": ["print(__name__)"] * 2,
    "guard": ["if __name__ == '__main__': print('main')\nelse: print('imported', __name__)"] * 2,
    "file": ["import os; print(os.path.realpath(__file__), __package__ or '', __doc__)"] * 2,
    "path": ["import sys; print(sys.path[0])"] * 2,
    "main": ["import __main__; print(__main__.__name__, getattr(__main__, 'Early', None), __main__.__dict__ is globals())"] * 2,
    "modules": ["import sys; print(sys.modules['__main__'].__dict__ is globals(), sys.modules[__name__].__dict__ is globals())"] * 2,
    "class": ["class Early:\n    def f(self): return 1\nprint(Early.__module__, Early.f.__globals__ is globals())"] * 2,
    "pickle": ["import pickle\nclass P: pass\nprint(type(pickle.loads(pickle.dumps(P()))) is P, P)"] * 2,
    "loader": ["print(type(__loader__).__name__, '__path__' in globals(), '__builtins__' in globals())"] * 2,
    "data": ["import inspect\ndef src():\n    return 42  # comment\nprint(inspect.getsource(src), inspect.getmodule(src).__name__)"] * 2,
    "atexit": ["import atexit; atexit.register(print, 'bye', __name__)"] * 2,
    "thread": ["import threading\nt = threading.Thread(target=lambda: print('thread', __import__('__main__').__name__)); t.start(); t.join()"] * 2,
    "self": ["import importlib\nif __name__ == '__main__': print(importlib.import_module(SELF).__name__)"] * 2,
    "stderr": ["import sys; print('err', file=sys.stderr)"] * 2,
    "future": ["print(1)"] * 2,
    "warn": ["import warnings; warnings.warn('careful')"] * 2,
    "hook": ["import sys; sys.excepthook = lambda t, e, tb: print('hook', t.__name__, e)"] * 2,
    "hookmain": ["import sys; sys.excepthook = lambda t, e, tb: print('hook', type(sys.modules['__main__']).__name__)"] * 2,
    "atmain": ["import atexit, sys; atexit.register(lambda g=globals(): hasattr(sys, 'last_type') or print(sys.modules['__main__'].__dict__ is g))"] * 2,
    "finally": ["try:\n    1/0\nexcept ZeroDivisionError as e:\n    print(e.__traceback__.tb_frame.f_code.co_name, e.__traceback__.tb_lineno)"] * 2,
    "expr": ["from mlib import macros, expr; print(expr[__name__])", "pass; print(('X', __name__))"],
    "exprfn": ["from mlib import macros, expr as e2\ndef g(x):\n    return e2[x + e2[1]]\nprint(g(2))", "\ndef g(x):\n    return ('X', x + ('X', 1)[1]) if 0 else ('X', x + 1)\nprint(g(2))"],
    "arg": ["from mlib import macros, arg\nprint(arg[1, __name__][3])", "\nprint([1, __name__, 3])"],
    "blk": ["from mlib import macros, blk\nwith blk: print('twice')", "\nfor _ in 1, 2: print('twice')"],
    "deco": ["from mlib import macros, deco\n@deco\ndef h(): return 7\nprint(h_d.__name__, h_d())", "\n\ndef h_d(): return 7\nprint(h_d.__name__, h_d())"],
    "nam": ["from mlib import macros, nam\nprint(nam, [nam])", "\nprint('N', ['N'])"],
    "guarded": ["from mlib import macros, expr as e3\nif __name__ == '__main__': print(e3['main'])", "\nif __name__ == '__main__': print(('X', 'main'))"],
    "phase": ["from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    from mlib import macros, expr\n    import ast\n    V = expr[5]\n    def own(tree, **kw): return ast.Constant(value=V)\nfrom __self__ import macros, own\nprint(own[0], __name__, 'V' in globals())",
              "\n\n\n\n\n\n\nprint(('X', 5), __name__, True)"],
    "dialect": ["from mlib import dialects, Dia", "import atexit as _a; AT_END"],
    "text": ["from mlib import dialects, Txt\nprint('PLAIN')", "\nprint('TEXT!')"],
}
PIECES["exprfn"] = ["from mlib import macros, expr as e2\ndef g(x):\n    return e2[[x, e2[1]]]\nprint(g(2))", "\ndef g(x):\n    return ('X', [x, ('X', 1)])\nprint(g(2))"]
MACRO = {k for k, (a, b) in PIECES.items() if a != b}
COMMON = sorted(set(PIECES) - {"dialect", "text", "phase", "self"})
SIBLING = ["name", "guard", "main_name", "class", "expr", "exprfn", "blk", "deco", "nam", "phase", "importmain"]
PIECES["main_name"] = ["import __main__; print(__main__.__name__, __name__)"] * 2
PIECES["importmain"] = ["import sys; print(sys.modules['__main__'].__name__, getattr(sys.modules['__main__'], 'Early', None))"] * 2

ENDINGS = {
    "none": "", "zero": "import sys; sys.exit(0)", "code": "import sys; sys.exit(3)", "nothing": "import sys; sys.exit()", "text": "import sys; sys.exit('failed')", "tuple": "raise SystemExit((1, 2))", "raise": "raise SystemExit", "quit": "exit(4)", "bool": "raise SystemExit(True)", "big": "import sys; sys.exit(256)",
    "error": "def f():\n    raise ValueError('wrong')\nf()", "zerodiv": "(lambda: 1/0)()", "chained": "try:\n    1/0\nexcept Exception as e:\n    raise KeyError('k') from e", "context": "try:\n    [][1]\nexcept IndexError:\n    nosuch", "keyboard": "raise KeyboardInterrupt", "base": "class B(BaseException): pass\nraise B('base')",
    "import": "import nosuchmodule", "importfrom": "from os import nosuchname", "importerror": "raise ImportError('No module named whatever')", "oserror": "open('/nonexistent/file')", "group": "raise ExceptionGroup('g', [ValueError(1)])", "os": "import os, sys; sys.stdout.flush(); os._exit(5)", "assert": "assert 0, 'no'",
    "note": "e = ValueError('n'); e.add_note('a note'); raise e", "subexit": "class E(SystemExit): pass\nraise E(9)", "thread": "import threading\nt = threading.Thread(target=lambda: print('late')); t.start()", "stop": "raise StopIteration", "syntaxrt": "compile('x = = 1', 'f', 'exec')", "str": "class Odd(Exception):\n    def __str__(self): return 'odd\\ntwo lines'\nraise Odd",
    "macerr": ["from mlib import macros, expr as e4\ndef k(): return e4[1/0]\nk()", "\ndef k(): return ('X', 1/0)\nk()"], "nameerr": ["from mlib import macros, expr as e5\ne5[nosuch]", "\n('X', nosuch)"],
    "macexit": ["from mlib import macros, expr as e6\nimport sys; sys.exit(e6[3][1])", "\nimport sys; sys.exit(('X', 3)[1])"],
    "syntax": "x = = 1", "indent": "  x", "nonlocal": "def f():\n    nonlocal q", "ret": "return 1",
}
FAILS_FIRST = {"syntax", "indent", "nonlocal", "ret"}     # while the program is being compiled
SCRIPTS = ["prog.py", "prog.py", "prog.py", "my-prog.py", "my prog.py", "v1.2.py", "prog", "prog.txt", "time.py", "sys.py", "math.py", "itertools.py", "json.py", "ünïcode.py", ".hidden.py", "class.py", "1.py", "__init__.py", "__main__.py", "mcpyrate.py", "__main__", "activate.py", "a.b.c", "main.PY"]
PARTS = ["pkg", "sub", "deep"]


@st.composite
def cases(draw):
    s = pygen.Src(draw)
    kind = s.weighted([(5, "script"), (4, "module"), (3, "package")])
    depth = s.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])
    case = {"kind": kind, "dirs": PARTS[:depth], "inits": [s.weighted([(3, "init"), (1, "macro"), (2, "none"), (1, "main")]) for _ in range(depth)],
            "name": s.choice(SCRIPTS) if kind == "script" else s.choice(["prog", "prog", "mod2", "Prög", "_x", "x1"])}
    body = [s.choice(COMMON) for _ in range(s.int(1, 5))]
    body += [s.choice(sorted(MACRO - {"dialect", "text", "phase"})) for _ in range(s.int(0, 3))]
    body = draw(st.permutations(body))
    if s.chance(1, 5):
        body.insert(0, "phase")
    if s.chance(1, 6):
        body.insert(s.int(0, 1), s.choice(["dialect", "text"]))
    if kind != "script" and s.chance(1, 4):
        body.append("self")
    imports = []
    for _ in range(s.int(0, 2)):
        how = s.choice(["import", "from", "relative", "relmacro", "late"])
        imports.append([how, [s.choice(SIBLING) for _ in range(s.int(1, 3))] if how != "relmacro" else []])      # modules that macros come from are imported earlier
    case |= {"body": body, "imports": imports, "end": s.choice(sorted(ENDINGS)) if s.chance(2, 3) else "none", "doc": s.chance(1, 3), "future": s.chance(1, 8),
             "cwd": s.weighted([(3, "root"), (2, "own"), (1, "other"), (1, "outside")]), "path": s.choice(["relative", "relative", "dot", "absolute", "up"]), "how": s.weighted([(2, "m"), (1, "script")]),
             "write": s.chance(2, 3), "shadow": s.chance(1, 6), "twice": s.chance(1, 2), "link": s.choice([None, None, None, None, "file", "dir"]) if kind == "script" else None,
             "missing": s.chance(1, 12), "decoy": s.chance(1, 5), "main": s.weighted([(4, "yes"), (1, "no")]) if kind == "package" else None}
    return case


def text(pieces, which):
    return "\n".join(PIECES[p][which] for p in pieces)


def layout(case, which, root):
    """Write the tree for `macropython` (0) or `python` (1)."""
    def write(path, content):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(content)
    d = root
    for part, init in zip(case["dirs"], case["inits"]):
        d = os.path.join(d, part)
        os.makedirs(d, exist_ok=True)
        if init in ("init", "main"):
            write(os.path.join(d, "__init__.py"), "print('init', __name__, __package__)\n" + ("import __main__; print(__main__.__name__)\n" if init == "main" else ""))
        elif init == "macro":
            write(os.path.join(d, "__init__.py"), ["from mlib import macros, expr\nprint('init', __name__, expr[1])\n", "print('init', __name__, ('X', 1))\n\n"][which])
    name = case["name"]
    if case["kind"] == "script":
        target = os.path.join(d, name)
        home = d
        dotted = None
    elif case["kind"] == "module":
        target = os.path.join(d, name + ".py")
        home = d
        dotted = ".".join(case["dirs"] + [name])
    else:
        home = os.path.join(d, name)
        os.makedirs(home, exist_ok=True)
        target = os.path.join(home, "__main__.py")
        dotted = ".".join(case["dirs"] + [name])
        write(os.path.join(home, "other.py"), "")
    lines = []
    if case["doc"]:
        lines.append("'''Doc.'''")
    if case["future"]:
        lines.append("from __future__ import annotations\ndef ann(x: nosuch): pass\nprint(ann.__annotations__)")
    if case["shadow"] and case["kind"] == "script" and case["name"] == "prog.py":
        write(os.path.join(d, "prog", "__init__.py"), "print('the wrong one')\n")
    if case["shadow"] and case["kind"] == "module":
        os.makedirs(os.path.join(d, name), exist_ok=True)   # a directory is not as good as a module
    if case["shadow"] and case["kind"] == "package":
        write(home + ".py", "print('the wrong one')\n")
    package = bool(case["dirs"]) if case["kind"] == "module" else True if case["kind"] == "package" else False
    body = text(case["body"], which)
    if "dialect" in case["body"]:
        body = body.replace("AT_END", "pass")
    if case["kind"] != "script":
        body = body.replace("SELF", repr(dotted if case["kind"] == "module" else dotted + ".__main__"))
    lines.append(body)
    for i, (how, pieces) in enumerate(case["imports"]):
        sib = f"sib{i}"
        write(os.path.join(home, sib + ".py"), text(pieces, which).replace("AT_END", "pass") + f"\nvalue = 'value of {i}'\n" + ["import ast\ndef m(tree, **kw): return ast.Constant(value='sibling macro')\n", "\n\n"][which])
        absolute = sib if case["kind"] == "script" else ".".join((case["dirs"] + [name] if case["kind"] == "package" else case["dirs"]) + [sib])
        if how in ("relative", "relmacro") and package:
            absolute = "." + sib
        if how in ("relmacro",):
            lines.append([f"from {absolute} import macros, m as m{i}\nfrom {absolute} import value as v{i}\nprint(m{i}[0], v{i})", f"import importlib as _il; _il.import_module({absolute!r}, {'__package__' if package else None})\nfrom {absolute} import value as v{i}\nprint('sibling macro', v{i})"][which])
        elif how == "import" or not package and how != "late" and how != "from":
            lines.append(f"import {absolute.lstrip('.')} as s{i}; print(s{i}.value, s{i}.__name__)" if not absolute.startswith(".") else f"from . import {sib} as s{i}; print(s{i}.value, s{i}.__name__)")
        elif how == "late":
            lines.append(f"def late{i}():\n    from {absolute} import value\n    return value\nprint(late{i}())")
        else:
            lines.append(f"from {absolute} import value as v{i}; print(v{i})")
    end = ENDINGS[case["end"]]
    lines.append(end if isinstance(end, str) else end[which])
    if "dialect" in case["body"]:
        lines.append(["", "print('dialect', __name__)"][which])
    if case["main"] == "no":
        pass
    else:
        write(target, "\n".join(lines) + "\n")
    if case["kind"] == "package" and "main" in case["inits"] or case["kind"] == "package" and len(case["body"]) % 2:
        write(os.path.join(home, "__init__.py"), "print('own init', __name__)\n")
    return target, dotted


ENTRY = "import re, sys\nfrom mcpyrate.repl.macropython import main\nif __name__ == '__main__':\n    sys.argv[0] = re.sub(r'(-script\\.pyw|\\.exe)?$', '', sys.argv[0])\n    sys.exit(main())\n"


def cache():
    """Where bytecode goes: not into /repo. Shared by all cases, so that mcpyrate itself is compiled once only."""
    return os.path.join(SCRATCH, "pyc")


def run(case, which, base):
    """Run the program with `macropython` (0) or `python` (1). Return [(status, output, errors)]."""
    home = os.path.join(base, str(which))
    root = os.path.join(home, "root")
    lib = os.path.join(home, "lib")
    for p in (root, lib, os.path.join(home, "bin"), os.path.join(home, "outside"), os.path.join(root, "otherdir")):
        os.makedirs(p, exist_ok=True)
    with open(os.path.join(lib, "mlib.py"), "w") as f:
        f.write(LIB)
    with open(os.path.join(home, "bin", "macropython"), "w") as f:
        f.write(ENTRY)
    target, dotted = layout(case, which, root)
    own = os.path.dirname(target)
    if case["link"] == "file" and os.path.exists(target):
        link = os.path.join(root, "otherdir", "link.py")
        os.symlink(target, link)
        target = link
    elif case["link"] == "dir":
        os.symlink(own, os.path.join(root, "linkdir"))
        target = os.path.join(root, "linkdir", os.path.basename(target))
    cwd = {"root": root, "own": own, "other": os.path.join(root, "otherdir"), "outside": os.path.join(home, "outside")}[case["cwd"]]
    pythonpath = [REPO, lib]
    if case["decoy"]:   # what is found on the path later on
        decoy = os.path.join(home, "decoy")
        os.makedirs(decoy)
        for name in ("sib0", "sib1", dotted.partition(".")[0] if dotted else "prog"):
            with open(os.path.join(decoy, name + ".py"), "w") as f:
                f.write("print('decoy')\nvalue = 'decoy'\ndef m(tree, **kw): return tree\n")
        pythonpath += [decoy, os.path.realpath(own if case["kind"] == "script" else root)]
    if case["kind"] == "script":
        if case["missing"]:
            target += "x"
        if case["path"] == "absolute":
            arg = target
        else:
            arg = os.path.relpath(target, cwd)
            if case["path"] == "dot":
                arg = "./" + arg
            elif case["path"] == "up":
                arg = os.path.join("..", os.path.basename(cwd), arg)
        args = [arg]
    else:
        if case["cwd"] in ("own", "other"):
            cwd = root
        elif case["cwd"] == "outside":
            pythonpath.append(root)
        args = ["-m", dotted + ("x" if case["missing"] else "")]
    if which == 1:
        command = [sys.executable] + args
    elif case["how"] == "m" and not (case["kind"] == "script" and (case["cwd"] == "own" or case["name"] == "mcpyrate.py")):    # python -m puts the working directory first on its path, and the files there may have any name
        command = [sys.executable, "-m", "mcpyrate.repl.macropython"] + args
    else:
        command = [sys.executable, os.path.join(home, "bin", "macropython")] + args
    env = {"PATH": os.environ.get("PATH", ""), "HOME": home, "LANG": "C.UTF-8", "PYTHONPATH": os.pathsep.join(pythonpath), "PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1",
           "PYTHONPYCACHEPREFIX": cache()}
    if not case["write"]:
        env["PYTHONDONTWRITEBYTECODE"] = "1"
    out = []
    for _ in range(2 if case["twice"] else 1):
        p = subprocess.run(command, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
        real = os.path.realpath(home)
        out.append((p.returncode, p.stdout.replace(real, "HOME").replace(home, "HOME"), p.stderr.replace(real, "HOME").replace(home, "HOME"), os.path.relpath(os.path.realpath(target), real), target.replace(home, "HOME")))
    return out


def entries(err, target, link):
    """The places in the user's program that a traceback goes through, and the exceptions it shows."""
    out = []
    for line in err.splitlines():
        m = re.match(r'\s*\|?\s*File "(HOME/(?:root|outside)[^"]*)"(?:, line (\d+))?(?:, in (.*))?', line)
        if m:
            path = os.path.normpath(m.group(1))
            if path == os.path.normpath(link):
                path = "HOME/" + target
            out.append([path, m.group(2), m.group(3)])
    return out


def last(err):
    """The last thing that the error output says: the exception."""
    lines = err.rstrip("\n").splitlines()
    while lines and re.match(r"\s+(\||\+)?", lines[-1]) and len(lines) > 1:
        lines.pop()
    return re.sub(r".*: UserWarning: careful$", "UserWarning: careful", lines[-1]) if lines else ""


def check(case, ctx):
    base = tempfile.mkdtemp(dir=SCRATCH)
    try:
        theirs = run(case, 1, base)
        mine = run(case, 0, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(cache() + base, ignore_errors=True)
    ctx.event(f"{case['kind']}, " + ("missing" if case["missing"] or case["main"] == "no" else "ends by " + case["end"]))
    ctx.event("status " + str(theirs[0][0]))
    for i, (m, t) in enumerate(zip(mine, theirs)):
        what = f"run {i + 1} of {case['kind']} {case['name']}: "
        require(m[1] == t[1], lambda: what + f"output is\n{m[1]}\nPython's is\n{t[1]}\nerrors: {m[2][-1500:]}\nPython's: {t[2][-1500:]}")
        if case["missing"] or case["main"] == "no" or last(t[2]).startswith(sys.executable + ": "):   # Python itself found nothing to run
            require((m[0] != 0) == (t[0] != 0), lambda: what + f"nothing to run, but the status is {m[0]}: {m[2]}")
            continue
        require(m[0] == t[0], lambda: what + f"exit status {m[0]}, Python's is {t[0]}: {m[2][-1500:]}")
        if case["end"] in FAILS_FIRST and t[0]:   # reported as an ImportError, because of the SyntaxError (C03)
            require(last(t[2]) in m[2].splitlines(), lambda: what + f"does not say {last(t[2])!r}: {m[2][-1500:]}")
            continue
        a, b = entries(m[2], *m[3:]), entries(t[2], *t[3:])
        require(a == b, lambda: what + f"traceback goes through {a}, Python's through {b}\n{m[2][-2500:]}\nPython's:\n{t[2][-1500:]}")
        require(last(m[2]) == last(t[2]), lambda: what + f"error output ends in {last(m[2])!r}, Python's in {last(t[2])!r}")
    macros = MACRO & (set(case["body"]) | {p for i in case["imports"] for p in i[1]})
    for k in macros:
        ctx.event("uses " + k)
    if "macro" in case["inits"] or any(i[0] == "relmacro" for i in case["imports"]) or case["end"].startswith("mac"):
        macros.add("other")
    ctx.nontrivial_case(bool(macros))


# ---- macropython -i, with its input from a pipe

CON_LIBS = "from mlib import macros, "
# (input for macropython, the same for Python); several lines if compound, and then with an empty line after it
CON_INPUTS = [
    ("1 + 1", None), ("print(__name__)", None), ("import sys; print(repr(sys.path[0]))", None), ("_", None), ("x = 7", None), ("x * 2", None), ("'é' * 2", None),
    ("if True:\n    x = 8\n    x + 1\n", None), ("def f(n):\n    return n * 2\n", None), ("f(4)", None), ("for i in range(2):\n    i\n", None), ("print('a',\n  'b')", None), ("t = \'\'\'one\ntwo?\'\'\'", None), ("t", None),
    ("# comment?", None), ("", None), ("nosuch", None), ("1/0", None), ("x = = 1", None), ("  x", None), ("return 1", None), ("f(\n3)", None), (")", None),
    ("import sib; sib.value", None), ("import msib; msib.value", None), ("import pkg.inner; pkg.inner.value", None), ("import os; os.chdir('sub')", None), ("import late; late.value", None),
    ("import broken", None), ("import nosuch_module", None), ("import atexit; _ = atexit.register(print, 'bye')", None), ("import sys; print('err', file=sys.stderr)", None),
    (CON_LIBS + "expr, nam", "pass"), (CON_LIBS + "arg, blk, deco", "pass"), ("from pkg.lib import macros, local", "pass"), ("from mlib import macros, expr as x1; x1[5]", "'X', 5"),
    ("expr[x]", "'X', x"), ("y = expr[expr[1]]", "y = 'X', ('X', 1)"), ("y", None), ("nam", "'N'"), ("arg[1, 2][3]", "[1, 2, 3]"), ("with blk:\n    print('twice')\n", "if 1:\n    print('twice'); print('twice')\n"),
    ("@deco\ndef g():\n    return expr[2]\n", "if 1:\n  def g_d():\n    return 'X', 2\n"), ("g_d()", None), ("local[x]", "['local', x]"),
]
CON_NEEDS = {"expr[": "expr", "nam": "nam", "arg[": "arg", "with blk": "blk", "@deco": "deco", "local[": "local"}
CON_ENDINGS = [None, None, "f(", "exit()", "exit(3)", "import sys; sys.exit('bad')", "raise SystemExit(4)", "raise SystemExit", "if 1:\n    quit(5)\n"]


@st.composite
def sessions(draw):
    s = pygen.Src(draw)
    have, steps = set(), []
    for _ in range(s.int(2, 14)):
        mine, plain = s.choice(CON_INPUTS)
        need = [v for k, v in CON_NEEDS.items() if mine.startswith(k) or (v == "expr" and "expr[" in mine)]
        if mine.startswith("from pkg") and any("chdir" in x[0] for x in steps):
            continue
        if mine.startswith("from ") and "as x1" not in mine:
            have.update(mine.split("macros, ")[1].split(", "))
        if not set(need) <= have:
            continue
        steps.append([mine, mine if plain is None else plain])
    end = s.choice(CON_ENDINGS)
    if end:
        steps.append([end, end])
    # `python -m` has the first working directory on its path for good
    return {"steps": steps, "how": s.choice(["m", "command"]) if not any("chdir" in x[0] for x in steps) else "command", "tail": s.choice(["\n", "", "\n\n"]), "history": s.chance(1, 4)}


PLAIN_CONSOLE = "import readline, code\ncode.InteractiveConsole(locals={}).interact(banner='', exitmsg='')"


def talk(case, which, base):
    home = os.path.join(base, str(which))
    cwd = os.path.join(home, "cwd")
    expansion = ["expr[1]", "('X', 1)"][which]
    imports = ["from mlib import macros, expr", ""][which]
    for name, text in {"lib/mlib.py": LIB, "bin/macropython": ENTRY, "cwd/sib.py": "value = 'sib'\n", "cwd/msib.py": f"{imports}\nvalue = {expansion}\n", "cwd/pkg/__init__.py": "", "cwd/pkg/inner.py": f"{imports}\nvalue = {expansion}\n",
                       "cwd/pkg/lib.py": "import ast\ndef local(tree, **kw): return ast.List(elts=[ast.Constant(value='local'), tree], ctx=ast.Load())\n",
                       "cwd/sub/late.py": f"{imports}\nvalue = {expansion}\n", "cwd/broken.py": "1/0\n"}.items():
        path = os.path.join(home, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
    if case["history"]:
        os.makedirs(os.path.join(home, ".config", "mcpyrate"))
        with open(os.path.join(home, ".config", "mcpyrate", "macropython_history"), "w") as f:
            f.write("old = 1\n")
    if which:
        command = [sys.executable, "-c", PLAIN_CONSOLE]
    elif case["how"] == "m":
        command = [sys.executable, "-m", "mcpyrate.repl.macropython", "-i"]
    else:
        command = [sys.executable, os.path.join(home, "bin", "macropython"), "-i"]
    env = {"PATH": os.environ.get("PATH", ""), "HOME": home, "LANG": "C.UTF-8", "PYTHONPATH": os.pathsep.join([REPO, os.path.join(home, "lib")]), "PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1",
           "PYTHONPYCACHEPREFIX": cache(), "PYTHONDONTWRITEBYTECODE": "1"}
    p = subprocess.run(command, cwd=cwd, env=env, input="\n".join(x[which] for x in case["steps"]) + case["tail"], capture_output=True, text=True, timeout=120)
    errors = [x for x in p.stderr.splitlines() if re.match(r"[A-Z]\w+(Error|Exception|Exit|Warning)\b|err$|bad$", x)]
    return p.returncode, p.stdout.replace(home, "HOME"), errors, p.stderr


def check_session(case, ctx):
    base = tempfile.mkdtemp(dir=SCRATCH)
    try:
        theirs = talk(case, 1, base)
        mine = talk(case, 0, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(cache() + base, ignore_errors=True)
    text = "\n".join(x[0] for x in case["steps"])
    ctx.event("session, status " + str(theirs[0]))
    # A line where Python has none (a macro-import) gives a prompt each, too.
    require(mine[1] == theirs[1], lambda: f"session\n{text}\noutput is\n{mine[1]}\nthat of a plain console is\n{theirs[1]}\nerrors: {mine[3][-1500:]}\nplain: {theirs[3][-1500:]}")
    require(mine[0] == theirs[0], lambda: f"session\n{text}\nexit status {mine[0]}, that of a plain console is {theirs[0]}: {mine[3][-1500:]}")
    require(mine[2] == theirs[2], lambda: f"session\n{text}\nerrors are {mine[2]}, those of a plain console are {theirs[2]}: {mine[3][-1500:]}")
    ctx.nontrivial_case(any(a != b for a, b in case["steps"] if b != "pass"))


TESTS = [Test("run", cases(), check, quick=700, thorough=6000), Test("session", sessions(), check_session, quick=250, thorough=3000)]
