"""Importing macro-free modules behaves as in plain Python."""

import ast
import contextlib
import importlib
import importlib.machinery
import json
import os
import py_compile
import shutil
import subprocess
import sys
import traceback
import warnings

from hypothesis import strategies as st

from checks.C02 import same_code
from harness import pygen
from harness.core import REPO, Reject, Test, require
from harness.sut import activate

PROPERTY = "C03"
RULE = ("'code': generated modules as bytes in one of 14 encodings (with and without BOM, cookie on line 1, 2 or wrong or missing), newline conventions, form feeds and optionally damaged text: what the loader gives with the expander active, "
        "code object or exception with all its fields, must be what it gives without. 'history': sequences of writing a runnable module or package (with times and sizes that may not change), importing, reloading, py_compile with each "
        "invalidation mode and optimization level, and removal of caches, in the two ways; namespaces, tracebacks, module attributes and the bytes of the pyc files must be the same after each step. 'flags': the same in new processes "
        "started with -O, -OO, -B, -I, and warnings as errors. Non-trivial: at least ten nodes, or an exception; at least two imports.")
ASSUMPTIONS = ["modules have no macro-imports or dialect-imports", "undecodable bytes in comments, which Python 3.12 overlooks when it compiles bytes, but not elsewhere, are left out"]

ENCODINGS = ["utf-8", "utf-8", "utf-8", "latin-1", "iso-8859-15", "cp1252", "koi8-r", "shift_jis", "euc-jp", "gb18030", "ascii", "utf-8-sig", "UTF8", "Latin_1", "nosuch", "rot13", "big5"]
EXTRA = ["é = 'é'", "s = 'naïve — “quotes”'", "# комментарий", "x = '日本語'", "переменная = 1", "'''déjà\nvu'''", "b = b'\\xff'", "s = '\\u1234'", "x = 'a' \\\n    'b'", "'''docstring'''", "\x0cx = 1", "if 1:\n\ty = 2", "x = '\\d'", "# type: ignore",
         "from __future__ import annotations", "macros = 1", "from os import path", "import os as macros", "def macros(): pass", "dialects = [1][0]", "with open(__file__) as f: pass", "phase = [0, 1]; phase[1]",
         "from . import x as macros", "from os import path as macros", "__future__ = 1", "assert x, 'no'", "x: int = 1", "print(__debug__)"]
DAMAGE = ["$", "= =", "(", ")", "\0", "'", '"""', "\udcff", "return 3", "if:", "\t", "  x", "\\", "0777", "1_", "f'{'", "await x", "é é", "\ufeff", "\x1a", "nonlocal x", "*a, *b = 1", "yield", "print 1", "lambda: (yield)", "async"]


@st.composite
def sources(draw):
    s = pygen.Src(draw)
    lines = []
    if s.chance(9, 10):
        src = draw(pygen.compilable_source())
        lines = src.split("\n") if len(src) < 4000 else []
    for _ in range(s.int(0, 3)):
        x = s.choice(EXTRA)
        lines.insert(0 if s.chance(3, 4) else s.int(0, len(lines)), x)
    text = "\n".join(lines)
    if s.chance(1, 5):
        i = s.int(0, len(text))
        text = text[:i] + s.choice(DAMAGE) + text[i:]
    elif s.chance(1, 10):
        text = text[:s.int(0, len(text))]
    return {"text": text, "encoding": s.choice(ENCODINGS), "cookie": s.weighted([(4, "right"), (2, "none"), (1, "second"), (1, "third"), (1, "wrong")]), "bom": s.chance(1, 8), "newline": s.choice(["\n", "\n", "\r\n", "\r", "mixed"]),
            "end": s.choice(["\n", "", "\n\n", " ", "#"]), "optimize": s.choice([-1, 0, 1, 2]), "style": s.choice(["# coding: {}", "# -*- coding: {} -*-", "# vim: set fileencoding={} :", "#coding={}"])}


def encode(case):
    text = case["text"] + case["end"]
    enc = case["encoding"]
    cookie = case["style"].format(enc if case["cookie"] != "wrong" else "ascii" if enc != "ascii" else "koi8-r")
    if case["cookie"] == "second":
        cookie = "#!/usr/bin/env python\n" + cookie
    elif case["cookie"] == "third":
        cookie = "\n\n" + cookie
    if case["cookie"] != "none":
        text = cookie + "\n" + text
    if case["newline"] == "mixed":
        text = "".join(x + ["\n", "\r\n", "\r"][i % 3] for i, x in enumerate(text.split("\n")))
    else:
        text = text.replace("\n", case["newline"])
    try:
        if enc == "rot13":
            raise LookupError
        data = text.encode(enc, "surrogateescape" if enc in ("utf-8", "UTF8") else "strict")
    except (LookupError, UnicodeEncodeError):
        data = text.encode("utf-8", "surrogateescape")
    return (b"\xef\xbb\xbf" if case["bom"] else b"") + data


def show_error(e):
    if isinstance(e, SyntaxError):
        return (type(e).__name__, e.msg, e.filename, e.lineno, e.offset, e.end_lineno, e.end_offset, e.text)
    return (type(e).__name__, str(e), repr(e.__cause__))


@contextlib.contextmanager
def mode(active):
    """Plain Python, or mcpyrate."""
    assert importlib.machinery.SourceFileLoader.source_to_code is activate.stdlib_source_to_code
    if active:
        activate.activate()
    try:
        yield
    finally:
        activate.deactivate()


def attempt(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return fn()
        except Exception as e:
            return e


COUNTER = [0]


def check_code(case, ctx):
    data = encode(case)
    try:
        importlib.util.decode_source(data.replace(b"\r\n", b"\n").replace(b"\r", b"\n"))
    except (SyntaxError, UnicodeDecodeError, LookupError):
        # Python 3.12 does not notice undecodable bytes in comments, but its own tokenizer module and `get_source` do.
        try:
            ast.parse(data)
        except Exception:
            pass
        else:
            raise Reject
    path = os.path.join(os.environ["VERIF_SCRATCH"], f"c03_{COUNTER[0]}.py")
    COUNTER[0] += 1
    dwb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        with open(path, "wb") as f:
            f.write(data)
        res = []
        for active in (False, True):
            with mode(active):
                loader = importlib.machinery.SourceFileLoader("c03", path)
                res.append(attempt(lambda: loader.get_code("c03")))
                if case["optimize"] != -1 and not isinstance(res[0], Exception):
                    res.append(attempt(lambda: loader.source_to_code(data, path, _optimize=case["optimize"])))
    finally:
        sys.dont_write_bytecode = dwb
        os.unlink(path)
    pairs = [(res[0], res[1])] if len(res) == 2 else [(res[0], res[2]), (res[1], res[3])]
    want = res[0]
    if isinstance(want, Exception):
        ctx.event("error: " + type(want).__name__)
        ctx.nontrivial_case(True)
    else:
        ctx.nontrivial_case(sum(1 for _ in ast.walk(ast.parse(data))) >= 10)
        ctx.event("valid")
    for want, got in pairs:
        if isinstance(want, Exception):
            require(isinstance(got, Exception), lambda: f"no error, expected {want!r}")
            a, b = show_error(want), show_error(got)
            require(a == b, lambda: f"error {b}, expected {a}")
        else:
            require(not isinstance(got, Exception), lambda: f"error {got!r}, cause {got.__cause__!r}; none expected")
            d = same_code(want, got)
            require(d is None, lambda: d)


# ---------------------------------------------------------------- histories
BODY = ["'''Docstring {n}.'''", "from __future__ import annotations", "x{n} = {n}", "def f{n}(a: int = {n}):\n    'doc'\n    return a + {n}", "class C{n}:\n    '''doc {n}'''\n    y: int = {n}\n    def m(self):\n        return __class__.__name__",
        "v{n} = [i * {n} for i in range(3)]", "try:\n    1 / 0\nexcept ZeroDivisionError as e:\n    z{n} = str(e)", "w{n} = __name__, __file__[-9:], __package__", "def g{n}():\n    raise ValueError({n})", "a{n} = __debug__", "try:\n    assert 0, {n}\nexcept AssertionError as e:\n    b{n} = str(e)",
        "ANN: int = {n}", "globals().setdefault('COUNT', 0)\nCOUNT += 1", "from os import path as macros", "d{n} = __doc__", "def h{n}(): pass\nk{n} = h{n}.__code__.co_firstlineno", "lambda{n} = (lambda *a, **k: (a, k))({n})", "import sys as dialects", "s{n} = __spec__.name, __loader__.__class__.__name__",
        "phase = [1, 2]\nwith open(__file__): pass\nq{n} = phase[1]"]
FAIL = ["1 / 0", "def bad(): raise KeyError({n})\nbad()", "x = = 1", "import c03_nosuch", "return 1", "'\udcff'", "class D(1): pass", "raise SystemExit({n})"]


@st.composite
def histories(draw):
    s = pygen.Src(draw)
    n = [0]

    def body():
        out = []
        for _ in range(s.int(1, 5)):
            n[0] += 1
            x = s.choice(BODY)
            if x.startswith(("'''", "from __f")) and out:
                continue
            out.append(x.replace("{n}", str(s.choice([1, 2, 3, 10]))))
        if s.chance(1, 7):
            out.append(s.choice(FAIL).replace("{n}", str(s.int(1, 9))))
        return "\n".join(out) + "\n"
    texts = [body() for _ in range(s.int(1, 3))]
    # a text of the same size as another
    texts.append(texts[0].replace("1", "4"))
    ops = [["write", 0, 0]]
    for _ in range(s.int(2, 9)):
        k = s.weighted([(4, "import"), (3, "write"), (2, "reload"), (2, "pycompile"), (1, "delpyc"), (1, "delsource"), (1, "touch"), (1, "corrupt")])
        if k == "write":
            ops.append(["write", s.int(0, len(texts) - 1), s.choice([0, 0, 0.4, 1, 2.5, -3])])
        elif k == "pycompile":
            ops.append(["pycompile", s.choice(["TIMESTAMP", "CHECKED_HASH", "UNCHECKED_HASH"]), s.choice([-1, 0, 1, 2])])
        elif k == "touch":
            ops.append(["touch", s.choice([0.4, 1, 2.5, -3])])
        elif k == "corrupt":
            ops.append(["corrupt", s.choice([0, 4, 8, 12, 30])])
        else:
            ops.append([k])
    return {"texts": texts, "ops": ops, "package": s.chance(1, 4), "write": s.chance(5, 6)}


def observe(v):
    if isinstance(v, (int, str, float, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [observe(x) for x in v]
    if isinstance(v, dict):
        return {str(k): observe(x) for k, x in v.items()}
    if isinstance(v, type):
        return ["class", v.__name__, v.__doc__, observe({k: x for k, x in vars(v).items() if k in ("y", "__annotations__", "__module__")}), v().m() if hasattr(v, "m") else None]
    if callable(v) and hasattr(v, "__code__"):
        c = v.__code__
        return ["function", v.__qualname__, c.co_firstlineno, c.co_code.hex(), repr(c.co_consts) if "<code" not in repr(c.co_consts) else "", v.__doc__, observe(v.__annotations__), os.path.basename(c.co_filename), [list(p) for p in c.co_positions()]]
    return type(v).__name__


def observe_error(e):
    tb = [(os.path.basename(f.filename), f.lineno, f.name, f.line, f.colno, f.end_colno) for f in traceback.extract_tb(e.__traceback__) if "c03mod" in f.filename]
    return list(show_error(e)) + [tb]


def observe_module(m):
    return {"ns": {k: observe(v) for k, v in vars(m).items() if k not in ("__builtins__", "__spec__", "__loader__", "__path__", "__cached__")}, "cached": os.path.basename(m.__cached__ or ""), "loader": type(m.__loader__).__name__,
            "origin": os.path.basename(m.__spec__.origin or ""), "cached2": os.path.basename(m.__spec__.cached or ""), "path": [os.path.basename(p) for p in getattr(m, "__path__", [])]}


def live(case, base):
    """The observations of a history. Restores everything."""
    name = "c03mod"
    out = []
    os.makedirs(base)
    filename = os.path.join(base, name, "__init__.py") if case["package"] else os.path.join(base, name + ".py")
    os.makedirs(os.path.dirname(filename), exist_ok=True)
    t = [1700000000.0]
    dwb, sys.dont_write_bytecode = sys.dont_write_bytecode, not case["write"]
    sys.path.insert(0, base)
    mod = None

    def stamp():
        os.utime(filename, ns=(int(t[0] * 1e9), int(t[0] * 1e9)))
    try:
        for op in case["ops"]:
            k = op[0]
            res = None
            if k == "write":
                t[0] += op[2]
                with open(filename, "wb") as f:
                    f.write(case["texts"][op[1]].encode("utf-8", "surrogateescape"))
                stamp()
            elif k == "touch" and os.path.exists(filename):
                t[0] += op[1]
                stamp()
            elif k == "import":
                sys.modules.pop(name, None)
                importlib.invalidate_caches()
                try:
                    mod = importlib.import_module(name)
                    res = observe_module(mod)
                except (Exception, SystemExit) as e:
                    mod = None
                    res = observe_error(e)
            elif k == "reload" and mod is not None and name in sys.modules:
                try:
                    mod = importlib.reload(mod)
                    res = observe_module(mod)
                except (Exception, SystemExit) as e:
                    res = observe_error(e)
            elif k == "pycompile" and os.path.exists(filename):
                try:
                    res = os.path.basename(py_compile.compile(filename, doraise=True, optimize=op[2], invalidation_mode=getattr(py_compile.PycInvalidationMode, op[1])))
                except py_compile.PyCompileError as e:
                    res = "PyCompileError"
                    del e
            elif k == "delpyc":
                shutil.rmtree(os.path.join(os.path.dirname(filename), "__pycache__"), ignore_errors=True)
            elif k == "delsource":
                if os.path.exists(filename):
                    os.unlink(filename)
            elif k == "corrupt":
                p = importlib.util.cache_from_source(filename)
                if os.path.exists(p):
                    with open(p, "r+b") as f:
                        f.seek(op[1])
                        f.write(b"\x01\x02")
                    if op[1] > 12:
                        os.unlink(p)
            pycs = {}
            cache = os.path.join(os.path.dirname(filename), "__pycache__")
            for f in sorted(os.listdir(cache)) if os.path.isdir(cache) else []:
                if f.endswith(".pyc"):
                    with open(os.path.join(cache, f), "rb") as ff:
                        data = ff.read()
                    pycs[f] = [data[:16].hex(), len(data)]
            left = sorted(k for k in sys.modules if k.startswith("c03mod"))
            out.append([k, res, pycs, left])
    finally:
        sys.path.remove(base)
        sys.dont_write_bytecode = dwb
        for k in [k for k in sys.modules if k.startswith("c03mod")]:
            del sys.modules[k]
        shutil.rmtree(base, ignore_errors=True)
        sys.path_importer_cache.pop(base, None)
    return out


def check_history(case, ctx):
    if any(op[:2] == ["pycompile", "UNCHECKED_HASH"] for op in case["ops"]):
        # Python does not look at the source file then; mcpyrate documents that it has no support for hash-based pyc files
        for text in case["texts"]:
            try:
                ast.parse(text.encode("utf-8", "surrogateescape"))
            except (SyntaxError, ValueError):
                raise Reject
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c03h_{COUNTER[0]}")
    COUNTER[0] += 1
    res = []
    for active in (False, True):
        with mode(active), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res.append(live(case, base))
    want, got = json.loads(json.dumps(res))
    ctx.nontrivial_case(sum(x[0] in ("import", "reload") and x[1] is not None for x in want) >= 2)
    for i, (w, g) in enumerate(zip(want, got)):
        ctx.event(w[0] + (" fails" if isinstance(w[1], list) else ""))
        if w != g:
            d = ""
            for x, y in zip(w, g):
                if isinstance(x, dict) and isinstance(y, dict):
                    for k in sorted(set(x) | set(y)):
                        if x.get(k) != y.get(k):
                            d += f"\n{k}: {json.dumps(y.get(k))[:600]}\nexpected {json.dumps(x.get(k))[:600]}"
                elif x != y:
                    d += f"\n{json.dumps(y)[:600]}\nexpected {json.dumps(x)[:600]}"
            require(False, f"after operation {i} {case['ops'][i]}: {d}")


# ---------------------------------------------------------------- processes
RUNNER = r"""
import sys, json, os
sys.path[:0] = [p for p in (%(repo)r, %(base)r, "/opt/venv/lib/python3.12/site-packages") if p not in sys.path]
sys.path.append(%(verif)r)
%(pre)s
import importlib
out = []
for i in range(2):
    sys.modules.pop("c03mod", None)
    try:
        m = importlib.import_module("c03mod")
        out.append({k: repr(v) if "0x" not in repr(v) else type(v).__name__ for k, v in vars(m).items() if k not in ("__builtins__", "__spec__", "__loader__")})
        out.append([m.__doc__, sorted(k for k in vars(m))])
    except BaseException as e:
        tb = e.__traceback__
        lines = []
        while tb:
            if "c03mod" in tb.tb_frame.f_code.co_filename:
                lines.append([tb.tb_lineno, tb.tb_frame.f_code.co_name])
            tb = tb.tb_next
        out.append([type(e).__name__, str(e), lines])
cache = os.path.join(%(base)r, "__pycache__")
out.append(sorted(f for f in os.listdir(cache) if f.endswith(".pyc")) if os.path.isdir(cache) else [])
print("RESULT" + json.dumps(out))
"""


@st.composite
def flagcases(draw):
    case = draw(histories())
    s = pygen.Src(draw)
    return {"text": case["texts"][0], "flags": s.choice([[], ["-O"], ["-OO"], ["-B"], ["-O", "-B"], ["error"], ["-I"], ["-X", "utf8=0"], ["-bb"], ["-OO", "error"]])}


def check_flags(case, ctx):
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c03f_{COUNTER[0]}")
    COUNTER[0] += 1
    res = []
    ctx.nontrivial_case(True)
    ctx.event(" ".join(case["flags"]) or "no flags")
    for active in (False, True):
        os.makedirs(base)
        try:
            with open(os.path.join(base, "c03mod.py"), "wb") as f:
                f.write(case["text"].encode("utf-8", "surrogateescape"))
            os.utime(os.path.join(base, "c03mod.py"), (1700000000, 1700000000))
            code = RUNNER % {"repo": REPO, "base": base, "verif": os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pre": ("import mcpyrate.activate\n" if active else "") + ("import warnings; warnings.simplefilter('error')" if "error" in case["flags"] else "")}
            p = subprocess.run([sys.executable, *[f for f in case["flags"] if f != "error"], "-c", code], capture_output=True, text=True, timeout=100, cwd=base, env=dict(os.environ, PYTHONPATH=""))
            line = [x for x in p.stdout.split("\n") if x.startswith("RESULT")]
            res.append(line[0] if line else f"no result: {p.stdout[-300:]} {p.stderr[-1000:]}")
        finally:
            shutil.rmtree(base, ignore_errors=True)
    require(res[0].startswith("RESULT"), lambda: f"plain Python failed: {res[0]}")
    require(res[0] == res[1], lambda: f"with mcpyrate: {res[1][:1500]}\nexpected: {res[0][:1500]}")


TESTS = [Test("code", sources(), check_code, quick=9000, thorough=200000),
         Test("history", histories(), check_history, quick=5000, thorough=100000),
         Test("flags", flagcases(), check_flags, quick=64, thorough=1500)]
