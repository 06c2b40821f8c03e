"""Real-world input: top-level statements of the files of the standard library."""

import ast
import functools
import os

from hypothesis import strategies as st

from .core import Reject

LIB = os.path.dirname(os.__file__)


@functools.lru_cache(maxsize=None)
def libfiles():
    out = []
    for root, dirs, files in os.walk(LIB):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "site-packages", "dist-packages"))
        out += [os.path.relpath(os.path.join(root, f), LIB) for f in sorted(files) if f.endswith(".py")]
    return sorted(out)


@functools.lru_cache(maxsize=64)
def libsource(rel):
    with open(os.path.join(LIB, rel), "rb") as f:
        data = f.read()
    try:
        ast.parse(data)
        return data
    except (SyntaxError, ValueError):
        return None


def statement(case, limit=1500):
    """A fresh AST of the statement that `case` (a pair of numbers) stands for."""
    rel, k = case
    files = libfiles()
    data = libsource(files[rel % len(files)])
    if data is None:
        raise Reject("not parseable")
    body = ast.parse(data).body
    if not body:
        raise Reject("empty")
    stmt = body[k % len(body)]
    if sum(1 for _ in ast.walk(stmt)) > limit:
        raise Reject("too big")
    return stmt


def statements():
    return st.tuples(st.integers(0, 5000), st.integers(0, 200)).map(list)
