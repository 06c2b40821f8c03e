"""Leaf macros that tag their use; three libraries with the same macro names, so that names clash."""

import ast
import sys
import types

from .sut import expander as _expander

KINDS = {"m": "expr", "k": "expr", "p": "param", "b": "block", "d": "decorator", "n": "name"}


def tag_expr(tag, *nodes):
    return ast.Tuple(elts=[ast.Constant(value=tag)] + list(nodes), ctx=ast.Load())


SRC = """
from harness.leaflib import tag_expr as _t
import ast
from mcpyrate import parametricmacro, namemacro
def m(tree, *, syntax, **kw):
    assert syntax == "expr"
    return _t(LIB + ".m", tree)
def k(tree, *, syntax, **kw):
    assert syntax == "expr"
    return _t(LIB + ".k", tree)
@parametricmacro
def p(tree, *, syntax, args, **kw):
    assert syntax == "expr"
    return _t(LIB + ".p", *args, tree)
def b(tree, *, syntax, **kw):
    assert syntax == "block"
    return ast.parse(f"log.append('{LIB}.b')").body + tree
def d(tree, *, syntax, **kw):
    assert syntax == "decorator"
    tree.decorator_list.insert(0, ast.parse(f"tag('{LIB}.d')", mode="eval").body)
    return tree
@namemacro
def n(tree, *, syntax, **kw):
    if syntax == "name":
        return _t(LIB + ".n")
    return tree
"""


def make_libs(names=("L1", "L2", "L3")):
    libs = {}
    for name in names:
        mod = types.ModuleType("leaflib_" + name)
        mod.LIB = name
        sys.modules[mod.__name__] = mod
        exec(compile(SRC, f"<{name}>", "exec"), mod.__dict__)
        libs[name] = mod
    return libs


class Clash:
    """A run-time object that shows when it is subscripted, called, or used as a value."""
    def __init__(self, name):
        self.name = name

    def __getitem__(self, v):
        return ("runtime " + self.name, v)
