"""Reference implementations, independent of the code under test."""

import ast


def set_ctx(node, ctx=ast.Load):
    """Give every node the expression context of its position. In place. Expects an unshared tree."""
    if isinstance(node, list):
        for x in node:
            set_ctx(x, ctx)
        return node
    if not isinstance(node, ast.AST):
        return node
    if isinstance(node, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred, ast.List, ast.Tuple)):
        node.ctx = ctx()
    inner = ctx if isinstance(node, (ast.Starred, ast.List, ast.Tuple)) else ast.Load
    store = {ast.Assign: ("targets",), ast.AnnAssign: ("target",), ast.AugAssign: ("target",), ast.NamedExpr: ("target",),
             ast.For: ("target",), ast.AsyncFor: ("target",), ast.comprehension: ("target",), ast.withitem: ("optional_vars",),
             ast.TypeAlias: ("name",)}.get(type(node), ())
    delete = ("targets",) if isinstance(node, ast.Delete) else ()
    for name, value in ast.iter_fields(node):
        if name == "ctx":
            continue
        set_ctx(value, ast.Store if name in store else ast.Del if name in delete else inner)
    return node


def unshare(node):
    """Copy so that no node instance appears twice."""
    if isinstance(node, list):
        return [unshare(x) for x in node]
    if isinstance(node, ast.AST):
        new = type(node).__new__(type(node))
        for k, v in node.__dict__.items():
            setattr(new, k, unshare(v) if isinstance(v, (ast.AST, list)) else v)
        return new
    return node


def flatten(x):
    out = []
    for e in x:
        if isinstance(e, list):
            out += flatten(e)
        elif e is not None:
            out.append(e)
    return out


def lift(v):
    """The AST of a literal for a value."""
    if isinstance(v, list):
        return ast.List(elts=[lift(x) for x in v], ctx=ast.Load())
    if isinstance(v, tuple):
        return ast.Tuple(elts=[lift(x) for x in v], ctx=ast.Load())
    if isinstance(v, dict):
        return ast.Dict(keys=[lift(x) for x in v.keys()], values=[lift(x) for x in v.values()])
    if isinstance(v, set):
        return ast.Set(elts=[lift(x) for x in v])
    return ast.Constant(value=v)
