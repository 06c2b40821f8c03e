"""Running macro-enabled source text in-process, through the real expander and compiler."""

import ast
import warnings

from .sut import core as mcore, expander, quotes, mcpyrate

warnings.simplefilter("ignore")

QNAMES = ("q", "u", "n", "a", "s", "t", "h")
# identifiers that never clash with the quasiquote operators
SAFE = ["b", "c", "x", "y", "f", "g", "obj", "_", "__x", "é", "match", "type", "print", "len", "ValueError"]


def qbindings(alias=None):
    alias = alias or {}
    return {alias.get(k, k): getattr(quotes, k) for k in QNAMES}


def expand(tree, bindings, filename="<case>"):
    return expander.expand_macros(tree, dict(bindings), filename=filename)


def expand_src(src, bindings, filename="<case>"):
    return expand(ast.parse(src, filename), bindings, filename)


def execute(tree, ns=None, filename="<case>"):
    """Compile and run an expanded module AST; return its namespace."""
    ns = ns if ns is not None else {}
    ns.setdefault("__name__", "__case__")
    ns.setdefault("mcpyrate", mcpyrate)
    code = compile(tree, filename, "exec", dont_inherit=True)
    exec(code, ns)
    return ns


def run_src(src, bindings, ns=None, filename="<case>"):
    return execute(expand_src(src, bindings, filename), ns, filename)


class _Strip(ast.NodeVisitor):
    def generic_visit(self, node):
        if hasattr(node, "ctx"):
            node.ctx = None
        super().generic_visit(node)


def dump_noctx(tree):
    """Structural dump that ignores expression contexts (node or list of nodes)."""
    import re
    from .sut import dump
    s = dump(tree)
    s = re.sub(r"(?:, )?ctx=(?:Load|Store|Del)\(\)", "", s)
    return s.replace("(, ", "(")


def has_location(node):
    return any(hasattr(node, a) for a in ("lineno", "col_offset"))


def is_coverage_dummy(node):
    if isinstance(node, mcore.Done):
        node = node.body
    return (isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name)
            and node.targets[0].id == "_mcpyrate_coverage")


def strip_coverage(tree):
    """Remove the statements injected for coverage tools, in place."""
    if isinstance(tree, list):
        tree[:] = [x for x in tree if not is_coverage_dummy(x)]
        for x in tree:
            strip_coverage(x)
    elif isinstance(tree, ast.AST):
        for _, v in ast.iter_fields(tree):
            if isinstance(v, (list, ast.AST)):
                strip_coverage(v)
    return tree
