"""The system under test: import every part of mcpyrate from the working tree, with its import hook off."""

import sys

_SITE = "/opt/venv/lib/python3.12/site-packages"  # colorama (a hard dependency), IPython
if _SITE not in sys.path:
    sys.path.append(_SITE)

import ast  # noqa: E402

import mcpyrate  # noqa: E402
import mcpyrate.activate as activate  # noqa: E402
from mcpyrate import (  # noqa: E402, F401
    ansi, astcompat, astdumper, astfixers, bunch, colorizer, compiler, core, coreutils, debug, dialects,
    expander, importer, markers, metatools, multiphase, pycachecleaner, quotes, splicing, unparser, utils, walkers)

activate.deactivate()  # imports of the machinery itself are not to go through the code under test

from .core import REPO, HarnessError  # noqa: E402

if not mcpyrate.__file__.startswith(REPO):
    raise HarnessError(f"mcpyrate imported from {mcpyrate.__file__}, expected it under {REPO}")


def dump(tree):
    """Structure of an AST (no source locations), for comparison. Node or list of nodes."""
    if isinstance(tree, list):
        return "[" + ", ".join(dump(x) for x in tree) + "]"
    if isinstance(tree, ast.AST):
        return ast.dump(tree)
    return repr(tree)


class _NoKind(ast.NodeTransformer):
    """Erase the `u` prefix of string snippets in f-strings; it has no notation there."""
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        for v in node.values:
            if isinstance(v, ast.Constant):
                v.kind = None
        return node


def norm(tree):
    import copy
    if isinstance(tree, list):
        return [norm(x) for x in tree]
    return _NoKind().visit(copy.deepcopy(tree))


def diff(a, b, n=160):
    """Where two dumps first differ."""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    lo = max(0, i - 60)
    return f"expected ...{a[lo:i + n]!r}...\n     got ...{b[lo:i + n]!r}..."
