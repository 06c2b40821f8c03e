"""Generated macros and macro-enabled programs, and a reference macro expander written from the documentation.

A macro is described by data (a spec): whether it is parametric / an identifier macro, and what it does in each
syntax. `make_macro` turns a spec into a macro function, which is used with the real expander and with the
reference one; it only uses its arguments and `expander.visit*`.
"""

import ast
import copy

from . import mac, pygen
from .core import Reject
from .sut import expander as mexpander

from .sut import core as mcore

Done = mcore.Done
MACROS = ["m0", "m1", "m2", "m3"]

EXPR_KINDS = ["tag", "id", "dup", "drop", "const", "recurse", "once", "visit", "emit", "emit2", "swap", "done"]
BLOCK_KINDS = ["tag", "id", "dup", "drop", "wrap", "recurse", "once", "visit", "emit", "asvar", "one", "gen"]
DECO_KINDS = ["tag", "id", "drop", "replace", "recurse", "once", "emit", "extra", "strip", "body"]
NAME_KINDS = ["tag", "same", "other", "drop", "emit", "wrapself", "chain"]


def is_empty(tree):
    return tree is None or (isinstance(tree, list) and not tree)


def tagcall(name, *args):
    return ast.Call(func=ast.Name(id="_v", ctx=ast.Load()), args=[ast.Constant(value=name)] + [a for a in args if a is not None], keywords=[])


def logstmt(name):
    return ast.Expr(value=tagcall(name))


def aslist(x):
    return [] if x is None else x if isinstance(x, list) else [x]


def clean_dump(tree):
    """Structure of an input tree, without the expander's own markers, coverage statements and contexts."""
    return mac.dump_noctx(strip(copy.deepcopy(tree)))


def strip(tree):
    """Remove `Done` markers and coverage statements. In place; returns the result (list for a list)."""
    if isinstance(tree, list):
        out = []
        for x in tree:
            if mac.is_coverage_dummy(x):
                continue
            was = x
            x = strip(x)
            if x is None and was is not None:
                continue
            if isinstance(x, list):
                out += x
            else:
                out.append(x)
        return out
    if isinstance(tree, Done):
        return strip(tree.body)
    if isinstance(tree, ast.AST):
        for name, value in list(ast.iter_fields(tree)):
            if isinstance(value, (list, ast.AST)):
                setattr(tree, name, strip(value))
    return tree


def make_macro(name, spec, log, wrap=True):
    """The macro function for `spec`. Appends `[name, syntax, input, args, as-part]` to `log` at each invocation."""
    def macro(tree, *, syntax, expander, invocation, args, **kw):
        log.append([name, syntax, clean_dump(tree), None if args is None else [clean_dump(a) for a in args],
                    clean_dump(kw["optional_vars"]) if kw.get("optional_vars") is not None else None])
        kind, other = spec[syntax]
        return BEHAVIOR[syntax](name, kind, other, tree, args, expander, kw)
    if wrap:
        if spec["param"]:
            macro = mexpander.parametricmacro(macro)
        if spec["nm"]:
            macro = mexpander.namemacro(macro)
    macro.__name__ = macro.__qualname__ = name
    macro.spec = spec
    return macro


def do_expr(name, kind, other, tree, args, expander, kw):
    argnodes = list(args or [])
    if kind == "tag":
        return tagcall(name, *argnodes, tree)
    if kind == "id":
        return tree
    if kind == "dup":
        return ast.Tuple(elts=[tree, copy.deepcopy(tree)], ctx=ast.Load())
    if kind == "drop":
        return None
    if kind == "const":
        return ast.Constant(value=name)
    if kind == "recurse":
        return tagcall(name, expander.visit_recursively(tree))
    if kind == "once":
        return tagcall(name, expander.visit_once(tree))
    if kind == "visit":
        return tagcall(name, expander.visit(tree))
    if kind == "emit":
        return ast.Subscript(value=ast.Name(id=other, ctx=ast.Load()), slice=tree, ctx=ast.Load())
    if kind == "emit2":
        return ast.BinOp(left=ast.Subscript(value=ast.Name(id=other, ctx=ast.Load()), slice=tree, ctx=ast.Load()), op=ast.Add(),
                         right=ast.Subscript(value=ast.Name(id=other, ctx=ast.Load()), slice=ast.Constant(value=1), ctx=ast.Load()))
    if kind == "swap":
        # unpack one known shape, else keep
        if isinstance(tree, ast.BinOp):
            return ast.BinOp(left=tree.right, op=tree.op, right=tree.left)
        if isinstance(tree, (ast.Tuple, ast.List)):
            return ast.List(elts=tree.elts[::-1], ctx=ast.Load())
        return tree
    if kind == "done":
        return Done(tagcall(name, tree))
    raise AssertionError(kind)


def do_block(name, kind, other, tree, args, expander, kw):
    tree = aslist(tree)
    if kind == "tag":
        return [logstmt(name)] + tree
    if kind == "id":
        return tree
    if kind == "dup":
        return tree + copy.deepcopy(tree)
    if kind == "drop":
        return None
    if kind == "wrap":
        return ast.If(test=tagcall(name, *(args or [])), body=tree, orelse=[])
    if kind == "recurse":
        return [logstmt(name)] + aslist(expander.visit_recursively(tree))
    if kind == "once":
        return [logstmt(name), expander.visit_once(tree)]
    if kind == "visit":
        return [logstmt(name)] + aslist(expander.visit(tree))
    if kind == "emit":
        return ast.With(items=[ast.withitem(context_expr=ast.Name(id=other, ctx=ast.Load()), optional_vars=None)], body=tree)
    if kind == "asvar":
        v = kw.get("optional_vars")
        return ([ast.Assign(targets=[copy.deepcopy(v)], value=tagcall(name))] if v is not None else []) + tree
    if kind == "one":
        return tree[0]
    if kind == "gen":
        return (x for x in [logstmt(name)] + tree)
    raise AssertionError(kind)


def do_decorator(name, kind, other, tree, args, expander, kw):
    if kind == "tag":
        tree.decorator_list.insert(0, tagcall(name, *(args or [])))
        return tree
    if kind == "id":
        return tree
    if kind == "drop":
        return None
    if kind == "replace":
        return logstmt(name)
    if kind == "recurse":
        return expander.visit_recursively(tree)
    if kind == "once":
        return expander.visit_once(tree)
    if kind == "emit":
        tree.decorator_list.append(ast.Name(id=other, ctx=ast.Load()))
        return tree
    if kind == "extra":
        return [logstmt(name), tree]
    if kind == "strip":
        tree.decorator_list = []
        return tree
    if kind == "body":
        tree.body = aslist(expander.visit_recursively(tree.body)) + [logstmt(name)]
        return tree
    raise AssertionError(kind)


def do_name(name, kind, other, tree, args, expander, kw):
    if kind == "tag":
        return tagcall(name)
    if kind == "same":
        return tree
    if kind == "other":
        return ast.Name(id="other_" + name, ctx=ast.Load())
    if kind == "drop":
        return None
    if kind == "emit":
        return ast.Subscript(value=ast.Name(id=other, ctx=ast.Load()), slice=ast.Constant(value=1), ctx=ast.Load())
    if kind == "wrapself":
        return tagcall(name, Done(tree))
    if kind == "chain":
        return ast.Name(id=other, ctx=ast.Load())
    raise AssertionError(kind)


BEHAVIOR = {"expr": do_expr, "block": do_block, "decorator": do_decorator, "name": do_name}


# ---------------------------------------------------------------- reference

class RefExpander:
    """What the documentation says the expander does. Builds the result on the given tree (give it a copy)."""

    def __init__(self, macros, filename="<case>"):
        self.macros = macros      # name -> macro function
        self.filename = filename
        self.recursive = True
        self.warned = False

    # -- the interface for macro functions
    def visit(self, t):
        if t is None or isinstance(t, Done):
            return t
        if isinstance(t, list):
            out = []
            for x in t:
                out += aslist(self.visit(x)) if not isinstance(x, str) else [x]
            return out or None
        if isinstance(t, ast.Subscript):
            r = self.subscript(t)
        elif isinstance(t, ast.With):
            r = self.with_(t)
        elif isinstance(t, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            r = self.decorated(t)
        elif isinstance(t, ast.Name):
            r = self.name(t)
        else:
            r = self.children(t)
        return r

    def visit_recursively(self, t):
        return self._in_mode(True, lambda: self.visit(t))

    def visit_once(self, t):
        return self._in_mode(False, lambda: Done(self.visit(t)))

    def _in_mode(self, mode, f):
        saved = self.recursive
        self.recursive = mode
        try:
            return f()
        finally:
            self.recursive = saved

    # -- detection
    def children(self, t):
        for name, value in ast.iter_fields(t):
            if isinstance(value, list):
                out = []
                for x in value:
                    if isinstance(x, ast.AST):
                        out += aslist(self.visit(x))
                    else:
                        out.append(x)
                value[:] = out
            elif isinstance(value, ast.AST):
                new = self.visit(value)
                assert new is not None
                setattr(t, name, new)
        return t

    def parse_use(self, node, allow_bad=False):
        """(macro name, args) if `node` has the shape of a macro reference."""
        if isinstance(node, ast.Name):
            return node.id, []
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name):
            return node.value.id, (node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice])
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and not node.keywords:
            return node.func.id, node.args
        return None, None

    def is_use(self, node, warn=False):
        name, args = self.parse_use(node)
        if name not in self.macros:
            return False
        if warn and args and not self.macros[name].spec["param"]:
            self.warned = True
        # `m[...]` or `m(...)` is a use with arguments only if `m` is parametric
        if isinstance(node, ast.Name):
            return True
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Tuple) and not node.slice.elts:
            return True  # `m[()]`: no arguments
        if isinstance(node, ast.Call) and not node.args:
            return True  # `m()`; to be rejected
        return self.macros[name].spec["param"]

    def args_of(self, node):
        name, args = self.parse_use(node)
        if isinstance(node, ast.Call) and (not node.args or any(isinstance(a, ast.Starred) for a in node.args)):
            raise SyntaxError("macro arguments")
        return name, args

    limit = 600
    count = 0

    def counted(self):
        self.count += 1
        if self.count > self.limit:
            raise Reject("too many invocations")

    def invoke(self, name, syntax, tree, **kw):
        self.counted()
        out = self.macros[name](tree, syntax=syntax, expander=self, **kw)
        if out is not None and not isinstance(out, ast.AST):
            out = list(out)
        if out is not None and self.recursive:
            out = self.visit(out)
        return out

    def none(self, at):
        node = ast.Call(func=ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                                             body=ast.Constant(value=None)), args=[], keywords=[])
        for n in (node, node.func, node.func.body):
            ast.copy_location(n, at)
        return Done(node)

    def subscript(self, t):
        if self.is_use(t.value):
            name, args = self.args_of(t.value)
            out = self.invoke(name, "expr", t.slice, invocation=t, args=args)
            return self.none(t) if out is None else out
        return self.children(t)

    def with_(self, t):
        for item in t.items:
            self.is_use(item.context_expr, True)
        for i, item in enumerate(t.items):
            if self.is_use(item.context_expr, True):
                name, args = self.args_of(item.context_expr)
                original = copy.copy(t)
                t.items = t.items[:i] + t.items[i + 1:]
                tree = [t] if t.items else t.body
                return self.invoke(name, "block", tree, invocation=original, args=args, optional_vars=item.optional_vars)
        return self.children(t)

    def decorated(self, t):
        for item in t.decorator_list:
            self.is_use(item, True)
        for i in reversed(range(len(t.decorator_list))):
            if self.is_use(t.decorator_list[i], True):
                name, args = self.args_of(t.decorator_list[i])
                original = copy.copy(t)
                t.decorator_list = t.decorator_list[:i] + t.decorator_list[i + 1:]
                return self.invoke(name, "decorator", t, invocation=original, args=args)
        return self.children(t)

    def name(self, t):
        if t.id not in self.macros or not self.macros[t.id].spec["nm"]:
            return t
        out = self._in_mode(False, lambda: self.invoke(t.id, "name", t, invocation=t, args=None))
        if out is None:
            return self.none(t)
        if isinstance(out, ast.Name) and out.id == t.id:
            return Done(out)
        return self.visit(out) if self.recursive else out


# ---------------------------------------------------------------- generation

def gen_specs(s, macros=MACROS, kinds=None):
    """Specs for all of `macros`; a macro emits uses only of macros before it, so expansion ends."""
    out = {}
    kinds = kinds or {}
    for i, m in enumerate(macros):
        spec = {"param": s.chance(1, 3), "nm": s.chance(1, 4)}
        for syntax, pool in (("expr", EXPR_KINDS), ("block", BLOCK_KINDS), ("decorator", DECO_KINDS), ("name", NAME_KINDS)):
            pool = kinds.get(syntax, pool)
            kind = s.choice(pool)
            other = None
            if kind in ("emit", "emit2", "chain"):
                if i == 0:
                    kind = "tag" if "tag" in pool else pool[0]
                else:
                    other = macros[s.int(0, i - 1)]
            spec[syntax] = [kind, other]
        out[m] = spec
    return out


class MGen(pygen.PyGen):
    """Programs with macro uses of all kinds, and things that look like them."""

    def __init__(self, src, specs, *, look_alikes=True, names_too=True, density=1, bad_args=True, **kw):
        names = list(kw.pop("names", ["x", "y", "f", "obj", "n0"]))
        self.macros = list(specs)
        self.bad_args = bad_args
        self.specs = specs
        if names_too:
            names = names * 2 + self.macros
        super().__init__(src, names=names, **kw)
        self.look_alikes = look_alikes
        self.extra_rate, self.extra_stmt_rate = (2, 5), (2, 5)
        self.extra_expr = [MGen.expr_use] * 3 + ([MGen.expr_like] if look_alikes else [])
        self.extra_stmt = [MGen.block_use, MGen.block_use, MGen.deco_use]

    def mname(self, param=None):
        pool = [m for m in self.macros if param is None or self.specs[m]["param"] == param]
        return self.s.choice(pool) if pool else None

    def ref(self, d, m=None):
        """A reference to a macro, maybe with arguments."""
        s = self.s
        m = m or self.mname()
        name = ast.Name(id=m, ctx=ast.Load())
        if not self.specs[m]["param"] or s.chance(1, 3):
            return name
        args = self.many(lambda: self.expr(min(d - 1, 1)), 1, 2)
        if s.chance(1, 2):
            if self.bad_args and s.chance(1, 25):     # not valid, to be reported
                bad = s.choice([None, ast.Starred(value=self.leaf(), ctx=ast.Load())])
                args = args + [bad] if bad and s.chance(1, 2) else [bad] + args if bad else []
            return ast.Call(func=name, args=args, keywords=[])
        return ast.Subscript(value=name, slice=args[0] if len(args) == 1 and not isinstance(args[0], ast.Tuple) else ast.Tuple(elts=args, ctx=ast.Load()), ctx=ast.Load())

    def expr_use(self, d):
        ref = self.ref(d)
        return ast.Subscript(value=ref, slice=self.slice(d - 1), ctx=ast.Load())

    def expr_like(self, d):
        s = self.s
        m = ast.Name(id=self.mname(), ctx=ast.Load())
        k = s.int(0, 7)
        e = lambda: self.expr(d - 1)
        if k == 0:
            return ast.Call(func=m, args=[e()], keywords=[])
        if k == 1:
            return ast.Attribute(value=m, attr="x", ctx=ast.Load())
        if k == 2:
            return ast.Subscript(value=ast.Attribute(value=ast.Name(id="x", ctx=ast.Load()), attr=m.id, ctx=ast.Load()), slice=e(), ctx=ast.Load())
        if k == 3:
            return ast.Subscript(value=ast.Call(func=m, args=[e()], keywords=[ast.keyword(arg="k", value=e())]), slice=e(), ctx=ast.Load())
        if k == 4:
            return ast.Subscript(value=ast.Subscript(value=self.ref(d), slice=e(), ctx=ast.Load()), slice=e(), ctx=ast.Load())
        if k == 5:
            return ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[], keywords=[ast.keyword(arg=m.id, value=e())])
        if k == 6:
            return ast.Subscript(value=ast.Subscript(value=ast.Subscript(value=m, slice=e(), ctx=ast.Load()), slice=e(), ctx=ast.Load()), slice=e(), ctx=ast.Load())
        return ast.Subscript(value=ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[m], keywords=[]), slice=e(), ctx=ast.Load())

    def item(self, d):
        return ast.withitem(context_expr=self.ref(d) if self.s.chance(2, 3) else self.expr(1),
                            optional_vars=self.target(1) if self.s.chance(1, 3) else None)

    def block_use(self, d):
        s = self.s
        n = s.weighted([(5, 1), (3, 2), (1, 3)])
        items = [self.item(d) for _ in range(n)]
        cls = ast.AsyncWith if s.chance(1, 10) else ast.With
        return cls(items=items, body=self.body(d - 1))

    def deco_use(self, d):
        s = self.s
        fn = self.funcdef(d - 1) if s.chance(2, 3) else self.classdef(d - 1)
        fn.decorator_list = [self.ref(d) if s.chance(2, 3) else self.expr(1) for _ in range(s.weighted([(5, 1), (3, 2), (1, 3)]))]
        return fn


def prune(specs, src):
    """The specs of macros that are reachable from `src` (for readable cases)."""
    return specs


def bindings_for(specs, log):
    return {m: make_macro(m, sp, log) for m, sp in specs.items()}


def finish(tree):
    """Canonical text of an expansion result: no contexts, markers or coverage statements."""
    return mac.dump_noctx(strip(copy.deepcopy([] if tree is None else tree)))
