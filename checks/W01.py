"""AST walkers visit, transform and collect as documented."""

import ast
import zlib

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, require
from harness.sut import diff, dump, walkers

PROPERTY = "W01"
RULE = ("Cases: a generated module and a random walker program: a table of actions (recurse, stop, recurse into some fields, replace, delete, splice a list, collect before or after recursing, "
        "update or rebind the state, withstate / generic_withstate with new bindings for a random child, a whole list field, or all children, raise) chosen by a node's type and a hash. Run with "
        "ASTVisitor and ASTTransformer, on a node or statement list, several times with and without reset, and compared with a functional reference interpreter: visiting order, state seen at "
        "each node, collected values, resulting tree. Non-trivial: at least 6 nodes visited and at least one action other than plain recursion.")
ASSUMPTIONS = ["state of context and operator nodes (singletons in the parser's output) is not compared: states are documented to be set by the identity of the node"]

ACTIONS = ["recurse", "recurse", "recurse", "recurse", "stop", "fields", "collect_pre", "collect_post", "bump", "rebind", "with_child", "with_list", "with_all", "with_two", "raise"]
TACTIONS = ACTIONS[:-1] + ["delete", "replace", "splice", "splice_recurse", "replace_recurse", "empty", "raise"]


class Boom(Exception):
    pass


def is_plain(node):
    """A context or operator: a singleton."""
    return isinstance(node, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop))


def label(node):
    return type(node).__name__ + (":" + str(getattr(node, "id", None) or getattr(node, "value", "")) if isinstance(node, (ast.Name, ast.Constant)) else "")


def action(case, node, transformer):
    if is_plain(node):
        return "recurse", 0
    lab = label(node)
    if type(node).__name__ in case["quiet"]:
        return "recurse", 0
    h = zlib.crc32((lab + case["salt"]).encode("utf-8", "backslashreplace"))
    table = case["table"]
    act = table[h % len(table)]
    if not transformer and act in ("delete", "replace", "splice", "splice_recurse", "replace_recurse", "empty"):
        act = "recurse"
    if act in ("delete", "empty", "splice", "splice_recurse") and not isinstance(node, ast.stmt):
        act = "replace" if isinstance(node, ast.Name) else "recurse"
    if act in ("replace", "replace_recurse") and not isinstance(node, (ast.Name, ast.Constant, ast.Expr, ast.Pass)):
        act = "recurse"
    return act, h >> 8


def replacement(node, h):
    if isinstance(node, ast.stmt):
        return ast.Expr(value=ast.Constant(value=f"r{h % 5}"))
    return ast.Constant(value=f"r{h % 5}")


def fields_of(node):
    return [(f, v) for f, v in ast.iter_fields(node) if isinstance(v, (list, ast.AST)) and not is_plain(v)]


def children(node, stmts_only=False):
    return [c for c in ast.iter_child_nodes(node) if not is_plain(c)]


# ---------------------------------------------------------------- with the real walkers

def make_walker(case, transformer, trace):
    base = walkers.ASTTransformer if transformer else walkers.ASTVisitor

    def step(self, node):
        act, h = action(case, node, transformer)
        if not is_plain(node):
            trace.append((label(node), dict(self.state)))
        if act == "raise":
            raise Boom(label(node))
        if act == "stop":
            return node
        if act == "collect_pre":
            got = self.collect((label(node), self.state.n))
            require(got == (label(node), self.state.n), "collect does not return the value")
        elif act == "bump":
            self.state.n += 1
        elif act == "rebind":
            new = self.state.copy()
            new.n += 100
            self.state = new
        elif act == "with_child" and children(node):
            c = children(node)
            self.withstate(c[h % len(c)], n=self.state.n * 2 + 1, extra=h % 3)
        elif act == "with_two" and children(node):
            c = children(node)
            self.withstate(c[h % len(c)], n=-1)
            self.withstate(c[h % len(c)], n=self.state.n + 7)
        elif act == "with_list":
            lists = [v for f, v in fields_of(node) if isinstance(v, list) and v and all(isinstance(x, ast.AST) for x in v)]
            if lists:
                self.withstate(lists[h % len(lists)], n=self.state.n + 1000)
        elif act == "with_all":
            self.generic_withstate(node, n=self.state.n + 50, all=h % 2)
        if act == "fields":
            fs = fields_of(node)
            for f, v in [x for i, x in enumerate(fs) if h >> i & 1]:
                if transformer:
                    if isinstance(v, list):
                        if not all(isinstance(x, ast.AST) for x in v):
                            continue
                        got = self.visit(v)
                        require(got is v, "visit(list) of a transformer returned another list")
                    else:
                        new = self.visit(v)
                        if isinstance(new, ast.AST):
                            setattr(node, f, new)
                elif not isinstance(v, list) or all(isinstance(x, ast.AST) for x in v):
                    require(isinstance(v, list) is False or self.visit(v) is None, "visit(list) of a visitor returned something") if isinstance(v, list) else self.visit(v)
            return node
        if transformer:
            if act == "delete":
                return None
            if act == "empty":
                return []
            if act == "splice":
                return [replacement(node, h), node, ast.Pass()]
            if act == "splice_recurse":
                return [replacement(node, h), self.generic_visit(node)]
            if act in ("replace", "replace_recurse"):
                new = replacement(node, h)
                return self.generic_visit(new) if act == "replace_recurse" else new
        out = self.generic_visit(node)
        if act == "collect_post":
            self.collect((label(node), self.state.n, "post"))
        return out if transformer else node

    class W(base):
        if transformer:
            def transform(self, tree):
                return step(self, tree)
        else:
            def examine(self, tree):
                return step(self, tree)
    return W


# ---------------------------------------------------------------- reference

class Ref:
    def __init__(self, case, transformer, **bindings):
        self.case, self.transformer = case, transformer
        self.trace = []
        self.reset(**bindings)

    def reset(self, **bindings):
        self.stack = [dict(bindings)]
        self.pending = {}      # id of node -> state (the same dict object may be shared)
        self.collected = []

    def visit(self, x):
        if isinstance(x, list):
            for_list = []
            for e in x:
                for_list += flat(self.visit(e))
            return for_list
        st_ = self.pending.pop(id(x), None)
        if st_ is None:
            return self.step(x)
        self.stack.append(st_)
        try:
            return self.step(x)
        finally:
            self.stack.pop()

    def generic(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                new = []
                for e in v:
                    if isinstance(e, ast.AST):
                        r = self.visit(e)
                        new += flat(r)
                    else:
                        new.append(e)
                if self.transformer:
                    v[:] = new
            elif isinstance(v, ast.AST):
                r = self.visit(v)
                if self.transformer:
                    if r is None:
                        delattr(node, f)
                    else:
                        setattr(node, f, r)
        return node

    def step(self, node):
        case, t = self.case, self.transformer
        act, h = action(case, node, t)
        s = self.stack[-1]
        if not is_plain(node):
            self.trace.append((label(node), dict(s)))
        if act == "raise":
            raise Boom(label(node))
        if act == "stop":
            return node
        if act == "collect_pre":
            self.collected.append((label(node), s["n"]))
        elif act == "bump":
            s["n"] += 1
        elif act == "rebind":
            self.stack[-1] = dict(s, n=s["n"] + 100)
        elif act == "with_child" and children(node):
            c = children(node)
            self.pending[id(c[h % len(c)])] = dict(s, n=s["n"] * 2 + 1, extra=h % 3)
        elif act == "with_two" and children(node):
            c = children(node)
            self.pending[id(c[h % len(c)])] = dict(s, n=s["n"] + 7)
        elif act == "with_list":
            lists = [v for f, v in fields_of(node) if isinstance(v, list) and v and all(isinstance(x, ast.AST) for x in v)]
            if lists:
                new = dict(s, n=s["n"] + 1000)
                for e in lists[h % len(lists)]:
                    self.pending[id(e)] = new
        elif act == "with_all":
            new = dict(s, n=s["n"] + 50, all=h % 2)
            for c in children(node):
                self.pending[id(c)] = new
        if act == "fields":
            for f, v in [x for i, x in enumerate(fields_of(node)) if h >> i & 1]:
                if isinstance(v, list):
                    if t:
                        if not all(isinstance(x, ast.AST) for x in v):
                            continue
                        v[:] = self.visit(v)
                    elif all(isinstance(x, ast.AST) for x in v):
                        self.visit(v)
                else:
                    r = self.visit(v)
                    if t and isinstance(r, ast.AST):
                        setattr(node, f, r)
            return node
        if t:
            if act in ("delete", "empty"):
                return None if act == "delete" else []
            if act == "splice":
                return [replacement(node, h), node, ast.Pass()]
            if act == "splice_recurse":
                return [replacement(node, h), self.generic(node)]
            if act in ("replace", "replace_recurse"):
                new = replacement(node, h)
                return self.generic(new) if act == "replace_recurse" else new
        self.generic(node)
        if act == "collect_post":
            self.collected.append((label(node), self.stack[-1]["n"], "post"))
        return node


def flat(r):
    if r is None:
        return []
    if isinstance(r, list):
        return [y for x in r for y in flat(x)]
    return [r]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 8))
    return {"src": draw(pygen.module_source(budget=25, names=["a", "b", "c"], simple_consts=True, strings=["", "s"])),
            "tvisit": draw(st.lists(st.sampled_from(ACTIONS), min_size=n, max_size=n)),
            "ttrans": draw(st.lists(st.sampled_from(TACTIONS), min_size=n, max_size=n)),
            "salt": draw(st.sampled_from("abcdefgh")),
            "quiet": draw(st.sampled_from([[], ["Module"], ["Module", "FunctionDef", "ClassDef", "If"]])),
            "runs": draw(st.lists(st.sampled_from(["module", "body", "stmt", "reset"]), min_size=1, max_size=4)),
            "transformer": draw(st.booleans())}


def check(case, ctx):
    t = case["transformer"]
    case = dict(case, table=case["ttrans"] if t else case["tvisit"])
    a, b = ast.parse(case["src"]), ast.parse(case["src"])
    before = dump(a)
    trace = []
    w = make_walker(case, t, trace)(n=0, tag="x")
    ref = Ref(case, t, n=0, tag="x")
    ctx.event("transformer" if t else "visitor")
    for run in case["runs"]:
        if run == "reset":
            w.reset(n=5)
            ref.reset(n=5)
            require(w.collected == [] and dict(w.state) == {"n": 5}, "reset does not clear")
            continue
        outs = []
        for walker, tree in ((w, a), (ref, b)):
            target = tree if run == "module" else tree.body if run == "body" else tree.body[-1] if tree.body else tree
            try:
                r = walker.visit(target)
                if not t:
                    require(run == "body" or r is target or walker is ref, "visit of a visitor does not forward the value of examine")
                    r = None
                elif run == "body":
                    if walker is w:
                        require(r is target, "visit(list) of a transformer does not return the list")
                    else:
                        target[:] = r
                        r = target
                outs.append(("ok", dump(r) if not (isinstance(r, list) and run != "body") else [dump(x) for x in flat(r)]))
                if t and run == "stmt" and tree.body:
                    tree.body[-1:] = flat(r)
                if t and run == "module" and not isinstance(r, ast.Module):
                    outs[-1] = ("gone", None)
            except Boom as err:
                outs.append(("raise", str(err)))
                ctx.event("raised")
        require(outs[0][0] == outs[1][0], lambda: f"{run}: {outs[0]!r:.300}, expected {outs[1]!r:.300}")
        for i, (x, y) in enumerate(zip(trace, ref.trace)):
            require(x == y, lambda: f"step {i} of the walk: visits {x[0]} with state {x[1]}, expected {y[0]} with {y[1]}")
        require(len(trace) == len(ref.trace), lambda: f"{len(trace)} nodes visited, expected {len(ref.trace)}")
        require(w.collected == ref.collected, lambda: f"collected {w.collected}, expected {ref.collected}")
        require(dict(w.state) == ref.stack[-1], lambda: f"state after the visit: {dict(w.state)}, expected {ref.stack[-1]}")
        require(outs[0] == outs[1], lambda: f"{run}: result\n{diff(str(outs[1][1]), str(outs[0][1]))}")
        require(dump(a) == dump(b), lambda: f"{run}: tree\n{diff(dump(b), dump(a))}")
        if outs[0][0] == "raise" and t:
            break      # a half-transformed tree; fine for comparing, but not for going on
        if not isinstance(a.body, list) or not hasattr(a, "body"):
            break
    if not t:
        require(dump(a) == before, "a visitor changed the tree")
    acts = {action(case, n, t)[0] for n in ast.walk(ast.parse(case["src"]))}
    for x in acts:
        ctx.event("action " + x)
    ctx.nontrivial_case(len(trace) >= 6 and bool(acts - {"recurse"}))


TESTS = [Test("walks", cases(), check, quick=12000, thorough=250000)]
