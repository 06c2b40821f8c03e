"""A hygienically captured value stays what it was when captured."""

import ast
import gc
import marshal

from hypothesis import strategies as st

from harness import mac, vals
from harness.core import Test, Violation, isolated, require
from harness.sut import mcpyrate, quotes
from harness.zygote import Zygote

PROPERTY = "Q03"
RULE = ("Cases: a history of up to 14 operations on a quoting module: bind, mutate or delete its variables, collect garbage, capture (in 9 code forms: plain name, attribute, "
        "computed expression, two captures at once, loop, closure, quoted block, quoted function, nested quote), evaluate a captured AST in a hostile scope, evaluate several in one "
        "module, mutate the value it gave, and evaluate from marshalled bytecode in a pristine process. Non-trivial: at least two captures were made and one was evaluated after its "
        "variable had been rebound, mutated or deleted, or after another capture.")
ASSUMPTIONS = ["values whose pickling round trip is exact (checked by the reference with pickle itself)",
               "the evaluating scope does not shadow the builtin __import__"]

VALUES = ["1", "'s'", "[]", "[1, [2]]", "{'k': [1]}", "{1, 2}", "(1, [2])", "None", "1.5", "b'xy'", "2j", "float('nan')", "vals.Box([1])", "vals.Box(vals.Box('in'))",
          "vals.Point((1, 2))", "vals.func", "vals.other", "vals.Box", "len", "int", "vals.cyclic()", "vals.shared()", "frozenset([1])", "10 ** 30", "True", "range(3)",
          "lambda: 1", "(i for i in ())", "vals.NoPickle()", "vals", "[vals.NoPickle()]", "...", "'mcpyrate'", "bytearray(b'q')"]

SOURCE = """
def cap_name():
    return [q[h[x]]], [lambda: x]
def cap_other():
    return [q[h[y]]], [lambda: y]
def cap_attr():
    box = vals.Box(x)
    return [q[h[box.value]]], [lambda: box.value]
def cap_expr():
    return [q[h[[x, y]]]], [lambda: [x, y]]
def cap_two():
    return [q[(h[x], h[y])]], [lambda: (x, y)]
def cap_same_twice():
    return [q[(h[x], h[x], h[[x]])]], [lambda: (x, x, [x])]
def cap_loop():
    asts = []
    for i in (x, y, x):
        asts.append(q[h[i]])
    return asts, [lambda: x, lambda: y, lambda: x]
def cap_closure():
    def inner(v):
        return q[h[v]]
    return [inner(y), inner(x)], [lambda: y, lambda: x]
def cap_block():
    with q as t:
        def g():
            return h[x]
        R = [g(), h[y]]
    return [t], [lambda: [x, y]]
def cap_callee():
    return [q[h[f](h[x])]], [lambda: f(x)]
def cap_nested():
    t = q[q[h[x]]]
    return [run_quoted(t)], [lambda: x]
"""
FORMS = ["name", "other", "attr", "expr", "two", "same_twice", "loop", "closure", "block", "callee", "nested"]

op = st.one_of(
    st.tuples(st.just("bind"), st.sampled_from(["x", "y"]), st.sampled_from(VALUES)),
    st.tuples(st.just("capture"), st.sampled_from(FORMS)),
    st.tuples(st.just("capture"), st.sampled_from(FORMS)),
    st.tuples(st.just("mutatevar"), st.sampled_from(["x", "y"])),
    st.tuples(st.just("delete"), st.sampled_from(["x", "y"])),
    st.tuples(st.just("gc")),
    st.tuples(st.just("eval"), st.integers(0, 7)),
    st.tuples(st.just("eval"), st.integers(0, 7)),
    st.tuples(st.just("mutate"), st.integers(0, 7)),
    st.tuples(st.just("together"), st.lists(st.integers(0, 7), min_size=1, max_size=4)),
    st.tuples(st.just("elsewhere"), st.lists(st.integers(0, 7), min_size=1, max_size=4)),
    st.tuples(st.just("recognize"), st.integers(0, 7)),
)

use = st.sampled_from([["eval", 0], ["eval", 1], ["mutate", 0], ["together", [0, 1]], ["elsewhere", [0, 1]]])
history = st.tuples(st.sampled_from(VALUES[:24]), st.sampled_from(VALUES[:24]), st.sampled_from(FORMS), st.lists(op, min_size=6, max_size=16), use).map(
    lambda t: [["bind", "x", t[0]], ["bind", "y", t[1]], ["capture", t[2]]] + [list(o) for o in t[3]] + [t[4]])

HOSTILE = {k: "hostile" for k in ("x", "y", "f", "i", "v", "box", "vals", "mcpyrate", "quotes", "lookup_value", "capture_value", "h", "q")}
HOSTILE.update(range="shadowed", list="shadowed", mcpyrate=None)

_expanded = None
_zygote = None


def setup():
    global _expanded, _zygote
    if _expanded is None:
        _expanded = compile(mac.expand_src(SOURCE, mac.qbindings()), "<q>", "exec")
        _zygote = Zygote()


def mutate(v):
    """Change a mutable value in place; whether it could be done."""
    if isinstance(v, list):
        v.append("mutated")
    elif isinstance(v, dict):
        v["mutated"] = len(v)
    elif isinstance(v, set):
        v.add("mutated")
    elif isinstance(v, vals.Box):
        v.value = ("mutated", v.value)
    elif isinstance(v, bytearray):
        v += b"m"
    elif isinstance(v, tuple):
        return any([mutate(x) for x in v])
    else:
        return False
    return True


def as_module(tree, wrap="plain"):
    if isinstance(tree, list):
        return ast.fix_missing_locations(ast.Module(body=tree, type_ignores=[]))
    return ast.fix_missing_locations(ast.Module(body=[ast.Assign(targets=[ast.Name(id="R", ctx=ast.Store())], value=tree)], type_ignores=[]))


def finish(tree):
    """Contexts are filled in when the AST is output by a macro; do that by hand."""
    from harness import ref
    return ref.set_ctx(ref.unshare(mac.strip_coverage(tree)))


def evaluate(tree, extra=None):
    ns = dict(HOSTILE)
    ns["__name__"] = "hostile"
    exec(compile(as_module(tree), "<eval>", "exec"), ns)
    return ns["R"]


class Cap:
    def __init__(self, tree, expected, form):
        self.tree = tree            # finished AST
        self.form = form
        self.expected = expected    # canonical snapshot, as now mutated through evaluation
        self.original = expected    # as captured
        self.obj = None
        self.seen = False


def run_history(ops):
    import pickle
    ns = {"__name__": "quoting", "vals": vals, "f": vals.func, "mcpyrate": mcpyrate}

    def run_quoted(tree):
        local = dict(ns)
        tree = mac.expand(as_module(finish(tree)), mac.qbindings())
        exec(compile(tree, "<inner>", "exec"), local)
        return local["R"]
    ns["run_quoted"] = run_quoted
    exec(_expanded, ns)
    caps = []
    changed = False
    events = {}
    nontrivial = False

    def ev(k):
        events[k] = events.get(k, 0) + 1
    for step, o in enumerate(ops):
        kind = o[0]
        if kind == "bind":
            ns[o[1]] = eval(o[2], {"vals": vals})
            changed = True
        elif kind == "mutatevar":
            if o[1] in ns and mutate(ns[o[1]]):
                changed = True
                ev("variable mutated")
        elif kind == "delete":
            ns.pop(o[1], None)
            changed = True
        elif kind == "gc":
            gc.collect()
        elif kind == "capture":
            form = o[1]
            missing = [v for v in "xy" if v not in ns]
            if missing:
                continue
            ok = True
            used = {"name": "x", "other": "y", "attr": "x", "callee": "x", "nested": "x", "same_twice": "x"}.get(form, "xy")
            for v in used:
                try:
                    pickle.dumps(ns[v])
                except Exception:
                    ok = False
            try:
                trees, thunks = ns["cap_" + form]()
            except Exception as err:
                if ok:
                    raise Violation(f"step {step} {o}: capture failed: {err!r}")
                ev("unpicklable rejected")
                continue
            if not ok:
                raise Violation(f"step {step} {o}: an unpicklable value was captured: {trees}")
            ev("capture " + form)
            for tree, thunk in zip(trees, thunks):
                # what is a snapshot: compute now. Independent captures in one quote don't share objects.
                expected = [vals.canon(e) for e in thunk()] if form in ("two", "same_twice", "block") else vals.canon(thunk())
                caps.append(Cap(finish(tree), expected, form))
            changed = False
        elif kind in ("eval", "mutate"):
            if not caps:
                continue
            c = caps[o[1] % len(caps)]
            got = evaluate(c.tree)
            nontrivial = nontrivial or (len(caps) > 1 and (changed or c is not caps[-1]))
            check_value(c, got, step, o)
            if c.form in ("two", "same_twice", "block"):
                parts = list(got)
            elif c.form == "callee":
                parts = [got[1]]
            else:
                parts = [got]
            if c.seen:
                for a, b in zip(c.obj, parts):
                    require(a is b, f"step {step} {o}: evaluating the same capture again gave a different object {b!r}")
            c.obj, c.seen = parts, True
            ev("eval")
            if kind == "mutate" and mutate(parts[0]):
                ev("captured value mutated")
                got = evaluate(c.tree)
                c.expected = [vals.canon(p) for p in parts] if c.form in ("two", "same_twice", "block") else vals.canon(got)
                ok = [vals.canon(p) for p in parts[1:]] == c.original[1:] if c.form in ("two", "same_twice", "block") and getattr(c, "m", 0) == 0 else True
                c.m = 1
                require(ok, f"step {step} {o}: mutating one captured value changed another capture in the same quote: {got!r}")
        elif kind == "together":
            if not caps:
                continue
            mine = [caps[i % len(caps)] for i in o[1]]
            exprs = [c for c in mine if not isinstance(c.tree, list)]
            if not exprs:
                continue
            tree = ast.Tuple(elts=[c.tree for c in exprs], ctx=ast.Load())
            got = evaluate(tree)
            ev("together")
            require(len(got) == len(exprs), "length")
            for c, g in zip(exprs, got):
                check_value(c, g, step, o)
        elif kind == "elsewhere":
            if not caps:
                continue
            mine = [caps[i % len(caps)] for i in o[1]]
            codes = [marshal.dumps(compile(as_module(c.tree), "<eval>", "exec")) for c in mine]
            res = _zygote.request((codes, dict(HOSTILE), [c.form in ("two", "same_twice", "block") for c in mine]))
            ev("other process")
            for c, r in zip(mine, res):
                require(r[0] == "ok", f"step {step} {o}: in another process: {r[1]}")
                g = r[1]
                # The state of the snapshot in another process is as captured.
                want = c.original
                require(g == want, lambda: f"step {step} {o}: in another process the capture gives {g}, expected {want}")
        elif kind == "recognize":
            if not caps:
                continue
            c = caps[o[1] % len(caps)]
            if c.form in ("name", "other", "attr", "expr"):
                key = quotes.is_captured_value(c.tree)
                require(key and key[0] == {"name": "x", "other": "y", "attr": "box.value", "expr": "[x, y]"}[c.form],
                        lambda: f"step {step}: is_captured_value gives {str(key)[:200]}")
                require(quotes.lookup_value(key) is evaluate(c.tree), f"step {step}: lookup_value disagrees with evaluation")
                ev("recognize")
    return events, nontrivial


def check_value(c, got, step, o):
    if c.form in ("two", "same_twice", "block"):
        g = [vals.canon(x) for x in got]
    else:
        g = vals.canon(got)
    require(g == c.expected, lambda: f"step {step} {o}: the capture ({c.form}) gives {got!r}, expected {c.expected}")


def check(case, ctx):
    setup()
    events, nontrivial = isolated(run_history, case)
    for k, v in events.items():
        ctx.event(k, v)
    ctx.nontrivial_case(nontrivial)


TESTS = [
    Test("history", history, check, quick=6000, thorough=100000,
         fixed=[[["bind", "x", "[1]"], ["bind", "y", "[1]"], ["capture", "two"], ["mutate", 0], ["eval", 0], ["elsewhere", [0]]]]),
]
