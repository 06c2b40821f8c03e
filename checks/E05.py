"""Macro errors are reported at the use site and leave the expander usable."""

import ast
import re

from hypothesis import strategies as st

from harness import mac, mexp, pygen
from harness.core import Test, Reject, isolated, require
from harness.sut import core as mcore, diff, dump, expander, quotes, unparser

PROPERTY = "E05"
RULE = ("'fault': a generated program with nested uses of four generated macros (which expand their input explicitly in all modes, some catching errors), with a fault injected at the k-th "
        "invocation: an exception of one of 10 kinds, before or after the macro's inner expansion, in a generator that the macro returns, or one of 9 kinds of invalid return value. The "
        "error report must show the nested uses that the reference expander predicts, each once, and the original exception; then another program is expanded with the same expander "
        "and must give the reference result. Non-trivial: the fault happened inside at least one other macro, or was caught by one. "
        "'quotes': sequences of valid and failing quasiquotes, each of which must behave as in a fresh process. Non-trivial: something succeeds after a failure.")
ASSUMPTIONS = ["exceptions that are not subclasses of Exception pass through unchanged"]

KINDS = {"expr": ["tag", "id", "recurse", "once", "visit", "recurse", "try_recurse", "try_once", "try_visit", "emit", "dup"],
         "block": ["tag", "id", "recurse", "once", "visit", "recurse", "try_recurse", "try_once", "emit"],
         "decorator": ["tag", "id", "recurse", "once", "body", "emit", "try_recurse", "try_once"],
         "name": ["tag", "same", "emit", "other"]}


class MyError(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


def make_error(kind):
    if kind == "cause":
        e = ValueError("outer")
        e.__cause__ = KeyError("inner")
        return e
    if kind == "expansion cause":
        e = mcore.MacroExpansionError("boom")
        e.__cause__ = KeyError("inner")
        return e
    return {"value": lambda: ValueError("boom\nsecond line"), "syntax": lambda: SyntaxError("boom"), "mine": lambda: MyError(1, 2),
            "expansion": lambda: mcore.MacroExpansionError("boom"), "key": lambda: KeyError("k"), "stop": lambda: StopIteration(3),
            "interrupt": lambda: KeyboardInterrupt(), "recursion": lambda: RecursionError("deep")}[kind]()


ERRORS = ["value", "syntax", "mine", "expansion", "cause", "expansion cause", "key", "stop", "interrupt", "recursion"]
BAD = {"int": 42, "str": "abc", "true": True, "listint": [1], "mixed": (ast.Pass(), None), "object": object(), "type": ast.AST, "dict": {"a": 1}, "nested": [[ast.Pass()]]}


def attempt(name, mode, other, tree, expander_):
    """Expand, with a fallback if that fails; then expand something more, in the mode in effect."""
    f = {"try_recurse": expander_.visit_recursively, "try_once": expander_.visit_once, "try_visit": expander_.visit}[mode]
    try:
        return f(tree), False
    except Exception:
        return None, True


def behave(name, syntax, kind, other, tree, args, exp, kw):
    if not kind.startswith("try"):
        return mexp.BEHAVIOR[syntax](name, kind, other, tree, args, exp, kw)
    out, failed = attempt(name, kind, other, tree, exp)
    more = ast.Subscript(value=ast.Name(id=other, ctx=ast.Load()), slice=ast.Constant(value=7), ctx=ast.Load())
    more = exp.visit(more)
    if syntax == "expr":
        return mexp.tagcall(name, ast.Constant(value="failed") if failed else out, more)
    first = ast.Expr(value=mexp.tagcall("failed" if failed else "ok", more))
    return [first] + ([] if failed or out is None else out if isinstance(out, list) else [out])


class State:
    def __init__(self, case, real):
        self.case = case
        self.real = real
        self.count = 0
        self.stack = []
        self.log = []
        self.report = None      # uses in progress when the fault happened
        self.raised = None
        self.caught = 0


class GiveUp(Exception):
    pass


def macros_for(case, state):
    out = {}
    for m, spec in case["macros"].items():
        def macro(tree, *, syntax, expander, invocation, args, m=m, spec=spec, **kw):
            k = state.count
            state.count += 1
            if k > 150:
                raise GiveUp
            text = unparser.unparse_with_fallbacks(invocation, debug=True, expander=expander) if state.real else None
            use = [m, syntax, invocation.lineno if hasattr(invocation, "lineno") else None, mexp.clean_dump(invocation), text]
            state.stack.append(use)
            state.log.append(use[:2] + [use[3]])
            try:
                hit = k == case["k"]
                if hit and case["when"] == "before":
                    fault(state, case)
                kind, other = spec[syntax]
                r = behave(m, syntax, kind, other, tree, args, expander, kw)
                if hit and case["when"] == "after":
                    fault(state, case)
                if hit and case["when"] == "generator":
                    state.report = list(state.stack)
                    state.raised = make_error(case["what"])
                    if not state.real:
                        raise state.raised
                    if case["what"] == "stop":
                        state.raised = None
                        return gen_stop()
                    return gen(state.raised)
                if hit and case["when"] == "return":
                    state.report = list(state.stack)
                    if not state.real:
                        raise TypeError
                    return BAD[case["what"]]
                return r
            finally:
                state.stack.pop()
        macro.spec = spec
        if spec["param"]:
            macro = expander.parametricmacro(macro)
        if spec["nm"]:
            macro = expander.namemacro(macro)
        out[m] = macro
    return out


def gen(err):
    yield ast.Pass()
    raise err


def gen_stop():
    yield ast.Pass()
    raise StopIteration(3)     # Python turns this into a RuntimeError


def fault(state, case):
    state.report = list(state.stack)
    state.raised = make_error(case["what"])
    raise state.raised


class Ref(mexp.RefExpander):
    """Also gives nodes without a location that of the macro use, so reports can be predicted."""
    def invoke(self, name, syntax, tree, **kw):
        inv = kw["invocation"]
        out = self.macros[name](tree, syntax=syntax, expander=self, **kw)
        if out is not None and not isinstance(out, ast.AST):
            out = list(out)
        if hasattr(inv, "lineno"):
            for t in mexp.aslist(out):
                for n in ast.walk(t):
                    if "lineno" in n._attributes and not hasattr(n, "lineno"):
                        n.lineno = inv.lineno
        if out is not None and self.recursive:
            out = self.visit(out)
        return out


def gen_case(s):
    specs = mexp.gen_specs(s, kinds=KINDS)
    for i, (m, sp) in enumerate(specs.items()):
        for syntax, (kind, other) in sp.items() if False else [(k, v) for k, v in sp.items() if isinstance(v, list)]:
            if kind.startswith("try"):
                if i == 0:
                    sp[syntax] = ["recurse", None]
                else:
                    sp[syntax] = [kind, mexp.MACROS[s.int(0, i - 1)]]
    g = mexp.MGen(s, specs, budget=20, strings=["", "a"], fstrings=False, look_alikes=s.chance(1, 3))
    g.extra_rate, g.extra_stmt_rate = (1, 2), (1, 2)
    src = pygen.render(ast.Module(body=g.many(lambda: g.stmt(3), 1, 3), type_ignores=[]))
    g.budget = 8
    after = pygen.render(ast.Module(body=g.many(lambda: g.stmt(2), 1, 2), type_ignores=[]))
    when = s.choice(["before", "after", "return", "generator"])
    what = s.choice(list(BAD)) if when == "return" else s.choice([e for e in ERRORS if not (when == "generator" and e == "interrupt")])
    return {"src": src or "x", "after": after or "m1[x]", "macros": specs, "k": s.int(0, 7), "when": when, "what": what}


@st.composite
def faults(draw):
    return gen_case(pygen.Src(draw))


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def parse(src):
    try:
        return ast.parse(src)
    except SyntaxError:
        raise Reject("not parseable")


def check_fault(case, ctx):
    if "_mcpyrate_coverage" in case["src"]:
        raise Reject("reserved name")
    ref, real = State(case, False), State(case, True)
    R = Ref(macros_for(case, ref))
    tree, after, after2 = parse(case["src"]), parse(case["after"]), parse(case["after"])
    want = wanterr = None
    try:
        want = mexp.finish(R.visit(tree))
    except GiveUp:
        raise Reject("too many invocations")
    except BaseException as err:
        wanterr = err
        if ref.raised is None and ref.report is None and not isinstance(err, SyntaxError):
            raise
    if ref.count > 150:
        raise Reject("too many invocations")
    b = macros_for(case, real)
    before = dict(b)
    exp = expander.MacroExpander(b, "the file.py")
    mode, hook = exp.recursive, exp._debughook
    goterr = None
    try:
        got = mexp.finish(mcore.global_postprocess(exp.visit(parse(case["src"]))))
    except BaseException as err:
        goterr = err
    require([x for x in real.log] == [x for x in ref.log], lambda: f"invocations {real.log}\nexpected {ref.log}")
    ctx.event("fault: " + ("none" if ref.report is None else "caught" if wanterr is None else f"raised, depth {min(len(ref.report), 4)}"))
    if ref.report is not None:
        ctx.event(f"{case['when']} {case['what']}")
    ctx.nontrivial_case(ref.report is not None and (len(ref.report) > 1 or wanterr is None))
    if wanterr is None:
        if goterr is not None:
            raise goterr
        require(got == want, lambda: f"expanded code\n{diff(want, got)}")
    else:
        require(goterr is not None, lambda: f"no error; expected {wanterr!r}")
        if ref.report is not None and len(ref.stack) == 0 and not (isinstance(wanterr, SyntaxError) and ref.raised is not wanterr):
            check_report(case, real, ref, goterr)
        else:
            ctx.event("invalid macro invocation")
            e = goterr
            while e is not None and not isinstance(e, SyntaxError):
                e = e.__cause__ or e.__context__
            require(e is not None, lambda: f"invalid macro invocation gives {goterr!r}")
            require(re.match(r"the file\.py:\d+:", ANSI.sub("", str(e))), lambda: f"error message for an invalid macro invocation does not tell where: {e}")
    # state
    require(exp.recursive == mode and exp._debughook is hook, f"recursive mode is {exp.recursive} after the error")
    require(b == before and all(exp.isbound(m) is b[m] for m in b), "macro bindings changed")
    ref.count = real.count = 1000 if case["k"] < 1000 else 0
    ref.log.clear()
    real.log.clear()
    n = 1000 - 100
    ref.count = real.count = -n     # no fault, and no limit soon
    fails = False
    try:
        want = mexp.finish(R.visit(after))
    except SyntaxError:
        fails = True
    try:
        got = mexp.finish(mcore.global_postprocess(exp.visit(after2)))
        require(not fails, "afterwards: invalid macro invocation accepted")
    except mcore.MacroExpansionError as err:
        if not fails:
            raise
    except SyntaxError as err:
        if not fails:
            raise
    require(real.log == ref.log, lambda: f"expansion after the error: invocations {real.log}\nexpected {ref.log}")
    if not fails:
        require(got == want, lambda: f"expansion after the error\n{diff(want, got)}")


def check_report(case, real, ref, goterr):
    rep = real.report
    require(rep is not None and [u[:4] for u in rep] == [u[:4] for u in ref.report],
            lambda: f"macro uses in progress at the fault are {[u[:4] for u in rep or []]}\nexpected {[u[:4] for u in ref.report]}")
    if case["what"] == "interrupt" and case["when"] != "return":
        require(goterr is real.raised, lambda: f"KeyboardInterrupt became {goterr!r}")
        return
    require(isinstance(goterr, mcore.MacroExpansionError) and goterr is not real.raised, lambda: f"the error is not a macro expansion error: {goterr!r}")
    msg = ANSI.sub("", str(goterr))
    pos = 0
    rest = []
    for m, syntax, lineno, _, text in rep:
        head = f"the file.py:{lineno}:" + ("\n" if "\n" in text else " ") + text
        i = msg.find(head, pos)
        require(i >= 0, lambda: f"the report does not show the use of {m} ({syntax}) at line {lineno} in its place:\n{head}\nin\n{msg}")
        rest.append(msg[pos:i])
        pos = i + len(head)
    rest.append(msg[pos:])
    tails = rest[1:]
    for (m, syntax, *_), tail in zip(rep, tails):
        require(f"'{m}'" in tail and syntax in tail, lambda: f"the report does not name {m} and {syntax}: {tail!r}\nin\n{msg}")
    require("the file.py:" not in "".join(rest), lambda: f"macro uses reported more than once, or ones that are not in progress:\n{msg}")
    cause = goterr.__cause__
    if case["when"] == "return":
        require(isinstance(cause, mcore.MacroExpansionError), lambda: f"cause of the error is {cause!r}")
        if case["what"] not in ("object",):
            shown = repr(BAD[case["what"]])
            value = list(BAD[case["what"]]) if hasattr(type(BAD[case["what"]]), "__iter__") and not isinstance(BAD[case["what"]], type) else BAD[case["what"]]
            require(shown in str(cause) or repr(value) in str(cause), lambda: f"the error does not show the invalid value {shown}: {cause}")
    elif case["when"] == "generator" and case["what"] == "stop":
        require(isinstance(cause, RuntimeError), lambda: f"cause of the error is {cause!r}")
    else:
        require(cause is real.raised, lambda: f"cause of the error is {cause!r}, expected {real.raised!r}")
        if case["what"] in ("cause", "expansion cause"):
            require(isinstance(cause.__cause__, KeyError), "cause of the original exception lost")


# ---------------------------------------------------------------- quotes

GOOD = ["q[{e}]", "q[u[1 + 1] + {e}]", "q[q[{e}]]", "q[q[u[{e}]]]", "q[a[q[{e}]]]", "q[n['x']]", "q[s[[q[{e}]]]]", "q[t[[q[{e}]]]]", "q[h[len]({e})]", "u[{e}]", "q[u[q[{e}]]]", "q[q[u[u[2]]]]"]
FAILING = ["q[u[boom[1]]]", "q[a[boom[1]]]", "q[q[u[u[boom[1]]]]]", "q[u[q[u[boom[1]]]]]", "u[{e}]", "q[u[u[1]]]", "q[n[boom[1]]]", "q[h[boom2.x[boom[1]]]]", "q[s[boom[1]]]", "q[a[u[1]]]",
           "q[q[u[a[q[u[boom[1]]]]]]]", "q[u[q[u[q[u[boom[1]]]]]]]", "q[t[u[1]]]", "h[{e}]", "n['x']"]
BLOCKGOOD = ["with q as r:\n    {e}", "with q as r:\n    x = u[1]\n    with a:\n        q[{e}]", "with q as r:\n    with q as r2:\n        u[{e}]"]
BLOCKBAD = ["with q as r:\n    x = u[boom[1]]", "with q as r:\n    with a:\n        boom[1]", "with q as r:\n    with q as r2:\n        u[u[boom[1]]]", "with q as r:\n    with a as z:\n        {e}", "with a:\n    {e}"]
E = ["1", "x", "f(x)[0]", "(y, 2)"]


@st.composite
def quotes_(draw):
    s = pygen.Src(draw)
    out = []
    for _ in range(s.int(2, 7)):
        t = s.choice(GOOD + FAILING + BLOCKGOOD + BLOCKBAD)
        out.append(t.format(e=s.choice(E)) if "{e}" in t else t)
    return {"snippets": out}


class Boom(Exception):
    pass


def boom(tree, **kw):
    raise Boom("boom")


def outcome(snippet):
    b = dict(mac.qbindings(), boom=boom)
    src = snippet if snippet.startswith("with") else "r = " + snippet
    import mcpyrate.utils as u
    try:
        tree = mac.expand_src(src, b)
        ns = mac.execute(tree, {"x": ast.Name(id="X", ctx=ast.Load()), "y": 3, "f": lambda v: [v]})
        r = ns.get("r")
        text = repr(dump(r)) if isinstance(r, (ast.AST, list)) else repr(r)
    except Exception as err:
        e, text = err, "error"
        while e is not None:
            text += " " + type(e).__name__
            e = e.__cause__
    return re.sub(r"\d{6,}", "N", re.sub(r"[0-9a-f]{32}", "UUID", text))


def check_quotes(case, ctx):
    bad = 0
    got = isolated(lambda: [outcome(x) for x in case["snippets"]])
    for i, x in enumerate(case["snippets"]):
        want = isolated(outcome, x)
        require(want == got[i], lambda: f"after {case['snippets'][:i]} with outcomes {got[:i]}, {x!r} gives\n  {got[i]}\nin a fresh process:\n  {want}")
        if want.startswith("error"):
            bad += 1
            ctx.event("failing quote")
        elif bad:
            ctx.nontrivial_case()
            ctx.event("succeeds after failure")


TESTS = [
    Test("fault", faults(), check_fault, quick=9000, thorough=200000),
    Test("quotes", quotes_(), check_quotes, quick=800, thorough=12000),
]
