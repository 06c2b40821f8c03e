"""Debugging macros are transparent and show the truth."""

import ast
import contextlib
import copy
import io
import re
import textwrap

from hypothesis import strategies as st

from harness import mac, mexp, pygen
from harness.core import Test, Reject, require
from harness.sut import core as mcore, debug, diff, expander, unparser
from harness.sut import dump as sdump
from harness.sut import mcpyrate

PROPERTY = "D01"
RULE = ("'step': generated macros and code put through `step_expansion` (expression and block, all arguments, nested, inside other macros) must expand to what it does without it; the printed report must be the "
        "code before, the code after each single step (computed by stepping separately), and with \"detailed\" also each macro invocation of the step, as known from the macros themselves. 'collect': the uses "
        "that MacroCollector reports are those that the reference expander invokes if each macro keeps all of its input. 'hook': what the expander's debug hook is told, in any expansion mode, against the reference expander. 'bindings': `show_bindings` and `format_bindings` in code whose macros add, remove and "
        "replace bindings. 'validator': SourceLocationInfoValidator on trees with random locations removed. 'invalid': wrong arguments and syntaxes are errors. Non-trivial: at least two macro invocations in "
        "the stepped code; at least two kinds of use collected; at least two bindings shown or two reports; at least one location removed.")
ASSUMPTIONS = ["macros are functions of their inputs, and do not ask the expander for a single layer", "outputs do not form macro uses together with the code around them"]

KINDS = {"expr": [k for k in mexp.EXPR_KINDS if k not in ("once", "visit", "done")], "block": [k for k in mexp.BLOCK_KINDS if k not in ("once", "visit", "one")],
         "decorator": [k for k in mexp.DECO_KINDS if k != "once"], "name": list(mexp.NAME_KINDS)}
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def plain(text):
    return ANSI.sub("", text)


@contextlib.contextmanager
def stderr():
    with io.StringIO() as f, contextlib.redirect_stderr(f):
        yield f


def gen_src(s, specs, n=2, budget=14, **kw):
    g = mexp.MGen(s, specs, budget=budget, strings=["", "a"], fstrings=False, bad_args=False, **kw)
    return pygen.render(ast.Module(body=g.many(lambda: g.stmt(3), 1, n), type_ignores=[])) or "x"


def gen_expr_src(s, specs, budget=10, **kw):
    g = mexp.MGen(s, specs, budget=budget, strings=["", "a"], fstrings=False, bad_args=False, **kw)
    return pygen.render(ast.Expression(body=g.expr_use(4) if s.chance(2, 3) else g.expr(4))) or "x"


EXPR_T = ["r = S[{e}]", "r = S[{e}]", "S[{e}]", "f(y, S[{e}], k=x)", "x = lambda: S[{e}]", "a = S[{e}]\nb = S[{e}]", "r = (x, S[S[{e}]])", "@S[{e}]\ndef f(): pass", "r = [S[{e}] for x in y]"]
BLOCK_T = ["with S:\n{s}", "with S:\n{s}", "def f():\n  y\n  with S:\n{s}\n  return 1", "with S:\n  with S:\n{s}", "with S:\n  x = S[{e}]\n{s}", "with S, S:\n{s}", "with S, f(x) as y:\n{s}"]
MACRO_T = ["m0[S[{e}]]", "with m0:\n  with S:\n{s}", "S[m1[S[{e}]]]", "with S, m0:\n{s}", "with m1, S:\n{s}"]
ARGS = ["", "", "", "['unparse']", "['dump']", "['detailed']", "['summary']", "['dump', 'detailed']", "('detailed')", "('summary', 'unparse', 'detailed')"]


def indent(src, n):
    return "\n".join(" " * n + x for x in src.rstrip("\n").split("\n"))


@st.composite
def steps(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s, kinds=KINDS)
    tpl = s.choice(s.choice([EXPR_T, EXPR_T, BLOCK_T, BLOCK_T, MACRO_T]))
    # `tpl` is filled in when the case is run: the unwrapped version is needed too.
    return {"tpl": tpl, "args": [s.choice(ARGS) for _ in range(tpl.count("S"))], "e": gen_expr_src(s, specs) if "{e}" in tpl else None,
            "s": gen_src(s, specs) if "{s}" in tpl else None, "macros": specs}


def sources(case):
    """The code with `step_expansion`, and without."""
    n = iter(case["args"])
    tpl = re.sub("S", lambda m: "step_expansion" + next(n), case["tpl"])
    bare = case["tpl"]
    # each `with S` becomes `if True`-less plain statements: keep structure by using the identity macro instead
    bare = bare.replace("S", "noop")
    out = []
    for t in (tpl, bare):
        lines = []
        for line in t.split("\n"):
            if line == "{s}":
                lines.append(indent(case["s"], 4))
            else:
                lines.append(line.replace("{e}", case["e"] or ""))
        out.append("\n".join(lines))
    return out


def noop(tree, **kw):
    return tree


def parse(src):
    try:
        return ast.parse(src)
    except (SyntaxError, ValueError):
        raise Reject("not parseable")


class FormRef(mexp.RefExpander):
    """Notices whether the output of a macro makes the code around it into a macro use (see E06)."""
    formed = False

    def children(self, t):
        def refs():
            out = []
            for r in ([t.value] if isinstance(t, ast.Subscript) else [i.context_expr for i in t.items] if isinstance(t, (ast.With, ast.AsyncWith))
                      else t.decorator_list if hasattr(t, "decorator_list") else []):
                out += [r, r.value if isinstance(r, ast.Subscript) else r.func if isinstance(r, ast.Call) else None]
            return out
        before = refs()
        super().children(t)
        after = refs()
        if len(before) != len(after) or any(x is not y for x, y in zip(before, after)):
            self.formed = True
        return t


class Spec:
    """For the reference: a macro without parameters, not an identifier macro."""
    spec = {"param": False, "nm": False}

    def __call__(self, tree, **kw):
        return tree


def reports(text):
    """Parse the printed text: list of [tag, heading, content] in order of appearance. Not for nested reports."""
    out = []
    for line in text.split("\n"):
        m = re.match(r"(\*+)Tree (0x[0-9a-f]+) \((.*?)\) (before macro expansion:|after step \d+:|processing step \d+:|macro expansion complete after \d+ steps?\.)$", line)
        if m:
            out.append([len(m.group(1)), m.group(2), m.group(3), m.group(4), []])
        elif not out:
            if line:
                raise AssertionError(f"unexpected output {line!r}")
        else:
            out[-1][-1].append(line)
    for r in out:
        r[-1] = "\n".join(r[-1])
    return out


def render(tree, args, exp):
    if "dump" in args:
        from harness.sut import astdumper
        text = astdumper.dump(tree, include_attributes=True) if isinstance(tree, (ast.AST, list)) else repr(tree)
    else:
        text = plain(unparser.unparse_with_fallbacks(tree, debug=True, color=False))
    return text


def norm(text):
    """Without trailing white space and blank lines (the reports are indented line by line)."""
    return textwrap.dedent("\n".join(x.rstrip() for x in text.split("\n"))).strip("\n")


def hidden(text):
    return re.sub(r"0x[0-9a-f]{6,}", "0x", text)


def check_steps(case, ctx):
    src, bare = sources(case)
    log = []
    macros = mexp.bindings_for(case["macros"], log)
    # domain: no invalid macro arguments, also in code that some macro deletes
    try:
        mexp.RefExpander(mexp.bindings_for({m: dict(sp, **{k: v + [None] for k, v in PASS.items()}) for m, sp in case["macros"].items()}, [])).visit(parse(bare))
    except SyntaxError:
        raise Reject("invalid macro arguments")
    # domain: the outputs do not make macro uses of the code around them
    ref = FormRef(dict(macros, noop=Spec()))
    try:
        ref.visit_recursively(parse(bare))
    except SyntaxError:
        raise Reject("invalid macro arguments")
    if ref.formed:
        raise Reject("an output may form a macro use together with the code around it")
    if len(log) > 120:
        raise Reject("too many invocations")
    del log[:]
    exp0 = expander.MacroExpander(dict(macros, noop=noop), "<case>")
    want = exp0.visit_recursively(parse(bare))
    n = len(log)
    del log[:]
    exp = expander.MacroExpander(dict(macros, step_expansion=debug.step_expansion), "<case>")
    with stderr() as f:
        got = exp.visit_recursively(parse(src))
        text = f.getvalue()
    ctx.nontrivial_case(n >= 2)
    ctx.event("invocations", n)
    e, g = mexp.finish(want), mexp.finish(got)
    require(e == g, lambda: f"expansion of\n{src}\n differs from that of\n{bare}\n{diff(e, g)}")
    require(exp.recursive is True and exp._debughook is None, "expander state not restored")
    require("step_expansion" in exp.bindings, "expander state not restored")
    check_report(case, plain(text), macros, ctx)


def check_report(case, text, macros, ctx):
    reps = reports(text)
    # every tree: one 'before', steps 1..n in order, one 'complete after n'; properly nested
    open_ = []
    for stars, tag, filename, heading, content in reps:
        require(filename == "<case>", filename)
        if heading.startswith("before"):
            open_.append([tag, stars, 0, content, content])
            continue
        if heading.startswith("processing step"):     # may be about an invocation made within a nested stepper
            k = int(heading.split()[2].rstrip(":"))
            require(any(o[0] == tag and o[1] == stars and o[2] + 1 == k for o in open_), lambda: f"{tag} {heading} while in {open_}")
            continue
        require(open_ and open_[-1][0] == tag and open_[-1][1] == stars, lambda: f"report of {tag} ({heading}) while in {open_}")
        t = open_[-1]
        if heading.startswith("after step"):
            k = int(heading.split()[2].rstrip(":"))
            require(k == t[2] + 1, lambda: f"step {k} follows step {t[2]}")
            t[2] = k
            t[4] = content
        else:
            k = int(heading.split()[4])
            require(k == t[2], lambda: f"complete after {k} steps, expected {t[2]}")
            require(heading.endswith("step." if k == 1 else "steps."), heading)
            open_.pop()
    require(not open_, "a report has no end")
    ctx.event("reports", len(reps))
    # a single stepper: check the contents
    if case["tpl"].count("S") != 1 or any(x in case["tpl"] for x in ("m0", "m1")):
        return
    args = case["args"][0]
    tree = parse(sources(case)[0])
    found = []

    class Find(ast.NodeVisitor):
        def visit(self, node):
            if isinstance(node, ast.With) and any("step_expansion" in ast.dump(i) for i in node.items):
                node.items = [i for i in node.items if "step_expansion" not in ast.dump(i)]
                found.append([node] if node.items else node.body)
            elif isinstance(node, ast.Subscript) and "id='step_expansion'" in ast.dump(node.value):
                found.append(node.slice)
            else:
                self.generic_visit(node)
    Find().visit(tree)
    require(len(found) == 1, "harness: no stepper")
    tree = found[0]
    log = []
    macros = mexp.bindings_for(case["macros"], log)
    exp = expander.MacroExpander(dict(macros, step_expansion=debug.step_expansion), "<case>")
    want = [("before macro expansion:", render(tree, args, exp))]
    k = 0
    mc = expander.MacroCollector(exp)
    mc.visit(tree)
    names = []
    details = []

    def hook(_id, before, after, name, _function):
        details.append((k, name, hidden(norm(render(before, args, exp))), hidden(norm(render(after, args, exp)))))
    while mc.collected:
        k += 1
        del log[:]
        with exp.debughook(hook):
            tree = exp.visit_once(tree).body
        names.append(sorted(x[0] for x in log))
        want.append((f"after step {k}:", render(tree, args, exp)))
        mc.clear()
        mc.visit(tree)
    want.append((f"macro expansion complete after {k} step{'' if k == 1 else 's'}.", ""))
    got = [(r[3], textwrap.dedent(r[4])) for r in reps if not r[3].startswith("processing")]
    # The text shown is indented, which also happens within string literals; compare modulo that.
    w = [(h, norm(t)) for h, t in want]
    g = [(h, norm(t)) for h, t in got]
    require([h for h, t in w] == [h for h, t in g], lambda: f"{[h for h, t in g]}, expected {[h for h, t in w]}")
    for (h, a), (_, b) in zip(w, g):
        require(hidden(a) == hidden(b), lambda: f"{h}\n{diff(a, b)}")
    applied = {}
    shown = []
    for r in reps:
        if r[3].startswith("processing"):
            j = int(r[3].split()[2].rstrip(":"))
            m = re.match(r" *Applying (\w+) at subtree 0x[0-9a-f]+:\n", r[4])
            require(m and re.search(r"\n *Result:", r[4]), lambda: f"{r[3]} {r[4]}")
            applied.setdefault(j, []).append(m.group(1))
            parts = re.split(r"\n *Result:\n", "\n".join(x.rstrip() for x in r[4][m.end():].split("\n")) + "\n")
            shown.append((j, m.group(1), *(hidden(norm(x)) for x in parts)))
    if "detailed" in args:
        a = [sorted(applied.get(i + 1, [])) for i in range(k)]
        require(a == names, lambda: f"macros reported as applied in each step: {a}, invoked {names}")
        require(shown == details, lambda: "details of the steps\n" + diff("\n".join(map(repr, details)), "\n".join(map(repr, shown))))
    else:
        require(not applied, "details reported, though not asked for")
    ctx.event("contents checked")


# ---------------------------------------------------------------- collect

PASS = {"expr": ["tag"], "block": ["wrap"], "decorator": ["tag"], "name": ["tag"]}


@st.composite
def collects(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s, kinds=PASS)
    bound = [m for m in specs if not s.chance(1, 6)]
    for m in specs:
        specs[m]["param"] = s.chance(2, 3)
    return {"src": gen_src(s, specs, n=3, budget=24), "macros": {m: specs[m] for m in bound}, "done": s.chance(1, 4), "list": s.chance(1, 2)}


def check_collect(case, ctx):
    log = []
    macros = mexp.bindings_for(case["macros"], log)
    tree = parse(case["src"])
    try:
        mexp.RefExpander(macros).visit(parse(case["src"]))
    except SyntaxError:
        raise Reject("invalid macro arguments")
    want = {(x[0], x[1]) for x in log}
    exp = expander.MacroExpander(macros, "<case>")
    mc = expander.MacroCollector(exp)
    root = tree.body if case["list"] else tree
    if case["done"]:
        root = mcore.Done(root)
        want = set()
    before = sdump(tree)
    mc.visit(root)
    ctx.nontrivial_case(len(want) >= 2)
    require(len(set(mc.collected)) == len(mc.collected), lambda: f"reported twice: {mc.collected}")
    require(set(mc.collected) == want, lambda: f"collected {sorted(mc.collected)}, expected {sorted(want)}")
    require(sdump(tree) == before, "collecting changed the tree")
    mc.visit(None)
    require(set(mc.collected) == want, "collected from nothing")
    mc.clear()
    require(mc.collected == [], "not cleared")
    mc.visit(root)
    require(set(mc.collected) == want, "second collection differs")


# ---------------------------------------------------------------- hook

def output_dump(x):
    """A list of one statement is the same as the statement (the real expander has put a coverage statement there)."""
    x = mexp.strip(copy.deepcopy(x))
    return mexp.clean_dump(x[0] if isinstance(x, list) and len(x) == 1 else x or None)


class HookRef(mexp.RefExpander):
    calls = ()

    def invoke(self, name, syntax, tree, **kw):
        self.counted()
        before = mexp.clean_dump(kw["invocation"])
        out = self.macros[name](tree, syntax=syntax, expander=self, **kw)
        if out is not None and not isinstance(out, ast.AST):
            out = list(out)
        self.calls.append([name, before, output_dump(out)])
        if out is not None and self.recursive:
            out = self.visit(out)
        return out


@st.composite
def hooks(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s, kinds=dict(KINDS, name=[k for k in mexp.NAME_KINDS]))
    return {"src": gen_src(s, specs, n=2, budget=18), "macros": specs, "mode": s.choice(["visit", "visit_once", "visit_recursively"]), "nested": s.chance(1, 3)}


def check_hooks(case, ctx):
    log = []
    macros = mexp.bindings_for(case["macros"], log)
    ref = HookRef(macros)
    ref.calls = []
    try:
        getattr(ref, case["mode"])(parse(case["src"]))
    except SyntaxError:
        raise Reject("invalid macro arguments")
    if len(ref.calls) > 120:
        raise Reject("too many invocations")
    calls, others = [], []

    def hook(invocationid, invocation, expanded, name, function):
        require(function is macros[name], "wrong macro function")
        require(type(invocationid) is int, "wrong id")
        require(not any(isinstance(x, ast.AST) and id(x) == invocationid for x in ast.walk(invocation)), "not a copy of the invocation")
        calls.append([name, mexp.clean_dump(invocation), output_dump(expanded)])

    exp = expander.MacroExpander(macros, "<case>")
    with exp.debughook(hook):
        if case["nested"]:
            with exp.debughook(lambda *a: others.append(a)):
                getattr(exp, case["mode"])(parse(case["src"]))
        getattr(exp, case["mode"])(parse(case["src"]))
    ctx.nontrivial_case(len(calls) >= 2)
    require(calls == ref.calls, lambda: f"the debug hook was told\n{calls}\nexpected\n{ref.calls}")
    getattr(exp, case["mode"])(parse(case["src"]))
    require(len(calls) == len(ref.calls), "the debug hook was left installed")
    ctx.event("hook calls", len(calls))


# ---------------------------------------------------------------- bindings

@st.composite
def bindings(draw):
    s = pygen.Src(draw)
    names = ["a", "b", "c", "mm", "Z", "_x"]
    ops = []
    for _ in range(s.int(1, 6)):
        k = s.weighted([(4, "show"), (2, "add"), (1, "remove"), (1, "format"), (1, "global"), (1, "capture")])
        ops.append([k, s.choice(names), s.int(0, 3)])
    return {"init": {n: s.int(0, 3) for n in s.sublist(names)}, "show_as": s.choice(["show_bindings", "sb"]), "ops": ops, "where": s.choice(["module", "function", "expr"])}


def make_functions():
    out = []
    for mod, qual in (("pkg.mod", "f"), ("pkg.mod", "C.g"), (None, "repl"), ("other", "f.<locals>.h")):
        def f(tree, **kw):
            return tree
        f.__module__ = mod
        f.__qualname__ = qual
        out.append((f, qual if mod is None else f"{mod}.{qual}"))
    return out


def report(filename, model):
    lines = [f"Macro bindings for {filename}:"]
    lines += [f"    {k}: {v}" for k, v in sorted(model.items())] or ["    <no bindings>"]
    return "\n".join(lines) + "\n"


def check_bindings(case, ctx):
    fns = make_functions()
    show = case["show_as"]
    model = {n: fns[i][1] for n, i in case["init"].items()}
    model[show] = "mcpyrate.debug.show_bindings"
    got, want, where = [], [], []

    def edit(tree, *, expander, **kw):
        k, name, i = case["ops"][tree.value]
        if k == "add":
            expander.bindings[name] = fns[i][0]
        elif k == "remove":
            expander.bindings.pop(name, None)
        elif k == "format":
            where.append(plain(debug.format_bindings(expander)))
            where.append(plain(debug.format_bindings(expander, color=True)))
        elif k == "capture":
            mcore.global_bindings["verif_" + name] = fns[i][0]
        elif k == "global":
            where.append(debug.format_bindings(expander, globals_too=True))
        return tree
    edit.__module__, edit.__qualname__ = "pkg", "edit"
    model["edit"] = "pkg.edit"
    b = {n: fns[i][0] for n, i in case["init"].items()}
    b[show] = debug.show_bindings
    b["edit"] = edit
    lines, wantwhere, captured = [], [], {}
    for i, (k, name, j) in enumerate(case["ops"]):
        if k == "show":
            lines.append(f"r{i} = {show}")
            want.append(report("<case>", model))
        else:
            lines.append(f"edit[{i}]")
            if k == "add":
                model[name] = fns[j][1]
            elif k == "remove":
                model.pop(name, None)
            elif k == "capture":
                captured["verif_" + name] = fns[j][1]
            elif k == "format":
                wantwhere += [report("<case>", model)] * 2
            else:
                wantwhere.append(report("<case>", {**model, **captured}))
    shows = [i for i, o in enumerate(case["ops"]) if o[0] == "show"]
    if case["where"] == "function":
        src = "def f():\n" + indent("\n".join(lines) + "\nreturn [" + ", ".join(f"r{i}" for i in shows) + "]", 2) + "\nresult = f()"
    elif case["where"] == "expr":
        src = "result = [" + ", ".join(x.split(" = ")[1] if " = " in x else x for x in lines) + "]\nresult = [x for x in result if x is None]"
    else:
        src = "\n".join(lines) + "\nresult = [" + ", ".join(f"r{i}" for i in shows) + "]"
    saved = dict(mcore.global_bindings)
    with stderr() as f:
        exp = expander.MacroExpander(b, "<case>")
        try:
            tree = exp.visit(parse(src))
        finally:
            for k in captured:
                mcore.global_bindings.pop(k, None)
        tree = mcore.global_postprocess(tree)
        got = plain(f.getvalue())
    ctx.nontrivial_case(len(shows) + len(where) >= 2 or len(case["init"]) >= 2)
    # each report ends in a newline of its own, and print adds one
    require(got == "".join(x + "\n" for x in want), lambda: f"printed\n{got}\nexpected\n{want}")
    gw = []
    for i, x in enumerate(where):
        gw.append("\n".join(y for y in x.split("\n") if not any(y.startswith(f"    {g}: ") for g in saved)))
    require(gw == wantwhere, lambda: f"format_bindings gives\n{gw}\nexpected\n{wantwhere}")
    ns = mac.execute(tree)
    require(ns["result"] == [None] * len(shows), lambda: f"evaluates to {ns['result']}")


# ---------------------------------------------------------------- validator

@st.composite
def validators(draw):
    s = pygen.Src(draw)
    g = pygen.PyGen(s, budget=14)
    src = pygen.render(g.module(1, 3, 3)) or "x"
    return {"src": src, "remove": [[s.int(0, 60), s.choice([["lineno"], ["col_offset"], ["lineno", "col_offset"], ["end_lineno"]])] for _ in range(s.int(0, 4))],
            "fields": s.choice([None, None, ["lineno"], ["end_lineno", "col_offset"]]), "ignore": s.sublist(list(range(5))), "list": s.chance(1, 3)}


def check_validator(case, ctx):
    tree = parse(case["src"])
    root = tree.body if case["list"] else tree
    nodes = [n for x in (root if case["list"] else [root]) for n in ast.walk(x)]
    for i, fields in case["remove"]:
        if i < len(nodes):
            for f in fields:
                if f in vars(nodes[i]):
                    delattr(nodes[i], f)
    ctx.nontrivial_case(bool(case["remove"]))
    check = case["fields"] or ["lineno", "col_offset"]
    ignore = {nodes[i] for i in case["ignore"] if i < len(nodes)}
    want = {}
    for n in nodes:
        missing = [f for f in check if not hasattr(n, f)]
        if missing and n not in ignore:
            want[id(n)] = missing
    kw = {"check_fields": case["fields"]} if case["fields"] else {}
    v = debug.SourceLocationInfoValidator(ignore=ignore, **kw)
    v.visit(root)
    got = {}
    for t, code, fields in v.collected:
        require(id(t) not in got or isinstance(t, (ast.expr_context, ast.operator, ast.cmpop, ast.unaryop, ast.boolop)), lambda: f"collected twice: {t!r}")
        require(type(code) is str, lambda: repr(code))
        got[id(t)] = fields
    require(got == want, lambda: f"collected {len(got)}, expected {len(want)}: "
            f"{[sdump(n) for n in nodes if id(n) in set(got) ^ set(want)][:3]}")


# ---------------------------------------------------------------- invalid

BAD = [["step_expansion['frob'][x]", ValueError], ["step_expansion[1][x]", ValueError], ["step_expansion[x][x]", TypeError], ["step_expansion['dump', f(x)][x]", TypeError], ["@step_expansion\ndef f(): pass", SyntaxError],
       ["show_bindings[x]", SyntaxError], ["with show_bindings:\n    x", SyntaxError], ["@show_bindings\nclass C: pass", SyntaxError], ["with step_expansion('frob'):\n    x", ValueError], ["step_expansion[-1][x]", TypeError]]


@st.composite
def invalids(draw):
    s = pygen.Src(draw)
    i = s.int(0, len(BAD) - 1)
    return {"i": i, "in": s.choice(["{}", "if x:\n  y\nelse:\n{i}", "with step_expansion:\n{i}"]), "then": s.choice(["r = step_expansion[m[1]]", "r = (show_bindings, m[1])[1]"])}


def check_invalid(case, ctx):
    src, exc = BAD[case["i"]]
    src = case["in"].replace("{i}", indent(src, 2)).replace("{}", src)

    def m(tree, **kw):
        return ast.Constant(value="expanded")
    ctx.nontrivial_case()
    def make():
        return expander.MacroExpander({"step_expansion": debug.step_expansion, "show_bindings": debug.show_bindings, "m": m}, "<case>")
    with stderr() as f:
        make().visit(parse(case["then"]))
        want = hidden(f.getvalue())
    exp = make()
    with stderr():
        try:
            exp.visit(parse(src))
        except Exception as err:
            e = err
            while e is not None and not isinstance(e, exc):
                e = e.__cause__
            require(e is not None, lambda: f"{type(err).__name__} not caused by {exc.__name__}: {err}")
        else:
            require(False, f"accepted: {src}")
        f = io.StringIO()
        with contextlib.redirect_stderr(f):
            tree = exp.visit(parse(case["then"]))
        require("expanded" in sdump(tree), "expander not usable")
        require(exp._debughook is None and exp.recursive, "state not restored")
        require(hidden(f.getvalue()) == want, lambda: f"after an error\n{f.getvalue()}\nexpected\n{want}")


TESTS = [
    Test("step", steps(), check_steps, quick=3000, thorough=15000),
    Test("collect", collects(), check_collect, quick=5000, thorough=12000),
    Test("hook", hooks(), check_hooks, quick=1500, thorough=20000),
    Test("bindings", bindings(), check_bindings, quick=300, thorough=4000),
    Test("validator", validators(), check_validator, quick=200, thorough=3000),
    Test("invalid", invalids(), check_invalid, quick=100, thorough=400),
]
