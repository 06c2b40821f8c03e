"""Expansion modes agree: stepwise, recursive and once-only expansion."""

import ast
import contextlib
import copy
import io

from hypothesis import strategies as st

from harness import mac, mexp, pygen
from harness.core import Test, Reject, require
from harness.sut import astfixers, core as mcore, diff, dump, expander, metatools

PROPERTY = "E06"
RULE = ("'modes': a generated program and a sequence of `visit_once`, `visit_recursively` and `visit` calls (keeping or dropping the `Done` mark); after each one the code and the invocations "
        "must be those of the reference expander in that mode. 'stepwise': expanding one layer at a time until no macro uses are collected must give the code of recursive expansion. "
        "'metatools': generated code put through one of the expanding macros (static, run-time, quoting, in expression and block form, and stepping) in macro-enabled code; the resulting "
        "AST value must be what the reference expander gives for that code once, respectively recursively. 'first': `expand_first` with subsets of macros and aliases. Non-trivial: at least "
        "two macro invocations happened; in 'first', also some invocation of a macro that is not in the set.")
ASSUMPTIONS = ["macros are functions of their inputs", "macros used by the run-time variants are picklable"]
LOG = []


class PMacro:
    """A picklable macro (generated macros are closures, which are not)."""
    def __init__(self, name, spec):
        self.name = name
        self.spec = spec
        if spec["param"]:
            self._isparametricmacro = True
        if spec["nm"]:
            self._isnamemacro = True
        self.__name__ = self.__qualname__ = name

    def __eq__(self, other):
        return type(other) is PMacro and (self.name, self.spec) == (other.name, other.spec)

    def __hash__(self):
        return hash(self.name)

    def __call__(self, tree, **kw):
        return mexp.make_macro(self.name, self.spec, LOG, wrap=False)(tree, **kw)


def bindings(case, log=None):
    return {m: PMacro(m, sp) for m, sp in case["macros"].items()}


NOVISIT = {"expr": [k for k in mexp.EXPR_KINDS if k not in ("once", "visit", "done")], "block": [k for k in mexp.BLOCK_KINDS if k not in ("once", "visit")],
           "decorator": [k for k in mexp.DECO_KINDS if k != "once"], "name": [k for k in mexp.NAME_KINDS]}

# A macro that takes the first statement only may get one that was inserted for coverage tools, if its input is partly expanded.
ALL = {"block": [k for k in mexp.BLOCK_KINDS if k != "one"]}
NOVISIT["block"].remove("one")


def gen_src(s, specs, n=2, budget=18, **kw):
    g = mexp.MGen(s, specs, budget=budget, strings=["", "a"], fstrings=False, **kw)
    return pygen.render(ast.Module(body=g.many(lambda: g.stmt(3), 1, n), type_ignores=[])) or "x"


def gen_expr_src(s, specs, budget=14, **kw):
    g = mexp.MGen(s, specs, budget=budget, strings=["", "a"], fstrings=False, **kw)
    return pygen.render(ast.Expression(body=g.expr_use(4) if s.chance(2, 3) else g.expr(4)))


def parse(src, mode="exec"):
    try:
        return ast.parse(src, mode=mode)
    except SyntaxError:
        raise Reject("not parseable")


def take_log():
    out = list(LOG)
    LOG.clear()
    if len(out) > 300:
        raise Reject("too many invocations")
    return out


def caused_by_syntax(err):
    seen = 0
    while err is not None and not isinstance(err, SyntaxError) and seen < 20:
        err = err.__cause__ or err.__context__
        seen += 1
    return isinstance(err, SyntaxError)


# ---------------------------------------------------------------- modes

@st.composite
def modes(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s, kinds=ALL)
    root = s.choice(["module", "module", "expr"])
    return {"src": gen_src(s, specs) if root == "module" else gen_expr_src(s, specs), "root": root, "macros": specs, "ops": [s.choice(["once", "recursive", "visit", "once keep", "list once"]) for _ in range(s.int(1, 5))]}


def apply(exp, op, tree):
    if isinstance(tree, mcore.Done) or op == "visit":
        return exp.visit(tree)
    if op == "once":
        t = exp.visit_once(tree)
        require(isinstance(t, mcore.Done), f"visit_once gives {t!r}")
        return t.body
    if op == "once keep":
        return exp.visit_once(tree)
    if op == "recursive":
        return exp.visit_recursively(tree)
    if op == "list once":
        if isinstance(tree, ast.expr):
            return exp.visit_once(tree).body
        if tree is not None and tree.body:
            tree.body = mexp.aslist(exp.visit_once(tree.body).body)
        return tree


def check_modes(case, ctx):
    LOG.clear()
    ref, real = mexp.RefExpander(bindings(case)), expander.MacroExpander(bindings(case), "<case>")
    rtree, tree = parse(case["src"]), parse(case["src"])
    if case["root"] == "expr":
        rtree, tree = rtree.body[0].value, tree.body[0].value
    n = 0
    for i, op in enumerate(case["ops"]):
        try:
            rtree = apply(ref, op, rtree)
            rerr = None
        except SyntaxError as err:
            rerr = err
        rlog = take_log()
        try:
            tree = apply(real, op, tree)
        except Exception as err:
            if rerr is None or not caused_by_syntax(err):
                raise
            break
        require(rerr is None, "invalid macro invocation accepted")
        log = take_log()
        n += len(rlog)
        at = f"after {case['ops'][:i + 1]}"
        require(log == rlog, lambda: f"{at}: invocations {log}\nexpected {rlog}")
        e, g = mexp.finish(rtree), mexp.finish(tree)
        require(e == g, lambda: f"{at}\n{diff(e, g)}")
    ctx.nontrivial_case(n >= 2)
    ctx.event("invocations", n)


# ---------------------------------------------------------------- stepwise

class FormRef(mexp.RefExpander):
    """Notices whether the output of a macro may make the code around it into a macro use.

    Recursive expansion has passed the code around already when that happens, but the next single step sees it.
    """
    formed = False

    def children(self, t):
        def refs():
            out = []
            for r in ([t.value] if isinstance(t, ast.Subscript) else [i.context_expr for i in t.items] if isinstance(t, (ast.With, ast.AsyncWith))
                      else t.decorator_list if hasattr(t, "decorator_list") else []):
                out += [r, r.value if isinstance(r, ast.Subscript) else r.func if isinstance(r, ast.Call) else None]
            return out
        before = refs()
        super().children(t)
        after = refs()
        if len(before) != len(after) or any(x is not y for x, y in zip(before, after)):
            self.formed = True
        return t


@st.composite
def steps(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s, kinds=NOVISIT)
    return {"src": gen_src(s, specs, look_alikes=s.chance(1, 2), bad_args=False), "macros": specs, "list": s.chance(1, 2)}


def check_steps(case, ctx):
    LOG.clear()
    ref = FormRef(bindings(case))
    try:
        want = ref.visit_recursively(parse(case["src"]))
    except SyntaxError:
        raise Reject("invalid macro arguments")
    if case["list"]:
        want = want.body
    take = take_log()
    if ref.formed:
        raise Reject("an output may form a macro use together with the code around it")
    real = expander.MacroExpander(bindings(case), "<case>")
    tree = parse(case["src"])
    if case["list"]:
        tree = tree.body
    mc = expander.MacroCollector(real)
    mc.visit(tree)
    k = 0
    while mc.collected:
        k += 1
        require(k < 200, "stepwise expansion does not end")
        before = len(LOG)
        tree = real.visit_once(tree).body
        require(len(LOG) > before, lambda: f"macro uses {mc.collected} were reported, but expanding once invokes none")
        mc.clear()
        mc.visit(tree)
    log = take_log()
    ctx.nontrivial_case(len(log) >= 2)
    ctx.event("steps", k)
    e, g = mexp.finish(want), mexp.finish(tree)
    require(e == g, lambda: f"after {k} single steps the code differs from recursive expansion\n{diff(e, g)}")
    require(sorted(map(repr, (x[:2] for x in log))) == sorted(map(repr, (x[:2] for x in take))), lambda: f"invocations {log}\nexpected, in any order {take}")


# ---------------------------------------------------------------- metatools

ONCE = ["r = expand1sq[{e}]", "r = expand1s[q[{e}]]", "r = expand1rq[{e}]", "r = expand1r[q[{e}]]", "v = q[{e}]\nr = expand1r[v]", "r = expand1r[a_quote(q[{e}])]",
        "with expand1sq as r:\n{s}", "with expand1rq as r:\n{s}", "with q as v:\n{s}\nr = expand1r[v]", "with q as v:\n{s}\nr = expand1r[copy(v)]", "r = runtime_expand1(macro_bindings, __name__, q[{e}])"]
REC = ["r = expandsq[{e}]", "r = in_once[expands[q[{e}]]]", "r = in_once[expandsq[{e}]]", "with in_once:\n    r = expands[q[{e}]]", "r = expands[q[{e}]]", "r = expandrq[{e}]", "r = expandr[q[{e}]]", "v = q[{e}]\nr = expandr[v]", "r = expandr[a_quote(q[{e}])]", "r = stepr[q[{e}]]",
       "r = stepr['dump', 'detailed'][q[{e}]]", "with expandsq as r:\n{s}", "with expandrq as r:\n{s}", "with q as v:\n{s}\nr = expandr[v]", "with q as v:\n{s}\nr = stepr[v]",
       "r = runtime_expand(macro_bindings, __name__, q[{e}])", "v = q[{e}]\nr = expandr[q[a[v]]]", "v = q[{e}]\nr = expandrq[a[v]]", "with q as v:\n{s}\nwith expandrq as r:\n    with a:\n        v",
       "b = macro_bindings\nr = runtime_expand(b, 'f', q[{e}])"]
TWICE = ["r = expand1s[expand1s[q[{e}]]]", "r = expand1r[expand1r[q[{e}]]]", "r = expand1s[q[{e}]]\nr = expand1r[r]", "r = expand1sq[{e}]\nr = expand1r[r]", "with expand1sq as r:\n{s}\nr = expand1r[r]"]
THEN_REC = ["r = expandr[expand1r[q[{e}]]]", "r = expandr[expand1sq[{e}]]", "with expand1rq as r:\n{s}\nr = expandr[r]"]
LOCATED = ["\n\nr = fill_location[q[{e}]]", "with q as v:\n{s}\nr = fill_location[v]"]


@st.composite
def metas(draw):
    s = pygen.Src(draw)
    form = s.choice(ONCE + REC + TWICE + THEN_REC + LOCATED)
    specs = mexp.gen_specs(s, kinds=NOVISIT if "stepr" in form or form in TWICE + THEN_REC else ALL)
    block = "{s}" in form
    return {"code": gen_src(s, specs, budget=14, bad_args="stepr" not in form) if block else gen_expr_src(s, specs, bad_args="stepr" not in form), "macros": specs, "form": form, "alias": s.chance(1, 3)}


def in_once(tree, *, expander, **kw):
    return expander.visit_once(tree)


META = ("expand1sq", "expandsq", "expand1s", "expands", "expand1rq", "expandrq", "expand1r", "expandr", "stepr", "fill_location", "macro_bindings")


def check_metas(case, ctx):
    LOG.clear()
    form, code = case["form"], case["code"]
    block = "{s}" in form
    orig = parse(code, "exec" if block else "eval").body
    if block and any(isinstance(x, (ast.Import, ast.ImportFrom)) and getattr(x, "module", "") == "__future__" for x in orig):
        raise Reject("future import")
    text = "\n".join("    " + line for line in code.split("\n")) if block else code
    if block and ("'''" in code or '"""' in code or "\\\n" in code):
        raise Reject("multi-line token")
    src = form.replace("{s}", text) if block else form.replace("{e}", text)
    R = FormRef(bindings(case))
    want = copy.deepcopy(orig)
    where = None
    try:
        if form in LOCATED:
            pass
        elif form in ONCE:
            want = R.visit_once(want).body
        elif form in TWICE + THEN_REC:
            want = R.visit_once(want).body
            if want is None:
                raise Reject("deleted")
            want = R.visit_once(want).body if form in TWICE else R.visit_recursively(want)
        else:
            want = R.visit_recursively(want)
        failed = False
    except SyntaxError:
        failed = True
    rlog = take_log()
    if "stepr" in form and R.formed:
        raise Reject("an output may form a macro use together with the code around it")
    b = bindings(case)
    b.update(mac.qbindings())
    b.update({k: getattr(metatools, k) for k in META})
    b["in_once"] = in_once
    if case["alias"]:
        src_names = {"expandr[": "ex_r[", "expand1r[": "ex_1r["}
        for k, v in src_names.items():
            if k in form:
                src = src.replace(k, v)
                b[v[:-1]] = b.pop(k[:-1])
    ns = {"a_quote": lambda t: t, "copy": copy.deepcopy, "runtime_expand": metatools.runtime_expand, "runtime_expand1": metatools.runtime_expand1}
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            tree = mac.expand_src(parse_ok(src), b)
            mac.execute(tree, ns)
    except SyntaxError:
        if failed:
            return
        raise
    except mcore.MacroExpansionError as e:
        if failed:
            return
        raise
    got = ns["r"]
    require(not failed, "invalid macro invocation accepted")
    log = take_log()
    ctx.event(form.replace("\n", "; "))
    ctx.nontrivial_case(len(rlog) >= 2 or form in LOCATED)
    if "stepr" in form:     # the same invocations, in the order of the steps
        log, rlog = sorted(map(repr, (x[:2] for x in log))), sorted(map(repr, (x[:2] for x in rlog)))
    require(log == rlog, lambda: f"{src!r}: invocations {log}\nexpected {rlog}")
    e, g = mexp.finish(want), mexp.finish(got)
    require(e == g, lambda: f"{src!r}\n{diff(e, g)}")
    if form in LOCATED:
        line = src.count("\n") + 1 if block else 3
        for t in mexp.aslist(got):
            for n in ast.walk(t):
                if "lineno" in n._attributes:
                    require((getattr(n, "lineno", None), getattr(n, "col_offset", None)) == (line, 4), lambda: f"{dump(n)} is at {getattr(n, 'lineno', None)}, {getattr(n, 'col_offset', None)}, expected {line}, 4")
    if "b = macro_bindings" in form:
        require({k: v for k, v in ns["b"].items() if k in case["macros"]} == bindings(case) and set(ns["b"]) >= set(b), lambda: f"macro_bindings gives {ns['b']}, expected {b}")


def parse_ok(src):
    parse(src)
    return src


# ---------------------------------------------------------------- expand_first

@st.composite
def firsts(draw):
    s = pygen.Src(draw)
    specs = mexp.gen_specs(s, kinds=ALL)
    for m in mexp.MACROS:
        if s.chance(1, 3):
            specs[m + "_alias"] = m
    plain = {m: (specs[sp] if isinstance(sp, str) else sp) for m, sp in specs.items()}
    names = [s.choice(list(specs)) for _ in range(s.int(1, 3))]
    bad = s.weighted([(12, None), (1, "noargs"), (1, "notmacro"), (1, "expression"), (1, "aspart"), (1, "call"), (2, "quoted")])
    return {"code": gen_src(s, plain, budget=16), "macros": specs, "names": names, "special": bad}


def check_firsts(case, ctx):
    LOG.clear()
    code = case["code"]
    body = parse(code).body
    if "'''" in code or '"""' in code or "\\\n" in code:
        raise Reject("multi-line token")
    text = "\n".join("    " + line for line in code.split("\n"))
    args, bad = ", ".join(case["names"]), case["special"]
    head = {None: f"expand_first[{args}]", "noargs": "expand_first", "notmacro": f"expand_first[{args}, nosuch]", "expression": f"expand_first[{args}, 1 + 2]",
            "aspart": f"expand_first[{args}] as x", "call": f"expand_first({args})", "quoted": "expand_first[" + ", ".join(f"q[h[{m}]]" for m in case["names"]) + "]"}[bad]
    src = f"with {head}:\n{text}"
    parse(src)
    canon = {m: (sp if isinstance(sp, str) else m) for m, sp in case["macros"].items()}
    funcs = {m: PMacro(m, sp) for m, sp in case["macros"].items() if isinstance(sp, dict)}
    b = {m: funcs[c] for m, c in canon.items()}
    chosen = {canon[m] for m in case["names"]}
    sub = {m: f for m, f in b.items() if canon[m] in chosen}
    failed = bad in ("noargs", "notmacro", "expression", "aspart")
    try:
        want = mexp.RefExpander(sub).visit(body)
        nfirst = len(LOG)
        want = mexp.RefExpander(b).visit(want)
    except SyntaxError:
        failed = True
    rlog = take_log()
    allb = dict(b, expand_first=metatools.expand_first, **mac.qbindings())
    try:
        got = expander.expand_macros(ast.parse(src), allb, filename="<case>").body
    except mcore.MacroExpansionError as err:
        if failed and caused_by_syntax(err):
            ctx.event("rejected")
            return
        raise
    except SyntaxError:
        if failed:
            return
        raise
    log = take_log()
    require(not failed, lambda: f"{head!r} accepted")
    ctx.event(f"{len(chosen)} macros first")
    ctx.nontrivial_case(len(rlog) >= 2 and nfirst < len(rlog) and nfirst > 0)
    require(log == rlog, lambda: f"with {head}: invocations {log}\nexpected {rlog}")
    e, g = mexp.finish(want), mexp.finish(got)
    require(e == g, lambda: f"with {head}:\n{diff(e, g)}")
    require({k: v for k, v in allb.items() if k in b} == b, "bindings changed")


TESTS = [
    Test("modes", modes(), check_modes, quick=5000, thorough=100000),
    Test("stepwise", steps(), check_steps, quick=4000, thorough=80000),
    Test("metatools", metas(), check_metas, quick=3500, thorough=60000),
    Test("first", firsts(), check_firsts, quick=2500, thorough=50000),
]
