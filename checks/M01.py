"""The bundled macros accept the uses their documentation allows, and reject all others."""

import ast
import contextlib
import io

from hypothesis import strategies as st

from harness import pygen
from harness.core import Test, require
from harness.sut import core as mcore, debug, expander, metatools, multiphase, quotes

PROPERTY = "M01"
RULE = ("Histories of one to five generated modules that use the bundled macros under generated names (several names for one macro) in every syntax (expression, with and without macro arguments in brackets and parentheses; "
        "block, with and without `as`; decorator of function and class; bare name), nested in each other, including quotes and unquotes at all quote levels, expanded with one expander or with new ones. A table "
        "transcribed from the documentation says which of the modules must be rejected; these must raise, with a SyntaxError (TypeError, ValueError or NotImplementedError for wrong operands) among the causes, and the others must "
        "expand to code that compiles. Non-trivial: at least two macro uses in the module, and one of them inside another or the second in the history.")
ASSUMPTIONS = ["block mode of expands, expand1s, expandr and expand1r is only checked for the forbidden asname",
               "operands of the static expansion macros have no unquotes", "the shorthands that quote and expand (expandrq, ...) have no unquotes in their operand when used within another quote"]

UNQUOTES = ["u", "n", "a", "s", "t", "h"]
MACROS = {"q": quotes.q, "u": quotes.u, "n": quotes.n, "a": quotes.a, "s": quotes.s, "t": quotes.t, "h": quotes.h,
          "macro_bindings": metatools.macro_bindings, "fill_location": metatools.fill_location, "expand1sq": metatools.expand1sq, "expandsq": metatools.expandsq,
          "expand1s": metatools.expand1s, "expands": metatools.expands, "expand1rq": metatools.expand1rq, "expandrq": metatools.expandrq, "expand1r": metatools.expand1r,
          "expandr": metatools.expandr, "stepr": metatools.stepr, "expand_first": metatools.expand_first, "step_expansion": debug.step_expansion, "show_bindings": debug.show_bindings,
          "phase": multiphase.phase, "step_phases": multiphase.step_phases}
PARAMETRIC = {"stepr", "expand_first", "step_expansion", "phase"}
NAMES = {"macro_bindings", "show_bindings", "step_phases"}      # identifier macros
EXPR = {"q", "u", "n", "a", "s", "t", "h", "fill_location", "expand1sq", "expandsq", "expand1s", "expands", "expand1rq", "expandrq", "expand1r", "expandr", "stepr", "step_expansion"}
BLOCK = {"q", "a", "expand1sq", "expandsq", "expand1rq", "expandrq", "expand_first", "step_expansion", "expand1s", "expands", "expand1r", "expandr"}
TAKES_AS = {"q", "expand1sq", "expandsq", "expand1rq", "expandrq"}      # and requires it
ATOMS = ["x", "y.z", "1", "'s'", "f(x, *y)", "[x, 2]", "x[y]", "lambda x: x", "(x, y)"]
OTHERS = [m for m in MACROS if m != "q" and m not in UNQUOTES]
FIRST = ["show_bindings", "macro_bindings", "fill_location", "step_expansion"]


class Gen:
    def __init__(self, s, names):
        self.s = s
        self.names = names
        self.budget = 9
        self.inq = 0

    def name(self, m):
        return self.s.choice(self.names[m])

    def atom(self):
        return ["atom", self.s.choice(ATOMS)]

    def pick(self, level, block):
        """A macro; often one that is allowed here."""
        s = self.s
        if s.chance(1, 12):
            return s.choice(list(MACROS))
        if level == 0:
            return s.choice(["q", "q", "q", s.choice(sorted((BLOCK if block else EXPR | NAMES) - set(UNQUOTES) - {"step_phases"}))])
        if block:
            return s.choice(["q", "a", "a", s.choice(OTHERS)])
        return s.choice(["q", *UNQUOTES, s.choice(OTHERS)])

    def args(self, m):
        s = self.s
        if m in ("step_expansion", "stepr"):
            return s.choice([None, None, ["'dump'"], ["'detailed'", "'unparse'"]] + ([["'nope'"], ["x"], ["1"]] if m == "step_expansion" and s.chance(1, 2) else []))
        if m == "phase":
            return s.choice([None, ["1"], ["2"]])
        if m == "expand_first":
            ok = [self.name(s.choice(FIRST)) for _ in range(s.int(1, 2))]
            return s.weighted([(6, ok), (1, None), (1, ok + ["nosuch"]), (1, ["x.y"] + ok), (1, ["1"]), (1, ["'s'"])])
        return [s.choice(["x", "1"])] if s.chance(1, 15) else None

    def expr(self, level, depth, plain=False):
        s = self.s
        if depth <= 0 or self.budget <= 0 or s.chance(1, 5):
            return self.atom()
        k = s.int(0, 9)
        if k == 0:
            return ["bin", self.expr(level, depth - 1, plain), self.expr(level, depth - 1, plain)]
        if k == 1:
            return ["call", self.expr(level, depth - 1, plain), self.expr(level, depth - 1, plain)]
        if plain:
            return self.atom()
        if k == 2:
            m = s.choice(sorted(MACROS)) if s.chance(1, 3) else s.choice(["q", "u", "macro_bindings", "show_bindings", "expandr"])
            return ["name", m, self.name(m)]
        self.budget -= 1
        m = self.pick(level, False)
        if m in NAMES and not s.chance(1, 8):
            return ["name", m, self.name(m)]
        args = self.args(m)
        return ["use", m, self.name(m), args, s.choice(["[]", "[]", "()"]) if m in PARAMETRIC else "[]", self.operand(m, level, lambda lv, pl: self.expr(lv, depth - 1, pl))]

    def operand(self, m, level, make):
        """The operand, at the level it is at."""
        if m == "q":
            self.inq += 1
            try:
                return make(level + 1, False)
            finally:
                self.inq -= 1
        if m in UNQUOTES:
            return make(max(level - 1, 0), False)
        if level > 0:
            return make(level, False)
        if m in ("expand1sq", "expandsq"):
            return make(1, True)
        if m in ("expand1rq", "expandrq"):
            outer = self.inq
            self.inq += 1
            try:
                return make(1, outer > 0)
            finally:
                self.inq -= 1
        if m in ("expands", "expand1s"):
            if self.s.chance(5, 6):
                q = self.s.choice(["q", "expand1sq"])
                return ["use", q, self.name(q), None, "[]", make(1, True)]
            return make(0, True)
        return make(0, False)

    def stmt(self, level, depth):
        s = self.s
        k = s.int(0, 7)
        if depth <= 0 or self.budget <= 0 or k <= 1:
            return ["expr" if s.chance(1, 3) else "assign", self.expr(level, depth + 1)]
        if k == 2:
            return ["if", self.expr(level, 1), self.body(level, depth - 1)]
        self.budget -= 1
        if k == 3:
            m = s.choice(sorted(MACROS)) if s.chance(2, 5) else None
            args = self.args(m) if m and s.chance(1, 2) and m in PARAMETRIC else None
            return ["deco", m, m and self.name(m), args, s.choice(["def f():", "class C:", "async def g():"]), self.body(level, depth - 1, m in UNQUOTES + ["q"] or level == 0 and m in EXPR | BLOCK)]
        m = self.pick(level, True)
        args = self.args(m) if m in PARAMETRIC else None
        live = level == 0 or m == "q" or m in UNQUOTES
        as_ = s.choice(["v", "v", "v", "v", "v", None, "(v, w)", "v.w"]) if m in TAKES_AS else s.choice([None, None, None, None, None, "v"])
        if live and m in ("expands", "expand1s", "expandr", "expand1r") or level > 0 and m == "q":
            as_ = "v"
        if m == "step_expansion":
            as_ = None
        body = self.operand(m, level, lambda lv, pl: self.body(lv, depth - 1, pl)) if m not in ("expands", "expand1s") else self.body(level, 0, True)
        if m == "a" and level == 1 and not s.chance(1, 10):
            body = [["expr", b[1] if b[0] in ("expr", "assign") else self.atom()] for b in body]
        return ["with", m, self.name(m), args, as_, body]

    def body(self, level, depth, plain=False):
        return [["assign", self.expr(level, 1, True)] for _ in range(self.s.int(1, 2))] if plain else [self.stmt(level, depth) for _ in range(self.s.int(1, 2))]




@st.composite
def cases(draw):
    s = pygen.Src(draw)
    names = {m: [m] if s.chance(3, 4) else [f"{m}1", f"{m}_2"][:s.int(1, 2)] for m in MACROS}
    mods = []
    for _ in range(s.weighted([(4, 1), (3, 2), (2, 3), (1, 5)])):
        g = Gen(s, names)
        mods.append([g.stmt(0, 3) for _ in range(s.int(1, 2))])
    return {"names": names, "mods": mods, "share": s.chance(2, 3)}


# ---------------------------------------------------------------- rendering
def rexpr(e):
    k = e[0]
    if k == "atom":
        return f"({e[1]})"
    if k == "bin":
        return f"({rexpr(e[1])} + {rexpr(e[2])})"
    if k == "call":
        return f"f({rexpr(e[1])}, k={rexpr(e[2])})"
    if k == "name":
        return e[2]
    _, m, name, args, style, operand = e
    head = name if args is None else name + style[0] + ", ".join(args) + style[1]
    return f"{head}[{rexpr(operand)}]"


def rstmts(body, ind=""):
    out = []
    for b in body:
        k = b[0]
        if k == "expr":
            out.append(ind + rexpr(b[1]))
        elif k == "assign":
            out.append(f"{ind}r = {rexpr(b[1])}")
        elif k == "if":
            out += [f"{ind}if {rexpr(b[1])}:", *rstmts(b[2], ind + "    ")]
        elif k == "with":
            _, m, name, args, as_, inner = b
            out += [f"{ind}with {name}{'' if args is None else '[' + ', '.join(args) + ']'}{'' if as_ is None else ' as ' + as_}:", *rstmts(inner, ind + "    ")]
        else:
            _, m, name, args, head, inner = b
            if m:
                out.append(f"{ind}@{name}{'' if args is None else '[' + ', '.join(args) + ']'}")
            out += [ind + head, *rstmts(inner, ind + "    ")]
    return out


# ---------------------------------------------------------------- reference
class Rejected(Exception):
    pass


class Ref:
    """Walks the structure; raises `Rejected` for a use that is not allowed."""
    def __init__(self, names):
        self.macro = {n: m for m, ns in names.items() for n in ns}
        self.forced = set()     # what `expand_first` expands, also within quotes
        self.uses = 0
        self.nested = 0
        self.depth = 0

    def live(self, m, level):
        return m == "q" or m in UNQUOTES or level == 0 or m in self.forced

    @contextlib.contextmanager
    def inside(self):
        self.uses += 1
        self.nested += self.depth > 0
        self.depth += 1
        yield
        self.depth -= 1

    def inner(self, m, level):
        """Quote level of the operand."""
        if m == "q":
            return level + 1
        if m in UNQUOTES:
            if level < 1:
                raise Rejected(f"{m} outside a quote")
            return level - 1
        if level == 0 and m in ("expand1sq", "expandsq", "expand1rq", "expandrq"):
            return 1
        return level

    def expr(self, e, level):
        k = e[0]
        if k == "atom":
            return
        if k in ("bin", "call"):
            self.expr(e[1], level)
            self.expr(e[2], level)
            return
        m = e[1]
        if k == "name":
            if self.live(m, level) and m == "step_phases":
                raise Rejected("step_phases")
            return
        _, m, name, args, style, operand = e
        if args is not None and m not in PARAMETRIC:    # a use with operand `args`, subscripted
            self.expr(["use", m, name, None, style, ["atom", args[0]]], level)
            self.expr(operand, level)
            return
        if not self.live(m, level):
            self.expr(operand, level)
            return
        with self.inside():
            if m not in EXPR:
                raise Rejected(f"{m} as an expression macro")
            if m == "step_expansion" and set(args or []) & {"'nope'", "x", "1"}:
                raise Rejected("arguments of step_expansion")
            if m in ("expands", "expand1s") and not (operand[0] == "use" and operand[1] in ("q", "expand1sq")):
                raise Rejected("not quasiquoted")
            lv = self.inner(m, level)
            if not (m == "h" and lv == 0 and operand[0] == "name"):     # captures the macro
                self.expr(operand, lv)

    def stmts(self, body, level):
        for b in body:
            k = b[0]
            if k in ("expr", "assign"):
                self.expr(b[1], level)
            elif k == "if":
                self.expr(b[1], level)
                self.stmts(b[2], level)
            elif k == "deco":
                _, m, name, args, head, inner = b
                if m and self.live(m, level):
                    self.uses += 1
                    raise Rejected(f"{m} as a decorator")
                self.stmts(inner, level)
            else:
                _, m, name, args, as_, inner = b
                if not self.live(m, level):
                    self.stmts(inner, level)
                    continue
                with self.inside():
                    if m not in BLOCK:
                        raise Rejected(f"{m} as a block macro")
                    if m in TAKES_AS:
                        if as_ is None or not as_.isidentifier():
                            raise Rejected(f"asname of {m}")
                    elif as_ is not None:
                        raise Rejected(f"{m} with an asname")
                    if m == "expand_first" and (args is None or not all(x.isidentifier() for x in args) or "nosuch" in args):
                        raise Rejected("arguments of expand_first")
                    if m == "step_expansion" and set(args or []) & {"'nope'", "x", "1"}:
                        raise Rejected("arguments of step_expansion")
                    lv = self.inner(m, level)
                    if m == "a" and lv == 0 and any(x[0] != "expr" for x in inner):
                        raise Rejected("a statement in `with a`")
                    outer = self.forced
                    if m == "expand_first":
                        self.forced = outer | {self.macro[x] for x in args}
                    self.stmts(inner, lv)
                    self.forced = outer


def chain(err):
    out = []
    while err is not None and err not in out:
        out.append(err)
        err = err.__cause__ or err.__context__
    return out


def probe(exp, where):
    """The quote level is zero."""
    for src, good in ((f"{exp_name(exp, quotes.u)}[x]", False), (f"{exp_name(exp, quotes.q)}[{exp_name(exp, quotes.u)}[x]]", True)):
        try:
            exp.visit(ast.parse(src))
            error = None
        except Exception as e:
            error = e
        require((error is None) is good, lambda: f"{where}: {src} is {'rejected' if error else 'accepted'}")


def exp_name(exp, f):
    return next(k for k, v in exp.bindings.items() if v is f)


def check(case, ctx):
    bindings = {n: MACROS[m] for m, ns in case["names"].items() for n in ns}
    exp = expander.MacroExpander(dict(bindings), "<case>")
    rejected = 0
    try:
        del getattr(getattr(quotes, "_quotelevel", None), "stack", [])[1:]    # an earlier case may have failed
    except AttributeError:
        pass
    probe(exp, "at first")
    for i, mod in enumerate(case["mods"]):
        src = "\n".join(rstmts(mod))
        ref = Ref(case["names"])
        try:
            ref.stmts(mod, 0)
            why = None
        except Rejected as err:
            why = str(err)
            rejected += 1
            ctx.event("rejected: " + why)
        ctx.nontrivial_case(ref.uses >= 2 and (ref.nested >= 1 or i >= 1))
        if not case["share"]:
            exp = expander.MacroExpander(dict(bindings), "<case>")
        where = f"module {i} of the history, after {rejected - (why is not None)} rejected ones:\n{src}\n"
        out = error = None
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                out = mcore.global_postprocess(exp.visit(ast.parse(src)))
            except Exception as e:
                error = e
        if why is None:
            ctx.event("accepted")
            require(error is None, lambda: f"{where}rejected: {[repr(x)[:300] for x in chain(error)]}")
            compile(ast.fix_missing_locations(out), "<case>", "exec")
        else:
            require(error is not None, lambda: f"{where}accepted, though it has {why}; the expansion is\n{ast.unparse(ast.fix_missing_locations(out))[:2000]}")
            require(isinstance(error, mcore.MacroExpansionError) and any(isinstance(x, (SyntaxError, TypeError, ValueError, NotImplementedError)) for x in chain(error)), lambda: f"{where}{why}: unexpected error {chain(error)!r}")
            if not any(x in repr(mod) for x in ("'expands'", "'expand1s'", "'step_expansion'")):
                require(any(isinstance(x, SyntaxError) for x in chain(error)), lambda: f"{where}{why}: unexpected error {chain(error)!r}")
        probe(exp, f"{where}after it")


TESTS = [
    Test("uses", cases(), check, quick=5000, thorough=150000),
]