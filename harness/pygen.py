"""Structured generation of Python ASTs and source code.

`Src` turns a stream of bounded integers (drawn from Hypothesis) into choices, so that cases
shrink: every choice list is ordered from simplest to most complex, and 0 is the simplest.
"""

import ast

from hypothesis import strategies as st


class Src:
    def __init__(self, draw):
        self._draw = draw
        self._cache = {}

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        key = (lo, hi)
        s = self._cache.get(key)
        if s is None:
            s = self._cache[key] = st.integers(lo, hi)
        return self._draw(s)

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, num, den):
        """True with probability about num/den. Shrinks to False."""
        return self.int(0, den - 1) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value), ...], simplest first."""
        total = sum(w for w, _ in pairs)
        k = self.int(0, total - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def sublist(self, seq):
        return [x for x in seq if self.chance(1, 2)]


NAMES = ["a", "b", "c", "x", "y", "f", "g", "obj", "_", "__x", "é", "match", "type", "print", "len", "ValueError"]
ATTRS = ["a", "b", "real", "append", "_p", "café"]
STRINGS = ["", "a", "hello", "it's", 'say "hi"', "a\nb", "\t", "back\\slash", "{x}", "{{}}", "%s", "é", "日本",
           "\x00", "\ud800", "'''", '"""', "\\n", "\r", "a'b\"c", "😀", "[x", "N{DASH}", "\x1b[0m", "#no"]
BYTES = [b"", b"a", b"\x00\xff", b"it's", b"\\", b"\n"]
NUMBERS = [0, 1, 2, 42, 10 ** 20, 0.0, 1.5, 1e100, 1e-10, float("inf"), 1j, 2.5j, complex(0, float("inf"))]


class PyGen:
    """Generate AST nodes.

    `compilable`: stay within what `compile` accepts (not only `ast.parse`), at module level.
    `names`: identifiers to use for variables.
    """

    def __init__(self, src, *, budget=40, compilable=False, names=None, extra_expr=None, extra_stmt=None,
                 modern=True, fstrings=True, strings=None, simple_consts=False):
        self.s = src
        self.budget = budget
        self.compilable = compilable
        self.names = list(names) if names is not None else NAMES
        self.extra_expr = extra_expr or []
        self.extra_stmt = extra_stmt or []
        self.modern = modern
        self.fstrings = fstrings
        self.strings = strings if strings is not None else STRINGS
        self.simple_consts = simple_consts
        self.extra_rate = (1, 5)
        self.extra_stmt_rate = (1, 4)
        # lexical context
        self.infunc = 0
        self.inasync = False
        self.inloop = False
        self.inclass = False
        self.incomp = 0
        self.toplevel = True
        self.noyield = 0
        self.nowalrus = 0

    # ---- helpers
    def spend(self, n=1):
        self.budget -= n
        return self.budget > 0

    def many(self, f, lo=0, hi=3):
        n = self.s.int(lo, hi)
        out = []
        for _ in range(n):
            out.append(f())
            if self.budget <= 0 and len(out) >= lo:
                break
        return out

    def ident(self):
        return self.s.choice(self.names)

    def name(self, ctx=None):
        return ast.Name(id=self.ident(), ctx=ctx or ast.Load())

    # ---- expressions
    def const(self):
        s = self.s
        if self.simple_consts:
            k = s.int(0, 4)
        else:
            k = s.int(0, 6)
        if k == 0:
            return ast.Constant(value=s.int(0, 9))
        if k == 1:
            return ast.Constant(value=s.choice(self.strings))
        if k == 2:
            return ast.Constant(value=s.choice([None, True, False]))
        if k == 3:
            return ast.Constant(value=s.choice(NUMBERS if not self.simple_consts else [0, 1, 2, 3.5]))
        if k == 4:
            return ast.Constant(value=s.choice(BYTES))
        if k == 5:
            return ast.Constant(value=...)
        return ast.Constant(value=s.choice(self.strings), kind="u")

    def leaf(self):
        return self.name() if self.s.int(0, 2) < 2 else self.const()

    def expr(self, d=4):
        s = self.s
        if d <= 0 or not self.spend():
            return self.leaf()
        if self.extra_expr and s.chance(*self.extra_rate):
            return s.choice(self.extra_expr)(self, d)
        k = s.int(0, 27)
        e = lambda: self.expr(d - 1)
        if k <= 4:
            return self.leaf()
        if k == 5:
            return ast.BinOp(left=e(), op=s.choice([ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.Pow, ast.FloorDiv,
                                                    ast.MatMult, ast.LShift, ast.RShift, ast.BitOr, ast.BitXor, ast.BitAnd])(), right=e())
        if k == 6:
            return ast.UnaryOp(op=s.choice([ast.USub, ast.Not, ast.UAdd, ast.Invert])(), operand=e())
        if k == 7:
            return ast.BoolOp(op=s.choice([ast.And, ast.Or])(), values=self.many(e, 2, 3))
        if k == 8:
            n = s.int(1, 2)
            return ast.Compare(left=e(), ops=[s.choice([ast.Eq, ast.Lt, ast.GtE, ast.Gt, ast.LtE, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot])() for _ in range(n)],
                               comparators=[e() for _ in range(n)])
        if k in (9, 10):
            return self.call(d)
        if k == 11:
            return ast.Attribute(value=e(), attr=s.choice(ATTRS), ctx=ast.Load())
        if k in (12, 13):
            return ast.Subscript(value=e(), slice=self.slice(d - 1), ctx=ast.Load())
        if k == 14:
            return ast.List(elts=self.elts(d), ctx=ast.Load())
        if k == 15:
            return ast.Tuple(elts=self.elts(d), ctx=ast.Load())
        if k == 16:
            return ast.Set(elts=self.elts(d, lo=1))
        if k == 17:
            n = s.int(0, 3)
            keys, vals = [], []
            for _ in range(n):
                keys.append(None if s.chance(1, 5) else e())
                vals.append(e())
            return ast.Dict(keys=keys, values=vals)
        if k == 18:
            return ast.IfExp(test=e(), body=e(), orelse=e())
        if k == 19:
            return self.lambda_(d)
        if k in (20, 21):
            return self.comprehension_expr(d)
        if k == 22:
            if self.nowalrus:
                return self.leaf()
            return ast.NamedExpr(target=self.name(ast.Store()), value=e())
        if k == 23:
            if self.compilable and (not self.infunc or self.noyield or self.incomp):
                return self.leaf()
            if s.chance(1, 3) and not (self.compilable and self.inasync):
                return ast.YieldFrom(value=e())
            return ast.Yield(value=e() if s.chance(2, 3) else None)
        if k == 24:
            if self.compilable and (not self.inasync or self.noyield or self.incomp):
                return self.leaf()
            return ast.Await(value=e())
        if k in (25, 26):
            return self.fstring(d) if self.fstrings else self.leaf()
        return self.const()

    def elts(self, d, lo=0, hi=3):
        return self.many(lambda: self.maybe_starred(d), lo, hi)

    def maybe_starred(self, d):
        if self.s.chance(1, 7):
            return ast.Starred(value=self.expr(d - 1), ctx=ast.Load())
        return self.expr(d - 1)

    def slice(self, d):
        s = self.s
        def one():
            k = s.int(0, 5)
            if k <= 3:
                return self.expr(d)
            if k == 4:
                opt = lambda: self.expr(d) if s.chance(1, 2) else None
                return ast.Slice(lower=opt(), upper=opt(), step=opt())
            return ast.Starred(value=self.expr(d), ctx=ast.Load())
        k = s.int(0, 3)
        if k <= 2:
            x = one()
            if isinstance(x, ast.Starred):
                return ast.Tuple(elts=[x], ctx=ast.Load())
            return x
        return ast.Tuple(elts=self.many(one, 0, 3), ctx=ast.Load())

    def call(self, d):
        s = self.s
        args = self.many(lambda: self.maybe_starred(d), 0, 3)
        kws = []
        used = set()
        for _ in range(s.weighted([(4, 0), (2, 1), (1, 2)])):
            if s.chance(1, 4):
                kws.append(ast.keyword(arg=None, value=self.expr(d - 1)))
            else:
                nm = s.choice(["k", "key", "a", "x"])
                if nm in used:
                    continue
                used.add(nm)
                kws.append(ast.keyword(arg=nm, value=self.expr(d - 1)))
        return ast.Call(func=self.expr(d - 1), args=args, keywords=kws)

    def args_(self, d, annotations=True):
        s = self.s
        pool = ["a", "b", "c", "d", "e", "p", "q", "é"]
        used = []
        def arg(star=False):
            nm = pool[len(used)] if len(used) < len(pool) else f"z{len(used)}"
            used.append(nm)
            ann = None
            if annotations and s.chance(1, 4):
                ann = self.annotation(d - 1)
                if star and self.modern and s.chance(1, 4):
                    ann = ast.Starred(value=ann, ctx=ast.Load())
            return ast.arg(arg=nm, annotation=ann)
        posonly = [arg() for _ in range(s.weighted([(5, 0), (1, 1), (1, 2)]))]
        args = [arg() for _ in range(s.int(0, 2))]
        ndef = s.int(0, len(posonly) + len(args))
        defaults = [self.expr(d - 1) for _ in range(ndef)]
        vararg = arg(star=True) if s.chance(1, 4) else None
        kwonly = [arg() for _ in range(s.weighted([(4, 0), (1, 1), (1, 2)]))]
        kwd = [self.expr(d - 1) if s.chance(1, 2) else None for _ in kwonly]
        kwarg = arg() if s.chance(1, 4) else None
        return ast.arguments(posonlyargs=posonly, args=args, vararg=vararg, kwonlyargs=kwonly,
                             kw_defaults=kwd, kwarg=kwarg, defaults=defaults)

    def annotation(self, d):
        """Annotations may not contain yield/await/walrus."""
        self.noyield += 1
        self.nowalrus += 1
        try:
            return self.expr(d)
        finally:
            self.noyield -= 1
            self.nowalrus -= 1

    def lambda_(self, d):
        args = self.args_(d, annotations=False)
        saved = self.infunc, self.inasync, self.incomp
        self.infunc, self.inasync, self.incomp = 1, False, 0
        self.noyield += 1 if self.compilable and self.inclass else 0
        try:
            body = self.expr(d - 1)
        finally:
            self.noyield -= 1 if self.compilable and self.inclass else 0
            self.infunc, self.inasync, self.incomp = saved
        return ast.Lambda(args=args, body=body)

    def comprehension_expr(self, d):
        s = self.s
        if self.compilable:
            self.incomp += 1
            self.nowalrus += 1
        try:
            gens = []
            for _ in range(s.weighted([(4, 1), (1, 2)])):
                gens.append(ast.comprehension(target=self.target(d - 1, simple=s.chance(2, 3)),
                                              iter=self.expr(d - 1),
                                              ifs=self.many(lambda: self.expr(d - 1), 0, 1),
                                              is_async=int((not self.compilable) and s.chance(1, 8))))
            k = s.int(0, 3)
            if k == 3:
                return ast.DictComp(key=self.expr(d - 1), value=self.expr(d - 1), generators=gens)
            return [ast.ListComp, ast.GeneratorExp, ast.SetComp][k](elt=self.expr(d - 1), generators=gens)
        finally:
            if self.compilable:
                self.incomp -= 1
                self.nowalrus -= 1

    def fstring(self, d):
        s = self.s
        vals = []
        for _ in range(s.int(1, 3)):
            if s.chance(1, 2):
                vals.append(ast.Constant(value=s.choice([x for x in self.strings if x and "\ud800" not in x and "\x00" not in x] or ["a"])))
            else:
                spec = None
                if s.chance(1, 3):
                    parts = [ast.Constant(value=s.choice([">10", "<", ".2f", "", " "]))]
                    if s.chance(1, 3):
                        parts.append(ast.FormattedValue(value=self.leaf_for_f(), conversion=-1, format_spec=None))
                    spec = ast.JoinedStr(values=[p for p in parts if not (isinstance(p, ast.Constant) and p.value == "")])
                vals.append(ast.FormattedValue(value=self.fexpr(d - 1), conversion=s.choice([-1, 114, 115, 97]), format_spec=spec))
        return ast.JoinedStr(values=vals)

    def leaf_for_f(self):
        return self.name()

    def fexpr(self, d):
        # CPython's own unparser cannot always render nested quotes/backslashes: keep strings simple here
        saved = self.strings, self.fstrings, self.simple_consts
        self.strings, self.fstrings, self.simple_consts = ["", "a", "b c"], False, True
        try:
            return self.expr(d)
        finally:
            self.strings, self.fstrings, self.simple_consts = saved

    def target(self, d=2, simple=False, star=False):
        s = self.s
        if simple or d <= 0:
            return self.name(ast.Store())
        k = s.int(0, 7)
        if k <= 3:
            return self.name(ast.Store())
        if k == 4:
            return ast.Attribute(value=self.expr(d - 1), attr=s.choice(ATTRS), ctx=ast.Store())
        if k == 5:
            return ast.Subscript(value=self.expr(d - 1), slice=self.slice(d - 1), ctx=ast.Store())
        elts = self.many(lambda: self.target(d - 1), 1, 3)
        if s.chance(1, 4):
            i = s.int(0, len(elts) - 1)
            elts[i] = ast.Starred(value=self.target(0), ctx=ast.Store())
        return (ast.Tuple if k == 6 else ast.List)(elts=elts, ctx=ast.Store())

    # ---- patterns
    def pattern(self, d=3):
        s = self.s
        self._pn = 0
        self._canbind = True
        return self._pattern(d)

    def _fresh(self):
        self._pn += 1
        return f"p{self._pn}"

    def _pattern(self, d, irrefutable_ok=True):
        s = self.s
        self.spend()
        k = s.int(0, 9) if d > 0 else s.int(0, 3)
        if k == 0:
            return ast.MatchValue(value=self.pattern_literal())
        if k == 1:
            return ast.MatchSingleton(value=s.choice([None, True, False]))
        if k == 2:
            if not irrefutable_ok:
                return ast.MatchValue(value=ast.Constant(value=1))
            return ast.MatchAs(pattern=None, name=None)
        if k == 3:
            if not self._canbind or not irrefutable_ok:
                return ast.MatchValue(value=ast.Attribute(value=ast.Name(id="a", ctx=ast.Load()), attr="b", ctx=ast.Load()))
            return ast.MatchAs(pattern=None, name=self._fresh())
        if k in (4, 5):
            pats = [self._pattern(d - 1) for _ in range(s.int(0, 3))]
            if pats and s.chance(1, 4):
                pats[s.int(0, len(pats) - 1)] = ast.MatchStar(name=self._fresh() if self._canbind and s.chance(1, 2) else None)
            return ast.MatchSequence(patterns=pats)
        if k == 6:
            n = s.int(0, 2)
            keys = [ast.Constant(value=1), ast.Constant(value="k"), ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=3)),
                    ast.Attribute(value=ast.Name(id="a", ctx=ast.Load()), attr="b", ctx=ast.Load()), ast.Constant(value=None)]
            i = s.int(0, len(keys) - 1)
            ks = [keys[(i + j) % len(keys)] for j in range(n)]
            return ast.MatchMapping(keys=ks, patterns=[self._pattern(d - 1) for _ in ks],
                                    rest=self._fresh() if self._canbind and s.chance(1, 3) else None)
        if k == 7:
            np_, nk = s.int(0, 2), s.int(0, 2)
            return ast.MatchClass(cls=s.choice([ast.Name(id="C", ctx=ast.Load()),
                                                ast.Attribute(value=ast.Name(id="a", ctx=ast.Load()), attr="C", ctx=ast.Load())]),
                                  patterns=[self._pattern(d - 1) for _ in range(np_)],
                                  kwd_attrs=["u", "v"][:nk], kwd_patterns=[self._pattern(d - 1) for _ in range(nk)])
        if k == 8:
            if not self._canbind:
                return ast.MatchSingleton(value=None)
            return ast.MatchAs(pattern=self._pattern(d - 1, irrefutable_ok=False), name=self._fresh())
        saved = self._canbind
        self._canbind = False
        try:
            return ast.MatchOr(patterns=[self._pattern(d - 1, irrefutable_ok=False) for _ in range(s.int(2, 3))])
        finally:
            self._canbind = saved

    def pattern_literal(self):
        s = self.s
        k = s.int(0, 5)
        if k == 0:
            return ast.Constant(value=s.int(0, 9))
        if k == 1:
            return ast.Constant(value=s.choice(self.strings))
        if k == 2:
            return ast.Constant(value=s.choice(BYTES))
        if k == 3:
            return ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=s.choice([1, 2.5, 1j])))
        if k == 4:
            left = ast.Constant(value=s.int(0, 3))
            if s.chance(1, 2):
                left = ast.UnaryOp(op=ast.USub(), operand=left)
            return ast.BinOp(left=left, op=s.choice([ast.Add, ast.Sub])(), right=ast.Constant(value=2j))
        return ast.Attribute(value=ast.Attribute(value=ast.Name(id="a", ctx=ast.Load()), attr="b", ctx=ast.Load()), attr="c", ctx=ast.Load())

    # ---- statements
    def body(self, d, lo=1, hi=3):
        saved = self.toplevel
        self.toplevel = False
        try:
            return self.many(lambda: self.stmt(d), lo, hi)
        finally:
            self.toplevel = saved

    def stmt(self, d=3):
        s = self.s
        if self.extra_stmt and s.chance(*self.extra_stmt_rate):
            return s.choice(self.extra_stmt)(self, d)
        if d <= 0 or not self.spend():
            k = s.int(0, 1)
            if k == 0:
                return ast.Pass()
            return ast.Expr(value=self.leaf())
        k = s.int(0, 30)
        if k <= 2:
            return ast.Expr(value=self.expr(3))
        if k <= 5:
            return ast.Assign(targets=self.many(lambda: self.target(2), 1, 2), value=self.expr(3))
        if k == 6:
            t = s.int(0, 2)
            if t == 0:
                target, simple = self.name(ast.Store()), 1
            elif t == 1:
                target, simple = self.name(ast.Store()), 0
            else:
                target, simple = ast.Attribute(value=self.expr(1), attr="a", ctx=ast.Store()), 0
            return ast.AnnAssign(target=target, annotation=self.annotation(2), value=self.expr(2) if s.chance(1, 2) else None, simple=simple)
        if k == 7:
            t = s.int(0, 2)
            target = [lambda: self.name(ast.Store()),
                      lambda: ast.Attribute(value=self.expr(1), attr="a", ctx=ast.Store()),
                      lambda: ast.Subscript(value=self.expr(1), slice=self.slice(1), ctx=ast.Store())][t]()
            return ast.AugAssign(target=target, op=s.choice([ast.Add, ast.Sub, ast.MatMult, ast.FloorDiv, ast.Pow, ast.RShift])(), value=self.expr(2))
        if k in (8, 9):
            return ast.If(test=self.expr(2), body=self.body(d - 1), orelse=self.body(d - 1, 0, 2))
        if k == 10:
            return self.loop(lambda b, o: ast.While(test=self.expr(2), body=b, orelse=o), d)
        if k == 11:
            cls = ast.For
            if (not self.compilable or self.inasync) and s.chance(1, 4):
                cls = ast.AsyncFor
            return self.loop(lambda b, o: cls(target=self.target(2), iter=self.expr(2), body=b, orelse=o), d)
        if k in (12, 13, 14):
            return self.funcdef(d)
        if k == 15:
            return self.classdef(d)
        if k in (16, 17):
            cls = ast.With
            if (not self.compilable or self.inasync) and s.chance(1, 4):
                cls = ast.AsyncWith
            items = self.many(lambda: ast.withitem(context_expr=self.expr(2), optional_vars=self.target(1) if s.chance(1, 2) else None), 1, 2)
            return cls(items=items, body=self.body(d - 1))
        if k in (18, 19):
            return self.try_(d)
        if k == 20:
            return ast.Raise(exc=self.expr(1), cause=self.expr(1) if s.chance(1, 3) else None) if s.chance(2, 3) else ast.Raise(exc=None, cause=None)
        if k == 21:
            return ast.Assert(test=self.expr(2), msg=self.expr(1) if s.chance(1, 2) else None)
        if k == 22:
            def dt(n=1):
                j = s.int(0, 3 if n else 2)
                if j == 0:
                    return ast.Name(id=self.ident(), ctx=ast.Del())
                if j == 1:
                    return ast.Attribute(value=self.expr(1), attr="a", ctx=ast.Del())
                if j == 2:
                    return ast.Subscript(value=self.expr(1), slice=self.slice(1), ctx=ast.Del())
                return s.choice([ast.Tuple, ast.List])(elts=self.many(lambda: dt(n - 1), 1, 2), ctx=ast.Del())
            return ast.Delete(targets=self.many(dt, 1, 2))
        if k == 23:
            names = [ast.alias(name=s.choice(["os", "os.path", "a.b.c"]), asname=s.choice([None, "z"])) for _ in range(s.int(1, 2))]
            return ast.Import(names=names)
        if k == 24:
            lvl = s.weighted([(4, 0), (1, 1), (1, 2)])
            mod = s.choice(["os", "a.b"]) if lvl == 0 or s.chance(1, 2) else None
            if s.chance(1, 6) and (self.toplevel or not self.compilable):
                names = [ast.alias(name="*", asname=None)]
            else:
                names = [ast.alias(name=s.choice(["path", "sep"]), asname=s.choice([None, "z"])) for _ in range(s.int(1, 2))]
            return ast.ImportFrom(module=mod, names=names, level=lvl)
        if k == 25:
            if self.compilable:
                return ast.Pass()
            return s.choice([ast.Global, ast.Nonlocal])(names=[self.ident() for _ in range(s.int(1, 2))])
        if k == 26:
            return self.match_(d)
        if k == 27:
            if self.modern:
                return ast.TypeAlias(name=ast.Name(id=s.choice(["T1", "T2"]), ctx=ast.Store()), type_params=self.type_params(), value=self.annotation(1))
            return ast.Pass()
        if k == 28:
            if self.compilable and not self.infunc:
                return ast.Pass()
            v = self.expr(2) if s.chance(2, 3) else None
            if self.compilable and self.inasync:
                v = None
            return ast.Return(value=v)
        if k == 29:
            if self.compilable and not self.inloop:
                return ast.Pass()
            return s.choice([ast.Break, ast.Continue])()
        return ast.Expr(value=ast.Constant(value=s.choice(self.strings)))

    def loop(self, make, d):
        saved = self.inloop
        self.inloop = True
        try:
            b = self.body(d - 1)
        finally:
            self.inloop = saved
        o = self.body(d - 1, 0, 1)
        return make(b, o)

    def try_(self, d):
        s = self.s
        star = self.modern and s.chance(1, 4)
        saved = self.inloop
        if star and self.compilable:
            savedf = self.infunc
        body = self.body(d - 1)
        nh = s.int(0, 2)
        handlers = []
        for i in range(nh):
            bare = (not star) and i == nh - 1 and s.chance(1, 3)
            if star and self.compilable:
                self.inloop, savedf, self.infunc_ret = False, self.infunc, None
                hb = [ast.Pass()]
            else:
                hb = self.body(d - 1, 1, 2)
            handlers.append(ast.ExceptHandler(type=None if bare else self.expr(2), name=None if bare else s.choice([None, "err"]), body=hb))
        self.inloop = saved
        final = self.body(d - 1, 0, 1) if nh else self.body(d - 1, 1, 1)
        orelse = self.body(d - 1, 0, 1) if nh else []
        cls = ast.TryStar if star and handlers else ast.Try
        return cls(body=body, handlers=handlers, orelse=orelse, finalbody=final)

    def match_(self, d):
        s = self.s
        cases = []
        n = s.int(1, 3)
        for i in range(n):
            pat = self.pattern(3)
            guard = self.expr(1) if s.chance(1, 3) else None
            if self.compilable and i < n - 1 and guard is None and isinstance(pat, ast.MatchAs) and pat.pattern is None:
                pat = ast.MatchValue(value=ast.Constant(value=i))
            cases.append(ast.match_case(pattern=pat, guard=guard, body=self.body(d - 1, 1, 2)))
        return ast.Match(subject=self.expr(2), cases=cases)

    def type_params(self):
        s = self.s
        if not self.modern or not s.chance(1, 4):
            return []
        out = []
        for i in range(s.int(1, 2)):
            k = s.int(0, 3)
            if k == 0:
                out.append(ast.TypeVar(name=f"T{i}x", bound=None))
            elif k == 1:
                out.append(ast.TypeVar(name=f"T{i}x", bound=self.annotation(1)))
            elif k == 2:
                out.append(ast.ParamSpec(name=f"P{i}x"))
            else:
                out.append(ast.TypeVarTuple(name=f"Ts{i}x"))
        return out

    def funcdef(self, d):
        s = self.s
        isasync = s.chance(1, 4)
        decos = self.many(lambda: self.expr(2), 0, 2) if s.chance(1, 3) else []
        args = self.args_(2)
        returns = self.annotation(1) if s.chance(1, 4) else None
        tp = self.type_params()
        saved = (self.infunc, self.inasync, self.inloop, self.inclass, self.incomp, self.noyield, self.nowalrus)
        self.infunc, self.inasync, self.inloop, self.inclass, self.incomp, self.noyield, self.nowalrus = 1, isasync, False, False, 0, 0, 0
        try:
            b = self.body(d - 1)
        finally:
            (self.infunc, self.inasync, self.inloop, self.inclass, self.incomp, self.noyield, self.nowalrus) = saved
        cls = ast.AsyncFunctionDef if isasync else ast.FunctionDef
        return cls(name=s.choice(["f", "g", "méth"]), args=args, body=b, decorator_list=decos, returns=returns, type_params=tp)

    def classdef(self, d):
        s = self.s
        decos = self.many(lambda: self.expr(2), 0, 2) if s.chance(1, 3) else []
        bases = self.many(lambda: self.maybe_starred(2), 0, 2)
        kws = [ast.keyword(arg=s.choice(["metaclass", None]), value=self.expr(1))] if s.chance(1, 3) else []
        tp = self.type_params()
        saved = (self.infunc, self.inasync, self.inloop, self.inclass, self.incomp)
        self.infunc, self.inasync, self.inloop, self.inclass, self.incomp = 0, False, False, True, 0
        try:
            b = self.body(d - 1)
        finally:
            (self.infunc, self.inasync, self.inloop, self.inclass, self.incomp) = saved
        return ast.ClassDef(name=s.choice(["C", "D"]), bases=bases, keywords=kws, body=b, decorator_list=decos, type_params=tp)

    def module(self, lo=1, hi=4, d=3):
        body = self.many(lambda: self.stmt(d), lo, hi)
        return ast.Module(body=body, type_ignores=[])


def render(tree):
    """Source text for a generated tree, by CPython's own unparser, or None if it can't."""
    try:
        src = ast.unparse(ast.fix_missing_locations(tree))
    except Exception:
        return None
    try:
        ast.parse(src)
    except (SyntaxError, ValueError):
        return None
    return src


@st.composite
def module_source(draw, **kw):
    lo, hi, d = kw.pop("lo", 1), kw.pop("hi", 4), kw.pop("d", 3)
    g = PyGen(Src(draw), **kw)
    src = render(g.module(lo, hi, d))
    return src if src is not None else "pass"


@st.composite
def expr_source(draw, **kw):
    d = kw.pop("d", 4)
    g = PyGen(Src(draw), **kw)
    src = render(ast.Expression(body=g.expr(d)))
    return src if src is not None else "None"


def _compiles(src):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            compile(src, "x", "exec", dont_inherit=True)
            return True
        except (SyntaxError, ValueError):
            return False


@st.composite
def compilable_source(draw, **kw):
    """Like `module_source`; what is only valid in an async function, a loop, or the like, is put into one, if that helps."""
    src = draw(module_source(**kw))
    if _compiles(src):
        return src
    for head in ("def _w():\n  while 1:\n", "async def _w():\n  while 1:\n", "def _w(self, a, b, c, x, y, z):\n  def _v():\n   while 1:\n"):
        pad = " " * (len(head.split("\n")[-2]) - len(head.split("\n")[-2].lstrip()) + 1)
        new = head + "".join(pad + x + "\n" for x in src.split("\n"))
        if _compiles(new):
            return new
    return src
