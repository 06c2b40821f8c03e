"""A hygienically captured macro stays bound to the same macro function."""

import ast
import marshal
import pickle
import sys
import types

from hypothesis import strategies as st

from harness import leaflib, mac, pygen
from harness.core import Test, isolated, require
from harness.sut import astfixers, core as mcore, expander, quotes

PROPERTY = "Q04"
RULE = ("Cases: three libraries with the same macro names, 1-3 macro definition sites whose macros capture those (and each other's macros) under aliases with q[h[m]...] in expression, "
        "parametric, block, decorator and identifier-macro position, and a use site that binds the same names to other macros or has run-time values by those names; with "
        "definition sites expanded in the same process, or loaded from bytecode compiled in another one. Every use must evaluate to the tags of the macros that the binding model says. "
        "Non-trivial: a captured macro is used where its name is bound to something else.")
ASSUMPTIONS = ["macro functions are importable by name (they are captured by pickling a reference)"]

LIBS = ["L1", "L2", "L3"]
NAMES = ["m", "k", "z", "w"]      # aliases; the same pool everywhere, so names clash

# template -> (outer macro kind, kinds of the captured names, source)
TEMPLATES = {
    "one": ("expr", "e", "return q[h[{0}][a[tree]]]"),
    "pair": ("expr", "ee", "return q[(h[{0}][a[tree]], h[{1}][1])]"),
    "nest": ("expr", "ee", "return q[h[{0}][h[{1}][a[tree]]]]"),
    "twice": ("expr", "e", "return q[(h[{0}][a[tree]], h[{0}][2])]"),
    "mixed": ("expr", "e*", "return q[(h[{0}][a[tree]], {1}[3])]"),
    "plain": ("expr", "*", "return q[{0}[a[tree]]]"),
    "param": ("expr", "p", "return q[h[{0}](1, 'x')[a[tree]]]"),
    "param2": ("expr", "p", "return q[h[{0}][1, 2][a[tree]]]"),
    "name": ("expr", "n", "return q[(h[{0}], a[tree])]"),
    "paramname": ("expr", "pn", "return q[h[{0}](h[{1}])[a[tree]]]"),
    "manual": ("expr", "e", "return q[a[capture_as_macro(macros_by_alias['{0}'])][a[tree]]]"),
    "block": ("block", "b", "with q as t:\n        with h[{0}]:\n            with a:\n                tree\n    return t"),
    "blocks": ("block", "bb", "with q as t:\n        with h[{0}], h[{1}]:\n            with a:\n                tree\n    return t"),
    "inblock": ("block", "be", "with q as t:\n        with h[{0}]:\n            log.append(h[{1}][4])\n            with a:\n                tree\n    return t"),
    "deco": ("block", "d", "with q as t:\n        @h[{0}]\n        def g():\n            return []\n        log.append(g())\n        with a:\n            tree\n    return t"),
    "decos": ("block", "dd", "with q as t:\n        @h[{0}]\n        @h[{1}]\n        def g():\n            return []\n        log.append(g())\n        with a:\n            tree\n    return t"),
}
EXPR_T = [k for k, v in TEMPLATES.items() if v[0] == "expr"]
BLOCK_T = [k for k, v in TEMPLATES.items() if v[0] == "block"]
LEAF = {"e": ["m", "k"], "p": ["p"], "b": ["b"], "d": ["d"], "n": ["n"]}


@st.composite
def cases(draw):
    s = pygen.Src(draw)
    sites = []
    for i in range(s.int(1, 3)):
        site = {"bind": {}, "macros": [], "shadow": s.chance(1, 3)}
        for j in range(s.int(1, 3)):
            t = s.choice(EXPR_T) if s.chance(3, 4) else s.choice(BLOCK_T)
            aliases = []
            taken = []
            for kind in TEMPLATES[t][1]:
                if kind == "*":
                    aliases.append(s.choice(NAMES))
                    continue
                earlier = [["D%d" % a, "o%d" % b] for a in range(i) for b in range(len(sites[a]["macros"]))
                           if TEMPLATES[sites[a]["macros"][b][0]][0] == {"e": "expr", "b": "block"}.get(kind)]
                target = s.choice(earlier) if earlier and s.chance(1, 3) else [s.choice(LIBS), s.choice(LEAF[kind])]
                alias = s.choice(NAMES)
                # an alias can be bound only once per site
                k = 0
                while site["bind"].get(alias, target) != target:
                    alias = NAMES[(NAMES.index(alias) + 1) % len(NAMES)] if k < len(NAMES) else f"v{k}"
                    k += 1
                site["bind"][alias] = target
                aliases.append(alias)
            site["macros"].append([t, aliases])
        sites.append(site)
    # the use site
    bind = {}
    free = {x for site in sites for t, al in site["macros"] for x, k in zip(al, TEMPLATES[t][1]) if k == "*"}
    outers = [["D%d" % i, "o%d" % j] for i in range(len(sites)) for j in range(len(sites[i]["macros"]))]
    for a in s.sublist(NAMES):
        bind[a] = [s.choice(LIBS), s.choice(["m", "k"])]
    for k, (d, o) in enumerate(outers):
        t = sites[int(d[1:])]["macros"][int(o[1:])][0]
        name = f"use{k}"
        if s.chance(1, 3) and TEMPLATES[t][0] == "expr":
            name = s.choice(NAMES)
            if name in free:  # it would be unhygienic recursion, maybe without end
                name = f"use{k}"
        bind[name] = [d, o]
    uses = []
    exprs = [n for n, t in bind.items() if kind_of(t, sites) == "expr"]
    blocks = [n for n, t in bind.items() if kind_of(t, sites) == "block"]
    for _ in range(s.int(1, 4)):
        if blocks and s.chance(1, 3):
            uses.append([s.choice(blocks), [s.choice(exprs) for _ in range(s.int(0, 2)) if exprs]])
        elif exprs:
            uses.append([None, [s.choice(exprs) for _ in range(s.int(1, 3))]])
    return {"sites": sites, "bind": bind, "uses": uses, "cached": s.chance(1, 3)}


def kind_of(target, sites):
    if target[0].startswith("D"):
        return TEMPLATES[sites[int(target[0][1:])]["macros"][int(target[1][1:])][0]][0]
    return "expr"


# ---- model: what does each use evaluate to

class Model:
    def __init__(self, case):
        self.case = case

    def target(self, t, use):
        """-> function value -> value (expr macros), or None"""
        lib, name = t
        if lib.startswith("L"):
            return lambda v: (f"{lib}.{name}", v)
        i, j = int(lib[1:]), int(name[1:])
        return lambda v: self.outer(i, j, v)

    def free(self, alias, v):
        """An unhygienic reference: whatever the name means at the use site"""
        if alias in self.case["bind"]:
            return self.target(self.case["bind"][alias], None)(v)
        return ("runtime " + alias, v)

    def outer(self, i, j, v):
        t, aliases = self.case["sites"][i]["macros"][j]
        b = self.case["sites"][i]["bind"]
        A = [self.target(b[x], None) if k != "*" else (lambda v, x=x: self.free(x, v)) for x, k in zip(aliases, TEMPLATES[t][1])]
        L = [b[x][0] if k != "*" else None for x, k in zip(aliases, TEMPLATES[t][1])]
        if t in ("one", "plain", "manual"):
            return A[0](v)
        if t == "pair":
            return (A[0](v), A[1](1))
        if t == "nest":
            return A[0](A[1](v))
        if t == "twice":
            return (A[0](v), A[0](2))
        if t == "mixed":
            return (A[0](v), A[1](3))
        if t == "param":
            return (L[0] + ".p", 1, "x", v)
        if t == "param2":
            return (L[0] + ".p", 1, 2, v)
        if t == "name":
            return ((L[0] + ".n",), v)
        if t == "paramname":
            return (L[0] + ".p", (L[1] + ".n",), v)
        raise AssertionError(t)

    def block(self, target, log, body):
        lib, name = target
        if lib.startswith("L"):
            log.append(f"{lib}.{name}")
            body()
            return
        i, j = int(lib[1:]), int(name[1:])
        t, aliases = self.case["sites"][i]["macros"][j]
        b = self.case["sites"][i]["bind"]
        T = [b[x] for x in aliases]
        if t == "block":
            self.block(T[0], log, body)
        elif t == "blocks":
            self.block(T[0], log, lambda: self.block(T[1], log, body))
        elif t == "inblock":
            def inner():
                log.append(self.target(T[1], None)(4))
                body()
            self.block(T[0], log, inner)
        elif t in ("deco", "decos"):
            # innermost decorator macro first, each inserts its tag outermost
            log.append([x[0] + ".d" for x in T])
            body()

    def log(self):
        log = []
        for blk, chain in self.case["uses"]:
            def body(chain=chain):
                v = 7
                for name in reversed(chain):
                    v = self.target(self.case["bind"][name], None)(v)
                log.append(v)
            if blk is None:
                body()
            else:
                self.block(self.case["bind"][blk], log, body)
        return log


# ---- the real thing

def site_source(site):
    lines = ["from mcpyrate.quotes import capture_as_macro"]
    if site["shadow"]:
        lines += [f"{a} = 'run-time value'" for a, t in site["bind"].items() if t[1] != "n"]
    for j, (t, aliases) in enumerate(site["macros"]):
        lines.append(f"def o{j}(tree, *, expander, **kw):\n    " + TEMPLATES[t][2].format(*aliases))
    return "\n".join(lines) + "\n"


def resolve(libs, target):
    return getattr(libs[target[0]], target[1])


def load_sites(case, codes=None):
    """Define the macros. If `codes`, from those, otherwise by expanding. Return (libs, codes)."""
    libs = leaflib.make_libs()
    out = []
    for i, site in enumerate(case["sites"]):
        mod = types.ModuleType(f"defsite_{i}")
        sys.modules[mod.__name__] = mod
        bindings = {a: resolve(libs, t) for a, t in site["bind"].items()}
        if codes is None:
            qb = mac.qbindings()
            qb.update(bindings)
            before = dict(qb)
            tree = expander.expand_macros(ast.parse(site_source(site)), qb, filename=f"<site {i}>")
            require(qb == before, f"expanding definition site {i} changed its macro bindings")
            code = compile(tree, f"<site {i}>", "exec")
            out.append(marshal.dumps(code))
        else:
            code = marshal.loads(codes[i])
        import mcpyrate
        mod.__dict__.update(mcpyrate=mcpyrate, macros_by_alias=bindings)
        exec(code, mod.__dict__)
        libs[f"D{i}"] = mod
    return libs, out


def use_source(case):
    lines = []
    for blk, chain in case["uses"]:
        e = "7"
        for name in reversed(chain):
            e = f"{name}[{e}]"
        if blk is None:
            lines.append(f"log.append({e})")
        else:
            lines.append(f"with {blk}:\n    log.append({e})")
    return "\n".join(lines) + "\n"


def run_use(case, codes):
    libs, _ = load_sites(case, codes)
    bindings = {a: resolve(libs, t) for a, t in case["bind"].items()}
    before = dict(bindings)
    tree = expander.expand_macros(ast.parse(use_source(case)), bindings, filename="<use>")
    require(bindings == before and all(bindings[k] is before[k] for k in before), lambda: f"the use site's macro bindings changed: {set(bindings) ^ set(before)}")
    log = []

    def tag(name):
        def deco(f):
            return lambda: [name] + f()
        return deco
    import mcpyrate
    ns = {"log": log, "tag": tag, "mcpyrate": mcpyrate}
    for n in NAMES:
        ns[n] = leaflib.Clash(n)
    exec(compile(tree, "<use>", "exec"), ns)
    return log


def compile_only(case):
    return load_sites(case)[1]


def check(case, ctx):
    codes = isolated(compile_only, case) if case["cached"] else None
    log = isolated(run_use, case, codes)
    want = Model(case).log()
    clash = any(k != "*" and case["bind"].get(x, None) != site["bind"][x]
                for site in case["sites"] for t, al in site["macros"] for x, k in zip(al, TEMPLATES[t][1]) if k != "*")
    ctx.nontrivial_case(clash and bool(case["uses"]))
    for site in case["sites"]:
        for t, _ in site["macros"]:
            ctx.event("template " + t)
    ctx.event("cached" if case["cached"] else "same process")
    require(log == want, lambda: f"use site evaluates to\n  {log}\nexpected\n  {want}")


TESTS = [Test("bindings", cases(), check, quick=4000, thorough=60000)]
