"""Source of properties.jsonl and MANIFEST.json: python3 tools/properties.py"""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=state or []))


# ---------------------------------------------------------------- unparser, dumper
prop("U01", "Unparsed source text means the same as the AST",
     "For every AST that the Python parser can produce (a whole module, interactive or expression tree, a statement list, or a single statement or expression, in any syntax of the running Python), `unparse` returns source text that parses back to a structurally equal AST, and leaves the AST it was given unchanged.",
     ["programs"], "every AST obtainable by parsing Python 3.12 source code, within the parser's own nesting limit",
     "The repository has no unparser test; demos print a few macro expansions. The claim is over the whole Python grammar, where each node type can appear in each context.",
     ["mcpyrate/unparser.py"],
     [{"name": "Unparser: one method per AST node type, parenthesizing every operation", "where": "mcpyrate/unparser.py"}],
     ["mcpyrate.unparse"],
     "property-based round trip over grammar-generated ASTs and a source corpus, oracle ast.parse",
     "Searches generated programs over all node types, generated source text for f-strings and patterns, and statements of the standard library; trusts CPython's ast.parse as the reference for what text means.")

prop("U02", "Colored, debug and dump renderings are faithful to the AST",
     "For every AST, `unparse` with `color=True` gives exactly its uncolored text once the terminal escape sequences are removed, in both plain and debug mode; in debug mode every statement line is labelled with its line number, and nodes that have no notation (modules, expression statements, AST markers, hygienic captures) are rendered by name together with everything inside them. `dump` gives text that, evaluated with the node classes of `ast`, rebuilds an equal AST, for every combination of its options, and `unparse_with_fallbacks` returns text and does not raise for any object.",
     ["programs", "configurations"], "every parseable AST, every AST with nested AST markers or hygienic captures, every combination of rendering options, and arbitrary non-AST objects",
     "No test looks at the rendered text, and the options multiply with every node type.",
     ["mcpyrate/unparser.py", "mcpyrate/astdumper.py", "mcpyrate/colorizer.py", "mcpyrate/ansi.py"],
     [{"name": "maybe_colorize around each token; fill() prints line numbers; astmarker(), captured_value(), captured_macro()", "where": "mcpyrate/unparser.py"},
      {"name": "dump", "where": "mcpyrate/astdumper.py"}],
     ["mcpyrate.unparse", "mcpyrate.dump", "mcpyrate.unparser.unparse_with_fallbacks"],
     "property-based metamorphic and round-trip relations over generated ASTs and rendering options",
     "Metamorphic relations (colored vs. plain), eval round trip of dump output, and per-statement line labels on generated ASTs.")

# ---------------------------------------------------------------- quasiquotes
prop("Q01", "Quasiquoting and unastifying reproduce the quoted code",
     "Evaluating the expansion of `q[expr]` or `with q as name` gives an AST structurally equal to the quoted expression or statement suite, for any code without unquotes, and a fresh copy at each evaluation. Nested quotes of any depth evaluate one level at a time: running the quoted quote gives the inner quoted code. `unastify` of the expanded quote is structurally equal to the quoted code too.",
     ["programs"], "every expression and statement suite, at every quote nesting depth",
     "The quote tests quote about a dozen small snippets; the claim is for every AST node type, field value (None, lists, constants, contexts) and nesting.",
     ["mcpyrate/quotes.py", "mcpyrate/core.py"],
     [{"name": "astify / unastify; QuasiquoteMarker nesting levels", "where": "mcpyrate/quotes.py"}],
     ["mcpyrate.quotes.q", "mcpyrate.quotes.unastify", "mcpyrate.quotes.astify"],
     "property-based round trip over generated code through the real expander and compiler, oracle ast.parse",
     "Generated expressions and suites are put through q in real macro-enabled code, run, and compared structurally with the parse of the source.")

prop("Q02", "Unquotes put exactly the right thing in exactly the right place",
     "In quasiquoted code, `u[x]` stands for the value of `x` as an AST literal, `n[s]` for the identifier or expression in source-code string `s` in every position that takes one, `a[t]` for the AST `t` (in statement position, for an AST or a list of them, spliced), `s[lst]` for a list node and `t[lst]` for a tuple node of the ASTs in `lst`; everything around is as quoted. Each operand is evaluated exactly once per evaluation of the quote, in the scope of the quoting code, at the innermost quote level at which the unquote is written, and correct expression contexts result. Operands of the wrong type are rejected with an error.",
     ["programs", "inputs"], "every quoted template with any number of unquotes at any position and quote level, and any operand values",
     "Tests use a handful of templates; correctness is over all positions, nestings, levels and operand values.",
     ["mcpyrate/quotes.py", "mcpyrate/splicing.py", "mcpyrate/astfixers.py"],
     [{"name": "unquote operator macros, ast_literal, splice_ast_literals, lift_identifier, ast_list, ast_tuple", "where": "mcpyrate/quotes.py"}],
     ["mcpyrate.quotes.q, u, n, a, s, t"],
     "property-based differential test against reference substitution on generated templates",
     "Templates with typed holes are generated with random operands; the result must equal hole-by-hole substitution on the parsed template.")

prop("Q03", "A hygienically captured value stays what it was when captured",
     "The AST that `q[h[expr]]` produces evaluates, in any module and under any local or global bindings there, to a snapshot of the value that `expr` had at that evaluation of the quote: equal to it, of the same type, and unaffected by later rebinding, mutation or garbage collection at the quoting site, however many captures are made, in whatever order, even of the same expression or name. Repeated evaluation of one captured AST gives the same object, different captures never share one, and the same holds when the AST is compiled to bytecode and run in another process. A value that does not support pickling is rejected with an error when it is captured.",
     ["histories", "inputs"], "every sequence of captures, uses, rebindings and garbage collections, for values of any type",
     "Tests make single captures and use them at once; histories where captures interleave with rebinding, id reuse or process boundaries are unbounded.",
     ["mcpyrate/quotes.py", "mcpyrate/core.py"],
     [{"name": "capture_value, lookup_value, per-process registry plus pickled payload", "where": "mcpyrate/quotes.py"}],
     ["mcpyrate.quotes.h"],
     "stateful property-based histories of captures and look-ups against a reference store, plus a cross-process differential",
     "Random histories of capture / rebind / collect / evaluate; every captured AST is re-evaluated in hostile scopes and compared by identity; a subset is re-evaluated from marshalled bytecode in a child process.")

prop("Q04", "A hygienically captured macro stays bound to the same macro function",
     "When a macro's output hygienically captures a macro with `q[h[m]...]`, its use in the output expands with the macro function that `m` named at the macro definition site, whatever macros or run-time names the use site binds, under whatever aliases on both sides, and it does not disturb any macro binding the use site has. Captures of several different macros with the same name coexist.",
     ["programs", "configurations"], "every combination of definition-site and use-site macro bindings and aliases, invocation types and nestings",
     "Tests capture one macro in one configuration.",
     ["mcpyrate/quotes.py", "mcpyrate/core.py", "mcpyrate/expander.py"],
     [{"name": "capture_macro, capture_as_macro, uniqified global bindings", "where": "mcpyrate/quotes.py"},
      {"name": "global_bindings, add_postprocessor, isbound", "where": "mcpyrate/core.py"}],
     ["mcpyrate.quotes.h"],
     "property-based generation of macro libraries and use sites with clashing names, against the generated binding model",
     "Generated macro modules and use sites with clashing and aliased names are expanded and run; each use must show the tag of the macro function that the model says was captured.")

# ---------------------------------------------------------------- expander
prop("E01", "Macro expansion order and result follow the documented semantics",
     "For any mix of nested expression (`m[...]`), block (`with m:`), decorator (`@m`) and identifier macro uses, macros are invoked in the documented order (the outermost use first; in a `with`, the leftmost item first; among decorators, the innermost first, and all the decorators before what is inside the definition; expansion recurses into the output of each macro until no macro uses remain, or, in a macro that expands its input explicitly, inside out), each use is invoked exactly once per time it is reached, and its output replaces exactly that use. Names that are not bound as macros, and uses in syntax positions that are not macro invocations, are left alone.",
     ["programs"], "every program over the four invocation types with arbitrary nesting, mixtures, macro arguments and macro return values",
     "Tests expand a few fixed programs; the order and result must be right for all combinations and nestings.",
     ["mcpyrate/expander.py", "mcpyrate/core.py"],
     [{"name": "MacroExpander visitors, expand, BaseMacroExpander.visit / visit_once / visit_recursively", "where": "mcpyrate/expander.py, mcpyrate/core.py"}],
     ["MacroExpander.visit and macro functions' side effects"],
     "property-based differential test against a small reference expander on generated programs",
     "A reference model written from the documentation predicts the sequence of invocations and the resulting code; real expansion must agree.")

prop("E02", "Code without macros is untouched by macro expansion",
     "Expanding code in which no bound macro is used gives back the same AST, including every source location, in every mode of expansion and whatever macros are bound; and a macro use changes only its own subtree, so code before, after and around it keeps its structure and locations.",
     ["programs"], "every program, with any macro bindings that it does not use",
     "Tests check small programs; the claim is over all syntax, including uses that resemble macro invocations.",
     ["mcpyrate/expander.py", "mcpyrate/core.py", "mcpyrate/walkers.py"],
     [{"name": "MacroExpander visitors recognize invocations only by bound names; generic_visit elsewhere", "where": "mcpyrate/expander.py"}],
     ["mcpyrate.expander.expand_macros"],
     "property-based metamorphic test over generated programs",
     "Generated programs are expanded with bound but unused macros, compared by full dump with locations.")

prop("E03", "Macro functions receive the documented invocation arguments",
     "Every macro function is called with the documented input AST for its invocation type as positional argument and exactly the documented named arguments: `syntax` tells the invocation type, `args` has the macro argument ASTs only if the macro is declared parametric (otherwise, in an expression, the argument brackets apply to the result, and in a `with` or decorator it is no macro use, and a SyntaxWarning is given), `expander` is the expander, `invocation` is the whole original invocation, and `optional_vars` (block) is the as-part. Identifier-macro use requires a macro declared with `namemacro`, and the bare name alone is not an invocation otherwise.",
     ["programs", "configurations"], "every invocation syntax, number and form of macro arguments, as-part, decorator position, and parametric / name macro declaration",
     "Tests use a fixed set of macros; the protocol is the product of syntaxes, argument notations, declarations and contexts.",
     ["mcpyrate/expander.py"],
     [{"name": "destructure_candidate, ismacrocall, MacroExpander.visit_*, parametricmacro, namemacro", "where": "mcpyrate/expander.py"}],
     ["the keyword arguments of macro functions"],
     "property-based generation of invocations with recording macros, oracle built from the generated parts",
     "Each generated invocation knows its parts; a recording macro must receive exactly these.")

prop("E04", "Expanded code is valid and correctly located",
     "After expansion, any AST returned by any macros compiles as it would after fixing contexts by hand: every node that needs a source location has one, nodes that macros create without location get the location of the macro use, existing locations of user code are kept, every expression context is right for where the node ended up, and no internal AST markers remain. Each statement-level macro use stays visible to coverage tools: deleted or replaced blocks and decorators still leave a statement on their line.",
     ["programs"], "every program and every well-typed macro output, including outputs that reuse, move, duplicate or delete input nodes",
     "Tests never inspect locations or contexts of generated code; macro outputs are unbounded.",
     ["mcpyrate/core.py", "mcpyrate/astfixers.py", "mcpyrate/expander.py", "mcpyrate/markers.py"],
     [{"name": "fix_locations and fix_ctx after each expansion; coverage dummy nodes", "where": "mcpyrate/expander.py, mcpyrate/core.py, mcpyrate/astfixers.py"}],
     ["the AST returned by expand_macros"],
     "property-based invariant checking on generated programs and generated macro outputs",
     "Macros that build random outputs from their input are run on generated programs; the expanded AST must satisfy the validity invariants and compile.")

prop("E05", "Macro errors are reported at the use site and leave the expander usable",
     "If a macro function raises, or returns something other than an AST node, an iterable of AST nodes, or `None`, expansion raises a macro-expansion error whose message shows the file, line and source of the innermost macro use that failed and of each enclosing macro use once, with the original exception as its root cause; syntax errors in macro invocation are reported likewise, and exceptions that are not `Exception`s, such as `KeyboardInterrupt`, pass through unchanged. Whatever failed, the expander remains usable afterwards: its bindings and recursion mode are as before, and subsequent expansions behave as if the failure had not happened.",
     ["fault_sequences", "programs"], "every point of failure in every nesting of macro uses, every exception type and every kind of invalid return value, followed by any further expansions",
     "Tests check one failing macro; the fault can be at any depth and in any expansion mode, and the state after it is not tested.",
     ["mcpyrate/core.py", "mcpyrate/expander.py", "mcpyrate/utils.py"],
     [{"name": "BaseMacroExpander.expand error wrapping, telescoping, context managers for recursion mode", "where": "mcpyrate/core.py"}],
     ["exceptions raised from expansion; expander state"],
     "property-based fault injection at a generated macro use and nesting, with a differential re-run",
     "A fault is injected at a generated invocation; the error is compared with the model and the expander is then compared with a fresh one.")

prop("E06", "Expansion modes agree: stepwise, recursive and once-only expansion",
     "Expanding one layer at a time with `visit_once` until nothing changes gives the same code as expanding recursively (unless a macro's output forms a new macro use together with the code around it, or a macro itself expands its input explicitly), and the helper macros and functions that expand for you (`expand1`, `expand` and their static, run-time and quoting variants, in expression form and in `with ... as name` form; `expand_first`; `expander.visit_once`, `visit_recursively`, `visit`) give the same code as that direct expansion with the same bindings. A recursion mode set for an inner visit ends with that visit, and `Done`-marked trees are not expanded again.",
     ["programs"], "every program, every order of mixing the modes in nested macros",
     "Tests check a few fixed uses of each mode.",
     ["mcpyrate/core.py", "mcpyrate/metatools.py", "mcpyrate/expander.py"],
     [{"name": "visit_once, visit_recursively, Done, expand1s/expands/expand1r/expandr...", "where": "mcpyrate/core.py, mcpyrate/metatools.py"}],
     ["expander.visit_once/visit_recursively; mcpyrate.metatools macros"],
     "property-based metamorphic equivalences between expansion modes on generated programs",
     "The same generated program is expanded in each mode; results must agree with the reference expander.")

prop("E07", "Macro-imports establish exactly the imported bindings",
     "`from module import macros, m1, m2 as b` at the top level of a module (absolute or relative, resolved from the deepest `sys.path` entry that contains the file) binds exactly the named macros under exactly the given names to the functions those names have in the module, later bindings of a name winning, and `from __self__ import macros, ...` binds those of the module's earlier phases. The import statement is replaced in place by a plain import of the absolute module name, with the same location (a self-import, by nothing), and all else is left alone. A macro-import of a missing module or name, of a non-callable, or a relative one outside a package is an error that names it.",
     ["programs", "configurations"], "every macro-import statement form, alias, package layout and relative level, at every place in the module",
     "Tests use a few absolute imports.",
     ["mcpyrate/coreutils.py", "mcpyrate/expander.py"],
     [{"name": "find_macros, get_macros, ismacroimport, resolve_package", "where": "mcpyrate/coreutils.py, mcpyrate/expander.py"}],
     ["mcpyrate.expander.find_macros", "importing macro-enabled modules"],
     "property-based generation of package layouts and macro-imports, against the generated binding model",
     "Generated packages in scratch directories; the bindings, the rewritten import statements and run-time behaviour are compared with the model.")

prop("D01", "Debugging macros are transparent and show the truth",
     "Wrapping code in `step_expansion`, in expression or block form, with any of its arguments, nested or not, gives the same expanded code as not wrapping it. The steps it prints start with the unexpanded code, each show the code after one more step, end with the fully expanded code, and are numbered consecutively up to the number that the last line tells; in detailed mode each macro expansion of the step is shown too, as is told to any `debughook`: which macro, its invocation before, and its output after. `MacroCollector` reports exactly the macro uses that the expander would expand in the code. `show_bindings` evaluates to `None` and shows exactly the macro bindings in effect at that point, as does `format_bindings`, and `SourceLocationInfoValidator` collects exactly the nodes that lack location information. Wrong arguments or uses are errors, after which the expander works as before.",
     ["programs"], "every program and macro set, in expression and block form, with any output options",
     "Tests do not use the debug macros at all.",
     ["mcpyrate/debug.py", "mcpyrate/expander.py"],
     [{"name": "step_expansion, show_bindings, MacroCollector", "where": "mcpyrate/debug.py, mcpyrate/expander.py"}],
     ["mcpyrate.debug macros; stderr", "MacroCollector"],
     "property-based metamorphic test (with vs. without the debugging macro) on generated programs",
     "Generated programs are expanded with and without the debugging macros; output text is parsed back and compared.")

# ---------------------------------------------------------------- compilation pipeline
prop("C01", "Multi-phase compilation equals running the phases one after another",
     "In a module with multi-phase compilation enabled, code in `with phase[k]` runs at phase k and in all later phases after being lifted, at the place where it appears in the source. Each phase is a new module instance, sees exactly the macros that its macro-imports name (`from __self__`: as defined by the previous phase), and has `__phase__`, the future-imports and working absolute and relative imports; the final module is what running the phases one after another, each over the macros of the one before, gives. Afterwards `sys.modules` and the parent package are as without phases, also when a phase fails, and misplaced or invalid phases and self-imports of what no earlier phase defines are errors. `step_phases` shows the code of each phase.",
     ["programs"], "every arrangement of phases, phase numbers, docstrings, future-imports and self-macro-imports",
     "Tests contain a few fixed multi-phase modules.",
     ["mcpyrate/multiphase.py", "mcpyrate/compiler.py", "mcpyrate/coreutils.py"],
     [{"name": "detect_highest_phase, extract_phase, multiphase_expand", "where": "mcpyrate/multiphase.py"}],
     ["imports of generated modules", "mcpyrate.multiphase API"],
     "property-based generation of phased modules against a reference interpreter of phases",
     "Generated modules record execution events per phase; a reference model predicts the event list and final namespace.")

prop("C02", "Run-time compilation behaves like a module's own code",
     "`expand`, `compile` and `run` accept source text, an AST, a list of statements or (for `run`) a code object equivalently, and running code in a given or new module has the effects on its namespace that the same source would have as a module file, including the docstring, future-imports, dialects and macros. A sequence of `create_module`, `run` and `temporary_module` operations leaves `sys.modules` and parent packages exactly as documented: a created module is registered under its name until removed, runs accumulate in the same namespace, and a temporary module is gone when its block exits, also when it exits by an exception.",
     ["programs", "histories"], "every program and every sequence of run-time compiler operations, including failing ones",
     "Tests make a few single calls.",
     ["mcpyrate/compiler.py"],
     [{"name": "expand, compile, run, create_module, temporary_module", "where": "mcpyrate/compiler.py"}],
     ["mcpyrate.compiler API; sys.modules"],
     "stateful property-based histories against a model of sys.modules, and a differential test against exec",
     "Random operation sequences against a dictionary model; generated programs run both ways and namespaces compared.")

prop("C03", "Importing macro-free modules behaves as in plain Python",
     "With the macro expander active, importing any module that uses no macros and no dialects gives the same bytecode, namespace, docstring, `__future__` effects, line numbers in tracebacks and exceptions (including syntax errors) as importing it without the expander, for any source encoding, newline convention and optimization setting.",
     ["programs", "configurations"], "every macro-free module source, encoding and compile setting",
     "Tests import macro-enabled modules only; nothing compares with Python's own importer.",
     ["mcpyrate/importer.py", "mcpyrate/activate.py", "mcpyrate/compiler.py"],
     [{"name": "source_to_xcode", "where": "mcpyrate/importer.py"}],
     ["import with mcpyrate active"],
     "property-based differential test against CPython's own source loader",
     "Generated modules are loaded through both loaders and code objects are compared recursively.")

prop("C04", "Cached bytecode is never stale with respect to macro dependencies",
     "After any history of editing modules, macro modules, dialect modules and what those in turn import macros from, and importing in fresh processes, an import gives the same result as if there were no bytecode cache; and a module is recompiled only if it or something in its macro-import closure changed. This holds for absolute and relative macro-imports, dialect-imports, aliases and import chains of any length. `path_stats` always gives the latest modification time in that closure, also when an older version of a file is put back.",
     ["histories"], "every dependency graph between modules and every history of edits, touches and imports",
     "Tests run each demo twice (fresh and cached) but never edit a dependency between runs.",
     ["mcpyrate/importer.py", "mcpyrate/coreutils.py", "mcpyrate/activate.py"],
     [{"name": "path_xstats, _stat_file, recursive macro-import scan by mtime", "where": "mcpyrate/importer.py"}],
     ["import results across processes"],
     "stateful property-based histories of edits and imports against a make-like reference model",
     "Random dependency graphs and histories of edits with distinct mtimes; results of imports in fresh children compared with a cache-less import and with a model of which modules must recompile.")

prop("A01", "Activation and deactivation are complete and idempotent",
     "After any sequence of `activate` and `deactivate` calls, imports of modules are macro-expanded if and only if the last call was `activate`; deactivation restores Python's own loader behaviour exactly, and any number of repetitions makes no difference. Modules imported earlier keep working.",
     ["histories"], "every sequence of activations, deactivations and imports",
     "Tests only ever activate once.",
     ["mcpyrate/activate.py", "mcpyrate/importer.py"],
     [{"name": "activate, deactivate", "where": "mcpyrate/activate.py"}],
     ["imports after activate/deactivate"],
     "stateful property-based histories against a one-bit model",
     "Random histories of activate / deactivate / import; behaviour of each import compared with the model's state.")

# ---------------------------------------------------------------- dialects, splicing
prop("L01", "Dialects transform in the documented order, each exactly once",
     "For any list of dialect-imports, the source transformers of all dialects run first, then the AST transformers, then macro expansion, then the AST postprocessors, each in import order, repeating the search from the beginning until no unseen dialect-import remains; each runs exactly once per import (source transformers once per literally distinct import), sees the previous one's output, and gets the location of the dialect-import and the file name. A dialect-import that a transformer injects takes effect and one that it removes does not, dialect-imports become plain imports in the result, and a transformer that raises or returns an empty result, or a dialect that is not one, is an error that names the dialect. The debug dialect `StepExpansion` shows each step and has no other effect.",
     ["programs", "configurations"], "every number and order of dialects with any subset of transformers, including dialects that inject dialect-imports",
     "Tests have seven fixed modules.",
     ["mcpyrate/dialects.py", "mcpyrate/compiler.py"],
     [{"name": "DialectExpander.transform_source / transform_ast / postprocess_ast", "where": "mcpyrate/dialects.py"}],
     ["transformer call order and the compiled result"],
     "property-based generation of dialect sets against a reference pipeline model",
     "Generated dialects record their calls and edit the code; call sequence and result are compared with the model.")

prop("L02", "Splicing into templates keeps every statement, in order and once",
     "Splicing user code into a template replaces all paste-here markers, at any depth, by all of the user code in order (the first by the code itself, the others by copies), in place, and changes nothing else of the template. `splice_dialect` keeps docstrings, and gathers the user's `__all__` and the future-, dialect- and macro-imports of both in the documented order before the rest, with nothing lost or duplicated; template nodes get the given source location and user code keeps its own, and the result compiles. `split_futureimports` and `inject_after_futureimports` divide a module body exactly after its docstring and future-imports.",
     ["programs"], "every template, marker position and user code",
     "Tests splice a few fixed templates.",
     ["mcpyrate/splicing.py", "mcpyrate/coreutils.py"],
     [{"name": "splice_expression, splice_statements, splice_dialect, split_bodies", "where": "mcpyrate/splicing.py"}],
     ["mcpyrate.splicing API"],
     "property-based differential test against reference substitution on generated templates",
     "Generated templates and user code; result compared with a list-based reference splice.")

prop("P01", "Registered postprocessors run on every top-level expansion, once, in order",
     "Each top-level macro expansion (`expand_macros`, the compiler, the import hook, each phase, the console, and any that a macro starts itself) runs each function given to `add_postprocessor` exactly once, in the order of registration, each on the output of the previous, after macro expansion has ended and mcpyrate's own AST markers are gone, and before the postprocessors of dialects; inner visits of the expander do not. Registering a function again changes nothing, removing takes effect at once and is allowed for one that is not there, and an error of a postprocessor is raised. mcpyrate removes no other markers than its own: those of macros stay for the postprocessors, and are an error, with the name of the file, if any is left in code to be compiled.",
     ["histories", "programs"], "every history of registrations and expansions, and every program",
     "The repository has no test of postprocessors.",
     ["mcpyrate/core.py", "mcpyrate/expander.py", "mcpyrate/compiler.py"],
     [{"name": "global_postprocess, add_postprocessor, remove_postprocessor", "where": "mcpyrate/core.py"}, {"name": "expand_macros", "where": "mcpyrate/expander.py"}, {"name": "singlephase_expand", "where": "mcpyrate/compiler.py"}],
     ["add_postprocessor / remove_postprocessor, the calls they lead to and the expanded code"],
     "stateful property-based histories against a model of the registered list and of the code",
     "Random histories of registrations and expansions of generated programs in every way of expanding; calls, markers seen and values compared with a model.")

# ---------------------------------------------------------------- AST utilities
prop("W01", "AST walkers visit, transform and collect as documented",
     "A walker visits nodes in source field order, depth-first; returning a node replaces it, returning `None` or a list deletes or splices it within a list field, and not recursing leaves a subtree as is, while a visitor leaves its tree unmodified. State set for a subtree with `withstate` or `generic_withstate` is visible exactly in that subtree, and restored afterwards, and changes to the walker's state made inside it do not leak out. `collect` gathers items in visiting order, once each, until `reset`.",
     ["programs", "histories"], "every tree and every walker made of the documented operations",
     "The repository has no walker test.",
     ["mcpyrate/walkers.py"],
     [{"name": "BaseASTWalker, ASTVisitor, ASTTransformer", "where": "mcpyrate/walkers.py"}],
     ["mcpyrate.walkers API"],
     "property-based differential test against a purely functional reference walker",
     "Random walker programs (per-node actions) run on random trees and compared with a functional reference implementation.")

prop("F01", "Expression contexts are fixed to what the parser would give",
     "After `fix_ctx`, whatever the contexts were before (missing, wrong, or from a node that appears several times), every node has the context the Python parser would give it in that position, and nothing else changes; with `copy_seen_nodes`, a node that appears several times in the tree is correct in each of its positions.",
     ["programs"], "every AST with arbitrary contexts and arbitrary sharing of nodes",
     "The repository has no test of it, other than through small macro expansions.",
     ["mcpyrate/astfixers.py"],
     [{"name": "fix_ctx", "where": "mcpyrate/astfixers.py"}],
     ["mcpyrate.astfixers.fix_ctx"],
     "property-based differential test: scramble contexts and share nodes, compare with ast.parse",
     "Parse, scramble or remove contexts, share equal subtrees, fix, and compare with the original parse.")

prop("F02", "Source locations are filled in without moving what is already located",
     "`fix_locations` with a reference node gives nodes that have no location the reference's location in mode 'reference', and the location of the nearest preceding or enclosing node that has one (initially the reference's) in mode 'update', and in these modes nodes that have their own location keep it; in mode 'overwrite' all nodes get the reference's location. Line numbers (start and end) and columns (start and end) are handled as pairs, a reference node that has no location changes nothing, and in all cases nothing but location attributes changes.",
     ["programs"], "every tree with any subset of nodes lacking any subset of location attributes",
     "The repository has no test of it.",
     ["mcpyrate/astfixers.py"],
     [{"name": "fix_locations", "where": "mcpyrate/astfixers.py"}],
     ["mcpyrate.astfixers.fix_locations"],
     "property-based invariant and differential checking with random removal of locations",
     "Locations are removed at random from generated trees; a recursive reference predicts each node's location.")

prop("K01", "AST markers can be found, removed and checked completely",
     "`get_markers` finds all the AST markers of the given class in any tree, `delete_markers` removes all and only those, leaving the wrapped content in place (statement lists spliced, empty markers vanishing), and `check_no_markers_remaining` raises if and only if one of the class remains, with the file name in the message. Nothing else in the tree changes.",
     ["programs"], "every tree with markers of any classes nested in any positions",
     "Tests do not exercise these functions directly.",
     ["mcpyrate/markers.py"],
     [{"name": "get_markers, delete_markers, check_no_markers_remaining", "where": "mcpyrate/markers.py"}],
     ["mcpyrate.markers API"],
     "property-based round trip: insert markers at random, then find and remove them",
     "Random markers are inserted into generated trees; removal must restore the original.")

prop("T01", "Renaming renames every occurrence of an identifier and nothing else",
     "`rename(old, new, tree)` gives the tree whose source is the original with every identifier `old` replaced by `new`: variables, attributes, functions, classes, parameters, keyword arguments, imports and their aliases (a dotted module name is one name), exception and pattern captures, globals, type parameters. Strings, other identifiers and structure are unchanged.",
     ["programs"], "every program, and every identifier in it",
     "No test renames more than a name or two.",
     ["mcpyrate/utils.py"],
     [{"name": "rename", "where": "mcpyrate/utils.py"}],
     ["mcpyrate.utils.rename"],
     "property-based differential test against token-level renaming",
     "Generated programs are renamed on the AST and on the token level; results must agree.")

prop("T02", "Generated and helper identifiers and small AST utilities are sound",
     "`gensym` never returns the same identifier twice, in any number of calls and processes, and with a base name that is an identifier it gives an identifier from which `scrub_uuid` gives the base name back; `flatten` gives exactly the elements of nested lists in order (with `None` dropped) mapped as asked; `extract_bindings` gives exactly the bindings of the given functions. `getdocstring` gives what Python takes as the docstring, and `format_location` and similar reports never fail.",
     ["inputs", "histories"], "every base name, list structure, binding table and module body",
     "Tests use them incidentally.",
     ["mcpyrate/utils.py"],
     [{"name": "gensym, scrub_uuid, flatten, extract_bindings, getdocstring, format_*, NestingLevelTracker", "where": "mcpyrate/utils.py"}],
     ["mcpyrate.utils API"],
     "property-based checks against reference implementations",
     "Each helper is compared with an independent reference on generated inputs.")

prop("B01", "A Bunch behaves as a mapping whose items are its attributes",
     "After any sequence of item, attribute, update, deletion, copy and clear operations, a `Bunch` has the same content, order-independent equality, length, membership, iteration and errors as a dictionary with the same operations, and attribute and item access always agree; missing attributes raise AttributeError and missing items KeyError, and reserved method names are not overwritten.",
     ["histories"], "every sequence of operations",
     "No test uses Bunch other than in passing.",
     ["mcpyrate/bunch.py"],
     [{"name": "Bunch", "where": "mcpyrate/bunch.py"}],
     ["mcpyrate.bunch.Bunch"],
     "stateful property-based test against a dict model",
     "Random operation sequences run on a Bunch and a dict side by side.")

# ---------------------------------------------------------------- bundled macros
prop("M01", "The bundled macros accept exactly the uses that their documentation allows",
     "Each macro that comes with mcpyrate (`q`, `u`, `n`, `a`, `s`, `t`, `h`, the `expand...` family, `stepr`, `expand_first`, `fill_location`, `macro_bindings`, `step_expansion`, `show_bindings`, `phase`, `step_phases`), under any name, is accepted in exactly the syntax its documentation gives: as an expression, block or identifier macro, with or without an `as` part and with the macro arguments it takes, and the unquotes only within as many quotes as there are unquotes. Any other use makes macro expansion fail with an error (a SyntaxError; a TypeError, ValueError or NotImplementedError for an operand or argument of the wrong kind); it never expands silently. What was used before, correctly or not, does not matter.",
     ["programs", "histories"], "every nesting of bundled macros in every syntax, at every quote depth, after any earlier successful and failed expansions",
     "Tests use the macros correctly; misuse, and the state (quote level, expander mode) that it may leave behind, combine with every nesting.",
     ["mcpyrate/quotes.py", "mcpyrate/metatools.py", "mcpyrate/debug.py", "mcpyrate/multiphase.py", "mcpyrate/utils.py"],
     [{"name": "syntax and quote level checks at the start of each macro function", "where": "mcpyrate/quotes.py"},
      {"name": "NestingLevelTracker", "where": "mcpyrate/utils.py"},
      {"name": "expand_first, macro_bindings, fill_location, stepr", "where": "mcpyrate/metatools.py"}],
     ["MacroExpander.visit on modules that use the bundled macros"],
     "property-based test of generated histories of macro uses against a table of the documented syntax",
     "Generated nestings of valid and invalid uses of all bundled macros; the verdict of a reference walk that tracks the quote level must agree with whether expansion succeeds. Location and text of messages are E05's.")

# ---------------------------------------------------------------- tools
prop("R01", "The interactive console behaves as a macro-enabled module, line by line",
     "A sequence of inputs to the console has the effects and results that the same statements have in a macro-enabled module, with macros and imports taking effect for later inputs; an input that fails (syntax, macro expansion or run time) reports the error, changes nothing else, and leaves the console working. Redefining and re-importing macros takes effect for later inputs.",
     ["histories"], "every sequence of valid and failing inputs",
     "The console has no tests.",
     ["mcpyrate/repl/console.py", "mcpyrate/repl/utils.py"],
     [{"name": "MacroConsole.runsource, macro-import handling per input", "where": "mcpyrate/repl/console.py"}],
     ["MacroConsole"],
     "stateful property-based sessions against a module-level reference",
     "Random sessions of statements, macro uses, imports and failures are fed to the console, and its namespace and output compared with a model.")

prop("R02", "The macropython command runs a program as python would, with macros",
     "Running a script file or a module (also a package, by its `__main__.py`) with the `macropython` command has the output, exit status and errors of running it with `python`, with the macros in it expanded: it runs as `__main__`, from the file that was named, with the directory of the script (or, with -m, the working directory) first on the import path, and with relative imports working. This holds for file names of any form, every way of naming the file, with and without cached bytecode. If there is nothing to run, that is reported with a failing status.",
     ["programs", "configurations"], "every program, place it is in, and way of naming it",
     "Tests run the demos by importing them or via one way of invocation.",
     ["mcpyrate/repl/macropython.py"],
     [{"name": "main, import_module_as_main", "where": "mcpyrate/repl/macropython.py"}],
     ["the macropython command line"],
     "property-based differential test against the python command on generated programs and layouts",
     "Generated programs and directory layouts are run by both commands in child processes; output and status compared.")

prop("X01", "Cleaning bytecode caches removes only bytecode caches",
     "`getpycachedirs` lists, and `deletepycachedirs` deletes, all of the bytecode cache directories under the given directory and nothing else, whatever files, links and directory names there are, and symbolic links are never followed. The listing and the deletion agree, and a second deletion finds nothing. The `macropython` command does the same with `-c` (delete) and `-c` `-n` (only list).",
     ["inputs"], "every directory tree",
     "The cleaner has no tests.",
     ["mcpyrate/pycachecleaner.py"],
     [{"name": "getpycachedirs, deletepycachedirs", "where": "mcpyrate/pycachecleaner.py"}],
     ["mcpyrate.pycachecleaner API"],
     "property-based model check on generated directory trees in a scratch directory",
     "Random directory trees are built in a scratch directory, cleaned, and compared with a set model.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(VERIF, "checks", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": f"sh run.sh {p['id']}",
                           "thorough_cmd": f"VERIF_TIER=thorough sh run.sh {p['id']}",
                           "evidence_file": f"evidence/{p['id']}.json",
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are property-based searches run by harness/main.py (Hypothesis); see DESIGN.md. No hooks in /repo."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = sum(p["statement"].count(x) for x in (". ", ".\n")) + 1
        if n > 3:
            print("more than 3 sentences?", p["id"], n)
    print(len(P), "properties;", len(checks), "checks;", len(na), "not built")


if __name__ == "__main__":
    main()
