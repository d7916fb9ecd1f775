#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the long texts stay readable)."""
import json, os
M = "hooq-macros/src/impls/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Every `?` in an annotated item runs the hook exactly once, in place",
     "In an item annotated with `#[hooq]` and with `?` among the hook targets, every evaluation of every `?` expression, whatever expression, statement, item or nested scope it sits in, runs the hook exactly once on the operand's value immediately before `?` inspects it, and nothing else runs the hook. A `?` nested in the operand of another is hooked first, and a `?` that is not evaluated runs no hook.",
     ["programs", "inputs"],
     "All programs hooq accepts (every expression/statement/item position that can hold a `?`, to any nesting depth) and all control-flow paths of those programs.",
     "The repository's tests expand a few dozen fixed snippets; they do not cover most (position x nesting) combinations and never execute the result along all paths, so a position whose traversal is lost, doubled or reordered goes unseen.",
     [M+"walker/mod.rs", M+"walker/hook_expr.rs", M+"method/render/mod.rs"],
     "Recursive rewriting of the annotated item's syntax tree; each `?` operand is wrapped with the rendered method.")

prop("C02", "Returns and tail expressions are hooked by exactly the documented rule",
     "With `return` and `tail_expr` among the hook targets, the value of a `return` or of the last expression of a function or closure is hooked iff it is a call whose last path segment is in `tail_expr_idents`, or the nearest enclosing function or closure declares a return type whose last path segment is in `result_types` and the value is not a call listed in `ignore_tail_expr_idents`; the last expression of any other block (including each match arm) is hooked iff it is such a call in `tail_expr_idents`. Each such value is hooked exactly once per evaluation, before it leaves the scope, and a value already hooked by an inner `return` is not hooked again.",
     ["programs", "inputs", "configurations"],
     "All functions, methods, closures and nested blocks with every declared/undeclared return type, every shape of returned value and every setting of the three lists.",
     "Tests list a handful of (return type, value) shapes with the default lists; the rule is a product of scope kind, declared type, value shape and list membership under nesting.",
     [M+"walker/mod.rs", M+"utils/function_info.rs", M+"inert_attr/context.rs"],
     "Tail position classification per block plus a call-name and return-type test against the effective lists.")

prop("C03", "Apart from the hook, an annotated item behaves exactly as written",
     "With a hook that returns its operand unchanged, an annotated item produces the same results, side effects, evaluation order, drop order and panics as the same item without the annotation, keeps every non-hooq attribute in force, and adds no name beyond the requested anonymous trait imports. The `empty` flavor hooks nothing at all.",
     ["programs", "inputs", "configurations"],
     "All programs that can be annotated, all of their executions, with identity hooks of every shape and with the `empty` flavor.",
     "Snapshot tests compare token output for fixed inputs; nothing executes an annotated and an unannotated version of the same program side by side, so a rewrite that drops or reorders user code elsewhere is invisible.",
     [M+"walker/mod.rs", M+"walker/walk_macro.rs", M+"mod.rs", M+"flavor/presets/empty.rs"],
     "The walker mutates only hook targets and strips only hooq attributes; every other token is re-emitted.")

prop("C04", "skip and skip_all suppress exactly the hooks in their documented extent",
     "`#[hooq::skip]` on a node suppresses hooking of every target in that node that belongs to the node's own scope and of no target in a nested scope (bodies of functions, closures with a block, blocks, loops, branches and match arms); `#[hooq::skip_all]` suppresses every target in the node including all nested scopes. Suppressed targets keep their original behaviour and every target outside the node is still hooked.",
     ["programs", "inputs"],
     "Every node kind that may carry the attribute, every arrangement of nested scopes below it, and every combination of the two attributes.",
     "The fixed tests attach the attributes to a few node kinds; the boundary between same scope and nested scope has to hold for every construct that opens one.",
     [M+"inert_attr/context.rs", M+"inert_attr/parse.rs", M+"walker/mod.rs"],
     "A per-node inherited skip status that sub-scopes reset unless it is skip_all.",
     [("skip_status", "none / same scope only / everything below")])

prop("C05", "The nearest enclosing setting wins and never leaks out of its node",
     "For every hook target and every setting (method, hook_targets, tail_expr_idents, ignore_tail_expr_idents, result_types, hook_in_macros), the value in force is the one given by the nearest enclosing node that sets it, later attributes on one node overriding earlier ones, and otherwise the value of the item's flavor. A setting on a node has no effect on targets before, after or around that node, and leaves the other settings as inherited.",
     ["programs", "configurations"],
     "All nestings of items, statements and expressions with any subset of setting attributes on any of them, in any order, in both the `(...)` and the `= FLAVOR` form.",
     "Tests set one or two attributes at a time; shadowing, interleaving, sibling isolation and multi-attribute order are combinatorial.",
     [M+"inert_attr/parse.rs", M+"inert_attr/context.rs", M+"inert_attr/mod.rs"],
     "Immutable inherited contexts, one per node, built from the parent plus the node's attributes.",
     [("local context", "the effective value of each setting at a node")])

prop("C06", "The hook method is inserted or substituted exactly as written",
     "A method starting with `.` is called on the whole target expression, and any other method replaces the target with `$expr` standing for the whole (already hooked) target, whatever operators the target consists of. `$so_far` expands to the method that the current one overrides, recursively through every level of override, and all other tokens of the method are kept as written.",
     ["programs", "configurations"],
     "All method texts built from chains, closures, nested groups and meta variables, all override depths, and targets of every expression kind and operator precedence.",
     "Tests use call-shaped targets and one or two levels of override; precedence of the target and depth of the chain are unbounded.",
     [M+"method/mod.rs", M+"method/render/mod.rs", M+"inert_attr/context.rs"],
     "Token-level template expansion and re-parse into the target's place.",
     [("overridden ancestor", "the method that the current method replaced")])

prop("C07", "Bindings resolve to the nearest definition and evaluate where hooked",
     "In a hook, `$name` stands for the expression most recently bound to `name` by the nearest enclosing node (or else by the flavor), each use being evaluated at the hook with the meaning the expression has there, as one operand whatever its operators. `$bindings` (and the `bindings` of the hook metadata) contains exactly the names visible at the target, each with that expression's text and value.",
     ["programs", "configurations"],
     "All placements and shadowings of `binding`, `var`, `hooq::name = ...`, `bindings = FLAVOR` and flavor bindings over nested nodes, with arbitrary binding expressions, under whatever name the project depends on hooq.",
     "Tests define one or two literal bindings; shadowing by depth, by attribute order, by flavor and the exact visible set at each target are not enumerated.",
     [M+"inert_attr/parse.rs", M+"inert_attr/context.rs", M+"method/render/mod.rs", "hooq-helpers/src/lib.rs"],
     "An inherited map of bindings merged per node; substituted into the template at expansion.",
     [("bindings", "name to expression map in force at a node")])

prop("C08", "$line, $col, $path and $file name the hooked target's own position",
     "For every hook, `$line` and `$col` are the 1-based line and column (in characters) of the target in the user's source: of the `?` itself, of the `return` keyword, or of the first token of the tail expression; `$path` is the path the compiler was given for that source file and `$file` its last component. This holds for every other target hooked before, around or inside it.",
     ["programs", "inputs"],
     "All layouts of source text (multi-line expressions, comments, tabs, non-ASCII text, several targets per line), all target kinds and nestings, both method forms.",
     "Snapshots normalise or fix line numbers of a few snippets; positions are a function of every layout and of neighbouring rewrites.",
     [M+"method/render/mod.rs", M+"walker/mod.rs"],
     "Spans of the target's tokens are read at expansion time and emitted as literals.")

prop("C09", "$count numbers the targets of each kind 1, 2, 3... in source order",
     "Within one annotated item, `$count` (alias `$nth`) of a hook is the ordinal of its target among all unskipped targets of the same kind (`?`, `return`, `tail expr`) in source order (a target nested in another before it, otherwise the earlier in the text first), written with the correct English suffix and followed by the kind. Targets of a kind that is switched off by `hook_targets` still count and skipped targets do not.",
     ["programs", "configurations"],
     "All programs with any number, nesting and mixture of targets (including beyond 100), across nested functions, closures, impl blocks, modules and macro arguments, with skips and switched-off kinds.",
     "Tests reach single-digit counts in a few shapes; suffix rules at 11-13, 111-113 and counter sharing across scopes, macros and switched-off kinds need many targets.",
     [M+"inert_attr/context.rs", M+"walker/hook_expr.rs", M+"method/render/mod.rs"],
     "One shared counter per kind per annotated item, incremented as the walk meets each target.",
     [("counter", "number of targets of each kind met so far")])

prop("C10", "$fn_name and $fn_sig name the innermost function or closure",
     "In every hook `$fn_name` is the name of the innermost enclosing function or method, or, inside a closure, a name that identifies it as a closure of the nearest enclosing named function; `$fn_sig` is that function's signature, or that closure's header with an empty body, token for token. Leaving a nested function or closure restores the outer values.",
     ["programs"],
     "All nestings of functions, methods, trait defaults, nested items, closures and async blocks, with generics, where clauses, qualifiers and receivers.",
     "Tests check a couple of functions; restoration after nested items and closures inside closures or impls is not covered.",
     [M+"utils/function_info.rs", M+"walker/mod.rs", M+"method/render/mod.rs"],
     "Function information is part of the inherited context and replaced when a function or closure is entered.",
     [("fn_info", "innermost function or closure")])

prop("C11", "$source and $hooq_meta report the user's own code and the same facts",
     "`$source` is the target exactly as the user wrote it (token for token, before any hooking inside it, without the target's own hooq attributes), for `return` including the keyword and for `?` including the `?`. `$hooq_meta` carries the same line, column, path, file, source text, count and bindings as the individual variables at that hook, and its typed accessor returns a binding's value iff the name is bound and the type matches.",
     ["programs", "inputs"],
     "All targets of all kinds and shapes including nested hooked targets, raw strings, macros, attributes and closures in the source, and all bound types.",
     "Tests compare a few literal sources; independence from inner hooks and agreement between metadata and variables has to hold at every target.",
     [M+"walker/mod.rs", M+"method/render/mod.rs", "hooq-helpers/src/lib.rs"],
     "The target's tokens are saved before the walk descends, and emitted again on expansion.")

prop("C12", "hooq.toml flavors resolve to their own settings plus inherited ones",
     "A flavor named in an attribute has, for every setting, the value its own hooq.toml table gives, else its parent table's value, recursively, else the default (or, when it overrides a preset, the preset's); bindings and trait imports follow the same inheritance, bindings being merged by name. Selecting a flavor by path or string, at the root or for one setting only (`hooq::SETTING = FLAVOR`), applies exactly that flavor's values for what was selected and nothing else.",
     ["configurations", "programs"],
     "All hooq.toml files (any tree of tables, any subset of keys, overrides of presets) and all ways of selecting a flavor in source.",
     "Tests ship a handful of fixed hooq.toml files, one per crate; inheritance by depth and per-setting selection is a product space.",
     [M+"flavor/mod.rs", M+"flavor/toml_load/apply.rs", M+"flavor/toml_load/mod.rs", M+"flavor/flavor_path.rs", M+"root_attr/mod.rs", M+"inert_attr/parse.rs"],
     "Tables are applied top-down onto clones of their parent; selection copies the named fields into the context.",
     [("flavor store", "resolved flavors by name")])

prop("C13", "Preset flavors do their documented job once per failure, and nothing on success",
     "With each preset flavor (default, anyhow, eyre, color_eyre, log and its levels, tracing and its levels, hook), each error passing a hooked target yields exactly one report (stderr line, context frame, log record, tracing event or metadata value) in the documented form and level, carrying the target's position, the error and its source excerpt, and the error itself is preserved. Values that are not errors pass through with no report and without the report being computed.",
     ["programs", "inputs", "fault_sequences"],
     "All programs and all failure paths through them, for every preset flavor and sub-flavor, whatever names the program itself defines.",
     "Tests run one failing path per preset; ordering of frames through nested functions, laziness on success and per-level routing are not settled by it.",
     [M+"flavor/presets/default.rs", M+"flavor/mod.rs", M+"flavor/presets/anyhow.rs", M+"flavor/presets/eyre.rs", M+"flavor/presets/log.rs", M+"flavor/presets/tracing.rs", M+"flavor/presets/hook.rs"],
     "Built-in method templates and trait imports per flavor.")

prop("C14", "Source excerpts show the real lines, numbers and truncations asked for",
     "For every expression, the pretty excerpt reproduces the expression's tokens on their own source lines with the true line numbers (first line marked) and the requested padding; with an excerpt limit N > 1 it shows the first line and the last N-1 lines with an ellipsis iff lines were left out (with N = 1, one true line). Only string literals longer than the requested length are shortened, keeping head and tail, and the one-line form contains the same tokens on one line.",
     ["inputs"],
     "All token streams and layouts (multi-line, blank lines, comments, nested groups, multi-line and raw strings, non-ASCII) and all option combinations.",
     "Tests fix about a dozen excerpts; boundaries of N, of truncation length and of line-number width, and literals spanning lines, are an unbounded space.",
     [M+"utils/source_excerpt.rs", M+"utils/source_excerpt_macros.rs"],
     "Spans of tokens drive a line-by-line re-rendering at expansion time.")

prop("C15", "Macro arguments that are Rust code are hooked, all others are untouched",
     "When the arguments of a macro invocation in an annotated item are a comma- or semicolon-separated list of Rust expressions, statements or items and macro hooking is on, the `?` and `return` targets in them are hooked as they would be outside; when it is off, or when the arguments are anything else, the macro receives exactly the tokens the user wrote. Definitions of macros are never changed.",
     ["programs", "inputs", "configurations"],
     "All macro invocations in expression, statement, item, impl and trait position, with any delimiter and argument tokens, nested to any depth.",
     "Tests use println!/vec!-like macros; arbitrary token grammars and separators, and nested macros, are unbounded.",
     [M+"walker/walk_macro.rs", M+"walker/mod.rs"],
     "Speculative parse of the token stream as a separated list of Rust syntax, walked and re-emitted.")

prop("C16", "consume-question removes `?` exactly where a hook ending in `!` is applied",
     "With the consume-question feature, a method whose text ends in `!` replaces the hooked `?` expression including its `?`, while unhooked, skipped or switched-off `?` and methods without the trailing `!` keep it, and `return` and tail expressions are hooked as usual. Without the feature no `?` is ever removed.",
     ["programs", "configurations"],
     "All programs, both method forms with and without the trailing `!`, set at any level and overridden at any other, with skips and switched-off kinds.",
     "One test crate exercises a few lines; interplay with overrides, skips and nesting is unbounded.",
     [M+"method/mod.rs", M+"walker/mod.rs", M+"walker/hook_expr.rs"],
     "A flag split off the method text, returned by the hook step to decide whether `?` is kept.")

prop("C17", "Expansion and diagnostics are deterministic and isolated per project",
     "Expanding the same item under the same configuration always yields the same code and the same diagnostics, in every process and regardless of which items or projects were expanded before it in the same process. Each project's expansions use that project's own hooq.toml, and counters and settings of one annotated item never influence another.",
     ["histories", "configurations"],
     "All sequences of expansions of any items from any number of projects in one compiler process, and all repetitions across processes (hash seeds).",
     "A test run sees one project per process and one hash seed; leaks through process-wide state or map iteration order need histories of expansions to show.",
     [M+"flavor/mod.rs", M+"inert_attr/context.rs", M+"method/render/mod.rs"],
     "A process-wide cache of parsed configuration keyed by project directory; everything else is per expansion.",
     [("configuration cache", "parsed hooq.toml per project directory")])

prop("C18", "Invalid hooq input is rejected with a located diagnostic, never ignored",
     "Every malformed or unknown hooq attribute, setting value, flavor name, meta variable, method text or hooq.toml key or value is reported as an ordinary compile error located in the user's source that mentions what is wrong, and never panics, is silently ignored or changes other settings. Valid spellings, including all documented aliases, are accepted.",
     ["inputs", "configurations"],
     "All attribute token streams and hooq.toml contents, valid and invalid.",
     "A few compile-fail cases exist; the set of malformed inputs is unbounded and a silently accepted typo produces no failing test.",
     [M+"inert_attr/parse.rs", M+"root_attr/parse.rs", M+"flavor/flavor_path.rs", M+"flavor/toml_load/apply.rs", M+"method/render/mod.rs", M+"method/mod.rs"],
     "Parsing of attribute metas and toml with explicit error returns.")

prop("C19", "Code in an annotated item keeps its own place in the source",
     "Annotating an item never moves, hides or adds what the compiler and the running program report about the user's own code: caller locations, panic locations, `line!()`/`column!()` and the places of compiler errors in user code (a target replaced by a bare top-level `$expr` excepted) are those of the item without the annotation, and the location of a `?` conversion is the `?` expression or its `?`. Where nothing is hooked (flavor `empty`) all diagnostics, including lints, are the same.",
     ["programs", "configurations"],
     "All annotated items, hook settings at any level, and every position in them at which an error, a lint, a panic or a caller location can arise.",
     "Tests look at values and expanded text, never at the spans tokens carry; losing one is invisible until an error or panic at that position is reported.",
     [M+"walker/mod.rs", M+"walker/hook_expr.rs", M+"walker/walk_macro.rs", M+"method/render/mod.rs"],
     "Items are rewritten with syn and printed back token by token; only hook text is given the span of its target.")

prop("C20", "Each cargo feature adds exactly its flavors and changes nothing else",
     "For every subset of hooq's cargo features (and the sets `default` and `full`) hooq builds and offers exactly the preset flavors of the enabled features (`anyhow`; `eyre` and `color_eyre`; `log` and its levels; `tracing` and its levels) besides `default`, `empty` and `hook`. Naming a preset whose feature is off is an unknown-flavor error, unless hooq.toml defines a flavor of that name, which is then an ordinary one; every flavor and construct that is available behaves the same under every set of features, and a trailing `!` is special only with `consume-question`.",
     ["configurations", "programs"],
     "All subsets of the features, every way to name a flavor, and annotated items of every kind under each of them.",
     "The test suite runs with one set of features only; code behind the others is not even compiled by it.",
     [M+"flavor/presets/mod.rs", M+"method/mod.rs", M+"flavor/toml_load/apply.rs", "hooq/Cargo.toml"],
     "Presets are compiled in by cfg; hooq.toml tables start from the preset of their name, else from `default`.")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
