"""C18: every malformed or unknown hooq input is reported where it stands, and every valid spelling is taken.

What is observed: the diagnostics of compilers run over thousands of small annotated items, one input each,
together with the items that must not be reported.  The oracle is a table of the documented grammar
(`judge`), written from the reference pages, and for equivalent spellings the equality of the expanded code.
"""
import collections
import json
import os
import random
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

from . import build
from .build import Inconclusive
from .determinism import chain
from .diff import Violation
from .flavors import Tree

TOML = """
[uf1]
method = '''.hk(|| String::from("uf1"))'''
bindings = { bb = "1", cc = "2" }

[uf1.inn]
hook_targets = ["return"]

[uf2]
method = "hrt::hkf($expr, || String::new())"
hook_targets = ["?"]
hook_in_macros = false
result_types = ["Option"]
tail_expr_idents = ["Some", "!None"]

[default]
method = ".hk(|| String::new())"
"""
KNOWN = ["uf1", "uf1::inn", "uf2", "default", "empty"]
SETTINGS = ["flavor", "method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types",
            "hook_in_macros", "bindings", "binding", "var", "skip", "skip_all"]
FLAVORED = ["flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]
TARGETS = ['"?"', '"question"', '"return"', '"tail_expr"', '"tail expr"', '"tailexpr"', '"tailExpr"', '"all"']
GENERIC = "expected attribute formats"


# ---------------------------------------------------------------- inputs and their verdicts
class Case:
    """One attribute: its text, whether it is valid, and what a report must mention (any of)."""

    def __init__(self, text, ok, hints=(), label=""):
        self.text, self.ok, self.hints, self.label = text, ok, tuple(hints), label


def flavor_value(r):
    """(text, valid, hints)"""
    return r.choice([
        ("uf1", True, ()), ("uf1::inn", True, ()), ('"uf1"', True, ()), ('"uf1::inn"', True, ()), ('"uf1.inn"', True, ()), ("uf2", True, ()),
        ("default", True, ()), ('"empty"', True, ()), ("empty", True, ()),
        ("nosuch", False, ("nosuch",)), ("uf1::nosuch", False, ("nosuch",)), ("nosuch::inn", False, ("nosuch",)), ('"uf3"', False, ("uf3",)),
        ('"uf1.inn.more"', False, ("more",)), ('"uf1:inn"', False, ("uf1:inn",)), ('"Uf1"', False, ("Uf1",)), ('" uf1"', False, (" uf1",)), ('"uf1 "', False, ("uf1 ",)),
        ('""', False, ("empty", "flavor")), ('"uf1."', False, ("empty", "flavor")), ('".uf1"', False, ("empty", "flavor")), ('"uf1..inn"', False, ("empty", "flavor")), ('"uf1:::inn"', False, (":inn", "flavor")),
        ("1", False, ("FLAVOR_NAME",)), ("true", False, ("FLAVOR_NAME",)), ("'u'", False, ("FLAVOR_NAME",)), ('b"uf1"', False, ("FLAVOR_NAME",)),
        ("uf1()", False, ("FLAVOR_NAME",)), ("1.5", False, ("FLAVOR_NAME",)), ("[uf1]", False, ("FLAVOR_NAME",)), ('("uf1")', False, ("FLAVOR_NAME",)), ("&uf1", False, ("FLAVOR_NAME",)),
        ("uf1::<i64>", False, ("generic",)), ("inn", False, ("inn",)), ("uf2::inn", False, ("inn",)), ("anyhow::nosuch", False, ("nosuch",)), ("log::Error", False, ("Error",)),
    ])


def strings(r, good, bad, p=0.5):
    """A list of literals: (text, valid, hints)"""
    n = r.randint(0, 3)
    xs = [(x, True, ()) for x in (r.choice(good) for _ in range(n))]
    if r.random() < p:
        xs.insert(r.randint(0, len(xs)), r.choice(bad))
    t = ", ".join(x[0] for x in xs) + r.choice(["", ","]) if xs else ""
    ok = all(x[1] for x in xs)
    return t, ok, [h for x in xs for h in x[2]]


NOSTR = [("?", False, ("expected",)), ("Err", False, ("expected",)), ("1", False, ("expected",)), ("'x'", False, ("expected",)), ('b"Err"', False, ("expected",)), ('("Err")', False, ("expected",)),
         ('"Err" "Ok"', False, ("expected",)), ('"Err"; "Ok"', False, ("expected",)), ('c"Err"', False, ("expected",)), ("true", False, ("expected",)), ('= "Err"', False, ("expected",)), ('!"Err"', False, ("expected",))]
WORDS = ["break", "continue", "yield", "await", "match", "if", "let", "block", "loop", "while", "for", "macro", "fn", "closure", "async", "stmt", "expr", "exprs", "unwrap", "panic", "throw", "Err", "Ok", "error", "self", "*", "_", "!", "?return",
         "question_mark", "questionmark", "qmark", "tailexprs", "Tail_Expr", "TailExpr", "tail  expr", "last", "end", "call", "method", "default", "any", "every", "ALL ", "nothing", "empty", "true", "0"]
BADT = [('"%s"' % x, False, (x,)) for x in ["??", "retrun", "Return", "tail", "tail-expr", "tail_exprs", "questions", "none", "ALL", " ?", "? ", "return;", "try", "tail_expr, return", "!return", "returns"] + WORDS] + [('""', False, ("hook_targets",))]
BADI = [('"%s"' % x, False, (x, x.replace("!", ""))) for x in ["std::result::Result", "Result<i64>", "a.b", "Ok()", "a b", " Err", "Err ", "1a", "Err!", "!!Ok", "::Err", "Err,Ok", "&Err", "a-b", "! Ok", "!a::b"]] + [('""', False, ("expected a single", "identifier")), ('"!"', False, ("expected a single", "identifier"))]
GOODI = ['"Err"', '"Ok"', '"MyResult"', '"r#type"', '"_x"', '"é"', '"Self"']


def typo(r, s):
    while True:
        i = r.randrange(len(s))
        k = r.randrange(5)
        t = [s[:i] + s[i + 1:], s[:i] + s[i] + s[i:], s[:i] + r.choice("abcxyz_") + s[i:], s[:i] + s[i].upper() + s[i + 1:], s.replace("_", "", 1)][k]
        if t and t not in SETTINGS and t != s and re.fullmatch(r"[A-Za-z_]\w*", t) and t != "_" and t not in ("as", "in", "if", "fn"):
            return t


def make(r):
    """A random attribute with its verdict by the documented grammar."""
    s = r.choice(SETTINGS)
    k = r.random()
    pre = "hooq::"
    if k < 0.08:                      # a leading :: is not the documented form
        pre = "::hooq::"
    if k > 0.88:                      # a name hooq does not know, in the forms that are no binding
        t = typo(r, s)
        return Case("#[hooq::%s%s]" % (t, r.choice(["", "()", '("Err")', "(true)", "(x = 1)", '("?")', "[1]", "{a}"])), False, (GENERIC, t), "unknown attribute")
    if 0.85 < k <= 0.88:
        t = r.choice(["a::b", "%s::x" % s, "hooq::%s" % s, "a::b::c"])
        return Case("#[hooq::%s%s]" % (t, r.choice(["", "(1)", " = 1"])), False, ("format",), "long path")
    form = r.choice(["path", "list", "list", "nv"])
    if form == "path":
        ok = s in ("skip", "skip_all")
        c = Case("#[%s%s]" % (pre, s), ok, (GENERIC,), s + " path")
    elif form == "nv":
        if s in FLAVORED:
            v, ok, h = flavor_value(r)
            c = Case("#[%s%s = %s]" % (pre, s, v), ok, h, s + " = flavor")
        else:
            c = Case("#[%s%s = %s]" % (pre, s, r.choice(["1", "uf1", '"uf1"', "true", "x"])), False, (GENERIC, s), s + " = value")
    else:
        if s in ("skip", "skip_all", "flavor", "bindings"):
            c = Case("#[%s%s(%s)]" % (pre, s, r.choice(["", "true", "uf1", '"uf1"', "a = 1"])), False, (GENERIC,), s + " list")
        elif s == "method":
            return method_case(r)
        elif s == "hook_targets":
            t, ok, h = strings(r, TARGETS, BADT + NOSTR)
            c = Case("#[%s%s(%s)]" % (pre, s, t), ok, h, s + " list")
        elif s == "hook_in_macros":
            v, ok = r.choice([("true", True), ("false", True), ("", False), ('"true"', False), ("1", False), ("True", False), ("true, false", False), ("!true", False), ("uf1", False), ("true,", False), ("= true", False), ("yes", False)])
            c = Case("#[%s%s(%s)]" % (pre, s, v), ok, ("expected", "unexpected"), s + " list")
        elif s in ("binding", "var"):
            v, ok = r.choice([("x = 1", True), ('x = "a"', True), ("x = f(2) + 3", True), ("x = || 1", True), ("skip = 1", True), ("method = 2", True), ("x = a::b", True), ("r#fn = 1", True),
                              ("", False), ("x", False), ("x = ", False), ("x = 1, y = 2", False), ("x: 1", False), ("x == 1", False), ('"x" = 1', False), ("a::b = 1", False), ("x = 1;", False), ("= 1", False), ("x(1)", False),
                              ("x = 1 2", False), ("x y = 1", False), ("$x = 1", False), ("x = $line", False), ("1 = x", False), ("::x = 1", False), ("x, y = 1", False), ("x = = 1", False)])
            c = Case("#[%s%s(%s)]" % (pre, s, v), ok, ("expected", "unexpected", "invalid", "binding"), s + " list")
        else:
            bad = BADI + NOSTR
            if s == "tail_expr_idents":
                good = GOODI + ['"!Ok"', '"!r#fn"']
            else:
                good = GOODI
                bad = bad + [('"!Ok"', False, ("Ok",))]
            t, ok, h = strings(r, good, bad)
            c = Case("#[%s%s(%s)]" % (pre, s, t), ok, h, s + " list")
    if pre == "::hooq::":
        c.ok, c.hints = False, (GENERIC, "hooq", "expected")
    return c


METHODS_BAD = [
    ("", ("expected",)), (".", ("expected",)), (".hk(|| $nosuch)", ("nosuch",)), (".hk(|| String::new()) $nosuch", ("nosuch",)), ("hrt::hkf($expr, || $exprs)", ("exprs",)),
    (".hk(|| format!(\"{}\", $Line))", ("Line",)), (".hk(|| [$a, $b][0])", ("$a",)), (".hk(|| { let x = $line; { $deep } })", ("deep",)), (".hk(|| $)", ("$", "name")), ("$", ("$", "name")),
    (".hk(|| $1)", ("$",)), (".hk(|| $\"x\")", ("$",)), (".hk(|| $(x))", ("$",)), (".hk(|| $.x)", ("$",)), (".hk(|| $$line)", ("$",)), ("$$expr", ("$",)), (".hk(|| $'a')", ("$",)), (".hk($;)", ("$",)),
    (".hk(|| String::new()) extra", ("expected", "unexpected")), ("$expr $expr", ("expected", "unexpected")), ("+", ("expected",)), ("$expr +", ("expected",)), (".hk(|| x y)", ("expected", "unexpected", "parse")),
    (".hk(,)", ("expected", "unexpected", "parse")), ("..", ("expected",)), (".1.2.", ("expected",)), ("= $expr", ("expected",)), ("let x = $expr;", ("expected",)), (".fn()", ("expected",)), ("$expr;", ("expected", "unexpected")),
    ("$expr, 1", ("expected", "unexpected")), (".hk(|| String::new());", ("expected", "unexpected")), ("if $expr", ("expected",)), ("match $expr", ("expected",)), ("}{".replace("}{", "=>"), ("expected",)), ("{ $unknown_thing }", ("unknown_thing",)),
    (".hk(|| $self)", ("self",)), (".hk(|| $crate)", ("crate",)), (".hk(|| $fn)", ("fn",)), (".hk(|| $r#line)", ("line",)), (".hk(|| $_)", ("_",)), (".hk(|| $fn_Name)", ("fn_Name",)), (".hk(|| $line_)", ("line_",)), (".hk(|| $hooq)", ("hooq",)),
    (".hk(|| { #[a] $nosuch2 })", ("nosuch2",)), ("#", ("expected",)), (".hk(|| hrt::idf($bb2))", ("bb2",)), ("? $nosuch3", ("nosuch3",)), (".hk(|| $so_farr)", ("so_farr",)),
    (".hk(|| { println!(\"{}\", $inmac); String::new() })", ("inmac",)),
]
METHODS_OK = [".hk(|| String::new())", "$expr", "hrt::hkf($expr, || $count.to_string())", ".hk(|| format!(\"{:?}\", ($line, $col, $column, $path, $file, $nth, $count, $fn_name, $fnname, $fn_sig, $fnsig, $bindings.len(), $vars.len(), $hooq_meta.line, $hooqmeta.line)))",
              ".hk(|| { stringify!($source); String::new() })", "$so_far", "$sofar", ". hk ( || String :: new ( ) )", "{ $expr }", "(match $expr { x => x })", ".hk(|| stringify!($ source).into())"]


def method_case(r):
    if r.random() < 0.35:
        return Case("#[hooq::method(%s)]" % r.choice(METHODS_OK), True, (), "method")
    m, h = r.choice(METHODS_BAD)
    return Case("#[hooq::method(%s)]" % m, False, h, "method")


# ---------------------------------------------------------------- where an attribute can stand
# {A} the attribute, {n} the name; `hot`: a hook target whose method the attribute governs is there
POS = {
    "fn": "#[hooq]\n{A}\nfn {n}() -> Result<i64, E> {{ let a = r(1)?; if c(2) {{ return r(3); }} r(a) }}",
    "fn without targets": "#[hooq]\n{A}\nfn {n}() {{ sink(1); }}",
    "let": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nlet a = r(1)?; r(a) }}",
    "let else": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nlet Some(a) = o(r(1)?) else {{ return r(2); }}; r(a) }}",
    "expression statement": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nr(1)?; r(2) }}",
    "call argument": "#[hooq]\nfn {n}() -> Result<i64, E> {{ sink(\n{A}\nr(1)?); r(2) }}",
    "block": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\n{{ r(1)?; }} r(2) }}",
    "if": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nif c(1) {{ r(1)?; }} r(2) }}",
    "while": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nwhile c(1) {{ r(1)?; }} r(2) }}",
    "for": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nfor i in 0..2 {{ r(i)?; }} r(2) }}",
    "loop": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nloop {{ r(1)?; break; }} r(2) }}",
    "match": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nmatch r(1)? {{ _ => {{ r(2)?; }} }} r(2) }}",
    "unsafe": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nunsafe {{ r(1)?; }} r(2) }}",
    "return": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nreturn r(r(1)?); }}",
    "tail": "#[hooq]\nfn {n}() -> Result<i64, E> {{ sink(1);\n{A}\nr(r(1)?) }}",
    "closure": "#[hooq]\nfn {n}() -> Result<i64, E> {{ let f =\n{A}\n|q: i64| -> Result<i64, E> {{ r(q)?; r(3) }}; f(1) }}",
    "closure argument": "#[hooq]\nfn {n}() -> Result<i64, E> {{ sink(cr(\n{A}\n|q| -> Result<i64, E> {{ r(q)?; r(3) }})); r(1) }}",
    "array element": "#[hooq]\nfn {n}() -> Result<i64, E> {{ sink([p(0),\n{A}\nr(1)?]); r(2) }}",
    "field value": "#[hooq]\nfn {n}() -> Result<i64, E> {{ struct Q {{ a: i64 }} let q = Q {{\n{A}\na: r(1)? }}; r(q.a) }}",
    "tuple element": "#[hooq]\nfn {n}() -> Result<i64, E> {{ sink((p(0),\n{A}\nr(1)?)); r(2) }}",
    "parenthesis": "#[hooq]\nfn {n}() -> Result<i64, E> {{ sink((\n{A}\nr(1)?)); r(2) }}",
    "nested fn": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nfn inner() -> Result<i64, E> {{ r(r(1)?) }} inner() }}",
    "nested impl method": "#[hooq]\nfn {n}() -> Result<i64, E> {{ struct Q; impl Q {{\n{A}\nfn m(&self) -> Result<i64, E> {{ r(r(1)?) }} }} Q.m() }}",
    "nested const": "#[hooq]\nfn {n}() -> Result<i64, E> {{\n{A}\nconst K: fn() -> Result<i64, E> = || -> Result<i64, E> {{ r(r(1)?) }}; K() }}",
    "impl": "pub struct T{n};\n#[hooq]\n{A}\nimpl T{n} {{ pub fn m() -> Result<i64, E> {{ r(r(1)?) }} }}",
    "method": "pub struct T{n};\n#[hooq]\nimpl T{n} {{\n{A}\npub fn m() -> Result<i64, E> {{ r(r(1)?) }} }}",
    "associated const": "pub struct T{n};\n#[hooq]\nimpl T{n} {{\n{A}\npub const K: fn() -> Result<i64, E> = || -> Result<i64, E> {{ r(r(1)?) }}; }}",
    "trait": "#[hooq]\n{A}\npub trait T{n} {{ fn m(&self) -> Result<i64, E> {{ r(r(1)?) }} }}",
    "trait method": "#[hooq]\npub trait T{n} {{\n{A}\nfn m(&self) -> Result<i64, E> {{ r(r(1)?) }} }}",
    "mod": "#[hooq]\n{A}\nmod {n} {{ use super::*; pub fn f() -> Result<i64, E> {{ r(r(1)?) }} }}",
    "item in mod": "#[hooq]\nmod {n} {{ use super::*;\n{A}\npub fn f() -> Result<i64, E> {{ r(r(1)?) }} }}",
    "macro argument": "#[hooq]\nfn {n}() -> Result<i64, E> {{ sink(vec![p(0),\n{A}\nr(1)?]); r(2) }}",
    "item in macro": "#[hooq]\nfn {n}() -> Result<i64, E> {{ run! {{\n{A}\nfn inner() -> Result<i64, E> {{ r(r(1)?) }}\n}} r(2) }}",
    "second of two": "#[hooq]\n#[hooq::hook_targets(\"?\", \"return\", \"tail_expr\")]\n{A}\n#[hooq::b = 1]\n#[allow(unused)]\nfn {n}() -> Result<i64, E> {{ r(r(1)?) }}",
    "with a flavor": "#[hooq(uf1)]\n{A}\nfn {n}() -> Result<i64, E> {{ r(r(1)?) }}",
    "async": "#[hooq]\n{A}\nasync fn {n}() -> Result<i64, E> {{ r(r(1)?) }}",
    "async block": "#[hooq]\nfn {n}() -> Result<i64, E> {{ block_on(\n{A}\nasync {{ r(r(1)?) }}) }}",
    "under empty": "#[hooq(empty)]\nfn {n}() -> Result<i64, E> {{\n{A}\nlet a = r(1)?; r(a) }}",
    "under skip": "#[hooq]\n#[hooq::skip]\nfn {n}() -> Result<i64, E> {{\n{A}\nlet a = r(1)?; r(a) }}",
    "under skip_all": "#[hooq]\n#[hooq::skip_all]\nfn {n}() -> Result<i64, E> {{\n{A}\nlet a = r(1)?; r(a) }}",
    "deep": "#[hooq]\nfn {n}() -> Result<i64, E> {{ if c(1) {{ for i in 0..2 {{ match i {{ 0 => {{ let f = || -> Result<i64, E> {{ sink((\n{A}\nr(1)?,)); r(4) }}; f()?; }} _ => {{}} }} }} }} r(2) }}",
}
COLD = {"fn without targets", "under empty", "under skip", "under skip_all"}      # no hook is rendered there
# positions hooq does not look at: an attribute left there is the compiler's to refuse
FOREIGN = {
    "match arm": "#[hooq]\nfn {n}() -> Result<i64, E> {{ match c(1) {{\n{A}\ntrue => {{ r(1)?; }}\n_ => {{}} }} r(2) }}",
    "struct field": "#[hooq]\nfn {n}() -> Result<i64, E> {{ struct Q {{\n{A}\na: i64 }} r(2) }}",
    "variant": "#[hooq]\nfn {n}() -> Result<i64, E> {{ enum Q {{\n{A}\nA }} r(2) }}",
    "parameter": "#[hooq]\nfn {n}(\n{A}\nq: i64) -> Result<i64, E> {{ r(q) }}",
    "generic parameter": "#[hooq]\nfn {n}<\n{A}\nT>(q: T) -> Result<i64, E> {{ r(1) }}",
    "field pattern": "#[hooq]\nfn {n}() -> Result<i64, E> {{ let S {{\n{A}\na, .. }} = mk(1); r(a) }}",
}
FOREIGN_ATTRS = ["#[hooq::skip]", "#[hooq::skip_all]", "#[hooq::nosuch]", "#[hooq::hook_targets(\"?\")]", "#[hooq::method(.hk(|| String::new()))]", "#[hooq::method = uf1]", "#[hooq::x = 1]", "#[hooq::bindings = uf1]"]

# the root attribute
ROOT_OK = ["", "()", "(uf1)", "(uf1::inn)", '(flavor = "uf1")', '(flavor = "uf1::inn")', '(flavor = "uf1.inn")', "(trait_use(hrt::tr::T1))", "(trait_uses(hrt::tr::T1))", "(trait_uses())", "(uf1, trait_uses(hrt::tr::T1, hrt::tr::deep::T3))",
           "(trait_use(hrt::tr::T1,), uf1,)", "(trait_use(hrt::tr::T1), trait_use(hrt::tr::T2))", "(empty)", "(default)", "(uf2)"]
ROOT_BAD = [("(nosuch)", ("nosuch",)), ("(uf1::nosuch)", ("nosuch",)), ('(flavor = "nosuch")', ("nosuch",)), ('(flavor = "uf1.nosuch")', ("nosuch",)), ('(flavor = "")', ("empty", "flavor")), ('(flavor = "uf1..inn")', ("empty", "flavor")),
            ("(flavor = uf1)", (GENERIC, "flavor")), ("(flavor = 1)", (GENERIC,)), ("(flavor(uf1))", (GENERIC,)), ("(flavor)", ("flavor",)), ('(flavour = "uf1")', (GENERIC,)), ('(Flavor = "uf1")', (GENERIC,)), ('("uf1")', ("expected",)),
            ("(trait_usse(a::B))", (GENERIC,)), ("(trait_use)", ("trait_use",)), ("(trait_use = a)", (GENERIC,)), ('(trait_use("a"))', ("expected",)), ("(trait_use(a b))", ("expected",)), ("(trait_use(1))", ("expected",)), ("(trait_use(a;))", ("expected",)),
            ("(uf1 uf2)", ("expected",)), ("(uf1; uf2)", ("expected",)), ("(1)", ("expected",)), ("(,)", ("expected",)), ("(uf1,,)", ("expected",)), ("(method(.x()))", (GENERIC,)), ('(hook_targets("?"))', (GENERIC,)), ("(skip)", ("skip",)),
            ("(trait_use(a::B), nosuch)", ("nosuch",)), ("(uf1(inn))", (GENERIC,)), ('(uf1 = "inn")', (GENERIC,)), ('(flavor = b"uf1")', (GENERIC,)), ('(flavor == "uf1")', ("expected",)), ("(!uf1)", ("expected",)), ("(uf1.inn)", ("expected",)),
            ("(bindings(a = 1))", (GENERIC,)), ("(crate)", ("crate",)), ("(trait_use(fn))", ("expected",)), ("(trait_use(a::))", ("expected",)), ("(trait_use[a::B b])", ("expected",)), ("(flavor = \"uf1\" \"uf2\")", ("expected",))]
ROOT_ITEMS = ["fn {n}() -> Result<i64, E> {{ r(r(1)?) }}", "pub struct T{n};\n{R}\nimpl T{n} {{ pub fn m() -> Result<i64, E> {{ r(r(1)?) }} }}", "pub trait T{n} {{ fn m(&self) -> Result<i64, E> {{ r(r(1)?) }} }}", "mod {n} {{ use super::*; pub fn f() -> Result<i64, E> {{ r(r(1)?) }} }}",
              "fn {n}() {{}}", "async fn {n}() -> Result<i64, E> {{ r(r(1)?) }}"]

HEAD = "#![allow(warnings)]\nuse hrt::*;\nuse hooq::hooq;\n"


class Item:
    def __init__(self, text, ok, hints, what, cold=False):
        self.text, self.ok, self.hints, self.what, self.cold = text, ok, hints, what, cold


def attr_items(r, n):
    out = []
    names = list(POS)

    def add(pos, c):
        cold = pos in COLD
        is_method = c.text.startswith("#[hooq::method(")
        ok, hints = c.ok, c.hints
        if not ok and is_method and cold:
            return                  # the text of a method is looked at only where it is applied
        out.append(Item(POS[pos].format(A=c.text, n="i%d" % len(out)), ok, hints, "%s at %s: %s" % (c.label, pos, c.text), cold))
    # every position sees every kind of mistake once
    for pos in names:
        for s in SETTINGS:
            for form in (["path"] if s not in ("skip", "skip_all") else []) + (["()", "(1)"] if s in ("skip", "skip_all", "flavor", "bindings", "binding", "var", "hook_in_macros") else []) + ([" = 1", " = nosuch"] if s != "method" else [" = 1"]):
                f = "" if form == "path" else form
                add(pos, Case("#[hooq::%s%s]" % (s, f), False, (GENERIC, s, "FLAVOR_NAME", "nosuch", "expected"), s + " form"))
        for m, h in METHODS_BAD:
            if r.random() < 0.25:
                add(pos, Case("#[hooq::method(%s)]" % m, False, h, "method"))
    while len(out) < n:
        add(r.choice(names), make(r))
    # the controls: what must not be reported
    return out


def combos(r, n):
    """One wrong attribute among right ones on the same node."""
    out = []
    while len(out) < n:
        cs = [make(r) for _ in range(r.randint(2, 4))]
        bad = [c for c in cs if not c.ok]
        if len(bad) > 1 or any(c.label == "method" and not c.ok for c in cs):
            continue
        if any("::hooq" in c.text and c.ok for c in cs) or sum(c.text.startswith("#[hooq::method") for c in cs) > 1:
            continue
        pos = r.choice(list(POS))
        out.append(Item(POS[pos].format(A="\n".join(c.text for c in cs), n="i%d" % len(out)), not bad, bad[0].hints if bad else (), "combination at %s: %s" % (pos, " ".join(c.text for c in cs)), pos in COLD))
    return out


def root_items(r):
    out = []
    for args, h in ROOT_BAD:
        for it in ROOT_ITEMS:
            n = "i%d" % len(out)
            root = "#[hooq%s]" % args
            t = it.format(n=n, R=root)
            out.append(Item(t if root in t else root + "\n" + t, False, h, "root attribute " + root))
    for args in ROOT_OK:
        for it in ROOT_ITEMS:
            n = "i%d" % len(out)
            root = "#[hooq%s]" % args
            t = it.format(n=n, R=root)
            out.append(Item(t if root in t else root + "\n" + t, True, (), "root attribute " + root))
    return out


def soup(r, n):
    """Methods of random tokens: whatever they mean, never a panic; a name that does not exist is reported."""
    T = [".", ".", "hk", "(", "[", "{", "$line", "$expr", "$source", "$count", "$bindings", "$hooq_meta", "$so_far", "$bb", "||", "|", "x", "fn", "let", "=", ";", ",", "?", "!", "&", "*", "+", "-", "1", "2.5", '"s"', "'c'", "'a", "as", "i64", "::", "<", ">", "#", "@", "..", "=>", "->", "return", "match", "if", "else", "await", "async", "move", "_", "Err", "Ok", "$nosuch", "$ ", "self", "unsafe", "const", "loop", "while", "r#x", "0x1", "b'c'", "$$", "%"]
    out = []
    pos = [p for p in POS if p not in COLD]
    while len(out) < n:
        ts, st = [], []
        for _ in range(r.randint(1, 14)):
            t = r.choice(T)
            ts.append(t)
            if t in "([{":
                st.append({"(": ")", "[": "]", "{": "}"}[t])
            elif st and r.random() < 0.35:
                ts.append(st.pop())
        ts += reversed(st)
        if r.random() < 0.6:
            ts = [".", "hk", "(", "||"] + ts + [")"] if r.random() < 0.5 else ["hrt::hkf", "(", "$expr", ",", "||"] + ts + [")"]
        t = " ".join(ts)
        p = r.choice(pos)
        i = Item(POS[p].format(A="#[hooq::method(%s)]" % t, n="i%d" % len(out)), None, (), "random method at %s: %s" % (p, t))
        if "$nosuch" in t and "?" not in t:
            # reported, or something before it is
            i.ok, i.hints = False, ()
        out.append(i)
    return out


# ---------------------------------------------------------------- compiling
KEEP = object()        # leave the project as it lies there


def compile_items(h, wd, name, items, toml=TOML):
    """[(item, [diagnostics of that item])], [diagnostics without a place], panics"""
    d = os.path.join(wd, name)
    if toml is not KEEP:
        build.project(d, toml)
    src = [HEAD]
    line = HEAD.count("\n") + 1
    spans = []
    for it in items:
        t = it.text + "\n"
        spans.append((line, line + t.count("\n")))
        line += t.count("\n")
        src.append(t)
    src.append("fn main() {}\n")
    with open(os.path.join(d, "gen.rs"), "w") as f:
        f.write("".join(src))
    cmd = ["rustc", "--edition", "2024", "-A", "warnings", "--cap-lints", "allow", "--error-format=json"] + h.extern(build.EXT)
    cmd += ["-Zunpretty=expanded", "gen.rs"]
    e = build.env({"CARGO_MANIFEST_DIR": d, "RUSTC_BOOTSTRAP": "1"})
    try:
        p = build.spawn(cmd, d, e, 400)
    except build.Crashed as x:
        raise Violation("the compiler crashes on a hooq input", "%s\n%s" % (x, open(os.path.join(d, "gen.rs")).read()[-4000:]), [os.path.join(d, "gen.rs"), os.path.join(d, "hooq.toml")])
    err = p.stderr.decode("utf-8", "replace")
    per = [[] for _ in items]
    loose, panics = [], []
    for l in err.splitlines():
        if not l.startswith("{"):
            if "panicked" in l:
                panics.append(l)
            continue
        x = json.loads(l)
        if not x["level"].startswith("error") or x["message"].startswith(("aborting due to", "could not compile")):
            continue
        if "panicked" in x["message"] or "internal compiler error" in x["message"]:
            panics.append(x["rendered"])
        lines = [s["line_start"] for q in x.get("spans", []) if q["is_primary"] for s in chain(q) if s["file_name"] == "gen.rs"]
        hit = False
        for i, (a, b) in enumerate(spans):
            if any(a <= y < b for y in lines):
                per[i].append(x)
                hit = True
        if not hit:
            loose.append(x)
    return per, loose, panics, os.path.join(d, "gen.rs")


def text_of(d):
    return "\n".join([d["message"]] + [s.get("label") or "" for s in d.get("spans", [])] + [c["message"] for c in d.get("children", [])])


def judge(items, per, loose, panics, path, st, vs, toml=None):
    def bad(what, detail):
        if sum(v.what == what for v in vs) < 3:
            vs.append(Violation(what, detail, [path]))
    for p in panics:
        who = [it.what for it, ds in zip(items, per) if any("panicked" in d["message"] for d in ds)]
        bad("hooq panics on an input", "\n".join(who[:5]) + "\n" + p)
    for it, ds in zip(items, per):
        own = [d for d in ds if not (d.get("code") or {}).get("code")]
        st["inputs"] += 1
        st["diagnostics"] += len(ds)
        if it.ok is None:
            st["inputs without verdict"] += 1
            continue
        if it.ok:
            st["valid inputs"] += 1
            if own:
                bad("a valid input is rejected", it.what + "\n" + own[0]["rendered"] + "\n" + it.text)
            continue
        st["invalid inputs"] += 1
        if not ds:
            bad("an invalid input is silently accepted", it.what + "\n" + it.text + ("\n---- hooq.toml\n" + toml if toml else ""))
        elif it.hints and not any(h in text_of(d) or d["message"].startswith(("cannot find", "attributes on expressions")) for d in ds for h in it.hints):
            bad("the report of an invalid input does not mention what is wrong", it.what + "\nexpected one of %s\n" % (it.hints,) + "\n".join(d["rendered"] for d in ds[:3]) + it.text + ("\n---- hooq.toml\n" + toml if toml else ""))
        else:
            st["messages:" + re.sub(r"`[^`]*`|\d+|\"[^\"]*\"", "_", (ds[0]["message"].split("\n")[0]))[:60]] += 1
    for d in loose:
        if not d.get("code") or not d["code"].get("code"):
            bad("a report has no place in the user's source", d["rendered"])


# ---------------------------------------------------------------- hooq.toml
KEYS = {"trait_uses": "strs", "method": "str", "hook_targets": "strs", "tail_expr_idents": "strs", "ignore_tail_expr_idents": "strs", "result_types": "strs", "hook_in_macros": "bool", "bindings": "table"}
GOODV = {"trait_uses": '["hrt::tr::T1"]', "method": '".hk(|| String::new())"', "hook_targets": '["?"]', "tail_expr_idents": '["Err", "!Ok"]', "ignore_tail_expr_idents": '["Ok"]', "result_types": '["Result"]', "hook_in_macros": "true", "bindings": '{ a = "1" }'}
WRONG = {"strs": ["1", "true", '"x"', "[1]", '["a", 2]', "{ a = \"b\" }", "[[\"a\"]]", "1.5", "1979-05-27", "[true]"], "str": ["1", "true", '["x"]', "{ a = \"b\" }", "1.5", "1979-05-27"],
         "bool": ["1", '"true"', '"false"', "0", "[true]", "{ a = \"b\" }", "1.0"], "table": ["1", "true", '"x"', '["x"]', "{ a = 1 }", "{ a = true }", '{ a = ["1"] }', "{ a = { b = \"1\" } }", "{ a = 1.5 }"]}
BADV = {"trait_uses": [('["a b"]', "trait_uses"), ('["a::"]', "trait_uses"), ('[""]', "trait_uses"), ('["hrt::tr::T1", "1"]', "trait_uses"), ('["a as b"]', "trait_uses"), ('["a;"]', "trait_uses"), ('["a, b"]', "trait_uses"), ('["{a}"]', "trait_uses"), ('["("]', "trait_uses"), ('["*"]', "trait_uses")],
        "method": [('".foo("', "method"), ('".foo)"', "method"), ("'''.foo(\"'''", "method"), ('".a(\'"', "method"), ('"{"', "method"), ('"/*"', "method"), ('"]"', "method"), ("'''.hk(|| \"a''b)'''", "method")],
        "hook_targets": [('["??"]', "??"), ('["?", "retrun"]', "retrun"), ('[""]', "hook_targets"), ('["Return"]', "Return"), ('["tail"]', "tail"), ('["return", " ?"]', "hook_targets"), ('["none"]', "none")],
        "tail_expr_idents": [('["a::b"]', "a::b"), ('[""]', "identifier"), ('["Err", "!"]', "identifier"), ('["!a::b"]', "a::b"), ('["Err "]', "Err "), ('["Ok()"]', "Ok()")],
        "ignore_tail_expr_idents": [('["a::b"]', "a::b"), ('[""]', "identifier"), ('["!Ok"]', "!Ok"), ('["a b"]', "a b")],
        "result_types": [('["std::io::Result"]', "std::io::Result"), ('["Result<T>"]', "Result<T>"), ('[""]', "identifier"), ('["!Result"]', "!Result"), ('["&str"]', "&str")],
        "bindings": [('{ a = "" }', "bindings"), ('{ a = "1 +" }', "bindings"), ('{ a = "(" }', "bindings"), ('{ b = "1", a = "x y" }', "bindings"), ('{ a = "= 1" }', "bindings"), ('{ a = "let x = 1;" }', "bindings"), ('{ a = "$line" }', "bindings"), ('{ a = "\\"" }', "bindings")],
        "hook_in_macros": []}
BADSYN = ["[uf", "[uf]]", "uf = ", "[uf]\nmethod = .x", "[uf]\nmethod = \"a\"\nmethod = \"b\"\n", "[uf]\n[uf]\n", "[uf]\nmethod \".x()\"", "= 1", "[uf]\nhook_targets = [\"?\"\n[x]", "[uf]\nmethod = 'a\nb'", "[]\n", "[uf.]\n", "[a]\nb = { c = 1,, }", "\ufffd", "[uf]\nmethod = \"\\q\"", "[[uf]]\nmethod = \".x()\"", "uf = [1]", "uf = \"x\"", "method = \".x()\"", "hook_targets = [\"?\"]", "hook_in_macros = true"]


def toml_cases(r, tier):
    """(what, toml text or bytes, hints); every one is wrong in exactly one place."""
    out = []
    where = ["uf", "uf.sub", "uf.sub.subsub", "default", "log", "log.warn", "anyhow", "zz.\"a-b\""]

    def table(w, body):
        return "[%s]\n%s\n" % (w, body)

    def pad():
        return r.choice(["", "", "[other]\nmethod = \".x()\"\n", "[aaa]\nhook_in_macros = false\n[aaa.bindings]\nx = \"1\"\n", "# c\n"])

    def add(what, t, hints):
        if isinstance(t, str):
            t = (pad() + t + "\n" + r.choice(["", "[zzz]\nresult_types = [\"R\"]\n"])) if not t.startswith(("=", "method", "hook", "uf =", "\ufffd")) else t
        out.append((what, t, hints))
    for k, ty in KEYS.items():
        for v in WRONG[ty]:
            add("%s of the wrong type" % k, table(r.choice(where), "%s = %s" % (k, v)), ("invalid type", "expected", k))
        for v, hint in BADV[k]:
            add("bad value for %s" % k, table(r.choice(where), "%s = %s" % (k, v)), (hint,))
        for _ in range(4 if tier == "quick" else 20):
            t = typo(r, k)
            if t in KEYS or ty == "table" and True:
                continue
            w = r.choice(where)
            others = r.sample([x for x in KEYS if x != k], r.randint(0, 3))
            body = ["%s = %s" % (t, GOODV[k])] + ["%s = %s" % (x, GOODV[x]) for x in others]
            r.shuffle(body)
            add("unknown key %s" % t, table(w, "\n".join(body)), ("invalid type", "expected", "unknown"))
        t = typo(r, "bindings")
        add("unknown key %s" % t, table(r.choice(where), '%s = { a = "1" }' % t), ("invalid type", "expected", "unknown"))
    for w in WORDS:
        body = r.choice(['["%s"]', '["?", "%s"]', '["%s", "return"]', '["all", "%s"]']) % w
        add("unknown target " + w, table(r.choice(where), "hook_targets = " + body), (w.strip(), "hook_targets"))
    for t in BADSYN:
        add("not a hooq.toml: %r" % t, t, ("toml", "expected", "invalid", "parse"))
    add("empty is not to be overridden", "[empty]\nmethod = \".x()\"", ("empty",))
    add("empty is not to be overridden (alone)", "[empty]", ("empty",))
    add("empty is not to be overridden (sub)", "[empty.sub]\nhook_in_macros = true", ("empty",))
    add("nameless flavor", '[""]\nmethod = ".x()"', ("empty",))
    add("nameless sub flavor", '[uf.""]\nmethod = ".x()"', ("empty",))
    add("not UTF-8", b"[uf]\nmethod = \"\xff\xfe\"\n", ("hooq.toml",))
    add("a directory", None, ("hooq.toml",))
    return out


TOML_ITEMS = [
    Item("#[hooq]\nfn i0() -> Result<i64, E> { r(r(1)?) }", False, (), "item"),
    Item("#[hooq(empty)]\nfn i1() {}", False, (), "item"),
    Item("#[hooq(log)]\npub trait Ti2 { fn m(&self) -> Result<i64, E> { r(r(1)?) } }", False, (), "item"),
]

# method texts that are only seen to be wrong where they are applied
TOML_METHODS = [(m, h) for m, h in METHODS_BAD if '"' not in m and "'" not in m]


def spellings():
    """Pairs that mean the same; positions are kept equal by a common length of the varying line."""
    out = []
    fn = "%s\nfn f() -> Result<i64, E> { let a = r(1)?; sink(vec![o(r(2)?)]); if c(2) { return Err(E(1)); } Ok(r(a)?) }"

    def eq(a, b, body=fn):
        out.append((body % a, body % b))
    M = "#[hooq::method(.hk(|| String::new()))] "
    for xs in (['"?"', '"question"'], ['"tail_expr"', '"tail expr"', '"tailexpr"', '"tailExpr"'], ['"all"', '"?", "return", "tail_expr"', '"tail_expr", "return", "?"', '"all", "?"', '"return", "return", "tailExpr", "question",']):
        for x in xs[1:]:
            eq("#[hooq] #[hooq::hook_targets(%s)]" % xs[0], "#[hooq] #[hooq::hook_targets(%s)]" % x)
    eq("#[hooq(trait_use(hrt::tr::T1))]", "#[hooq(trait_uses(hrt::tr::T1))]")
    eq("#[hooq(trait_uses(hrt::tr::T1, hrt::tr::T2))]", "#[hooq(trait_use(hrt::tr::T1), trait_use(hrt::tr::T2,))]")
    eq("#[hooq]", "#[hooq()]")
    eq("#[hooq]", "#[hooq(default)]")
    eq("#[hooq]", '#[hooq(flavor = "default")]')
    for a, b in (("uf1", 'flavor = "uf1"'), ("uf1::inn", 'flavor = "uf1.inn"'), ("uf1::inn", 'flavor = "uf1::inn"'), ("uf2", 'uf2,')):
        eq("#[hooq(%s)]" % a, "#[hooq(%s)]" % b)
    for s in FLAVORED:
        for a, b in (("uf2", '"uf2"'), ("uf1::inn", '"uf1::inn"'), ("uf1::inn", '"uf1.inn"')):
            eq("#[hooq] #[hooq::%s = %s]" % (s, a), "#[hooq] #[hooq::%s = %s]" % (s, b))
    for v in ("1", '"s"', "a::b(2) + 1", "|x| x"):
        for f in ("#[hooq::binding(kk = %s)]", "#[hooq::var(kk = %s)]"):
            eq("#[hooq] #[hooq::method(.hk(|| { $kk; hrt::meta_bindings(&$bindings) }))] #[hooq::kk = %s]" % v, "#[hooq] #[hooq::method(.hk(|| { $kk; hrt::meta_bindings(&$bindings) }))] " + f % v)
    eq('#[hooq] #[hooq::tail_expr_idents("Err", "!Ok")]', '#[hooq] #[hooq::tail_expr_idents("Err")] #[hooq::ignore_tail_expr_idents("Ok")]')
    eq('#[hooq] #[hooq::tail_expr_idents("Err", "!Ok", "!x")]', '#[hooq] #[hooq::ignore_tail_expr_idents("Ok")] #[hooq::tail_expr_idents("!x", "Err")]')
    eq('#[hooq] #[hooq::tail_expr_idents("Err")]', '#[hooq] #[hooq::tail_expr_idents("Err",)]')
    eq('#[hooq] #[hooq::result_types("Result", "Option")]', '#[hooq] #[hooq::result_types("Option", "Result",)]')
    for a, b in (("col", "column"), ("count", "nth"), ("fn_name", "fnname"), ("fn_sig", "fnsig"), ("bindings", "vars"), ("hooq_meta", "hooqmeta")):
        eq("#[hooq] #[hooq::a = 1] #[hooq::method(.hk(|| { let q = $%s; String::new() }))]" % a, "#[hooq] #[hooq::a = 1] #[hooq::method(.hk(|| { let q = $%s; String::new() }))]" % b)
    eq("#[hooq(uf1)] #[hooq::method($so_far.hk(|| String::new()))]".replace("$so_far.", ".hk(|| String::new()).") + "", "#[hooq(uf1)] #[hooq::method(.hk(|| String::new()).hk(|| String::new()))]")
    eq("#[hooq(uf1)] #[hooq::method(.$so_far.hk(|| 1.to_string()))]", "#[hooq(uf1)] #[hooq::method(.$sofar.hk(|| 1.to_string()))]")
    return out


def toml_spellings():
    """Settings in hooq.toml that mean the same as attributes or as each other."""
    fl = '[uf]\nmethod = ".hk(|| String::new())"\n'
    P = []
    for a, b in (('hook_targets = ["?"]', 'hook_targets = ["question"]'), ('hook_targets = ["tail_expr"]', 'hook_targets = ["tailExpr"]'), ('hook_targets = ["tail expr", "return"]', 'hook_targets = ["return", "tailexpr"]'),
                 ('hook_targets = ["all"]', 'hook_targets = ["?", "return", "tail_expr"]'), ('hook_targets = ["all"]', ""), ('tail_expr_idents = ["Err", "!Ok"]', 'tail_expr_idents = ["Err"]\nignore_tail_expr_idents = ["Ok"]'),
                 ('tail_expr_idents = ["Err"]', ""), ('result_types = ["Result"]', ""), ("hook_in_macros = true", ""), ('ignore_tail_expr_idents = ["Ok"]', ""), ("trait_uses = []", ""), ("bindings = {}", ""),
                 ('bindings = { a = "1" }', '[uf.bindings]\na = "1"'), ('bindings.a = "1"', 'bindings = { a = "1" }')):
        P.append((fl + a, fl + b))
    return P


def expand_all(h, wd, name, sources, toml=TOML):
    """Expanded text of every source, each compiled alone under the same file name."""
    def one(i):
        t, tm = sources[i]
        d = os.path.join(wd, "%s%d" % (name, i))
        build.project(d, tm)
        with open(os.path.join(d, "gen.rs"), "w") as f:
            f.write("#![allow(warnings)]\nuse hrt::*;\nuse hooq::hooq;\n" + t + "\nfn main() {}\n")
        try:
            p = build.spawn(["rustc", "--edition", "2024", "-A", "warnings", "--cap-lints", "allow"] + h.extern(build.EXT) + ["-Zunpretty=expanded", "gen.rs"], d,
                            build.env({"CARGO_MANIFEST_DIR": d, "RUSTC_BOOTSTRAP": "1"}), 300)
        except build.Crashed as x:
            raise Violation("the compiler crashes on a hooq input", "%s\n%s\n---- hooq.toml\n%s" % (t, x, tm), [])
        shutil.rmtree(d, ignore_errors=True)
        return p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(sources))))


def run(tier, seed):
    q = tier == "quick"
    r = random.Random("C18/%s" % seed)
    h = build.harness()
    wd = os.path.join(build.BUILD, "w", "C18-%s-%d" % (seed, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        return explore(r, h, wd, tier)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def explore(r, h, wd, tier):
    q = tier == "quick"
    st = collections.Counter()
    vs = []
    distinct = set()
    groups = []

    def shards(items, per=250):
        # renumber so that names are unique within a file
        for i in range(0, len(items), per):
            groups.append(items[i:i + per])
    shards(attr_items(r, 5000 if q else 60000))
    shards(combos(r, 600 if q else 8000))
    shards(root_items(r), 200)
    shards(soup(r, 1200 if q else 20000))
    foreign = [Item(POSF.format(A=a, n="i%d" % k), False, ("hooq", "skip", "expected", "cannot find", "macro", "attribute"), "%s at %s" % (a, w))
               for k, (w, POSF, a) in enumerate((w, t, a) for w, t in FOREIGN.items() for a in FOREIGN_ATTRS)]
    shards(foreign, 80)
    keep = os.path.join(build.BUILD, "replay-src")
    os.makedirs(keep, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda i: compile_items(h, wd, "g%d" % i, groups[i]), range(len(groups))))
    for i, (g, (per, loose, panics, path)) in enumerate(zip(groups, res)):
        n = len(vs)
        judge(g, per, loose, panics, path, st, vs)
        if len(vs) > n:
            k = shutil.copy(path, os.path.join(keep, "C18-%d.rs" % i))
            for v in vs[n:]:
                v.files = [k]
        distinct |= {it.what for it in g}
    # ------------------------------------------------ hooq.toml, one project each
    cases = toml_cases(r, tier)

    def one(i):
        what, t, hints = cases[i]
        name = "t%d" % i
        d = os.path.join(wd, name)
        build.project(d)
        items = [Item(x.text, False, hints, what) for x in TOML_ITEMS]
        p = os.path.join(d, "hooq.toml")
        if t is None:
            os.makedirs(p)
        else:
            with open(p, "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode())
        return items, compile_items(h, wd, name, items, KEEP), t
    with ThreadPoolExecutor(8) as ex:
        for items, (per, loose, panics, path), t in ex.map(one, range(len(cases))):
            st["configurations"] += 1
            judge(items, per, loose, panics, path, st, vs, toml=t if isinstance(t, str) else repr(t))
            distinct.add(t)

    # method texts from hooq.toml, seen to be wrong where they are applied
    def two(i):
        m, hints = TOML_METHODS[i]
        name = "m%d" % i
        toml = "[uf]\nmethod = '''%s'''\n" % m
        items = [Item("#[hooq(uf)]\nfn i0() -> Result<i64, E> { let a = r(1)?; r(a) }", False, hints, "hooq.toml method " + m),
                 Item("#[hooq]\nfn i1() -> Result<i64, E> { #[hooq::method(.hk(|| String::new()))] let a = r(1)?;\n#[hooq::flavor = uf] if c(2) { return r(3); }\n Ok(a) }", False, hints, "hooq.toml method " + m),
                 Item("#[hooq]\nfn i2() -> Result<i64, E> {\n#[hooq::method = uf]\nr(1)?; Ok(2) }", False, hints, "hooq.toml method " + m),
                 Item("#[hooq(empty)]\nfn i3() -> Result<i64, E> { r(r(1)?) }", True, (), "an unused hooq.toml method " + m)]
        return items, compile_items(h, wd, name, items, toml), toml
    with ThreadPoolExecutor(8) as ex:
        for items, (per, loose, panics, path), t in ex.map(two, range(len(TOML_METHODS))):
            st["configurations"] += 1
            judge(items, per, loose, panics, path, st, vs, toml=t)

    # valid configurations must be taken as a whole
    def three(i):
        rr = random.Random("%s/%d" % (r0, i))
        t = Tree(rr)
        items = [Item("#[hooq(empty)]\nfn i0() {}", True, (), "a valid hooq.toml")]
        items += [Item("#[hooq(flavor = \"%s\")]\nfn i%d() -> Result<i64, E> { r(1)?; r(2) }" % (n, k + 1), True, (), "flavor " + n) for k, (n, _) in enumerate(t.all)]
        items += [Item("#[hooq(empty)]\n#[hooq::bindings = \"%s\"]\n#[hooq::hook_targets = \"%s\"]\nfn j%d() {}" % (n, n, k), True, (), "flavor " + n) for k, (n, _) in enumerate(t.all)]
        have = {n for n, _ in t.all} | {"anyhow", "eyre", "color_eyre", "tracing", "default"}
        for k, (n, _) in enumerate(t.all[:8]):
            b = n + "." + rr.choice(["nosuch", "x9", "empty"])
            if b not in have and not n.startswith(("anyhow", "eyre", "color_eyre", "tracing", "default")):
                items.append(Item("#[hooq(flavor = \"%s\")]\nfn k%d() {}" % (b, k), False, (b.split(".")[-1],), "flavor " + b))
        return items, compile_items(h, wd, "v%d" % i, items, t.text), t.text
    r0 = r.random()
    with ThreadPoolExecutor(8) as ex:
        for items, (per, loose, panics, path), t in ex.map(three, range(24 if q else 400)):
            st["configurations"] += 1
            judge(items, per, loose, panics, path, st, vs, toml=t)

    # spellings
    pairs = [(a, TOML, b, TOML) for a, b in spellings()]
    fn = "#[hooq(uf)]\nfn f() -> Result<i64, E> { let a = r(1)?; sink(vec![o(r(2)?)]); if c(2) { return Err(E(1)); } Ok(r(a)?) }"
    pairs += [(fn, a, fn, b) for a, b in toml_spellings()]
    src = [x for a, ta, b, tb in pairs for x in ((a, ta), (b, tb))]
    out = expand_all(h, wd, "e", src)
    for i, (a, ta, b, tb) in enumerate(pairs):
        (oa, ea), (ob, eb) = out[2 * i], out[2 * i + 1]
        st["spellings compared"] += 1
        for t, tm, e in ((a, ta, ea), (b, tb, eb)):
            hard = [l for l in e.splitlines() if l.startswith("error") and not l.startswith(("error[", "error: aborting"))]
            if hard:
                vs.append(Violation("a documented spelling is rejected", "%s\n%s\n---- hooq.toml\n%s" % (t, e[:1500], tm), []))
                break
        else:
            if not oa.strip() or "fn f" not in oa:
                raise Inconclusive("nothing was expanded: " + ea[-500:])
            st["spellings that hook"] += ".hk(" in oa or "hkf(" in oa
            if norm(oa) != norm(ob):
                vs.append(Violation("two documented spellings of one setting differ", "%s\n%s\n---- first\n%s\n---- second\n%s\n---- hooq.toml\n%s\n%s" % (a, b, oa, ob, ta, tb if tb != ta else ""), []))
    cov = {"evaluations": st["inputs"] + st["spellings compared"], "distinct_nontrivial": len(distinct),
           "rule": "an input (attribute at a position, method text, hooq.toml) compiled and judged by the diagnostics its item got; "
                   "distinct = different inputs or positions",
           "samples": [{"input": it.what, "valid": it.ok} for it in (groups[0][3], groups[0][200], groups[5][7], groups[-2][3])],
           "messages": {k[9:]: v for k, v in st.most_common() if k.startswith("messages:")}, "positions": len(POS) + len(FOREIGN)}
    cov.update({k.replace(" ", "_"): v for k, v in st.items() if not k.startswith("messages:")})
    return cov, vs, st["invalid inputs"] > 1000 and st["valid inputs"] > 500 and st["spellings that hook"] > 20


def norm(t):
    """Positions on the attribute's own line are of no interest."""
    return re.sub(r"\s+", " ", t)
