"""C14: source excerpts of random expressions against what the source text says."""
import collections
import os
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

from . import build, diff, excerpt
from .build import Inconclusive
from .excerpt import NOCUT

WORDS = ["alpha", "βeta", "x", "the quick brown fox", "日本語のテキスト", "🦀🦀", "a,b;c", "path/to", "'q'", "// no", "/* no */", "{v}", "12345678901", "é", "tail."]
IDS = ["a", "foo", "bar_baz", "x1", "r#type", "データ", "self", "_q", "Vec", "S"]


class Ex:
    """Lexemes of a random expression."""

    def __init__(self, rng, strs=0.35, multi=True, macros=True):
        self.r, self.strs, self.multi, self.macros = rng, strs, multi, macros
        self.nstr = 0

    def string(self, short=False):
        r = self.r
        self.nstr += 1
        v = ""
        n = r.choice([0, 1, 2, 3, 9, 10, 11, 12, 20, 35, 60])
        if short:
            n = r.choice([0, 1, 2])
        while len(v) < n:
            v += r.choice(WORDS) + r.choice(["", " ", "."])
        v = v[:n] if r.random() < 0.5 or short else v
        k = r.random()
        if k < 0.15 and '"' not in v and not short:
            h = "#" * r.randint(0, 2)
            if r.random() < 0.4 and h:
                v = v[:3] + '"' + v[3:] + "\\d"
            if r.random() < 0.3 and self.multi:
                v = v + "\n   " + v[:14]
            return 'r%s"%s"%s' % (h, v, h)
        if k < 0.30 and not short:
            v = v[:4] + r.choice(["\\n", "\\\"", "\\\\", "\\t", "\\n\\n", "\\'"]) + v[4:]
        elif k < 0.36 and not short:
            v = v[:4] + r.choice(["\\x41", "\\u{e9}", "\\u{1F980}", "\\0"]) + v[4:]
        elif k < 0.46 and self.multi and not short:
            v = v[:6] + r.choice(["\n", "\n    ", "\\\n      ", "\n\n"]) + v[6:] + r.choice(["", "\n", "\n  é"])
        return '"%s"' % v

    def lit(self):
        r = self.r
        if r.random() < self.strs:
            return [self.string()]
        return [r.choice(["1", "42u8", "0xff_u16", "1.5e-3", "2.0f32", "'c'", "'\\''", "'\\u{1F980}'", "b'x'", 'b"bytes that are long enough"', "true", 'c"cstr"', "'日'", 'br#"raw " bytes"#', "1_000i128"])]

    def id(self):
        return self.r.choice(IDS)

    def path(self):
        r = self.r
        return r.choice([[self.id()], [self.id()], [self.id()], ["std", "::", "mem", "::", "swap"], ["Vec", "::", "<", "u8", ">", "::", "new"], ["S", "::", "f"], ["<", "T", "as", "Q", ">", "::", "x"]])

    def ty(self):
        return self.r.choice([["u8"], ["Vec", "<", "Vec", "<", "u8", ">>"], ["&", "'a", "str"], ["(", "i64", ",", "T", ")"], ["Result", "<", "(", ")", ",", "E", ">"], ["[", "u8", ";", "3", "]"], ["fn", "(", "u8", ")", "->", "u8"]])

    def args(self, d):
        r = self.r
        o = ["("]
        n = r.choice([0, 1, 1, 2, 3, 4])
        for i in range(n):
            o += (self.e(d - 1) if i else self.e(d - 1)) + ([","] if i < n - 1 or r.random() < 0.15 else [])
        return o + [")"]

    def at(self, d):
        """an operand"""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            return self.lit() if r.random() < 0.6 else [self.id()]
        if k < 0.5:
            return self.path() + self.args(d)
        if k < 0.6:
            return ["("] + self.e(d - 1) + [")"]
        if k < 0.7:
            o = ["["]
            for _ in range(r.choice([0, 1, 2, 3, 5])):
                o += self.e(d - 1) + [","]
            return o + ["]"]
        if k < 0.75:
            return ["("] + self.e(d - 1) + [","] + self.e(d - 1) + [")"]
        if k < 0.8 and self.macros:
            a, b = r.choice(["()", "[]", "{}"])
            m = [r.choice(["vec", "format", "std::mac", "m"]), "!", a]
            for i in range(r.choice([0, 1, 2])):
                m += ([","] if i else []) + r.choice([self.mtoks(), [self.string(True)], ["a", "=>", "$", "b"]])
            return m + [b]
        return ["("] + self.e(d - 1) + [")"]

    def mtoks(self):
        return self.r.choice([["1", "+", "x"], ["a", "b", "c"], ["..", "=>", "<-"], ["'", "a"][:0] + ["'a"], ["f", "(", "x", ")", "?"], ["#", "[", "z", "]"]])

    def post(self, d):
        r = self.r
        o = self.at(d)
        if d <= 0:
            return o
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            k = r.random()
            if k < 0.35:
                o += [".", self.id().replace("self", "go")] + (["::", "<"] + self.ty() + [">"] if r.random() < 0.15 else []) + self.args(d - 1)
            elif k < 0.55:
                o += ["?"]
            elif k < 0.7:
                o += [".", r.choice(["field", "0", "1", "await", "名"])]
                if o[0] and len(o) > 2 and (o[-3][0].isdigit()):
                    o = ["("] + o[:-2] + [")"] + o[-2:]
            elif k < 0.8:
                o += ["["] + self.e(d - 1) + ["]"]
            elif k < 0.9:
                o = ["("] + o + [")"] + self.args(d - 1)
            else:
                o += [".", "0", ".", "1"] if r.random() < 0.5 else ["."] + ["0.1"]
                if len(o) > 2 and o[0][0].isdigit():
                    o = ["t"] + o[o.index("."):]
        return o

    def block(self, d):
        r = self.r
        o = ["{"]
        for _ in range(r.choice([0, 0, 1, 2])):
            o += r.choice([["let", r.choice(["x", "mut", "_"]), "=" ] if False else ["let", "x", "="] + self.e(d - 1) + [";"],
                           self.post(d - 1) + [";"], ["fn", "inner", "<", "'a", ">", "(", ")", "->"] + self.ty() + ["{", "}"],
                           ["let", "Some", "(", "mut", "y", ")", ":"] + self.ty() + ["="] + self.post(d - 1) + ["else", "{", "return", "}", ";"]])
        if r.random() < 0.7:
            o += self.e(d - 1)
        return o + ["}"]

    def e(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.5:
            return self.post(d)
        if k < 0.58:
            return self.post(d) + [r.choice(["+", "-", "*", "&&", "||", "<<", ">=", "==", "&", "|", "^"])] + self.post(d)
        if k < 0.62:
            return [r.choice(["!", "-", "*", "&", "&mut", "&&"])] + self.post(d)
        if k < 0.66:
            return ["if"] + ["("] + self.e(d - 1) + [")"] + self.block(d) + r.choice([[], ["else"] + self.block(d)])
        if k < 0.71:
            o = ["match"] + ["("] + self.e(d - 1) + [")", "{"]
            for _ in range(r.choice([1, 2, 3])):
                o += r.choice([["_"], ["Some", "(", "x", ")"], ["1", "..=", "3"], ["S", "{", "a", ",", "..", "}"], ["x", "@", "(", "1", "|", "2", ")"]])
                o += r.choice([[], ["if"] + self.post(d - 1)]) + ["=>"] + self.e(d - 1) + [","]
            return o + ["}"]
        if k < 0.78:
            return r.choice([[], ["move"]]) + r.choice([["||"], ["|", "x", "|"], ["|", "&", "(", "a", ",", "_", ")", ":"] + ["&", "(", "u8", ",", "T", ")"] + ["|"]]) + r.choice([self.post(d - 1), self.block(d), ["{"] + self.e(d - 1) + ["}"]])
        if k < 0.83:
            return r.choice([["return"], ["break"], ["break", "'lab"]]) + self.post(d - 1)
        if k < 0.87:
            return r.choice([[], ["'lab", ":"]]) + r.choice([["loop"], ["while", "("] + self.e(d - 1) + [")"], ["for", "x", "in", "("] + self.e(d - 1) + [")"]]) + self.block(d)
        if k < 0.9:
            return r.choice([["unsafe"], ["async", "move"], ["const"]]) + self.block(d)
        if k < 0.94:
            return ["S", "{", "a", ":"] + self.e(d - 1) + [","] + r.choice([["b", ","], ["..", "Default", "::", "default", "(", ")"], []]) + ["}"]
        if k < 0.97:
            return self.post(d) + ["as"] + self.ty()
        return ["("] + self.post(d) + [r.choice(["..", "..="])] + self.post(d) + [")"]


IDCH = lambda c: c.isalnum() or c in "_'\""


def layout(rng, toks, style):
    """Joins the lexemes with white space and comments."""
    o = []
    ind = rng.choice([0, 4, 8, 11])
    for i, t in enumerate(toks):
        if i:
            p = toks[i - 1]
            glue = p in ("(", "[", ".") or t in (")", "]", ",", ";", "(", "?", ".")
            if t in ("(", "[") and not (IDCH(p[-1]) or p[-1] in ")]>"):
                glue = False
            if p[-1].isdigit() and t == "." or p == "." and t[0].isdigit() and False:
                glue = rng.random() < 0 or not p[0].isdigit()
            if p in ("?", ">") and t[0] in "?=>.":
                glue = t in (".", "?") and p == "?"
            x = rng.random()
            if x < style:
                k = rng.random()
                if k < 0.55:
                    o.append("\n" + " " * rng.choice([ind, ind + 4, ind + 8, 0, 2, 40]))
                elif k < 0.65:
                    o.append("\n" * rng.randint(2, 4) + "\t" * rng.randint(0, 2))
                elif k < 0.75:
                    o.append(rng.choice([" /* c */ ", " /* 日本 \" */", "/*\n ' \n*/ ", " /**/ "]))
                elif k < 0.85:
                    o.append(rng.choice([" // end ?\n", " // \" '\n    ", "//\n\n"]))
                else:
                    o.append(" " * rng.randint(1, 12) if k < 0.95 else "\t")
            elif glue and rng.random() < 0.9:
                pass
            else:
                o.append(" ")
        o.append(t)
    return "".join(o)


def options(rng, mac):
    """(option text, keyword arguments of the model)"""
    r = rng
    os_, kw = [], {}
    if mac == "pretty":
        if r.random() < 0.6:
            os_.append("@show_line_num")
            kw["nums"] = True
    elif mac == "excerpted":
        kw.update(nums=True, bottom=True, cut=None, limit=5)
        if r.random() < 0.7:
            n = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 9, 12, 30])
            os_.append("@excerpt_line = %d" % n)
            kw["limit"] = n
        if r.random() < 0.2:
            os_.append("@show_line_num")
    if mac in ("pretty", "excerpted") and r.random() < 0.5:
        p = r.choice(["", ' = "top"', ' = "bottom"', ' = "both"'])
        os_.append("@padding" + p)
        if p != ' = "bottom"':
            kw["top"] = True
        if p != ' = "top"':
            kw["bottom"] = True
    if mac in ("one", "excerpted", "trunc") and r.random() < 0.6:
        n = r.choice([None, None, 2, 3, 4, 5, 7, 9, 10, 11, 20, 36])
        os_.append("@truncate_str" + ("" if n is None else " = %d" % n))
        kw["cut"] = n
    if mac == "trunc":
        kw.setdefault("cut", None)
    r.shuffle(os_)
    t = ""
    for i, o in enumerate(os_):
        last = i == len(os_) - 1
        t += o + (r.choice([",", ";"]) if last and "=" not in o else "," if not (last and r.random() < 0.3) else r.choice([" ", ";"]))
        t += r.choice([" ", "\n        ", ""]) if t[-1] in ",;" else " "
    return t, kw


MACN = {"pretty": "pretty_stringify", "one": "one_line_stringify", "excerpted": "excerpted_pretty_stringify", "trunc": "truncate_lit_str"}


SPELL = {m: [n] * 3 + ["::hooq::source_excerpt_helpers::" + n, "hooq::source_excerpt_helpers::" + n] for m, n in MACN.items()}
SPELL["excerpted"] += ["eps", "hooq::summary", "::hooq::summary", "short"]
SPELL["one"] += ["ols"]


class Case:
    pass


def make_case(rng, i):
    c = Case()
    c.mac = rng.choice(["pretty", "excerpted", "excerpted", "excerpted", "one", "trunc"])
    g = Ex(rng, strs=rng.choice([0.1, 0.35, 0.7]), multi=c.mac != "one")
    c.opt, c.kw = options(rng, c.mac)
    if c.mac == "trunc":
        # must be an expression with a value
        n = rng.randint(1, 4)
        t = ["["]
        for _ in range(n):
            t += rng.choice([[g.string()], ["(", g.string(), ")"], ["{", g.string(), "}"], ["id", "(", g.string(), ")"], ["if", "true", "{", g.string(), "}", "else", "{", '""', "}"]]) + [","]
        c.toks = t + ["]"]
    else:
        c.toks = g.e(rng.choice([1, 2, 3, 3, 4]))
        if len(c.toks) > 160:
            return make_case(rng, i)
    c.text = layout(rng, c.toks, rng.choice([0.0, 0.05, 0.15, 0.3, 0.5]))
    c.spell = rng.choice(SPELL[c.mac])
    c.br = rng.choice(["()"] * 4 + ["[]", "{}"])
    c.rules = rng.random() < 0.15 and c.mac != "trunc"      # through macro_rules
    c.i = i
    return c


HEAD = """#![allow(warnings)]
use hooq::source_excerpt_helpers::*;
use hooq::source_excerpt_helpers::{excerpted_pretty_stringify as eps, one_line_stringify as ols};
use hooq::summary as short;
macro_rules! via { ($m:ident ! [$($o:tt)*] $e:expr) => { $m!($($o)* $e) } }
fn id<T>(t: T) -> T { t }
fn out(i: usize, s: &str) { println!("{i}\\t{}", s.replace('\\\\', "\\\\\\\\").replace('\\n', "\\\\n").replace('\\r', "\\\\r")) }
"""


def write(cases, first_line):
    """Source text; sets the offsets of every expression."""
    o = HEAD
    o += "\n" * max(0, first_line - o.count("\n") - 2) + "fn main() {\n"
    for c in cases:
        m, (l, rr) = c.spell, c.br
        if c.mac == "trunc":
            a, b = "    out(%d, &format!(\"{:?}\", %s!%s%s" % (c.i, m, l, c.opt), rr + "));\n"
        elif c.rules:
            m = MACN[c.mac]
            a, b = "    out(%d, via!(%s ! [%s] " % (c.i, m, c.opt), "));\n"
        else:
            a, b = "    out(%d, %s!%s%s" % (c.i, m, l, c.opt), rr + ");\n"
        o += a
        c.o0 = len(o)
        o += c.text
        c.o1 = len(o)
        o += b
    return o + "}\n"


def expected(c, text):
    if c.mac == "pretty":
        return excerpt.pretty(text, c.o0, c.o1, **c.kw)
    if c.mac == "excerpted":
        return excerpt.pretty(text, c.o0, c.o1, **c.kw)
    if c.mac == "one":
        return excerpt.one_line(text, c.o0, c.o1, c.kw.get("cut", NOCUT))
    vals = []
    for k, a, b in excerpt.lex(c.text):
        if k == "str":
            vals.append(excerpt.shorten(excerpt.value(c.text[a:b]), c.kw["cut"]))
    # the else branches are never taken
    vals = [v for i, v in enumerate(vals) if not is_else(c.toks, i)]
    return "\x00".join(vals)


def is_else(toks, k):
    n = -1
    for i, t in enumerate(toks):
        if excerpt.STR.match(t) or excerpt.RAWSTR.match(t):
            n += 1
            if n == k:
                return i > 1 and toks[i - 2] == "else"
    return False


def same(c, text, want, got):
    if want == got:
        return True
    if c.mac == "trunc":
        try:
            vs = [excerpt.value(got[a:b]) for k, a, b in excerpt.lex(got) if k == "str"]
        except (KeyError, ValueError, IndexError):
            return False
        return "\x00".join(vs) == want
    if c.mac == "one":
        return "\n" not in got and excerpt.squeeze(excerpt.canon(got)) == excerpt.squeeze(excerpt.canon(want))
    if c.kw.get("limit") == 1:
        # which one of the lines is not specified
        kw = dict(c.kw, limit=None, top=False, bottom=False)
        ls = excerpt.pretty(text, c.o0, c.o1, **kw).split("\n")
        pad = excerpt.pretty(text, c.o0, c.o1, **dict(c.kw, limit=None)).split("\n")
        core = "\n".join(ls)
        full = "\n".join(pad)
        pre, post = full[:full.index(core)], full[full.index(core) + len(core):]
        return any(excerpt.canon(pre + l + post) == excerpt.canon(got) for l in ls)
    return excerpt.canon(want) == excerpt.canon(got)


def shard(h, wd, name, cases, first_line, crlf):
    d = os.path.join(wd, name)
    build.project(d)
    rejected = 0
    for _ in range(6):
        text = write(cases, first_line)
        with open(os.path.join(d, "gen.rs"), "w", newline="") as f:
            f.write(text.replace("\n", "\r\n") if crlf else text)
        # the language decides which expressions are legal
        plain = HEAD + "macro_rules! e { ($e:expr) => {} }\nfn main() {\n"
        spans = {}
        for c in cases:
            a = plain.count("\n") + 1
            plain += "e!(" + c.text + "\n);\n" if c.mac != "trunc" else "let _ = (" + c.text + "\n);\n"
            spans[c.i] = (a, plain.count("\n") + 1)
        with open(os.path.join(d, "ref.rs"), "w") as f:
            f.write(plain + "}\n")
        r = build.rustc(h, "ref.rs", "ref", d, d)
        if r.ok:
            break
        bad = {o for e in r.errors() for l in build.err_lines(e, "ref.rs") for o in [diff.owner(spans, l)] if o is not None}
        if os.environ.get("HV_DEBUG"):
            for e in r.errors():
                for c in cases:
                    if c.i in bad and any(spans[c.i][0] <= l < spans[c.i][1] for l in build.err_lines(e, "ref.rs")):
                        print("REJECT", e["message"], repr(c.text))
        if not bad:
            raise Inconclusive("excerpt cases do not parse: %s" % [e["message"] for e in r.errors()][:3])
        rejected += len(bad)
        cases = [c for c in cases if c.i not in bad]
    else:
        raise Inconclusive("excerpt cases never parse")
    files = [os.path.join(d, "gen.rs")]
    try:
        r = build.rustc(h, "gen.rs", "gen", d, d)
    except build.Crashed as x:
        raise diff.Violation("the compiler crashes on an excerpt macro", str(x), files)
    if not r.ok:
        raise diff.Violation("an excerpt macro rejects a legal expression",
                             "\n".join(e.get("rendered") or e["message"] for e in r.errors()[:5]) + r.raw[-1500:], files)
    p = build.run(os.path.join(d, "gen"), d)
    got = {}
    for l in p[1].split("\n"):
        if "\t" in l:
            i, s = l.split("\t", 1)
            got[int(i)] = unesc(s)
    st = collections.Counter()
    seen = set()
    sample = None
    for c in cases:
        want = expected(c, text)
        g = got.get(c.i)
        if g is None or not same(c, text, want, g):
            raise diff.Violation("excerpt of an expression (%s!(%s))" % (c.spell, c.opt.strip()),
                                 "---- source line %d\n%s\n---- expected\n%s\n---- observed\n%s" % (text.count("\n", 0, c.o0) + 1, c.text, want.replace("\x00", " | "), g), files)
        st[c.mac] += 1
        nl = c.text.count("\n") + 1
        st["multi-line expressions"] += nl > 1
        st["abridged"] += c.mac == "excerpted" and "\n...\n" in g
        st["strings shortened"] += want.count("..") > c.text.count("..")
        seen.add(g)
        if 2 < nl < 9 and c.mac == "excerpted" and sample is None:
            sample = {"call": "%s!(%s%s)" % (MACN[c.mac], c.opt, c.text), "excerpt": g}
    shutil.rmtree(d)
    return st, seen, rejected, sample


def unesc(s):
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            o.append({"n": "\n", "r": "\r", "\\": "\\"}[s[i + 1]])
            i += 2
        else:
            o.append(s[i])
            i += 1
    return "".join(o)


FIRST = [0, 0, 0, 90, 98, 990, 9970, 9990, 99990]


def direct(tier, seed):
    h = build.harness()
    wd = os.path.join(build.BUILD, "w", "C14x")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    rng = random.Random("C14/%s" % seed)
    n = 24 if tier == "quick" else 240
    jobs = []
    for s in range(n):
        r = random.Random(rng.random())
        jobs.append(("s%d" % s, [make_case(r, i) for i in range(120)], r.choice(FIRST), r.random() < 0.25))
    vs, inc, st, seen, rej, samples = [], [], collections.Counter(), set(), 0, []

    def one(j):
        try:
            return shard(h, wd, *j)
        except (diff.Violation, Inconclusive) as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            if isinstance(r, diff.Violation):
                vs.append(r)
            elif isinstance(r, Inconclusive):
                inc.append(r)
            else:
                st.update(r[0])
                seen |= r[1]
                rej += r[2]
                samples += [r[3]] if r[3] else []
    if inc and not vs:
        raise inc[0]
    return st, vs, seen, rej, samples


def run(tier, seed):
    """Expressions handed to the macros, then the targets of hooks (`$source`)."""
    from . import main
    st, vs, seen, rej, samples = direct(tier, seed)
    dcov, dvs, enough = main.diff_check("C14b", tier, seed)
    n = sum(st[m] for m in MACN)
    cov = {
        "evaluations": n + dcov["evaluations"],
        "distinct_nontrivial": len(seen) + dcov["distinct_nontrivial"],
        "rule": "an excerpt of a random expression with random options, compared with what the text of the source file says, plus executions of "
                "programs whose hooks report an excerpt of `$source`; distinct = different excerpt texts and different (program, event sequence)",
        "samples": samples[:3] + dcov["samples"][:1],
        "macro_calls": {m: st[m] for m in sorted(MACN)},
        "multi_line_expressions": st["multi-line expressions"],
        "abridged_excerpts": st["abridged"],
        "with_shortened_strings": st["strings shortened"],
        "expressions_rejected": rej,
        "hooked_programs": {k: dcov[k] for k in dcov if k not in ("rule", "samples")},
    }
    return cov, vs + dvs, enough and n and st["abridged"]
