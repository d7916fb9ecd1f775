"""C19: code in an annotated item keeps its own place in the source.

Every program is compiled twice: as annotated, and with each hooq attribute overwritten by blanks, so that
every other token has the same position in both. Monitors: the caller location of every probe, of every
`From` conversion and of every panic, and `line!()`/`column!()`, at run time; the compiler's diagnostics
(errors planted at many positions, and lints) at compile time.
"""
import collections
import json
import os
import random
import re
import shutil
import subprocess
import unicodedata
from concurrent.futures import ThreadPoolExecutor

from . import build, diff, dprops
from .build import Inconclusive
from .diff import Violation
from .dprops import *

ATTR = re.compile(r"#!?\s*\[\s*(?:::\s*)?hooq\b")
PROBE = re.compile(r"\b((?:r|p|o|c|ev|dg|dbl|mk|ar|tbl)\()(\d+)\)")
NOWARN = "#![allow(unused_imports)]\nuse hrt::*;\nuse hooq::hooq;\n"
# a replaced target whose `$expr` stands outside any bracket of the method takes the place of the `?` by design
HOOKS = [m for m in IDENT if m not in ("$expr", "match $expr { v => v }")]


def blank(t):
    """The text without hooq's attributes: everything else stays where it is."""
    out, i, n = [], 0, 0
    for m in ATTR.finditer(t):
        if m.start() < i:
            continue
        j, d = t.index("[", m.start()), 0
        while True:
            ch = t[j]
            if ch == '"':
                # a plain or raw string
                k = j
                while t[k - 1] == "#":
                    k -= 1
                if k < j and t[k - 1] == "r":
                    j = t.index('"' + "#" * (j - k), j + 1) + (j - k)
                elif t[j - 1] == "r" and not (t[j - 2].isalnum() or t[j - 2] == "_"):
                    j = t.index('"', j + 1)
                else:
                    j += 1
                    while t[j] != '"':
                        j += 2 if t[j] == "\\" else 1
            elif ch == "'" and re.match(r"'(\\.[^']*|[^'\\])'", t[j:j + 14]):
                j += re.match(r"'(\\.[^']*|[^'\\])'", t[j:j + 14]).end() - 1
            elif ch in "([{":
                d += 1
            elif ch in ")]}":
                d -= 1
                if d == 0:
                    break
            j += 1
        out.append(t[i:m.start()])
        out.append("".join(c if c == "\n" else " " for c in t[m.start():j + 1]))
        i = j + 1
        n += 1
    out.append(t[i:])
    return "".join(out), n


def poison(t, kind, r):
    """Plants errors (or position macros) at many of the program's leaves; returns (text, how many)."""
    n = [0]

    def f(m):
        if kind == "lines":
            if r.random() > 0.2:
                return m.group(0)
            n[0] += 1
            return m.group(1) + r.choice(["line!() as i64)", "column!() as i64)", "line!() as i64 * 1000 + column!() as i64)"])
        if r.random() > 0.6:
            return m.group(0)
        n[0] += 1
        if kind == "names":
            return "%szq%d)" % (m.group(1), n[0])
        return m.group(1) + r.choice(['"s")', "())", "1.5)", "'c')"])
    body = t.index("\npub fn main() {")
    return PROBE.sub(f, t[:body]) + t[body:], n[0]


class C19(Spec):
    fills = (fill_try, fill_ret, fill_tail)
    n2 = (260, 8000)
    nr = (200, 3000)
    per = 40
    profile = dict(attr=0.12)
    sattr = 0.12
    foreign = 0.0

    def __init__(self, empty):
        self.empty = empty
        if empty:
            # nothing below the root is looked at in macros
            self.profile, self.sattr = dict(attr=0.0), 0.0

    def root(self, g):
        r = g.rng
        if self.empty:
            return [], r.choice(["#[hooq(empty)]", '#[hooq(flavor = "empty")]']), EMPTY
        attrs = [a_method(r.choice(HOOKS))]
        if r.random() < 0.5:
            attrs.append(a_rtypes(r.sample(RTPOOL, 4)))
            attrs.append(a_idents(r.sample(IDPOOL, 3)))
        return attrs, "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        r = g.rng
        x = r.random()
        if x < 0.3:
            return [a_skip()]
        if x < 0.5:
            return [a_skip_all()]
        if x < 0.8:
            return [a_method(r.choice(HOOKS))]
        return [a_targets(r.sample(list(ALL), r.randint(1, 3)))]

    def catalogue(self, rng):
        return [u for u in cat_transparent(rng) if ("empty" in u.root_attr) == self.empty and not any("method(%s)" % m in u.root_attr for m in IDENT if m not in HOOKS)]


def compile_(h, d, text, warn=False, link=False):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "gen.rs"), "w") as f:
        f.write(text)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(build.MANIFEST)
    cmd = ["rustc", "--edition", "2024", "-C", "debuginfo=0", "--error-format=json"] + ([] if warn else ["-A", "warnings", "--cap-lints", "allow"])
    cmd += h.extern(build.EXT) + (["-o", "gen"] if link else ["--emit=metadata", "-o", "gen.rmeta"]) + ["gen.rs"]
    try:
        p = build.spawn(cmd, d, build.env({"CARGO_MANIFEST_DIR": d, "RUSTC_BOOTSTRAP": "1"}), 400)
    except build.Crashed as x:
        if os.path.basename(d).startswith("a"):
            raise Violation("the compiler crashes on an annotated program", str(x), [os.path.join(d, "gen.rs")])
        raise
    return p.returncode, [json.loads(l) for l in p.stderr.decode("utf-8", "replace").splitlines() if l.startswith("{")]


def facts(ds, codes=None, full=True):
    """{what a diagnostic says and where}"""
    out = {}
    for x in ds:
        c = (x.get("code") or {}).get("code")
        if not x["spans"] or codes and c not in codes:
            continue
        sp = tuple(sorted((s["file_name"], s["line_start"], s["column_start"], s["line_end"], s["column_end"]) for s in x["spans"] if s["is_primary"]))
        k = (x["level"], c, x["message"] if full else "", sp)
        out[k] = x
    return out


def lines_of(ds, f="gen.rs"):
    return {l for e in ds if e["level"].startswith("error") for l in build.err_lines(e, f)}


def at_mark(e, f, rows):
    """The conversion made by a `?` may be placed at the `?` itself instead of where its operand starts."""
    if e != f and e.startswith("from ") and " @" in e and e.split(" @")[0] == f.split(" @")[0]:
        l, c = map(int, e.split(" @")[1].split(":"))
        w = 1
        for ch in rows[l - 1]:
            if w >= c:
                return f if w == c and ch == "?" else e
            # a caller's column is one on the screen
            w += 4 if ch == "\t" else 2 if unicodedata.east_asian_width(ch) in "WF" else 1
    return e


def shard(h, wd, i, units, empty, seed):
    st = collections.Counter()
    traces = set()
    vs = []
    r = random.Random("%s/%d" % (seed, i))
    d = os.path.join(wd, "%s%d" % ("e" if empty else "i", i))
    opt = {"head": NOWARN if empty else diff.HEAD, "prologue": "hrt::locs();\n"}
    units = [u for u in units if not diff.syn_fails(u.item.text())]
    n0 = len(units)
    r0 = r.getstate()
    # 1. programs that are legal without the annotation
    for _ in range(8):
        if not units:
            return st, traces, vs
        text, spans = diff.emit_hooked(units, seed, "gen.rs", opt)
        r.setstate(r0)
        a, nl = poison(text, "lines", r)
        if a.count("\n") != text.count("\n"):
            raise RuntimeError("lines")
        b, na = blank(a)
        rc, ds = compile_(h, d + "/b", b, warn=empty, link=True)
        if rc == 0:
            break
        bad = {diff.owner(spans, l) for l in lines_of(ds)} - {None}
        if not bad:
            raise Inconclusive("the plain program does not compile: %s" % [x["message"] for x in ds][:4])
        if os.environ.get("HV_DEBUG"):
            for u in units:
                if u.name in bad:
                    print("REJECT", u.label, [x["message"] for x in ds if any(diff.owner(spans, l) == u.name for l in build.err_lines(x, "gen.rs"))][:2])
        units = [u for u in units if u.name not in bad]
    else:
        raise Inconclusive("the plain programs never compile")
    if len(units) < n0 / 2:
        raise Inconclusive("%d of %d programs are not legal" % (n0 - len(units), n0))
    st["programs"] += len(units)
    st["programs rejected"] += n0 - len(units)
    st["attributes"] += na
    st["position macros"] += nl

    def program(line):
        n = diff.owner(spans, line)
        if n is None:
            return ""
        x, y = spans[n]
        return "\n".join(a.split("\n")[x - 1:y])

    def compare(what, ka, kb, pa):
        """Both directions: nothing lost or moved, nothing new."""
        lost, new = [kb[k] for k in kb if k not in ka], [ka[k] for k in ka if k not in kb]
        st["diagnostics compared"] += len(kb)
        if lost or new:
            det = ["without the annotation only:"] + [x["rendered"] for x in lost[:3]] + ["with the annotation only:"] + [x["rendered"] for x in new[:3]]
            vs.append(Violation(what, "\n".join(det), [pa]))
    # 2. run both
    rc, da = compile_(h, d + "/a", a, warn=empty, link=True)
    pa = d + "/a/gen.rs"
    if rc:
        es = [x for x in da if x["level"].startswith("error")]
        vs.append(Violation("an annotated program with identity hooks does not compile", "\n".join(x["rendered"] for x in es[:5]), [pa, d + "/b/gen.rs"]))
        return st, traces, vs
    try:
        ra = build.run(d + "/a/gen", d, timeout=180)
        rb = build.run(d + "/b/gen", d, timeout=180)
    except subprocess.TimeoutExpired:
        raise Inconclusive("a program does not end")
    if rb[0]:
        raise Inconclusive("plain run ended with %d: %s" % (rb[0], rb[2][-300:]))
    x, y = ra[1].split("\n"), rb[1].split("\n")
    rows = a.split("\n")
    for k in range(max(len(x), len(y))):
        p = x[k] if k < len(x) else "<nothing>"
        q = y[k] if k < len(y) else "<nothing>"
        ep, eq = p.split("\x01"), q.split("\x01")
        if p != q:
            ep = [at_mark(g, f, rows) for g, f in zip(ep, eq)] + ep[len(eq):]
            p = "\x01".join(ep)
        st["executions"] += 1
        st["events"] += len(eq) - 1
        st["located events"] += sum(" @" in e for e in eq)
        st["located panics"] += sum(e.startswith("panics at") for e in eq)
        st["located conversions"] += sum(e.startswith("from ") and " @" in e for e in eq)
        traces.add(hash(q))
        if p != q:
            m = next((z for z in range(max(len(ep), len(eq))) if z >= len(ep) or z >= len(eq) or ep[z] != eq[z]), 0)
            name = q.split("\t")[0]
            src = program(spans[name][0]) if name in spans else ""
            vs.append(Violation("an event has another place in the annotated program", "tape %s\nevent %d\n  without the annotation: %s\n  annotated: %s\n%s"
                                % (eq[0], m, eq[m] if m < len(eq) else "<end>", ep[m] if m < len(ep) else "<end>", src), [pa, d + "/b/gen.rs"]))
            break
    # 3. lints
    if empty:
        compare("the compiler's warnings differ", facts(da), facts(ds), pa)
        st["warnings compared"] += len(facts(ds))
    # 4. planted errors
    for kind, code in (("names", {"E0425"}), ("types", {"E0308", "E0277"})):
        t, n = poison(text, kind, r)
        bt, _ = blank(t)
        rc1, d1 = compile_(h, d + "/a" + kind, t)
        rc2, d2 = compile_(h, d + "/b" + kind, bt)
        st["planted errors: " + kind] += n
        f2 = facts(d2, None if empty else code, empty)
        if not f2 and n:
            raise Inconclusive("no diagnostic for a planted error")
        compare("the compiler reports %s errors elsewhere" % kind, facts(d1, None if empty else code, empty), f2, d + "/a" + kind + "/gen.rs")
    if not vs:
        shutil.rmtree(d)
    return st, traces, vs


def run(tier, seed):
    h = build.harness()
    wd = os.path.join(build.BUILD, "w", "C19")
    shutil.rmtree(wd, ignore_errors=True)
    todo = []
    for empty in (False, True):
        spec = C19(empty)
        rng = random.Random("C19/%s/%s" % (seed, empty))
        us = build_units(spec, tier, rng)
        n = (len(us) + spec.per - 1) // spec.per
        todo += [(i, us[i::n], empty) for i in range(n)]
    st, traces, vs, inc = collections.Counter(), set(), [], []

    def one(x):
        i, us, empty = x
        try:
            return shard(h, wd, i, us, empty, "%s/%s" % (seed, empty))
        except Inconclusive as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(one, todo):
            if isinstance(x, Inconclusive):
                inc.append(x)
                continue
            st.update(x[0])
            traces |= x[1]
            vs += x[2]
    seen = collections.Counter()
    out = []
    for v in vs:
        seen[v.what] += 1
        if seen[v.what] <= 2:
            out.append(v)
    if inc and not out:
        raise inc[0]
    cov = {"evaluations": st["executions"] + st["diagnostics compared"], "distinct_nontrivial": len(traces),
           "rule": "an execution of an annotated program compared, event by event with the place of every probe call, conversion and panic, with the "
                   "same text whose hooq attributes are blanked; plus every compiler diagnostic compared the same way; distinct = different event sequences",
           "samples": [], "programs": st["programs"]}
    cov.update({k.replace(" ", "_").replace(":", ""): v for k, v in st.items() if k != "programs"})
    enough = st["located events"] and st["diagnostics compared"] and st["warnings compared"] and st["located panics"] and st["located conversions"]
    return cov, out, bool(enough)
