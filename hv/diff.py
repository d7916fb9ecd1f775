"""Differential engine: hooked program against its hand-hooked reference, over many fault tapes."""
import collections
import copy
import os
import random
import re
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

from . import build
from .build import Inconclusive
from .model import *


HEAD = """#![allow(warnings)]
#![feature(try_blocks, if_let_guard, coroutines, coroutine_trait, stmt_expr_attributes)]
use hrt::*;
use hooq::hooq;
"""
REF_HEAD = """#![allow(warnings)]
#![feature(try_blocks, if_let_guard, coroutines, coroutine_trait, stmt_expr_attributes)]
use hrt::*;
"""


def syn_fails(text):
    """`break 'label #[attr]* ::path`, which syn rejects."""
    for m in re.finditer(r"break '\w+ ", text):
        i = m.end()
        while text.startswith("#[", i):
            d = 0
            while i < len(text):
                d += {"[": 1, "]": -1}.get(text[i], 0)
                i += 1
                if d == 0:
                    break
            while i < len(text) and text[i] in " \n\t":
                i += 1
        if text.startswith("::", i):
            return True
    return False


class Stats:
    def __init__(self):
        self.units = 0
        self.rejected = 0
        self.reject_msgs = collections.Counter()
        self.runs = 0
        self.events = 0
        self.hook_events = 0
        self.traces = set()
        self.sites = collections.Counter()
        self.labels = collections.Counter()
        self.samples = []
        self.panics = 0

    def merge(self, o):
        self.units += o.units
        self.rejected += o.rejected
        self.reject_msgs.update(o.reject_msgs)
        self.runs += o.runs
        self.events += o.events
        self.hook_events += o.hook_events
        self.traces |= o.traces
        self.sites.update(o.sites)
        self.labels.update(o.labels)
        self.samples = (self.samples + o.samples)[:6]
        self.panics += o.panics


class Violation(Exception):
    def __init__(self, what, detail, files):
        super().__init__(what)
        self.what, self.detail, self.files = what, detail, files


def emit_hooked(units, layout_seed, path, opt={}):
    w = Writer()
    w.w(opt.get("head", HEAD))
    spans = {}
    for u in units:
        a = w.line
        if u.pre:
            w.w(u.pre + "\n")
        w.layout = random.Random("%s/%s" % (layout_seed, u.name)) if u.layout else None
        w.w(u.root_attr)
        w.gap()
        w.w(" " if not u.newline else "\n")
        u.item.src(w)
        w.layout = None
        w.w(u.post + "\n")
        spans[u.name] = (a, w.line)
    w.w(main_of(units, opt))
    return w.text(), spans


def emit_ref(units, path, cq, text, opt={}):
    head = opt.get("ref_head", REF_HEAD)
    out = [head]
    line = head.count("\n") + 1
    spans = {}
    for u in units:
        root = Root(path, cq, text)
        root.facts = u.facts
        t = (u.pre + "\n" if u.pre else "") + u.ref(root) + u.post + "\n"
        out.append(t)
        spans[u.name] = (line, line + t.count("\n"))
        line += t.count("\n")
        u.root_info = root
    out.append(main_of(units, opt))
    return "".join(out), spans


def renamed(text, cr):
    """The program of a project that depends on hooq as `cr`."""
    return re.sub(r"(use |::)hooq::", r"\1%s::" % cr.replace("-", "_"), text) if cr and text else text


def main_of(units, opt):
    o = ["pub fn main() {\n", opt.get("prologue", "")]
    for u in units:
        o.append('    drive("%s", || format!("{:?}", %s), %d, %d);\n' % (u.name, u.call, u.singles, u.randoms))
    o.append("}\n")
    return "".join(o)


class U:
    """One annotated item plus the call that runs it."""
    post = ""

    def __init__(self, name, item, call, pre="", root_attr="#[hooq]", attrs=(), flavor=None, label="",
                 layout=True, newline=False, singles=14, randoms=4):
        self.name, self.pre, self.item, self.call = name, pre, item, call
        self.root_attr = root_attr
        self.item.attrs = list(attrs) + list(self.item.attrs)
        self.flavor = flavor
        self.label = label
        self.layout = layout
        self.newline = newline
        self.singles, self.randoms = singles, randoms
        self.facts = {}

    def ref(self, root):
        if syn_fails(self.item.text()):
            raise Reject("syn cannot parse `break 'label ::path`")
        return self.item.ref(Ctx.from_flavor(self.flavor, root))


def who(spans, lines):
    out = set()
    for n, (a, b) in spans.items():
        if any(a <= l < b or l == b for l in lines):
            out.add(n)
    return out


def owner(spans, line):
    for n, (a, b) in spans.items():
        if a <= line < b:
            return n
    return None


def run_ref(d):
    """The outcome of the reference, or None and the last program that reported."""
    try:
        r = build.run(os.path.join(d, "ref"), d, timeout=40)
    except build.subprocess.TimeoutExpired as e:
        out = (e.output or b"").decode("utf-8", "replace").split("\n")
        return None, (out[-2].split("\t")[0] if len(out) > 1 else None)
    except OSError as e:
        raise Inconclusive("reference run: %r" % e)
    if r[0]:
        raise Inconclusive("reference run ended with %d: %s" % (r[0], r[2][-500:]))
    return r, None


def shard(h, units, wd, name, toml, cq, seed, max_reject=0.5, opt={}):
    """Compiles and runs one shard. Raises Violation."""
    st = Stats()
    d = os.path.join(wd, name)
    # the name under which the project depends on hooq
    cr = opt.get("crate")
    ed = opt.get("edition", "2024")
    ext = [e if e != "hooq" else cr.replace("-", "_") + "=hooq" for e in build.EXT] if cr else build.EXT
    if cr:
        toml = renamed(toml, cr)
    build.project(d, toml, cr)
    n0 = len(units)
    # 1. the reference decides which programs are legal
    units2 = []
    # where the program lies below the directory of the compilation, and whether it is a module of another file
    fn, via = opt.get("file", "gen.rs"), opt.get("via")
    fn = fn.replace("@D", d)
    os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
    if via:
        with open(os.path.join(d, "top.rs"), "w") as f:
            f.write('#[path = "%s"]\nmod g;\nuse g::*;\nfn main() {\n    g::main()\n}\n' % fn)
    text = renamed(emit_hooked(units, seed, fn, opt)[0], cr)   # positions
    for u in units:
        try:
            u.ref(Root(fn, cq, text))
            units2.append(u)
        except Reject as e:
            st.rejected += 1
            st.reject_msgs["model: " + str(e)[:80]] += 1
    units = units2
    for _ in range(12):
        if not units:
            break
        src, spans = emit_hooked(units, seed, fn, opt)
        src = renamed(src, cr)
        ref, rspans = emit_ref(units, fn, cq, src, opt)
        with open(os.path.join(d, "ref.rs"), "w") as f:
            f.write(ref)
        with open(os.path.join(d, fn), "w") as f:
            f.write(src)
        c = build.rustc(h, "ref.rs", "ref", d, d, edition=ed)
        bad = set()
        if c.ok:
            r1, done = run_ref(d)
            if r1 is not None:
                break
            # a program that does not end by itself: nothing to compare, whatever the annotation does
            k = [i for i, u in enumerate(units) if u.name == done]
            bad = {u.name for u in (units[k[0]:k[0] + 2] if k else units[:1])}
            units = [u for u in units if u.name not in bad]
            st.rejected += len(bad)
            st.reject_msgs["the reference does not end"] += 1
            continue
        for e in c.errors():
            for l in build.err_lines(e, "ref.rs"):
                o = owner(rspans, l)
                if o:
                    bad.add(o)
                    st.reject_msgs[e["message"][:100]] += 1
        if not bad:
            raise Inconclusive("reference does not compile: %s" % [e["message"] for e in c.errors()][:5])
        st.rejected += len(bad)
        if os.environ.get("HV_DEBUG"):
            for u in units:
                if u.name in bad:
                    print("REJECT", [e["rendered"] for e in c.errors() if os.environ["HV_DEBUG"]=="2" and any(owner(rspans, l) == u.name for l in build.err_lines(e, "ref.rs"))], u.label, rspans[u.name], [e["message"] for e in c.errors() if any(owner(rspans, l) == u.name for l in build.err_lines(e, "ref.rs"))][:2], [s["text"][0]["text"][max(0,s["column_start"]-80):s["column_end"]+40] for e in c.errors() for s in e["spans"][:1] if owner(rspans, s["line_start"])==u.name][:2])
        units = [u for u in units if u.name not in bad]
    else:
        raise Inconclusive("reference never compiles")
    if not units:
        return st
    if st.rejected > max_reject * n0:
        raise Inconclusive("%d of %d generated programs are not legal Rust: %s"
                           % (st.rejected, n0, st.reject_msgs.most_common(3)))
    files = [os.path.join(d, x) for x in (fn, "ref.rs", "Cargo.toml", "hooq.toml")]
    try:
        c = build.rustc(h, "top.rs" if via else fn, "gen", d, d, ext=ext, args=("--crate-name", "gen"), edition=ed)
    except build.Crashed as x:
        # the reference, just as long, compiled; which program is it?
        for u in units:
            try:
                with open(os.path.join(d, fn), "w") as f:
                    f.write(renamed(emit_hooked([u], seed, fn, opt)[0], cr))
                build.rustc(h, "top.rs" if via else fn, "gen", d, d, ext=ext, args=("--crate-name", "gen"), edition=ed)
            except build.Crashed as y:
                raise Violation("the compiler crashes on an annotated program", str(y) + "\n" + open(os.path.join(d, fn)).read()[-6000:], files)
        raise Violation("the compiler crashes on annotated programs", str(x), files)
    if not c.ok:
        es = c.errors()
        det = []
        for e in es[:6]:
            ls = build.err_lines(e, fn)
            o = {owner(spans, l) for l in ls}
            det.append("%s  (lines %s, %s)" % (e.get("rendered") or e["message"], ls, sorted(x for x in o if x)))
        raise Violation("a program that compiles with hand-written hooks does not compile with #[hooq]",
                        "\n".join(det) + c.raw[-2000:], files)
    try:
        r2 = build.run(os.path.join(d, "gen"), d, timeout=180)
    except build.subprocess.TimeoutExpired:
        # the reference needed far less
        raise Violation("the annotated program does not end (the reference does)", "", files)
    a, b = r1[1].split("\n"), r2[1].split("\n")
    by = {u.name: u for u in units}
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "<nothing>"
        y = b[i] if i < len(b) else "<nothing: exit %d %s>" % (r2[0], r2[2][-300:])
        if not x and not y:
            continue
        p = x.split("\t", 1)
        u = by.get(p[0])
        if x != y:
            raise Violation("%s: the hooked program behaves differently from the reference" % p[0],
                            explain(u, spans, src, ref, rspans, x, y), files)
        evs = p[1].split("\x01")[1:]
        st.runs += 1
        st.events += len(evs)
        st.hook_events += sum(1 for e in evs if e.startswith(("HOOK", "TAG", "CQ", "LOG", "TRACE", "STDERR")))
        st.panics += evs[-1].startswith("panic")
        st.traces.add(hash(p[0] + "\x01".join(evs)))
    for u in units:
        st.units += 1
        st.labels[u.label] += 1
        for s in u.root_info.sites:
            st.sites[s] += 1
    u = units[len(units) // 2]
    l = [x for x in a if x.startswith(u.name + "\t")]
    if l:
        sa, sb = spans[u.name]
        st.samples.append({"program": "\n".join(src.split("\n")[sa - 1:sb - 1])[:700],
                           "tapes": len(l), "trace": l[0].split("\x01")[1:][:12]})
    # the shard is done with
    shutil.rmtree(d)
    return st


def explain(u, spans, src, ref, rspans, x, y):
    o = []
    ex, ey = x.split("\x01"), y.split("\x01")
    o.append("tape (seed, failing call, failure %%): %s" % ex[0])
    for i in range(max(len(ex), len(ey))):
        p = ex[i] if i < len(ex) else "<end>"
        q = ey[i] if i < len(ey) else "<end>"
        if p != q:
            o.append("event %d\n  expected: %s\n  observed: %s" % (i, p, q))
            break
        elif i:
            o.append("  %s" % p)
    if u:
        a, b = spans[u.name]
        o.append("---- annotated (%s)\n%s" % (u.label, "\n".join(src.split("\n")[a - 1:b - 1])))
        a, b = rspans[u.name]
        o.append("---- reference\n%s" % "\n".join(ref.split("\n")[a - 1:b - 1]))
    return "\n".join(o)


def run_units(units, tag, toml=None, cq=False, seed="s", per=40, jobs=8, max_reject=0.5, features=(), tomls=None, opts=None, extra=()):
    """Runs all units in parallel shards; returns (stats, violations).

    With `tomls` the units of each configuration (`u.cfg`) form one shard; `opts`: heads of the files per shard;
    `extra`: further shards, each a sample of the units under other options."""
    h = build.harness(features)
    wd = os.path.join(build.BUILD, "w", tag)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    n = max(1, min(len(units), (len(units) + per - 1) // per))
    groups = [units[i::n] for i in range(n)]
    if tomls is not None:
        n = len(tomls)
        groups = [[u for u in units if u.cfg == i] for i in range(n)]
    more = {}
    for i, o in enumerate(extra):
        more[len(groups)] = o
        # copies: emitting a program leaves positions in its nodes
        groups.append(copy.deepcopy(random.Random("%s/%s/%d" % (tag, seed, i)).sample(units, min(per, len(units)))))
    n = len(groups)
    st = Stats()
    vs, inc = [], []

    def one(i):
        t0 = time.time()
        o = more[i] if i in more else opts[i % len(opts)] if opts else {}
        try:
            return shard(o.get("h") or h, groups[i], wd, "s%d" % i, toml if tomls is None else tomls[i], o.get("cq", cq), seed, 0.9 if i in more else max_reject, o)
        except Violation as v:
            return v
        except Inconclusive as v:
            return v
        finally:
            if os.environ.get("HV_DEBUG") and time.time() - t0 > 8:
                print("SLOW", i, time.time() - t0, [u.name for u in groups[i]][:3])
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(n)):
            if isinstance(r, Violation):
                vs.append(r)
            elif isinstance(r, Inconclusive):
                inc.append(r)
            else:
                st.merge(r)
    if inc and not vs:
        raise inc[0]
    return st, vs
