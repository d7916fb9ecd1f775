"""C17: the same item under the same configuration always expands to the same code and diagnostics.

What is observed: the expanded source (`-Zunpretty=expanded`) and the JSON diagnostics of many compiler
processes over the same modules, each module a file of its own so that its positions never change while
the history of expansions around it does.  The oracle is equality, per module, with the expansion of that
module by a fresh process that belongs to that module's project alone.
"""
import collections
import difflib
import json
import os
import random
import re
import shutil
import threading
from concurrent.futures import ThreadPoolExecutor

from . import build, dprops
from .build import Inconclusive
from .diff import Violation
from .flavors import Tree
from .gen import *
from .model import *

SPECS = ("C05", "C07", "C09", "C10", "C11", "C15", "C08", "C06", "C04")

# items that are wrong in one or several places; what is said about them must not vary either
BAD = [
    "#[hooq(nosuch)]\nfn {n}() -> Result<i64, E> {{ r(1)?; Ok(2) }}",
    "#[hooq(uf1::nosuch)]\nfn {n}() -> Result<i64, E> {{ r(1)? }}",
    "#[hooq]\n#[hooq::method(.hk(|| $who_knows))]\n#[hooq::b0 = 1]\n#[hooq::b1 = 2]\n#[hooq::zz = 3]\n#[hooq::aa = 4]\nfn {n}() -> Result<i64, E> {{ r(1)?; r(2) }}",
    "#[hooq(uf1)]\n#[hooq::method(.hk(|| $who_knows + $nor_me))]\n#[hooq::q1 = 1]\n#[hooq::q2 = 2]\nfn {n}() -> Result<i64, E> {{ #[hooq::w = 3] r(1)?; r($x) }}",
    "#[hooq]\n#[hooq::hook_targets(\"?\", \"retrun\", \"tail\")]\nfn {n}() -> Result<i64, E> {{ r(1) }}",
    "#[hooq]\nfn {n}() -> Result<i64, E> {{ #[hooq::skipp] r(1)?; #[hooq::method = nosuch::x] r(2)?; Ok(1) }}",
    "#[hooq(trait_uses(a b))]\nfn {n}() {{ }}",
    "#[hooq(trait_usse(a))]\nfn {n}() {{ }}",
    "#[hooq]\n#[hooq::method($so_far)]\nfn {n}() -> Result<i64, E> {{ r(1) }}",
    "#[hooq]\nfn {n}() -> Result<i64, E> {{ #[hooq::bindings = uf2] #[hooq::flavor = \"uf1.inn\"] #[hooq::method(.hk(|| format!(\"{{:?}}\", ($nope, $nope2))))] {{ r(1)? }}; Ok(1) }}",
    "#[hooq]\nstruct {n};",
    "#[hooq]\n#[hooq::binding(a.b = 1)]\nfn {n}() {{ }}",
]


class Module:
    def __init__(self, project, name, rel, bad, text):
        self.project, self.name, self.rel, self.bad, self.text = project, name, rel, bad, text


class Project:
    def __init__(self, name, dir, toml, crate):
        self.name, self.dir, self.toml, self.crate = name, dir, toml, crate


def multi_broken(r):
    """A hooq.toml with several mistakes at once: which is reported first must not depend on chance."""
    ts = ['[%s]\nmethod = ".foo("\n', '[%s]\nhook_targets = ["bad_%s"]\n', '[%s]\ntrait_uses = ["a b %s"]\n',
          '[%s.bindings]\nx = "1 +"\ny = "%s )"\nz = "= 3"\n', '[%s.sub.subsub]\nhook_targets = ["q%s"]\n[%s.sub2]\ntrait_uses=["<"]\n']
    names = r.sample(["aa", "bb", "cc", "dd", "ee", "ff", "log", "anyhow", "default", "zz"], r.randint(4, 8))
    return "\n".join(re.sub("%s", n, r.choice(ts)) for n in names)


def projects(r, wd, n):
    ps = []
    for i in range(n):
        kind = ["tree", "tree", "renamed", "none", "tree", "broken", "syntax", "renamed2", "tree", "none2"][i % 10]
        d = os.path.join(wd, "p%d" % i if r.random() < 0.7 else "p%d/sub.dir" % i)
        if ps and r.random() < 0.3 and not kind.startswith("none"):
            d = os.path.join(ps[-1].dir, "nested%d" % i)
        if r.random() < 0.25:
            d = os.path.join(wd, "w%d" % i, "gen")           # same last component
        toml = {"tree": lambda: Tree(r).text, "renamed": lambda: Tree(r).text, "renamed2": lambda: None, "none": lambda: None,
                "none2": lambda: None, "broken": lambda: multi_broken(r), "syntax": lambda: "[a\nb = 1"}[kind]()
        build.project(d, toml)
        crate = "hooq"
        if kind.startswith("renamed"):
            crate = "hq" if kind == "renamed" else "hook_q"
            with open(os.path.join(d, "Cargo.toml"), "w") as f:
                f.write('[package]\nname = "gen"\nversion = "0.0.0"\nedition = "2024"\n\n[dependencies]\n%s = { package = "hooq", version = "*" }\n' % crate.replace("_", "-"))
        ps.append(Project("p%d" % i, d, toml, crate))
    return ps


def item_text(r, name, flavors):
    sp = dprops.REG[r.choice(SPECS)]()
    prof = dict(depth=r.choice([2, 3, 3, 4]), stmts=r.choice([(0, 2), (0, 3), (1, 4)]))
    prof.update(sp.profile)
    g = Gen(random.Random(r.random()), prof)
    if sp.attr_fn:
        g.attr_fn = sp.attr_fn
    pre, it, c = wrap_item(g, name, r.choice(sp.kinds))
    attrs, ra, fl = sp.root(g)
    it.attrs = list(attrs) + list(it.attrs)
    if r.random() < 0.6:
        ra = "#[hooq(%s)]" % r.choice(flavors)
    binds = "".join("#[hooq::%s = %s] " % (b, v) for b, v in zip(r.sample(["b0", "b1", "who", "alpha", "zulu", "m_1", "k9", "long_name", "x"], r.randint(0, 7)), "1 2 3 4 5 6 7".split()))
    if r.random() < 0.7:
        binds += r.choice(["#[hooq::method(.hk(|| hrt::meta_bindings(&$bindings)))] ", "#[hooq::method(.hk(|| format!(\"{:?}\", $hooq_meta.line)))] ", ""])
    w = Writer()
    w.layout = random.Random(r.random())
    it.src(w)
    return pre + "\n" + ra + "\n" + binds + w.text() + "\n"


HEADM = "use %s::hooq;\nuse hrt::*;\n"


def modules(r, ps, per):
    flavors = ["default", "uf1", "uf2", "uf1::inn", "my_flavor", "Zed", "base", "log", "log::warn", "anyhow", "tracing", "hook", "eyre", "flavor = \"uf1\"", "flavor = \"my_flavor.sub\"", "trait_use(hrt::tr::T1)", "uf2, trait_uses(hrt::tr::T1, hrt::tr::deep::T3)", "empty"]
    ms = []
    shared = []                   # the same text in several projects
    while len(shared) < 4:
        try:
            shared.append(item_text(r, "same%d" % len(shared), flavors[1:7]))
        except Reject:
            pass
    for p in ps:
        k = 0
        while k < per:
            name = "%s_m%d" % (p.name, k)
            bad = r.random() < 0.3
            try:
                if k < len(shared):
                    t, bad = shared[k], False
                elif bad:
                    t = "\n\n".join(b.format(n="bad%d" % i) for i, b in enumerate(r.sample(BAD, r.randint(1, 3))))
                else:
                    t = item_text(r, "f_" + name, flavors)
            except Reject:
                continue
            t = "const P0: &str = sw::probe!();\n" + t + "\nconst P1: &str = sw::probe!();\n"
            rel = os.path.join("src", p.name, name + ".rs")
            ms.append(Module(p, name, rel, bad, HEADM % p.crate + t))
            k += 1
    return ms


NOISE = [{}, {"XDG_CONFIG_HOME": "/nonexistent", "TZ": "Asia/Tokyo"}, {"LANG": "ja_JP.UTF-8", "LC_ALL": "ja_JP.UTF-8", "CARGO_PKG_NAME": "other", "CARGO_CRATE_NAME": "zz"},
         {"RUST_MIN_STACK": "30000000", "USER": "x", "OUT_DIR": "/tmp"}, {"CARGO_WORKSPACE_DIR": "/nowhere", "PWD": "/", "CARGO_TARGET_DIR": "x"}]


class Runner:
    def __init__(self, h, wd):
        self.h, self.wd = h, wd
        self.n = 0
        self.lock = threading.Lock()

    def expand(self, entries, manifest, flags=(), extra=None):
        """Expands a root made of entries [(dir to switch to or None, alias, Module)]."""
        with self.lock:
            self.n += 1
            n = self.n
        rd = os.path.join(self.wd, "run%d" % n)
        os.makedirs(rd)
        # the root is always called the same, so that whole outputs can be compared
        os.symlink(os.path.join(self.wd, "src"), os.path.join(rd, "src"))
        with open(os.path.join(rd, "root.rs"), "w") as f:
            f.write("#![allow(warnings)]\n")
            for cd, alias, m in entries:
                if cd is not None:
                    f.write('sw::cd!("%s");\n' % cd)
                f.write('#[path = "%s"] mod %s;\n' % (m.rel, alias))
            f.write("fn zz_end() {}\nfn main() {}\n")
        ext = build.EXT + ("sw",)
        cmd = ["rustc", "--edition", "2024", "-A", "warnings", "--cap-lints", "allow", "--error-format=json"] + self.h.extern(ext)
        cmd += ["--extern", "hq=" + self.h.artifacts["hq"], "--extern", "hook_q=" + self.h.artifacts["hq"]]
        cmd += ["-Zunpretty=expanded"] + list(flags) + ["root.rs"]
        e = build.env({"CARGO_MANIFEST_DIR": manifest, "RUSTC_BOOTSTRAP": "1"})
        e.update(extra or {})
        e["CARGO_MANIFEST_DIR"] = manifest
        try:
            p = build.spawn(cmd, rd, e, 300)
        except build.Crashed as x:
            raise Violation("the compiler crashes on annotated modules", str(x), [])
        finally:
            shutil.rmtree(rd, ignore_errors=True)
        out = p.stdout.decode("utf-8", "replace")
        err = p.stderr.decode("utf-8", "replace")
        if not out.strip():
            raise Inconclusive("nothing was expanded: " + err[-1500:])
        return Expanded(out, err, [a for _, a, _ in entries], {a: m for _, a, m in entries})


class Expanded:
    def __init__(self, out, err, aliases, by):
        self.out, self.err = out, err
        self.chunks = {}
        marks = [(m.start(), m.group(1)) for m in re.finditer(r"(?m)^(?:#\[path = \"[^\n]*\"\]\n)?(?:mod (\w+) \{|fn zz_end\(\))", out) if m.group(1) is None or m.group(1) in by]
        for (a, n), (b, _) in zip(marks, marks[1:]):
            if n:
                t = out[a:b]
                self.chunks[n] = t.replace("mod %s {" % n, "mod _ {", 1).replace("root::%s" % n, "root::_")
        for a in aliases:
            if a not in self.chunks:
                raise Inconclusive("module %s is missing from the expanded source" % a)
        self.diags = collections.defaultdict(set)
        rels = {m.rel for m in by.values()}
        for l in err.splitlines():
            if not l.startswith("{"):
                if l.strip():
                    self.diags["?"].add(l)
                continue
            d = json.loads(l)
            if d["message"].startswith(("aborting due to", "Some errors have", "For more information")):
                continue
            f = {x["file_name"] for s in d.get("spans", []) for x in chain(s)} & rels
            key = min(f) if f else "?"
            self.diags[key].add(show(d))


def chain(s):
    while s:
        yield s
        s = (s.get("expansion") or {}).get("span")


def show(d, ind=""):
    out = [ind + "%s: %s" % (d["level"], d["message"])]
    for s in d.get("spans", []):
        out.append(ind + "  at %s:%d:%d-%d:%d %s%s" % (s["file_name"], s["line_start"], s["column_start"], s["line_end"], s["column_end"], "primary" if s["is_primary"] else "", " " + s["label"] if s.get("label") else ""))
    if not ind and ((d.get("code") or {}).get("code") or d["message"].startswith("cannot find")):
        return "\n".join(out)      # rustc's own; its hints look at the whole crate
    for c in d.get("children", []):
        out.append(show(c, ind + "  "))
    return "\n".join(out)


def udiff(a, b):
    return "\n".join(list(difflib.unified_diff(a.split("\n"), b.split("\n"), "alone in a fresh process", "here", lineterm="", n=2))[:60])


def run(tier, seed):
    q = tier == "quick"
    r = random.Random("C17/%s" % seed)
    h = build.harness()
    wd = os.path.join(build.BUILD, "w", "C17-%s-%d" % (seed, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        return explore(r, h, wd, q)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def explore(r, h, wd, q):
    ps = projects(r, wd, 10)
    ms = modules(r, ps, 14 if q else 40)
    for m in ms:
        f = os.path.join(wd, m.rel)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fh:
            fh.write(m.text)
    # a decoy where the compiler runs must never be read
    rn = Runner(h, wd)
    st = collections.Counter()
    vs = []
    distinct = set()
    histories = set()
    bykind = collections.Counter()
    lock = threading.Lock()

    def report(what, m, detail):
        with lock:
            if sum(1 for v in vs if v.what == what) >= 3:
                return
            fs = [os.path.join(wd, m.rel)] if m else []
            if m and m.project.toml is not None:
                fs.append(os.path.join(m.project.dir, "hooq.toml"))
            keep = os.path.join(build.BUILD, "replay-src", str(len(vs)))
            os.makedirs(keep, exist_ok=True)
            out = []
            for f in fs:
                out.append(shutil.copy(f, keep))
            vs.append(Violation(what, detail, out))

    # ------------------------------------------------ every module alone, in a fresh process of its project
    def alone(m):
        return rn.expand([(None, m.name, m)], m.project.dir)
    with ThreadPoolExecutor(8) as ex:
        base = dict(zip([m.name for m in ms], ex.map(alone, ms)))
    for m in ms:
        b = base[m.name]
        distinct.add(b.chunks[m.name])
        st["modules"] += 1
        d = sorted(x for v in b.diags.values() for x in v)
        st["modules with diagnostics"] += bool(d)
        if b.diags.get("?"):
            raise Inconclusive("a diagnostic without a place: %s" % sorted(b.diags["?"])[0])

    def compare(what, m, alias, e, hist):
        if e.chunks[alias].count(json.dumps(m.project.dir)) != 2:
            raise Inconclusive("the process was not in %s when %s was expanded" % (m.project.dir, m.name))
        b = base[m.name]
        with lock:
            st["expansions compared"] += 1
            st["bytes compared"] += len(b.chunks[m.name])
            bykind[what] += 1
        if e.chunks[alias] != b.chunks[m.name]:
            report(what + ": the expansion differs", m, "%s\nmodule %s of project %s\n%s\n---- module\n%s\n---- hooq.toml\n%s" % (hist, m.name, m.project.dir, udiff(b.chunks[m.name], e.chunks[alias]), m.text, m.project.toml))
        x, y = b.diags.get(m.rel, set()), e.diags.get(m.rel, set())
        with lock:
            st["diagnostics compared"] += len(x | y)
        if x != y:
            report(what + ": the diagnostics differ", m, "%s\nmodule %s of project %s\n%s\n---- module\n%s\n---- hooq.toml\n%s" % (hist, m.name, m.project.dir, udiff("\n".join(sorted(x)), "\n".join(sorted(y))), m.text, m.project.toml))

    jobs = []
    byp = collections.defaultdict(list)
    for m in ms:
        byp[m.project.name].append(m)

    def single(p, order, what, flags=(), extra=None, dup=False, cwd_decoy=False):
        ents = [(None, m.name if not dup else "%s_d%d" % (m.name, i), m) for i, m in enumerate(order)]
        e = rn.expand(ents, p.dir, flags, extra)
        histories.add((what,) + tuple(x[1] for x in ents))
        for _, a, m in ents:
            compare(what, m, a, e, "modules before it in this process: " + " ".join(x[1] for x in ents[:[y[1] for y in ents].index(a)][-12:]))
        return e

    def repeats(p):
        order = byp[p.name]
        first = None
        for i in range(4 if q else 16):
            e = single(p, order, "repeated in another process", extra=NOISE[i % len(NOISE)])
            if first is None:
                first = e
            elif (e.out, e.err) != (first.out, first.err):
                # equal per module and yet different as a whole: the order of diagnostics
                report("repeated in another process: the output differs", order[0], udiff(first.out + "\n" + first.err, e.out + "\n" + e.err)[:6000])
            with lock:
                st["whole outputs compared"] += 1

    def perms(args):
        p, sd, n = args
        rr = random.Random(sd)
        order = list(byp[p.name])
        rr.shuffle(order)
        if rr.random() < 0.5:
            order = order[:rr.randint(2, len(order))]
        single(p, order, "another order of modules")

    def thread(p):
        single(p, byp[p.name], "every expansion on its own thread", flags=["-Zproc-macro-execution-strategy=cross-thread"])

    def dups(args):
        p, sd = args
        rr = random.Random(sd)
        order = []
        for m in rr.sample(byp[p.name], 5):
            order += [m] * (8 if q else 20)
        rr.shuffle(order)
        single(p, order, "the same item again and again", dup=True)

    def multi(args):
        sd, bad = args
        rr = random.Random(sd)
        pool = [p for p in ps if bad or p.name not in ("p5", "p6")]
        chosen = rr.sample(pool, rr.randint(2, min(6, len(pool))))
        seq = []
        for _ in range(rr.randint(6, 30)):
            p = rr.choice(chosen)
            seq += [(p, m) for m in rr.sample(byp[p.name], rr.choice([1, 1, 2, 4]))]
        ents = []
        for i, (p, m) in enumerate(seq):
            ents.append((p.dir, "%s_v%d" % (m.name, i), m))
        flags = ["-Zproc-macro-execution-strategy=cross-thread"] if rr.random() < 0.3 else []
        e = rn.expand(ents, rr.choice(chosen).dir, flags)
        with lock:
            histories.add(("multi",) + tuple(x[1] for x in ents))
            st["project switches"] += sum(1 for a, b in zip(seq, seq[1:]) if a[0] is not b[0])
        for i, (d, a, m) in enumerate(ents):
            compare("several projects in one process", m, a, e, "projects before it in this process: " + " ".join(p.name for p, _ in seq[:i][-20:]))

    jobs += [(repeats, p) for p in ps]
    jobs += [(perms, (p, r.random(), 0)) for p in ps for _ in range(3 if q else 20)]
    jobs += [(thread, p) for p in ps]
    jobs += [(dups, (p, r.random())) for p in ps for _ in range(1 if q else 6)]
    jobs += [(multi, (r.random(), r.random() < 0.6)) for _ in range(40 if q else 500)]
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(j, a) for j, a in jobs]:
            f.result()
    cov = {"evaluations": st["expansions compared"], "distinct_nontrivial": len(distinct),
           "rule": "an expansion of a module compared, code and diagnostics, with the expansion of the same module alone in a fresh "
                   "process of its project; distinct = different expanded modules",
           "samples": [{"module": m.text[:400], "expanded": base[m.name].chunks[m.name][:600]} for m in ms[4:6]],
           "processes": rn.n, "projects": len(ps), "histories": len(histories), "expansions_by_history": dict(bykind)}
    cov.update({k.replace(" ", "_"): v for k, v in st.items()})
    return cov, vs, st["expansions compared"] > 500 and st["diagnostics compared"] > 50 and st["project switches"] > 50
