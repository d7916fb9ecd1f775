"""C20: each set of cargo features gives exactly its flavors and changes nothing else.

The harness is built with many sets of features.  In each, programs under every flavor that there should be run
against their references (engines 1 and 3), flavors of hooq.toml take the names of presets that are switched off,
and every way to name a preset that is not there must be an error located at the item.
"""
import collections
import itertools
import os
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

from . import build, diff, dprops, presets
from .build import Inconclusive
from .diff import Violation
from .dprops import C01, C16, build_units

FEATS = ("anyhow", "eyre", "log", "tracing", "consume-question")
# what the reference says about the two names for sets
SETS = {"default": FEATS[:4], "full": FEATS}
FLAVORS = {"anyhow": ["anyhow"], "eyre": ["eyre", "color_eyre"], "log": ["log"] + ["log::" + x for x in presets.LEVELS],
           "tracing": ["tracing"] + ["tracing::" + x for x in presets.LEVELS]}
ALWAYS = ["default", "empty", "hook"]


def combos(tier, rng):
    """(name, the features asked for, the features there should be)"""
    subs = [c for k in range(6) for c in itertools.combinations(FEATS, k)]
    named = [("default",), ("full",), ("default", "consume-question")]
    if tier == "quick":
        must = [(), ("log",), ("tracing",), ("anyhow",), ("eyre",), ("consume-question",)]
        subs = must + rng.sample([s for s in subs if s not in must], 4)
    out = []
    for c in subs + named:
        on = set()
        for x in c:
            on |= set(SETS.get(x, (x,)))
        out.append(("+".join(c) or "none", c, tuple(f for f in FEATS if f in on)))
    return out


def small(cls, pid, cfg, n2, nr, toml):
    """A few programs of another engine's property."""
    s = cls()
    s.depth1 = False
    s.n2, s.nr = (n2, n2), (nr, nr)
    s.catalogue = lambda rng: []

    def make(*a, **kw):
        u = diff.U(*a, singles=8, randoms=3, **kw)
        u.cfg = cfg
        return u
    s.unit = make
    return s


def naming(n):
    """Every place where a flavor is named: (text of the item, label)"""
    s = n.replace("::", ".")
    out = []
    for a in ('#[hooq(%s)]' % n, '#[hooq(flavor = "%s")]' % s, '#[hooq(flavor = "%s")]' % n):
        out.append((a + " fn f() -> Result<i64, String> { let a = g()?; Ok(a) }", a))
    for k in ("flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"):
        for v in (n, '"%s"' % s) if k == "flavor" else (n,):
            a = "#[hooq::%s = %s]" % (k, v)
            out.append(("#[hooq] %s fn f() -> Result<i64, String> { let a = g()?; Ok(a) }" % a, a))
            out.append(("#[hooq] fn f() -> Result<i64, String> { %s let a = g()?; Ok(a) }" % a, "inner " + a))
    return out


def named(h, d, on):
    """Names every preset in every way; returns (evaluations, accepted, refused)."""
    build.project(d, None)
    yes, no = 0, 0
    items = []
    for f, ns in list(FLAVORS.items()) + [(None, ALWAYS)]:
        for n in ns + [ns[0] + "::nosuch", ns[-1] + "s"]:
            there = (f is None or f in on) and n in ns
            for t, lab in naming(n):
                items.append((n, there, t, lab))
    # a trailing mark is part of the method only where it can be consumed
    cq = "consume-question" in on
    for m in (".map_err(|e| e)!", "$expr!", "{ $expr } !"):
        items.append(("!", None if m.startswith("{") else cq, "#[hooq] #[hooq::hook_targets(\"?\")] #[hooq::method(%s)] fn f() -> Result<i64, String> { let a: %s = g()?; drop(a); Ok(1) }"
                      % (m, "Result<i64, String>" if cq else "i64"), m))
    src = ["#![allow(warnings)]\nfn main() {}\nfn g() -> Result<i64, String> { Ok(1) }\n"]
    at = {}
    line = 4
    for i, (n, there, t, lab) in enumerate(items):
        # each in a module of its own; the traits of the presets are imported where they are asked for
        src.append("mod m%d { use hooq::hooq; use super::g;\n%s\n}\n" % (i, t))
        at[line + 1] = i
        line += 3
    with open(os.path.join(d, "gen.rs"), "w") as f:
        f.write("".join(src))
    try:
        c = build.rustc(h, "gen.rs", "gen", d, d)
    except build.Crashed as x:
        raise Violation("the compiler crashes on a hooq input", str(x), [os.path.join(d, "gen.rs")])
    errs = collections.defaultdict(list)
    for e in c.errors():
        if e["message"].startswith("aborting") or "could not compile" in e["message"]:
            continue
        ls = build.err_lines(e, "gen.rs")
        if not ls:
            raise Violation("an error that is not located in the user's source", e.get("rendered") or e["message"], [os.path.join(d, "gen.rs")])
        for l in ls:
            if l in at:
                errs[at[l]].append(e)
    if c.ok:
        raise Violation("flavors of features that are off are accepted", "features %s: everything compiles" % (on,), [os.path.join(d, "gen.rs")])
    listed = collections.Counter()
    for i, (n, there, t, lab) in enumerate(items):
        es = errs[i]
        if n == "!":
            if there is False and not es:
                raise Violation("a trailing `!` is accepted without the consume-question feature", t, [os.path.join(d, "gen.rs")])
            if there and es:
                raise Violation("a trailing `!` is refused with the consume-question feature", t + "\n" + es[0]["rendered"], [os.path.join(d, "gen.rs")])
            no, yes = no + (not there), yes + bool(there)
            continue
        missing = [e for e in es if "flavor" in e["message"]]
        if there:
            yes += 1
            if missing:
                raise Violation("a preset flavor of the enabled features is refused", "features %s\n%s\n%s" % (on, t, missing[0]["rendered"]), [os.path.join(d, "gen.rs")])
        else:
            no += 1
            hits = [e for e in missing if n in e["message"] or n.replace("::", ".") in e["message"]]
            if not hits:
                raise Violation("a preset flavor is accepted although its feature is off (or it does not exist)",
                                "features %s\n%s\n%s" % (on, t, "\n".join(e["rendered"] for e in es[:2])), [os.path.join(d, "gen.rs")])
    return len(items), yes, no


def run(tier, seed):
    from .main import diff_cov
    rng = random.Random("C20/%s" % seed)
    quick = tier == "quick"
    cs = combos(tier, rng)
    units, tomls, opts = [], [], []
    hs, vs = [], []
    for name, feats, on in cs:
        try:
            hs.append((name, on, build.harness(feats, alone=True)))
        except build.Unbuilt as e:
            hs.append((name, on, None))
            vs.append(Violation("hooq does not build with the features " + name, str(e), []))
    if len(vs) == len(hs):
        # no set of features builds: not a matter of features
        raise Inconclusive(vs[0].detail[-1500:])
    n2, nr = (6, 5) if quick else (18, 18)
    for name, on, h in hs:
        if h is None:
            continue
        for fam in ("mix", "mix", "anyhow", "eyre", "color_eyre"):
            off = fam != "mix" and presets.FEATURE[fam] not in on
            toml = presets.TOML if off or fam == "mix" and len(tomls) % 2 or rng.random() < 0.3 else None
            k = 2 if fam == "mix" else 1
            spec = presets.C13(fam, len(tomls), toml, n2 * k, nr * k, tuple(f for f in on if f in presets.ALL))
            units += build_units(spec, "quick", random.Random(rng.random()))
            a, b = presets.head(fam)
            tomls.append(toml)
            opts.append(dict(h=h, cq=False, head=a, ref_head=b, prologue="    ::hrt::full_reports();\n", label=name))
        cq = "consume-question" in on
        for cls in (C16, C01) if cq else (C01,):
            units += build_units(small(cls, "C20", len(tomls), 10, 8, None), "quick", random.Random(rng.random()))
            tomls.append(None)
            opts.append(dict(h=h, cq=cq, label=name))
    st, vs2 = diff.run_units(units, "C20", seed=str(seed), max_reject=0.75, tomls=tomls, opts=opts)
    vs += vs2
    wd = os.path.join(build.BUILD, "w", "C20n")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)

    def one(i):
        name, on, h = hs[i]
        if h is None:
            return 0, 0, 0
        d = os.path.join(wd, "n%d" % i)
        os.makedirs(d)
        try:
            return named(h, d, on)
        except (Violation, Inconclusive) as v:
            return v
    tot = collections.Counter()
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, range(len(hs))):
            if isinstance(r, Violation):
                vs.append(r)
            elif isinstance(r, Inconclusive):
                if not vs:
                    raise r
            else:
                for k, v in zip(("n", "yes", "no"), r):
                    tot[k] += v
    cov = diff_cov(st)
    cov["rule"] = ("a run of a program under a set of features, its events compared with the reference; distinct = different (program, event sequence); "
                   "and a naming of a preset flavor (taken or refused)")
    cov["feature_sets"] = len(hs)
    cov["sets"] = [x[0] for x in hs]
    cov["flavors_named"], cov["flavors_taken"], cov["flavors_refused"] = tot["n"], tot["yes"], tot["no"]
    return cov, vs, st.units and st.hook_events and (vs or tot["yes"] and tot["no"])
