"""C13: what the preset flavors report, against references that write the documented report by hand."""
import random

from . import diff
from .diff import U
from .dprops import DEFAULT, Spec, build_units, fill_mix, fill_ret, fill_tail, fill_try
from .gen import *
from .model import *
from .raw import RawU, auto

LEVELS = ["error", "warn", "info", "debug", "trace"]
M_DEFAULT = '.inspect_err(|e| { hrt::errln(format!("[{}:{}:{}] {:?}\\n{}", $path, $line, $column, e, $x_default)) })'
M_LOG = '.inspect_err(|e| { hrt::logfull(::std::module_path!(), $level, format!("({}:{}:{}) {}\\n{}", $path, $line, $column, e, $x_default)) })'
M_TRACING = '.inspect_err(|e| { hrt::traceref(::std::module_path!(), $level, $path, $line, $column, e.to_string(), $x_one) })'
M_ANYHOW = '.with_context(|| format!("[{}:{}:{}]\\n{}", $path, $line, $column, $x_default))'
M_EYRE = '.wrap_err_with(|| format!("[{}:{}:{}]\\n{}", $path, $line, $column, $x_default))'
M_HOOK = ".hook(|| { $hooq_meta })"

TOML = """
[default.all]
tail_expr_idents = ["Err", "rid"]
result_types = ["Result", "Res", "Out", "Option"]

[log.quiet]
hook_targets = ["?"]
[log.quiet.bindings]
level = "::log::Level::Debug"
[log.quiet.deep]
tail_expr_idents = ["rid"]

[tracing.t2]
bindings.level = "::tracing::Level::INFO"
[tracing.t2.ret]
hook_targets = ["return", "tail_expr"]

[hook.h2]
bindings = { who = "7i64" }

[anyhow.few]
hook_targets = ["?", "return"]
[anyhow.few.more]
result_types = ["Result", "Res", "Out"]
tail_expr_idents = ["r", "rid"]

[eyre.few]
hook_targets = ["?", "return"]
[color_eyre.few]
tail_expr_idents = ["rid"]
"""


ALL = ("anyhow", "eyre", "log", "tracing")
FEATURE = {"anyhow": "anyhow", "eyre": "eyre", "color_eyre": "eyre", "log": "log", "tracing": "tracing"}


def flavors(toml, on=ALL):
    """The flavors there are; `on`: the features of the build."""
    fl = {"default": Flavor(M_DEFAULT), "hook": Flavor(M_HOOK), "anyhow": Flavor(M_ANYHOW, traits=("x",)), "eyre": Flavor(M_EYRE), "color_eyre": Flavor(M_EYRE),
          "log": Flavor(M_LOG, binds={"level": "::log::Level::Error"}), "tracing": Flavor(M_TRACING, binds={"level": "::tracing::Level::ERROR"})}
    for l in LEVELS:
        fl["log." + l] = Flavor(M_LOG, binds={"level": "::log::Level::" + l.capitalize()})
        fl["tracing." + l] = Flavor(M_TRACING, binds={"level": "::tracing::Level::" + l.upper()})
    for n in list(fl):
        t = n.split(".")[0]
        if t in FEATURE and FEATURE[t] not in on:
            del fl[n]
            if toml:
                # a flavor of the project's own like any other
                fl[t] = fl["default"].clone()
    if toml:
        def sub(name, base, **kw):
            f = fl[base].clone()
            for k, v in kw.items():
                if k == "binds":
                    f.binds.update(v)
                else:
                    setattr(f, k, v)
            fl[name] = f
        sub("default.all", "default", idents=("Err", "rid"), rtypes=("Result", "Res", "Out", "Option"))
        sub("log.quiet", "log", targets=frozenset("?"), binds={"level": "::log::Level::Debug"})
        sub("log.quiet.deep", "log.quiet", idents=("rid",))
        sub("tracing.t2", "tracing", binds={"level": "::tracing::Level::INFO"})
        sub("tracing.t2.ret", "tracing.t2", targets=frozenset(("return", "tail expr")))
        sub("hook.h2", "hook", binds={"who": "7i64"})
        sub("anyhow.few", "anyhow", targets=frozenset(("?", "return")))
        sub("anyhow.few.more", "anyhow.few", rtypes=("Result", "Res", "Out"), idents=("r", "rid"))
        sub("eyre.few", "eyre", targets=frozenset(("?", "return")))
        sub("color_eyre.few", "color_eyre", idents=("rid",))
    return fl


def head(fam):
    if fam == "mix":
        return diff.HEAD, diff.REF_HEAD
    h = "#![allow(warnings)]\nuse ::hrt::%s as hrt;\nuse hrt::*;\n" % ("an" if fam == "anyhow" else "ey")
    tr = {"anyhow": "use ::anyhow::Context as _;\n", "eyre": "use ::eyre::WrapErr as _;\nuse ::eyre::ContextCompat as _;\n",
          "color_eyre": "use ::color_eyre::eyre::WrapErr as _;\nuse ::color_eyre::eyre::ContextCompat as _;\n"}[fam]
    return h + "use hooq::hooq;\n", h + tr


class C13(Spec):
    foreign = 0.0                # whether an excerpt shows them is not claimed
    fills = (fill_try, fill_try, fill_ret, fill_tail)
    depth1 = False

    def __init__(self, fam, cfg, toml, n2, nr, on=ALL):
        self.fam, self.cfg, self.on = fam, cfg, on
        self.fl = flavors(toml, on)
        top = ("default", "hook", "log", "tracing") if fam == "mix" else (fam,)
        self.names = [n for n in self.fl if n.split(".")[0] in top]
        self.n2, self.nr = (n2, n2), (nr, nr)
        self.kinds = "RROVQ" if fam == "mix" else "RRRV"
        self.profile = dict(attr=0.12, tryo=fam == "mix")
        self.sprofile = dict(stmts=(0, 0), tryo=fam == "mix")
        self.sattr = 0.2
        self.attr_fn = self.attrs
        self.unit = self.make

    def make(self, *a, **kw):
        u = U(*a, singles=10, randoms=4, **kw)
        u.cfg = self.cfg
        return u

    def root(self, g):
        r = g.rng
        n = r.choice([x for x in self.names if x.split(".")[0] == r_fam] if (r_fam := r.choice(sorted({x.split(".")[0] for x in self.names}))) else self.names)
        p = n.replace(".", "::")
        ra = r.choice(["#[hooq(%s)]" % p, '#[hooq(flavor = "%s")]' % n])
        if n == "default" and r.random() < 0.6:
            ra = "#[hooq]"
        attrs = []
        if r.random() < 0.4:
            attrs += self.attrs(g, None)
        return attrs, ra, self.fl[n]

    def attrs(self, g, n):
        r = g.rng
        x = r.random()
        if x < 0.12:
            return [a_skip()]
        if x < 0.16:
            return [a_skip_all()]
        if x < 0.26:
            return [a_targets(r.sample(("?", "return", "tail expr"), r.randint(0, 3)))]
        if x < 0.36:
            return [a_rtypes(r.sample(["Result", "Res", "Out"], r.randint(1, 3)))]
        if x < 0.46:
            return [a_idents(r.sample(["Err", "rid", "r"], r.randint(1, 2)))]
        if self.fam != "mix":
            m = r.choice(self.names)
            if x < 0.6:
                return [a_method(r.choice([".$so_far", ".inspect_err(|e| hrt::sink(hrt::frames(e))).$so_far", ".$so_far.inspect_err(|e| hrt::sink(hrt::frames(e)))"]))]
            return [a_flavor(r.choice(["flavor", "method", "hook_targets", "bindings"]), m, self.fl[m], False)]
        lv = [y for y in [("log", str.capitalize), ("tracing", str.upper)] if y[0] in self.on]
        if x < 0.66 and lv:
            fam, f = r.choice(lv)
            v = "::%s::Level::%s" % (fam, f(r.choice(LEVELS)))
            if fam == "log" and r.random() < 0.5:
                v = r.choice(["{ hrt::p(%d); %s }" % (g.id(), v), "if true { %s } else { ::log::Level::Trace }" % v])
            o = [a_bind("level", v, r.randrange(3))]
            if r.random() < 0.6:
                o.append(a_flavor("method", fam, self.fl[fam], False))
                r.shuffle(o)
            return o
        if x < 0.74:
            return [a_method(r.choice([".tg(\"x\").$so_far", ".$so_far.tg(\"y\")", ".$so_far.$so_far"]))]
        m = r.choice(self.names)
        return [a_flavor(r.choice(["flavor", "flavor", "method", "hook_targets", "bindings"]), m, self.fl[m], False)]


def run(tier, seed):
    from .main import diff_cov
    rng = random.Random("C13/%s" % seed)
    k = 1 if tier == "quick" else 14
    units, tomls, opts = [], [], []
    fams = ["mix"] * 16 + ["anyhow"] * 6 + ["eyre"] * 4 + ["color_eyre"] * 4
    per = {}
    for rep in range(k):
        for fam in fams:
            cfg = len(tomls)
            toml = TOML if rng.random() < 0.5 else None
            us = build_units(C13(fam, cfg, toml, 22, 16), "quick", random.Random(rng.random()))
            h, rh = head(fam)
            tomls.append(toml)
            cr = rng.choice([None, None, None, "hq_2", "h-q2"])
            opts.append(dict(head=h, ref_head=rh, prologue="    ::hrt::full_reports();\n", crate=cr))
            units += us
    for fam, us in catalogue().items():
        cfg = len(tomls)
        for u in us:
            u.cfg = cfg
        h, rh = head(fam)
        tomls.append(None)
        opts.append(dict(head=h, ref_head=rh, prologue="    ::hrt::full_reports();\n"))
        units += us
    st, vs = diff.run_units(units, "C13", seed=str(seed), max_reject=0.6, tomls=tomls, opts=opts)
    cov = diff_cov(st)
    cov["rule"] = ("a run of a program under a preset flavor on one fault tape, its reports (stderr lines, log records, tracing events, context "
                   "frames, metadata) compared with hand-written ones; distinct = different (program, event sequence)")
    return cov, vs, st.units and st.hook_events


NAMES = {"default": ["default", ""], "log": ["log", "log::error", "log::warn", "log::info", "log::debug", "log::trace"],
         "tracing": ["tracing", "tracing::error", "tracing::warn", "tracing::info", "tracing::debug", "tracing::trace"],
         "anyhow": ["anyhow"], "eyre": ["eyre"], "color_eyre": ["color_eyre"], "hook": ["hook"]}


def texts(preset):
    """The hook's text at one target, as `auto` wants it."""
    fam, _, lv = preset.partition("::")
    fam = fam or "default"
    if fam == "default":
        return lambda q, a, b: '.inspect_err(|e| { hrt::errln(format!("[{}:{}:{}] {:?}\\n{}", "gen.rs", @L{%s}, @C{%s}, e, @X{%s,%s})) })' % (q, q, a, b)
    if fam == "log":
        return lambda q, a, b: '.inspect_err(|e| { hrt::logfull(::std::module_path!(), ::log::Level::%s, format!("({}:{}:{}) {}\\n{}", "gen.rs", @L{%s}, @C{%s}, e, @X{%s,%s})) })' % ((lv or "error").capitalize(), q, q, a, b)
    if fam == "tracing":
        return lambda q, a, b: '.inspect_err(|e| { hrt::traceref(::std::module_path!(), ::tracing::Level::%s, "gen.rs", @L{%s}, @C{%s}, e.to_string(), @O{%s,%s}) })' % ((lv or "error").upper(), q, q, a, b)
    m = "with_context" if fam == "anyhow" else "wrap_err_with"
    return lambda q, a, b: '.%s(|| format!("[{}:{}:{}]\\n{}", "gen.rs", @L{%s}, @C{%s}, @X{%s,%s}))' % (m, q, q, a, b)


def catalogue():
    out = {"mix": [], "anyhow": [], "eyre": [], "color_eyre": []}

    def add(preset, name, src, call_, pre="", attrs=""):
        fam = preset.partition("::")[0] or "default"
        n = name + "_" + (preset.replace("::", "_") or "plain")
        src, call_, pre = (x.replace(name, n) for x in (src, call_, pre))
        s, r = auto(src, texts(preset))
        out[fam if fam in out else "mix"].append(
            RawU(n, attrs + s, r, call_, pre, "#[hooq(%s)]" % preset if preset else "#[hooq]", label="catalogue " + n))
    for fam in ("default", "log", "tracing", "anyhow", "eyre", "color_eyre"):
        for p in NAMES[fam]:
            # nothing is computed where nothing fails
            add(p, "z_lazy", "fn z_lazy(n: i64) -> Result<i64, E> { let a = ⟨z_lazy_q(n)⟩?; if a > 5 { ‹return z_lazy_q(a)›; } let b = (|| -> Result<i64, E> { let v = ⟨z_lazy_q(a)⟩?; ⟪z_lazy_q(v)⟫ })(); ⟪match ⟨b⟩? { x if x > 3 => Ok(x), x => z_lazy_q(x) }⟫ }",
                "hrt::allocs(|| { let mut s = 0; for i in 0..20 { s += z_lazy(i).unwrap(); } s })", "fn z_lazy_q(n: i64) -> Result<i64, E> { Ok(n) }")
            # an error that passes several targets is reported at each of them, inside out
            add(p, "z_nest", """fn z_nest(n: i64) -> Result<i64, E> {
    if n == 0 {
        ‹return r(1)›;
    }
    let a = ⟨z_nest(n - 1)⟩?;
    let b = ⟨⟨Ok::<_, E>(r(2))⟩?⟩?;
    let f = |x: i64| -> Result<i64, E> { if c(1) { ‹return Err(ev(x))› } ⟪r(
        x
    )⟫ };
    let z = match f(a) { Ok(v) => v, Err(e) if c(2) => ‹return Err(e)›, Err(e) => { ⟪Err(
        // again
        e,
    )⟫ }
        .or_else(|e| { sink(e); f(3) }).unwrap_or(4) };
    ⟪r(a + b + z)⟫ }""".replace("⟪Err(\n        // again\n        e,\n    )⟫ }", "let q: Result<i64, E> = { ⟪Err(\n        // again\n        e,\n    )⟫ }; q }"), "z_nest(3)")
            add(p, "z_loop", "fn z_loop() -> Result<i64, E> { let mut n = 0; for i in 0..3 { n += match (|| { let v = ⟨r(i)⟩?; Ok::<i64, E>(v) })() { Ok(v) => v, Err(e) => { sink(e); continue } }; } let v: Result<Vec<i64>, E> = (0..3).map(|i| { if i == 1 { ‹return r(9)› } Ok(⟨r(i)⟩? + ⟨r(7)⟩?) }).collect(); sink(⟨v⟩?); Ok(n) }".replace("‹return r(9)›", "return r(9)"), "z_loop()")
            # the future of a hooked function can still be sent to another thread
            add(p, "z_send", "async fn z_send(x: &i64) -> Result<i64, E> { let a = ⟨ar(*x).await⟩?; let f = async { Ok::<i64, E>(⟨ar(a).await⟩? + ⟨ar(2).await⟩?) }; let b = ⟨f.await⟩?; if c(7) { ‹return ar(3).await›; } let d = async |v: i64| -> Result<i64, E> { let w = ⟨ar(v).await⟩?; ⟪ar(w).await⟫ }; sink(⟨d(b).await⟩?); ⟪ar(b).await⟫ }",
                "{ fn z_send_s<T: Send>(t: T) -> T { t } block_on(z_send_s(z_send(&1))) }")
    # the error itself is neither copied nor dropped early
    pre = """#[derive(PartialEq)] pub struct Once(i64);
impl std::fmt::Debug for Once { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "once {}", self.0) } }
impl std::fmt::Display for Once { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "ONCE {}", self.0) } }
impl Drop for Once { fn drop(&mut self) { hrt::log(format!("dropped {}", self.0)); } }
fn z_once_f(n: i64) -> Result<i64, Once> { if hrt::c(n) { Ok(n) } else { Err(Once(n)) } }"""
    for fam in ("default", "log", "tracing"):
        for p in NAMES[fam][:3]:
            pn = pre.replace("Once", "Once_" + (p.replace("::", "_") or "plain"))
            add(p, "z_once", "fn z_once() -> Result<i64, Once> { let a = ⟨z_once_f(1)⟩?; let b = (|| -> Result<i64, Once> { if c(7) { ‹return z_once_f(8)› } ⟪z_once_f(2)⟫ })(); ⟪b.map(|x| x + a)⟫ }".replace("Once", "Once_" + (p.replace("::", "_") or "plain")), "z_once()", pn)
    # an error that shows itself differently by the flags of the formatter
    pre = r"""#[derive(PartialEq)] pub struct Alt(i64);
impl std::fmt::Debug for Alt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "debug {} {} {:?} {:?} {} {:?}", self.0, f.alternate(), f.width(), f.precision(), f.sign_plus(), f.fill()) } }
impl std::fmt::Display for Alt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "display {} {} {:?} {:?} {} {:?}", self.0, f.alternate(), f.width(), f.precision(), f.sign_plus(), f.fill()) } }
fn z_alt_f(n: i64) -> Result<i64, Alt> { if hrt::c(n) { Ok(n) } else { Err(Alt(n)) } }
#[derive(Debug, PartialEq)] pub struct AltN { a: Option<i64>, b: &'static str } impl std::fmt::Display for AltN { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("multi\nline {} \"q\"") } }
fn z_alt_g(n: i64) -> Result<i64, AltN> { if hrt::c(n) { Ok(n) } else { Err(AltN { a: Some(n), b: "q\n" }) } }"""
    for fam in ("default", "log", "tracing"):
        for p in NAMES[fam][:3]:
            w = "Alt_" + (p.replace("::", "_") or "plain")
            add(p, "z_alt", "fn z_alt() -> Result<i64, Alt> { let a = ⟨z_alt_f(1)⟩?; let b = (|| -> Result<i64, AltN> { let v = ⟨z_alt_g(5)⟩?; if c(7) { ‹return z_alt_g(8)› } ⟪z_alt_g(v)⟫ })(); sink(b); if c(3) { ‹return z_alt_f(4)›; } ⟪z_alt_f(2)⟫ }".replace("AltN", w + "N").replace("Alt>", w + ">"), "z_alt()",
                pre.replace("AltN", "A@N").replace("Alt", w).replace("A@N", w + "N"))
    # `$level` is looked at only for an error
    for lv in ("Warn", "Trace"):
        n = "z_lev" + lv
        m = texts("log::" + lv.lower())
        src = "fn %s() -> Result<i64, E> { let a = ⟨r(1)⟩?; ⟪r(2 + a)⟫ }" % n
        s, r = auto(src, lambda q, a, b: m(q, a, b).replace("::log::Level::" + lv, "{ hrt::p(5); ::log::Level::%s }" % lv))
        out["mix"].append(RawU(n, "#[hooq::level = { hrt::p(5); ::log::Level::%s }] " % lv + s, r, n + "()", "", "#[hooq(log)]", label="catalogue lazy level"))
    # the trait behind the hook flavor asks for the metadata when it wants it
    src = "fn z_hook() -> Result<i64, z_hook_m::X> { let a = ⟨z_hook_m::f(1)⟩?; sink(a); if c(4) { ‹return z_hook_m::f(3)›; } ⟪z_hook_m::f(2)⟫ }"
    s, r = auto(src, lambda q, a, b: ".hook(|| { hrt::p(6); (@L{%s} as usize, @C{%s} as usize) })" % (q, q))
    for mode in ("gen",):
        out["mix"].append(RawU("z_hook", "#[hooq::k = hrt::p(6)] pub " + s, r, "z_hook()",
                               "mod z_hook_m { use super::*; #[derive(Debug)] pub struct X(i64); pub fn f(n: i64) -> Result<i64, X> { if c(n) { Ok(n) } else { Err(X(n)) } }\n"
                               "pub trait P { fn lc(self) -> (usize, usize); } impl P for ::hooq::HooqMeta { fn lc(self) -> (usize, usize) { (self.line, self.column) } } impl P for (usize, usize) { fn lc(self) -> (usize, usize) { self } }\n"
                               "impl<T> Hm for Result<T, X> { fn hook<A: P>(self, f: impl FnOnce() -> A) -> Self { if let Err(e) = &self { hrt::log(format!(\"REPORT {e:?} {:?}\", f().lc())); } self } } pub trait Hm { fn hook<A: P>(self, f: impl FnOnce() -> A) -> Self; } }\n#[allow(unused)] mod z_hook_w { use super::sink; use hrt::c; use super::z_hook_m; use super::z_hook_m::Hm; use hooq::hooq;",
                               "", label="catalogue lazy metadata"))
        u = out["mix"][-1]
        u.root_attr = "#[hooq(hook)] "
        u.refsrc = "pub " + u.refsrc
        u.post = "\n}"
        u.call = "z_hook_w::z_hook()"
    # whatever the names of the user's own module mean
    for fam in ("default", "log", "tracing", "anyhow", "eyre", "color_eyre"):
        for p in NAMES[fam][:2]:
            n = "z_own_names_" + (p.replace("::", "_") or "plain")
            tx = texts(p)
            src = "fn %s() -> Result<i64, E> { let path = 1i64; let (line, col) = (2i64, 3i64); let expr = 4i64; let a = ⟨r(path + line)⟩?; if c(7) { ‹return r(col)›; } ⟪r(a + expr)⟫ }" % n
            s, r = auto(src, lambda q, a, b: tx(q, a, b).replace("format!(", "::std::format!("))
            u = RawU(n, "pub " + s, "pub " + r, "m_%s::%s()" % (n, n), "mod m_%s { use super::*; use hooq::hooq; mod std {} mod core {} mod log {} mod tracing {} mod anyhow {} mod eyre {} mod color_eyre {} mod alloc {} pub struct Level; pub struct String; pub trait ToString {} pub trait Context {} pub trait WrapErr {} "
                     "#[allow(unused_macros)] macro_rules! format { ($($t:tt)*) => { ::std::compile_error!(\"format\") } } #[allow(unused_macros)] macro_rules! eprintln { ($($t:tt)*) => { ::std::compile_error!(\"eprintln\") } }\n" % n,
                     "#[hooq(%s)] " % p if p else "#[hooq] ", label="catalogue names of the user's own")
            u.post = "\n}"
            out[fam if fam in out else "mix"].append(u)
    # frames
    for p in ("anyhow", "eyre", "color_eyre"):
        add(p, "z_opt", "fn z_opt() -> Result<i64, E> { let a = ⟨o(1)⟩?; let b = ⟨o(a + 1).map(|x| x * 2)⟩?; ⟪o(b).ok_or_else(|| ev(8))⟫ }", "z_opt()")
        add(p, "z_leaf", "fn z_leaf() -> Result<i64, E> { let a = ⟨leaf(1)⟩?; let f = || -> Result<i64, E> { let q = ⟨leaf(a)⟩?; ⟪leaf(q + 1)⟫ }; if c(3) { ‹return leaf(5)›; } ⟪f()⟫ }",
            "z_leaf().map_err(|e| { let b = (e.downcast_ref::<::hrt::E>().cloned(), e.is::<::hrt::E>(), e.root_cause().to_string(), frames(&e)); b })")
        add(p, "z_down", "fn z_down() -> Result<(), E> { let r_ = (|| -> Result<i64, E> { ⟪leaf(2)⟫ })(); if let Err(e) = &r_ { sink(e.downcast_ref::<::hrt::E>()); } ⟨r_⟩?; Ok(()) }", "z_down().map_err(|e| frames(&e))")
        add(p, "z_own", "fn z_own() -> Result<i64, E> { let a = ⟨r(1).%s(\"mine\")⟩?; let b = ⟨r(a).%s(|| format!(\"lazy {a}\"))⟩?; ⟪r(b)⟫ }" % (("context", "with_context") if p == "anyhow" else ("wrap_err", "wrap_err_with")), "z_own().map_err(|e| frames(&e))")
        add(p, "z_io", "fn z_io(x: &str) -> Result<i64, E> { let n: i64 = ⟨x.trim().parse::<i64>()⟩?; let s = ⟨std::str::from_utf8(if c(1) { b\"ok\" } else { &[0xff] })⟩?; let u: u8 = ⟨u8::try_from(n)⟩?; sink((s, u)); ⟪r(n)⟫ }", "(z_io(\"12\").map_err(|e| frames(&e)), z_io(\"x\").map_err(|e| frames(&e)), z_io(\"300\").map_err(|e| frames(&e)))")
        add(p, "z_impl", "impl z_implT { pub fn a(&self) -> Result<i64, E> { ⟪self.b()⟫ } fn b(&self) -> Result<i64, E> { Ok(⟨r(self.0)⟩?) } }", "z_implT(3).a().map_err(|e| frames(&e))", pre="#[allow(non_camel_case_types)] pub struct z_implT(i64);")
    return out
