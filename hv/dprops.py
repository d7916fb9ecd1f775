"""The properties decided by running annotated programs against hand-hooked references."""
import itertools
import random

from . import diff
from .attrs import cat_attrs
from .diff import U
from .gen import *
from .model import *
from .raw import RawU
from .sysgen import *

ALL = ("?", "return", "tail expr")


class Spec:
    """What one property varies: root settings, attribute decoration, fillers, profile."""
    fills = (fill_try, fill_ret, fill_tail)
    depth1 = True
    n2 = (500, 6000)          # depth-two positions (quick, thorough)
    nr = (160, 2500)          # random programs
    profile = {}
    sprofile = dict(stmts=(0, 0))
    kinds = "RROVQ"
    toml = None
    cq = False
    features = ()
    per = 40
    layout = True
    sattr = 0.0               # decoration of systematic programs
    foreign = 0.06              # foreign attributes on items, statements and tails
    no_cfg = ("expr",)
    max_reject = 0.5
    unit = U
    opts = None               # where the shards' programs lie
    silent = False            # no hook events expected

    def root(self, g):
        """(attributes on the item, root attribute text, flavor)"""
        raise NotImplementedError

    attr_fn = None

    def catalogue(self, rng):
        return []


def hkm(body, r):
    """Ways to write a method that logs `body` (a String expression)."""
    return r.choice([".hk(|| %s)", ".hk(|| %s)", "hrt::hkf($expr, || %s)", ". hk (move || { %s })",
                     "{ let hooked = $expr; hooked.hk(|| %s) }", "$expr.hk(|| %s)", "Hk::hk($expr, || %s)"]) % body


def build_units(spec, tier, rng):
    us = []
    q = 0 if tier == "quick" else 1

    def gen(profile):
        g = Gen(random.Random(rng.random()), dict(profile, cfg=spec.foreign))
        g.no_cfg = spec.no_cfg
        g.attr_fn = spec.attr_fn or (lambda g, n: [])
        return g

    def add(g, name, item, call_, pre, label):
        attrs, ra, fl = spec.root(g)
        us.append(spec.unit(name, item, call_, pre, root_attr=ra, attrs=attrs, flavor=fl, label=label,
                    layout=spec.layout, newline=g.rng.random() < 0.3))
    todo = []
    if spec.depth1:
        c1 = chains(1)
        for f in spec.fills:
            todo += [(f, x) for x in c1]
        todo += [(f, x) for f in spec.fills for x in siblings()]
    c2 = chains(2)
    k2 = spec.n2[q]
    todo += [(rng.choice(spec.fills), x) for x in (rng.sample(c2, k2) if k2 < len(c2) else c2)]
    for i, (f, (fk, ch, t, e)) in enumerate(todo):
        g = gen(dict(spec.sprofile, attr=spec.sattr))
        try:
            n = build_chain(g, ch, base_env(fk), f)
            fn = wrap_fn(g, "s%d" % i, ch[0][0][0], n, fk, g.rng.randrange(6))
        except Reject:
            continue
        add(g, "s%d" % i, fn, "s%d()" % i, "", f.__name__ + " " + chain_label(fk, ch))
    for i in range(spec.nr[q]):
        prof = dict(depth=rng.choice([2, 3, 3, 4, 5]), stmts=rng.choice([(0, 2), (0, 3), (1, 4)]))
        prof.update(spec.profile)
        g = gen(prof)
        name = "r%d" % i
        pre, it, c = wrap_item(g, name, g.rng.choice(spec.kinds))
        add(g, name, it, c, pre, "random " + it.cls)
    us += spec.catalogue(rng)
    return us


REG = {}


def reg(pid):
    def d(c):
        REG[pid] = c
        return c
    return d


DEFAULT = Flavor("$expr")


# ---------------------------------------------------------------- C01

# every third program is one of a project that depends on hooq under another name
RENAMED = [{}, {"crate": "hq_2"}, {}, {"crate": "h-q2"}, {}, {}]


@reg("C01")
class C01(Spec):
    fills = (fill_try,)
    n2 = (700, 20000)
    nr = (220, 3000)

    def root(self, g):
        return [a_method(hkm("String::new()", g.rng)), a_targets(["?"], [g.rng.choice(TARGET_SPELL["?"])])], "#[hooq]", DEFAULT

    def catalogue(self, rng):
        return cat_try() + cat_attrs("C01", rng)


def cat_try():
    H = ".hk(|| String::new())"
    A = '#[hooq::method(.hk(|| String::new()))] #[hooq::hook_targets("?")] '
    out = []

    def add(name, src, call_, pre="", post=""):
        """`⟨e⟩?` marks a hooked operand: the reference wraps it."""
        s = src.replace("⟨", "").replace("⟩", "")
        r = src.replace("⟨", "(").replace("⟩", ")" + H)
        out.append(RawU(name, A + s, r, call_, pre, "#[hooq]", label="catalogue " + name))
    add("k_chain", "fn k_chain() -> Result<i64, E> { Ok(⟨⟨okr(r(1))⟩?⟩?.plus(⟨r(2)⟩?)) }", "k_chain()")
    add("k_try_block", "fn k_try_block() -> i64 { let a: Result<i64, E> = try { ⟨r(1)⟩? + ⟨r(2)⟩? }; let b: Option<i64> = try { let x = ⟨o(3)⟩?; if x > 9 { ⟨o(4)⟩?; } for i in 0..2 { ⟨o(i)⟩?; } x }; let d: Result<i64, E> = try { let q: Option<i64> = try { ⟨o(5)⟩? }; sink(q); let f = |x: i64| -> Result<i64, E> { Ok(⟨r(x)⟩?) }; ⟨f(⟨⟨okr(r(6))⟩?⟩?)⟩? }; sink((a, b, d)); match r(7) { Ok(v) if let Ok(x) = (try { ⟨r(v)⟩? }) && x > 3 => x, _ => 3 } }".replace("(try { ⟨r(v)⟩? })", "(|| -> Result<i64, E> { Ok(⟨r(v)⟩?) })()"), "k_try_block()")
    add("k_yield", "fn k_yield() -> i64 { let v = k_yield_drive(#[coroutine] || -> Result<i64, E> { yield ⟨r(1)⟩?; if ⟨r(2)⟩? > 3 { yield { let x = ⟨⟨okr(r(3))⟩?⟩?; ⟨r(x)⟩? + 1 }; } let _u: () = yield ⟨⟨okr(r(4))⟩?⟩?; for i in 0..2 { yield (yield ⟨r(i)⟩?, ⟨r(5)⟩?).1; } Ok(⟨r(6)⟩?) }); sink(v.len() as i64); let w = k_yield_drive(#[coroutine] static || -> Result<i64, E> { let f = |x: i64| -> Result<i64, E> { Ok(⟨r(x)⟩?) }; yield ⟨f(7)⟩?; yield match ⟨r(8)⟩? { 0 => 1, n => ⟨r(n)⟩? }; r(9) }); w.len() as i64 }", "k_yield()", pre='pub fn k_yield_drive<C: std::ops::Coroutine<(), Yield = i64, Return = Result<i64, E>>>(c: C) -> Vec<Result<i64, E>> { let mut c = Box::pin(c); let mut v = vec![]; loop { match c.as_mut().resume(()) { std::ops::CoroutineState::Yielded(x) => v.push(Ok(x)), std::ops::CoroutineState::Complete(x) => { v.push(x); return v } } } }')
    add("k_constb", "fn k_constb() -> Result<i64, E> { let f = const { |x: i64| -> Result<i64, E> { Ok(⟨r(x)⟩? + 1) } }; let g: [fn(i64) -> Option<i64>; 2] = [const { |x: i64| -> Option<i64> { let y = ⟨o(x)⟩?; ⟨o(y)⟩? ; Some(y) } }; 2]; const H: fn() -> Result<i64, E> = const { let k: fn() -> Result<i64, E> = || Ok(⟨r(2)⟩?); k }; sink((g[0](3), g[1](4), H())); let v = const { (|| -> Result<i64, E> { let h = const { || -> Option<i64> { Some(⟨o(5)⟩?) } }; sink(h()); Ok(⟨r(6)⟩?) }, 7i64) }; ⟨v.0()⟩?; Ok(⟨f(⟨r(8)⟩?)⟩?) }", "k_constb()")
    add("k_guard", "fn k_guard() -> Result<i64, E> { Ok(match r(1) { Ok(v) if let Some(x) = o(⟨r(v)⟩?).filter(|x| *x > 2) => x + ⟨r(2)⟩?, Ok(_) if let 3..=9 = ⟨r(3)⟩? => 1, Ok(v) if ⟨r(4)⟩? > 3 && let Some(y) = o(⟨r(5)⟩?) => y, _ => ⟨r(6)⟩? }) }", "k_guard()")
    add("k_three", "fn k_three() -> Result<i64, E> { let x: Result<Result<Result<i64, E>, E>, E> = Ok(okr(r(1))); Ok(⟨⟨⟨x⟩?⟩?⟩?) }", "k_three()")
    add("k_generic", "fn k_generic<'a, T: std::fmt::Debug + 'a, const N: usize>(t: T) -> Result<[i64; N], E> where T: Clone { let v = [⟨r(1)⟩?; N]; sink(t.clone()); Ok(v) }", "k_generic::<_, 3>(7u8)")
    add("k_async", "async fn k_async() -> Result<i64, E> { let a = ⟨ar(1).await⟩?; let f = async move { Ok::<i64, E>(⟨ar(a + 1).await⟩? + 1) }; let b = ⟨f.await⟩?; let c = async || { let q = ⟨ar(3).await⟩?; Ok::<i64, E>(q) }; Ok(a + b + ⟨c().await⟩?) }", "block_on(k_async())")
    add("k_opt", "fn k_opt() -> Option<i64> { let s = [o(1), o(2)]; let mut t = 0; for x in s { t += ⟨x⟩?; } Some(t + ⟨⟨Some(o(3))⟩?⟩?) }", "k_opt()")
    add("k_conv", "fn k_conv() -> Result<i64, E2> { let a = ⟨r(1)⟩?; let b = (|| -> Result<i64, E2> { Ok(⟨r(2)⟩?) })(); Ok(a + ⟨b⟩?) }", "k_conv()")
    add("k_pat", "fn k_pat() -> Result<i64, E> { let S { a, b: 2..=900 | 1 } = mk(⟨r(1)⟩?) else { return r(9) }; let [x, .., y] = tbl(⟨r(2)⟩?); let p1 @ _ = ⟨r(3)⟩?; Ok(a + x + y + p1) }", "k_pat()")
    add("k_letuninit", "fn k_letuninit() -> Result<i64, E> { let x; let y: i64; if c(1) { x = ⟨r(1)⟩?; } else { x = ⟨r(2)⟩?; } y = ⟨r(3)⟩?; Ok(x + y) }", "k_letuninit()")
    add("k_deepidx", "fn k_deepidx() -> Result<i64, E> { let mut m = [[1i64, 2], [3, 4]]; m[ix(⟨r(1)⟩?) % 2][ix(⟨r(2)⟩?) % 2] += ⟨r(3)⟩?; m[ix(⟨r(4)⟩?) % 2] = [⟨r(5)⟩?, 6]; let mut s = mk(1); s.a = ⟨r(6)⟩?; (s.a, s.b) = (⟨r(7)⟩?, ⟨r(8)⟩?); [s.a, _] = [⟨r(9)⟩?, 2]; S { a: s.b, .. } = mk(⟨r(10)⟩?); *{ ⟨r(11)⟩?; &mut s.a } = ⟨r(12)⟩?; sink((m, s)); Ok(s.a + s.b + m[0][0]) }", "k_deepidx()")
    add("k_shadowclosure", "fn k_shadowclosure() -> Result<i64, E> { let f = |x: i64| -> Result<i64, E> { let g = |y: i64| -> Result<i64, E> { let h = move || -> Result<i64, E> { Ok(⟨r(x)⟩? + ⟨r(y)⟩?) }; Ok(⟨h()⟩? + 1) }; Ok(⟨g(x + 1)⟩? + ⟨g(x + 2)⟩?) }; ⟨(|| f(1))()⟩?; f(⟨r(5)⟩?) }", "k_shadowclosure()")
    add("k_loops", "fn k_loops() -> Result<i64, E> { let mut n = 0; 'o: loop { while ⟨r(1)⟩? + n < 4 { n += ⟨r(2)⟩?; for i in 0..⟨r(3)⟩? { if i > ⟨r(2)⟩? { continue 'o; } n += 1; } } let v = 'b: { if n > ⟨r(3)⟩? { break 'b ⟨r(7)⟩?; } 5 }; break 'o Ok(v + n); } }", "k_loops()")
    add("k_matchdeep", "fn k_matchdeep() -> Result<i64, E> { match (⟨r(1)⟩?, ⟨r(2)⟩?) { (a, _) if a > ⟨r(3)⟩? => Ok(⟨r(4)⟩?), _ => match mk(⟨r(5)⟩?) { S { a, .. } if a == ⟨r(5)⟩? => { let z = ⟨r(6)⟩?; Ok(z) } S { .. } => Ok(⟨r(7)⟩?) } } }", "k_matchdeep()")
    add("k_static", "mod k_static { use super::*; pub static A: fn() -> Result<i64, E> = || { Ok(⟨r(1)⟩? + 1) }; pub const B: fn() -> Option<i64> = || { static C: fn() -> Option<i64> = || Some(⟨o(2)⟩?); Some(⟨C()⟩?) }; pub struct W; impl W { pub const D: fn() -> Result<i64, E> = || Ok(⟨r(3)⟩?); pub fn new() -> Result<W, E> { ⟨r(4)⟩?; Ok(W) } } impl std::convert::TryFrom<i64> for W { type Error = E; fn try_from(x: i64) -> Result<W, E> { ⟨r(x)⟩?; Ok(W) } } pub trait Y { fn y(&self) -> Result<i64, E> { Ok(⟨r(5)⟩?) } const K: fn() -> Result<i64, E> = || Ok(⟨r(6)⟩?); } impl Y for W {} pub mod n { use super::*; pub fn z() -> Result<i64, E> { Ok(⟨W.y()⟩? + ⟨(<W as Y>::K)()⟩?) } } }",
        "(k_static::A(), k_static::B(), (k_static::W::D)(), k_static::W::new().is_ok(), k_static::W::try_from(3).is_ok(), k_static::n::z())")
    add("k_unsafe", "unsafe fn k_unsafe(p_: *const i64) -> Result<i64, E> { unsafe { ⟨r(*p_)⟩?; } let a = unsafe { *p_.add(ix(⟨r(4)⟩?) % 1) }; Ok(a + ⟨r(2)⟩?) }", "unsafe { k_unsafe(&5i64) }")
    add("k_externfn", "pub extern \"C\" fn k_externfn() -> i64 { let f = || -> Result<i64, E> { Ok(⟨r(1)⟩? + 2) }; unw(f()) }", "k_externfn()")
    add("k_refs", "fn k_refs() -> Result<i64, E> { let mut x = 1i64; let y = &mut x; *y = ⟨r(1)⟩?; let z = &⟨r(2)⟩?; let w = &mut ⟨r(3)⟩?; *w += *z; let t = -⟨r(4)⟩? + !⟨r(5)⟩? as i32 as i64; Ok(*w + t + x) }", "k_refs()")
    add("k_ranges", "fn k_ranges() -> Result<i64, E> { let a = ⟨r(1)⟩?..⟨r(2)⟩?; let b = ..=⟨r(3)⟩?; let d = ⟨r(4)⟩?..; let s = [1i64, 2, 3, 4]; let e = &s[ix(⟨r(0)⟩?)..ix(⟨r(2)⟩?)]; sink((a, b, d, e)); Ok(1) }", "k_ranges()")
    add("k_structs", "fn k_structs() -> Result<i64, E> { let s = S { a: ⟨r(1)⟩?, ..mk(⟨r(2)⟩?) }; let t = S { b: { ⟨r(3)⟩? }, a: if c(1) { ⟨r(4)⟩? } else { 0 } }; let v = vec![⟨r(5)⟩?; ix(⟨r(2)⟩?)]; let (a, (b, d)) = (⟨r(6)⟩?, (⟨r(7)⟩?, [⟨r(8)⟩?; 2])); sink((s, t, v, a, b, d)); r(⟨r(9)⟩?) }", "k_structs()")
    add("k_recv", "fn k_recv() -> Result<i64, E> { let x = ⟨r(1)⟩?.plus(⟨r(2)⟩?).plus({ ⟨r(3)⟩?.plus(1) }); let y = ⟨r(x)⟩?.plus::<>(2); ⟨⟨okr(r(y))⟩?.map(|q| q + 1).or_else(|_| Ok::<i64, E>(⟨r(8)⟩?))⟩?; Ok(⟨mk(x).a.plus(⟨r(1)⟩?).checked_add(1).ok_or(E(4))⟩?) }", "k_recv()")
    add("k_iter", "fn k_iter() -> Result<Vec<i64>, E> { let v: Result<Vec<i64>, E> = (0..3).map(|i| { let q = ⟨r(i)⟩?; Ok(q * 2) }).collect(); let w = ⟨v⟩?; let u: Vec<i64> = ⟨w.iter().map(|&i| Ok(⟨r(i)⟩?)).collect::<Result<Vec<_>, E>>()⟩?; Ok(u) }", "k_iter()")
    add("k_macros", "fn k_macros() -> Result<i64, E> { let v = vec![⟨r(1)⟩?, idm!(⟨r(2)⟩?), { vec![⟨r(3)⟩?][0] }]; assert!(⟨r(4)⟩? > 0, \"{} {}\", ⟨r(5)⟩?, v[0]); assert_eq!(⟨r(6)⟩?, 6); let s = format!(\"{:?} {x}\", ⟨r(7)⟩?, x = v[1]); sink(s); run! { let z = ⟨r(8)⟩?; sink(z); fn inner() -> Result<i64, E> { Ok(⟨r(9)⟩?) }; sink(inner()); } Ok(addm!(⟨r(10)⟩?; idm!(⟨r(11)⟩?))) }",
        "k_macros()")
    add("k_letelse", "fn k_letelse() -> Result<i64, E> { let Some(x) = o(⟨r(1)⟩?) else { let y = ⟨r(2)⟩?; return Ok(⟨r(y)⟩?); }; let Ok(z) = (if ⟨r(3)⟩? > 1 { r(4) } else { r(5) }) else { return Err(E(⟨r(6)⟩?)) }; while let Some(q) = o(⟨r(7)⟩?) && ⟨r(8)⟩? == 8 { if q > ⟨r(6)⟩? { break } } if let Some(v) = o(2) && let Ok(w) = r(⟨r(v)⟩?) && ⟨r(w)⟩? > 0 { ⟨r(9)⟩?; } else if ⟨r(10)⟩? > 3 { ⟨r(11)⟩?; } Ok(x + z) }", "k_letelse()")
    add("k_condnest", "fn k_condnest() -> Result<bool, E> { Ok(⟨r(1)⟩? < ⟨r(2)⟩? && (⟨r(3)⟩? == 3 || ⟨r(4)⟩? != 4) && !(⟨r(5)⟩? >= 6) ^ { ⟨r(6)⟩? == 6 }) }", "k_condnest()")
    # code produced by macro_rules and annotated there: operands arrive in invisible groups
    M = "macro_rules! mkfn%s { ($n:ident, $q:ident, $e:expr, $f:expr, $s:stmt, $b:block, $t:ty) => { %s fn $n($q: i64) -> $t { let a = %s?; $s; let b = %s?; sink((a, b)); $b } } }\n"
    use = "mkfn%s!(k_mr, q, r(q), okr(r(2)%s)?, let z = %s?, { Ok(q + %s? + z) }, Result<i64, E>);"
    # operands that arrive in invisible groups
    out.append(RawU("k_mr", M % ("", "#[hooq] " + A, "$e", "$f") + use % ("", "", "r(7)", "r(3)"),
                    M % ("", "", "($e)" + H, "($f)" + H) + use.replace("okr(r(2)%s)?", "(okr(r(2)%s))" + H + "?") % ("", "", "(r(7))" + H, "(r(3))" + H),
                    "k_mr(5)", root_attr="", label="catalogue macro_rules"))
    x = "macro_rules! k_mr2m { ($n:ident, $t:ty, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => { § fn $n(k: i64) -> $t { let a = ⟨$a⟩?; ⟨$b⟩?; let f = || -> $t { ⟨$c⟩?; Ok(⟨$d⟩? + ⟨$e⟩?) }; if ⟨$a⟩? > 3 { return Ok(⟨$b⟩?); } sink(f()); match ⟨$c⟩? { 1 => ⟨$d⟩?, _ => ⟨$e⟩? }; Ok(-⟨$b⟩? + a * ⟨$a⟩?) } } } k_mr2m!(k_mr2, Result<i64, E>, if c(6) { r(⟨r(1)⟩?) } else { Err(E(3)) }, *Box::new(r(4)), match o(5) { Some(v) => r(⟨r(v)⟩?), None => Err(E(6)) }, unsafe { r(7) }, { let x = 3; ⟨r(4)⟩?; Err::<i64, E>(E(x)) });"
    strip = {ord(z): None for z in "⟨⟩"}
    out.append(RawU("k_mr2", x.translate(strip).replace("§", "#[hooq] " + A), x.replace("⟨", "(").replace("⟩", ")" + H).replace("§", ""), "k_mr2(5)", root_attr="", label="catalogue k_mr2"))
    return out


# ---------------------------------------------------------------- C02

IDPOOL = ["Err", "rid", "r", "Ok", "dbl", "p", "add", "Some", "o", "unw", "cr", "block_on", "sink", "ev"]
RTPOOL = ["Result", "Res", "Out", "Option", "i64", "E"]


@reg("C02")
class C02(Spec):
    fills = (fill_ret, fill_tail)
    n2 = (900, 20000)
    nr = (260, 4000)
    profile = dict(try_leaf=0.1)

    def root(self, g):
        r = g.rng
        ts = r.choice([("return", "tail expr")] * 5 + [("return",), ("tail expr",), ALL])
        ids, ign, rts = ["Err"], ["Ok"], ["Result"]
        attrs = []
        if r.random() < 0.6:
            if r.random() < 0.6:
                ids = r.sample(IDPOOL, r.randint(1, 3))
                ex = ["!" + x for x in r.sample(IDPOOL, r.randint(0, 2)) if x not in ids]
                attrs.append(a_idents(ids + ex))
            if r.random() < 0.5:
                attrs.append(a_ignore(r.sample(IDPOOL, r.randint(1, 4))))
            if r.random() < 0.6:
                attrs.append(a_rtypes(r.sample(RTPOOL, r.randint(1, 4))))
        r.shuffle(attrs)
        return [a_method(hkm("String::new()", r)), a_targets(ts)] + attrs, "#[hooq]", DEFAULT

    def catalogue(self, rng):
        return cat_tail() + cat_attrs("C02", rng)


def cat_tail():
    H = ".hk(|| String::new())"
    A = '#[hooq::method(.hk(|| String::new()))] #[hooq::hook_targets("return", "tail_expr")] '
    out = []

    def add(name, src, call_, pre="", attrs=""):
        s = src.replace("⟨", "").replace("⟩", "")
        r = src.replace("⟨", "(").replace("⟩", ")" + H)
        out.append(RawU(name, A + attrs + s, r, call_, pre, "#[hooq]", label="catalogue " + name))
    add("t_plain", "fn t_plain() -> Result<i64, E> { if c(1) { return Ok(1); } if c(2) { return ⟨Err(E(1))⟩; } if c(3) { return ⟨r(3)⟩ } ⟨r(4)⟩ }", "t_plain()")
    add("t_none", "fn t_none() -> i64 { if c(1) { return p(1); } if c(2) { return { p(2) }; } p(4) }", "t_none()")
    add("t_unit", "fn t_unit() { if c(1) { return; } sink(r(1)); sink(2) }", "t_unit()")
    add("t_paths", "fn t_paths() -> Result<i64, E> { if c(1) { return Result::Ok(1); } if c(2) { return std::result::Result::<i64, E>::Ok(1); } if c(3) { return ⟨Result::Err(E(2))⟩; } let f = || { ⟨Err::<i64, E>(E(2))⟩ }; let g = || ⟨::std::result::Result::Err::<i64, E>(E(3))⟩; sink((f(), g())); ⟨(Ok(1))⟩ }", "t_paths()")
    add("t_blocks", "fn t_blocks() -> Result<i64, E> { let a = { ⟨Err::<i64, E>(E(1))⟩ }; let b = if c(1) { r(2) } else if c(2) { ⟨Err(E(2))⟩ } else { Ok(3) }; let d = unsafe { ⟨Err::<i64, E>(E(5))⟩ }; let e = match r(6) { Ok(x) if x > 3 => ⟨Err(E(6))⟩, Ok(_) => { ⟨Err(E(7))⟩ } Err(e) => ⟨Err(e)⟩ }; sink((a, b, d)); ⟨e⟩ }".replace("⟨e⟩ }", "⟨e⟩ }"), "t_blocks()")
    add("t_nested", "fn t_nested() -> Option<i64> { let f = |x: i64| -> Result<i64, E> { if c(1) { return ⟨r(x)⟩; } fn g() -> i64 { if c(2) { return p(1); } p(2) } let h = |y: i64| { if c(3) { return r(y); } r(y + 1) }; ⟨h(g())⟩ }; sink(f(1)); o(2) }", "t_nested()")
    add("t_generic", "fn t_generic<T: std::fmt::Debug>(t: T) -> std::result::Result<T, E> { let k = || -> ::std::result::Result<i64, E> { ⟨r(1)⟩ }; sink(k()); if c(1) { return ⟨match r(1) { Ok(_) => Ok(t), Err(e) => ⟨Err(e)⟩ }⟩; } Ok(t) }", "t_generic(4u8)")
    add("t_impl", "impl T_impl { fn a(&self) -> Res { Ok(1) } fn b(self) -> Result<Self, E> { if c(1) { return Ok(self); } ⟨Err(E(1))⟩ } }".replace("T_impl", "TI"), "(TI.a(), TI.b().is_ok())", pre="#[derive(Debug)] pub struct TI;")
    add("t_res", "fn t_res() -> Res { if c(1) { return r(1); } if c(2) { return ⟨Err(E(1))⟩; } r(2) }", "t_res()")
    add("t_refret", "fn t_refret<'a>(x: &'a Result<i64, E>) -> &'a Result<i64, E> { if c(1) { return x; } x }", "t_refret(&Ok(1))")
    add("t_tuple", "fn t_tuple() -> (i64, Result<i64, E>) { if c(1) { return (1, r(1)); } (2, Err(E(1))) }", "t_tuple()")
    add("t_implret", "fn t_implret() -> impl std::fmt::Debug { if c(1) { return r(1); } r(2) }", "t_implret()")
    add("t_retret", "fn t_retret() -> Result<i64, E> { if c(1) { return return ⟨r(1)⟩; } return ⟨r(2)⟩ }", "t_retret()")
    add("t_ops", "fn t_ops() -> i64 { let f = |x: i64| -> i64 { if c(1) { return ⟨-x⟩; } if c(2) { return ⟨x + 1 * 2⟩; } if c(3) { return ⟨x as i32 as i64⟩; } if c(4) { return ⟨!x⟩; } if c(5) { return ⟨*&x⟩; } if c(6) { return ⟨if x > 1 { 3 } else { 4 }⟩; } if c(7) { return ⟨mk(x).a⟩; } if c(8) { return ⟨tbl(x)[1]⟩; } ⟨x - 3⟩ }; ⟨f(1) + f(2) - f(3) * f(4)⟩ }", "t_ops()", attrs='#[hooq::result_types("i64")] ')
    add("t_clo", "fn t_clo() -> bool { let f = |x: i64| -> bool { ⟨x > 3 && x < 9 || x == 2⟩ }; let g = || -> Box<dyn Fn(i64) -> i64> { Box::new(move |y| y + 1) }; sink(g()(2)); ⟨f(2) ^ f(5)⟩ }", "t_clo()", attrs='#[hooq::result_types("bool")] ')
    add("t_last", "fn t_last() -> hrt::Out { if c(1) { return ⟨hrt::rid(r(1))⟩; } r(2) }", "t_last()", attrs='#[hooq::tail_expr_idents("rid", "Err")] ')
    add("t_lastty", "fn t_lastty() -> hrt::Out { if c(1) { return ⟨r(1)⟩; } if c(2) { return Ok(1); } ⟨{ r(2) }⟩ }", "t_lastty()", attrs='#[hooq::result_types("Out")] ')
    add("t_stmtlast", "fn t_stmtlast() { let mut n = 0; let f = || -> Result<i64, E> { for i in 0..3 { if c(i) { return ⟨Err(E(i))⟩ } } while c(9) { n += 1; if n > 3 { return Ok(n) } } loop { if c(3) { break ⟨r(4)⟩.is_ok(); } else { break true } }; let Some(x) = o(1) else { return ⟨Err(E(9))⟩ }; ⟨r(x)⟩ }; let mut f = f; sink(f()); sink(f()) }".replace("⟨r(4)⟩.is_ok()", "r(4).is_ok()"), "t_stmtlast()")
    add("t_tailitem", "fn t_tailitem() -> i64 { const K: fn() -> Result<i64, E> = || -> Result<i64, E> { ⟨r(1)⟩ }; static L: fn() -> Result<i64, E> = || { r(1) }; sink((K(), L())); fn last() {} ; 3 }", "t_tailitem()")
    # only the last segment of a path is looked at
    for k, (ty, is_r) in enumerate([("<t_rtm::Z as t_rtm::Tr>::Result", 1), ("<t_rtm::Z as t_rtm::Tr>::Other", 0), ("::std::result::Result<i64, E>", 1), ("t_rtm::Result", 1), ("t_rtm::Gen<E>", 0), ("self::t_rtm::Result", 1), ("std::result::Result<i64, <t_rtm::Z as t_rtm::Tr>::Err>", 1)]):
        h = (lambda x: "⟨%s⟩" % x) if is_r else (lambda x: x)
        add("t_rt%d" % k, ("fn t_rtNN() -> TY { if c(1) { return %s; } if c(2) { return Ok(r(2)?); } let f = |x: i64| -> TY { if c(3) { return %s; } %s }; fn g(x: i64) -> TY { %s } sink((f(1), g(2))); let h = async |x: i64| -> TY { %s }; sink(block_on(h(3))); %s }"
            % tuple(h("r(%d)" % q) for q in (1, 4, 5, 6, 7, 8))).replace("TY", ty.replace("t_rtm", "t_rtm%d" % k)).replace("NN", str(k)), "t_rt%d()" % k,
            pre=("pub mod t_rtNm { use super::*; pub struct Z; pub trait Tr { type Result; type Other; type Err; } impl Tr for Z { type Result = std::result::Result<i64, E>; type Other = std::result::Result<i64, E>; type Err = E; } pub type Result = std::result::Result<i64, E>; pub type Gen<T> = std::result::Result<i64, T>; }").replace("t_rtNm", "t_rtm%d" % k))
    add("t_seg", "fn t_seg() -> Result<i64, E> { if c(1) { return ⟨t_segm::Ok::q(r(1))⟩; } if c(2) { return t_segm::Err::Ok(1); } if c(3) { return ⟨t_segm::Ok::Err(E(1))⟩; } let a = { t_segm::Err::q(r(2)) }; let b = if c(4) { t_segm::Err::Ok(3) } else { ⟨t_segm::Ok::Err(E(3))⟩ }; let d = { t_segm::Result::q(r(3)) }; let f = |x: i64| -> t_segm::Result::T { if c(5) { return t_segm::Err::q(r(x)); } t_segm::Ok::q(r(x)) }; let g = |x: i64| -> t_segm::Out::Result<i64, E> { if c(6) { return t_segm::Err::Ok(x); } ⟨t_segm::Ok::q(r(x))⟩ }; sink((a, b, d, f(1), g(2))); ⟨t_segm::Ok::q(r(4))⟩ }", "t_seg()",
        pre="#[allow(non_snake_case)] pub mod t_segm { pub mod Ok { pub use std::result::Result::Err; pub fn q<T>(t: T) -> T { t } } pub mod Err { pub use std::result::Result::Ok; pub fn q<T>(t: T) -> T { t } } pub mod Result { pub fn q<T>(t: T) -> T { t } pub type T = hrt::Out; } pub mod Out { pub use std::result::Result; } }")
    add("t_seg3", "fn t_seg3() -> Result<i64, E> { if c(1) { return ⟨self::t_seg3m::Ok::q::<Out>(r(1))⟩; } let a = { self::t_seg3m::Err::q::<Out>(r(2)) }; let b = { t_seg3m::x::Err::q::<Out>(r(3)) }; let d = if c(2) { super::HERE::t_seg3m::Err::q::<Out>(r(4)) } else { self::t_seg3m::Err::y::Ok::<i64, E>(3) }; let f = |x: i64| -> self::t_seg3m::Result::T<i64> { if c(5) { return self::t_seg3m::Err::q::<Out>(r(x)); } r(x) }; let g = |x: i64| -> self::t_seg3m::Result::y::Res<i64> { if c(6) { return self::t_seg3m::Err::q::<Out>(r(x)); } r(x) }; fn h(x: i64) -> t_seg3m::x::y::Result<i64> { if c(7) { return ⟨r(x)⟩; } ⟨self::t_seg3m::Ok::q::<Out>(r(x))⟩ } let k = { self::t_seg3m::Ok::y::Err::<i64, E>(E(3)) }; sink((a, b, d, f(1), g(2), h(3), k)); if c(8) { return self::t_seg3m::Err::y::Ok::<i64, E>(4); } ⟨self::t_seg3m::Ok::q::<Out>(r(4))⟩ }".replace("super::HERE::", "self::").replace("{ self::t_seg3m::Ok::y::Err::<i64, E>(E(3)) }", "{ ⟨self::t_seg3m::Ok::y::Err::<i64, E>(E(3))⟩ }"), "t_seg3()",
        pre="#[allow(non_snake_case)] pub mod t_seg3m { pub mod x { pub use super::Err; pub mod y { pub type Result<T> = std::result::Result<T, hrt::E>; } } pub mod Ok { pub fn q<T>(t: T) -> T { t } pub mod y { pub use std::result::Result::Err; } } pub mod Err { pub fn q<T>(t: T) -> T { t } pub mod y { pub use std::result::Result::Ok; } } pub mod Result { pub type T<A> = std::result::Result<A, hrt::E>; pub mod y { pub type Res<A> = std::result::Result<A, hrt::E>; } } }")
    add("t_try_block", "fn t_try_block() -> Result<i64, E> { let a: Result<Result<i64, E>, E> = try { ⟨Err::<i64, E>(E(1))⟩ }; let b: Option<Result<i64, E>> = try { r(1) }; let d: Option<Result<i64, E>> = try { if c(1) { return ⟨r(2)⟩; } if c(2) { ⟨Err(E(2))⟩ } else { r(3) } }; sink((a, b, d)); let f = |x: i64| -> Result<i64, E> { let v: Option<Result<i64, E>> = try { match x { 1 => ⟨Err(E(4))⟩, 2 => { ⟨Err(E(5))⟩ } _ => r(x) } }; ⟨v.unwrap()⟩ }; sink((f(1), f(2))); ⟨f(3)⟩ }", "t_try_block()")
    add("t_yield", "fn t_yield() -> i64 { let v = t_yield_drive(#[coroutine] || -> Result<i64, E> { yield { if c(1) { return ⟨r(1)⟩; } 2 }; yield (|x: i64| -> Result<i64, E> { ⟨r(x)⟩ })(3).unwrap_or(4); let z = yield 5; sink(z); ⟨r(6)⟩ }); sink(v.len() as i64); let w = t_yield_drive(#[coroutine] || -> Result<i64, E> { yield match o(7) { Some(x) if c(2) => return ⟨Err(E(x))⟩, Some(x) => x, None => (|| -> Result<i64, E> { return ⟨r(8)⟩; })().unwrap_or(9) }; ⟨if c(3) { ⟨Err(E(3))⟩ } else { r(10) }⟩ }); w.len() as i64 }", "t_yield()", pre='pub fn t_yield_drive<C: std::ops::Coroutine<(), Yield = i64, Return = Result<i64, E>>>(c: C) -> Vec<Result<i64, E>> { let mut c = Box::pin(c); let mut v = vec![]; loop { match c.as_mut().resume(()) { std::ops::CoroutineState::Yielded(x) => v.push(Ok(x)), std::ops::CoroutineState::Complete(x) => { v.push(x); return v } } } }')
    # functions that macro_rules make: types, paths and expressions arrive in invisible groups
    for k, (m, u) in enumerate([
            ("($n:ident, $t:ty, $e:expr, $f:expr, $p:path, $q:path, $g:expr) => { § fn $n(k: i64) -> $t { if c(1) { return $e; } if c(2) { return ⟨$f⟩; } if c(3) { return $p(k); } if c(4) { return ⟨$q(E(k))⟩; } let a: $t = { ⟨$f⟩ }; let b: $t = if c(5) { $e } else { ⟨$q(E(k))⟩ }; "
             "let d = |k: i64| -> $t { if c(6) { return ⟨$g⟩; } ⟨match k { 1 => ⟨$q(E(1))⟩, 2 => { ⟨$f⟩ } 3 => $p(2), _ => $g }⟩ }; sink((a, b, d(1), d(2), d(3), d(4))); fn inn(k: i64) -> $t { $p(k) } sink(inn(3)); ⟨$g⟩ } }",
             "t_mrNm!(t_mrN, Result<i64, E>, Ok(1), Err(E(2)), Ok, Err, r(3));"),
            ("($n:ident, $t:ty, $g:expr) => { § fn $n(k: i64) -> $t { if c(1) { return $g; } let d = |k: i64| -> $t { $g }; sink(d(1)); let _z: $t = if c(2) { $g } else { Ok(3) }; $g } }",
             "t_mrNm!(t_mrN, std::result::Result<i64, E>, return ⟨r(4)⟩);"),
            ("($n:ident, $t:ty, $g:expr, $h:expr) => { § fn $n(k: i64) -> $t { if c(1) { return $g; } let d = |k: i64| -> $t { if c(2) { return $h; } $h }; sink(d(1)); let z: $t = if c(3) { $g } else { $h }; sink(z); $g } }",
             "t_mrNm!(t_mrN, Option<i64>, o(4), Some(3));"),
            ("($n:ident, $b:block, $v:vis, $g:expr, $($t:tt)*) => { § $v fn $n(k: i64) -> $($t)* { if c(1) { return ⟨$b⟩; } let f = |k: i64| -> $($t)* { ⟨$b⟩ }; sink(f(2)); if c(2) { return ⟨$g⟩; } return ⟨match c(3) { true => $b, false => ⟨$g⟩ }⟩; } }",
             "t_mrNm!(t_mrN, { ⟨Err(E(5))⟩ }, pub(crate), Err(E(4)), Result<i64, E>);"),
            ("($n:ident, $t:ty, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => { § fn $n(k: i64) -> $t { if c(1) { return ⟨$a⟩; } if c(2) { return ⟨$b⟩; } if c(3) { return ⟨$c⟩; } if c(4) { return ⟨$d⟩; } if c(5) { return ⟨$e⟩; } let f = |k: i64| -> $t { ⟨$a⟩ }; let g = |k: i64| -> $t { ⟨$b⟩ }; let h = || -> $t { ⟨$c⟩ }; let i = || -> $t { ⟨$d⟩ }; let j = || -> $t { ⟨$e⟩ }; sink((f(1), g(2), h(), i(), j())); ⟨$a⟩ } }",
             "t_mrNm!(t_mrN, Result<i64, E>, if c(6) { r(1) } else { ⟨Err(E(3))⟩ }, *Box::new(r(4)), match o(5) { Some(v) => r(v), None => ⟨Err(E(6))⟩ }, unsafe { r(7) }, { let x = 3; ⟨Err(E(x))⟩ });")]):
        n = "t_mr%d" % k
        x = ("macro_rules! t_mrNm { %s } " % m + u).replace("t_mrN", n)
        strip = {ord(c): None for c in "⟨⟩"}
        out.append(RawU(n, x.translate(strip).replace("§", "#[hooq] " + A), x.replace("⟨", "(").replace("⟩", ")" + H).replace("§", ""), n + "(5)", root_attr="", label="catalogue " + n))
    add("t_unita", """fn t_unita() { for i in 0..2 { ⟨sink(i)⟩ } let mut n = 0; while n < 2 { n += 1; ⟨sink(n)⟩ } loop { if n > 3 { break } n += 1; ⟨sink(n)⟩ } if c(1) { ⟨sink(1)⟩ } else if c(2) { ⟨sink(2)⟩ } else { ⟨sink(3)⟩ }
        match n { 0 => {}, 4 if c(3) => { ⟨sink(4)⟩ } _ => ⟨sink(5)⟩, } unsafe { ⟨sink(6)⟩ } 'l: { if c(4) { break 'l } ⟨sink(7)⟩ } let u = { sink(8); ⟨sink(9)⟩ }; let f = |x: i64| { ⟨sink(x)⟩ }; f(10); let g = || -> () { if c(5) { return ⟨sink(11)⟩; } ⟨sink(12)⟩ }; g();
        for i in 0..2 { for j in 0..2 { if i == j { ⟨sink(i)⟩ } } } for i in 0..2 { { { ⟨sink(i)⟩ } } } for _ in 0..1 { sink(u); } for _ in 0..1 { if let Some(v) = o(13) { ⟨sink(v)⟩ } } while let Some(v) = o(14).filter(|_| n < 6) { n += 1; ⟨sink(v)⟩ } block_on(async { ⟨sink(15)⟩ }); ⟨sink(16)⟩ }""",
        "t_unita()", attrs='#[hooq::tail_expr_idents("sink")] ')
    body = "pub fn t_constb() -> i64 { let f = const { || -> Result<i64, E> { ⟪r(1)⟫ } }; sink(f()); sink(const { ⟨t_cv(3)⟩ }); sink(const { if true { ⟨t_cv(4)⟩ } else { let _ = (); ⟨t_cv(5)⟩ } }); sink([const { let x = 5; ⟨t_cv(x)⟩ }; 2]); const Z: i64 = const { ⟨t_cv(7)⟩ }; sink(const { t_cv(1) + const { ⟨t_cv(8)⟩ } }); sink([7i64; { let _z = 1; ⟨t_cu(2)⟩ }].len()); sink(match 3 { 3 => const { unsafe { ⟨t_cv(9)⟩ } }, _ => 4 }); sink(const { let mut i = 0; while i < 3 { i += 1 } match i { 3 => { ⟨t_cv(i)⟩ } _ => 0 } }); Z }"
    out.append(RawU("t_constb", '#[hooq::method($expr + 100)] #[hooq::hook_targets("return", "tail_expr")] #[hooq::tail_expr_idents("t_cv", "t_cu")] #[hooq::result_types("Nope")] ' + body.translate({ord(x): None for x in "⟨⟩⟪⟫"}),
                    body.replace("⟨", "((").replace("⟩", ") + 100)").translate({ord(x): None for x in "⟪⟫"}),
                    "t_constb()", "pub const fn t_cv(x: i64) -> i64 { x } pub const fn t_cu(x: usize) -> usize { x }", "#[hooq]", label="catalogue t_constb"))
    body = "pub fn t_constc() -> Result<i64, E> { let f = const { |x: i64| -> Result<i64, E> { ⟨r(x)⟩ } }; const G: fn(i64) -> Result<i64, E> = const { |x| -> Result<i64, E> { if c(1) { return ⟨r(x)⟩; } ⟨r(x + 1)⟩ } }; sink((f(1), G(2))); sink(const { (|| -> Result<i64, E> { let h = const { || -> Option<i64> { o(3) } }; sink(h()); ⟨r(4)⟩ }, 5i64) }.0()); ⟨r(6)⟩ }"
    add("t_constc", body, "t_constc()")
    add("t_async", "async fn t_async() -> Result<i64, E> { let b = async { r(1) }; let d = async || -> Result<i64, E> { ⟨r(2)⟩ }; let e = async { if c(1) { return ⟨Err(E(2))⟩; } ⟨Err::<i64, E>(E(1))⟩ }; sink((b.await, d().await, e.await)); ⟨ar(5).await⟩ }", "block_on(t_async())")
    return out


# ---------------------------------------------------------------- C03

class PlainU(U):
    """The reference is the program itself, without the annotation."""

    def ref(self, root):
        super().ref(root)      # counts the sites
        return self.item.text()


IDENT = [".idt()", "hrt::idf($expr)", "$expr", "match $expr { v => v }", "{ $expr }", "(|v| v)($expr)",
         "if true { $expr } else { unreachable!() }", "{ let v = $expr; v }"]


@reg("C03")
class C03(Spec):
    fills = (fill_try, fill_ret, fill_tail)
    n2 = (400, 12000)
    nr = (260, 4000)
    silent = True
    unit = PlainU
    sattr = 0.3
    profile = dict(attr=0.3)

    def root(self, g):
        r = g.rng
        if r.random() < 0.3:
            return [], r.choice(["#[hooq(empty)]", '#[hooq(flavor = "empty")]']), EMPTY
        attrs = [a_method(r.choice(IDENT))]
        if r.random() < 0.4:
            attrs.append(a_rtypes(r.sample(RTPOOL, 4)))
            attrs.append(a_idents(r.sample(IDPOOL, 3)))
        return attrs, "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        r = g.rng
        if g.at == "item":
            return [a_plain(r.choice(["#[allow(dead_code)]", "#[doc = \"x\"]", "#[cfg(all())]"]))]
        if g.at == "stmt":
            # a statement that the configuration removes; whatever needs it is rejected
            return [a_plain(r.choice(["#[cfg(any())]", "#[cfg(all())]", "#[allow(unused)]", "#[cfg(not(all()))]"]))]
        if g.at == "field":
            return [a_plain("#[cfg(all())]")]
        if g.at == "tail":
            return [a_plain(r.choice(["#[cfg(all())]", "#[allow(unused)]"]))]
        return []

    def catalogue(self, rng):
        return cat_transparent(rng)


EMPTY = Flavor("$expr", targets=())


# settings of a build in which the hooks are on, left in place when `empty` is selected
EMPTYLOCAL = '#[hooq(empty)] #[hooq::method(.hk(|| "no".to_string()))] #[hooq::result_types("Result", "i64", "Option")] #[hooq::tail_expr_idents("Err", "Ok", "r", "o", "c", "sink")] #[hooq::ignore_tail_expr_idents("Zz")]'


def cat_transparent(rng):
    out = []

    def add(name, src, call_, pre="", ann=None, empty_only=False):
        anns = ["#[hooq(empty)]", EMPTYLOCAL] + ([] if empty_only else ["#[hooq] #[hooq::method(%s)] #[hooq::result_types(\"Result\", \"i64\", \"Option\")]" % m
                                                            for m in IDENT[:4]])
        if ann:
            anns += ann
        for i, a in enumerate(anns):
            n = "%s_%d" % (name, i)
            s, c, p_ = (x.replace(name, n).replace("UU", name.upper() + str(i)) for x in (src, call_, pre))
            out.append(RawU(n, s, s, c, p_, a, label="catalogue %s %d" % (name, i)))
    add("x_lits", """fn x_lits() -> Result<i64, E> { sink((1u8, 0x_ff_u16, 1_000i128, 1.5e-3f32, 2.0, b'a', b"by\\x00", br#"r"#, c"cs")); sink(('\\u{1F980}', "s\\
          t", r##"a"#b"##, true, 'é', -1i8, 0o17, 0b1010usize)); r(1)?; Ok(2) }""", "x_lits()")
    add("x_rawid", "fn x_rawid() -> Result<i64, E> { let r#type = r(1)?; struct R#struct_ { r#match: i64 } let q = Rstruct_ { r#match: r#type }; 'r#l: loop { break 'r#l Ok(q.r#match) } }".replace("R#struct_", "Rstruct_").replace("'r#l", "'l"), "x_rawid()")
    add("x_generic", "fn x_generic<'a, 'b: 'a, T: ?Sized + std::fmt::Debug, const N: usize, F>(t: &'a T, f: F, n: [i64; N]) -> Result<impl std::fmt::Debug + use<'a, 'b, T, N, F>, E> where F: for<'z> Fn(&'z i64) -> Result<i64, E>, T: 'b { let mut s = 0; for i in &n { s += f(i)?; } Ok((s, format!(\"{t:?}\"))) }", "x_generic(\"q\", |x: &i64| r(*x), [1, 2, 3]).map(|x| format!(\"{x:?}\"))")
    add("x_impl", "impl<T: Clone + Into<i64>> UU<T> where T: std::fmt::Debug { pub const C: i64 = { 3 + 4 }; const D: Option<i64> = Some(4); pub(crate) fn new(t: T) -> Result<Self, E> { Ok(UU { t, n: r(1)? }) } fn by_ref(&self) -> Result<&T, E> { r(self.n)?; Ok(&self.t) } fn by_mut(&mut self) -> Result<&mut i64, E> { r(2)?; Ok(&mut self.n) } fn take(self: Box<Self>) -> Result<T, E> { r(3)?; Ok(self.t) } fn stat<U: Default>() -> Option<U> { o(4)?; Some(U::default()) } }",
        "(|| -> Result<_, E> { let mut x = UU::new(4i32)?; *x.by_mut()? += 1; sink(*x.by_ref()?); sink(UU::<i32>::stat::<u8>()); sink(UU::<i32>::C); Box::new(x).take() })()", pre="#[derive(Debug)] pub struct UU<T> { t: T, n: i64 }")
    add("x_trait", "pub trait UU: std::fmt::Debug { type A: Default + std::fmt::Debug; const K: i64 = 4; fn need(&self) -> Result<i64, E>; fn have(&self) -> Result<Self::A, E> { sink(self.need()?); Ok(Default::default()) } fn genr<T>(t: T) -> Result<T, E> where Self: Sized { r(Self::K)?; Ok(t) } }",
        "(x_trait_m::Z.have(), <x_trait_m::Z as UU>::genr(3))", pre="mod x_trait_m { use super::*; #[derive(Debug)] pub struct Z; impl UU for Z { type A = u8; fn need(&self) -> Result<i64, E> { r(7) } } }")
    add("x_mod", """pub mod x_mod { #![allow(unused)] use super::*; pub use std::collections::HashMap as Hm; #[derive(Debug, Clone, PartialEq)] pub struct P { pub a: i64, pub(super) b: Option<Box<P>> } #[derive(Debug)] #[repr(u8)] pub enum En { A = 1, B(i64), C { x: i64 } } pub union Un { pub a: u32, pub b: f32 } pub type Al<T> = Result<T, E>; pub static mut SM: i64 = 4; pub const LONG: &[&str] = &["a", "b"]; unsafe extern "C" { pub fn abs(x: i32) -> i32; } macro_rules! loc { ($($e:expr),* $(,)?) => { [$(r($e)?),*] } } pub fn f() -> Al<i64> { let q = loc!(1, 2, 3); let m: Hm<i64, i64> = Hm::new(); sink(m.len()); let p = P { a: q[0], b: Some(Box::new(P { a: r(4)?, b: None })) }; sink(&p); sink(En::B(r(5)?)); sink(matches!(En::C { x: 3 }, En::C { x } if x > r(2)?)); Ok(p.a + unsafe { abs(-3) } as i64) } pub mod inner { use super::*; pub fn g() -> Option<i64> { super::o(1)?; self::h() } fn h() -> Option<i64> { Some(super::super::o(2)?) } } impl P { pub fn z(&self) -> i64 { self.a } } impl std::ops::Add for P { type Output = P; fn add(self, o: P) -> P { P { a: self.a + o.a, b: None } } } impl Drop for En { fn drop(&mut self) { sink("drop"); } } }""",
        "(x_mod::f(), x_mod::inner::g(), (x_mod::P { a: 1, b: None } + x_mod::P { a: 2, b: None }).z())", ann=None)
    add("x_drops", "fn x_drops() -> Result<i64, E> { let a = dg(1); let b = dg(2).rv()?; { let _c = dg(3); let _ = dg(4); match dg(5).rv()? { v if v > r(1)? => { let _d = dg(6); sink(v); } _ => {} } } if let Ok(x) = dg(7).rv() { sink(x) } else { sink(0) } while let Some(_) = Some(dg(8)).filter(|d| d.rv().is_ok()) { break; } let f = move || -> Result<i64, E> { let _e = dg(9); Ok(a.v() + dg(10).rv()?) }; let z = f()? + dg(11).rv()?; return Ok(dg(12).v() + z + b); }", "x_drops()")
    add("x_tailtemp", "fn x_tailtemp() -> Result<i64, E> { let g = dg(1); let f = || -> Result<i64, E> { let _h = dg(2); dg(3).rv() }; sink(f()); if c(1) { return dg(4).rv(); } let _i = dg(5); dg(6).rv() }", "x_tailtemp()")
    add("x_moves", "fn x_moves(s: String, v: Vec<i64>) -> Result<(String, i64), E> { let t = s; let u = (move || -> Result<String, E> { r(1)?; Ok(t) })()?; let mut it = v.into_iter(); let mut n = 0; while let Some(x) = it.next() { n += r(x)?; } let w = match u { ref q if q.len() > 90 => q.clone(), q => q }; Ok((w, n)) }", "x_moves(String::from(\"hé\"), vec![1, 2, 3])")
    add("x_panics", "fn x_panics() -> Result<i64, E> { let _g = dg(1); let v = [1i64, 2]; if c(1) { sink(v[ix(r(3)?)]); } let k = r(4)?; if c(2) { panic!(\"boom {k} {}\", r(5)?); } let z: i64 = Some(r(6)?).filter(|_| c(3)).expect(\"gone\"); assert_eq!(z, r(6)?, \"m {}\", z); unwo(None); Ok(1 / (r(7)? - 7 + c(4) as i64)) }", "x_panics()")
    add("x_labels", "fn x_labels() -> Option<i64> { let mut k = 0; 'a: for i in 0..3 { 'b: loop { k += o(i)?; if k > 3 { continue 'a } if c(1) { break 'b; } if c(2) { break 'a; } } } let r_ = 'c: { if c(3) { break 'c o(5) } if c(4) { break 'c None } Some(o(6)?) }; Some(r_? + k) }", "x_labels()")
    add("x_async", "async fn x_async(x: &i64) -> Result<i64, E> { let a = ar(*x).await?; let b = async move { let q = ar(a).await?; Ok::<_, E>(q + 1) }.await?; let cl = async |y: i64| -> Result<i64, E> { Ok(ar(y).await? + a) }; Ok(cl(b).await? + { ar(3).await }?) }", "block_on(x_async(&5))")
    add("x_const", "const fn x_const(x: Option<i64>) -> Option<i64> { let mut i = 0; while i < 3 { i += 1; } match x { Some(v) => Some(v + i), None => None } }", "x_const(Some(1))", empty_only=True)
    add("x_constitem", "const UU: i64 = { const A: i64 = 3; let x = [1i64, 2, A]; x[2] + x.len() as i64 };", "UU", empty_only=True)
    add("x_constitem2", "static UU: fn(i64) -> Result<i64, E> = |x| { let y = r(x)?; Ok(y + 1) };", "UU(3)")
    add("x_inner", "fn x_inner() -> Result<i64, E> { #![allow(unused)] use std::fmt::Write as _; #[derive(Debug, Default)] struct L { a: i64, #[allow(unused)] b: u8 } impl L { fn g(&self) -> Result<i64, E> { r(self.a) } } enum Q { #[allow(unused)] X, Y } const Z: i64 = 4; static ZZ: i64 = 5; type T = i64; fn h(x: T) -> Result<T, E> { Ok(r(x)? + Z + ZZ) } trait Tq { fn z(&self) -> Option<i64> { o(8) } } impl Tq for L {} macro_rules! m { ($x:expr) => { { let q = $x; r(q)? } } ; () => { return Ok(3) } } let mut s = String::new(); write!(s, \"{}\", h(1)?).unwrap(); sink(s); let l = L { a: m!(2), ..Default::default() }; #[cfg(any())] sink(r(99)?); #[cfg(all())] sink(r(98)?); let w = [#[cfg(any())] 1, #[cfg(all())] 2, 3]; let n = L { #[cfg(all())] a: 1, #[cfg(any())] a: 2, b: 3 }; sink(match Q::Y { #[cfg(any())] Q::X => 1, #[cfg(all())] Q::X => 2, _ => 3 }); if c(5) { m!(); } sink((l.g()?, l.z(), w, n)); Ok(1) }", "x_inner()")
    add("x_pats", "fn x_pats(t: &(i64, Option<[i64; 3]>)) -> Result<i64, E> { let &(a, ref b) = t; let n = match b { Some([x @ 1..=5, y, ..]) if *y != r(1)? => x + y, Some([.., z]) | Some([_, z, _]) => *z, None => -1, }; let f = |&(p_, _): &(i64, i64), [q, ..]: [i64; 2]| -> Result<i64, E> { Ok(r(p_)? + q) }; if let (1 | 2, Some(_)) | (3.., None) = (a, *b) { r(2)?; } Ok(n + f(&(1, 2), [3, 4])?) }", "(x_pats(&(1, Some([4, 5, 6]))), x_pats(&(9, None)), x_pats(&(2, Some([9, 1, 2]))))")
    add("x_ops", "fn x_ops() -> Result<i64, E> { let a = r(7)? - r(2)? - r(1)? * r(2)? % 5 << 1 >> 1 & 0xff | 1 ^ 2; let b = -r(3)? as i32 as i64 + !(r(4)?) * -(-r(5)?); let d = !c(1) && r(6)? == 6 || c(2) & (a < b); let mut e = 1i64; e += r(1)?; e -= 1; e *= r(2)?; e <<= 1; e |= r(4)?; let g = &mut e; *g ^= r(1)?; let h = (..r(2)?, 1..=r(2)?, r(3)?.., ..); sink((a, b, d, *g, h)); Ok(if d { a } else { b } + match e { 0 => 1, x => x }) }", "x_ops()")
    add("x_where", "pub(crate) unsafe extern \"C\" fn x_where<T>(x: T) -> i64 where T: Into<i64> { let y: i64 = x.into(); let f = || -> Result<i64, E> { Ok(r(y)? + 1) }; unw(f()) }", "unsafe { x_where(3i32) }")
    add("x_shadow", "fn x_shadow() -> Result<i64, E> { let expr = r(1)?; let hooq = r(2)?; let path = 3; let line = 4; let col = 5; let e = 6; let v = 7; let f = r(v)?; fn stringify() -> i64 { 8 } let this = stringify(); Ok(expr + hooq + path + line + col + e + f + this) }", "x_shadow()")
    add("x_unit", "fn x_unit() { let f = || -> Result<(), E> { r(1)?; Ok(()) }; sink(f()); if c(1) { return; } let _ = (|| { if c(2) { return } sink(1) })(); loop { if c(3) { break } break; } }", "x_unit()")
    add("x_never", "fn x_never() -> Result<i64, E> { let x: i64 = if c(1) { return Ok(r(1)?) } else { r(2)? }; let y = match o(x) { Some(v) => v, None => return Err(E(3)) }; let z = loop { if c(2) { break r(4)? } if c(3) { return r(5) } }; let w = o(6).unwrap_or_else(|| -> i64 { if c(4) { return 3 } 4 }); Ok(x + y + z + w) }", "x_never()")
    xm = "macro_rules! x_mac_c { ($($a:item),* $(,)?) => { $($a)* } } macro_rules! x_mac_s { ($($a:item);* $(;)?) => { $($a)* } } macro_rules! x_mac_e { ($($a:expr),* $(,)?) => { ($($a,)*) } } macro_rules! x_mac_z { ($($a:expr);* $(;)?) => { [$($a),*] } } macro_rules! x_mac_m { ($s:stmt; $i:item, $e:expr; $t:stmt, $b:block) => {{ $s; $i $t; sink($e); $b }} }\n"
    add("x_mac", """pub mod x_mac { use super::*;
        x_mac_c! { pub fn a(n: i64) -> Result<i64, E> { let y = r(n)?;
            Ok(y + r(2)?) },
          pub fn b() -> Option<i64> { sink(3); o(4)?; Some(4) }, #[derive(Debug)] pub struct Z { pub a: i64 },
          impl Z { pub fn z(&self) -> Result<i64, E> { r(self.a)?; if c(1) { return r(2); } r(9) } }, }
        x_mac_s! { pub fn d() -> Result<i64, E> { r(5)?; let f = |x: i64| -> Result<i64, E> { Ok(r(x)?) }; f(6) }; pub mod q { use super::*; pub fn g() -> i64 { dg(7).v() } }; pub trait T { fn t(&self) -> Result<i64, E> { Ok(r(8)?) } }; impl T for Z {} }
        x_mac_c!(pub fn h() -> Result<i64, E> { Ok(x_mac_e!(r(1)?, { let q = r(2)?; q }, if c(2) { r(3)? } else { r(4)? }, |x: i64| -> Result<i64, E> { r(x) }).0) });
        x_mac_s![pub fn k() -> Result<i64, E> { let v = x_mac_z![r(1)?; r(2)? + r(3)?; match r(4) { Ok(v) => v, Err(_) => return r(5) }]; Ok(x_mac_m!(let w = r(v[0])?; fn own() -> Result<i64, E> { Ok(r(11)?) }, own()?; let u = r(12)?, { sink(dg(13).v()); r(w + u)? })) }];
    }""", "{ use x_mac::T; let z = x_mac::Z { a: 4 }; (x_mac::a(1), x_mac::b(), z.z(), x_mac::d(), x_mac::q::g(), z.t(), x_mac::h(), x_mac::k()) }", pre=xm)
    # names: two annotated items next to each other, with and without user items of the preset's names
    for i, fl in enumerate(["", "(hook)", "(trait_use(hrt::Hk))", "(empty, trait_use(hrt::Hk, hrt::Plus))", "(trait_uses(hrt::Hk), log)", "(anyhow)", "(eyre)", "(color_eyre)", "(tracing::warn)", "(log::info)"]):
        b = "pub mod x_nm%d { use hrt::{r, E, sink}; use hooq::hooq; pub trait Hk { fn hq(&self) -> i64 { 5 } } pub struct HooqMeta; pub trait Context {} pub trait WrapErr {} pub trait Plus {} impl Hk for i64 {} %s pub fn a() -> i64 { 3i64.hq() } %s pub fn b() -> i64 { sink(a()); 4i64.hq() } %s impl HooqMeta { pub fn m(&self) -> i64 { 6 } } %s pub mod dd { pub fn q() -> i64 { 7 } } }"
        out.append(RawU("x_nm%d" % i, b % ((i,) + ("#[hooq%s]" % fl,) * 4), b % ((i,) + ("",) * 4),
                        "(x_nm%d::a(), x_nm%d::b(), x_nm%d::HooqMeta.m(), x_nm%d::dd::q())" % (i, i, i, i), "", "", label="catalogue names " + fl))
    # a trait in scope takes no name of the user's own
    for i, (t, w) in enumerate([("::std::fmt::Write", "Write"), ("std::fmt::Write", "Write"), ("core::hash::Hash", "Hash"), ("::std::io::Read", "Read"), ("std::io::Write", "Write"), ("std::iter::Iterator", "Iterator"),
                                ("::hrt::Hk", "Hk"), ("hrt::Hk", "Hk"), ("super::Hk", "Hk"), ("crate::Hk", "Hk"), ("self::tt::Own", "Own"), ("tt::Own", "Own"), ("::core::ops::Add", "Add"), ("alloc_::fmt::Write", "Write")]):
        for j, d in enumerate(["pub struct WW(pub i64);", "pub trait WW { fn hk_of_mine(&self) -> i64 { 4 } } impl WW for i64 {}", "pub fn WW() -> i64 { 5 }"]):
            n = "x_tn%d_%d" % (i, j)
            use = ["WW(3).0", "{ use self::WW as _; 3i64.hk_of_mine() }", "WW()"][j].replace("WW", w)
            b = "pub mod %s { use hrt::{r, E, sink}; use hooq::hooq; use ::std as alloc_; pub mod tt { pub trait Own {} } #[allow(non_snake_case)] %s %s pub fn a() -> Result<i64, E> { sink(%s); Ok(r(%s)?) } %s pub fn b() -> i64 { %s } }"
            at = "#[hooq(empty, trait_use%s(%s))]" % ("s" if i % 2 else "", t)
            dd = d.replace("WW", w)
            out.append(RawU(n, b % (n, dd, at, use, use, at, use), b % (n, dd, "", use, use, "", use), "(%s::a(), %s::b())" % (n, n), "", "", label="catalogue trait name " + t))
    # every order of hooq attributes and others on one node
    pats = [p for n in range(2, 6) for p in itertools.product("haf", repeat=n) if p.count("f") == 1 and "h" in p]
    HQ = ["#[hooq::kk = 1]", "#[hooq::hook_in_macros(true)]", "#[hooq::binding(k2 = 2)]", '#[hooq::result_types("Result")]', "#[hooq::skip]"]
    shapes = [("let", "let v = 1i64; @let v = 2i64; sink(v);"), ("block", "let mut v = 1i64; @{ v = 2; } sink(v);"), ("fn", "fn z@@() -> i64 { 1 } { @fn z@@() -> i64 { 2 } sink(z@@()); }"),
              ("field", "sink(S { @a: 99, a: 1, b: 2 });"), ("expr", "@sink(3); sink(4);"), ("mac", "@run! { sink(5); } sink(6);"), ("if", "@if c(1) { sink(7); } sink(8);")]
    for what, sh in shapes:
        for k in range(0, len(pats), 32):
            body = {0: "", 1: ""}
            for q, p in enumerate(pats[k:k + 32]):
                for on in (1, 0):
                    at = " ".join({"h": HQ[(z + q) % 5] if on else "", "a": "#[cfg(all())]", "f": "#[cfg(any())]"}[x] for z, x in enumerate(p))
                    body[on] += sh.replace("@@", str(q)).replace("@", at + " ")
            n = "x_at_%s%d" % (what, k // 32)
            t = "fn %s() { %%s }" % n
            out.append(RawU(n, t % body[1], t % body[0], n + "()", "", "#[hooq] #[hooq::method(.idt())]", label="catalogue attribute orders " + what))
    for k in range(0, len(pats), 32):
        body = {0: "", 1: ""}
        calls = []
        for q, p in enumerate(pats[k:k + 32]):
            for on in (1, 0):
                at = " ".join({"h": HQ[(z + q) % 5] if on else "", "a": "#[cfg(all())]", "f": "#[cfg(any())]"}[x] for z, x in enumerate(p))
                body[on] += "%s pub fn m%d(&self) -> i64 { 2 } " % (at, q)
            calls.append("m%d" % q)
        n = "x_am%d" % (k // 32)
        pre = "pub struct %sT; pub trait %sF { %s } impl %sF for %sT {}" % (n, n, " ".join("fn %s(&self) -> i64 { 1 }" % c for c in calls), n, n)
        t = "impl %sT { %%s }" % n
        out.append(RawU(n, t % body[1], t % body[0], "[%s]" % ", ".join("%sT.%s()" % (n, c) for c in calls), pre, "#[hooq] #[hooq::method(.idt())]", label="catalogue attribute orders method"))
    return out


# ---------------------------------------------------------------- C04

@reg("C04")
class C04(Spec):
    sattr = 0.45
    n2 = (900, 20000)
    nr = (260, 4000)
    profile = dict(attr=0.16)

    def root(self, g):
        r = g.rng
        attrs = [a_method(hkm("String::new()", r))]
        if r.random() < 0.4:
            attrs.append(a_rtypes(["Result", "Option", "i64", "Res"]))
        if r.random() < 0.3:
            attrs.append(a_idents(["Err", "rid", "p", "dbl", "Some"]))
        return attrs, "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        r = g.rng
        x = r.random()
        if x < 0.55:
            return [a_skip()]
        if x < 0.85:
            return [a_skip_all()]
        if x < 0.92:
            return r.choice([[a_skip(), a_skip_all()], [a_skip_all(), a_skip()]])
        return [a_skip(), a_targets(r.choice([ALL, ("?",), ("return", "tail expr")]))]

    def catalogue(self, rng):
        return cat_skip()


def cat_skip():
    """`⟨e⟩`: hooked although a skip is near; every other target is suppressed."""
    H = ".hk(|| String::new())"
    out = []

    def add(name, src, call_, pre="", extra=""):
        A = '#[hooq::method(.hk(|| String::new()))] #[hooq::hook_targets("?", "return")] ' + extra
        S, SA = "#[hooq::skip]", "#[hooq::skip_all]"
        s = src.replace("⟨", "").replace("⟩", "").replace("§§", SA).replace("§", S)
        r_ = src.replace("⟨", "(").replace("⟩", ")" + H).replace("§", "")
        out.append(RawU(name, A + s, r_, call_, pre, "#[hooq]", label="catalogue " + name))
    add("s_let", "fn s_let() -> Result<i64, E> { § let a = r(1)? + { ⟨r(2)⟩? } + if r(3)? > 1 { ⟨r(4)⟩? } else { ⟨r(5)⟩? }; §§ let b = r(1)? + { r(2)? } + if r(3)? > 1 { r(4)? } else { (|| { let q = r(5)?; Ok::<i64, E>(q) })()? }; let d = ⟨r(6)⟩?; Ok(a + b + d) }", "s_let()")
    add("s_fn", "mod s_fn { use super::*; § pub fn a() -> Result<i64, E> { ⟨r(1)⟩?; if c(1) { return ⟨r(2)⟩; } Ok(⟨r(3)⟩?) } §§ pub fn b() -> Result<i64, E> { r(1)?; if c(1) { return r(2); } fn in_() -> Option<i64> { Some(o(1)?) } sink(in_()); let f = || { let q = r(3)?; Ok::<i64, E>(q) }; f()?; Ok(r(3)?) } pub fn d() -> Result<i64, E> { Ok(⟨r(4)⟩?) } }".replace("§ pub fn a()", "pub fn a()"), "(s_fn::a(), s_fn::b(), s_fn::d())")
    add("s_item", "pub mod s_item { use super::*; §§ pub mod x { use super::*; pub fn a() -> Result<i64, E> { r(1)?; mod y { } impl W { pub fn m(self) -> Result<i64, E> { Ok(r(2)?) } } W.m() } pub struct W; } §§ pub trait T { fn t(&self) -> Result<i64, E> { Ok(r(3)?) } } impl T for x::W {} impl x::W { §§ pub fn n(&self) -> Result<i64, E> { Ok(r(4)?) } pub fn k(&self) -> Result<i64, E> { Ok(⟨r(5)⟩?) } } §§ impl x::W { pub fn u(&self) -> Result<i64, E> { if c(1) { return r(7); } Ok(r(6)?) } } §§ pub static S_: fn() -> Option<i64> = || { let z = o(1)?; Some(z) }; pub static S2: fn() -> Option<i64> = || { let z = ⟨o(1)⟩?; Some(z) }; }",
        "{ use s_item::*; use s_item::T; (x::a(), x::W.t(), x::W.n(), x::W.k(), x::W.u(), S_(), S2()) }")
    add("s_match", "fn s_match() -> Result<i64, E> { let a = § match r(1)? { 1 => ⟨r(2)⟩?, n if n > 5 => { ⟨r(3)⟩? } _ => ⟨r(4)⟩?, }; let b = §§ match r(1)? { 1 => r(2)?, n if n > 5 => { r(3)? } _ => r(4)?, }; let d = match ⟨r(1)⟩? { 1 => § r(2)?, n => § { ⟨r(n)⟩? } }; Ok(a + b + d) }", "s_match()")
    add("s_loop", "fn s_loop() -> Result<i64, E> { let mut k = 0; § for i in 0..r(2)? { k += ⟨r(i)⟩?; } §§ for i in 0..r(2)? { k += r(i)?; { r(9)?; } } § while r(3)? + k < 9 { k += ⟨r(4)⟩? + 1; } §§ while r(3)? + k < 19 { k += r(4)? + 1; } let z = § loop { break ⟨r(5)⟩?; }; let y = §§ loop { break r(5)?; }; let x = 'l: { if c(1) { break 'l § r(6)?; } ⟨r(7)⟩? }; Ok(k + z + y + x) }", "s_loop()")
    add("s_clo", "fn s_clo() -> Result<i64, E> { § let f = |x: i64| -> Result<i64, E> { let y = ⟨r(x)⟩?; if c(1) { return ⟨r(8)⟩; } Ok(y) }; §§ let g = |x: i64| -> Result<i64, E> { let y = r(x)?; if c(1) { return r(8); } let h = || { let w = r(1)?; Ok::<i64, E>(w) }; h()?; Ok(y) }; sink(§ f(r(1)?)?); Ok(⟨f(⟨r(1)⟩?)⟩? + ⟨g(2)⟩? + § g(r(3)?)? + §§ f({ r(4)? })? + § f({ ⟨r(5)⟩? })?) }".replace("sink(§ f", "sink(§ f"), "s_clo()")
    add("s_ret", "fn s_ret() -> Result<i64, E> { if c(1) { § return r(r(1)?); } if c(2) { §§ return r({ r(2)? }); } if c(3) { § return { ⟨r(3)⟩?; r(4) }; } if c(4) { return ⟨§ r(r(5)?)⟩; } return ⟨r(⟨r(6)⟩?)⟩; }".replace("return ⟨§ r(r(5)?)⟩", "return ⟨§ r(r(5)?)⟩"), "s_ret()")
    add("s_args", "fn s_args() -> Result<i64, E> { let a = add(§ r(1)?, ⟨r(2)⟩?); let b = mk(⟨r(3)⟩?.plus(§ r(4)?)); let d = (§ r(5)?, ⟨r(6)⟩?, [§§ r(7)?, ⟨r(8)⟩?]); let e = S { a: § r(1)?, b: ⟨r(2)⟩? }; sink((a, b, d, e)); § r(r(3)?)?; §§ unsafe { r(4)?; } § unsafe { ⟨r(5)⟩?; } § if r(6)? > 1 { ⟨r(7)⟩?; } else if ⟨r(8)⟩? > 1 { ⟨r(9)⟩?; } §§ if r(6)? > 1 { r(7)?; } else if r(8)? > 1 { r(9)?; } else { r(1)?; } Ok(⟨r(2)⟩?) }", "s_args()")
    add("s_try_block", "fn s_try_block() -> i64 { § let a: Result<i64, E> = try { ⟨r(1)⟩? + { ⟨r(2)⟩? } }; §§ let b: Result<i64, E> = try { r(1)? + { r(2)? } }; let d: Result<i64, E> = try { ⟨r(3)⟩? + { § let x = r(4)?; x } }; sink((a, b, d)); 3 }", "s_try_block()")
    # suppression, then more suppression: the wider one stays
    add("s_nest", "fn s_nest() -> Result<i64, E> { §§ { § let a = { r(1)? }; sink(§ r(2)?); let f = § || { let q = r(3)?; Ok::<i64, E>(q) }; f()?; { § { { r(4)?; } } } sink(a); } § { ⟨r(5)⟩?; §§ { r(6)?; { r(7)?; } } ⟨r(8)⟩?; } Ok(⟨r(9)⟩?) }", "s_nest()")
    add("s_mac", "fn s_mac() -> Result<i64, E> { § let a = vec![r(1)?, { ⟨r(2)⟩? }]; §§ let b = vec![r(1)?, { r(2)? }]; § run! { sink(r(3)?); sink({ ⟨r(4)⟩? }); } §§ run! { sink(r(3)?); sink({ r(4)? }); } sink((a, b)); Ok(idm!(⟨r(5)⟩?)) }", "s_mac()")
    # counting and settings are not disturbed by skipped nodes: other attributes on the same node
    add("s_both", "fn s_both() -> Result<i64, E> { § #[hooq::method(.nope())] r(1)?; #[hooq::method(.nope())] §§ let q = { r(2)? }; § #[hooq::hook_targets()] let w = r(3)? + 1; #[allow(unused)] § #[allow(unused)] let e = r(4)?; Ok(q + w + ⟨r(5)⟩?) }".replace("#[hooq::method(.nope())] r(1)?", "r(1)?").replace("#[hooq::method(.nope())] §§", "§§").replace("§ #[hooq::hook_targets()] let", "§ let"), "s_both()")
    return out


# ---------------------------------------------------------------- C05

TOML5 = """
[alpha]
method = '''.hk(|| format!("alpha {}", $who))'''
hook_targets = ["?"]
tail_expr_idents = ["rid", "Err"]
ignore_tail_expr_idents = ["dbl", "Ok"]
result_types = ["Res", "i64"]
hook_in_macros = false
bindings = { who = "1" }

[alpha.beta]
method = '''hrt::hkf($expr, || format!("beta {}", $who))'''
hook_targets = ["return", "tail_expr"]
bindings = { who = "2" }

[gamma]
method = '''.tg("gamma").hk(|| $who.to_string())'''
result_types = ["Option", "Result"]
tail_expr_idents = ["Some", "p", "r"]
bindings = { who = "3" }

[delta]
method = '.hk(|| format!("delta {}", $who))'
hook_targets = []
tail_expr_idents = []
ignore_tail_expr_idents = []
result_types = []
bindings = {}

[gamma.epsilon]
ignore_tail_expr_idents = []

[alpha.zeta]
method = "$expr.tg(\\"zeta\\")"
tail_expr_idents = []
ignore_tail_expr_idents = ["Some"]
result_types = []
"""
ALPHA = Flavor('.hk(|| format!("alpha {}", $who))', ("?",), ("rid", "Err"), ("dbl", "Ok"), ("Res", "i64"), False, {"who": "1"})
BETA = ALPHA.clone()
BETA.method = Meth('hrt::hkf($expr, || format!("beta {}", $who))')
BETA.binds = {"who": "2"}
BETA.targets = frozenset(("return", "tail expr"))
GAMMA = Flavor('.tg("gamma").hk(|| $who.to_string())', ALL, ("Some", "p", "r"), ("Ok",), ("Option", "Result"), True, {"who": "3"})
DELTA = Flavor('.hk(|| format!("delta {}", $who))', (), (), (), (), True, {})
EPSILON = GAMMA.clone()
EPSILON.ignore = ()
ZETA = ALPHA.clone()
ZETA.method = Meth('$expr.tg("zeta")')
ZETA.idents, ZETA.ignore, ZETA.rtypes = (), ("Some",), ()
FL5 = {"delta": DELTA, "gamma.epsilon": EPSILON, "alpha.zeta": ZETA, "alpha": ALPHA, "alpha.beta": BETA, "gamma": GAMMA}
SETTINGS = ["flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]


def settings_attr(g, kinds=None):
    r = g.rng
    k = r.choice(kinds or ["method", "method", "targets", "idents", "ignore", "rtypes", "inmac", "flavor", "flavor", "skip", "bind"])
    if k == "method":
        return a_method(hkm('format!("m%d {}", $who)' % g.id(), r))
    if k == "targets":
        ts = r.sample(ALL, r.randint(0, 3))
        return a_targets(ts, spell_targets(r, ts))
    if k == "idents":
        ids = r.sample(IDPOOL, r.choice([0, 1, 1, 2, 2, 3]))
        return a_idents(ids + ["!" + x for x in r.sample(IDPOOL, r.randint(0, 2)) if x not in ids])
    if k == "ignore":
        return a_ignore(r.sample(IDPOOL, r.choice([0, 1, 2, 3, 4])))
    if k == "rtypes":
        return a_rtypes(r.sample(RTPOOL, r.choice([0, 1, 2, 3, 4])))
    if k == "bind":
        return a_bind("who", str(g.id()), r.randrange(3))
    if k == "inmac":
        return a_inmac(r.random() < 0.5)
    if k == "flavor":
        n = r.choice(list(FL5))
        return a_flavor(r.choice(SETTINGS), n, FL5[n], r.random() < 0.4)
    return a_skip()


@reg("C05")
class C05(Spec):
    sattr = 0.4
    n2 = (900, 20000)
    nr = (300, 5000)
    profile = dict(attr=0.18)
    toml = TOML5
    max_reject = 0.6

    def root(self, g):
        r = g.rng
        attrs = []
        if r.random() < 0.35:
            n = r.choice(list(FL5))
            ra = "#[hooq(%s)]" % (n.replace(".", "::") if r.random() < 0.6 else 'flavor = "%s"' % n)
            fl = FL5[n]
        else:
            ra, fl = "#[hooq]", DEFAULT
            attrs.append(a_method(hkm('format!("root {}", $who)', r)))
            attrs.append(a_bind("who", "0", r.randrange(3)))
        for _ in range(r.randint(0, 2)):
            attrs.append(settings_attr(g))
        return attrs, ra, fl

    @staticmethod
    def attr_fn(g, n):
        return [settings_attr(g) for _ in range(g.rng.choice([1, 1, 2, 2, 3]))]


# ---------------------------------------------------------------- C06

TOML6 = """
[base]
method = '''.tg("base")'''

[sub]
method = '''hrt::hkf($expr, || "sub".to_string())'''

[long]
method = '''.tg("l1").tg("l2").hk(|| { let v = [1, 2]; format!("{:?} {}", v, "long".len()) })'''
"""
FL6 = {"base": Flavor('.tg("base")'), "sub": Flavor('hrt::hkf($expr, || "sub".to_string())'),
       "long": Flavor('.tg("l1").tg("l2").hk(|| { let v = [1, 2]; format!("{:?} {}", v, "long".len()) })')}


def method6(g, style, parent):
    """A method text; `parent`: something may be overridden."""
    r = g.rng
    t = "t%d" % g.id()
    tok = r.choice(['stringify!(a + b :: <c> \'x "s (" r#"q"# ..= => 1.5e3 ; {[()]} # @ ~ -> \'y\')',
                    'stringify!(x?.y!().await . 0 . 1 1.0 .. a...b <<= &&& || |x| !=)',
                    '"\\u{e9}\\n\\"({[" ', 'concat!("a", 1, \'b\', true)', '{ let q = (1, [2, 3]); if q.0 == 1 { "y" } else { "n" } }'])
    ins = [".tg(\"%s\")" % t, '.tg("%s").hk(|| String::from("z"))' % t, '.tg(&hrt::norm(%s)).tg("%s")' % (tok, t),
           ".hk(|| { let s: Vec<i64> = (0..3i64).map(|x| x * 2).collect(); format!(\"%s {s:?}\") })" % t,
           ".idt().idt() . tg ( \"%s\" )" % t]
    sub = ['hrt::hkf($expr, || "%s".to_string())' % t, '{ let w = $expr; w.tg("%s") }' % t, '$expr.tg("%s")' % t,
           'match $expr { w => w.tg(&hrt::norm(%s)).tg("%s") }' % (tok, t), 'Hk::tg($expr, "%s")' % t,
           '(|w| Hk::tg(w, "%s"))($expr)' % t, '{ $expr }.tg("%s")' % t, 'if true { $expr.tg("%s") } else { loop {} }' % t]
    insp = [".$so_far.tg(\"%s\")" % t, ".tg(\"%s\").$so_far" % t, ".$so_far.tg(\"%s\").$sofar" % t, ".idt().$so_far . idt().tg(\"%s\")" % t]
    subp = ['{ let w = $so_far; w.tg("%s") }' % t, 'hrt::hkf($so_far, || "%s".into())' % t, '$so_far.tg("%s")' % t,
            'match $sofar { w => hrt::idf(w) }.tg("%s")' % t]
    over_ins = ['$expr.$so_far.tg("%s")' % t, 'hrt::hkf($expr.tg("%s").$so_far, || "i".into())' % t]
    if style == "ins":
        pool = ins + (insp * 2 if parent else [])
    elif style == "sub":
        pool = sub + (subp * 2 if parent else [])
    elif style == "over":
        pool = over_ins
    else:
        pool = ins + sub
    return r.choice(pool)


@reg("C06")
class C06(Spec):
    """All targets, all tail types, so that targets of every operator kind are hooked."""
    sattr = 0.35
    n2 = (800, 20000)
    nr = (300, 5000)
    profile = dict(attr=0.15)
    toml = TOML6

    def root(self, g):
        r = g.rng
        n = r.choice(list(FL6))
        g.style = getattr(g, "style", None) or r.choice(["ins", "sub", "mix"])
        if g.style == "ins":
            n = r.choice(["base", "long"])
        elif g.style == "sub":
            n = "sub"
        attrs = []
        if r.random() < 0.7:
            attrs.append(a_method(method6(g, g.style, True)))
        elif n != "sub" and g.style == "mix" and r.random() < 0.5:
            attrs.append(a_method(method6(g, "over", True)))
        attrs.append(a_rtypes(["Result", "Option", "i64", "Res", "Out", "bool"]))
        attrs.append(a_idents(r.choice([["Err"], ["Err", "rid", "Some", "p", "dbl", "add"]])))
        if r.random() < 0.6:
            attrs.append(a_ignore(["nothing"]))
        return attrs, "#[hooq(%s)]" % n, FL6[n]

    @staticmethod
    def attr_fn(g, n):
        if not getattr(g, "style", None):
            g.style = g.rng.choice(["ins", "sub", "mix"])
        return [a_method(method6(g, g.style, True)) for _ in range(g.rng.choice([1, 1, 1, 2]))]

    def catalogue(self, rng):
        return cat_method() + cat_text()


def cat_method():
    """Targets of every expression kind under both forms of method."""
    out = []
    kinds = [("i64", x) for x in ["-a", "!a", "*&a", "a + 1", "1 - a * 2", "a << 1", "a & 3 | 4 ^ a", "a as i32 as i64", "(a)", "a", "7", "-7",
                                  "{ a }", "unsafe { a }", "if a > 1 { a } else { 2 }", "match a { 1 => 2, x => x }", "loop { break a; }",
                                  "mk(a).a", "tbl(a)[1]", "tbl(a)[ix(a)]", "[a, 2][0]", "(a, 2).0", "p(a)", "a.plus(1)", "idm!(a)",
                                  "'l: { break 'l a }", "(|x: i64| x + 1)(a)", "const { 4i64 }", "-p(a)", "-a.plus(3)", "p(a) - p(2)",
                                  "a.plus(1) as i16 as i64", "(if a == 1 { 5 } else { 6 }) + 2", "(S { a, b: 2 }).b", "({ a }) + 1", "-{ a }", "*{ &a }"]]
    kinds += [("bool", x) for x in ["a > 1", "a == 1 && a < 3", "a > 3 || a < 2", "!c(1)", "matches!(a, 1 | 2)", "a == 1", "a != 2 && !(a >= 3) || c(2)", "true"]]
    kinds += [("std::ops::Range<i64>", "a..4"), ("std::ops::RangeInclusive<i64>", "a..=4"), ("std::ops::RangeTo<i64>", "..a + 1"),
              ("std::ops::RangeFrom<i64>", "-a.."), ("std::ops::RangeFull", ".."), ("S", "S { a: 1, b: a }"), ("S", "S { a: 1, ..mk(a) }"),
              ("(i64, i64)", "(a, a + 1)"), ("[i64; 2]", "[a, 3]"), ("[i64; 3]", "[a; 3]"), ("&'static str", "\"s\""), ("Result<i64, E>", "r(a)"),
              ("Option<i64>", "Some(-a)"), ("&'static i64", "&3"), ("String", "format!(\"{a}\")"), ("Vec<i64>", "vec![a; 2]"), ("()", "()"), ("u8", "b'x'"), ("f64", "-1.5"), ("f64", "2.0 * -1.5"), ("char", "'c'")]
    ms = [(".tg(\"x\")", "(%s).tg(\"x\")"), (".idt().tg(\"y\")", "(%s).idt().tg(\"y\")"), ("hrt::hkf($expr, || \"z\".into())", "hrt::hkf(%s, || \"z\".into())"),
          ("$expr.tg(\"w\")", "(%s).tg(\"w\")"), ("{ let q = $expr; q.tg(\"v\") }", "{ let q = (%s); q.tg(\"v\") }"), ("if $expr == $expr.idt() { $expr.tg(\"e\") } else { panic!() }", "if (%s) == (%s).idt() { (%s).tg(\"e\") } else { panic!() }")]
    n = 0
    for ty, e in kinds:
        for m, rf in ms:
            if "==" in m and ty not in ("i64", "bool", "&'static str", "String", "Vec<i64>", "char"):
                continue
            if "==" in m and "'l" in e:
                continue
            n += 1
            nm = "o_%d" % n
            h = rf.replace("%s", e)
            A = "#[hooq::method(%s)] #[hooq::tail_expr_idents(\"__\")] #[hooq::ignore_tail_expr_idents(\"__\")] #[hooq::result_types(\"%s\")] " % (m, {"&": "i64"}.get(ty[0], ty.split("<")[0].split("::")[-1]))
            if ty[0] in "&([":
                # such return types have no last segment: hook the value where it is returned from a typed closure's caller
                continue
            out.append(RawU(nm, A + "fn %s(a: i64) -> %s { if c(1) { return %s; } let f = |a: i64| -> %s { %s }; sink(f(1)); %s }" % (nm, ty, e, ty, e, e),
                            "fn %s(a: i64) -> %s { if c(1) { return %s; } let f = |a: i64| -> %s { %s }; sink(f(1)); %s }" % (nm, ty, h, ty, h, h),
                            nm + "(1)", "", "#[hooq]", label="operand %s / %s" % (e, m), singles=2, randoms=2))
    # attributes on and inside a tail
    tails = [("#[allow(unused)] %s", "p(a)"), ("#[cfg(all())] %s", "{ sink(1); p(a) }"), ("#[allow(unused)] %s", "{ #![allow(unused)] p(a) }"), ("%s", "{ #![allow(unused)] p(a) }"),
             ("#[allow(unused)] %s", "unsafe { p(a) }"), ("#[allow(unused)] #[cfg(all())] %s", "*&p(a)"), ("#[cfg_attr(all(), allow(unused))] %s", "match a { _ => p(a) }"), ("#[allow(unused)] %s", "loop { break p(a) }"),
             ("#[cfg(all())] %s", "mk(a).a"), ("#[cfg(all())] %s", "-p(a)"), ("#[allow(unused)] %s", "(p(a))"), ("#[allow(unused)] %s", "[p(a), 2][0]"), ("#[cfg(all())] %s", "if a > 1 { p(1) } else { p(2) }"),
             ("#[cfg(all())] %s", "match a { #![allow(unused)] _ => p(a) }")]
    for i, (t, e) in enumerate(tails):
        for j, (m, rf) in enumerate(ms[:5] + [("*&$expr", "*&(%s)"), ("$expr as i64", "(%s) as i64"), ("$expr + 1", "(%s) + 1"), ("S { a: $expr, b: 1 }.a", "(S { a: %s, b: 1 }.a)")]):
            nm = "at_%d_%d" % (i, j)
            h = rf % e.replace("#![allow(unused)] ", "")
            f = "fn %s(a: i64) -> i64 { let f = |a: i64| -> i64 { sink(a); %s }; sink(f(2)); %s }"
            A = "#[hooq::method(%s)] #[hooq::tail_expr_idents(\"__\")] #[hooq::ignore_tail_expr_idents(\"__\")] #[hooq::hook_targets(\"tail expr\")] #[hooq::result_types(\"i64\")] " % m
            out.append(RawU(nm, A + f % (nm, t % e, t % e), f % (nm, h, h), nm + "(1)", "", "#[hooq]", label="attributes on a tail %s / %s" % (t % e, m), singles=2, randoms=2))
    # so_far through many levels
    A = "#[hooq::method(.tg(\"0\"))] "
    for depth in (2, 3, 5, 8, 12):
        nm = "sf_%d" % depth
        src, ref = "r(1)?", "r(1)"
        so = "tg(\"0\")"
        body = "#[hooq::method(.%s)] "
        attrs = []
        for i in range(1, depth):
            m = ["$so_far.tg(\"%d\")", "tg(\"%d\").$so_far", "hk(|| { let _ = \"%d\".len(); String::from(\"n\") }).$sofar"][i % 3] % i
            attrs.append("#[hooq::method(.%s)]" % m)
            so = m.replace("$so_far", so).replace("$sofar", so)
        s = "r(1)?"
        for a in reversed(attrs):
            s = a + " { " + s + " }"
        b = "let x = %s; Ok(x + r(2)?)" % s
        rb = "let x = %s(r(1)).%s?%s; Ok(x + (r(2)).tg(\"0\")?)" % ("{ " * (depth - 1), so, " }" * (depth - 1))
        out.append(RawU(nm, A + "#[hooq::hook_targets(\"?\")] fn %s() -> Result<i64, E> { %s }" % (nm, b), "fn %s() -> Result<i64, E> { %s }" % (nm, rb), nm + "()", "", "#[hooq]", label="so_far depth %d" % depth))
    return out


SOUP = ["{}", "()", "[]", "{} ()", "({}) [()]", "{ {} } {}", "a::<b> {}", "<<= >>= .. ..= ... -> => :: <- && || != == <= >= += |= ^=", "< < = > > = & & : : = = . . - >", "'a 'b: 'static '_", "r#fn r#type fn type",
        "#[x] #![y(z = \"w\")] # [", "1 . 2 .3 0..1 1. 1.0.0 t.0.1", "@ ~ ; ,, , ?? ! !! _ _x", "-1 - 1 --1 - -1", "\"s\"sfx 1u9 b'x' 2e1_0 0xFFq", "a!{} b![] c!()", ", a", "a ,", "; ;", "{ , } ( ; ) [ => ]", "return ? . await", "if {} else {} while {} loop {}",
        "|x| || {}", "*const () &mut [] dyn {}", "? ? . ?", "hooq::skip #[hooq::skip] #[hooq::method(.x())] #[hooq]"]
SOUP = [x for x in SOUP if not x.endswith("# [")] + ["#[x] #![y(z = \"w\")] # {}"]


def cat_text():
    """Tokens of a method that look like something else, in both forms of method and at every depth of groups."""
    lits = ['"$line"', '"{$line}"', '"$expr {$source} $so_far"', 'r#"$col "$k" {$k}"#', 'r"$count\\n"', 'b"$fn_name"', 'br"$path"', "'$'", "b'$'", '"\\u{24}nth"', '"$ k"', '"$"', '"$$"', '"{{$k}}"',
            'c"$file"', '"a\\\n            b"', '"two\n   lines $k"', '1_000i64', '0xFFu8', '0b1010_1010', '0o17', '1e3', '1E-3f64', '2.', '1.5_f32', "'\\u{1F600}'", '"é 日本 \\t\\0"', 'stringify!(k line expr)', 'stringify!(a $ b)'.replace(" $ ", " "),
            '"//no comment"', '"/* none */"', 'r##"a"#b"##', '"\\"$k\\""', '"\\\\$k"', "'\\''", "'\"'", 'concat!("$", "k", 1, true)', '"hooq::skip"', '"#[hooq::skip]"', '"return ?"']
    toks = ["{ let r#type = 3i64; r#type << 1 }", "{ let mut a = 8i64; a <<= 1; a >>= 2; a ^= 1; a |= 6; a %= 5; a &= 7; a }", "(1..=3).map(|x| x).sum::<i64>()", "{ let f = || || 4i64; f()() }", "'a: { break 'a 1i64 }", "'r#loop: loop { break 'r#loop 2i64 }".replace("r#loop", "lp"),
            "{ fn q<'x, T: ?Sized + 'x>(_: &'x T) -> i64 { 5 } q::<str>(\"s\") }", "{ #[allow(unused)] let z = 1i64; #[cfg(any())] let z = 2i64; z }", "{ /// doc $k\n            #[derive(Debug)] struct D; format!(\"{D:?}\") }", "{ /* $k $nothing */ 6i64 // $line\n            }",
            "(-1i64 - -2, !0u8, !true, *&7i64, &&8i64)", "if 1 < 2 && 3 > 2 || !(1 == 2) { 9i64 } else { -9 }", "match (1, 2) { (1, x @ 1..=3) | (x, _) if x != 9 => x, _ => 0 }", "{ let [a, .., b] = [1i64, 2, 3]; (a, b) }", "{ let S { a, .. } = mk(3); a }", "1i64 as u8 as char as u32",
            "<i64 as ::std::str::FromStr>::from_str(\"5\")", "::std::mem::size_of::<[u8; { 1 + 2 }]>()", "{ macro_rules! e2 { () => { 3i64 } } e2!() }", "{ let k = 1i64; let line = 2i64; let expr = 3i64; (k, line, expr) }", "(|| -> Option<i64> { Some(Some(3)? + 1) })()", "(|| { if true { return 3i64 } 4 })()",
            "{ let v @ (a, b) = (1i64, 2i64); (v, a, b) }", "vec![1u8; 3]", "[(); 2]", "{ ; ; 1i64 }", "async { 1i64 }.rdy_len()".replace("async { 1i64 }.rdy_len()", "{ let f = async move { 1i64 }; drop(f); 2 }"), "unsafe { *(&raw const TBL[1]) }", "{ const K: i64 = 4; static ST: i64 = 5; K + ST }", "{ 1i64; }"]
    out = []
    n = 0
    for kind, xs in (("literal", lits), ("tokens", toks)):
        for x in xs:
            for form in range(3):
                n += 1
                nm = "tx_%d" % n
                d = 'format!("{:?}", %s)' % (x if kind == "literal" else "(%s)" % x)
                m = [".hk(|| %s)", "hrt::hkf($expr, || %s)", "{ let h = %s; $expr.hk(move || h) }"][form] % d
                rf = [".hk(|| %s)", "hrt::hkf(%%s, || %s)", "{ let h = %s; (%%s).hk(move || h) }"][form] % (d if form == 0 else d.replace("%", "%%"))
                h = lambda e: "(%s)%s" % (e, rf) if form == 0 else rf % e
                A = '#[hooq::k = 5i64] #[hooq::method(%s)] ' % m
                t = "pub fn %s() -> Result<i64, E> { let a = %s?; if c(9) { return %s; } %s }"
                out.append(RawU(nm, A + t % (nm, "r(1)", "r(2)", "r(a)"), t % (nm, h("r(1)"), h("r(2)"), h("r(a)")), nm + "()", "", "#[hooq]", label="%s in a method: %s" % (kind, x), singles=3, randoms=0))
    for x in SOUP:
        for form in range(3):
            n += 1
            nm = "tx_%d" % n
            d = "String::from(hrt::toks!%s)" % ["(%s)", "{%s}", "[%s]"][(n + form) % 3] % x
            m = [".hk(|| %s)", "hrt::hkf($expr, || { %s })", "{ let h = %s; $expr.hk(move || h) }"][form] % d
            rf = [".hk(|| %s)", "hrt::hkf(%%s, || { %s })", "{ let h = %s; (%%s).hk(move || h) }"][form] % d
            h = lambda e: "(%s)%s" % (e, rf) if form == 0 else rf % e
            t = "pub fn %s() -> Result<i64, E> { let a = %s?; if c(9) { return %s; } %s }"
            out.append(RawU(nm, "#[hooq::method(%s)] " % m + t % (nm, "r(1)", "r(2)", "r(a)"), t % (nm, h("r(1)"), h("r(2)"), h("r(a)")), nm + "()", "", "#[hooq]", label="tokens in a method: %s" % x, singles=3, randoms=0))
    # methods that come through macro_rules (rustc takes no notice of the invisible groups a procedural macro hands back,
    # so each of these means the same with and without its group)
    for i, (frag, arg, m, rf) in enumerate([
            ("expr", "mk(1).b", ".hk(|| format!(\"{}\", $k * 2))", ".hk(|| format!(\"{}\", mk(1).b * 2))"),
            ("expr", "1 + 2", ".hk(|| format!(\"{}\", ($k) * 2))", ".hk(|| format!(\"{}\", (1 + 2) * 2))"),
            ("expr", "|| String::from(\"q\")", ".hk($k)", ".hk(|| String::from(\"q\"))"),
            ("ty", "&'static dyn Fn() -> i64", ".hk(|| format!(\"{}\", size_of::<$k>()))", ".hk(|| format!(\"{}\", size_of::<&'static dyn Fn() -> i64>()))"),
            ("ty", "Vec<i64>", ".hk(|| format!(\"{}\", <$k>::new().len()))", ".hk(|| format!(\"{}\", <Vec<i64>>::new().len()))"),
            ("path", "std::mem::size_of::<u16>", ".hk(|| format!(\"{}\", $k()))", ".hk(|| format!(\"{}\", std::mem::size_of::<u16>()))"),
            ("ident", "hk", ".$k(|| String::from(\"i\"))", ".hk(|| String::from(\"i\"))"),
            ("literal", "-3", ".hk(|| format!(\"{}\", $k))", ".hk(|| format!(\"{}\", -3))"),
            ("literal", "\"$line\"", ".hk(|| format!(\"{}\", $k))", ".hk(|| format!(\"{}\", \"$line\"))"),
            ("block", "{ 1; 2 }", ".hk(|| format!(\"{}\", $k + 1))", ".hk(|| format!(\"{}\", ({ 1; 2 }) + 1))"),
            ("tt", "(4 - 1)", ".hk(|| format!(\"{}\", $k * 2))", ".hk(|| format!(\"{}\", (4 - 1) * 2))"),
            ("pat", "Some(_) | None", ".hk(|| match Some(3) { $k => String::from(\"pat\") })", ".hk(|| match Some(3) { Some(_) | None => String::from(\"pat\") })")]):
        nm = "tg_%d" % i
        t = "pub fn %s() -> Result<i64, E> { let a = %s?; if c(9) { return %s; } let b = (|| -> Result<i64, E> { %s })(); b }"
        src = "macro_rules! %s_m { ($k:%s) => { #[hooq] #[hooq::tail_expr_idents(\"Err\")] #[hooq::hook_targets(\"?\", \"return\")] #[hooq::method(%s)] %s } } %s_m!(%s);" % (nm, frag, m, t % (nm, "r(1)", "r(2)", "r(a)"), nm, arg)
        legal = "macro_rules! %s_m { ($k:%s) => {} } %s_m!(%s); " % (nm, frag, nm, arg)
        out.append(RawU(nm, src, legal + t % (nm, "r(1)" + rf, "r(2)" + rf, "r(a)"), nm + "()", "", "", label="method from macro_rules: %s %s" % (frag, arg), singles=4, randoms=0))
    return out


# ---------------------------------------------------------------- C07

BEXPR = ["1i64 + 2", "-3i64", "4i64", "\"s\"", "if true { 1i64 } else { 2 }", "hrt::p(77)", "!0i64", "4i32 as i64", "2i64 * 3 - 1", "mk(4)", "mk(5).b",
         "true && false", "\"a b\".len() as i64", "[1i64, 2][1]", "{ let q = 3i64; q }", "9i32", "false", "-(1i64 + 1)", "1i64 << 2 | 1", "'c'",
         "match 3i64 { 3 => 4i64, _ => 5 }", "String::from(\"dyn\")"]
NUM = [x for x in BEXPR if not x.startswith(('"s"', '"a b"', "true", "false", "'c'", "mk(4)", "String", "9i32"))]
BN = ["b0", "b1", "b2", "wide_name", "b_3"]
# names that begin, end or look like others
XN = ["_u", "__", "B0", "b00", "lines", "exprs", "é1", "col_", "count2", "_b0", "bind", "skips", "hooq_", "b", "v", "e", "Result", "hk"]


def xn(g):
    """The odd names bound in this program."""
    if not hasattr(g, "xn"):
        g.xn = g.rng.sample(XN, 2)
    return g.xn


def method7(g):
    r = g.rng
    if r.random() < 0.2:
        return r.choice([".hk(|| format!(\"{:?} {:?} {:?}\", $%s, $%s, $b1))", "hrt::hkf($expr, || format!(\"{:?} {:?}\", ($%s, 1), &$%s))"]) % tuple(r.choice(xn(g)) for _ in "ab")
    return r.choice([
        ".hk(|| hrt::meta_bindings(&$bindings))", ".hk(|| hrt::meta_bindings(&$vars))", ".hk(|| format!(\"{:?} {:?}\", $b0 * 2, $b1))",
        ".hk(|| format!(\"{:?}\", ($b0, $b1.clone(), -$b0 + 10 - $b0)))", ".hk(|| format!(\"{:?}\", [$b0, 3 - $b0, $b0 as i32 as i64]))",
        "hrt::hkf($expr, || format!(\"{:?}\", $b2))", ".hk(|| hrt::meta_bindings(&$hooq_meta.bindings))", ".hk(move || { let x = &$b2; format!(\"{x:?} {:?}\", $wide_name) })",
        "{ let v = $b0; let e = $expr; e.hk(|| format!(\"{v} {:?}\", $b_3)) }", ".hk(|| { let s = !$b0; let t = $b0.pow(2); format!(\"{s} {t} {}\", $b0 << 1) })",
        ".hk(|| format!(\"{:?}\", { fn g<T>(t: T) -> T { t } g($b1) }))"])


def bind7(g, name=None):
    r = g.rng
    n = name or r.choice(BN if r.random() < 0.8 else xn(g))
    return a_bind(n, r.choice(NUM if n == "b0" else BEXPR), r.randrange(3))


TOML7 = """
[fb]
method = '''.hk(|| hrt::meta_bindings(&$bindings))'''
[fb.bindings]
b0 = "10i64 + 1"
b1 = '"toml"'
b2 = "mk(1)"
wide_name = "-1i64"
b_3 = "hrt::p(78)"
[fb.inner]
[fb.inner.bindings]
b0 = "3i64 - 5"
extra = "true"
"""
FB = Flavor(".hk(|| hrt::meta_bindings(&$bindings))", binds={"b0": "10i64 + 1", "b1": '"toml"', "b2": "mk(1)", "wide_name": "-1i64", "b_3": "hrt::p(78)"})
FBI = FB.clone()
FBI.binds.update({"b0": "3i64 - 5", "extra": "true"})
FL7 = {"fb": FB, "fb.inner": FBI}


@reg("C07")
class C07(Spec):
    opts = RENAMED
    sattr = 0.4
    n2 = (500, 15000)
    nr = (220, 4000)
    profile = dict(attr=0.16)
    toml = TOML7

    def root(self, g):
        r = g.rng
        if r.random() < 0.3:
            n = r.choice(list(FL7))
            return [bind7(g, x) for x in xn(g)] + [bind7(g) for _ in range(r.randint(0, 2))], "#[hooq(%s)]" % n.replace(".", "::"), FL7[n]
        attrs = [bind7(g, n) for n in BN + xn(g)] + [a_method(method7(g))]
        r.shuffle(attrs)
        return attrs, "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        r = g.rng
        o = [bind7(g) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.3:
            o.append(a_method(method7(g)))
        if r.random() < 0.15:
            n = r.choice(list(FL7))
            o.insert(r.randint(0, len(o)), a_flavor(r.choice(["bindings", "flavor"]), n, FL7[n], r.random() < 0.5))
        return o

    def catalogue(self, rng):
        return cat_bind()


def cat_bind():
    out = []
    # a binding means what its expression means where it is used
    out.append(RawU("b_scope", """#[hooq::method(.hk(|| format!("{:?}", $x)))] #[hooq::hook_targets("?")] #[hooq::x = v * 2] fn b_scope() -> Result<i64, E> {
        let v = 1; let a = r(1)?; { let v = 10i64; r(2)?; let f = |v: i64| -> Result<i64, E> { Ok(r(3)? + { let v = v + 1; r(4)? }) }; f(30)?; } let mut v = v + 5; r(5)?; for i in 0..2 { v += i; r(6)?; } match 9i64 { v => { r(7)?; } } #[hooq::x = (v, a)] { r(8)?; } #[hooq::binding(y = v - 1)] #[hooq::method(.hk(|| format!("{:?}", -$y * $x)))] { let v = v * 3; r(9)?; } Ok(v) }""",
                    """fn b_scope() -> Result<i64, E> {
        let v = 1; let a = r(1).hk(|| format!("{:?}", v * 2))?; { let v = 10i64; r(2).hk(|| format!("{:?}", v * 2))?; let f = |v: i64| -> Result<i64, E> { Ok(r(3).hk(|| format!("{:?}", v * 2))? + { let v = v + 1; r(4).hk(|| format!("{:?}", v * 2))? }) }; f(30).hk(|| format!("{:?}", v * 2))?; } let mut v = v + 5; r(5).hk(|| format!("{:?}", v * 2))?; for i in 0..2 { v += i; r(6).hk(|| format!("{:?}", v * 2))?; } match 9i64 { v => { r(7).hk(|| format!("{:?}", v * 2))?; } } { r(8).hk(|| format!("{:?}", (v, a)))?; } { let v = v * 3; r(9).hk(|| format!("{:?}", -(v - 1) * (v * 2)))?; } Ok(v) }""",
                    "b_scope()", "", "#[hooq]"))
    exprs = ["1i64 + 2", "-3i64", "!1i64", "2i64 * 3", "8i64 - 3", "4i32 as i64", "if c(1) { 1i64 } else { 2 }", "match 1i64 { _ => 6i64 }", "{ 5i64 }", "7i64", "mk(2).a", "(1i64 + 1)", "1i64 << 3", "6i64 & 3 | 8", "*&4i64", "(|x: i64| x + 1)(2)", "tbl(3)[1]", "p(6) + p(7)", "1i64 ^ 3"]
    uses = ["$x * 10", "-$x", "10 - $x", "$x.pow(2)", "$x as i16 as i64", "!$x", "$x - $x", "{ $x }", "[$x, 1][0]", "($x)", "if $x > 2 { $x } else { 0 }", "$x % 5 << 1", "&$x", "1 + $x as i64", "match $x { v => v * 2 }", "S { a: $x, b: 1 }", "$x..$x + 1", "$x < $x"]
    n = 0
    for e in exprs:
        for u in uses:
            if u in ("$x < $x",):
                u = "($x < 3, 3 < $x)"
            n += 1
            nm = "bo_%d" % n
            out.append(RawU(nm, '#[hooq::method(.hk(|| format!("{:?}", %s)))] #[hooq::hook_targets("?")] #[hooq::%s] fn %s() -> Result<i64, E> { Ok(r(1)?) }' % (u, ["x = %s", "var(x = %s)", "binding(x = %s)"][n % 3] % e, nm),
                            'fn %s() -> Result<i64, E> { Ok(r(1).hk(|| format!("{:?}", %s))?) }' % (nm, u.replace("$x", "(%s)" % e)), nm + "()", "", "#[hooq]", label="binding operand %s in %s" % (e, u), singles=1, randoms=0))
    return out


# ---------------------------------------------------------------- C08 .. C11

def noise_attr(g, n):
    """Settings that decide which targets are hooked."""
    r = g.rng
    return [settings_attr(g, ["targets", "skip", "idents", "rtypes"])]


@reg("C08")
class C08(Spec):
    opts = [{"file": f, "via": v} for f, v in [("gen.rs", 0), ("src/gen.rs", 0), ("src/bin/two words/é 日.rs", 0), ("gen.rs", 1), ("./src/a.b/gen.x.rs", 0), ("src/deep/er/mod.rs", 1), ("@D/src/gen.rs", 0),
                                               ("no_extension", 0), ("src/src/src/src.rs", 1), ("@D/abs/lib.rs", 1), ("a/../b/./gen.rs", 0)]]
    foreign = 0.15
    no_cfg = ("expr", "tail")      # where a tail below an attribute starts is not claimed
    sattr = 0.0
    n2 = (600, 15000)
    nr = (220, 4000)
    profile = dict(attr=0.05)

    def root(self, g):
        r = g.rng
        b = r.choice(['format!("{} {} {} {}", $line, $col, $path, $file)', 'format!("{} {} {} {}", $line, $column, $file, $path)',
                      '{ let m = $hooq_meta; format!("{} {} {} {}", m.line, m.column, m.path, m.file) }', '{ let l: usize = $line; let k: usize = $col; let f: &str = $path; format!("{l}:{k}:{f}:{}", $file) }'])
        attrs = [a_method(hkm(b, r))]
        if r.random() < 0.6:
            attrs.append(a_rtypes(["Result", "Option", "i64", "Res"]))
            attrs.append(a_idents(["Err", "Some", "rid", "p"]))
        return attrs, "#[hooq]", DEFAULT

    attr_fn = staticmethod(noise_attr)

    def catalogue(self, rng):
        return cat_pos()


def cat_pos():
    out = []
    P = '.hk(|| format!("{} {} {} {}", $line, $col, $path, $file))'
    import re as _re

    def add(name, src, call_, attrs="", pre=""):
        # ⟨expr⟩«m»: hooked operand, its target's position is «m»; ⟨m| expr⟩ names the mark
        s = _re.sub(r"⟨(\w+)\|", "", src).replace("⟩", "")
        st, o, i = [], "", 0
        while i < len(src):
            m = _re.compile(r"⟨(\w+)\|").match(src, i)
            if m:
                st.append(m.group(1))
                o += "("
                i = m.end()
            elif src[i] == "⟩":
                k = st.pop()
                o += ').hk(|| format!("{} {} {} {}", @L{%s}, @C{%s}, @PATH, @FILE))' % (k, k)
                i += 1
            else:
                o += src[i]
                i += 1
        r = _re.sub("«\\w+»|#\\[hooq::[^]]*\\]", "", o)
        out.append(RawU(name, "#[hooq::method(%s)] %s" % (P, attrs) + s, r, call_, pre, "#[hooq]", label="catalogue " + name))
    add("l_uni", "fn l_uni() -> Result<i64, E> { let _é日本🦀 = (\"🦀é\", 'λ'); let á = ⟨a|r(1)⟩«a»?; /* 🦀🦀 */ let s = (\"日本\", ⟨b|r(2)⟩«b»?); /*\n é */ «c»return ⟨c|r(á + s.1)⟩; }".replace("let _é日本🦀 = ", "let _é日本 = "), "l_uni()")
    add("l_tab", "fn l_tab() -> Result<i64, E> {\n\t\tlet a = ⟨a|r(1)⟩\n\t  «a»?\n\t;\n\t«b»⟨b|r(\n⟨c|r(2)⟩\n\n   «c»?\n + a)⟩ }", "l_tab()")
    add("l_multi", 'fn l_multi() -> Result<i64, E> { let s = "a\nb\n   c"; let t = r#"x\ny"#; sink((s, t)); let a = ⟨a|r(1)⟩«a»?; let b = "q\\\n   w"; ⟨b|r(b.len() as i64)⟩«b»?; «c»⟨c|rid(\n  r(a)\n )⟩ }', "l_multi()")
    add("l_tailattr", "fn l_tailattr() -> Result<i64, E> { if c(1) { #[hooq::tail_expr_idents(\"Err\")] «a»⟨a|Err(E(1))⟩ } else { let x: Result<i64, E> = { #[hooq::x = 1]\n  «b»⟨b|Err::<i64, E>(E(2))⟩ }; sink(x);\n #[hooq::y = 2] «c»return ⟨c|r(⟨d|r(1)⟩«d»?)⟩; } }".replace("if c(1) {", "let z: Result<i64, E> = if c(1) {").replace("r(⟨d|r(1)⟩«d»?)⟩; } }", "r(⟨d|r(1)⟩«d»?)⟩; }; «e»⟨e|z⟩ }"), "l_tailattr()")
    add("l_tailops", "fn l_tailops() -> i64 { let f = |x: i64| -> i64 { if c(1) { «a»return ⟨a|-x⟩ } «b»⟨b|-x + 1⟩ }; let g = |x: i64| -> i64 { «c»⟨c|(x) - 2⟩ }; let h = |x: i64| -> i64 {\n  «d»⟨d|x\n .plus(1)⟩ }; let k = |x: i64| -> i64 { «e»⟨e|{ x } + 2⟩ }; let m = |x: i64| -> i64 «f»⟨f|{ «g»⟨g|match x { 1 => 2, y => y }⟩ }⟩; «h»⟨h|f(1) + g(2) + h(3) + k(4) + m(5)⟩ }".replace("-> i64 «f»⟨f|{ «g»⟨g|match x { 1 => 2, y => y }⟩ }⟩;", "-> i64 { «g»⟨g|match x { 1 => 2, y => y }⟩ };").replace("«e»⟨e|{ x } + 2⟩", "«e»⟨e|({ x }) + 2⟩"), "l_tailops()", '#[hooq::result_types("i64")] #[hooq::tail_expr_idents("__")] ')
    add("l_nest", "fn l_nest() -> Result<i64, E> { let f = |x: i64| -> Result<i64, E> { let g = || -> Result<i64, E> { «a»⟨a|rid(r(⟨b|r(x)⟩«b»?))⟩ }; «c»⟨c|rid(\n r(⟨d|g()⟩ «d»? + ⟨e|g()⟩\n\n «e»?))⟩ }; «h»⟨h|rid(r(⟨f|f(1)⟩«f»? + { let y = ⟨g|f(2)⟩«g»?; y }))⟩ }", "l_nest()")
    add("l_chain", "fn l_chain() -> Result<i64, E> { Ok(⟨a|⟨b|okr(r(1))⟩«b»?⟩«a»?.plus(⟨c|r(2)⟩  «c»?).plus(\n⟨d|⟨e|okr(r(3))⟩\n«e»?⟩\n  «d»?)) }", "l_chain()")
    add("l_mac", "fn l_mac() -> Result<i64, E> { let v = vec![⟨a|r(1)⟩«a»?, idm!(\n ⟨b|r(2)⟩«b»?), idm!(idm! { ⟨c|r(3)⟩ «c»? })]; run! { let q = ⟨d|r(4)⟩«d»?;\n if c(1) { «e»return ⟨e|r(5)⟩; }; sink(q); } «f»⟨f|rid(r(v[0]))⟩ }", "l_mac()")
    add("l_ret", "fn l_ret() -> Result<i64, E> { if c(1) {\n«a»return\n\n ⟨a|r(⟨b|r(1)⟩«b»?)⟩ ; } if c(2) { «c»return ⟨c|match o(1) { Some(x) => r(x), None => { «d»⟨d|Err(E(1))⟩ } }⟩ } let g = || -> Result<i64, E> { «e»return ⟨e|{ r(4) }⟩ }; «f»⟨f|g()⟩ }", "l_ret()")
    add("l_attrs", "fn l_attrs() -> Result<i64, E> { #[allow(unused)]\n  let a = ⟨a|r(1)⟩\n«a»?; #[cfg(all())]\n\n ⟨b|r(2)⟩ «b»?; #[allow(unused)] #[cfg(all())]\n sink(⟨c|r(3)⟩«c»?); let f = || -> Result<i64, E> { if c(1) {\n#[allow(unused)]\n   «d»return ⟨d|r(⟨e|r(4)⟩«e»?)⟩; } #[cfg(all())] #[allow(unused)]\n if c(2) { #[cfg(all())]\n\t«f»return\n ⟨f|r(5)⟩; }; «g»⟨g|r(6)⟩ }; sink(f()); let k = match a { #[cfg(all())]\n 1 => ⟨h|r(7)⟩«h»?, _ => { #[allow(unreachable_code)]\n /* é */ «i»return ⟨i|r(8)⟩; } }; «j»⟨j|r(k)⟩ }", "l_attrs()")
    add("l_arms", "fn l_arms() -> Result<i64, E> { «z»⟨z|match ⟨a|r(1)⟩«a»? { 0 if ⟨b|r(2)⟩«b»? > 1 => «c»⟨c|Err(E(3))⟩, x if x > 90 => {\n «d»⟨d|Err(E(4))⟩\n } x => Ok(⟨e|r(x)⟩«e»?), }⟩ }", "l_arms()")
    return out


@reg("C09")
class C09(Spec):
    sattr = 0.3
    n2 = (600, 15000)
    nr = (260, 4000)
    profile = dict(attr=0.08)

    def root(self, g):
        r = g.rng
        attrs = [a_method(hkm(r.choice(["String::from($count)", "$nth.to_string()", "{ let q: &str = $count; q.into() }"]), r))]
        if r.random() < 0.7:
            attrs.append(a_rtypes(["Result", "Option", "i64", "Res"]))
        if r.random() < 0.4:
            attrs.append(a_idents(["Err", "Some", "rid", "p"]))
        if r.random() < 0.4:
            ts = r.sample(ALL, r.randint(1, 3))
            attrs.append(a_targets(ts))
        return attrs, "#[hooq]", DEFAULT

    attr_fn = staticmethod(noise_attr)

    def catalogue(self, rng):
        return cat_count(rng)


def cat_count(rng):
    out = []
    A = "#[hooq::method(.hk(|| $count.to_string()))] "
    for kind, n in (("q", 125), ("r", 118), ("t", 123), ("mix", 70)):
        nm = "n_" + kind
        src, ref = [], []
        cnt = {"?": 0, "return": 0, "tail expr": 0}

        def h(k, e):
            cnt[k] += 1
            return "(%s).hk(|| %s.to_string())" % (e, rstr(ordinal(cnt[k], k)))
        for i in range(n):
            k = kind if kind != "mix" else "qrt"[i % 3]
            if k == "q":
                src.append("r(%d)?;" % i)
                ref.append(h("?", "r(%d)" % i) + "?;")
            elif k == "r":
                src.append("if c(7) { sink((|| -> Result<i64, E> { return r(%d); })()); }" % i)
                ref.append("if c(7) { sink((|| -> Result<i64, E> { return %s; })()); }" % h("return", "r(%d)" % i))
            else:
                src.append("sink((|| -> Result<i64, E> { r(%d) })());" % i)
                ref.append("sink((|| -> Result<i64, E> { %s })());" % h("tail expr", "r(%d)" % i))
        out.append(RawU(nm, A + "fn %s() -> Result<i64, E> { %s Ok(1) }" % (nm, " ".join(src)), "fn %s() -> Result<i64, E> { %s Ok(1) }" % (nm, " ".join(ref)),
                        nm + "()", "", "#[hooq]", label="many targets " + kind, singles=3, randoms=1))
    # where a target stands in code that does not run itself
    t = "fn n_len() -> Result<i64, E> { let a = %s?; let z = [a; { let _f = || -> Option<i64> { let _y = %s?; Some(%s?) }; 2 }]; let k = const { let _f = || -> Result<i64, E> { Ok(%s?) }; 3i64 }; match k { 3 if false => { sink(%s?) } _ => {} } sink(z); if false { %s?; } Ok(%s? + k) }"
    es = ["r(1)", "o(2)", "o(3)", "r(4)", "r(5)", "r(6)", "r(7)"]
    out.append(RawU("n_len", A + '#[hooq::hook_targets("?")] ' + t % tuple(es), t % tuple("(%s).hk(|| %s.to_string())" % (e, rstr(ordinal(i + 1, "?"))) for i, e in enumerate(es)), "n_len()", "", "#[hooq]", label="catalogue n_len"))
    return out


@reg("C10")
class C10(Spec):
    n2 = (500, 15000)
    nr = (260, 4000)
    profile = dict(attr=0.04)

    def root(self, g):
        r = g.rng
        b = r.choice(['format!("{} | {}", $fn_name, hrt::norm($fn_sig))', 'format!("{} | {}", $fnname, hrt::norm($fnsig))', '{ let a: &str = $fn_name; let b: &str = $fn_sig; [a, " | ", &hrt::norm(b)].concat() }'])
        attrs = [a_method(hkm(b, r))]
        if r.random() < 0.6:
            attrs.append(a_rtypes(["Result", "Option", "i64", "Res"]))
            attrs.append(a_idents(["Err", "Some", "rid", "p"]))
        return attrs, "#[hooq]", DEFAULT

    attr_fn = staticmethod(noise_attr)

    def catalogue(self, rng):
        return cat_fn()


def cat_fn():
    out = []

    def add(name, src, call_, pre="", attrs=""):
        """⟨e|fn_name|fn_sig⟩: hooked operand."""
        import re as _re
        rx = _re.compile(r"⟨([^⟨⟩]*)¦([^⟨⟩¦]*)¦([^⟨⟩¦]*)⟩")
        s = rx.sub(lambda m: m.group(1), src)
        r = rx.sub(lambda m: "(%s).hk(|| format!(\"{} | {}\", %s, hrt::norm(%s)))" % (m.group(1), rstr(m.group(2)), rstr(m.group(3))), src)
        A = '#[hooq::method(.hk(|| format!("{} | {}", $fn_name, hrt::norm($fn_sig))))] #[hooq::hook_targets("?")] ' + attrs
        out.append(RawU(name, A + s, r, call_, pre, "#[hooq]", label="catalogue " + name))
    add("f_gen", "pub(crate) fn f_gen<'a, T: std::fmt::Debug + 'a, const N: usize>(mut t: &'a T, [x, y]: [i64; N2], _: (i64, S)) -> Result<&'a T, E> where T: Sized, [(); N]: Sized { ⟨r(x)¦f_gen¦fn f_gen<'a, T: std::fmt::Debug + 'a, const N: usize>(mut t: &'a T, [x, y]: [i64; N2], _: (i64, S)) -> Result<&'a T, E> where T: Sized, [(); N]: Sized⟩?; Ok(t) }".replace("N2", "2"), "f_gen::<_, 3>(&4u8, [1, 2], (1, mk(2)))")
    add("f_async", "pub async unsafe fn f_async(x: i64) -> Result<i64, E> { let a = async { ⟨r(1)¦f_async¦async unsafe fn f_async(x: i64) -> Result<i64, E>⟩? ; Ok::<i64, E>(1) }; let cl = async move |y: i64| -> Result<i64, E> { Ok(⟨r(y)¦__closure_in_f_async__¦async move |y: i64| -> Result<i64, E> {}⟩?) }; a.await.ok(); cl(3).await.ok(); Ok(⟨ar(x).await¦f_async¦async unsafe fn f_async(x: i64) -> Result<i64, E>⟩?) }", "block_on(unsafe { f_async(3) })")
    add("f_ext", "pub extern \"C\" fn f_ext(x: i64) -> i64 { let f = move |a: i64, (b, _): (i64, u8)| -> Result<i64, E> { Ok(⟨r(a + b)¦__closure_in_f_ext__¦move |a: i64, (b, _): (i64, u8)| -> Result<i64, E> {}⟩?) }; unw(f(x, (1, 2))) }", "f_ext(4)")
    add("f_impl", "impl TF { fn a(&mut self, x: i64) -> Result<i64, E> { let q = ⟨r(1)¦a¦fn a(&mut self, x: i64) -> Result<i64, E>⟩?; fn inner<T>(t: T) -> Result<T, E> { ⟨r(2)¦inner¦fn inner<T>(t: T) -> Result<T, E>⟩?; let c_ = || Ok::<i64, E>(⟨r(3)¦__closure_in_inner__¦|| {}⟩?); c_().ok(); Ok(t) } inner(1u8).ok(); let d = |v| { let w = |z: i64| -> Result<i64, E> { ⟨r(z)¦__closure_in_a__¦|z: i64| -> Result<i64, E> {}⟩?; Ok(1) }; w(1).ok(); let u = ⟨r(v)¦__closure_in_a__¦|v| {}⟩?; Ok::<i64, E>(u) }; d(5).ok(); ⟨r(6)¦a¦fn a(&mut self, x: i64) -> Result<i64, E>⟩?; Ok(x) } pub fn b(self: &Self) -> Option<i64> { ⟨o(3)¦b¦fn b(self: &Self) -> Option<i64>⟩ ? ; None } const K: fn() -> Option<i64> = || Some(⟨o(4)¦@¦|| {}⟩?); }".replace("¦@¦|| {}", "¦__closure_in_<unknown>__¦|| {}").replace(" const K: fn() -> Option<i64> = || Some(⟨o(4)¦__closure_in_<unknown>__¦|| {}⟩?);", ""), "(TF.a(3), TF.b())", pre="pub struct TF;")
    add("f_trait", "pub trait TT { fn req(&self) -> Result<i64, E>; fn def(&self, n: i64) -> Result<i64, E> where Self: Sized { ⟨self.req()¦def¦fn def(&self, n: i64) -> Result<i64, E> where Self: Sized⟩? ; Ok(n) } fn st<A: Default>() -> Option<A> { ⟨o(1)¦st¦fn st<A: Default>() -> Option<A>⟩?; Some(A::default()) } }", "(f_trait_m::Z.def(2), f_trait_m::Z::st::<u8>())", pre="mod f_trait_m { use super::*; pub struct Z; impl TT for Z { fn req(&self) -> Result<i64, E> { r(9) } } }")
    add("f_raw", "fn r#match(r#type: i64) -> Result<i64, E> { ⟨r(r#type)¦r#match¦fn r#match(r#type: i64) -> Result<i64, E>⟩?; Ok(1) }", "r#match(3)")
    add("f_fnarg", "fn f_fnarg(f: impl Fn(i64) -> Result<i64, E>, g: &dyn for<'x> Fn(&'x i64) -> &'x i64) -> Result<i64, E> { Ok(⟨f(*g(&3))¦f_fnarg¦fn f_fnarg(f: impl Fn(i64) -> Result<i64, E>, g: &dyn for<'x> Fn(&'x i64) -> &'x i64) -> Result<i64, E>⟩?) }", "f_fnarg(|x| r(x), &|x| x)")
    for n in ("_f_und_", "__closure_in_f_fake__", "f_名前", "f__", "_f"):
        cn = "__closure_in_%s__" % n
        add(n, "fn NAME(x: i64) -> Result<i64, E> { let a = |y: i64| { let b = move |z: i64| { let d = || -> Result<i64, E> { let e = |w| { ⟨r(w)¦CN¦|w| {}⟩?; Ok::<i64, E>(w) }; ⟨e(z)¦CN¦|| -> Result<i64, E> {}⟩?; Ok(z) }; ⟨d()¦CN¦move |z: i64| {}⟩?; fn __in__() -> Option<i64> { let g = || { let h = || -> Option<i64> { ⟨o(3)¦__closure_in___in____¦|| -> Option<i64> {}⟩?; Some(2) }; ⟨h()¦__closure_in___in____¦|| {}⟩?; Some(1) }; ⟨g()¦__in__¦fn __in__() -> Option<i64>⟩ } sink(__in__()); let k = || { ⟨r(4)¦CN¦|| {}⟩?; Ok::<i64, E>(1) }; k() }; ⟨b(y)¦CN¦|y: i64| {}⟩?; Ok::<i64, E>(y) }; ⟨a(x)¦NAME¦fn NAME(x: i64) -> Result<i64, E>⟩?; Ok(x) }".replace("⟨g()¦__in__¦fn __in__() -> Option<i64>⟩", "Some(⟨g()¦__in__¦fn __in__() -> Option<i64>⟩?)").replace("NAME", n).replace("CN", cn), n + "(3)")
    add("f_mod", "pub mod f_mod { use super::*; pub(in crate) fn a() -> Result<i64, E> { ⟨r(1)¦a¦fn a() -> Result<i64, E>⟩?; pub mod d { use super::*; pub fn z() -> Option<i64> { ⟨o(1)¦z¦fn z() -> Option<i64>⟩?; Some(2) } } sink(d::z()); ⟨r(2)¦a¦fn a() -> Result<i64, E>⟩?; struct I; impl I { fn m(self) -> Result<i64, E> { ⟨r(5)¦m¦fn m(self) -> Result<i64, E>⟩?; Ok(1) } } ⟨I.m()¦a¦fn a() -> Result<i64, E>⟩?; for _ in 0..1 { let k = { ⟨r(3)¦a¦fn a() -> Result<i64, E>⟩? }; sink(k); } ⟨r(4)¦a¦fn a() -> Result<i64, E>⟩ ? ; Ok(3) } }", "f_mod::a()")
    return out


@reg("C11")
class C11(Spec):
    opts = RENAMED
    no_cfg = ("expr", "tail")      # where a tail below an attribute starts is not claimed
    sattr = 0.25
    n2 = (600, 15000)
    nr = (260, 4000)
    profile = dict(attr=0.1)

    def root(self, g):
        r = g.rng
        b = r.choice(["hrt::norm(stringify!($source))"] * 2 + ["hrt::meta($hooq_meta)", "hrt::meta($hooqmeta)", "{ let m = $hooq_meta; hrt::norm(m.source_str) + m.count }"])
        attrs = [a_method(hkm(b, r))]
        if r.random() < 0.6:
            attrs.append(a_rtypes(["Result", "Option", "i64", "Res"]))
            attrs.append(a_idents(["Err", "Some", "rid", "p"]))
        if r.random() < 0.5:
            attrs.append(bind7(g))
            attrs.append(bind7(g))
        return attrs, "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        return [g.rng.choice([lambda: settings_attr(g, ["targets", "skip", "method2"] if False else ["targets", "skip", "rtypes"]), lambda: bind7(g)])()]

    def catalogue(self, rng):
        return cat_source()


def cat_source():
    out = []
    # the text of a binding's value is as written
    for i, v in enumerate(["(1i64)", "((2i64))", "(1i64 + 2)", "{ 3i64 }", "({ 3i64 })", "{ (4i64) }", "-(5i64)", "(-5i64)", "(1i64) + (2)", "(mk(3))", "(mk)(3)", "\"a\"", "(\"a\")", "(true)", "!(true)", "(1i64 as i32)", "(1i64) as i32", "-1i64", "1i64 + 2 * 3", "(1i64 + 2) * 3",
                           "&3i64", "mk(3)", "mk(3).a", "(mk(3)).a", "1_000i64", "0x10i64", "'c'", "[1i64, 2]", "(1i64,)", "()", "if true { 1i64 } else { 2 }", "match 3 { _ => 4i64 }", "|| 1i64", "(|| 1i64)()", "String::from(\"x\")", "vec![1i64]", "i64::MAX", "unsafe { 1i64 }", "3i64;".rstrip(";"), "r#\"x\"#", "Some::<i64>(1)", "loop { break 3i64 }"]):
        m = "s_bx%d" % i
        for j, (at, read) in enumerate([("#[hooq::x = %s]", "hrt::norm(&$hooq_meta.bindings[\"x\"].expr)"), ("#[hooq::binding(x = %s)]", "hrt::norm(&$bindings[\"x\"].expr)"), ("#[hooq::var(x = %s)]", "hrt::norm(&$vars[\"x\"].expr)")]):
            n = "%s_%d" % (m, j)
            out.append(RawU(n, "#[hooq::method(.hk(|| %s))] #[hooq::hook_targets(\"?\")] %s fn %s() -> Result<i64, E> { r(1)?; Ok(1) }" % (read, at % v, n),
                            "fn %s() -> Result<i64, E> { r(1).hk(|| { let _ = &(%s); hrt::norm(stringify!(%s)) })?; Ok(1) }" % (n, v, v), n + "()", "", "#[hooq]", label="catalogue binding text " + v))
    out.append(RawU("s_acc", """#[hooq::method(.hk(|| { let m = $hooq_meta; format!("{:?} {:?} {:?} {:?} {:?} {:?}", m.get_binding::<i64>("x"), m.get_binding::<i32>("x"), m.get_binding::<&str>("y"), m.get_binding::<i64>("z"), m.get_binding::<S>("s"), m.get_binding::<String>("y")) }))]
        #[hooq::hook_targets("?")] #[hooq::x = 4i64 + 1] #[hooq::y = "str"] #[hooq::s = mk(3)] fn s_acc() -> Result<i64, E> { r(1)?; #[hooq::x = 3i32] r(2)?; #[hooq::z = 9i64] { r(3)?; } Ok(1) }""",
                    """fn s_acc() -> Result<i64, E> { r(1).hk(|| { mk(3); format!("Some(5) None Some({:?}) None Some({:?}) None", "str", S { a: 3, b: 4 }) })?; r(2).hk(|| { mk(3); format!("None Some(3) Some({:?}) None Some({:?}) None", "str", S { a: 3, b: 4 }) })?; { r(3).hk(|| { mk(3); format!("Some(5) None Some({:?}) Some(9) Some({:?}) None", "str", S { a: 3, b: 4 }) })?; } Ok(1) }""",
                    "s_acc()", "", "#[hooq]"))
    return out


# ---------------------------------------------------------------- C14 (the targets of hooks)

XH = "::hooq::source_excerpt_helpers::"
XFORMS = [("x_default", XH + "excerpted_pretty_stringify!(%s)"), ("x_default", "{ use ::hooq::source_excerpt_helpers::*; excerpted_pretty_stringify! { %s } }"),
          ("x_one", "hrt::norm(" + XH + "one_line_stringify!(%s))"),
          ("x_ex3", XH + "excerpted_pretty_stringify!(@excerpt_line = 3, %s)"),
          ("x_ex2", XH + 'excerpted_pretty_stringify!(@padding = "top", @truncate_str = 7, @excerpt_line = 2, %s)'),
          ("x_num", XH + 'pretty_stringify!(@show_line_num, @padding = "top", %s)'), ("x_plain", XH + 'pretty_stringify!(@padding = "bottom", %s)')]


@reg("C14b")
class C14b(Spec):
    foreign = 0.0                # whether an excerpt shows them is not claimed
    n2 = (300, 8000)
    nr = (300, 4000)
    sattr = 0.15
    profile = dict(attr=0.08)

    def root(self, g):
        r = g.rng
        name, mac = r.choice(XFORMS)
        want = "$" + name
        if name == "x_one":
            want = "hrt::norm(%s)" % want
        m = r.choice([".hk(|| String::from(%s))", "hrt::hkf($expr, || String::from(%s))", "{ let q = $expr; q.hk(move || { %s.to_string() }) }"])
        attrs = [Attr("method", Meth(m % want), "#[hooq::method(%s)]" % (m % (mac % "$source")))]
        if r.random() < 0.6:
            attrs.append(a_rtypes(["Result", "Option", "i64", "Res"]))
            attrs.append(a_idents(["Err", "Some", "rid", "p"]))
        return attrs, "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        r = g.rng
        return [r.choice([a_skip, a_skip_all, lambda: a_bind(r.choice(BN), r.choice(["1i64 + 2", "mk(4)", "true && false", "(2i64, 3)"]), r.randrange(3)), lambda: a_inmac(True), lambda: a_plain("#[allow(unused)]") if g.at == "item" else a_skip()])()]


# ---------------------------------------------------------------- C15

KEEP_TEXTS = ["#![x] fn g() {}", "#![x(y = 1)] #![z] struct S;", "#![x]", "a; b, c; d,", "fn f(); ", "struct A; struct B { x: i64, } enum C { D, E(u8,), F { y: i64 } = 3 }", "x as u8 as i64 < 3", "#[a] #[b] x", "#[a] fn f() {} #[b] fn g() {}",
    "if a { b } else if c { d } else { e }", "r#type, r#\"raw\"#, b'x', c\"s\", 1_000u64, 0xFFi64, 1e3, 1.0f32", "'a: loop { break 'a 3; }", "match x { | A | B if c => {} , D => 1, ref y @ E(..) => {} _ => (), }", "|a, mut b: i64, (c, d)| a + b",
    "move || -> i64 { 3 }", "async move { x.await }", "a..=b, ..c, .., d..", "&mut *x, &raw const y, !z, -w", "[1; 3], [1, 2,], (1,), (), [ ]", "S { a, b: 1, ..c }", "S::<T>::f::<'a, { N }, _>(x,)", "<T as U>::V::w(y)", "impl<'a, T: 'a + ?Sized + Fn(u8) -> i64, const N: usize> A<T, N> for B where T: for<'b> C<'b>, { type X = Y; const Z: u8 = 1; fn f(self: &Self) {} }",
    "trait T: A + B { type C: D = E; const F: u8; fn g(&self, _: u8) -> impl H; }", "pub(in a::b) use c::{d as e, self, f::*};", "extern \"C\" { fn f(x: u8, ...); static Y: i64; }", "unsafe { x } ; { y } ; const { z }", "let x: Vec<_> = y; let A { b, .. } = c else { d };", "let x = 1; let y = 2;", "macro_rules! m { ($($x:tt)*) => { $($x)* } }",
    "a.b.0.1.c()[d](e)", "m!(a b c); n![x]; o!{ }", "x = y, x += z, x <<= w", "while let Some(x) = y && z { continue; }", "for (i, _) in x.iter().enumerate() { }", "static mut X: &[u8] = b\"x\"; type T<'a> = &'a dyn Fn(i64) -> Box<dyn A + 'a>;", "union U { a: u8 } ; mod m { } ; mod n; ; x".replace(" ; mod n; ; x", ""), "unsafe fn f<T>(x: T) where T: A {}", "default, auto, union",
    "format_args!(\"{x:?}\"), \"a\\n\", 'c', '\\''", "return_, returns, question", "x!{}, y", "(a), ((b)), { c }", "#[cfg(x)] let y = 1;", "#[a] { b }", "pub fn f(#[a] x: u8) -> ! { loop {} }", "a < b, c > d", "!", "x.await.y", "1..2", "-1i8", "\"s\"", "fn f() -> Result<i64, E> { g() }".replace("g()", "Ok(1)")]


@reg("C15")
class C15(Spec):
    n2 = (700, 8000)
    nr = (260, 4000)
    sattr = 0.2
    profile = dict(attr=0.1)
    only_macros = True

    def root(self, g):
        r = g.rng
        attrs = [a_method(hkm("String::new()", r))]
        if r.random() < 0.4:
            attrs.append(a_inmac(r.random() < 0.5))
        if r.random() < 0.4:
            attrs.append(a_rtypes(["Result", "Option", "i64", "Res"]))
        return attrs, "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        return [a_inmac(g.rng.random() < 0.5)]

    def catalogue(self, rng):
        return cat_macro(rng) + cat_attrs("C15", rng)


def cat_macro(rng):
    """Macro grammars: `⟨e⟩` is hooked when macros are hooked, `⟪e⟫` always, everything else never."""
    H = ".hk(|| String::new())"
    out = []

    def add(name, src, call_, pre="", extra="", kinds='"?", "return"'):
        for on in (True, False):
            n = name + ("" if on else "_off")
            A = '#[hooq::method(.hk(|| String::new()))] #[hooq::hook_targets(%s)] %s' % (kinds, extra)
            if not on:
                A += rng.choice(["#[hooq::hook_in_macros(false)] ", "#[hooq::hook_in_macros = false] "][:1])
            elif rng.random() < 0.5:
                A += "#[hooq::hook_in_macros(true)] "
            s, c, p_ = (x.replace(name, n) for x in (src, call_, pre))
            plain = s.replace("⟨", "").replace("⟩", "").replace("⟪", "").replace("⟫", "")
            ref = s.replace("⟪", "(").replace("⟫", ")" + H)
            ref = ref.replace("⟨", "(").replace("⟩", ")" + H) if on else ref.replace("⟨", "").replace("⟩", "")
            out.append(RawU(n, A + plain, ref, c, p_, "#[hooq]", label="catalogue " + n))
    MR = """macro_rules! %s_m { (@map $($k:ident => $e:expr),* $(,)?) => { { $( let $k = $e; )* [$($k),*] } };
        (@if $c:expr => $t:expr ; else $f:expr) => { if $c { $t } else { $f } };
        (@list $($e:expr),* ; $($f:expr),+ $(,)?) => { [$($e,)* $($f),+] };
        (@kw do $e:expr ; end) => { $e };
        (@brace $x:ident { $($b:tt)* }) => { { let $x = 3i64; $($b)* } };
        (@fmt $($e:tt)*) => { $crate::f_(format!($($e)*)) };
        (@ret $e:expr) => { return $e };
        ($a:expr, $($b:expr),*) => { $a $(+ $b)* };
        ($a:expr ; $($b:expr),*) => { $a $(- $b)* };
        }
        pub fn f_(s: String) -> i64 { s.len() as i64 }"""
    MR = MR.replace("$crate::f_", "f_").replace("pub fn f_(", "#[allow(unused)] fn %s_f_(").replace("{ f_(format", "{ %s_f_(format")

    def mr(name):
        return MR.replace("%s_m", name + "_m").replace("%s_f_", name + "_f_").replace(" f_(", " %s_f_(" % name)
    # grammars that are not a separated list of Rust code: nothing in them changes
    add("m_dsl", """fn m_dsl() -> Result<i64, E> { let a = m_dsl_m!(@map x => r(1)?, y => r(2)? + 1, z => { r(3)? },); sink(a);
        let b = m_dsl_m!(@if ⟪r(4)⟫? => r(4)? ; else r(5)?); sink(b); let d = m_dsl_m!(@kw do r(6)? ; end); sink(d);
        let e = m_dsl_m!{@brace q { sink(q); r(7)? }}; sink(e); let l = m_dsl_m![@list r(8)?, r(9)?; r(10)?,]; sink(l);
        if c(1) { m_dsl_m!(@ret r(11)); } Ok(⟪r(12)⟫?) }""".replace("⟪r(4)⟫? =>", "r(4)? > 3 =>"), "m_dsl()", mr("m_dsl"))
    # separated lists
    add("m_lists", """fn m_lists() -> Result<i64, E> { let a = m_lists_m!(⟨r(1)⟩?, ⟨r(2)⟩?, (if c(1) { ⟨r(3)⟩? } else { 2 })); let b = m_lists_m![⟨r(4)⟩?; ⟨r(5)⟩?, { ⟨r(6)⟩? }]; let d = m_lists_m!{ ⟨r(7)⟩? , match ⟨r(8)⟩? { x if x > ⟨r(2)⟩? => x, _ => ⟨r(9)⟩? } };
        sink((a, b, d)); println!("{} {:?} {x} {y:>1$}", ⟨r(1)⟩?, 3, x = ⟨r(2)⟩?, y = { let z = ⟨r(3)⟩?; z }); assert!(⟨r(4)⟩? > 0 && ⟨r(5)⟩? != 0, "m {}", ⟨r(6)⟩?); assert_eq!(⟨r(7)⟩?, 7, "{}", ⟨r(8)⟩?,); debug_assert_ne!(⟨r(9)⟩?, 1);
        let v = vec![⟨r(1)⟩?; ix(⟨r(2)⟩?)]; let w = vec![⟨⟨okr(r(3))⟩?⟩?, ⟪X⟫?]; sink((v, w)); let s = matches!(⟨r(4)⟩?, 1..=9); sink(s); let f = || -> Result<i64, E> { Ok(idm!(⟨r(5)⟩?)) }; sink(f()); return Ok(⟪r(6)⟫?) }""".replace("println!", "let _s = format!").replace(", ⟪X⟫?", "").replace("return Ok(⟪r(6)⟫?)", "Ok(⟪r(6)⟫?)"), "m_lists()", mr("m_lists"))
    add("m_stmts", """fn m_stmts() -> Result<i64, E> { run! { let a = ⟨r(1)⟩?; let b: i64 = { ⟨r(a)⟩? }; sink(b); for i in 0..⟨r(2)⟩? { sink(⟨r(i)⟩?); }; while ⟨r(3)⟩? > 9 { ⟨r(4)⟩?; }; let Some(q) = o(5) else { return ⟨r(6)⟩; }; fn inner() -> Result<i64, E> { if c(1) { return ⟨r(7)⟩; } Ok(⟨r(8)⟩?) }; sink(inner()); const K: fn() -> Option<i64> = || Some(⟨o(9)⟩?); sink(K()); }
        run!(let z = ⟨r(1)⟩?;); run![let y = ⟨r(2)⟩?; sink(y);]; run!{ sink(⟨r(3)⟩?); sink(⟨r(4)⟩?) } run!(run!(run! { sink(vec![idm!(⟨r(5)⟩?)][0]); }); sink(⟨r(6)⟩?)); if c(2) { run!(return ⟨r(7)⟩); } if c(3) { return ⟪r(8)⟫; } Ok(z + y) }""", "m_stmts()")
    add("m_items", """pub mod m_items { use super::*; run! { pub fn a() -> Result<i64, E> { ⟨r(1)⟩?; if c(1) { return ⟨r(2)⟩; } Ok(3) } pub static B: fn() -> Option<i64> = || Some(⟨o(4)⟩?); #[derive(Debug)] pub struct W(pub i64); impl W { pub fn m(&self) -> Result<i64, E> { Ok(⟨r(self.0)⟩?) } } pub mod inner { use super::*; pub fn z() -> Option<i64> { ⟨o(1)⟩?; run!{ o(2)?; o(3) } } } }
        run!( pub trait T { fn t(&self) -> Result<i64, E> { Ok(⟨r(5)⟩?) } } ); impl T for W {} pub fn own() -> Result<i64, E> { Ok(⟪r(6)⟫?) }
        impl W { run! { pub fn im(&self) -> Result<i64, E> { Ok(⟨r(7)⟩?) } } } pub trait T2 { run! { fn t2(&self) -> Result<i64, E> { Ok(⟨r(8)⟩?) } } } impl T2 for W { } }""".replace("run!{ o(2)?; o(3) }", "run!{ ⟨o(2)⟩?; sink(1) } o(3)"),
        "{ use m_items::*; (a(), B(), W(3).m(), W(4).t(), W(5).im(), W(6).t2(), own(), inner::z()) }")
    # definitions, patterns and types
    add("m_defs", """fn m_defs() -> Result<i64, E> { macro_rules! loc { ($e:expr) => { r($e)? } ; ($a:expr, $b:expr) => { { let q = r($a)?; if c(9) { return r($b); } q } } ; } macro_rules! one { () => { r(3)? } } macro_rules! p { ($x:pat) => { Ok($x) } } macro_rules! t { ($x:ty) => { Option<$x> } }
        let a: t!(i64) = Some(loc!(⟨r(1)⟩?)); let b = loc!(⟨r(2)⟩?, 4); let d = one!(); match r(5) { p!(x) => sink(x), _ => { ⟪r(6)⟫?; } } mod mm { macro_rules! dd { () => { super::r(8)? } } pub(super) use dd; } sink((a, b, d)); Ok(⟪r(7)⟫?) }""".replace(" mod mm { macro_rules! dd { () => { super::r(8)? } } pub(super) use dd; }", ""), "m_defs()")
    # the tokens themselves
    for i, t in enumerate(["a => b?", "r(1)? => { return Err(1) }", "x y?", "a?; b? c?", "let x = r(1)? in y", "<div class={r(1)?}>{ return 1 }</div>", "$a:expr ? $b", "a? | b? =>", "fn", "1.0.0, x?, =", "if c(1)", "@ r(1)?", "x?, y? => z", "#[attr] => r(1)?",
                           "SELECT * FROM t WHERE a = ? AND b = ?", "for x", "'a: r(1)?", "r(1)?? ? :", '"s" "t" r(1)?', "..., x?", "async? move? x? ?", "x: i64, y?: i64", "{ r(1)? } { r(2)? } =>", "key: r(1)?, value: r(2)?"]):
        for d in ("()", "[]", "{}"):
            n = "m_txt%d_%d" % (i, "([{".index(d[0]))
            body = "fn %s() -> Result<i64, E> { txt!%s %s %s%s let x = ⟪r(1)⟫?; txt!(%s); Ok(x) }" % (n, d[0], t, d[1], "" if d == "{}" else ";", t)
            if rng.random() < 0.34:
                add(n, body, n + "()")
    # Rust code without targets reaches the macro as it was written
    for i, t in enumerate(KEEP_TEXTS):
        n = "m_keep%d" % i
        body = "fn %s() -> Result<i64, E> { txt!(%s); let x = ⟪r(1)⟫?; txt!{ %s } txt![ %s ]; Ok(x) }" % (n, t, t, t)
        add(n, body, n + "()")
    # with hooking in macros off, Rust code is not re-emitted either
    for i, t in enumerate(["r(1)?", "a?, b?; c?", "return x", "let a = r(1)?; f(a?)", "x, y, ", "fn f() -> R { x? }", "(1, ), [a ; 2], S{a:1,}", "match x { A => { } B => 1, }", "if a {} else {}", "|x| -> R { x? }", "a . 0 . 1 ?", "#![x] fn g() {}", "&&x?", "-1?"]):
        n = "m_off%d" % i
        A = '#[hooq::method(.hk(|| String::new()))] #[hooq::hook_in_macros(false)] '
        body = "fn %s() -> Result<i64, E> { txt!(%s); let x = ⟪r(1)⟫?; txt!{ txt!(%s) } txt![ %s ]; run!{ txt!(%s); } Ok(x) }" % (n, t, t, t, t)
        out.append(RawU(n, A + body.replace("⟪", "").replace("⟫", ""), body.replace("⟪", "(").replace("⟫", ")" + H), n + "()", "", "#[hooq]", label="catalogue " + n))
        # switched off on one node only
        n = "m_offn%d" % i
        A = '#[hooq::method(.hk(|| String::new()))] '
        at = "#[hooq::hook_in_macros(false)] "
        src = "fn %s() -> Result<i64, E> { %stxt!(%s); let y = idm!(⟪r(2)⟫?); %s{ txt!{ %s } let z = idm!(r(3)?); sink(⟪r(4)⟫?); sink(z); } let x = vec![⟪r(1)⟫?, %sidm!(r(5)?), idm!(⟪r(6)⟫?)]; sink(x); Ok(y) }"
        mk = lambda z: src % (n, z, t, z, t, z)
        out.append(RawU(n, A + mk(at).replace("⟪", "").replace("⟫", ""), mk("").replace("⟪", "(").replace("⟫", ")" + H), n + "()", "", "#[hooq]", label="catalogue " + n))
    return out


# ---------------------------------------------------------------- C16

@reg("C16")
class C16(Spec):
    features = ("consume-question",)
    cq = True
    n2 = (700, 15000)
    nr = (260, 4000)
    sattr = 0.35
    profile = dict(attr=0.14)
    max_reject = 0.6

    def root(self, g):
        r = g.rng
        if r.random() < 0.75:
            m = r.choice([".cq()!", ".tg(\"x\").cq()!", "hrt::cqf($expr)!", "$expr.cq() !", "{ let v = $expr; v.cq() }!", "hrt::cqm!($expr)!", "(|v: _| Cq::cq(v))($expr)!", "idm!($expr).cq()!", "match $expr { v if !false => Cq::cq(v), _ => unreachable!() }!"])
            if r.random() < 0.25:
                m = r.choice([hkm("String::new()", r), "idm!($expr)", "hrt::idm!($expr).tg(\"m\")", "match !true { _ => $expr }", "{ $expr.tg(\"!\") }", "if !true { unreachable!() } else { $expr }"])
            return [a_method(m), a_targets(["?"])], "#[hooq]", DEFAULT
        # returns and tails are hooked as usual, with or without the mark
        return [a_method(hkm("String::new()", r) + r.choice(["!", " !", ""])), a_targets(["return", "tail expr"]),
                a_rtypes(["Result", "Option", "i64"])], "#[hooq]", DEFAULT

    @staticmethod
    def attr_fn(g, n):
        r = g.rng
        x = r.random()
        if x < 0.3:
            return [a_skip()]
        if x < 0.4:
            return [a_skip_all()]
        if x < 0.55:
            return [a_targets(r.choice([[], ["return"]]))]
        return [a_method(r.choice([".tg(\"y\")", ".cq()!", "hrt::cqf($expr)!", ".hk(|| String::new())", "$expr.tg(\"z\")", ".hk(|| format!(\"a!\"))"]))]

    def catalogue(self, rng):
        return cat_consumed()


def cat_consumed():
    """What stands around a consumed question mark stays."""
    out = []
    bodies = ["#[cfg(any())] T1; #[cfg(all())] sink(T2); #[allow(unused)] T3; let a = [#[cfg(any())] T4, T5, #[cfg(all())] T6]; sink(a); "
              "sink(add(#[cfg(any())] T7, T8, #[cfg(all())] T9)); #[cfg(any())] { T10; } #[cfg(all())] T11; sink(match c(1) { #[cfg(any())] true => T12, _ => T13 }); "
              "let s = S { #[cfg(all())] a: T14, #[cfg(any())] a: T15, b: 0 }; sink(s); let t = (#[cfg(any())] T16, T17, #[cfg(all())] T18); sink(t); #[cfg(all())] let z = T19; Ok(z)",
              "sink(vec![T1, T2]); sink(-T3 + T4 * !T5); let q = &T6; sink(*q as i16 as i64); sink((T7..T8).count()); let f = |x: i64| -> Result<i64, E> { r(x + T9) }; sink(f(T10)); "
              "for i in 0..T11.min(3) { sink(i + T12); } while T13 > 90 { break; } if T14 == 14 && T15 != 0 { sink(T16); } let Some(w) = Some(T17) else { return r(18) }; [T19, w][ix(T20)].plus(T21); r(22)"]
    ms = [(".cq()!", "(%s).cq()"), ("hrt::cqf($expr)!", "hrt::cqf(%s)"), (".tg(\"x\").cq()!", "(%s).tg(\"x\").cq()"), ("{ let v = $expr; v.cq() }!", "{ let v = %s; v.cq() }"), ("(|v: _| Cq::cq(v))($expr)!", "(|v: _| Cq::cq(v))(%s)")]
    plain = "let a = (x@, s.a@, t.0@, w[1]@, 7@, p(3)@, (x)@, { x }@, x.plus(4)@); let a4 = (*&x@, add(x@, 5@), (x + 1)@, (-x)@, i64::MAX@); let a2 = (self::TBL[2]@, if c(1) { x@ } else { p(6)@ }, x@@); let a3 = (1, format!(\"{}\", x@).len(), (|| x@)(), { return if c(2) { a_(x@) } else { s.b@ }; }); sink(a.0); sink(a2); sink(a3); sink(a4);"
    plain = plain.replace("{ return if c(2) { a_(x@) } else { s.b@ }; }", "S { a: x@, ..s@ }.b@").replace("self::TBL", "TBL").replace("sink(a.0)", "sink(a)").replace("add(x@, 5@), ", "add(x@, 5@), ")
    for i, m in enumerate(["$expr !", "$expr!", "($expr)!", "{ $expr }!", "hrt::idf($expr)!", ".idt()!", "idm!($expr)!", "if true { $expr } else { unreachable!() }!"]):
        h = "fn cp_%d(x: i64) -> i64 { let s = mk(x); let t = (x, 2); let w = [x, 9]; " % i + "let f = |x: i64| -> (i64, i64) { (x@, x@) }; sink(f(x)); " + plain + " let k = x@; s.a@ + k@ }"
        out.append(RawU("cp_%d" % i, "#[hooq::method(%s)] #[hooq::hook_targets(\"?\")] " % m + h.replace("@", "?"), h.replace("@", ""), "cp_%d(4)" % i, "", "#[hooq]", label="consumed, plain operand " + m))
    n = 0
    for b in bodies:
        for m, rf in ms:
            if "{" == rf[0] or rf[0] == "(" and "|" in rf:
                rf = "(" + rf + ")"
            n += 1
            nm = "cc_%d" % n
            src = re.sub(r"T(\d+)", r"r(\1)?", b)
            ref = re.sub(r"T(\d+)", lambda x: rf % ("r(%s)" % x.group(1)), b)
            h = "fn %s() -> Result<i64, E> { %%s }" % nm
            out.append(RawU(nm, "#[hooq::method(%s)] #[hooq::hook_targets(\"?\")] " % m + h % src, h % ref, nm + "()", "", "#[hooq]", label="consumed " + m))
    # whether a return or tail is a listed call is about the user's code, not about what the hook put there
    k = 0
    for attr, ty, ident in [(a, t, i) for a in ("tail_expr_idents", "ignore_tail_expr_idents") for t in ("Result<i64, E>", "hrt::Out") for i in ("hkf", "r", "Err", "Ok")]:
        for m, rf in (("hrt::hkf($expr, || $line.to_string())!", "hrt::hkf(%s, || @L{%s}.to_string())"), ("Result::Ok(hrt::idf($expr)?)!", "Result::Ok(hrt::idf(%s)?)"), ("Err::<i64, E>(hrt::idf($expr).unwrap_err())!", None)):
            if rf is None:
                continue
            k += 1
            nm = "ct_%d" % k
            ids = {"tail_expr_idents": ["Err"], "ignore_tail_expr_idents": ["Ok"]}
            ids[attr] = [ident]
            n = [0]

            def hk(e, at):
                return rf % ((e, at) if "@L" in rf else (e,))

            def site(kind, e, call_):
                """a return or tail: `call_`: last segment of the call as written (None: a `?` expression)"""
                n[0] += 1
                a, b = "x%d" % n[0], "y%d" % n[0]
                if call_ is None:
                    s_, r_ = "«%s»%s«%s»?" % (a, e, b), hk(e, b)
                else:
                    s_, r_ = "«%s»%s" % (a, e), e
                on = call_ in ids["tail_expr_idents"] or ty.startswith("Result") and call_ not in ids["ignore_tail_expr_idents"]
                if kind == "return":
                    s_ = "«z%d»return %s" % (n[0], s_)
                    return s_, "return " + (hk(r_, "z%d" % n[0]) if on else r_)
                return s_, hk(r_, a) if on else r_
            parts = [site("return", "r(1)", None), site("return", "r(2)", "r"), site("return", "Err(E(3))", "Err"), site("return", "Ok(4)", "Ok"), site("return", "hrt::hkf(r(5), || String::from(\"own\"))", "hkf"), site("tail", "r(6)", None)]
            body = "fn " + nm + "() -> " + ty + " { if c(1) { %s } if c(2) { %s } if c(3) { %s } if c(4) { %s } if c(5) { %s } %s }"
            A = "#[hooq::method(%s)] #[hooq::%s(\"%s\")] " % (m, attr, ident)
            out.append(RawU(nm, A + body % tuple(x for x, _ in parts), body % tuple(y for _, y in parts), nm + "()", "", "#[hooq]", label="consumed in return: %s %s %s %s" % (attr, ident, ty, m), singles=8, randoms=3))
    return out + cat_marks()


def cat_marks():
    """The mark is the method's own: `$so_far` brings the text of the overridden method without its mark."""
    out = []
    k = 0
    for outer, otext in [(".tg(\"1\")", ".tg(\"1\")"), (".tg(\"1\")!", ".tg(\"1\")"), ("hrt::idf($expr)!", "hrt::idf(%s)"), ("hrt::idf($expr)", "hrt::idf(%s)"), ("$expr.tg(\"1\") !", "(%s).tg(\"1\")")]:
        ins = otext[0] == "."
        om = "!" in outer
        inner = [(".tg(\"2\").$so_far", ".tg(\"2\")" + otext), (".tg(\"2\").$so_far!", ".tg(\"2\")" + otext), (".$so_far.tg(\"3\")", otext + ".tg(\"3\")"), (".$so_far.tg(\"3\")!", otext + ".tg(\"3\")"), (".$so_far", otext), (".$so_far!", otext), ("{ $expr.$so_far }!", "{ (%s)" + otext + " }"), ("hrt::idf($expr.$so_far)", "hrt::idf((%s)" + otext + ")")] if ins else \
                [("$so_far", otext), ("$so_far!", otext), ("hrt::idf($so_far)", "hrt::idf(" + otext + ")"), ("hrt::idf($so_far)!", "hrt::idf(" + otext + ")"), ("{ $so_far } !", "({ " + otext + " })"), (".tg(\"n\")", ".tg(\"n\")"), (".tg(\"n\")!", ".tg(\"n\")")]
        for it, itext in inner:
            im = "!" in it
            third = [(None, None, None)]
            if itext[0] == "." and it[0] == ".":
                third += [(".tg(\"4\").$so_far", ".tg(\"4\")" + itext, False), (".$so_far.tg(\"5\")!", itext + ".tg(\"5\")", True)]
            for t3, text3, m3 in third:
                def h(text, mark, e):
                    x = text % e if "%s" in text else "(%s)%s" % (e, text)
                    # what is not consumed is a Result whose `?` stays
                    return x if mark else x + "?"

                def ty(mark):
                    return "Result<i64, E>" if mark else "i64"
                k += 1
                nm = "mk_%d" % k
                A = "#[hooq::method(%s)] " % outer
                body = lambda o, i, j: ("let a: %s = %s; sink(a.clone()); let b: %s = %s; sink(b.clone()); " % (ty(om), o, ty(im), i)
                                        + ("let d: %s = %s; sink(d.clone()); " % (ty(m3), j) if t3 else "") + "let z: %s = %s; sink(z); " % (ty(om), o.replace("r(1)", "r(4)")))
                ia = lambda a, e: "{ #[hooq::method(%s)] { %s } }" % (a, e)
                i_src = "{ #[hooq::method(%s)] { r(2)? } }" % it
                j_src = "{ #[hooq::method(%s)] { #[hooq::method(%s)] { r(3)? } } }" % (it, t3)
                ret = "if c(7) { return r(5); } r(6)"
                rr = lambda e: h(otext, True, e)
                src = "pub fn %s() -> Result<i64, E> { %s%s }" % (nm, body("r(1)?", i_src, j_src), ret)
                ref = "pub fn %s() -> Result<i64, E> { %sif c(7) { return %s; } %s }" % (nm, body(h(otext, om, "r(1)"), "{ %s }" % h(itext, im, "r(2)"), "{ %s }" % h(text3, m3, "r(3)") if t3 else ""), rr("r(5)"), rr("r(6)"))
                out.append(RawU(nm, A + src, ref, nm + "()", "", "#[hooq]", label="marks %s / %s / %s" % (outer, it, t3), singles=8, randoms=2))
    return out
