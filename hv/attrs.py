"""Attributes that are not hooq's, at every place of an annotated item: none of them changes what is hooked."""
from .raw import RawU

H = ".hk(|| String::new())"

# (attribute, kinds of place where it is legal): i item, f function, s statement, l let, b braced statement, m macro statement,
# t tail, x sub-node (arm, field, parameter, ...)
ATTRS = [
    ("#[allow(unused)]", "ifslbmtx"), ("#[cfg(all())]", "ifslbmtx"), ("#[cfg(not(any()))]", "ifslbmtx"), ("#[cfg_attr(all(), allow(unused))]", "ifslbmtx"), ("#[cfg_attr(any(), hooq::skip)]", "ifslbmtx"),
    ("#[allow(clippy::all, unused_variables, reason = \"r\")]", "ifslbmtx"), ("#[warn(clippy::pedantic)]", "ifslbmtx"), ("#[deny(unsafe_op_in_unsafe_fn)]", "ifslbmtx"),
    ("#[clippy::cognitive_complexity = \"25\"]", "if"), ("#[clippy::msrv = \"1.88\"]", "if"), ("#[rustfmt::skip]", "ifml"), ("#[rustfmt::skip::macros(txt)]", "i"), ("#[doc = \"x\"]", "ifl"), ("#[doc(hidden)]", "if"), ("/** text `a?` */", "ifl"),
    ("#[inline]", "f"), ("#[inline(always)]", "f"), ("#[must_use = \"m\"]", "f"), ("#[cold]", "f"), ("#[track_caller]", "f"),
    ("#[deprecated(note = \"n\")]", "f"), ("#[allow(unused)] #[cfg(all())] #[rustfmt::skip]", "if"), ("#[cfg(all())] #[allow(unused)] #[warn(unused)]", "ifslbmtx"),
]

FN = "{ let a = ⟨r(1)⟩?; if c(2) { ‹return r(3)›; } let f = |x: i64| -> Result<i64, E> { if c(4) { ‹return r(4)› } ⟪r(x)⟫ }; sink(f(a)); ⟪r(5)⟫ }"
# (kind, body of the item, call, what stands before); `@A` the attribute, NN the name
PLACES = [
    ("f", "@A fn NN() -> Result<i64, E> " + FN, "NN()"),
    ("f", "fn NN() -> Result<i64, E> { @A fn inner() -> Result<i64, E> %s sink(⟨inner()⟩?); ⟪r(6)⟫ }" % FN, "NN()"),
    ("f", "impl NN_t { @A pub fn m(&self) -> Result<i64, E> %s pub fn n() -> Result<i64, E> %s }" % (FN, FN), "(NN_t.m(), NN_t::n())", "pub struct NN_t;"),
    ("f", "impl NN_r for NN_t { @A fn m(&self) -> Result<i64, E> %s fn n() -> Result<i64, E> %s }" % (FN, FN), "(NN_t.m(), NN_t::n())", "pub struct NN_t; pub trait NN_r { fn m(&self) -> Result<i64, E>; fn n() -> Result<i64, E>; }"),
    ("f", "pub trait NN_r { @A fn m(&self) -> Result<i64, E> %s fn n() -> Result<i64, E> %s }" % (FN, FN), "(NN_t.m(), NN_t::n())", "pub struct NN_t; impl NN_r for NN_t {}"),
    ("i", "@A pub mod NN { use super::*; pub fn m() -> Result<i64, E> %s }" % FN, "NN::m()"),
    ("i", "pub mod NN { use super::*; @A pub mod q { use super::*; pub fn m() -> Result<i64, E> %s } pub fn m() -> Result<i64, E> %s }" % (FN, FN), "(NN::q::m(), NN::m())"),
    ("i", "pub mod NN { use super::*; pub struct W; @A impl W { pub fn m(&self) -> Result<i64, E> %s } pub fn m() -> Result<i64, E> %s }" % (FN, FN), "(NN::W.m(), NN::m())"),
    ("i", "pub mod NN { use super::*; @A pub trait W { fn m(&self) -> Result<i64, E> %s } impl W for i64 {} pub fn m() -> Result<i64, E> %s }" % (FN, FN), "{ use NN::W; (2i64.m(), NN::m()) }"),
    ("i", "pub mod NN { use super::*; pub trait W { fn m(&self) -> Result<i64, E>; } @A impl W for i64 { fn m(&self) -> Result<i64, E> %s } pub fn m() -> Result<i64, E> %s }" % (FN, FN), "{ use NN::W; (2i64.m(), NN::m()) }"),
    ("i", "pub mod NN { use super::*; @A pub static S1: fn() -> Result<i64, E> = || -> Result<i64, E> %s; @A pub const K1: fn() -> Result<i64, E> = || -> Result<i64, E> %s; pub fn m() -> Result<i64, E> %s }" % (FN, FN, FN), "(NN::S1(), NN::K1(), NN::m())"),
    ("i", "pub mod NN { use super::*; @A run! { pub fn m() -> Result<i64, E> %s } pub fn n() -> Result<i64, E> %s }" % (FN, FN), "(NN::m(), NN::n())"),
    ("i", "impl NN_t { @A run! { pub fn m(&self) -> Result<i64, E> %s } pub fn n() -> Result<i64, E> %s }" % (FN, FN), "(NN_t.m(), NN_t::n())", "pub struct NN_t;"),
    ("i", "impl NN_t { @A pub const K: fn() -> Result<i64, E> = || -> Result<i64, E> %s; pub fn n() -> Result<i64, E> %s }" % (FN, FN), "(NN_t::K(), NN_t::n())", "pub struct NN_t;"),
    ("i", "fn NN() -> Result<i64, E> { @A mod q { use hrt::*; pub fn m() -> Result<i64, E> %s } @A struct L; @A impl L { fn m(&self) -> Result<i64, E> %s } @A const K: fn() -> Result<i64, E> = || -> Result<i64, E> %s; @A macro_rules! q { () => { r(1)? } } sink((q::m(), L.m(), K(), q!())); ⟪r(7)⟫ }" % (FN, FN, FN), "NN()"),
    ("l", "fn NN() -> Result<i64, E> { @A let a = ⟨r(1)⟩?; @A let Some(b) = o(2) else { sink(⟨r(7)⟩?); ‹return r(3)› }; @A let f = |x: i64| -> Result<i64, E> { @A let y = ⟨r(x)⟩?; if c(4) { ‹return r(4)›; } ⟪r(y)⟫ }; @A let mut d: i64 = { sink(⟨r(8)⟩?); a + ⟨r(b)⟩? }; d += 1; sink((a, b, d)); ⟪f(d)⟫ }", "NN()"),
    ("s", "fn NN() -> Result<i64, E> { @A sink(⟨r(1)⟩?); @A ⟨r(2)⟩?; if c(3) { @A ‹return r(4)›; } @A mk(⟨r(5)⟩?); let f = || -> Result<i64, E> { @A sink(⟨r(6)⟩?); if c(7) { @A ‹return r(8)› } ⟪r(9)⟫ }; @A S { a: ⟨r(2)⟩?, b: ⟨r(3)⟩? }; @A [⟨r(1)⟩?, 2]; @A (⟨r(4)⟩?, || -> Result<i64, E> { ⟪r(1)⟫ }); @A drop(|x: i64| -> Result<i64, E> { ‹return r(x)› }); @A mk(⟨r(3)⟩?).a; @A tbl(⟨r(3)⟩?)[0]; ⟪f()⟫ }", "NN()"),
    ("b", "fn NN() -> Result<i64, E> { @A { sink(⟨r(1)⟩?); } @A unsafe { ⟨r(2)⟩?; } @A for i in 0..⟨r(2)⟩? { sink(⟨r(i)⟩?); } @A while ⟨r(3)⟩? > 4 { ⟨r(4)⟩?; } @A loop { if c(5) { ‹return r(5)›; } break; } @A match ⟨r(6)⟩? { 1 => { ‹return r(1)› } x => sink(⟨r(x)⟩?) } @A if ⟨r(7)⟩? > 3 { sink(⟨r(8)⟩?); } else { ⟨r(9)⟩?; } ⟪r(1)⟫ }", "NN()"),
    ("b", "fn NN() -> Result<i64, E> { let f = || -> Result<i64, E> { @A 'a: { if c(1) { break 'a; } ⟨r(1)⟩?; } @A match c(2) { true if ⟨r(2)⟩? > 2 => {} _ => { ‹return r(3)›; } } ⟪r(4)⟫ }; ⟪f()⟫ }", "NN()"),
    ("m", "fn NN() -> Result<i64, E> { @A assert!(⟨r(1)⟩? > -99); @A run! { sink(⟨r(2)⟩?); } @A run!(sink(⟨r(3)⟩?)); @A run![if c(4) { ‹return r(4)›; }]; let f = || -> Result<i64, E> { @A assert_ne!(⟨r(5)⟩?, -99, \"{}\", ⟨r(6)⟩?); if c(7) { @A run! { ‹return r(7)› } } ⟪r(8)⟫ }; @A run! { let _z = ⟨r(9)⟩?; } @A txt! { r(1)? => return Err(2) } @A run! { fn q() -> Result<i64, E> { ‹return r(7)› } } { @A run!(sink(vec![⟨r(8)⟩?])); } ⟪f()⟫ }", "NN()"),
    ("t", "fn NN() -> Result<i64, E> { let f = |x: i64| -> Result<i64, E> { sink(⟨r(x)⟩?); @A ⟪r(x)⟫ }; let g = { sink(1); @A ⟪Err::<i64, E>(E(3))⟫ }; sink(g); @A ⟪f(2)⟫ }", "NN()"),
    ("t", "fn NN() -> Result<i64, E> { let g = { @A ⟨r(2)⟩? }; if c(g) { @A ‹return r(1)› } let f = || -> Result<i64, E> { @A ‹return r(2)› }; sink(f()); @A ⟪{ sink(⟨r(3)⟩?); ⟪Err(E(3))⟫ }⟫ }".replace("⟪{ sink(⟨r(3)⟩?); ⟪Err(E(3))⟫ }⟫", "⟪rid({ sink(⟨r(3)⟩?); ⟪Err(E(3))⟫ })⟫"), "NN()"),
    ("m", "fn NN() -> Result<i64, E> { sink({ @A idm!(⟨r(1)⟩?); 1 }); let f = || -> Result<i64, E> { @A idm!(⟨r(4)⟩?); ⟪r(3)⟫ }; ⟪f()⟫ }", "NN()"),
    ("x", "fn NN() -> Result<i64, E> { let a = match ⟨r(1)⟩? { @A 1 => ⟨r(2)⟩?, @A x if ⟨r(x)⟩? > 4 => { sink(⟨r(3)⟩?); ⟨r(4)⟩? } @A 2 => { ‹return r(9)› } @A _ => ⟨r(5)⟩? }; let s = S { @A a: ⟨r(6)⟩?, @A b: { sink(1); ⟨r(7)⟩? } }; let S { @A a: q, .. } = s; sink((a, q)); let f = |@A x: i64, @A y: i64| -> Result<i64, E> { if c(x) { ‹return r(y)›; } ⟪r(x)⟫ }; ⟪f(⟨r(8)⟩?, 2)⟫ }", "NN()"),
    ("x", "fn NN<@A 'a, @A T: Copy, @A const N: usize>(@A x: &'a i64, @A y: T) -> Result<i64, E> { enum Q { @A A(@A i64), @A B { @A z: i64 } } let q = if c(1) { Q::A(⟨r(*x)⟩?) } else { Q::B { @A z: ⟨r(2)⟩? } }; let v = match q { Q::A(z) => z, Q::B { @A z } => ⟨r(z)⟩? }; fn inner(@A a: i64) -> Result<i64, E> { if c(3) { ‹return r(a)›; } ⟪r(4)⟫ } let _: T = y; ⟪inner(v)⟫ }", "NN::<u8, 3>(&2, 1)"),
]


def cat_attrs(pid, rng, share=1.0):
    """Programs for the targets of `pid` (C01: `?`; C02: `return` and tails; C15: `?` and `return`, also inside macros)."""
    targets = {"C01": '"?"', "C02": '"return", "tail_expr"', "C15": '"?", "return"'}[pid]
    out = []
    for i, pl in enumerate(PLACES):
        kind, src, call = pl[:3]
        pre = pl[3] if len(pl) > 3 else ""
        if pid == "C15" and not any(x in src for x in ("run!", "assert", "vec!", "idm!")):
            continue
        for j, (a, kinds) in enumerate(ATTRS):
            if kind not in kinds or rng.random() > share:
                continue
            n = "fa_%d_%d" % (i, j)
            s = src.replace("NN", n).replace("@A", a)
            r = s
            on = dict(q='"?"' in targets, ret="return" in targets, tail="tail" in targets)
            r = r.replace("⟨", "(" if on["q"] else "").replace("⟩", ")" + H if on["q"] else "")
            r = r.replace("‹return ", "return (" if on["ret"] else "return ").replace("›", ")" + H if on["ret"] else "")
            r = r.replace("⟪", "(" if on["tail"] else "").replace("⟫", ")" + H if on["tail"] else "")
            for x in "⟨⟩‹›⟪⟫":
                s = s.replace(x, "")
            A = '#[hooq::method(%s)] #[hooq::hook_targets(%s)] ' % (H, targets)
            order = rng.choice([A + "%s", "%s"]) if s.startswith(a) else A + "%s"
            if order == "%s":
                body = s[len(a):]
                src_ = a + " " + A + body
            else:
                src_ = A + s
            out.append(RawU(n, src_, r, call.replace("NN", n), pre.replace("NN", n), "#[hooq]", label="foreign %s at %s" % (a, src[:60]), singles=10, randoms=2))
    return out
