//! Runtime of the monitored programs: event log, fault tape, probes and hooks.
//!
//! Every generated program runs against a *tape* that decides the outcome of each fallible call,
//! so that one program is driven through many paths, including every single-fault path.
#![allow(clippy::all)]
pub use hooq;

use std::cell::{Cell, RefCell};
use std::fmt::Debug;

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static NFALL: Cell<usize> = const { Cell::new(0) };
    static NBOOL: Cell<usize> = const { Cell::new(0) };
    static FAIL_AT: Cell<Option<usize>> = const { Cell::new(None) };
    static FAIL_PCT: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    static LOCS: Cell<bool> = const { Cell::new(false) };
}
/// From here on every event of a probe carries the place of the call in the program.
pub fn locs() {
    LOCS.with(|l| l.set(true));
}

#[track_caller]
pub fn log(mut s: String) {
    drain();
    let l = std::panic::Location::caller();
    if LOCS.with(|l| l.get()) && l.file() == "gen.rs" {
        s.push_str(&format!(" @{}:{}", l.line(), l.column()));
    }
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() > 20000 {
            if std::thread::panicking() {
                return;
            }
            panic!("event overflow");
        }
        l.push(s)
    });
}

fn rnd() -> u64 {
    RNG.with(|c| {
        let mut x = c.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        c.set(x);
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    })
}

/// true: the fallible call succeeds
fn succeed() -> bool {
    let k = NFALL.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    let pct = FAIL_PCT.with(|c| c.get());
    let dice = rnd() % 100 < pct;
    if k > 400 {
        return true;
    }
    !(FAIL_AT.with(|c| c.get()) == Some(k) || dice)
}

#[derive(Debug, Clone, Copy)]
pub struct Tape {
    pub seed: u64,
    pub fail_at: Option<usize>,
    pub fail_pct: u64,
}

/// Runs one program on one tape and returns its event log.
pub fn run_once(f: fn() -> String, t: Tape) -> (Vec<String>, usize) {
    drain();
    LOG.with(|l| l.borrow_mut().clear());
    RNG.with(|c| c.set(t.seed));
    NFALL.with(|c| c.set(0));
    NBOOL.with(|c| c.set(0));
    FAIL_AT.with(|c| c.set(t.fail_at));
    FAIL_PCT.with(|c| c.set(t.fail_pct));
    let r = std::panic::catch_unwind(f);
    let last = match r {
        Ok(s) => format!("ret {s}"),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("panic {m}")
        }
    };
    drain();
    let mut v = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    v.push(last);
    (v, NFALL.with(|c| c.get()))
}

/// Which of the traits of `tr` are in scope where this is expanded.
/// The tokens one by one, with their groups.
#[macro_export]
macro_rules! toks {
    () => { "" };
    ({ $($i:tt)* } $($r:tt)*) => { ::core::concat!("{ ", $crate::toks!($($i)*), "} ", $crate::toks!($($r)*)) };
    (( $($i:tt)* ) $($r:tt)*) => { ::core::concat!("( ", $crate::toks!($($i)*), ") ", $crate::toks!($($r)*)) };
    ([ $($i:tt)* ] $($r:tt)*) => { ::core::concat!("[ ", $crate::toks!($($i)*), "] ", $crate::toks!($($r)*)) };
    ($t:tt $($r:tt)*) => { ::core::concat!(::core::stringify!($t), " ", $crate::toks!($($r)*)) };
}
#[macro_export]
macro_rules! scope_probe {
    () => {
        [$crate::W.has1(), $crate::W.has2(), $crate::W.has3(), $crate::W.has4()]
    };
}
pub struct V;
impl V {
    pub fn has1(&self) -> bool {
        false
    }
    pub fn has2(&self) -> bool {
        false
    }
    pub fn has3(&self) -> bool {
        false
    }
    pub fn has4(&self) -> bool {
        false
    }
}
/// Its own (trait) methods win over those of `V`, but only when the trait is imported.
pub struct W;
impl std::ops::Deref for W {
    type Target = V;
    fn deref(&self) -> &V {
        &V
    }
}
pub mod tr {
    macro_rules! t {
        ($($t:ident $f:ident)*) => { $(
            pub trait $t {
                fn $f(&self) -> bool {
                    true
                }
            }
            impl $t for $crate::W {}
        )* };
    }
    t!(T1 has1 T2 has2);
    pub mod deep {
        t!(T3 has3 T4 has4);
    }
}

/// The trait that users of the `hook` flavor write.
pub trait HookT: Sized + Debug {
    fn hook(self, f: impl FnOnce() -> hooq::HooqMeta) -> Self {
        let m = f();
        log(format!("HOOK {self:?} {}", meta(m)));
        self
    }
}
impl<T: Debug> HookT for T {}

static FULL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static ERRPOS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static ERRFILE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// From now on log records are logged in full, tracing events are logged, and what is written to
/// the standard error stream appears in the event log.
pub fn full_reports() {
    use std::os::fd::{AsRawFd, FromRawFd};
    unsafe extern "C" {
        fn memfd_create(name: *const std::ffi::c_char, flags: std::ffi::c_uint) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    FULL.store(true, std::sync::atomic::Ordering::Relaxed);
    unsafe {
        let fd = memfd_create(c"stderr".as_ptr(), 1);
        assert!(fd >= 0);
        let f = std::fs::File::from_raw_fd(fd);
        assert!(dup2(f.as_raw_fd(), 2) == 2);
        ERRFILE.set(f).unwrap();
    }
    tracing::subscriber::set_global_default(Traces).unwrap();
    eyre::set_hook(Box::new(|_| Box::new(Chain))).unwrap();
}

/// What was written to the standard error stream since the last call.
fn drain() {
    use std::os::unix::fs::FileExt;
    if let Some(f) = ERRFILE.get() {
        let p = ERRPOS.load(std::sync::atomic::Ordering::Relaxed);
        let mut v = Vec::new();
        let mut b = [0u8; 4096];
        loop {
            let n = f.read_at(&mut b, p + v.len() as u64).unwrap();
            if n == 0 {
                break;
            }
            v.extend(&b[..n]);
        }
        if !v.is_empty() {
            ERRPOS.store(p + v.len() as u64, std::sync::atomic::Ordering::Relaxed);
            LOG.with(|l| l.borrow_mut().push(format!("STDERR {}", String::from_utf8_lossy(&v))));
        }
    }
}
/// What a reference writes where the default flavor reports.
pub fn errln(s: String) {
    use std::io::Write;
    std::io::stderr().write_all((s + "\n").as_bytes()).unwrap();
}

struct Traces;
#[derive(Default)]
struct Fields(Vec<(String, String)>);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn Debug) {
        self.0.push((f.name().to_string(), format!("{v:?}")));
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        self.0.push((f.name().to_string(), v.to_string()));
    }
}
impl tracing::Subscriber for Traces {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = Fields::default();
        e.record(&mut f);
        let m = e.metadata();
        trace_event(*m.level(), f.0, place(m.target(), m.module_path()));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
/// The module a report says it comes from, within its crate.
fn place(target: &str, module: Option<&str>) -> String {
    let f = |m: &str| m.split_once("::").map_or(String::new(), |x| x.1.to_string());
    match module {
        Some(m) if m == target => f(m),
        m => format!("target {target} module {m:?}"),
    }
}
fn trace_event(l: tracing::Level, mut f: Vec<(String, String)>, at: String) {
    for (k, v) in f.iter_mut() {
        if k == "expr" {
            // one line; how much white space separates the tokens is not specified
            *v = format!("{}{}", if v.contains('\n') { "SEVERAL LINES " } else { "" }, norm(v));
        }
    }
    f.sort();
    log(format!("TRACE {l} {f:?} from {at}"));
}
/// What a reference emits where the `tracing` flavor reports.
pub fn traceref(module: &str, l: tracing::Level, path: &str, line: usize, col: usize, error: String, expr: &str) {
    let f = [("path", path.to_string()), ("line", line.to_string()), ("col", col.to_string()), ("error", error), ("expr", expr.to_string())];
    trace_event(l, f.into_iter().map(|(a, b)| (a.to_string(), b)).collect(), place(module, Some(module)));
}

/// Shows an eyre report as its chain of messages.
struct Chain;
impl eyre::EyreHandler for Chain {
    fn debug(&self, e: &(dyn std::error::Error + 'static), f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut e = Some(e);
        while let Some(x) = e {
            write!(f, "<{x}>")?;
            e = x.source();
        }
        Ok(())
    }
}

/// Counts allocations, so that work done for nothing shows.
pub struct Counting;
static ALLOCS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
/// Allocations made by `f`.
pub fn allocs<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let n = ALLOCS.load(std::sync::atomic::Ordering::Relaxed);
    let t = f();
    (t, ALLOCS.load(std::sync::atomic::Ordering::Relaxed) - n)
}

/// The probes with an error type that collects context frames.
macro_rules! frames {
    ($m:ident, $err:path) => {
        pub mod $m {
            pub use super::*;
            pub type E = $err;
            pub type Res = Result<i64, E>;
            pub type Out = Result<i64, E>;
            pub fn ev(v: i64) -> E {
                log(format!("ev{v}"));
                E::new(super::E(v))
            }
            pub fn r(id: i64) -> Result<i64, E> {
                super::r(id).map_err(E::new)
            }
            /// a plain error, not yet a report
            pub fn leaf(id: i64) -> Result<i64, super::E> {
                super::r(id)
            }
            pub fn rid(r: Result<i64, E>) -> Result<i64, E> {
                log(format!("rid({r:?})"));
                r
            }
            pub fn okr(r: Result<i64, E>) -> Result<Result<i64, E>, E> {
                match super::okr(Ok(0)) {
                    Ok(_) => Ok(r),
                    Err(e) => Err(E::new(e)),
                }
            }
            pub fn unw(r: Result<i64, E>) -> i64 {
                log(format!("unw({r:?})"));
                r.unwrap_or(-7)
            }
            pub fn cr(f: impl FnOnce(i64) -> Result<i64, E>) -> Result<i64, E> {
                log("cr".into());
                f(4)
            }
            pub async fn ar(id: i64) -> Result<i64, E> {
                r(id)
            }
            /// the frames of a report, outermost first
            pub fn frames(e: &E) -> Vec<String> {
                e.chain().map(|x| x.to_string()).collect()
            }
        }
    };
}
frames!(an, anyhow::Error);
frames!(ey, eyre::Report);

struct Capture;
impl ::log::Log for Capture {
    fn enabled(&self, _: &::log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &::log::Record) {
        if FULL.load(std::sync::atomic::Ordering::Relaxed) {
            return log_record(r.level(), r.args().to_string(), place(r.target(), r.module_path()));
        }
        let m = r.args().to_string();
        let m = m.split('\n').next().unwrap();
        logref(r.level(), m.split_once(") ").map_or(m, |x| x.1));
    }
    fn flush(&self) {}
}
/// What a reference writes where the `log` flavor reports.
pub fn logref(l: ::log::Level, e: impl std::fmt::Display) {
    log(format!("LOG {l} {e}"));
}

pub fn logfull(module: &str, l: ::log::Level, m: String) {
    log_record(l, m, place(module, Some(module)));
}
fn log_record(l: ::log::Level, m: String, at: String) {
    log(format!("LOG {l} from {at}: {m}"));
}

/// All tapes for one program: no fault, each single fault (up to a limit), and random ones.
pub fn drive(name: &str, f: fn() -> String, singles: usize, randoms: u64) {
    use std::io::Write;
    std::panic::set_hook(Box::new(|p| {
        if let Some(l) = p.location().filter(|l| LOCS.with(|l| l.get()) && l.file() == "gen.rs") {
            log(format!("panics at {}:{}", l.line(), l.column()));
        }
    }));
    if ::log::set_logger(&Capture).is_ok() {
        ::log::set_max_level(::log::LevelFilter::Trace);
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut one = |t: Tape| {
        let (v, n) = run_once(f, t);
        let mut s = format!("{name}\t{},{:?},{}", t.seed, t.fail_at, t.fail_pct);
        for e in v {
            s.push('\u{1}');
            s.push_str(&e.replace('\\', "\\\\").replace('\n', "\\n").replace('\u{1}', "\\1"));
        }
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
        n
    };
    for seed in [1u64, 2] {
        let n = one(Tape { seed, fail_at: None, fail_pct: 0 });
        let step = if n > singles { (n + singles - 1) / singles } else { 1 };
        let mut k = 0;
        while k < n {
            one(Tape { seed, fail_at: Some(k), fail_pct: 0 });
            k += step.max(1);
        }
    }
    for i in 0..randoms {
        one(Tape { seed: 100 + i, fail_at: None, fail_pct: 8 + (i % 3) * 12 });
    }
}

// ---------------------------------------------------------------- probes

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct E(pub i64);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E#{}", self.0)
    }
}
impl std::error::Error for E {}

/// A second error type that `?` converts into.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct E2(pub i64);
impl From<E> for E2 {
    #[track_caller]
    fn from(e: E) -> E2 {
        log(format!("from {e:?}"));
        E2(e.0)
    }
}

impl std::fmt::Display for E2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E2#{}", self.0)
    }
}

pub type Res = Result<i64, E>;
pub type Out = Result<i64, E>;

#[track_caller]
pub fn p(id: i64) -> i64 {
    log(format!("p{id}"));
    id
}
#[track_caller]
pub fn r(id: i64) -> Result<i64, E> {
    let ok = succeed();
    log(format!("r{id}:{ok}"));
    if ok { Ok(id) } else { Err(E(id)) }
}
#[track_caller]
pub fn o(id: i64) -> Option<i64> {
    let ok = succeed();
    log(format!("o{id}:{ok}"));
    if ok { Some(id) } else { None }
}
#[track_caller]
pub fn c(id: i64) -> bool {
    let n = NBOOL.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    let b = rnd() % 100 < 60 && n < 60;
    log(format!("c{id}:{b}"));
    b
}
#[track_caller]
pub fn ev(v: i64) -> E {
    log(format!("ev{v}"));
    E(v)
}
#[track_caller]
pub fn add(a: i64, b: i64) -> i64 {
    log(format!("add({a},{b})"));
    a.wrapping_add(b) % 100_003
}
#[track_caller]
pub fn dbl(a: i64) -> i64 {
    log(format!("dbl({a})"));
    a.wrapping_mul(2) % 100_003
}
#[track_caller]
pub fn pick(a: i64) -> fn(i64) -> i64 {
    log(format!("pick({a})"));
    dbl
}
#[track_caller]
pub fn rid(r: Result<i64, E>) -> Result<i64, E> {
    log(format!("rid({r:?})"));
    r
}
#[track_caller]
pub fn okr(r: Result<i64, E>) -> Result<Result<i64, E>, E> {
    let ok = succeed();
    log(format!("okr({r:?}):{ok}"));
    if ok { Ok(r) } else { Err(E(-1)) }
}
#[track_caller]
pub fn unw(r: Result<i64, E>) -> i64 {
    log(format!("unw({r:?})"));
    r.unwrap_or(-7)
}
#[track_caller]
pub fn unwo(r: Option<i64>) -> i64 {
    log(format!("unwo({r:?})"));
    r.unwrap_or(-8)
}
#[track_caller]
pub fn unw2(r: Result<i64, E2>) -> i64 {
    log(format!("unw2({r:?})"));
    r.unwrap_or(-9)
}
#[track_caller]
pub fn sink<T: Debug>(v: T) {
    log(format!("sink({v:?})"));
}
#[track_caller]
pub fn cv(f: impl FnOnce(i64) -> i64) -> i64 {
    log("cv".into());
    f(3)
}
#[track_caller]
pub fn cr(f: impl FnOnce(i64) -> Result<i64, E>) -> Result<i64, E> {
    log("cr".into());
    f(4)
}
#[track_caller]
pub fn co(f: impl FnOnce(i64) -> Option<i64>) -> Option<i64> {
    log("co".into());
    f(5)
}
#[track_caller]
pub fn tbl(a: i64) -> [i64; 4] {
    log(format!("tbl({a})"));
    [a, a + 1, a + 2, a + 3]
}
pub static TBL: [i64; 4] = [40, 41, 42, 43];
#[track_caller]
pub fn ix(a: i64) -> usize {
    log(format!("ix({a})"));
    a.rem_euclid(4) as usize
}
#[track_caller]
pub fn rng(a: i64) -> std::ops::Range<i64> {
    log(format!("rng({a})"));
    0..a.rem_euclid(3)
}
#[track_caller]
pub fn rlen(r: impl std::ops::RangeBounds<i64> + Debug) -> i64 {
    log(format!("rlen({r:?})"));
    11
}
pub fn b2i(b: bool) -> i64 {
    b as i64
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct S {
    pub a: i64,
    pub b: i64,
}
#[track_caller]
pub fn mk(a: i64) -> S {
    log(format!("mk({a})"));
    S { a, b: a + 1 }
}
pub trait Plus {
    fn plus(self, o: i64) -> i64;
    fn rdy(self) -> std::future::Ready<i64>;
}
impl Plus for i64 {
    #[track_caller]
    fn plus(self, o: i64) -> i64 {
        log(format!("plus({self},{o})"));
        self.wrapping_add(o) % 100_003
    }
    #[track_caller]
    fn rdy(self) -> std::future::Ready<i64> {
        log(format!("rdy({self})"));
        std::future::ready(self)
    }
}
pub async fn ar(id: i64) -> Result<i64, E> {
    r(id)
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => panic!("pending"),
    }
}

/// Drop guard: its drop is an event.
pub struct Dg(pub i64);
impl Drop for Dg {
    fn drop(&mut self) {
        if LOG.with(|l| l.borrow().len() < 20000) {
            log(format!("drop{}", self.0));
        }
    }
}
#[track_caller]
pub fn dg(id: i64) -> Dg {
    log(format!("dg{id}"));
    Dg(id)
}
impl Dg {
    pub fn v(&self) -> i64 {
        self.0
    }
    #[track_caller]
    pub fn rv(&self) -> Result<i64, E> {
        r(self.0)
    }
}

// ---------------------------------------------------------------- hooks

pub trait Hk: Debug + Sized {
    fn hk(self, f: impl FnOnce() -> String) -> Self {
        let s = f();
        log(format!("HOOK {self:?} {s}"));
        self
    }
    fn tg(self, s: &str) -> Self {
        log(format!("TAG {self:?} {s}"));
        self
    }
}
impl<T: Debug> Hk for T {}

pub trait Idt: Sized {
    /// identity that leaves no trace
    fn idt(self) -> Self {
        self
    }
}
impl<T> Idt for T {}

/// A hook that takes the place of `?`.
pub trait Cq {
    type T;
    fn cq(self) -> Self::T;
}
impl<T: Def + Debug, X: Debug> Cq for Result<T, X> {
    type T = T;
    fn cq(self) -> T {
        log(format!("CQ {self:?}"));
        self.unwrap_or_else(|_| T::def())
    }
}
impl<T: Def + Debug> Cq for Option<T> {
    type T = T;
    fn cq(self) -> T {
        log(format!("CQ {self:?}"));
        self.unwrap_or_else(|| T::def())
    }
}
pub trait Def {
    fn def() -> Self;
}
impl Def for i64 {
    fn def() -> i64 {
        -3
    }
}
impl Def for () {
    fn def() {}
}
impl Def for Result<i64, E> {
    fn def() -> Result<i64, E> {
        Ok(-4)
    }
}
impl Def for Option<i64> {
    fn def() -> Option<i64> {
        Some(-5)
    }
}
pub fn cqf<C: Cq>(c: C) -> C::T {
    c.cq()
}
#[macro_export]
macro_rules! cqm {
    ($e:expr) => {
        $crate::Cq::cq($e)
    };
}

pub fn hkf<T: Debug>(v: T, f: impl FnOnce() -> String) -> T {
    v.hk(f)
}
pub fn idf<T>(v: T) -> T {
    v
}

/// Removes white space outside literals.
pub fn norm(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        let ch = b[i];
        // raw strings
        if ch == 'r' && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut j = i + 1;
            while j < b.len() && b[j] == '#' {
                j += 1;
            }
            if j < b.len() && b[j] == '"' {
                let h = j - i - 1;
                let mut k = j + 1;
                'f: while k < b.len() {
                    if b[k] == '"' {
                        let mut m = 0;
                        while m < h && k + 1 + m < b.len() && b[k + 1 + m] == '#' {
                            m += 1;
                        }
                        if m == h {
                            k += h + 1;
                            break 'f;
                        }
                    }
                    k += 1;
                }
                o.extend(&b[i..k.min(b.len())]);
                i = k;
                continue;
            }
        }
        if ch == '"' {
            o.push(ch);
            i += 1;
            while i < b.len() {
                o.push(b[i]);
                if b[i] == '\\' && i + 1 < b.len() {
                    o.push(b[i + 1]);
                    i += 2;
                    continue;
                }
                i += 1;
                if b[i - 1] == '"' {
                    break;
                }
            }
            continue;
        }
        if ch == '\'' {
            // char literal or lifetime
            if i + 2 < b.len() && b[i + 1] == '\\' {
                let mut k = i + 2;
                while k + 1 < b.len() && b[k + 1] != '\'' {
                    k += 1;
                }
                o.extend(&b[i..(k + 2).min(b.len())]);
                i = k + 2;
                continue;
            }
            if i + 2 < b.len() && b[i + 2] == '\'' {
                o.extend(&b[i..i + 3]);
                i += 3;
                continue;
            }
        }
        if !ch.is_whitespace() {
            o.push(ch);
        }
        i += 1;
    }
    o
}

/// The bindings of a metadata value, in a canonical form.
pub fn meta_bindings(m: &std::collections::HashMap<String, hooq::BindingPayload>) -> String {
    let mut v: Vec<String> = m
        .iter()
        .map(|(k, b)| {
            let val = if let Some(x) = b.value.downcast_ref::<i32>() {
                format!("i32 {x}")
            } else if let Some(x) = b.value.downcast_ref::<i64>() {
                format!("i64 {x}")
            } else if let Some(x) = b.value.downcast_ref::<&'static str>() {
                format!("str {x}")
            } else if let Some(x) = b.value.downcast_ref::<bool>() {
                format!("bool {x}")
            } else if let Some(x) = b.value.downcast_ref::<String>() {
                format!("String {x}")
            } else if let Some(x) = b.value.downcast_ref::<S>() {
                format!("S {x:?}")
            } else {
                "other".to_string()
            };
            format!("{k}={}:{val}", norm(&b.expr))
        })
        .collect();
    v.sort();
    v.join(";")
}

/// `get_binding` finds exactly what is bound, as what it is.
fn gets(m: &hooq::HooqMeta) -> bool {
    let keys: Vec<String> = m.bindings.keys().cloned().collect();
    keys.iter().all(|k| {
        let v = &m.bindings[k].value;
        let real = v.downcast_ref::<i64>() == m.get_binding::<i64>(k).as_deref()
            && v.downcast_ref::<i32>() == m.get_binding::<i32>(k).as_deref()
            && v.downcast_ref::<&'static str>() == m.get_binding::<&'static str>(k).as_deref()
            && v.downcast_ref::<bool>() == m.get_binding::<bool>(k).as_deref()
            && v.downcast_ref::<String>() == m.get_binding::<String>(k).as_deref()
            && v.downcast_ref::<S>() == m.get_binding::<S>(k).as_deref();
        let near = [
            k.to_uppercase(),
            format!("{k}x"),
            format!(" {k}"),
            format!("${k}"),
            k[..k.len() - 1].to_string(),
            k.replace('_', ""),
            k.replace('_', "-"),
            String::new(),
        ];
        let unreal = near.iter().filter(|n| !keys.contains(n)).all(|n| {
            m.get_binding::<i64>(n).is_none()
                && m.get_binding::<i32>(n).is_none()
                && m.get_binding::<&'static str>(n).is_none()
                && m.get_binding::<S>(n).is_none()
        });
        real && unreal
    })
}
pub fn meta(m: hooq::HooqMeta) -> String {
    // the reference goes through the same function and takes it for granted
    let real = std::env::current_exe().is_ok_and(|p| p.file_name() == Some("gen".as_ref()));
    let found = if !real || gets(&m) { "" } else { " get_binding disagrees" };
    format!(
        "{}:{} {} {} [{}] <{}> {{{}}}{found}",
        m.line,
        m.column,
        m.path,
        m.file,
        norm(m.source_str),
        m.count,
        meta_bindings(&m.bindings)
    )
}

#[macro_export]
macro_rules! idm {
    ($e:expr) => {
        $e
    };
}
#[macro_export]
macro_rules! addm {
    ($a:expr; $b:expr) => {
        $crate::add($a, $b)
    };
}
/// Runs its statements.
#[macro_export]
macro_rules! run {
    ($($t:tt)*) => { $($t)* };
}
/// Evaluates to the text of its arguments and evaluates none of them.
#[macro_export]
macro_rules! txt {
    ($($t:tt)*) => { $crate::sink($crate::norm(stringify!($($t)*))) };
}

/// Lets flavors that report with `inspect_err` meet an `Option`.
pub trait InspectErrOption: Sized {
    fn inspect_err(self, _: impl FnOnce(&E)) -> Self {
        self
    }
}
impl<T> InspectErrOption for Option<T> {}
