//! Harness interface: symbolic inputs, assumptions, assertions and a deterministic executor.
//! Every `__vp_*` function is interpreted by the symbolic machine; natively (replay) it is rt/vp_rt.c.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

mod ffi {
    extern "C" {
        pub fn __vp_load(path: *const i8);
        pub fn __vp_fail();
        pub fn __vp_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn __vp_assume(c: u8);
        pub fn __vp_check(c: u8, l: *const u8, n: usize);
        pub fn __vp_cover(l: *const u8, n: usize);
        pub fn __vp_fix(x: u64) -> u64;
        pub fn __vp_clock(w: u32, s: u64, ns: u64);
        pub fn __vp_observe(x: u64);
        pub fn __vp_and(a: u8, b: u8) -> u8;
        pub fn __vp_eq(a: *const u8, b: *const u8, n: usize) -> u8;
        pub fn __vp_ite(c: u8, a: u64, b: u64) -> u64;
        pub fn __vp_tier() -> u64;
        pub fn __vp_nested(on: u32);
        pub fn __vp_try(f: extern "C" fn(*mut u8) -> u32, d: *mut u8) -> u32;
        pub fn __vp_arm(on: u32);
        pub fn __vp_note(l: *const u8, n: usize, x: u64);
    }
}
use ffi::*;

/// Unconstrained bytes.
#[inline(never)]
pub fn sym(p: &mut [u8], name: &str) { unsafe { __vp_sym(p.as_mut_ptr(), p.len(), name.as_ptr(), name.len()) } }
pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; sym(&mut b, name); b }
pub fn any_u8(name: &str) -> u8 { bytes::<1>(name)[0] }
pub fn any_u32(name: &str) -> u32 { u32::from_le_bytes(bytes::<4>(name)) }
pub fn any_i32(name: &str) -> i32 { i32::from_le_bytes(bytes::<4>(name)) }
pub fn any_u64(name: &str) -> u64 { u64::from_le_bytes(bytes::<8>(name)) }
pub fn any_i64(name: &str) -> i64 { i64::from_le_bytes(bytes::<8>(name)) }
pub fn any_bool(name: &str) -> bool { let b = any_u8(name); assume(b < 2); b & 1 == 1 }
/// A value in [lo, hi] (kept symbolic).
pub fn any_in(name: &str, lo: u64, hi: u64) -> u64 {
    // the narrowest symbol that covers the range keeps the formulas small
    let x = if hi < 1 << 8 { any_u8(name) as u64 } else if hi < 1 << 16 { u16::from_le_bytes(bytes::<2>(name)) as u64 } else if hi < 1 << 32 { any_u32(name) as u64 } else { any_u64(name) };
    assume(and(x >= lo, x <= hi));
    x
}
/// Fork until `x` has one value on this path.
pub fn fix(x: u64) -> u64 { unsafe { __vp_fix(x) } }
/// Shorthand: a small number, one path per value.
pub fn pick(name: &str, n: u64) -> usize { let x = any_u8(name); assume((x as u64) < n); fix(x as u64) as usize }
pub fn fixb(b: bool) -> bool { fix(b as u64) == 1 }
#[inline(never)]
pub fn assume(c: bool) { unsafe { __vp_assume(c as u8) } }
#[inline(never)]
pub fn check(c: bool, label: &str) { unsafe { __vp_check(c as u8, label.as_ptr(), label.len()) } }
#[inline(never)]
pub fn cover(label: &str) { unsafe { __vp_cover(label.as_ptr(), label.len()) } }
pub fn clock_real(s: u64, ns: u64) { unsafe { __vp_clock(0, s, ns) } }
pub fn clock_mono(s: u64, ns: u64) { unsafe { __vp_clock(1, s, ns) } }
pub fn observe(x: u64) { unsafe { __vp_observe(x) } }
pub fn and(a: bool, b: bool) -> bool { unsafe { __vp_and(a as u8, b as u8) & 1 == 1 } }
pub fn or(a: bool, b: bool) -> bool { !and(!a, !b) }
/// Byte-wise equality as one formula (no forking).
pub fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { __vp_eq(a.as_ptr(), b.as_ptr(), a.len()) & 1 == 1 } }
pub fn eqs(a: &str, b: &str) -> bool { eq(a.as_bytes(), b.as_bytes()) }
pub fn eqo(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => eqs(a, b), _ => false } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { __vp_ite(c as u8, a, b) } }
/// The larger bound in the thorough tier.
pub fn tier(quick: usize, thorough: usize) -> usize { if unsafe { __vp_tier() } == 0 { quick } else { thorough } }
pub fn note(l: &str, x: u64) { unsafe { __vp_note(l.as_ptr(), l.len(), x) } }
pub fn obs_bytes(b: &[u8]) { observe(b.len() as u64); for &x in b { observe(x as u64); } }

/// A string of exactly `n` bytes drawn from ASCII (0..0x80).
pub fn ascii(name: &str, n: usize) -> String {
    let mut v = vec![0u8; n];
    sym(&mut v, name);
    for &b in &v { assume(b < 0x80); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of exactly `n` bytes, every byte one of `set`.
pub fn over(name: &str, n: usize, set: &[u8]) -> String {
    let mut v = vec![0u8; n];
    sym(&mut v, name);
    for &b in &v { let mut ok = false; for &s in set { ok = or(ok, b == s); } assume(ok); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any valid UTF-8 string of exactly `n` bytes (one path per UTF-8 shape).
pub fn utf8(name: &str, n: usize) -> String {
    let mut v = vec![0u8; n];
    sym(&mut v, name);
    match String::from_utf8(v) { Ok(s) => s, Err(_) => { assume(false); unreachable!() } }
}
/// ASCII string of length 0..=max, one path per length.
pub fn ascii_upto(name: &str, max: usize) -> String { let n = pick(&format!("{name}.len"), max as u64 + 1); ascii(name, n) }

fn noop_raw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { noop_raw() }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &VT)
}
pub fn noop_waker() -> Waker { unsafe { Waker::from_raw(noop_raw()) } }
/// Poll a future that needs no reactor to completion.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..10_000 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
    check(false, "stuck");
    panic!("future makes no progress")
}
/// A set of tasks polled in an order chosen symbolically: every interleaving of their await points
/// (up to the poll bound) is a path.
pub struct Sched<'a> { tasks: Vec<Option<Pin<Box<dyn Future<Output = ()> + 'a>>>>, pub polls: usize }
impl<'a> Sched<'a> {
    pub fn new() -> Self { Sched { tasks: vec![], polls: 0 } }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'a) -> usize { self.tasks.push(Some(Box::pin(f))); self.tasks.len() - 1 }
    pub fn poll(&mut self, i: usize) -> bool {
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        self.polls += 1;
        if let Some(t) = &mut self.tasks[i] { if t.as_mut().poll(&mut cx).is_ready() { self.tasks[i] = None; } }
        self.tasks[i].is_none()
    }
    pub fn done(&self, i: usize) -> bool { self.tasks[i].is_none() }
    pub fn drop_task(&mut self, i: usize) { self.tasks[i] = None; }
    pub fn live(&self) -> Vec<usize> { (0..self.tasks.len()).filter(|&i| self.tasks[i].is_some()).collect() }
    /// Inside `rt`: poll a task that tokio lets take only `r` locks (or other budgeted steps) before it must yield.
    /// With `r` = 1 every lock acquisition is a scheduling point, as it would be between threads.
    pub async fn poll_tight(&mut self, i: usize, r: usize) -> bool {
        tokio::task::yield_now().await;
        for _ in 0..128 - r { tokio::task::consume_budget().await; }
        self.poll(i)
    }
    /// Inside `rt`: every schedule of at most `max` tight polls; then finish round-robin. False if tasks are stuck.
    pub async fn run_tight(&mut self, name: &str, max: usize) -> bool {
        for _ in 0..max {
            let l = self.live();
            if l.is_empty() { return true; }
            let k = if l.len() == 1 { 0 } else { pick(name, l.len() as u64) };
            self.poll_tight(l[k], 1).await;
        }
        for _ in 0..64 { let l = self.live(); if l.is_empty() { return true; } for i in l { self.poll_tight(i, 1).await; } }
        false
    }
    /// Explore every schedule of at most `max` polls; then finish round-robin.
    pub fn run_all(&mut self, name: &str, max: usize) -> bool {
        for _ in 0..max {
            let l = self.live();
            if l.is_empty() { return true; }
            let k = if l.len() == 1 { 0 } else { pick(name, l.len() as u64) };
            self.poll(l[k]);
        }
        for _ in 0..20_000 { let l = self.live(); if l.is_empty() { return true; } for i in l { self.poll(i); } }
        false
    }
}
impl<'a> Default for Sched<'a> { fn default() -> Self { Self::new() } }

/// Another thread stepping in: while `intrude` runs its main operation, every atomic read-modify-write (so every taking
/// and leaving of a lock) is a point at which a second thread's whole operation may run.
static mut ON: bool = false;
static mut AT: u32 = 0;
static mut IDX: u32 = 0;
static mut HOOK: Option<*mut dyn FnMut()> = None;
static mut FROZEN: bool = false;
extern "C" fn enter(d: *mut u8) -> u32 { unsafe { let h: *mut dyn FnMut() = *(d as *mut *mut dyn FnMut()); (*h)(); __vp_nested(0); } 0 }
/// Called by the machine before each atomic read-modify-write while armed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_point() {
    unsafe {
        if !ON { return; }
        let k = IDX;
        IDX += 1;
        if !fixb(AT <= k) { return; }
        ON = false;
        __vp_arm(0);
        #[allow(static_mut_refs)]
        if let Some(mut h) = HOOK.take() { if __vp_try(enter, &mut h as *mut _ as *mut u8) != 0 { FROZEN = true; } }
    }
}
/// Run `main` with `intruder` as a second thread that runs at once before any one of main's atomic read-modify-writes
/// (one path each), or after it. An intruder that has to wait for a lock that `main` holds stays there, with the locks it
/// has, while `main` goes on: if `main` then has to wait too, that is a deadlock; otherwise the path ends there (the
/// intruder running on is covered by its coming in later). Returns main's result and whether the intruder came in between.
/// The intruder has thread-local variables of its own, and is in main's tokio runtime if main is in one.
pub fn intrude<R>(name: &str, main: impl FnOnce() -> R, mut intruder: impl FnMut()) -> (R, bool) {
    let at = tokio::runtime::Handle::try_current().ok();
    let mut inside = || { let _in = at.as_ref().map(|h| h.enter()); intruder() };
    let h: &mut dyn FnMut() = &mut inside;
    unsafe {
        HOOK = Some(std::mem::transmute::<*mut dyn FnMut(), *mut (dyn FnMut() + 'static)>(h));
        AT = any_u32(name);
        IDX = 0;
        ON = true;
        __vp_arm(1);
        let r = main();
        let left = ON;
        ON = false;
        __vp_arm(0);
        assume(!FROZEN);
        observe(IDX as u64);
        // beyond the last point: one path only
        if left { assume(AT == IDX); HOOK = None; inside(); }
        (r, !left)
    }
}

/// Two threads: for every pair of the `n` operations and every point of the first at which the second may run at once, the outcome (both results and what is left) must be that of one of the two orders, run one after the other.
pub fn threads<W, O: PartialEq, Q: PartialEq>(n: u64, world: impl Fn() -> W, act: impl Fn(&W, usize) -> O, rest: impl Fn(&W) -> Q) {
    let (a, b) = (pick("first", n), pick("second", n));
    let seq = |first: usize, second: usize| { let w = world(); let x = act(&w, first); let y = act(&w, second); (x, y, rest(&w)) };
    let (x1, y1, r1) = seq(a, b);
    let (y2, x2, r2) = seq(b, a);
    let w = world();
    let mut y = None;
    let (x, between) = intrude("at", || act(&w, a), || y = Some(act(&w, b)));
    let (y, r) = (y.unwrap(), rest(&w));
    check((x == x1 && y == y1 && r == r1) || (x == x2 && y == y2 && r == r2), "two threads' operations together leave what neither order of them would");
    cover(if between { "in between" } else { "after the last point" });
}
/// One poll of an operation that has nothing to wait for; the path ends if it would block (see `intrude`).
pub fn once<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = noop_waker();
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(x) => x, Poll::Pending => { assume(false); unreachable!() } }
}

/// Run a future on tokio's current-thread runtime with paused (virtual) time.
pub fn rt<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let r = rt.block_on(f);
    std::mem::forget(rt);
    r
}

pub fn run(table: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { for (n, _) in table { println!("{n}"); } return; }
    if let Some(p) = a.get(2) { let p = format!("{p}\0"); unsafe { __vp_load(p.as_ptr() as *const i8) } }
    for (n, f) in table { if *n == a[1] { f(); unsafe { __vp_fail() } return; } }
    std::process::exit(4);
}
#[macro_export]
macro_rules! harness {
    ($($name:ident $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $name() $body )*
        fn main() { $crate::run(&[$((stringify!($name), $name as extern "C" fn())),*]); }
    };
}

/// Structural equality of JSON values as one formula.
pub fn veq(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Null, Null) => true,
        (Bool(x), Bool(y)) => x == y,
        (Number(x), Number(y)) => match (x.as_i64(), y.as_i64()) { (Some(p), Some(q)) => p == q, (None, None) => x == y, _ => false },
        (String(x), String(y)) => eqs(x, y),
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).fold(true, |r, (p, q)| and(r, veq(p, q))),
        (Object(x), Object(y)) => x.len() == y.len() && x.iter().fold(true, |r, (k, p)| match y.get(k) { Some(q) => and(r, veq(p, q)), None => false }),
        _ => false,
    }
}
/// The same text with every byte of `set` pinned (one path per value).
pub fn pin(t: &str, set: impl Fn(u8) -> bool) -> String {
    let v = t.bytes().map(|c| if set(c) { fix(c as u64) as u8 } else { c }).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
/// Does the text contain the given piece (plain search, for concrete text)?
pub fn has(t: &str, p: &str) -> bool { t.contains(p) }
