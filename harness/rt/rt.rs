//! Runtime linked into every generated crate: observed value types, the event
//! log and the driver. Everything the monitors see is recorded here, at the
//! client boundary of the generated parsers (tokens in, actions, handlers,
//! results), never inside them.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
pub use std::boxed::Box;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const CALL: u32 = 1;
pub const TOK: u32 = 2;
pub const RED: u32 = 3;
pub const SYN: u32 = 4;
pub const PFAIL: u32 = 5;
pub const OVF: u32 = 6;
pub const RETOK: u32 = 7;
pub const RETERR: u32 = 8;
pub const RESULT: u32 = 9;
pub const PANIC: u32 = 10;
pub const DROPV: u32 = 11;
pub const EXTRA: u32 = 12;
pub const DEFERR: u32 = 13;
pub const END: u32 = 14;
pub const CAP: u32 = 15;
pub const STK: u32 = 16;
pub const ALLOC: u32 = 17;
/// [0, clones made, steps taken by clones] or [what is wrong].
pub const FORK: u32 = 18;

/// Counts the allocations made inside the code under test on this thread.
struct Counting;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u32> = const { Cell::new(0) };
}
fn count() {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let _ = ALLOCS.try_with(|n| n.set(n.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
pub struct Arm(bool);
impl Arm {
    fn set(to: bool) -> Arm {
        Arm(ARMED.with(|a| a.replace(to)))
    }
}
impl Drop for Arm {
    fn drop(&mut self) {
        ARMED.with(|a| a.set(self.0))
    }
}
/// The runtime's own work is not counted.
fn quiet() -> Arm {
    Arm::set(false)
}
/// Run code under test.
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
    if !with(|c| c.allocs) {
        return f();
    }
    ALLOCS.with(|n| n.set(0));
    let r = {
        let _a = Arm::set(true);
        f()
    };
    let n = ALLOCS.with(|n| n.replace(0));
    if n > 0 {
        ev(ALLOC, &[n]);
    }
    r
}

pub const OP_EOI: u32 = 0xFFFF_0000;
pub const OP_DROP: u32 = 0xFFFF_0001;
pub const OP_BUMP: u32 = 0xFFFF_0002;
pub const OP_READ: u32 = 0xFFFF_0003;
pub const OP_INTO: u32 = 0xFFFF_0004;

#[derive(Default, Clone)]
pub struct Ctx {
    pub log: Vec<u32>,
    pub nid: u32,
    pub syn: Vec<u32>,
    pub syn_i: usize,
    pub fail: Vec<u32>,
    pub red_i: u32,
    pub live: i64,
    pub droplog: bool,
    /// Log allocations made by the code under test.
    pub allocs: bool,
    /// Addresses of values that are only ever borrowed.
    pub addr: Vec<(u32, usize)>,
    pub cap: usize,
    pub capped: bool,
}

thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}
pub fn swap(c: &mut Ctx) {
    CTX.with(|x| std::mem::swap(&mut *x.borrow_mut(), c));
}
impl Ctx {
    fn ev(&mut self, code: u32, body: &[u32]) {
        self.log.push(body.len() as u32 + 1);
        self.log.push(code);
        self.log.extend_from_slice(body);
    }
    fn id(&mut self) -> u32 {
        self.nid += 1;
        self.nid + 15
    }
}
pub fn ev(code: u32, body: &[u32]) {
    let _q = quiet();
    with(|c| c.ev(code, body))
}
pub fn nid() -> u32 {
    with(|c| c.id())
}
fn capcheck() {
    let over = with(|c| {
        if c.log.len() > c.cap && !c.capped {
            c.capped = true;
            c.ev(CAP, &[]);
            true
        } else {
            false
        }
    });
    if over {
        panic!("event cap");
    }
}

/// Under Miri values own memory, so that a lost or doubled value is also a lost or doubled block.
#[cfg(miri)]
type Heap = Box<u32>;
#[cfg(not(miri))]
type Heap = ();
fn heap(_id: u32) -> Heap {
    #[cfg(miri)]
    return Box::new(_id);
}
/// A payload of kind K with a unique identity, not Copy, and Clone only on request.
pub struct Vc<const K: usize, const C: bool>(u32, Heap);
pub type V<const K: usize> = Vc<K, false>;
/// The same names for types that can be cloned, compared and formatted; a clone keeps the identity.
pub mod cl {
    pub use super::*;
    pub type V<const K: usize> = Vc<K, true>;
    pub type L = Lc<true>;
    pub type X = Xc<true>;
    pub type E = Ec<true>;
    pub struct F0;
    impl Fam for F0 {
        type Item = V<5>;
    }
    // asked for by derives, used by nothing
    impl Clone for F0 {
        fn clone(&self) -> Self {
            unreachable!()
        }
    }
    impl PartialEq for F0 {
        fn eq(&self, _: &Self) -> bool {
            unreachable!()
        }
    }
    impl std::fmt::Debug for F0 {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
            unreachable!()
        }
    }
}
impl Clone for Ec<true> {
    fn clone(&self) -> Self {
        Ec(self.0)
    }
}
impl PartialEq for Ec<true> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<const K: usize> PartialEq for R<K> {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self, o)
    }
}
impl<const K: usize> std::fmt::Debug for R<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "R{}#{}", K, self.0)
    }
}
impl<const K: usize> Clone for Vc<K, true> {
    fn clone(&self) -> Self {
        Self::mk(self.0)
    }
}
impl<const K: usize> PartialEq for Vc<K, true> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<const K: usize> std::fmt::Debug for Vc<K, true> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "V{}#{}", K, self.0)
    }
}
impl Clone for Lc<true> {
    fn clone(&self) -> Self {
        Self::mk(self.0)
    }
}
impl PartialEq for Lc<true> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl std::fmt::Debug for Lc<true> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "L#{}", self.0)
    }
}
impl Clone for Xc<true> {
    fn clone(&self) -> Self {
        Xc { n: self.n, h: self.h }
    }
}
impl PartialEq for Xc<true> {
    fn eq(&self, o: &Self) -> bool {
        (self.n, self.h) == (o.n, o.h)
    }
}
impl std::fmt::Debug for Xc<true> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "X#{}.{}", self.n, self.h)
    }
}
impl<const K: usize, const C: bool> Vc<K, C> {
    pub fn mk(id: u32) -> Self {
        let _q = quiet();
        with(|c| c.live += 1);
        Vc(id, heap(id))
    }
    pub fn new() -> Self {
        Self::mk(nid())
    }
}
impl<const K: usize, const C: bool> Drop for Vc<K, C> {
    fn drop(&mut self) {
        let id = self.0;
        let _q = quiet();
        with(|c| {
            c.live -= 1;
            if c.droplog {
                c.ev(DROPV, &[id]);
            }
        });
    }
}
/// Values that generic grammars can make.
pub trait Val: Obs {
    fn mk(id: u32) -> Self;
}
impl<const K: usize, const C: bool> Val for Vc<K, C> {
    fn mk(id: u32) -> Self {
        Vc::mk(id)
    }
}
impl<const C: bool> Val for Lc<C> {
    fn mk(id: u32) -> Self {
        Lc::mk(id)
    }
}
impl<T: Val> Val for Box<T> {
    fn mk(id: u32) -> Self {
        Box::new(T::mk(id))
    }
}
impl<T: Val> Val for [T; 1] {
    fn mk(id: u32) -> Self {
        [T::mk(id)]
    }
}
impl<T: Obs> Obs for [T; 1] {
    fn o(&self, out: &mut Vec<u32>) {
        self[0].o(out)
    }
}
/// A type made through an associated type.
pub trait Fam {
    type Item: Val;
}
pub struct F0;
impl Fam for F0 {
    type Item = V<5>;
}
impl<T: Val> Fam for (T,) {
    type Item = Box<T>;
}
/// Values that are only borrowed: every observation checks the address.
pub struct R<const K: usize>(pub u32);
impl<const K: usize> Obs for R<K> {
    fn o(&self, out: &mut Vec<u32>) {
        let at = self as *const Self as usize;
        if !with(|c| c.addr.contains(&(self.0, at))) {
            ev(PANIC, &[0xADD2, self.0]);
        }
        out.push(self.0)
    }
}
pub trait Lk: Obs {
    fn lk<'a>(id: u32) -> &'a Self
    where
        Self: 'a;
}
impl<const K: usize> Lk for R<K> {
    fn lk<'a>(id: u32) -> &'a Self
    where
        Self: 'a,
    {
        let r: &'static R<K> = Box::leak(Box::new(R(id)));
        with(|c| c.addr.push((id, r as *const Self as usize)));
        r
    }
}
impl Lk for dyn Obs + Send + Sync {
    fn lk<'a>(id: u32) -> &'a Self
    where
        Self: 'a,
    {
        <R<9> as Lk>::lk(id)
    }
}
/// Payload common to all tokens.
pub struct Lc<const C: bool>(u32, Heap);
pub type L = Lc<false>;
impl<const C: bool> Lc<C> {
    pub fn mk(id: u32) -> Self {
        let _q = quiet();
        with(|c| c.live += 1);
        Lc(id, heap(id))
    }
    pub fn new() -> Self {
        Self::mk(nid())
    }
}
impl<const C: bool> Drop for Lc<C> {
    fn drop(&mut self) {
        let id = self.0;
        let _q = quiet();
        with(|c| {
            c.live -= 1;
            if c.droplog {
                c.ev(DROPV, &[id]);
            }
        });
    }
}
/// The error type.
#[derive(Debug)]
pub struct Ec<const C: bool>(pub u32);
pub type E = Ec<false>;
impl<const C: bool> Ec<C> {
    pub fn new() -> Self {
        Ec(nid())
    }
}
impl<const C: bool> Default for Ec<C> {
    fn default() -> Self {
        let id = nid();
        ev(DEFERR, &[id]);
        Ec(id)
    }
}
pub trait Er {
    fn er(&self) -> u32;
    fn mk() -> Self;
}
impl<const C: bool> Er for Ec<C> {
    fn er(&self) -> u32 {
        self.0
    }
    fn mk() -> Self {
        Ec::new()
    }
}
impl<T: Er> Er for Box<T> {
    fn er(&self) -> u32 {
        (**self).er()
    }
    fn mk() -> Self {
        Box::new(T::mk())
    }
}
impl Er for () {
    fn er(&self) -> u32 {
        0
    }
    fn mk() {}
}
/// The extra argument: a step counter and a history hash.
pub struct Xc<const C: bool> {
    pub n: u32,
    pub h: u32,
}
pub type X = Xc<false>;
impl<const C: bool> Xc<C> {
    pub fn new() -> Self {
        Xc { n: 0, h: nid() }
    }
}
pub trait Ext {
    fn bump(&mut self, k: u32);
    fn get(&self) -> [u32; 2];
}
impl<const C: bool> Ext for Xc<C> {
    fn bump(&mut self, k: u32) {
        self.n += 1;
        self.h = self.h.wrapping_mul(0x9E37_79B1).wrapping_add(k).rotate_left(7);
    }
    fn get(&self) -> [u32; 2] {
        [self.n, self.h]
    }
}
impl<T: Ext + ?Sized> Ext for &mut T {
    fn bump(&mut self, k: u32) {
        (**self).bump(k)
    }
    fn get(&self) -> [u32; 2] {
        (**self).get()
    }
}
impl<T: Ext + ?Sized> Ext for Box<T> {
    fn bump(&mut self, k: u32) {
        (**self).bump(k)
    }
    fn get(&self) -> [u32; 2] {
        (**self).get()
    }
}
impl Ext for () {
    fn bump(&mut self, _: u32) {}
    fn get(&self) -> [u32; 2] {
        [0, 0]
    }
}
/// What an alias or a token payload looks like in the log.
pub trait Obs {
    fn o(&self, out: &mut Vec<u32>);
}
impl<const K: usize, const C: bool> Obs for Vc<K, C> {
    fn o(&self, out: &mut Vec<u32>) {
        out.push(self.0)
    }
}
impl<const C: bool> Obs for Lc<C> {
    fn o(&self, out: &mut Vec<u32>) {
        out.push(self.0)
    }
}
impl Obs for () {
    fn o(&self, out: &mut Vec<u32>) {
        out.push(0)
    }
}
impl Obs for u32 {
    fn o(&self, out: &mut Vec<u32>) {
        out.push(*self)
    }
}
impl<T: Obs> Obs for Option<T> {
    fn o(&self, out: &mut Vec<u32>) {
        match self {
            None => out.push(1),
            Some(x) => {
                out.push(2);
                x.o(out)
            }
        }
    }
}
impl<A: Obs, B: Obs> Obs for (A, B) {
    fn o(&self, out: &mut Vec<u32>) {
        self.0.o(out);
        self.1.o(out);
    }
}
impl<T: Obs + ?Sized> Obs for &T {
    fn o(&self, out: &mut Vec<u32>) {
        (**self).o(out)
    }
}
impl<T: Obs + ?Sized> Obs for &mut T {
    fn o(&self, out: &mut Vec<u32>) {
        (**self).o(out)
    }
}
impl<T: Obs + ?Sized> Obs for Box<T> {
    fn o(&self, out: &mut Vec<u32>) {
        (**self).o(out)
    }
}
pub fn words(x: &dyn Obs) -> Vec<u32> {
    let _q = quiet();
    let mut v = Vec::new();
    x.o(&mut v);
    v
}

/// An action ran: rule number and the values its aliases are bound to.
/// Returns the identity of the value the action is to build, or the planned failure.
pub fn red<Z: Er, T: Ext + ?Sized>(rule: u32, extra: &mut T, ch: &[&dyn Obs]) -> Result<u32, Z> {
    let _q = quiet();
    capcheck();
    extra.bump(rule);
    let x = extra.get();
    let (i, fails) = with(|c| {
        c.red_i += 1;
        (c.red_i, c.fail.contains(&c.red_i))
    });
    let _ = i;
    nest();
    let err = if fails { Some(Z::mk()) } else { None };
    let id = nid();
    let mut b = vec![rule, fails as u32, err.as_ref().map_or(0, |e| e.er()), id, x[0], x[1], ch.len() as u32];
    for c in ch {
        let at = b.len();
        b.push(0);
        c.o(&mut b);
        b[at] = (b.len() - at - 1) as u32;
    }
    ev(RED, &b);
    match err {
        Some(e) => Err(e),
        None => Ok(id),
    }
}
pub type Tc = (u32, Vec<u32>);
/// The syntax error handler ran.
pub fn syn<Z: Er, T: Ext + ?Sized>(
    extra: &mut T,
    token: Option<Tc>,
    expected: impl Iterator<Item = (u32, Option<Tc>)>,
) -> Result<u32, Z> {
    let q = quiet();
    capcheck();
    extra.bump(1000);
    let x = extra.get();
    let dec = with(|c| {
        let d = c.syn.get(c.syn_i).copied().unwrap_or_else(|| c.syn.last().copied().unwrap_or(1));
        c.syn_i += 1;
        d
    });
    nest();
    let err = if dec != 0 { Some(Z::mk()) } else { None };
    let id = nid();
    let mut b = vec![dec, err.as_ref().map_or(0, |e| e.er()), id, x[0], x[1]];
    match token {
        None => b.push(0),
        Some((t, w)) => {
            b.push(1);
            b.push(t);
            b.push(w.len() as u32);
            b.extend(w);
        }
    }
    let at = b.len();
    b.push(0);
    let mut expected = expected;
    loop {
        let was = q.0;
        let e = {
            let _a = Arm::set(was);
            expected.next()
        };
        let Some((ni, t)) = e else { break };
        b[at] += 1;
        b.push(ni);
        match t {
            None => b.push(0),
            Some((t, w)) => {
                b.push(1);
                b.push(t);
                b.push(w.len() as u32);
                b.extend(w);
            }
        }
        if b[at] > 100_000 {
            break;
        }
    }
    ev(SYN, &b);
    match err {
        Some(e) => Err(e),
        None => Ok(id),
    }
}
pub fn pfail<Z: Er, T: Ext + ?Sized>(extra: &mut T) -> Z {
    let _q = quiet();
    extra.bump(1001);
    let x = extra.get();
    let e = Z::mk();
    ev(PFAIL, &[e.er(), x[0], x[1]]);
    e
}
pub fn ovf<Z: Er, T: Ext + ?Sized>(extra: &mut T, token: Option<Tc>) -> Z {
    let _q = quiet();
    extra.bump(1002);
    let x = extra.get();
    let e = Z::mk();
    let mut b = vec![e.er(), x[0], x[1]];
    match token {
        None => b.push(0),
        Some((t, w)) => {
            b.push(1);
            b.push(t);
            b.push(w.len() as u32);
            b.extend(w);
        }
    }
    ev(OVF, &b);
    e
}
/// The driver built token `t`.
pub fn tok(t: u32, payload: &dyn Obs) {
    let _q = quiet();
    let mut b = vec![t];
    payload.o(&mut b);
    ev(TOK, &b);
}
/// The same, from the words.
pub fn tokw(t: u32, w: &[u32]) {
    let _q = quiet();
    let mut b = vec![t];
    b.extend_from_slice(w);
    ev(TOK, &b);
}
/// Run with no destruction logged; identities are given back (nothing made by `f` survives it).
fn hush<R>(f: impl FnOnce() -> R) -> R {
    let _q = quiet();
    let (d, n) = with(|c| (std::mem::replace(&mut c.droplog, false), c.nid));
    let r = f();
    with(|c| {
        c.droplog = d;
        c.nid = n;
    });
    r
}
/// The accessors of the common token data: `words of the token`, `extra`, `extra_mut`, `into_extra`.
#[allow(clippy::too_many_arguments)]
pub fn access<T, E: Obs>(
    mk: &dyn Fn() -> T,
    new: &dyn Fn() -> E,
    all: &dyn Fn(&T) -> Vec<u32>,
    get: &dyn Fn(&T) -> &E,
    get_mut: &dyn Fn(&mut T) -> &mut E,
    into: &dyn Fn(T) -> E,
) {
    let good = hush(|| {
        let mut k = mk();
        let was = all(&k);
        let a = words(get(&k));
        let n = a.len();
        let mut good = was.starts_with(&a);
        let e = new();
        let want = words(&e);
        let old = std::mem::replace(get_mut(&mut k), e);
        good &= words(&old) == a && words(get(&k)) == want;
        let now = all(&k);
        good &= now.starts_with(&want) && now[n..] == was[n..];
        let e = into(k);
        good &= words(&e) == want;
        good
    });
    if !good {
        ev(PANIC, &[0xACCE]);
    }
}
pub type Fin = Result<(Vec<u32>, Option<[u32; 2]>), u32>;
pub fn fin<R: Obs, Z: Er>(r: Result<R, Z>) -> Fin {
    match r {
        Ok(r) => Ok((words(&r), None)),
        Err(e) => Err(e.er()),
    }
}
pub fn fin_x<R: Obs, T: Ext, Z: Er>(r: Result<(R, T), Z>) -> Fin {
    match r {
        Ok((r, x)) => Ok((words(&r), Some(x.get()))),
        Err(e) => Err(e.er()),
    }
}
pub fn unit<Z: Er>(r: Result<(), Z>) -> Result<(), u32> {
    r.map_err(|e| e.er())
}

/// One parser instance under the driver.
pub trait Inst {
    fn feed(&mut self, t: u32) -> Result<(), u32>;
    fn eoi(&mut self) -> Fin;
    fn drop_it(&mut self);
    /// k=0: mutate through extra_mut, 1: read through extra, 2: into_extra.
    fn ext(&mut self, k: u32) -> Option<[u32; 2]>;
    /// A clone, if the parser has them.
    fn fork(&self) -> Option<Box<dyn Inst + Send>> {
        None
    }
    /// The same instance at another address.
    fn moved(self: Box<Self>) -> Box<dyn Inst + Send>;
}
pub type Make = fn() -> Box<dyn Inst + Send>;

/// Perform one operation and log it. Returns false when the instance is finished.
pub fn step(i: &mut (dyn Inst + Send), op: u32) -> bool {
    ev(CALL, &[op]);
    match op {
        OP_EOI => {
            let r = catch_unwind(AssertUnwindSafe(|| i.eoi()));
            match r {
                Ok(Ok((w, x))) => {
                    let mut b = vec![w.len() as u32];
                    b.extend(w);
                    match x {
                        None => b.push(0),
                        Some(x) => b.extend([1, x[0], x[1]]),
                    }
                    ev(RESULT, &b)
                }
                Ok(Err(e)) => ev(RETERR, &[e]),
                Err(_) => ev(PANIC, &[]),
            }
            false
        }
        OP_DROP => {
            if catch_unwind(AssertUnwindSafe(|| i.drop_it())).is_err() {
                ev(PANIC, &[]);
            }
            false
        }
        OP_BUMP | OP_READ | OP_INTO => {
            match catch_unwind(AssertUnwindSafe(|| i.ext(op - OP_BUMP))) {
                Ok(Some(x)) => ev(EXTRA, &x),
                Ok(None) => ev(EXTRA, &[]),
                Err(_) => ev(PANIC, &[]),
            }
            op != OP_INTO
        }
        t => {
            let r = catch_unwind(AssertUnwindSafe(|| i.feed(t)));
            match r {
                Ok(Ok(())) => {
                    ev(RETOK, &[]);
                    true
                }
                Ok(Err(e)) => {
                    ev(RETERR, &[e]);
                    false
                }
                Err(_) => {
                    ev(PANIC, &[]);
                    false
                }
            }
        }
    }
}
/// One planned run, as decoded from the input file.
#[derive(Clone, Default)]
pub struct Run {
    pub g: u32,
    pub flags: u32,
    pub syn: Vec<u32>,
    pub fail: Vec<u32>,
    pub ops: Vec<u32>,
}
pub const F_DROPLOG: u32 = 1;
/// Go on feeding after a failed call (expects a refusal).
pub const F_AGAIN: u32 = 2;
/// Log allocations.
pub const F_ALLOC: u32 = 4;
/// Clone the parser at random points.
pub const F_FORK: u32 = 8;

pub fn ctx_of(r: &Run, cap: usize) -> Ctx {
    Ctx { syn: r.syn.clone(), fail: r.fail.clone(), droplog: r.flags & F_DROPLOG != 0, allocs: r.flags & F_ALLOC != 0, cap, ..Ctx::default() }
}
/// Run a plan to its end and return the log.
pub fn run_one(make: Make, r: &Run, cap: usize) -> Vec<u32> {
    if r.flags & F_FORK != 0 {
        return run_forked(make, r, cap);
    }
    let mut c = ctx_of(r, cap);
    swap(&mut c);
    let made = catch_unwind(make);
    match made {
        Err(_) => ev(PANIC, &[]),
        Ok(mut i) => {
            for &op in &r.ops {
                if !step(&mut *i, op) && (r.flags & F_AGAIN == 0 || op == OP_DROP || op == OP_INTO || op == OP_EOI) {
                    break;
                }
            }
            ev(CALL, &[OP_DROP]);
            if catch_unwind(AssertUnwindSafe(move || drop(i))).is_err() {
                ev(PANIC, &[]);
            }
        }
    }
    let live = with(|c| c.live);
    ev(END, &[live as i32 as u32]);
    swap(&mut c);
    c.log
}
/// An instance, its world and how far it is.
struct Strand {
    c: Ctx,
    i: Option<Box<dyn Inst + Send>>,
    at: usize,
    stop: bool,
    done: bool,
}
/// As `run_one`, but the parser is cloned at random points, clones of clones too, and all
/// of them go on in a random order, each with its own copy of the world. Each must behave like the first.
fn run_forked(make: Make, r: &Run, cap: usize) -> Vec<u32> {
    let mut c = ctx_of(r, cap);
    let mut rng = 0x9E37_79B9_7F4A_7C15u64;
    for x in &r.ops {
        rng = (rng ^ *x as u64).wrapping_mul(0x100_0000_01B3).rotate_left(23);
    }
    let mut below = move |n: usize| {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        (rng >> 20) as usize % n
    };
    swap(&mut c);
    let made = catch_unwind(make);
    if made.is_err() {
        ev(PANIC, &[]);
        ev(END, &[0]);
    }
    swap(&mut c);
    let Ok(i) = made else { return c.log };
    let mut s = vec![Strand { c, i: Some(i), at: 0, stop: false, done: false }];
    let (mut forks, mut steps, mut wrong) = (0, 0, vec![]);
    let greedy = below(3);
    loop {
        let todo: Vec<usize> = (0..s.len()).filter(|k| !s[*k].done).collect();
        if todo.is_empty() {
            break;
        }
        // the first first, the last first, or any
        let k = match greedy {
            0 => todo[0],
            1 => todo[todo.len() - 1],
            _ => todo[below(todo.len())],
        };
        if !s[k].stop && s.len() < 5 && below(1 + r.ops.len()) < 3 {
            let before = s[k].c.clone();
            swap(&mut s[k].c);
            let f = catch_unwind(AssertUnwindSafe(|| s[k].i.as_ref().unwrap().fork()));
            swap(&mut s[k].c);
            let got = s[k].c.live - before.live;
            match f {
                Ok(Some(f)) => {
                    // every value that exists is inside the parser
                    if got != before.live {
                        wrong.push(1);
                    }
                    if s[k].c.log.len() != before.log.len() {
                        wrong.push(2);
                    }
                    s[k].c.live = before.live;
                    let at = s[k].at;
                    s.push(Strand { c: before, i: Some(f), at, stop: false, done: false });
                    forks += 1;
                }
                Ok(None) => {
                    // an instance that has ended has no parser to clone
                    if got != 0 {
                        wrong.push(1);
                    }
                    wrong.push(3);
                }
                Err(_) => wrong.push(4),
            }
        }
        let t = &mut s[k];
        swap(&mut t.c);
        if !t.stop && t.at < r.ops.len() {
            let op = r.ops[t.at];
            t.at += 1;
            steps += (k > 0) as u32;
            t.stop = !step(&mut **t.i.as_mut().unwrap(), op) && (r.flags & F_AGAIN == 0 || op == OP_DROP || op == OP_INTO || op == OP_EOI);
        } else {
            ev(CALL, &[OP_DROP]);
            let i = t.i.take();
            if catch_unwind(AssertUnwindSafe(move || drop(i))).is_err() {
                ev(PANIC, &[]);
            }
            let live = with(|c| c.live);
            ev(END, &[live as i32 as u32]);
            t.done = true;
        }
        swap(&mut t.c);
    }
    let log = std::mem::take(&mut s[0].c.log);
    for t in &s[1..] {
        if t.c.log != log {
            wrong.push(5);
        }
    }
    let mut out = vec![4, FORK, 0, forks, steps];
    for w in wrong {
        out.extend([2, FORK, w]);
    }
    out.extend(log);
    out
}
/// A parser and its clone, just made.
pub fn alike(what: &str, same: bool) {
    if !same {
        panic!("a clone differs in {}", what);
    }
}
/// A stack that logs every operation: [operation, length after it].
#[derive(Clone, Debug, PartialEq)]
pub struct Stk<T>(Vec<T>);
#[allow(clippy::new_without_default)]
impl<T> Stk<T> {
    pub fn new() -> Self {
        ev(STK, &[0, 0]);
        Stk(Vec::new())
    }
    pub fn push(&mut self, t: T) {
        self.0.push(t);
        ev(STK, &[1, self.0.len() as u32]);
    }
    pub fn pop(&mut self) -> Option<T> {
        let r = self.0.pop();
        ev(STK, &[2 + 4 * r.is_none() as u32, self.0.len() as u32]);
        r
    }
    pub fn last(&self) -> Option<&T> {
        self.0.last()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear();
        ev(STK, &[3, 0]);
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
/// A conforming stack that is nothing like a Vec: a linked list.
#[derive(Clone, Debug, PartialEq)]
pub struct Lst<T> {
    head: Option<Box<(T, Lst<T>)>>,
    n: usize,
}
impl<T> Lst<T> {
    pub fn new() -> Self {
        Lst { head: None, n: 0 }
    }
    pub fn push(&mut self, t: T) {
        let old = Lst { head: self.head.take(), n: self.n };
        self.head = Some(Box::new((t, old)));
        self.n += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        let b = self.head.take()?;
        let (t, mut rest) = *b;
        self.head = rest.head.take();
        self.n -= 1;
        Some(t)
    }
    pub fn last(&self) -> Option<&T> {
        self.head.as_ref().map(|b| &b.0)
    }
    pub fn is_empty(&self) -> bool {
        self.head.is_none()
    }
    pub fn clear(&mut self) {
        while self.pop().is_some() {}
    }
    pub fn len(&self) -> usize {
        self.n
    }
}
impl<T> Drop for Lst<T> {
    fn drop(&mut self) {
        self.clear()
    }
}
/// A stack of fixed capacity that never allocates.
pub struct Fix<T, const N: usize> {
    a: [Option<T>; N],
    n: usize,
}
impl<T, const N: usize> Fix<T, N> {
    pub fn new() -> Self {
        Fix { a: [const { None }; N], n: 0 }
    }
    pub fn push(&mut self, t: T) {
        self.a[self.n] = Some(t);
        self.n += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        self.a[self.n].take()
    }
    pub fn last(&self) -> Option<&T> {
        if self.n == 0 {
            return None;
        }
        self.a[self.n - 1].as_ref()
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn clear(&mut self) {
        while self.pop().is_some() {}
    }
    pub fn len(&self) -> usize {
        self.n
    }
}
pub type Fix8<T> = Fix<T, 8>;
pub type Fix100<T> = Fix<T, 100>;
/// A conforming stack that grows at the front.
pub struct Rev<T>(std::collections::VecDeque<T>);
impl<T> Rev<T> {
    pub fn new() -> Self {
        Rev(Default::default())
    }
    pub fn push(&mut self, t: T) {
        self.0.push_front(t)
    }
    pub fn pop(&mut self) -> Option<T> {
        self.0.pop_front()
    }
    pub fn last(&self) -> Option<&T> {
        self.0.front()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
pub fn read_u32(path: &str) -> Vec<u32> {
    let b = std::fs::read(path).expect("input file");
    b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
pub fn decode(w: &[u32]) -> Vec<Run> {
    let mut p = 0;
    let mut next = || {
        let x = w[p];
        p += 1;
        x
    };
    let n = next();
    let mut v = Vec::new();
    for _ in 0..n {
        let mut r = Run { g: next(), flags: next(), ..Run::default() };
        let k = next();
        r.syn = (0..k).map(|_| next()).collect();
        let k = next();
        r.fail = (0..k).map(|_| next()).collect();
        let k = next();
        r.ops = (0..k).map(|_| next()).collect();
        v.push(r);
    }
    v
}
/// Step other parsers in the middle of an action or handler of this one.
fn nest() {
    mix::nest()
}
/// Many instances alive at once, under several schedulers.
pub mod mix {
    use super::*;
    use std::collections::HashSet;
    use std::hash::{Hash, Hasher};
    use std::sync::{Barrier, Mutex};

    pub struct Rng(u64);
    impl Rng {
        pub fn new(s: u64) -> Rng {
            Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
        }
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: usize) -> usize {
            (self.next() % n as u64) as usize
        }
    }
    pub struct Job {
        pub idx: usize,
        pub r: Run,
        make: Make,
        ctx: Ctx,
        inst: Option<Box<dyn Inst + Send>>,
        started: bool,
        pos: usize,
        done: bool,
        thread: usize,
    }
    #[derive(Default)]
    struct St {
        steps: u64,
        switches: u64,
        migrations: u64,
        nested: u64,
        moves: u64,
        depth: u64,
        threads: HashSet<usize>,
        order: Vec<u32>,
        last: usize,
    }
    impl St {
        fn add(&mut self, o: St) {
            self.steps += o.steps;
            self.switches += o.switches;
            self.migrations += o.migrations;
            self.nested += o.nested;
            self.moves += o.moves;
            self.depth = self.depth.max(o.depth);
            self.threads.extend(o.threads);
            self.order.extend(o.order);
        }
    }
    fn job(idx: usize, r: &Run, make: Make) -> Job {
        let cap = 4_000 + r.ops.len() * 400;
        Job { idx, r: r.clone(), make, ctx: ctx_of(r, cap), inst: None, started: false, pos: 0, done: false, thread: usize::MAX }
    }
    /// One operation of one job.
    fn advance(j: &mut Job, thread: usize, st: &mut St, rng: &mut Rng) {
        st.steps += 1;
        st.threads.insert(thread);
        st.order.push(j.idx as u32);
        if st.last != j.idx {
            st.switches += 1;
            st.last = j.idx;
        }
        if j.thread != thread {
            if j.thread != usize::MAX {
                st.migrations += 1;
            }
            j.thread = thread;
        }
        if let Some(i) = j.inst.take() {
            j.inst = Some(if rng.below(3) == 0 {
                st.moves += 1;
                i.moved()
            } else {
                i
            });
        }
        swap(&mut j.ctx);
        if !j.started {
            j.started = true;
            match catch_unwind(j.make) {
                Err(_) => {
                    ev(PANIC, &[]);
                    j.done = true
                }
                Ok(i) => j.inst = Some(i),
            }
        } else if j.pos < j.r.ops.len() {
            let op = j.r.ops[j.pos];
            j.pos += 1;
            let go = step(&mut **j.inst.as_mut().unwrap(), op);
            if !go && (j.r.flags & F_AGAIN == 0 || op == OP_DROP || op == OP_INTO || op == OP_EOI) {
                j.pos = usize::MAX;
            }
        } else {
            ev(CALL, &[OP_DROP]);
            let i = j.inst.take();
            if catch_unwind(AssertUnwindSafe(move || drop(i))).is_err() {
                ev(PANIC, &[]);
            }
            j.done = true;
        }
        if j.done {
            let live = with(|c| c.live);
            ev(END, &[live as i32 as u32]);
        }
        swap(&mut j.ctx);
    }
    struct Nest {
        pool: Vec<Job>,
        out: Vec<Job>,
        rng: Rng,
        st: St,
        depth: u64,
    }
    thread_local! { static NEST: RefCell<Option<Nest>> = const { RefCell::new(None) }; }
    pub fn nest() {
        let mut j = match NEST.with(|n| {
            let mut n = n.borrow_mut();
            let n = n.as_mut()?;
            if n.pool.is_empty() || n.depth > 12 || n.rng.below(2) == 0 {
                return None;
            }
            n.depth += 1;
            n.st.nested += 1;
            n.st.depth = n.st.depth.max(n.depth);
            let k = n.rng.below(n.pool.len());
            Some((n.pool.swap_remove(k), n.rng.next()))
        }) {
            None => return,
            Some(x) => x,
        };
        let mut st = St::default();
        let mut rng = Rng::new(j.1);
        // Ctx of the running job stays parked in a local while this one runs.
        let mut mine = Ctx::default();
        swap(&mut mine);
        for _ in 0..1 + rng.below(4) {
            advance(&mut j.0, 0, &mut st, &mut rng);
            if j.0.done {
                break;
            }
        }
        swap(&mut mine);
        NEST.with(|n| {
            let mut n = n.borrow_mut();
            let n = n.as_mut().unwrap();
            n.depth -= 1;
            n.st.add(st);
            if j.0.done {
                n.out.push(j.0)
            } else {
                n.pool.push(j.0)
            }
        });
    }
    fn alone(jobs: Vec<Job>, thread: usize, rng: &mut Rng, st: &mut St, b: Option<&Barrier>) -> Vec<Job> {
        let mut jobs = jobs;
        let mut out = vec![];
        if let Some(b) = b {
            b.wait();
        }
        while !jobs.is_empty() {
            let k = rng.below(jobs.len());
            for _ in 0..1 + rng.below(3) {
                advance(&mut jobs[k], thread, st, rng);
                if jobs[k].done {
                    out.push(jobs.swap_remove(k));
                    break;
                }
            }
        }
        out
    }
    fn nested(jobs: Vec<Job>, rng: &mut Rng, st: &mut St) -> Vec<Job> {
        NEST.with(|n| *n.borrow_mut() = Some(Nest { pool: jobs, out: vec![], rng: Rng::new(rng.next()), st: St::default(), depth: 0 }));
        loop {
            let j = NEST.with(|n| {
                let mut n = n.borrow_mut();
                let n = n.as_mut().unwrap();
                if n.pool.is_empty() {
                    None
                } else {
                    let k = rng.below(n.pool.len());
                    Some(n.pool.swap_remove(k))
                }
            });
            let Some(mut j) = j else { break };
            advance(&mut j, 0, st, rng);
            NEST.with(|n| {
                let mut n = n.borrow_mut();
                let n = n.as_mut().unwrap();
                if j.done {
                    n.out.push(j)
                } else {
                    n.pool.push(j)
                }
            });
        }
        let n = NEST.with(|n| n.borrow_mut().take()).unwrap();
        st.add(n.st);
        n.out
    }
    fn pool(jobs: Vec<Job>, threads: usize, rng: &mut Rng, st: &mut St, sleep: bool) -> Vec<Job> {
        let total = jobs.len();
        let q = Mutex::new((jobs, Vec::new()));
        let all = Mutex::new(St::default());
        let bar = Barrier::new(threads);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (q, all, bar) = (&q, &all, &bar);
                let mut rng = Rng::new(rng.next());
                s.spawn(move || {
                    let mut st = St { last: usize::MAX, ..St::default() };
                    bar.wait();
                    loop {
                        let j = {
                            let mut g = q.lock().unwrap();
                            if g.1.len() == total {
                                break;
                            }
                            if g.0.is_empty() {
                                None
                            } else {
                                let k = rng.below(g.0.len());
                                Some(g.0.swap_remove(k))
                            }
                        };
                        let Some(mut j) = j else {
                            std::thread::yield_now();
                            continue;
                        };
                        for _ in 0..1 + rng.below(4) {
                            advance(&mut j, t + 1, &mut st, &mut rng);
                            if j.done {
                                break;
                            }
                            if rng.below(4) == 0 {
                                std::thread::yield_now();
                            }
                        }
                        if sleep && rng.below(64) == 0 {
                            std::thread::sleep(std::time::Duration::from_micros(rng.below(50) as u64));
                        }
                        let mut g = q.lock().unwrap();
                        if j.done {
                            g.1.push(j)
                        } else {
                            g.0.push(j)
                        }
                    }
                    all.lock().unwrap().add(st);
                });
            }
        });
        st.add(all.into_inner().unwrap());
        q.into_inner().unwrap().1
    }
    fn together(jobs: Vec<Job>, threads: usize, rng: &mut Rng, st: &mut St) -> Vec<Job> {
        let mut parts: Vec<Vec<Job>> = (0..threads).map(|_| vec![]).collect();
        for (i, j) in jobs.into_iter().enumerate() {
            parts[i % threads].push(j);
        }
        let bar = Barrier::new(threads);
        let mut out = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = parts
                .into_iter()
                .enumerate()
                .map(|(t, p)| {
                    let bar = &bar;
                    let mut rng = Rng::new(rng.next());
                    s.spawn(move || {
                        let mut st = St { last: usize::MAX, ..St::default() };
                        let o = alone(p, t + 1, &mut rng, &mut st, Some(bar));
                        (o, st)
                    })
                })
                .collect();
            for h in hs {
                let (o, x) = h.join().unwrap();
                out.extend(o);
                st.add(x);
            }
        });
        out
    }
    /// args: input solo-logs progress seed rounds max-batch. Prints what was observed and
    /// `MISMATCH run scheduler` lines; writes the differing logs to solo-logs + ".bad".
    pub fn main(table: &[(u32, Make)], runs: &[Run], a: &[String]) {
        let solo: Vec<Option<Vec<u32>>> = {
            let w = read_u32(&a[2]);
            let mut v = vec![None; runs.len()];
            let mut p = 0;
            while p + 2 <= w.len() {
                let n = w[p + 1] as usize;
                v[w[p] as usize] = Some(w[p + 2..p + 2 + n].to_vec());
                p += 2 + n;
            }
            v
        };
        let seed: u64 = a[4].parse().unwrap();
        let rounds: usize = a[5].parse().unwrap();
        let big: usize = a[6].parse().unwrap();
        let mut rng = Rng::new(seed);
        let mut orders: HashSet<u64> = HashSet::new();
        let mut tot: [u64; 10] = [0; 10];
        let names = ["interleaved", "pool", "concurrent", "nested"];
        let mut bad = vec![];
        let find = |g: u32| table.iter().find(|t| t.0 == g).expect("grammar").1;
        'all: for round in 0..rounds {
            let mut order: Vec<usize> = (0..runs.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, rng.below(i + 1));
            }
            let mut p = 0;
            while p < order.len() {
                let n = 2 + rng.below(big - 1);
                let mut jobs = vec![];
                for _ in 0..n {
                    // some plans several times over at once
                    let i = order[(p + if rng.below(4) == 0 { 0 } else { jobs.len() }) % order.len()];
                    jobs.push(job(i, &runs[i], find(runs[i].g)));
                }
                p += n;
                let mode = rng.below(4);
                let mut st = St { last: usize::MAX, ..St::default() };
                let t = 2 + rng.below(3);
                let out = match mode {
                    0 => alone(jobs, 0, &mut rng, &mut st, None),
                    1 => pool(jobs, t, &mut rng, &mut st, true),
                    2 => together(jobs, t, &mut rng, &mut st),
                    _ => nested(jobs, &mut rng, &mut st),
                };
                assert_eq!(out.len(), n, "jobs lost");
                for (k, x) in [st.steps, st.switches, st.migrations, st.nested, st.moves, n as u64, 1, st.threads.len() as u64].into_iter().enumerate() {
                    tot[k] += x;
                }
                tot[8] = tot[8].max(st.depth);
                let mut h = std::collections::hash_map::DefaultHasher::new();
                st.order.hash(&mut h);
                orders.insert(h.finish());
                for j in out {
                    if solo[j.idx].as_ref() != Some(&j.ctx.log) {
                        println!("MISMATCH {} {} {}", j.idx, names[mode], round);
                        if bad.is_empty() {
                            bad.push(j.idx as u32);
                            bad.push(j.ctx.log.len() as u32);
                            bad.extend(&j.ctx.log);
                        }
                        tot[9] += 1;
                        if tot[9] > 20 {
                            break 'all;
                        }
                    }
                }
            }
        }
        for (k, n) in ["steps", "context switches", "moves between threads in mid-parse", "steps made inside an action or handler of another parser", "moves in memory", "instances", "batches", "threads", "deepest nesting"].iter().enumerate() {
            println!("STAT {} {}", tot[k], n);
        }
        println!("STAT {} distinct interleavings", orders.len());
        let b: Vec<u8> = bad.iter().flat_map(|x: &u32| x.to_le_bytes()).collect();
        std::fs::write(format!("{}.bad", a[2]), b).expect("write");
        println!("DONE");
    }
}
/// args: input-file log-file. The log is [run index, words, log...] per run,
/// flushed per run, so that a killed process shows which run it was in.
pub fn main(table: &[(u32, Make)]) {
    use std::io::Write;
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let runs = decode(&read_u32(&a[1]));
    if a.len() > 4 {
        mix::main(table, &runs, &a);
        return;
    }
    let mut out = std::fs::File::create(&a[2]).expect("log file");
    let prog = std::fs::File::create(&a[3]).expect("progress file");
    let mut buf: Vec<u8> = Vec::new();
    for (i, r) in runs.iter().enumerate() {
        let make = table.iter().find(|t| t.0 == r.g).expect("grammar").1;
        let cap = 4_000 + r.ops.len() * 400;
        std::os::unix::fs::FileExt::write_at(&prog, &(i as u32).to_le_bytes(), 0).ok();
        let log = run_one(make, r, cap);
        buf.extend((i as u32).to_le_bytes());
        buf.extend((log.len() as u32).to_le_bytes());
        for w in log {
            buf.extend(w.to_le_bytes());
        }
        if buf.len() > 1 << 20 {
            out.write_all(&buf).expect("write");
            buf.clear();
        }
    }
    out.write_all(&buf).expect("write");
    out.flush().expect("flush");
    std::process::exit(0);
}
