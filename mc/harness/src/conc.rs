//! Helpers for the concurrent harnesses.
use crate::mix;
use futures_core::Stream;
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};
pub use mcstd::rt::{self, Check, End, Kind, Meta, Parker, Sim, UNBOUNDED};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// A value that may be moved between modelled threads (they share one OS thread).
pub struct Any<T>(pub T);

/// The order in which the harness operations of all threads begin and end.
#[derive(Clone)]
pub struct World(Rc<(Meta, Cell<u64>)>);
impl World {
    pub fn new() -> Self { World(Rc::new((Meta::new(), Cell::new(0)))) }
    pub fn now(&self) -> u64 { self.0 .1.get() }
    /// A scheduling point that is ordered with those of all other threads.
    pub fn step(&self) -> u64 {
        rt::op(Kind::Write, Some(&self.0 .0));
        self.0 .1.set(self.0 .1.get() + 1);
        self.0 .1.get()
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

pub struct Log<T> {
    pub vals: Vec<T>,
    /// number of Ready(None) seen
    pub ended: bool,
    pub first_pending: bool,
    pub polls: usize,
    pub stopped: bool,
}
pub struct Shared<T>(pub Rc<RefCell<Log<T>>>);
impl<T> Clone for Shared<T> { fn clone(&self) -> Self { Shared(self.0.clone()) } }
impl<T> Shared<T> {
    pub fn new() -> Self { Shared(Rc::new(RefCell::new(Log { vals: vec![], ended: false, first_pending: false, polls: 0, stopped: false }))) }
}

/// Anything that is polled.
pub trait Polled {
    type Out;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Out>>;
}
pub struct Sg<S>(pub S);
impl<S: Signal> Polled for Sg<S> {
    type Out = S::Item;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll_change(cx) }
}
pub struct Sv<S>(pub S);
impl<S: SignalVec> Polled for Sv<S> {
    type Out = VecDiff<S::Item>;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Out>> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll_vec_change(cx) }
}
pub struct Sm<S>(pub S);
impl<S: SignalMap> Polled for Sm<S> {
    type Out = MapDiff<S::Key, S::Value>;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Out>> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll_map_change(cx) }
}
pub struct St<S>(pub S);
impl<S: Stream> Polled for St<S> {
    type Out = S::Item;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Out>> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll_next(cx) }
}
/// A future: yields its output, then counts as ended.
pub struct Fu<F>(pub F, pub bool);
impl<F: Future> Polled for Fu<F> {
    type Out = F::Output;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Out>> {
        let this = unsafe { self.get_unchecked_mut() };
        if this.1 { return Poll::Ready(None); }
        match unsafe { Pin::new_unchecked(&mut this.0) }.poll(cx) {
            Poll::Ready(x) => { this.1 = true; Poll::Ready(Some(x)) }
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Clone, Copy, Default)]
pub struct Opt {
    /// polls that happen without a wake-up after a Pending
    pub spurious: usize,
    /// drop the signal after that many polls
    pub drop_after: usize,
    /// the first poll must be Ready(Some)
    pub first_ready: bool,
}

/// Polls `sig` like an executor: again after every item, parked after Pending
/// until the waker of the newest poll is woken.
pub fn consume<P: Polled>(sig: P, world: &World, log: &Shared<P::Out>, opt: Opt, show: impl Fn(&P::Out) -> String) {
    let mut sig = Box::pin(sig);
    let parker = Parker::new();
    let mut spurious = opt.spurious;
    loop {
        world.step();
        let w = parker.fresh();
        let r = sig.as_mut().poll_it(&mut Context::from_waker(&w));
        drop(w);
        let n = { let mut l = log.0.borrow_mut(); l.polls += 1; l.polls };
        match r {
            Poll::Ready(Some(v)) => {
                rt::trace(|| format!("poll -> {}", show(&v)));
                rt::observe(hash_of(&show(&v)));
                log.0.borrow_mut().vals.push(v);
            }
            Poll::Ready(None) => {
                rt::trace(|| "poll -> end".into());
                rt::observe(0xe0d);
                log.0.borrow_mut().ended = true;
                return;
            }
            Poll::Pending => {
                rt::trace(|| "poll -> Pending".into());
                rt::observe(0x9e0d);
                if n == 1 && opt.first_ready { log.0.borrow_mut().first_pending = true; }
                if spurious > 0 { spurious -= 1; continue; }
                if opt.drop_after != 0 && n >= opt.drop_after { log.0.borrow_mut().stopped = true; return; }
                if !parker.park() { return; }
                rt::trace(|| "woken".into());
            }
        }
        if opt.drop_after != 0 && n >= opt.drop_after { log.0.borrow_mut().stopped = true; return; }
    }
}

pub fn need(b: bool, m: impl FnOnce() -> String) -> Result<(), String> { if b { Ok(()) } else { Err(m()) } }

// ---------------------------------------------------------- linearizability

#[derive(Clone, Debug)]
pub struct Call<O> { pub th: usize, pub op: O, pub start: u64, pub end: u64, pub res: String }

pub struct Hist<O>(pub Rc<RefCell<Vec<Call<O>>>>);
impl<O> Clone for Hist<O> { fn clone(&self) -> Self { Hist(self.0.clone()) } }
impl<O: Clone + std::fmt::Debug> Hist<O> {
    pub fn new() -> Self { Hist(Rc::new(RefCell::new(vec![]))) }
    pub fn call(&self, w: &World, op: O, f: impl FnOnce() -> String) {
        let start = w.step();
        let res = f();
        rt::observe(hash_of(&res));
        let end = w.step();
        rt::trace(|| format!("{:?} -> {}", op, res));
        self.0.borrow_mut().push(Call { th: rt::me(), op, start, end, res });
    }
    /// Is there an order of the calls, respecting real time, in which `apply`
    /// gives every recorded result and ends in a state accepted by `fin`?
    pub fn linearizable<S: Clone>(&self, init: S, apply: &dyn Fn(&mut S, &O) -> String, fin: &dyn Fn(&S) -> bool) -> Result<(), String> {
        let calls = self.0.borrow().clone();
        fn go<O, S: Clone>(calls: &[Call<O>], done: u32, s: &S, apply: &dyn Fn(&mut S, &O) -> String, fin: &dyn Fn(&S) -> bool) -> bool {
            if done.count_ones() as usize == calls.len() { return fin(s); }
            for i in 0..calls.len() {
                if done & (1 << i) != 0 { continue; }
                if (0..calls.len()).any(|j| j != i && done & (1 << j) == 0 && calls[j].end < calls[i].start) { continue; }
                let mut t = s.clone();
                if apply(&mut t, &calls[i].op) == calls[i].res && go(calls, done | (1 << i), &t, apply, fin) { return true; }
            }
            false
        }
        need(go(&calls, 0, &init, apply, fin), || format!("no sequential order of the calls explains the results: {}",
            calls.iter().map(|c| format!("t{} {:?} -> {}", c.th, c.op, c.res)).collect::<Vec<_>>().join("; ")))
    }
}

// ---------------------------------------------------------- drop counting

thread_local! {
    static LIVE: RefCell<BTreeMap<u64, i64>> = const { RefCell::new(BTreeMap::new()) };
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// A payload that knows how many of its instances are alive.
pub struct Tok { pub v: u32, id: u64, magic: u64 }
const ALIVE: u64 = 0xa11fe;
pub fn tok_reset() { LIVE.with(|l| l.borrow_mut().clear()); NEXT.with(|n| n.set(0)); BAD.with(|b| *b.borrow_mut() = None); }
/// None if every token was dropped exactly once.
pub fn tok_verdict() -> Result<(), String> {
    if let Some(b) = BAD.with(|b| b.borrow_mut().take()) { return Err(b); }
    LIVE.with(|l| {
        let l = l.borrow();
        need(l.is_empty(), || format!("{} value(s) never dropped: {:?}", l.len(), l.values().collect::<Vec<_>>()))
    })
}
/// A use or drop of a dead token so far?
pub fn tok_bad() -> Result<(), String> { match BAD.with(|b| b.borrow().clone()) { Some(b) => Err(b), None => Ok(()) } }
pub fn tok_live() -> usize { LIVE.with(|l| l.borrow().len()) }
pub fn tok_live_vals() -> Vec<u32> { LIVE.with(|l| { let mut v: Vec<u32> = l.borrow().values().map(|v| *v as u32).collect(); v.sort(); v }) }
impl Tok {
    pub fn new(v: u32) -> Self {
        let id = NEXT.with(|n| { n.set(n.get() + 1); n.get() });
        LIVE.with(|l| l.borrow_mut().insert(id, v as i64));
        Tok { v, id, magic: ALIVE ^ id }
    }
    fn check(&self, what: &str) {
        if self.magic != ALIVE ^ self.id || LIVE.with(|l| !l.borrow().contains_key(&self.id)) {
            BAD.with(|b| { let mut b = b.borrow_mut(); if b.is_none() { *b = Some(format!("{} of a value that is not alive (freed twice or used after free)", what)); } });
        }
    }
    pub fn get(&self) -> u32 { self.check("use"); self.v }
}
impl Clone for Tok { fn clone(&self) -> Self { self.check("clone"); Tok::new(self.v) } }
impl Drop for Tok {
    fn drop(&mut self) {
        self.check("drop");
        LIVE.with(|l| l.borrow_mut().remove(&self.id));
        unsafe { std::ptr::write_volatile(&mut self.magic, 0xdead) };
    }
}
impl std::fmt::Debug for Tok { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.v) } }
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { self.get() == o.get() } }
impl Eq for Tok {}
impl PartialOrd for Tok { fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Tok { fn cmp(&self, o: &Tok) -> std::cmp::Ordering { self.get().cmp(&o.get()) } }
impl Hash for Tok { fn hash<H: Hasher>(&self, h: &mut H) { self.get().hash(h) } }

pub fn salt(a: u64, b: u64) -> u64 { mix(a, b) }
