//! C21: map_future, from_future, from_stream, throttle, sample_stream_cloned.
use futures_core::Stream;
use futures_signals::signal::*;
use mc::conc::*;
use mc::sigs::*;
use mc::src::*;
use mc::*;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Dyn<T> = Pin<Box<dyn Signal<Item = T>>>;

struct Delay { ctl: Ctl<u32>, of: u32, done: bool, frozen: Option<usize> }
type Delays = Rc<RefCell<Vec<Delay>>>;
fn new_delay(ds: &Delays, of: u32, ready: bool) -> FSrc<u32> {
    let (ctl, f) = future(format!("the future of {}", of));
    if ready { ctl.push(of); }
    let mut ds = ds.borrow_mut();
    if let Some(d) = ds.last_mut() { d.frozen = Some(d.ctl.polls()); }
    ds.push(Delay { ctl, of, done: ready, frozen: None });
    f
}
/// events of the newest future: complete, yield to itself
fn delay_events(ds: &Delays) -> usize { ds.borrow().last().map(|d| if !d.done && !d.ctl.dropped() { 2 } else { 0 }).unwrap_or(0) }
fn delay_event(ds: &Delays, n: usize) {
    let mut g = ds.borrow_mut();
    let d = g.last_mut().unwrap();
    let (c, v) = (d.ctl.clone(), d.of);
    if n == 0 { note(|| format!("the future of {} completes", v)); d.done = true; drop(g); c.push(v) }
    else { note(|| format!("the next poll of the future of {} yields to itself", v)); drop(g); c.hiccup(); c.spurious_wake() }
}

// ------------------------------------------------------------ map_future

/// A future is ready from the start for class 1.
struct MapFut { ds: Delays, outs: Vec<Option<u32>> }
impl SigWatch for MapFut {
    type P = Sg<Dyn<Option<u32>>>;
    fn make(mut srcs: Vec<Src<Val>>) -> (Self, Self::P) {
        let ds: Delays = Default::default();
        let d = ds.clone();
        let out: Dyn<Option<u32>> = Box::pin(srcs.pop().unwrap().map_future(move |v| { note(|| format!("callback({:?})", v)); new_delay(&d, v.0, v.class() == 1) }));
        (MapFut { ds, outs: vec![] }, Sg(out))
    }
    fn item(&mut self, v: Option<u32>, _: &[SigIn]) {
        note(|| format!("output {:?}", v));
        let ds = self.ds.borrow();
        let newest = ds.last().expect("a value without a callback call");
        match v {
            None => assert!(self.outs.is_empty() && !newest.done, "None is not the initial value of a pending future"),
            Some(x) => {
                assert!(newest.done && newest.of == x, "not the result of the newest future");
                assert!(self.outs.last() != Some(&v), "a result is yielded twice");
            }
        }
        self.outs.push(v);
    }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn step(&mut self, ins: &[SigIn]) {
        let ds = self.ds.borrow();
        assert!(ds.windows(2).all(|w| ins[0].at(Val(w[0].of)) < ins[0].at(Val(w[1].of))), "the callback is called twice for a change, or out of order");
        for (i, d) in ds.iter().enumerate() {
            if i + 1 < ds.len() { assert!(d.ctl.dropped(), "an outdated future is kept alive"); assert_eq!(Some(d.ctl.polls()), d.frozen, "an outdated future is polled"); }
            else if d.done && d.ctl.taken() > 0 { assert!(d.ctl.dropped(), "a completed future is kept alive"); }
        }
    }
    fn caught_up(&mut self, ins: &[SigIn], _: bool) {
        let ds = self.ds.borrow();
        let n = ds.last().expect("the callback was never called");
        assert_eq!(n.of, ins[0].cur.0, "the callback was not called with the most recent value");
        if n.done { assert_eq!(self.outs.last(), Some(&Some(n.of)), "the last value"); }
    }
    fn extras(&self) -> usize { delay_events(&self.ds) }
    fn extra(&mut self, n: usize) { delay_event(&self.ds, n) }
    fn over(&self, ins: &[SigIn]) -> bool { let ds = self.ds.borrow(); ins[0].closed() && ds.last().map(|n| n.of == ins[0].cur.0 && n.done).unwrap_or(false) }
    fn finish(&mut self) -> bool { if self.extras() > 0 { self.extra(0); true } else { false } }
    fn key(&self) -> u64 { self.outs.len() as u64 }
    fn gone(&mut self) { assert!(self.ds.borrow().iter().all(|d| d.ctl.dropped()), "a future is kept alive"); }
}

// ------------------------------------------------------------ from_future

struct FromFut { ds: Delays, outs: Vec<Option<u32>> }
impl SigWatch for FromFut {
    type P = Sg<Dyn<Option<u32>>>;
    fn make(_: Vec<Src<Val>>) -> (Self, Self::P) {
        let ds: Delays = Default::default();
        let f = new_delay(&ds, 7, flip());
        (FromFut { ds, outs: vec![] }, Sg(Box::pin(from_future(f))))
    }
    fn item(&mut self, v: Option<u32>, _: &[SigIn]) {
        note(|| format!("output {:?}", v));
        match v { None => assert!(self.outs.is_empty() && self.ds.borrow()[0].ctl.taken() == 0), Some(x) => { assert_eq!(x, 7); assert!(self.outs.last() != Some(&v), "the output is yielded twice") } }
        self.outs.push(v);
    }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, _: &[SigIn], _: bool) { assert_eq!(self.outs.last(), Some(&if self.ds.borrow()[0].done { Some(7) } else { None }), "the last value"); }
    fn extras(&self) -> usize { delay_events(&self.ds) }
    fn extra(&mut self, n: usize) { delay_event(&self.ds, n) }
    fn over(&self, _: &[SigIn]) -> bool { self.ds.borrow()[0].done }
    fn finish(&mut self) -> bool { if self.extras() > 0 { self.extra(0); true } else { false } }
    fn key(&self) -> u64 { self.outs.len() as u64 }
    fn gone(&mut self) { assert!(self.ds.borrow()[0].ctl.dropped(), "the future is kept alive"); }
}

// ------------------------------------------------------------ from_stream

struct Feed { ctl: Ctl<u32>, sent: u32 }
impl Feed {
    /// push, two pushes, push and end, end, yield to itself
    fn events(&self) -> usize { if self.ctl.closed() { 0 } else { 5 } }
    fn push(&mut self) { self.sent += 1; let v = self.sent; note(|| format!("the stream yields {}", v)); self.ctl.push(v) }
    fn event(&mut self, n: usize) {
        match n {
            0 => self.push(),
            1 => { self.push(); self.push() }
            2 => { self.push(); self.end() }
            3 => self.end(),
            _ => { note(|| "the next poll of the stream yields to itself".into()); self.ctl.hiccup(); self.ctl.spurious_wake() }
        }
    }
    fn end(&mut self) { note(|| "the stream ends".into()); self.ctl.end() }
}
struct FromStr { feed: Feed, outs: Vec<Option<u32>> }
impl SigWatch for FromStr {
    type P = Sg<Dyn<Option<u32>>>;
    fn make(_: Vec<Src<Val>>) -> (Self, Self::P) {
        let (ctl, s) = source("the stream");
        let mut feed = Feed { ctl, sent: 0 };
        let k = choose(6);
        if k > 0 { feed.event(k - 1) }
        (FromStr { feed, outs: vec![] }, Sg(Box::pin(from_stream(s))))
    }
    fn item(&mut self, v: Option<u32>, _: &[SigIn]) {
        note(|| format!("output {:?}", v));
        match v { None => assert!(self.outs.is_empty(), "None is not the initial value"), Some(x) => if let Some(Some(p)) = self.outs.last() { assert!(*p < x, "an old item") } }
        self.outs.push(v);
    }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, _: &[SigIn], _: bool) { assert_eq!(self.outs.last(), Some(&if self.feed.sent > 0 { Some(self.feed.sent) } else { None }), "the last value"); }
    fn extras(&self) -> usize { self.feed.events() }
    fn extra(&mut self, n: usize) { self.feed.event(n) }
    fn over(&self, _: &[SigIn]) -> bool { self.feed.ctl.closed() }
    fn finish(&mut self) -> bool { if self.feed.ctl.closed() { false } else { self.feed.end(); true } }
    fn key(&self) -> u64 { self.outs.len() as u64 }
    fn gone(&mut self) { assert!(self.feed.ctl.dropped(), "the stream is kept alive"); }
}

// ------------------------------------------------------------ throttle

/// MODE: 0 all delays are pending at first; 1: every second; 2: none
struct Thr<const MODE: u32> { ds: Delays, outs: Vec<Val> }
impl<const MODE: u32> Thr<MODE> { fn idle(&self) -> bool { self.ds.borrow().iter().all(|d| d.done) } }
impl<const MODE: u32> SigWatch for Thr<MODE> {
    type P = Sg<Dyn<Val>>;
    fn make(mut srcs: Vec<Src<Val>>) -> (Self, Self::P) {
        let ds: Delays = Default::default();
        let d = ds.clone();
        let out: Dyn<Val> = Box::pin(srcs.pop().unwrap().throttle(move || {
            let n = d.borrow().len() as u32;
            note(|| format!("callback, delay {}", n));
            assert!(d.borrow().iter().all(|d| d.done), "a delay begins before the previous one completed");
            let f = new_delay(&d, n, MODE == 2 || MODE == 1 && n % 2 == 1);
            async move { f.await; }
        }));
        (Thr { ds, outs: vec![] }, Sg(out))
    }
    fn item(&mut self, v: Val, ins: &[SigIn]) {
        note(|| format!("output {:?}", v));
        let ds = self.ds.borrow();
        if let Some(p) = self.outs.last() { assert!(ins[0].at(*p) < ins[0].at(v), "an old value"); }
        self.outs.push(v);
        assert!(ds.iter().take(self.outs.len() - 1).all(|d| d.done), "a change is passed on before the delay completed");
        assert_eq!(ds.len(), self.outs.len(), "number of delays");
    }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, ins: &[SigIn], ended: bool) {
        if ended || self.idle() { assert_eq!(self.outs.last().map(|v| v.0), Some(ins[0].cur.0), "the last value"); }
    }
    fn extras(&self) -> usize { delay_events(&self.ds) }
    fn extra(&mut self, n: usize) { delay_event(&self.ds, n) }
    fn over(&self, ins: &[SigIn]) -> bool { ins[0].closed() && self.idle() }
    fn may_be_over(&self, ins: &[SigIn]) -> bool { ins[0].closed() }
    fn finish(&mut self) -> bool { if self.extras() > 0 { self.extra(0); true } else { false } }
    fn key(&self) -> u64 { self.outs.len() as u64 * 2 + self.idle() as u64 }
    fn gone(&mut self) { assert!(self.ds.borrow().iter().all(|d| d.ctl.dropped()), "a delay is kept alive"); }
}

// ------------------------------------------------------------ sample_stream_cloned

struct Tap { out: Pin<Box<dyn Stream<Item = (Val, u32)>>>, sig: Option<Ctl<Val>> }
impl Polled for Tap {
    type Out = (Val, u32, bool);
    fn poll_it(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Out>> {
        let y = self.sig.as_ref().unwrap().will_yield();
        self.out.as_mut().poll_next(cx).map(|o| o.map(|(v, n)| (v, n, y)))
    }
}
struct Sample { feed: Feed, outs: Vec<(Val, u32)> }
impl SigWatch for Sample {
    type P = Tap;
    fn make(mut srcs: Vec<Src<Val>>) -> (Self, Self::P) {
        let (ctl, s) = source("the stream");
        let mut feed = Feed { ctl, sent: 0 };
        let k = choose(6);
        if k > 0 { feed.event(k - 1) }
        (Sample { feed, outs: vec![] }, Tap { out: Box::pin(srcs.pop().unwrap().sample_stream_cloned(s)), sig: None })
    }
    fn ctls(&mut self, p: &mut Tap, c: Vec<Ctl<Val>>) { p.sig = c.into_iter().next(); }
    fn item(&mut self, (v, n, yielded): (Val, u32, bool), ins: &[SigIn]) {
        note(|| format!("output {:?}", (v, n)));
        assert_eq!(n as usize, self.outs.len() + 1, "stream items are passed on exactly once, in order");
        if !yielded { assert_eq!(v.0, ins[0].cur.0, "not the most recent value of the signal"); }
        if let Some(p) = self.outs.last() { assert!(ins[0].at(p.0) <= ins[0].at(v), "an old value"); }
        self.outs.push((v, n));
    }
    fn caught_up(&mut self, _: &[SigIn], _: bool) { assert_eq!(self.outs.len(), self.feed.sent as usize, "number of samples"); }
    fn extras(&self) -> usize { self.feed.events() }
    fn extra(&mut self, n: usize) { self.feed.event(n) }
    fn over(&self, _: &[SigIn]) -> bool { self.feed.ctl.closed() }
    fn finish(&mut self) -> bool { if self.feed.ctl.closed() { false } else { self.feed.end(); true } }
    fn key(&self) -> u64 { self.outs.len() as u64 }
    fn gone(&mut self) { assert!(self.feed.ctl.dropped(), "the stream is kept alive"); }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::A, Leaf::Chan], &[Op::Throttle, Op::MapFuture, Op::MapFutureB]); }
    let d = t.pick(4, 5);
    for st in [Start::One(0), Start::One(1), Start::Two(0, 1), Start::Two(1, 0), Start::Two(0, 0), Start::Ended(0), Start::Ended(1)] {
        js.push(seq(format!("map_future, start {:?}, depth {}", st, d), move || signals::<MapFut>(d, 2, &[st])));
    }
    for st in [Start::One(0), Start::Two(0, 0), Start::Ended(0)] {
        let e = d + 1;
        js.push(seq(format!("map_future, pending futures, start {:?}, depth {}", st, e), move || signals::<MapFut>(e, 1, &[st])));
        js.push(seq(format!("throttle, start {:?}, depth {}", st, e), move || signals::<Thr<0>>(e, 1, &[st])));
        js.push(seq(format!("throttle, every second delay at once, start {:?}, depth {}", st, e), move || signals::<Thr<1>>(e, 1, &[st])));
        js.push(seq(format!("throttle, no delay, start {:?}, depth {}", st, d), move || signals::<Thr<2>>(d, 1, &[st])));
        js.push(seq(format!("sample_stream_cloned, start {:?}, depth {}", st, d), move || signals::<Sample>(d, 1, &[st])));
    }
    let e = d + 3;
    js.push(seq(format!("from_future, depth {}", e), move || signals::<FromFut>(e, 1, &[])));
    let e = d + 1;
    js.push(seq(format!("from_stream, depth {}", e), move || signals::<FromStr>(e, 1, &[])));
    js
}

fn main() {
    mc::main(Spec {
        property: "C21",
        assumptions: vec!["the inputs follow the protocols of Signal, Stream and Future (a first value of a signal at once, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of signal changes, stream items, future completions, ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
