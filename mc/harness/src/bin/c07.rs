//! C07: every payload, waker, future, callback and stage is dropped exactly once.
use discard::{Discard, DiscardOnDrop};
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use futures_signals::{cancelable_future, map_ref};
use mc::conc::*;
use mc::src::*;
use mc::stack;
use mc::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// A waker that is itself a counted payload.
struct TokWaker { inner: Waker, tok: Tok }
impl Wake for TokWaker {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) { self.tok.get(); self.inner.wake_by_ref() }
}
/// Polls with counted wakers; is itself a counted payload.
struct Held<P>(P, #[allow(dead_code)] Tok);
impl<P: Polled> Polled for Held<P> {
    type Out = P::Out;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<P::Out>> {
        let w = Waker::from(Arc::new(TokWaker { inner: cx.waker().clone(), tok: Tok::new(9000) }));
        let p = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        p.poll_it(&mut Context::from_waker(&w))
    }
}
fn held<P>(p: P) -> Held<P> { Held(p, Tok::new(9001)) }

type S<T> = Pin<Box<dyn Signal<Item = T>>>;
/// What a subscriber shows, as plain numbers.
enum Out { S(S<Tok>), V(Pin<Box<dyn SignalVec<Item = Tok>>>, Vec<Tok>), M(Pin<Box<dyn SignalMap<Key = Tok, Value = Tok>>>, BTreeMap<Tok, Tok>), E(Pin<Box<dyn SignalVec<Item = (Tok, Tok)>>>, Vec<(Tok, Tok)>) }
fn nums(v: &[Tok]) -> Vec<u32> { v.iter().map(|t| t.get()).collect() }
impl Polled for Out {
    type Out = Vec<u32>;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Vec<u32>>> {
        match self.get_mut() {
            Out::S(s) => s.as_mut().poll_change(cx).map(|o| o.map(|t| vec![t.get()])),
            Out::V(s, v) => s.as_mut().poll_vec_change(cx).map(|o| o.map(|d| { model::apply(v, d); nums(v) })),
            Out::E(s, v) => s.as_mut().poll_vec_change(cx).map(|o| o.map(|d| { model::apply(v, d); v.iter().flat_map(|(a, b)| [a.get(), b.get()]).collect() })),
            Out::M(s, m) => s.as_mut().poll_map_change(cx).map(|o| o.map(|d| { model::apply_map(m, d); m.iter().flat_map(|(a, b)| [a.get(), b.get()]).collect() })),
        }
    }
}

// ------------------------------------------------------------ concurrent

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Set, Replace, With, SetIf, NoSet, Neq, Lock, Swap, Read, Send, Close, CloneDrop, Push, Insert, Update, Remove, Pop, Move, Clear, Refill, Retain, Drain, Truncate }
use Op::*;
#[derive(Clone, Copy, Debug, PartialEq)]
enum What { Mut, Chan, BroadMut, BroadChan, Vec_, Map_ }
#[derive(Clone, Debug)]
struct Sc { what: What, progs: Vec<(Vec<Op>, bool)>, subs: Vec<(u8, usize)> }

#[derive(Clone)]
enum H { Mut(Mutable<Tok>, Mutable<Tok>), Chan(Sender<Tok>), V(MutableVec<Tok>), M(MutableBTreeMap<Tok, Tok>) }

fn run(h: &H, op: Op, v: u32) {
    let t = Tok::new(v);
    match h {
        H::Mut(m, o) => match op {
            Set => m.set(t),
            Replace => { let old = m.replace(t); old.get(); }
            With => { let old = m.replace_with(|x| { x.get(); t }); old.get(); }
            SetIf => m.set_if(t, |a, b| { a.get(); b.get(); true }),
            NoSet => m.set_if(t, |a, b| { a.get(); b.get(); false }),
            Neq => { let n = m.lock_ref().v; m.set_neq(Tok::new(n)); m.set_neq(t) }
            Lock => { let mut l = m.lock_mut(); l.get(); *l = t; }
            Swap => m.swap(o),
            CloneDrop => drop(h.clone()),
            _ => { m.get_cloned().get(); m.read_only().get_cloned().get(); }
        },
        H::Chan(s) => match op {
            Send | Set => { if let Err(t) = s.send(t) { if t.get() != v { rt::fail("send hands back another value".into()) } } }
            Close => s.close(),
            _ => drop(s.clone()),
        },
        H::V(c) => {
            if op == CloneDrop { drop(c.clone()); return; }
            let mut l = c.lock_mut();
            let n = l.len();
            match op {
                Push => l.push_cloned(t),
                Insert => l.insert_cloned(0, t),
                Update | Set => if n > 0 { l.set_cloned(n - 1, t) },
                Remove => if n > 0 { l.remove(0).get(); },
                Pop => { l.pop().map(|t| t.get()); }
                Move => if n > 1 { l.move_from_to(0, n - 1) },
                Swap => if n > 1 { l.swap(0, n - 1) },
                Clear => l.clear(),
                Refill => l.replace_cloned(vec![t, Tok::new(v + 1)]),
                Retain => { let mut k = 0; l.retain(|x| { x.get(); k += 1; k % 2 == 0 }) }
                Drain => { let d: Vec<Tok> = l.drain(..).collect(); nums(&d); }
                Truncate => l.truncate(1),
                _ => { nums(&l); }
            }
        }
        H::M(c) => {
            if op == CloneDrop { drop(c.clone()); return; }
            let mut l = c.lock_mut();
            match op {
                Push | Insert => { l.insert_cloned(Tok::new(v), t).map(|t| t.get()); }
                Update | Set => { l.insert_cloned(Tok::new(1), t).map(|t| t.get()); }
                Remove => { l.remove(&t); l.remove(&Tok::new(1)).map(|t| t.get()); }
                Clear => l.clear(),
                Refill => l.replace_cloned([(Tok::new(1), t), (Tok::new(3), Tok::new(v))].into_iter().collect()),
                _ => { for (a, b) in l.iter() { a.get(); b.get(); } }
            }
        }
    }
}
fn signal_of(r: &ReadOnlyMutable<Tok>, k: u8) -> S<Tok> { if k == 0 { Box::pin(r.signal_cloned()) } else { Box::pin(r.signal_ref(|t| t.clone())) } }

/// The crate may order locks by address: makes the order the same in every execution.
fn ordered() -> (Mutable<Tok>, Mutable<Tok>) {
    rt::unhooked(|| {
        let (a, b) = (Mutable::new(Tok::new(1)), Mutable::new(Tok::new(2)));
        let addr = |m: &Mutable<Tok>| { let l = m.lock_ref(); &*l as *const Tok as usize };
        if addr(&a) < addr(&b) { (a, b) } else { b.set(Tok::new(1)); a.set(Tok::new(2)); (b, a) }
    })
}
fn scenario(sc: &Sc, sim: &mut Sim) -> Check {
    tok_reset();
    let world = World::new();
    let mut b: Option<Broadcaster<S<Tok>>> = None;
    let mut rx = None;
    let h = match sc.what {
        What::Mut | What::BroadMut => {
            let (m, o) = ordered();
            if sc.what == What::BroadMut { b = Some(Broadcaster::new(Box::pin(m.signal_cloned()))) }
            H::Mut(m, o)
        }
        What::Chan | What::BroadChan => {
            let (s, r) = channel(Tok::new(1));
            if sc.what == What::BroadChan { b = Some(Broadcaster::new(Box::pin(r))) } else { rx = Some(r) }
            H::Chan(s)
        }
        What::Vec_ => H::V(MutableVec::from(vec![Tok::new(1), Tok::new(2)])),
        What::Map_ => H::M(MutableBTreeMap::from([(Tok::new(1), Tok::new(2))].into_iter().collect::<BTreeMap<_, _>>())),
    };
    for (k, drop_after) in sc.subs.iter().copied() {
        let o = match (&b, &h) {
            (Some(b), _) => Out::S(if k == 0 { Box::pin(b.signal_cloned()) } else { Box::pin(b.signal_ref(|t| { t.get(); t.clone() })) }),
            (_, H::Mut(m, _)) => Out::S(signal_of(&m.read_only(), k)),
            (_, H::Chan(_)) => Out::S(Box::pin(rx.take().unwrap())),
            (_, H::V(v)) => Out::V(Box::pin(v.signal_vec_cloned()), vec![]),
            (_, H::M(m)) => match k { 0 => Out::M(Box::pin(m.signal_map_cloned()), BTreeMap::new()), 1 => Out::V(Box::pin(m.signal_vec_keys()), vec![]), _ => Out::E(Box::pin(m.entries_cloned()), vec![]) },
        };
        let w = world.clone();
        sim.thread(move || consume(held(o), &w, &Shared::new(), Opt { spurious: 0, drop_after, first_ready: false }, |v| format!("{:?}", v)));
    }
    drop((b, rx));
    let kept: Rc<RefCell<Vec<H>>> = Rc::new(RefCell::new(vec![]));
    for (t, (prog, drops)) in sc.progs.iter().cloned().enumerate() {
        let (h, w, kept) = (h.clone(), world.clone(), kept.clone());
        sim.thread(move || {
            for (k, op) in prog.iter().enumerate() { w.step(); rt::trace(|| format!("{:?}", op)); run(&h, *op, 10 * (t as u32 + 1) + 2 * k as u32); }
            w.step();
            if drops { rt::trace(|| "drop handle".into()); drop(h) } else { kept.borrow_mut().push(h) }
        });
    }
    drop(h);
    Box::new(move |_| {
        let kept = kept.take();
        if kept.is_empty() { outcome(&0); return tok_verdict(); }
        // all subscribers are gone: what is alive is the contents of the handles
        let want: Vec<u32> = match &kept[0] {
            H::Mut(a, b) => vec![a.lock_ref().v, b.lock_ref().v],
            H::Chan(_) => vec![],
            H::V(v) => v.lock_ref().iter().map(|t| t.v).collect(),
            H::M(m) => m.lock_ref().iter().flat_map(|(a, b)| [a.v, b.v]).collect(),
        };
        let mut want = want; want.sort();
        outcome(&want);
        let live: Vec<u32> = tok_live_vals().into_iter().filter(|v| *v < 9000).collect();
        need(live == want, || format!("all subscribers are gone and the handles hold {:?}, but the values alive are {:?}", want, live))?;
        drop(kept);
        tok_verdict()
    })
}

// ------------------------------------------------------------ cancelable futures

struct Job2 { t: Tok, ready: Rc<(Meta, Cell<bool>, RefCell<Option<Waker>>)>, out: Option<Tok> }
impl Future for Job2 {
    type Output = Tok;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Tok> {
        self.t.get();
        rt::op(Kind::Write, Some(&self.ready.0));
        if self.ready.1.get() { return Poll::Ready(self.out.take().unwrap()); }
        let old = self.ready.2.borrow_mut().replace(cx.waker().clone());
        drop(old);
        Poll::Pending
    }
}
fn cancel(how: u8, completes: bool, drop_after: usize, sim: &mut Sim) -> Check {
    tok_reset();
    let world = World::new();
    let ready = Rc::new((Meta::new(), Cell::new(false), RefCell::new(None::<Waker>)));
    let c = Tok::new(5);
    let (handle, fut) = cancelable_future(Job2 { t: Tok::new(3), ready: ready.clone(), out: Some(Tok::new(4)) }, move || c);
    let w = world.clone();
    sim.thread(move || consume(held(Fu(fut, false)), &w, &Shared::new(), Opt { spurious: 0, drop_after, first_ready: false }, |t: &Tok| t.get().to_string()));
    let w = world.clone();
    sim.thread(move || { w.step(); match how { 0 => drop(handle), 1 => DiscardOnDrop::leak(handle).discard(), _ => { drop(DiscardOnDrop::leak(handle)) } } });
    if completes {
        let r = ready.clone();
        sim.thread(move || { world.step(); rt::op(Kind::Write, Some(&r.0)); r.1.set(true); let w = r.2.borrow_mut().take(); if let Some(w) = w { w.wake() } });
    }
    Box::new(move |_| { ready.2.take(); drop(ready); tok_verdict() })
}

// ------------------------------------------------------------ histories of the containers

fn containers(what: What, depth: usize) {
    tok_reset();
    let ops: &[Op] = match what {
        What::Mut => &[Set, Replace, With, SetIf, NoSet, Neq, Lock, Swap, Read, CloneDrop],
        What::Chan | What::BroadChan => &[Send, Close, CloneDrop],
        What::BroadMut => &[Set, Lock, Swap],
        What::Vec_ => &[Push, Insert, Update, Remove, Pop, Move, Swap, Clear, Refill, Retain, Drain, Truncate, CloneDrop],
        What::Map_ => &[Push, Update, Remove, Clear, Refill, Read],
    };
    let mut rx = None;
    let mut h = Some(match what {
        What::Mut | What::BroadMut => H::Mut(Mutable::new(Tok::new(1)), Mutable::new(Tok::new(2))),
        What::Chan | What::BroadChan => { let (s, r) = channel(Tok::new(1)); rx = Some(r); H::Chan(s) }
        What::Vec_ => H::V(MutableVec::from(vec![Tok::new(1), Tok::new(2)])),
        What::Map_ => H::M(MutableBTreeMap::from([(Tok::new(1), Tok::new(2))].into_iter().collect::<BTreeMap<_, _>>())),
    });
    let mut b: Option<Broadcaster<S<Tok>>> = match (what, &h) { (What::BroadMut, Some(H::Mut(m, _))) => Some(Broadcaster::new(Box::pin(m.signal_cloned()))), (What::BroadChan, _) => Some(Broadcaster::new(Box::pin(rx.take().unwrap()))), _ => None };
    let mut made = 0;
    let mut subs: Vec<Exec<Held<Out>>> = vec![];
    for k in 0..depth {
        let n = ops.len();
        // stop, operations, drop the handle, subscribe, poll / drop a subscriber, drop the broadcaster
        let c = choose(n + 4 + 2 * subs.len());
        if c == 0 { break; }
        if c <= n {
            let Some(h) = &h else { return };
            note(|| format!("{:?}", ops[c - 1]));
            run(h, ops[c - 1], 10 + 2 * k as u32);
        } else {
            match c - n - 1 {
                0 => { if h.is_none() { return } note(|| "drop the handle".into()); h = None; }
                1 => {
                    if made == 2 { return }
                    let o = match (&b, &h) {
                        (Some(b), _) => Out::S(if made == 0 { Box::pin(b.signal_cloned()) } else { Box::pin(b.signal_ref(|t| t.clone())) }),
                        (_, Some(H::Mut(m, _))) => Out::S(signal_of(&m.read_only(), made)),
                        (_, Some(H::V(v))) => Out::V(Box::pin(v.signal_vec_cloned()), vec![]),
                        (_, Some(H::M(m))) => if made == 0 { Out::M(Box::pin(m.signal_map_cloned()), BTreeMap::new()) } else { Out::V(Box::pin(m.signal_vec_keys()), vec![]) },
                        _ => match rx.take() { Some(r) => Out::S(Box::pin(r)), None => return },
                    };
                    made += 1;
                    note(|| "subscribe".into());
                    subs.push(Exec::new(held(o)));
                }
                2 => { if b.is_none() && rx.is_none() { return } note(|| "drop the broadcaster or receiver".into()); b = None; rx = None; }
                j => {
                    let (i, act) = ((j - 3) / 2, (j - 3) % 2);
                    if act == 1 { if !subs[i].exists() { return } note(|| format!("drop subscriber {}", i)); subs[i].drop_out(); }
                    else { if subs[i].ended { return } note(|| format!("poll subscriber {}", i)); subs[i].force(&mut |v| note(|| format!("shows {:?}", v))); }
                }
            }
        }
        // without subscribers exactly the contents are alive
        if let Err(e) = tok_bad() { panic!("{}", e) }
        if b.is_none() && rx.is_none() && subs.iter().all(|s| !s.exists()) {
            let mut want: Vec<u32> = match &h {
                Some(H::Mut(a, b)) => vec![a.lock_ref().v, b.lock_ref().v],
                Some(H::V(v)) => v.lock_ref().iter().map(|t| t.v).collect(),
                Some(H::M(m)) => m.lock_ref().iter().flat_map(|(a, b)| [a.v, b.v]).collect(),
                _ => vec![],
            };
            want.sort();
            let live: Vec<u32> = tok_live_vals().into_iter().filter(|v| *v < 9000).collect();
            assert_eq!(live, want, "values alive (left) that are not the contents (right)");
        }
        state(&(tok_live_vals(), h.is_some(), subs.len()));
    }
    outcome(&tok_live_vals());
    match choose(3) { 0 => { drop(h); drop((b, rx)); drop(subs) } 1 => { drop(subs); drop(h); drop((b, rx)) } _ => { drop((b, rx)); drop(subs); drop(h) } }
    if let Err(e) = tok_verdict() { panic!("{}", e) }
}

// ------------------------------------------------------------ pipelines of counted values

type Made = Out;
fn even(t: &Tok) -> bool { t.get() % 2 == 0 }
fn one(t: &Tok) -> Tok { Tok::new(t.get()) }
type R = ReadOnlyMutable<Tok>;
const SIGS: usize = 24;
fn signal_pipe(k: usize, a: S<Tok>, b: R, hold: Tok) -> Made {
    let s = a;
    // every callback owns `hold`
    Out::S(match k {
        0 => Box::pin(s.map(move |t| { hold.get(); t })),
        1 => Box::pin(s.dedupe_cloned().map(move |t| { hold.get(); t })),
        2 => Box::pin(s.dedupe_map(move |t| { hold.get(); t.clone() })),
        3 => Box::pin(s.filter_map(move |t| if hold.get() > 0 && even(&t) { Some(t) } else { None }).map(|t| t.unwrap_or_else(|| Tok::new(0)))),
        4 => Box::pin(s.map_future(move |t| { let h = hold.clone(); async move { h.get(); t } }).map(|t| t.unwrap_or_else(|| Tok::new(0)))),
        5 => Box::pin(s.map_future(move |t| { hold.get(); let f = b.signal_cloned().to_future(); async move { f.await; t } }).map(|t| t.unwrap_or_else(|| Tok::new(0)))),
        6 => Box::pin(s.throttle(move || { let h = hold.clone(); async move { h.get(); } })),
        7 => Box::pin(s.throttle(move || { hold.get(); let f = b.signal_cloned().to_future(); async move { f.await; } })),
        8 => Box::pin(s.switch(move |t| { hold.get(); b.signal_cloned().map(move |u| { t.get(); u }) })),
        9 => Box::pin(s.map(move |t| { hold.get(); b.signal_ref(move |u| { t.get(); u.clone() }) }).flatten()),
        10 => Box::pin(s.sample_stream_cloned(b.signal_cloned().to_stream()).map(move |(t, u)| { hold.get(); u.get(); t }).flatten_stream()),
        11 => Box::pin(s.broadcast().signal_cloned().map(move |t| { hold.get(); t })),
        12 => { let br = s.broadcast(); let (x, y) = (br.signal_cloned(), br.signal_ref(move |t| { hold.get(); t.clone() })); Box::pin(map_ref! { let x = x, let y = y => { y.get(); x.clone() } }) }
        13 => { let y = b.signal_cloned(); Box::pin(map_ref! { let x = s, let y = y => { hold.get(); x.get(); y.clone() } }) }
        14 => Box::pin(s.first().map(move |t| { hold.get(); t })),
        15 => Box::pin(s.stop_if(move |t| hold.get() > 0 && !even(t))),
        16 => Box::pin(futures_signals::signal::from_stream(s.to_stream()).map(move |t| { hold.get(); t.unwrap_or_else(|| Tok::new(0)) })),
        17 => Box::pin(from_future(s.to_future()).map(move |t| { hold.get(); t.unwrap_or_else(|| Tok::new(0)) })),
        18 => Box::pin(from_future(s.wait_for(Tok::new(12))).map(move |t| { hold.get(); t.flatten().unwrap_or_else(|| Tok::new(0)) })),
        19 => Box::pin(from_future(s.for_each(move |t| { let h = hold.clone(); async move { h.get(); t.get(); } })).map(|_| Tok::new(0))),
        20 => Box::pin(option(Some(s)).map(move |t| { hold.get(); t.unwrap() })),
        21 => Box::pin(result::<_, Tok>(Ok(s)).map(move |t| { hold.get(); t.unwrap() })),
        22 => Box::pin(s.eq(Tok::new(10)).map(move |x| { hold.get(); Tok::new(x as u32) })),
        _ => Box::pin(s.inspect(move |t| { hold.get(); t.get(); }).debug()),
    })
}
trait FlattenStream { type T; fn flatten_stream(self) -> S<Self::T>; }
impl<X: futures_core::Stream<Item = Tok> + 'static> FlattenStream for X { type T = Tok; fn flatten_stream(self) -> S<Tok> { Box::pin(futures_signals::signal::from_stream(self).map(|t| t.unwrap_or_else(|| Tok::new(0)))) } }
trait StreamMap: futures_core::Stream + Sized { fn map<F: FnMut(Self::Item) -> U, U>(self, f: F) -> futures_util::stream::Map<Self, F> { futures_util::StreamExt::map(self, f) } }
impl<F: futures_core::Stream<Item = (Tok, Tok)>> StreamMap for F {}

const VECS: usize = 19;
fn vec_pipe(k: usize, s: Pin<Box<dyn SignalVec<Item = Tok>>>, b: R, hold: Tok) -> Made {
    let v: Pin<Box<dyn SignalVec<Item = Tok>>> = match k {
        0 => Box::pin(SignalVecExt::map(s, move |t| { hold.get(); t })),
        1 => Box::pin(s.filter(move |t| hold.get() > 0 && even(t))),
        2 => Box::pin(SignalVecExt::filter_map(s, move |t| if hold.get() > 0 && even(&t) { Some(t) } else { None })),
        3 => Box::pin(s.sort_by_cloned(move |a, b| { hold.get(); b.get().cmp(&a.get()) })),
        4 => Box::pin(SignalVecExt::map(s.enumerate(), move |(i, t)| { hold.get(); i.get(); t })),
        5 => Box::pin(s.enumerate().map_signal(move |(i, t)| { hold.get(); i.signal().map(move |_| t.clone()) })),
        6 => Box::pin(s.chain(b.signal_cloned().map(move |t| { hold.get(); vec![t] }).to_signal_vec())),
        7 => Box::pin(SignalVecExt::flatten(SignalVecExt::map(s, move |t| always_vec(vec![one(&t), t, hold.clone()])))),
        8 => Box::pin(SignalVecExt::flatten(SignalVecExt::map(s, move |t| { hold.get(); b.signal_cloned().map(move |u| vec![t.clone(), u]).to_signal_vec() }))),
        9 => Box::pin(s.map_signal(move |t| { hold.get(); b.signal_cloned().map(move |u| { t.get(); u }) })),
        10 => Box::pin(s.filter_signal_cloned(move |t| { hold.get(); let t = t.clone(); b.signal_ref(move |u| (t.get() + u.get()) % 2 == 0) })),
        11 => Box::pin(s.delay_remove(move |t| { let t = t.clone(); hold.get(); async move { t.get(); } })),
        12 => Box::pin(s.delay_remove(move |t| { let t = t.clone(); hold.get(); let f = b.signal_cloned().to_future(); async move { f.await; t.get(); } })),
        13 => Box::pin(s.to_signal_cloned().switch_signal_vec(move |v| { hold.get(); always_vec(v) })),
        14 => Box::pin(s.to_signal_map(move |v| { hold.get(); v.to_vec() }).to_signal_vec()),
        15 => Box::pin(from_signal(b.signal_cloned().switch_signal_vec({ let s = RefCell::new(Some(s)); move |_| { hold.get(); SwitchOnce(s.borrow_mut().take()) } }))),
        16 => Box::pin(SignalVecExt::debug(SignalVecExt::map(s, move |t| { hold.get(); t }))),
        17 => Box::pin(s.len().map(move |n| vec![Tok::new(n as u32), hold.clone()]).to_signal_vec()),
        _ => Box::pin(from_future(s.for_each(move |d| { let h = hold.clone(); async move { h.get(); drop(d); } })).map(|_| Vec::<Tok>::new()).to_signal_vec()),
    };
    Out::V(v, vec![])
}
fn always_vec(v: Vec<Tok>) -> futures_signals::signal_vec::Always<Tok> { futures_signals::signal_vec::always(v) }
fn from_signal<X: SignalVec<Item = Tok> + 'static>(x: X) -> Pin<Box<dyn SignalVec<Item = Tok>>> { Box::pin(x) }
struct SwitchOnce(Option<Pin<Box<dyn SignalVec<Item = Tok>>>>);
impl SignalVec for SwitchOnce {
    type Item = Tok;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<Tok>>> { match &mut self.0 { Some(s) => s.as_mut().poll_vec_change(cx), None => Poll::Ready(None) } }
}

const MAPS: usize = 5;
fn map_pipe(k: usize, s: Pin<Box<dyn SignalMap<Key = Tok, Value = Tok>>>, b: R, hold: Tok) -> Made {
    match k {
        0 => Out::M(Box::pin(s.map_value(move |t| { hold.get(); t })), BTreeMap::new()),
        1 => Out::M(Box::pin(s.map_value_signal(move |t| { hold.get(); b.signal_cloned().map(move |u| { t.get(); u }) })), BTreeMap::new()),
        2 => Out::S(Box::pin(s.key_cloned(Tok::new(1)).map(move |t| { hold.get(); t.unwrap_or_else(|| Tok::new(0)) }))),
        3 => Out::S(Box::pin(from_future(s.for_each(move |d| { let h = hold.clone(); async move { h.get(); drop(d); } })).map(|_| Tok::new(0)))),
        _ => Out::S(Box::pin(SignalMapExt::boxed_local(s.map_value(move |t| { hold.get(); t })).key_cloned(Tok::new(7)).map(|t| t.unwrap_or_else(|| Tok::new(0))))),
    }
}

struct Pins { h: H, b: Mutable<Tok> }
fn build(kind: char, k: usize) -> (Pins, Out) {
    let b = Mutable::new(Tok::new(2));
    let r = b.read_only();
    let hold = Tok::new(100);
    let (h, out) = match kind {
        'S' => { let m = Mutable::new(Tok::new(1)); let s = m.signal_cloned(); (H::Mut(m, Mutable::new(Tok::new(3))), signal_pipe(k, Box::pin(s), r, hold)) }
        'C' => { let (tx, rx) = channel(Tok::new(1)); (H::Chan(tx), signal_pipe(k, Box::pin(rx), r, hold)) }
        'V' => { let v = MutableVec::from(vec![Tok::new(1), Tok::new(2)]); let s = v.signal_vec_cloned(); (H::V(v), vec_pipe(k, Box::pin(s), r, hold)) }
        _ => { let m = MutableBTreeMap::from([(Tok::new(1), Tok::new(2))].into_iter().collect::<BTreeMap<_, _>>()); let s = m.signal_map_cloned(); (H::M(m), map_pipe(k, Box::pin(s), r, hold)) }
    };
    (Pins { h, b }, out)
}

fn pipeline(kind: char, k: usize, depth: usize) {
    tok_reset();
    let (pins, out) = build(kind, k);
    let Pins { h, b } = pins;
    let (mut h, mut b) = (Some(h), Some(b));
    let ops: &[Op] = match kind { 'S' => &[Set], 'C' => &[Send, Close], 'V' => &[Push, Insert, Update, Remove, Pop, Move, Clear, Refill], _ => &[Push, Update, Remove, Clear, Refill] };
    let mut ex = Exec::new(held(out));
    for i in 0..depth {
        let n = ops.len();
        let c = choose(n + 7);
        if c == 0 { break; }
        match c - 1 {
            j if j < n => { let Some(h) = &h else { return }; note(|| format!("{:?}", ops[j])); run(h, ops[j], 10 + 2 * i as u32) }
            j => match j - n {
                0 => { if ex.ended { return } note(|| "poll".into()); ex.force(&mut |v| note(|| format!("shows {:?}", v))); }
                1 => { if !ex.runnable() { return } note(|| "run".into()); ex.run(&mut |v| note(|| format!("shows {:?}", v))); }
                2 => { let Some(b) = &b else { return }; note(|| "b changes".into()); b.set(Tok::new(20 + i as u32)) }
                3 => { if h.take().is_none() { return } note(|| "drop the source handle".into()) }
                4 => { if b.take().is_none() { return } note(|| "drop b".into()) }
                _ => { note(|| "drop the output".into()); ex.drop_out(); break }
            },
        }
        if let Err(e) = tok_bad() { panic!("{}", e) }
        state(&(tok_live_vals(), h.is_some(), b.is_some(), ex.ended));
    }
    outcome(&tok_live_vals());
    if flip() { drop(ex); drop((h, b)) } else { drop((h, b)); drop(ex) }
    if let Err(e) = tok_verdict() { panic!("{}", e) }
}
fn pipeline_threads(kind: char, k: usize, ops: &[Op], drop_after: usize, sim: &mut Sim) -> Check {
    tok_reset();
    let world = World::new();
    let (Pins { h, b }, out) = build(kind, k);
    let w = world.clone();
    sim.thread(move || consume(held(out), &w, &Shared::new(), Opt { spurious: 0, drop_after, first_ready: false }, |v| format!("{:?}", v)));
    let (w, ops) = (world.clone(), ops.to_vec());
    sim.thread(move || { for (i, o) in ops.iter().enumerate() { w.step(); rt::trace(|| format!("{:?}", o)); run(&h, *o, 10 + 2 * i as u32); } w.step(); drop(h) });
    sim.thread(move || { world.step(); b.set(Tok::new(20)); world.step(); drop(b) });
    Box::new(move |_| tok_verdict())
}

// ------------------------------------------------------------ stages of stacks

fn stages(l: stack::Leaf, ops: &[stack::Op], depth: usize) {
    tok_reset();
    stack::stages_reset();
    stack::lenient();
    let (mut srcs, mut st) = stack::sources();
    let mut made = stack::leaf(l, &mut srcs);
    for o in ops { made = stack::stack(*o, made, &mut srcs); }
    let (pipe, model, ids) = made;
    drop(model);
    let mut ex = Exec::new(held(stack::View::new(pipe)));
    let mut handles: Vec<_> = ids.iter().map(|i| (*i, Some(srcs.take(*i)))).collect();
    drop(srcs);
    for _ in 0..depth {
        let mut all: Vec<Option<(usize, stack::Act)>> = vec![None];
        for (i, (id, h)) in handles.iter().enumerate() { if h.is_some() { for a in stack::acts(*id) { all.push(Some((i, *a))) } } }
        match pick(&all) { None => break, Some((i, a)) => { note(|| format!("{:?}: {:?}", handles[i].0, a)); let h = handles[i].1.take().unwrap(); handles[i].1 = stack::perform(h, a, &mut st); } }
        match choose(3) { 0 => { ex.run(&mut |v| note(|| format!("shows {:?}", v))); } 1 => { ex.one(&mut |v| note(|| format!("shows {:?}", v))); } _ => {} }
    }
    if flip() { drop(ex); drop(handles) } else { drop(handles); drop(ex) }
    assert!(stack::stages_alive() == 0, "{} stage(s) of the pipeline are alive although everything was dropped", stack::stages_alive());
    if let Err(e) = tok_verdict() { panic!("wakers: {}", e) }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js: Vec<Job> = vec![];
    let mut names = std::collections::HashSet::new();
    let mut add = |sc: Sc, budget: u32| {
        let name = format!("{:?} {} {:?}", sc.what, sc.progs.iter().map(|(p, d)| format!("{:?}{}", p, if *d { "+drop" } else { "" })).collect::<Vec<_>>().join(" || "), sc.subs);
        if names.insert(name.clone()) { js.push(conc(name, budget, move |sim| scenario(&sc, sim))); }
    };
    let mops: &[Op] = &[Set, Replace, With, SetIf, NoSet, Lock, Swap, Neq, Read];
    let cops: &[Op] = &[Send, Close, CloneDrop];
    let vops: &[Op] = &[Push, Insert, Update, Remove, Pop, Move, Swap, Clear, Refill, Retain, Drain, Truncate];
    let kops: &[Op] = &[Push, Update, Remove, Clear, Refill, Read];
    for (what, ops, kinds) in [(What::Mut, mops, 2u8), (What::Chan, cops, 1), (What::BroadMut, &mops[..6], 2), (What::BroadChan, cops, 2), (What::Vec_, vops, 1), (What::Map_, kops, 3)] {
        for (i, &a) in ops.iter().enumerate() {
            for drops in [false, true] { for k in 0..kinds { for d in [0, 1, 2] {
                add(Sc { what, progs: vec![(vec![a], drops)], subs: vec![(k, d)] }, t.pick(5, UNBOUNDED));
                add(Sc { what, progs: vec![(vec![a, ops[(i + 1) % ops.len()]], drops)], subs: vec![(k, d)] }, 3);
            } } }
            for (j, &b) in ops.iter().enumerate() {
                if j < i { continue; }
                for d in [0, 1] {
                    add(Sc { what, progs: vec![(vec![a], true), (vec![b], true)], subs: vec![(((i + j) % kinds as usize) as u8, d)] }, 3);
                    if what != What::Chan { add(Sc { what, progs: vec![(vec![a], j % 2 == 0), (vec![b], true)], subs: vec![(0, d), (kinds - 1, 0)] }, t.pick(1, 2)); }
                }
            }
        }
    }
    for how in 0..3 { for completes in [false, true] { for d in [0, 1, 2] { js.push(conc(format!("cancel {} completes {} drop after {}", how, completes, d), UNBOUNDED, move |sim| cancel(how, completes, d, sim))); } } }
    for (what, d) in [(What::Mut, t.pick(5, 6)), (What::Chan, t.pick(7, 8)), (What::BroadMut, t.pick(6, 7)), (What::BroadChan, t.pick(6, 7)), (What::Vec_, t.pick(5, 6)), (What::Map_, t.pick(5, 6))] {
        js.push(seq(format!("{:?} histories of {}", what, d), move || containers(what, d)));
    }
    for (kind, n, d) in [('S', SIGS, t.pick(5, 7)), ('C', SIGS, t.pick(5, 6)), ('V', VECS, t.pick(4, 5)), ('M', MAPS, t.pick(4, 6))] {
        for k in 0..n {
            js.push(seq(format!("pipeline {}{} histories of {}", kind, k, d), move || pipeline(kind, k, d)));
            let progs: &[&[Op]] = match kind { 'S' => &[&[Set], &[Lock, Set]], 'C' => &[&[Send], &[Send, Close]], 'V' => &[&[Push, Remove], &[Refill], &[Move, Pop]], _ => &[&[Push, Remove], &[Refill]] };
            for ops in progs { for da in [0, 2] { js.push(conc(format!("pipeline {}{} threads {:?} {}", kind, k, ops, da), t.pick(1, 2), move |sim| pipeline_threads(kind, k, ops, da, sim))); } }
        }
    }
    for l in stack::LEAVES {
        let k = stack::kind_of(l);
        for o in stack::ops_for(k) {
            let o = *o;
            js.push(seq(format!("stages {:?}.{:?}", l, o), move || stages(l, &[o], t.pick(2, 3))));
            if l == stack::Leaf::A || l == stack::Leaf::Vec_ || l == stack::Leaf::Map_ {
                for p in stack::ops_for(stack::kind_after(o)) { let p = *p; js.push(seq(format!("stages {:?}.{:?}.{:?}", l, o, p), move || stages(l, &[o, p], t.pick(1, 2)))); }
            }
        }
    }
    js
}

fn main() {
    mc::main(Spec { property: "C07", assumptions: vec!["sequentially consistent memory".into(), "callbacks do not panic and nothing is leaked on purpose".into()], notes: "Payloads, callbacks, futures, wakers and stages are counted; every one must be dropped exactly once and none used afterwards.".into() }, jobs)
}
