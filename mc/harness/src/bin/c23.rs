//! C23: map_value, map_value_signal, key_cloned, for_each and the wrappers of signal maps.
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use mc::conc::*;
use mc::maps::*;
use mc::model::*;
use mc::src::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Dyn<T> = Pin<Box<dyn SignalMap<Key = Key, Value = T>>>;

// ------------------------------------------------------------ map_value

struct MapV { calls: Rc<RefCell<Vec<V>>>, mirror: BTreeMap<Key, V> }
impl MWatch for MapV {
    type P = Sm<Dyn<V>>;
    fn make(src: MSrc<Key, V>) -> (Self, Self::P) {
        let calls: Rc<RefCell<Vec<V>>> = Default::default();
        let c = calls.clone();
        let out: Dyn<V> = Box::pin(src.map_value(move |v| { note(|| format!("callback({})", v)); c.borrow_mut().push(v); v + 1000 }));
        (MapV { calls, mirror: BTreeMap::new() }, Sm(out))
    }
    fn item(&mut self, d: MapDiff<Key, V>) { note(|| format!("output {:?}", d)); apply_map(&mut self.mirror, d) }
    fn step(&mut self, s: &MapIn) { assert!(s.put.starts_with(&self.calls.borrow()), "callback calls"); }
    fn caught_up(&mut self, s: &MapIn) {
        assert_eq!(self.mirror, s.cur.iter().map(|(k, v)| (*k, v + 1000)).collect(), "replaying the output");
        assert_eq!(*self.calls.borrow(), s.put, "callback calls");
    }
}

// ------------------------------------------------------------ map_value_signal

struct Elem { ctl: Ctl<u32>, latest: u32 }
type Elems = Rc<RefCell<BTreeMap<V, Elem>>>;
fn code(v: V, x: u32) -> V { v * 100 + x }
/// class 0: starts with 0; 1: has ended already; 2: changes at once
fn new_signal(es: &Elems, v: V) -> Src<u32> {
    let (ctl, s) = source_with(format!("the signal of {}", v), 0);
    let mut latest = 0;
    if class(v) == 1 { ctl.end() }
    if class(v) == 2 { ctl.push(1); latest = 1; }
    note(|| format!("callback({})", v));
    assert!(es.borrow_mut().insert(v, Elem { ctl, latest }).is_none(), "callback called twice for {}", v);
    s
}
struct MapS { es: Elems, mirror: BTreeMap<Key, V> }
const SEVERAL: usize = 5;
impl MapS {
    fn open(&self) -> Vec<V> { self.es.borrow().iter().filter(|(_, e)| !e.ctl.closed() && !e.ctl.dropped()).map(|(v, _)| *v).collect() }
    /// all signals change, every second one, all but one, all end, all change and every second one ends
    fn several(&mut self, k: usize, open: Vec<V>) {
        note(|| format!("{} signals: {}", open.len(), ["all change", "every second one changes", "all but one change", "all end", "all change, every second one ends"][k]));
        for (i, v) in open.iter().enumerate() {
            let changes = match k { 1 => i % 2 == 0, 2 => i != open.len() / 2, 3 => false, _ => true };
            let (ctl, x) = { let mut es = self.es.borrow_mut(); let e = es.get_mut(v).unwrap(); e.latest += changes as u32; (e.ctl.clone(), e.latest) };
            if changes { ctl.set(x) }
            if k == 3 || (k == 4 && i % 2 == 0) { ctl.end() }
        }
    }
}
impl MWatch for MapS {
    type P = Sm<Dyn<V>>;
    fn make(src: MSrc<Key, V>) -> (Self, Self::P) {
        let es: Elems = Default::default();
        let e = es.clone();
        (MapS { es, mirror: BTreeMap::new() }, Sm(Box::pin(src.map_value_signal(move |v| new_signal(&e, v).map(move |x| code(v, x))))))
    }
    fn item(&mut self, d: MapDiff<Key, V>) { note(|| format!("output {:?}", d)); apply_map(&mut self.mirror, d) }
    fn step(&mut self, s: &MapIn) { assert!(self.es.borrow().keys().all(|v| s.put.contains(v)), "callback called for a foreign value"); }
    fn caught_up(&mut self, s: &MapIn) {
        let es = self.es.borrow();
        assert_eq!(es.keys().copied().collect::<Vec<_>>(), s.put, "callback calls");
        assert_eq!(self.mirror, s.cur.iter().map(|(k, v)| (*k, code(*v, es[v].latest))).collect(), "replaying the output");
        for (v, e) in es.iter() { if !s.cur.values().any(|x| x == v) { assert!(e.ctl.dropped(), "the signal of the removed value {} is kept alive", v); } }
    }
    fn key(&self) -> u64 { self.open().len() as u64 * 16 + self.mirror.len() as u64 }
    /// every open signal: change, two changes, end, change and end, self-waking poll
    fn extras(&self, _s: &MapIn) -> usize { let n = self.open().len(); n * 5 + if n > 1 { SEVERAL } else { 0 } }
    fn extra(&mut self, n: usize, _s: &MapIn) {
        let open = self.open();
        if n >= open.len() * 5 { return self.several(n - open.len() * 5, open); }
        let v = open[n / 5];
        let mut es = self.es.borrow_mut();
        let e = es.get_mut(&v).unwrap();
        let ctl = e.ctl.clone();
        match n % 5 {
            0 => { e.latest += 1; let x = e.latest; note(|| format!("the signal of {} changes to {}", v, x)); drop(es); ctl.set(x); }
            1 => { e.latest += 2; let x = e.latest; note(|| format!("the signal of {} changes to {}, {}", v, x - 1, x)); drop(es); ctl.push(x - 1); ctl.push(x); }
            2 => { note(|| format!("the signal of {} ends", v)); drop(es); ctl.end(); }
            3 => { e.latest += 1; let x = e.latest; note(|| format!("the signal of {} changes to {} and ends", v, x)); drop(es); ctl.set(x); ctl.end(); }
            _ => { note(|| format!("the next poll of the signal of {} yields to itself", v)); drop(es); ctl.hiccup(); ctl.spurious_wake(); }
        }
    }
    fn over(&self, s: &MapIn) -> bool { let es = self.es.borrow(); s.cur.values().all(|v| es.get(v).map(|e| e.ctl.closed()).unwrap_or(class(*v) == 1)) }
    fn finish(&mut self) -> bool {
        match self.open().first() { Some(v) => { let c = self.es.borrow()[v].ctl.clone(); note(|| format!("the signal of {} ends", v)); c.end(); true } None => false }
    }
    const EXTRAS: bool = true;
    fn gone(&mut self) { assert!(self.es.borrow().values().all(|e| e.ctl.dropped()), "a signal is kept alive"); }
}

// ------------------------------------------------------------ key_cloned

struct KeyC<const K: u8> { outs: Vec<Option<V>> }
impl<const K: u8> MWatch for KeyC<K> {
    type P = Sg<Pin<Box<dyn Signal<Item = Option<V>>>>>;
    fn make(src: MSrc<Key, V>) -> (Self, Self::P) { (KeyC { outs: vec![] }, Sg(Box::pin(src.key_cloned(K)))) }
    fn item(&mut self, v: Option<V>) {
        note(|| format!("output {:?}", v));
        if let Some(v) = v { assert!(self.outs.iter().all(|o| o.map(|o| o <= v).unwrap_or(true)), "an old value"); }
        self.outs.push(v);
    }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, s: &MapIn) { assert_eq!(self.outs.last(), Some(&s.cur.get(&K).copied()), "the value of the key"); }
    fn key(&self) -> u64 { self.outs.len() as u64 }
}

// ------------------------------------------------------------ for_each

struct Each<const READY: bool> { seen: Rc<RefCell<Vec<(String, Ctl<()>)>>>, finished: usize }
impl<const READY: bool> Each<READY> { fn running(&self) -> bool { self.seen.borrow().len() > self.finished } }
impl<const READY: bool> MWatch for Each<READY> {
    type P = Fu<Pin<Box<dyn Future<Output = ()>>>>;
    fn make(src: MSrc<Key, V>) -> (Self, Self::P) {
        let seen: Rc<RefCell<Vec<(String, Ctl<()>)>>> = Default::default();
        let s = seen.clone();
        let f = src.for_each(move |d| {
            note(|| format!("callback({:?})", d));
            let (c, f) = future("a future of for_each");
            if READY { c.push(()) }
            if let Some((_, c)) = s.borrow().last() { assert!(c.taken() == 1, "the callback is called while a future is running"); }
            s.borrow_mut().push((format!("{:?}", d), c));
            f
        });
        (Each { seen, finished: 0 }, Fu(Box::pin(f), false))
    }
    fn item(&mut self, _: ()) { note(|| "for_each completes".into()) }
    fn step(&mut self, s: &MapIn) {
        let seen = self.seen.borrow();
        assert!(seen.len() <= s.sent.len() && seen.iter().zip(&s.sent).all(|(a, b)| a.0 == *b), "the callback does not get what the source sent");
        if READY { self.finished = seen.len() }
    }
    fn caught_up(&mut self, s: &MapIn) { if !self.running() { assert_eq!(self.seen.borrow().len(), s.sent.len(), "number of diffs handed to the callback"); } }
    fn extras(&self, _s: &MapIn) -> usize { if self.running() { 2 } else { 0 } }
    fn extra(&mut self, n: usize, _s: &MapIn) {
        let c = self.seen.borrow().last().unwrap().1.clone();
        if n == 0 { note(|| "the future completes".into()); self.finished += 1; c.push(()) }
        else { note(|| "the next poll of the future yields to itself".into()); c.hiccup(); c.spurious_wake() }
    }
    fn over(&self, s: &MapIn) -> bool { self.finished == s.sent.len() }
    fn finish(&mut self) -> bool { if self.running() { let c = self.seen.borrow().last().unwrap().1.clone(); self.finished += 1; c.push(()); true } else { false } }
    const EXTRAS: bool = true;
    fn gone(&mut self) { assert!(self.seen.borrow().iter().all(|e| e.1.dropped()), "a future is kept alive"); }
}

// ------------------------------------------------------------ wrappers

/// 0: boxed_local; 1: boxed; 2: Box; 3: &mut; 4: poll_map_change_unpin; 5: a signal map in a Pin<Box>
struct Pass<const K: usize> { seen: Vec<String> }
struct Sendable(MSrc<Key, V>);
unsafe impl Send for Sendable {}
macro_rules! wrap { ($t:ident, $s:ident, $cx:ident, $e:expr) => {
    impl SignalMap for $t { type Key = Key; type Value = V; fn poll_map_change(mut self: Pin<&mut Self>, $cx: &mut Context) -> Poll<Option<MapDiff<Key, V>>> { let $s = &mut self.0; $e } }
} }
wrap!(Sendable, s, cx, Pin::new(s).poll_map_change(cx));
struct ByRef(MSrc<Key, V>);
wrap!(ByRef, s, cx, { let mut r = s; SignalMap::poll_map_change(Pin::new(&mut r), cx) });
struct ByUnpin(MSrc<Key, V>);
wrap!(ByUnpin, s, cx, s.poll_map_change_unpin(cx));
impl<const K: usize> MWatch for Pass<K> {
    type P = Sm<Dyn<V>>;
    fn make(src: MSrc<Key, V>) -> (Self, Self::P) {
        let out: Dyn<V> = match K {
            0 => src.boxed_local(), 1 => Sendable(src).boxed(), 2 => Box::pin(Box::new(src)), 3 => Box::pin(ByRef(src)), 4 => Box::pin(ByUnpin(src)), _ => Box::pin(Box::pin(src)),
        };
        (Pass { seen: vec![] }, Sm(out))
    }
    fn item(&mut self, d: MapDiff<Key, V>) { note(|| format!("output {:?}", d)); self.seen.push(format!("{:?}", d)) }
    fn step(&mut self, s: &MapIn) { assert!(s.sent.starts_with(&self.seen), "the output is not what the source sent: {:?}", self.seen); }
    fn caught_up(&mut self, s: &MapIn) { assert_eq!(self.seen, s.sent, "diffs"); }
}

fn constant() {
    tok_reset();
    let n = choose(4);
    let entries: Vec<(Key, Tok)> = (0..n as Key).map(|k| (k, Tok::new(k as u32 + 5))).collect();
    let mut ex = Exec::new(Sm(futures_signals::signal_map::always(entries)));
    let mut mirror: BTreeMap<Key, Tok> = BTreeMap::new();
    let stop = choose(3);
    for i in 0..3 {
        if i == stop { ex.drop_out(); break; }
        if ex.force(&mut |d| apply_map(&mut mirror, d)) == Step::Pending { panic!("a constant signal map is pending"); }
    }
    if stop > 0 { assert_eq!(mirror.iter().map(|(k, t)| (*k, t.get())).collect::<Vec<_>>(), (0..n as Key).map(|k| (k, k as u32 + 5)).collect::<Vec<_>>(), "contents"); }
    drop(mirror);
    ex.drop_out();
    if let Err(e) = tok_verdict() { panic!("{}", e); }
    outcome(&(n, stop));
}

use MShape::*;
const STARTS: &[&[MShape]] = &[&[], &[Replace(&[], 0)], &[Replace(&[0], 0)], &[Replace(&[1, 0], 0)], &[Insert(1, 0), Insert(0, 0)]];
fn job<W: MWatch + 'static>(js: &mut Vec<Job>, name: &str, depth: usize, keys: Key, classes: u32, hiccups: bool) {
    for st in STARTS { js.push(seq(format!("{}, start {:?}, depth {}, {} keys, {} classes{}", name, st, depth, keys, classes, if hiccups { ", self-waking polls" } else { "" }), move || unary_map::<W>(depth, keys, classes, hiccups, st))); }
}
/// Many keys: all of them by one Replace, or one after the other.
fn large<W: MWatch + 'static>(js: &mut Vec<Job>, name: &str, n: Key, depth: usize) {
    let keys: &'static [Key] = Vec::leak((0..n).map(|k| (k as u32 * 11 % n as u32) as Key).collect());
    js.push(seq(format!("{}, {} keys at once, depth {}", name, n, depth), move || unary_map::<W>(depth, n + 1, 1, false, &[Replace(keys, 0)])));
    js.push(seq(format!("{}, {} keys one by one, depth {}", name, n, depth), move || unary_map::<W>(depth, n + 1, 1, false, &keys.iter().map(|k| Insert(*k, 0)).collect::<Vec<_>>())));
}
fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Map_], &[Op::MMap, Op::MMapSignal, Op::MBoxed, Op::MKey, Op::MMissing]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::Map_, &[mc::stack::Op::MMap, mc::stack::Op::MMapSignal, mc::stack::Op::MKey, mc::stack::Op::MMissing, mc::stack::Op::MBoxed]);
    let d = t.pick(3, 4);
    job::<MapV>(&mut js, "map_value", d, 2, 1, true);
    job::<MapV>(&mut js, "map_value", 2, 3, 1, true);
    job::<KeyC<1>>(&mut js, "key_cloned(1)", d, 2, 1, true);
    job::<KeyC<0>>(&mut js, "key_cloned(0)", d, 2, 1, true);
    job::<KeyC<1>>(&mut js, "key_cloned(1)", t.pick(2, 3), 3, 1, true);
    job::<MapS>(&mut js, "map_value_signal", d, 2, 1, true);
    job::<MapS>(&mut js, "map_value_signal", t.pick(2, 3), 2, 3, true);
    job::<MapS>(&mut js, "map_value_signal", t.pick(2, 3), 3, 1, true);
    for (n, depth) in t.pick(vec![(24, 1), (70, 1)], vec![(24, 2), (70, 1), (200, 1)]) {
        large::<MapV>(&mut js, "map_value", n, depth);
        large::<MapS>(&mut js, "map_value_signal", n, depth);
        large::<KeyC<1>>(&mut js, "key_cloned(1)", n, depth);
        large::<Each<true>>(&mut js, "for_each", n, depth);
    }
    job::<Each<true>>(&mut js, "for_each", d, 2, 1, true);
    job::<Each<false>>(&mut js, "for_each with pending futures", d, 2, 1, true);
    job::<Pass<0>>(&mut js, "boxed_local", 2, 2, 1, true);
    job::<Pass<1>>(&mut js, "boxed", 2, 2, 1, true);
    job::<Pass<2>>(&mut js, "Box", 2, 2, 1, true);
    job::<Pass<3>>(&mut js, "&mut", 2, 2, 1, true);
    job::<Pass<4>>(&mut js, "poll_map_change_unpin", 2, 2, 1, true);
    job::<Pass<5>>(&mut js, "Pin", 2, 2, 1, true);
    js.push(seq("always", constant));
    js
}

fn main() {
    mc::main(Spec {
        property: "C23",
        assumptions: vec!["the inputs follow the protocols of SignalMap, Signal and Future (valid diffs, a first value of a signal at once, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of map diffs, value-signal changes, future completions, ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
