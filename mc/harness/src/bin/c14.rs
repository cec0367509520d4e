//! C14: map_signal and filter_signal_cloned.
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::rc::Rc;

type Dyn<T> = Pin<Box<dyn SignalVec<Item = T>>>;

struct Elem { ctl: Ctl<u32>, latest: u32, bumps: u32 }
type Elems = Rc<RefCell<BTreeMap<V, Elem>>>;

/// Signal values are 0..; odd ones count as true.  The class of an element decides how its signal starts:
/// 0: 0; 1: 1; 2: 1, then ends at once; 3: 0 and at once 1.
fn new_signal(es: &Elems, v: V) -> Src<u32> {
    let first = (class(v) == 1 || class(v) == 2) as u32;
    let (ctl, s) = source_with(format!("the signal of {}", v), first);
    let mut latest = first;
    if class(v) == 2 { ctl.end() }
    if class(v) == 3 { ctl.push(1); latest = 1; }
    note(|| format!("callback({})", v));
    assert!(es.borrow_mut().insert(v, Elem { ctl, latest, bumps: 0 }).is_none(), "callback called twice for {}", v);
    s
}

const SEVERAL: usize = 5;

/// F: filter_signal_cloned, else map_signal
struct Per<const F: bool> { es: Elems, mirror: Vec<V> }
fn code(v: V, x: u32) -> V { v * 100 + x }
impl<const F: bool> Per<F> {
    /// elements whose signal can still change
    fn open(&self) -> Vec<V> { self.es.borrow().iter().filter(|(_, e)| !e.ctl.closed() && !e.ctl.dropped()).map(|(v, _)| *v).collect() }
    /// all signals change, every second one, all but one, all end, all change and every second one ends
    fn several(&mut self, k: usize, open: Vec<V>) {
        note(|| format!("{} signals: {}", open.len(), ["all change", "every second one changes", "all but one change", "all end", "all change, every second one ends"][k]));
        for (i, v) in open.iter().enumerate() {
            let changes = match k { 1 => i % 2 == 0, 2 => i != open.len() / 2, 3 => false, _ => true };
            let (ctl, x) = { let mut es = self.es.borrow_mut(); let e = es.get_mut(v).unwrap(); e.latest += changes as u32; (e.ctl.clone(), e.latest) };
            if changes { ctl.set(x) }
            if k == 3 || (k == 4 && i % 2 == 0) { ctl.end() }
        }
    }
}
impl<const F: bool> Watch for Per<F> {
    type P = Sv<Dyn<V>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) {
        let es: Elems = Default::default();
        let e = es.clone();
        use futures_signals::signal::SignalExt;
        let out: Dyn<V> = if F { Box::pin(src.filter_signal_cloned(move |v| new_signal(&e, *v).map(|x| x % 2 == 1))) }
            else { Box::pin(src.map_signal(move |v| new_signal(&e, v).map(move |x| code(v, x)))) };
        (Per { es, mirror: vec![] }, Sv(out))
    }
    fn item(&mut self, d: VecDiff<V>) { note(|| format!("output {:?}", d)); apply(&mut self.mirror, d) }
    fn step(&mut self, s: &VecIn) { assert!(self.es.borrow().keys().all(|v| s.put.contains(v)), "callback called for a foreign value"); }
    fn caught_up(&mut self, s: &VecIn) {
        let es = self.es.borrow();
        assert_eq!(es.keys().copied().collect::<Vec<_>>(), s.put, "callback calls");
        let want: Vec<V> = s.cur.iter().filter_map(|v| { let x = es[v].latest; if F { if x % 2 == 1 { Some(*v) } else { None } } else { Some(code(*v, x)) } }).collect();
        assert_eq!(self.mirror, want, "replaying the output");
        for (v, e) in es.iter() { if !s.cur.contains(v) { assert!(e.ctl.dropped(), "the signal of the removed element {} is kept alive", v); } }
    }
    fn key(&self) -> u64 { self.open().len() as u64 * 16 + self.mirror.len() as u64 }
    /// every open signal: change, change twice at once (two items), end, self-waking poll; several of them at once
    fn extras(&self, _s: &VecIn) -> usize { let n = self.open().len(); n * 5 + if n > 1 { SEVERAL } else { 0 } }
    fn extra(&mut self, n: usize, _s: &VecIn) {
        let open = self.open();
        if n >= open.len() * 5 { return self.several(n - open.len() * 5, open); }
        let v = open[n / 5];
        let mut es = self.es.borrow_mut();
        let e = es.get_mut(&v).unwrap();
        e.bumps += 1;
        let ctl = e.ctl.clone();
        match n % 5 {
            0 => { e.latest += 1; let x = e.latest; note(|| format!("the signal of {} changes to {}", v, x)); drop(es); ctl.set(x); }
            1 => { e.latest += 2; let x = e.latest; note(|| format!("the signal of {} changes to {}, {}", v, x - 1, x)); drop(es); ctl.push(x - 1); ctl.push(x); }
            2 => { note(|| format!("the signal of {} ends", v)); drop(es); ctl.end(); }
            3 => { e.latest += 1; let x = e.latest; note(|| format!("the signal of {} changes to {} and ends", v, x)); drop(es); ctl.set(x); ctl.end(); }
            _ => { note(|| format!("the next poll of the signal of {} yields to itself", v)); drop(es); ctl.hiccup(); ctl.spurious_wake(); }
        }
    }
    fn over(&self, s: &VecIn) -> bool { let es = self.es.borrow(); s.cur.iter().all(|v| es.get(v).map(|e| e.ctl.closed()).unwrap_or(class(*v) == 2)) }
    fn finish(&mut self, _s: &VecIn) {
        let all: Vec<Ctl<u32>> = self.es.borrow().values().filter(|e| !e.ctl.closed() && !e.ctl.dropped()).map(|e| e.ctl.clone()).collect();
        for c in all { c.end() }
    }
    const EXTRAS: bool = true;
    fn gone(&mut self) { assert!(self.es.borrow().values().all(|e| e.ctl.dropped()), "a signal is kept alive"); }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VMapSignal, Op::VMapSignalBroad, Op::VFilterSignal]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VMapSignal, mc::stack::Op::VFilterSignal]);
    let b = |depth: usize, classes: u32, maxlen: usize, hiccups: bool| Bounds { depth, classes, maxlen, hiccups };
    const S: &[&[u32]] = &[&[], &[9], &[0], &[1], &[2], &[3], &[0, 1], &[1, 0], &[2, 0], &[1, 3], &[0, 1, 1], &[1, 0, 1], &[1, 2, 0], &[1, 1, 0, 1]];
    unary_jobs::<Per<false>>(&mut js, "map_signal", b(2, 2, 4, true), S);
    unary_jobs::<Per<true>>(&mut js, "filter_signal_cloned", b(2, 2, 4, true), S);
    const D: &[&[u32]] = &[&[0], &[1], &[0, 1]];
    unary_jobs::<Per<false>>(&mut js, "map_signal, deep", b(3, 1, 2, false), D);
    unary_jobs::<Per<true>>(&mut js, "filter_signal_cloned, deep", b(3, 2, 2, false), D);
    unary_jobs::<Per<false>>(&mut js, "map_signal, all kinds of signals", b(2, 4, 2, false), &[&[], &[0]]);
    unary_jobs::<Per<true>>(&mut js, "filter_signal_cloned, all kinds of signals", b(2, 4, 2, false), &[&[], &[0]]);
    let large: &[(usize, usize)] = t.pick(&[(24, 1), (70, 1)], &[(24, 2), (70, 1), (300, 1)]);
    unary_large::<Per<false>>(&mut js, "map_signal", 2, large);
    unary_large::<Per<true>>(&mut js, "filter_signal_cloned", 2, large);
    if t.thorough() {
        unary_jobs::<Per<false>>(&mut js, "map_signal, longer", b(3, 1, 4, true), S);
        unary_jobs::<Per<true>>(&mut js, "filter_signal_cloned, longer", b(3, 2, 3, false), S);
        unary_jobs::<Per<true>>(&mut js, "filter_signal_cloned, deeper", b(4, 1, 1, false), &[&[0], &[1]]);
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C14",
        assumptions: vec!["the source and the element signals follow their protocols (a first value at once, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of source diffs, element signal changes, ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
