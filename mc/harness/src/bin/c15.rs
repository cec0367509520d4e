//! C15: delay_remove.
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::rc::Rc;

type Dyn<T> = Pin<Box<dyn SignalVec<Item = T>>>;

struct Elem { ctl: Ctl<()>, done: bool }
type Elems = Rc<RefCell<BTreeMap<V, Elem>>>;

/// Class 2: the future is complete from the start.
struct Delay { es: Elems, mirror: Vec<V>, gone: Rc<RefCell<Vec<V>>>, cur: Rc<RefCell<Vec<V>>> }
impl Delay {
    fn open(&self) -> Vec<V> { self.es.borrow().iter().filter(|(_, e)| !e.done && !e.ctl.dropped()).map(|(v, _)| *v).collect() }
    fn sync(&self, s: &VecIn) { *self.gone.borrow_mut() = s.gone.clone(); *self.cur.borrow_mut() = s.cur.clone(); }
}
impl Watch for Delay {
    type P = Sv<Dyn<V>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) {
        let es: Elems = Default::default();
        let e = es.clone();
        let out: Dyn<V> = Box::pin(src.delay_remove(move |v| {
            let (ctl, f) = future(format!("the removal of {}", v));
            note(|| format!("callback({})", v));
            let done = class(*v) == 2;
            if done { ctl.push(()); }
            assert!(e.borrow_mut().insert(*v, Elem { ctl, done }).is_none(), "callback called twice for {}", v);
            f
        }));
        (Delay { es, mirror: vec![], gone: Default::default(), cur: Default::default() }, Sv(out))
    }
    fn before(&mut self, s: &VecIn) { self.sync(s) }
    fn item(&mut self, d: VecDiff<V>) {
        note(|| format!("output {:?}", d));
        let old = self.mirror.clone();
        apply(&mut self.mirror, d);
        for v in old {
            if self.mirror.contains(&v) { continue; }
            assert!(!self.cur.borrow().contains(&v), "the live element {} disappears", v);
            if self.gone.borrow().contains(&v) { assert!(self.es.borrow().get(&v).is_some_and(|e| e.done), "{} disappears although its future has not completed", v); }
        }
    }
    fn step(&mut self, s: &VecIn) { assert!(self.es.borrow().keys().all(|v| s.put.contains(v)), "callback called for a foreign value"); }
    fn caught_up(&mut self, s: &VecIn) {
        let es = self.es.borrow();
        assert_eq!(es.keys().copied().collect::<Vec<_>>(), s.put, "callback calls");
        let live: Vec<V> = self.mirror.iter().copied().filter(|v| s.cur.contains(v)).collect();
        assert_eq!(live, s.cur, "replaying the output, without removed elements");
        let mut rest: Vec<V> = self.mirror.iter().copied().filter(|v| !s.cur.contains(v)).collect();
        rest.sort();
        let mut want: Vec<V> = s.gone.iter().copied().filter(|v| !es[v].done).collect();
        want.sort();
        assert_eq!(rest, want, "removed elements that are still there");
    }
    fn key(&self) -> u64 { self.open().len() as u64 * 16 + self.mirror.len() as u64 }
    /// every future: completes, yields to itself
    fn extras(&self, _s: &VecIn) -> usize { self.open().len() * 2 }
    fn extra(&mut self, n: usize, _s: &VecIn) {
        let v = self.open()[n / 2];
        let ctl = self.es.borrow()[&v].ctl.clone();
        if n % 2 == 0 { note(|| format!("the future of {} completes", v)); self.es.borrow_mut().get_mut(&v).unwrap().done = true; ctl.push(()); }
        else { note(|| format!("the next poll of the future of {} yields to itself", v)); ctl.hiccup(); ctl.spurious_wake(); }
    }
    fn over(&self, s: &VecIn) -> bool { let es = self.es.borrow(); s.gone.iter().all(|v| es.get(v).map(|e| e.done).unwrap_or(class(*v) == 2)) }
    fn finish(&mut self, _s: &VecIn) { for v in self.open() { let c = { let mut es = self.es.borrow_mut(); let e = es.get_mut(&v).unwrap(); e.done = true; e.ctl.clone() }; c.push(()); } }
    const EXTRAS: bool = true;
    fn gone(&mut self) { assert!(self.es.borrow().values().all(|e| e.ctl.dropped()), "a future is kept alive"); }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VDelay]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VDelay]);
    let b = |depth: usize, classes: u32, maxlen: usize, hiccups: bool| Bounds { depth, classes, maxlen, hiccups };
    const S: &[&[u32]] = &[&[], &[9], &[0], &[2], &[0, 0], &[2, 0], &[0, 2], &[0, 0, 0], &[0, 2, 0], &[2, 0, 2], &[0, 0, 0, 0]];
    unary_jobs::<Delay>(&mut js, "delay_remove", b(2, 1, 5, true), S);
    const D: &[&[u32]] = &[&[], &[0], &[0, 0], &[0, 0, 0]];
    unary_jobs::<Delay>(&mut js, "delay_remove, deep", b(3, 1, 3, false), D);
    unary_jobs::<Delay>(&mut js, "delay_remove, some futures complete early", b(2, 3, 3, false), &[&[], &[0], &[0, 2]]);
    let large: &[(usize, usize)] = t.pick(&[(24, 1), (70, 1)], &[(24, 2), (70, 1), (300, 1)]);
    unary_large::<Delay>(&mut js, "delay_remove", 1, large);
    unary_large::<Delay>(&mut js, "delay_remove, some futures complete early", 3, large);
    if t.thorough() {
        unary_jobs::<Delay>(&mut js, "delay_remove, deeper", b(4, 1, 2, false), &[&[0], &[0, 0]]);
        unary_jobs::<Delay>(&mut js, "delay_remove, longer", b(3, 1, 5, true), S);
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C15",
        assumptions: vec!["the source and the futures follow their protocols (valid diffs, woken when they change; a poll after the end or completion is reported)".into()],
        notes: "every interleaving of source diffs, completions, ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
