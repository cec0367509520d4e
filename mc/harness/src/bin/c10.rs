//! C10: map, filter, filter_map, enumerate (and stacks of them) on every sequence of diffs.
use futures_signals::signal::*;
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::rc::Rc;

type Dyn<T> = Pin<Box<dyn SignalVec<Item = T>>>;

/// Callback calls so far.
type Calls = Rc<RefCell<Vec<V>>>;
fn calls_exact(calls: &Calls, s: &VecIn, keep: impl Fn(V) -> bool) {
    let mut a = calls.borrow().clone();
    a.sort();
    let mut b: Vec<V> = s.put.iter().copied().filter(|v| keep(*v)).collect();
    b.sort();
    assert_eq!(a, b, "callback calls");
}
/// never more than once, never for something that was not put
fn calls_sane(calls: &Calls, s: &VecIn) {
    let c = calls.borrow();
    for (i, v) in c.iter().enumerate() { assert!(s.put.contains(v) && !c[..i].contains(v), "callback called twice for {}", v); }
}

struct One<const K: usize> { calls: Calls, calls2: Calls, mirror: Vec<V> }
impl<const K: usize> One<K> {
    fn f(v: V) -> Option<V> {
        match K { 0 => Some(v + 1_000_000), 1 => if class(v) == 1 { Some(v) } else { None }, 2 => if class(v) == 1 { Some(v + 1_000_000) } else { None }, 3 => Some(v), 4 => if class(v) != 0 { Some(v) } else { None },
                  5 => if class(v) == 2 { Some(v + 1_000_000) } else { None }, _ => if class(v) == 1 { Some(v) } else { None } }
    }
}
impl<const K: usize> Watch for One<K> {
    type P = Sv<Dyn<V>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) {
        let calls: Calls = Rc::new(RefCell::new(vec![]));
        let calls2: Calls = Rc::new(RefCell::new(vec![]));
        let (c, c2) = (calls.clone(), calls2.clone());
        let out: Dyn<V> = match K {
            0 => Box::pin(src.map(move |v| { c.borrow_mut().push(v); v + 1_000_000 })),
            1 => Box::pin(src.filter(move |v| { c.borrow_mut().push(*v); class(*v) == 1 })),
            2 => Box::pin(src.filter_map(move |v| { c.borrow_mut().push(v); if class(v) == 1 { Some(v + 1_000_000) } else { None } })),
            3 => Box::pin(src.map(move |v| { c.borrow_mut().push(v); v })),
            4 => Box::pin(src.filter(move |v| { c.borrow_mut().push(*v); class(*v) != 0 })),
            // stacks: filter, then filter_map
            5 => Box::pin(src.filter(move |v| { c.borrow_mut().push(*v); class(*v) != 0 }).filter_map(move |v| { c2.borrow_mut().push(v); if class(v) == 2 { Some(v + 1_000_000) } else { None } })),
            _ => Box::pin(src.map(move |v| { c.borrow_mut().push(v); v }).filter(move |v| { c2.borrow_mut().push(*v); class(*v) == 1 })),
        };
        (One { calls, calls2, mirror: vec![] }, Sv(out))
    }
    fn item(&mut self, d: VecDiff<V>) { note(|| format!("output {:?}", d)); apply(&mut self.mirror, d) }
    fn step(&mut self, s: &VecIn) { calls_sane(&self.calls, s); calls_sane(&self.calls2, s); }
    fn caught_up(&mut self, s: &VecIn) {
        let want: Vec<V> = s.cur.iter().filter_map(|v| Self::f(*v)).collect();
        assert_eq!(self.mirror, want, "replaying the output");
        calls_exact(&self.calls, s, |_| true);
        if K == 5 { calls_exact(&self.calls2, s, |v| class(v) != 0) }
        if K == 6 { calls_exact(&self.calls2, s, |_| true) }
    }
    fn key(&self) -> u64 { self.mirror.len() as u64 }
}

/// The index handle of an element, the signal of that handle, and the last value of that signal.
type Handle = (ReadOnlyMutable<Option<usize>>, Exec<Sg<MutableSignal<Option<usize>>>>, Option<Option<usize>>);
struct Enum {
    /// (number of the handle, value)
    mirror: Vec<(usize, V)>,
    handles: Vec<Handle>,
    /// an update may keep the handle of the element or replace it
    next: BTreeMap<usize, usize>,
}
impl Enum {
    fn add(&mut self, h: ReadOnlyMutable<Option<usize>>) -> usize {
        let sig = Exec::new(Sg(h.signal()));
        self.handles.push((h, sig, None));
        self.handles.len() - 1
    }
}
impl Watch for Enum {
    type P = Sv<Dyn<(ReadOnlyMutable<Option<usize>>, V)>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) { (Enum { mirror: vec![], handles: vec![], next: BTreeMap::new() }, Sv(Box::pin(src.enumerate()))) }
    fn item(&mut self, d: VecDiff<(ReadOnlyMutable<Option<usize>>, V)>) {
        let d = match d {
            VecDiff::Replace { values } => VecDiff::Replace { values: values.into_iter().map(|(h, v)| (self.add(h), v)).collect() },
            VecDiff::InsertAt { index, value: (h, v) } => VecDiff::InsertAt { index, value: (self.add(h), v) },
            VecDiff::UpdateAt { index, value: (h, v) } => {
                let n = self.add(h);
                if let Some(o) = self.mirror.get(index) { self.next.insert(o.0, n); }
                VecDiff::UpdateAt { index, value: (n, v) }
            }
            VecDiff::Push { value: (h, v) } => VecDiff::Push { value: (self.add(h), v) },
            VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index },
            VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index, new_index },
            VecDiff::Pop {} => VecDiff::Pop {},
            VecDiff::Clear {} => VecDiff::Clear {},
        };
        note(|| format!("output {:?}", d));
        apply(&mut self.mirror, d)
    }
    fn caught_up(&mut self, s: &VecIn) {
        assert_eq!(self.mirror.iter().map(|x| x.1).collect::<Vec<_>>(), s.cur, "replaying the output");
        for (i, (h, v)) in self.mirror.iter().enumerate() { assert_eq!(self.handles[*h].0.get(), Some(i), "the index of element {}", v); }
        for (k, (h, ex, last)) in self.handles.iter_mut().enumerate() {
            ex.run(&mut |v| *last = Some(v));
            assert_eq!(*last, Some(h.get()), "the signal of an index does not converge");
            // an element that is gone has no index; an updated one may have kept its handle
            let mut end = k;
            while let Some(n) = self.next.get(&end) { end = *n; }
            if let Some(i) = h.get() { assert!(self.mirror.get(i).is_some_and(|x| x.0 == end), "the index of a removed element is still {}", i); }
        }
    }
    fn key(&self) -> u64 { self.handles.len() as u64 }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VMap, Op::VFilter, Op::VFilterMap, Op::VEnumerate]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VMap, mc::stack::Op::VFilter, mc::stack::Op::VFilterMap, mc::stack::Op::VEnumerate]);
    let b = |depth: usize, classes: u32, maxlen: usize, hiccups: bool| Bounds { depth, classes, maxlen, hiccups };
    unary_jobs::<One<0>>(&mut js, "map", b(3, 1, 4, true), STARTS1);
    unary_jobs::<Enum>(&mut js, "enumerate", b(3, 1, 4, false), STARTS1);
    unary_jobs::<One<1>>(&mut js, "filter, long", b(2, 2, 5, true), STARTS);
    unary_jobs::<One<2>>(&mut js, "filter_map, long", b(2, 2, 5, true), STARTS);
    unary_jobs::<One<5>>(&mut js, "filter, filter_map", b(2, 3, 5, false), STARTS3);
    unary_jobs::<One<6>>(&mut js, "map, filter", b(2, 2, 4, false), STARTS);
    unary_jobs::<One<1>>(&mut js, "filter", b(3, 2, 3, false), &[&[], &[0, 1], &[1, 1]]);
    unary_jobs::<One<2>>(&mut js, "filter_map", b(3, 2, 3, false), &[&[], &[1, 0], &[0, 1, 1]]);
    unary_jobs::<Enum>(&mut js, "enumerate, yielding", b(2, 1, 5, true), STARTS1);
    let large: &[(usize, usize)] = t.pick(&[(24, 2), (70, 1), (300, 1)], &[(24, 2), (70, 2), (300, 1), (600, 1)]);
    unary_large::<One<0>>(&mut js, "map", 1, large);
    unary_large::<Enum>(&mut js, "enumerate", 1, large);
    unary_large::<One<1>>(&mut js, "filter", 2, large);
    unary_large::<One<2>>(&mut js, "filter_map", 2, large);
    if t.thorough() {
        unary_jobs::<One<0>>(&mut js, "map, deep", b(4, 1, 3, false), &[&[], &[0, 0]]);
        unary_jobs::<Enum>(&mut js, "enumerate, deep", b(4, 1, 3, false), &[&[], &[0, 0], &[0, 0, 0]]);
        unary_jobs::<One<1>>(&mut js, "filter, deep", b(4, 2, 3, false), &[&[], &[0, 1]]);
        unary_jobs::<One<2>>(&mut js, "filter_map, deep", b(4, 2, 2, false), &[&[], &[1, 0]]);
        unary_jobs::<One<1>>(&mut js, "filter, long and deep", b(3, 2, 5, true), STARTS);
        unary_jobs::<One<5>>(&mut js, "filter, filter_map, deep", b(3, 3, 4, false), STARTS3);
        unary_jobs::<One<6>>(&mut js, "map, filter, deep", b(3, 2, 4, false), STARTS);
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C10",
        assumptions: vec![
            "the source follows the SignalVec protocol (valid diffs, woken when it changes, not polled after its end)".into(),
            "what the callbacks see of a value is one of two or three classes".into(),
        ],
        notes: "every sequence of valid diffs up to the depth, from every start, with the output polled to quiescence, once, not at all, or without a wake-up after each; output replayed against the reference contents whenever it blocks".into(),
    }, jobs)
}
