//! C16: len, is_empty, sum, to_signal_cloned, to_signal_map.
use futures_signals::signal::*;
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::pin::Pin;

type Dyn<T> = Pin<Box<dyn Signal<Item = T>>>;

/// 0: len; 1: is_empty; 2: sum; 3: to_signal_cloned; 4: to_signal_map; 5: len of a filter; 6: sum of a map; 7: to_signal_map of a sort
struct Fold<const K: usize> { seen: Vec<Vec<V>> }
impl<const K: usize> Fold<K> {
    fn want(cur: &[V]) -> Vec<V> {
        match K {
            0 => vec![cur.len() as V], 1 => vec![cur.is_empty() as V], 2 => vec![cur.iter().sum()], 3 => cur.to_vec(),
            4 => cur.iter().map(|v| v + 1).rev().collect(),
            5 => vec![cur.iter().filter(|v| class(**v) == 1).count() as V],
            6 => vec![cur.iter().map(|v| v * 2).sum()],
            _ => { let mut c = cur.to_vec(); c.sort_by_key(|v| class(*v)); c }
        }
    }
}
impl<const K: usize> Watch for Fold<K> {
    type P = Sg<Dyn<Vec<V>>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) {
        let out: Dyn<Vec<V>> = match K {
            0 => Box::pin(src.len().map(|x| vec![x as V])),
            1 => Box::pin(src.is_empty().map(|x| vec![x as V])),
            2 => Box::pin(src.sum().map(|x| vec![x])),
            3 => Box::pin(src.to_signal_cloned()),
            4 => Box::pin(src.to_signal_map(|x| x.iter().map(|v| v + 1).rev().collect())),
            5 => Box::pin(src.filter(|v| class(*v) == 1).len().map(|x| vec![x as V])),
            6 => Box::pin(src.map(|v| v * 2).sum().map(|x| vec![x])),
            _ => Box::pin(src.sort_by_cloned(|a, b| class(*a).cmp(&class(*b))).to_signal_cloned()),
        };
        (Fold { seen: vec![] }, Sg(out))
    }
    fn item(&mut self, v: Vec<V>) {
        note(|| format!("output {:?}", v));
        if K == 1 { assert!(self.seen.last() != Some(&v), "is_empty yields an unchanged value"); }
        self.seen.push(v);
    }
    fn first(&mut self) { assert!(!self.seen.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, s: &VecIn) { assert_eq!(self.seen.last(), Some(&Self::want(&s.cur)), "the last value of the signal"); }
    fn key(&self) -> u64 { self.seen.len() as u64 }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VLen, Op::VEmpty, Op::VSum, Op::VCloned, Op::VToMap]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VLen, mc::stack::Op::VEmpty, mc::stack::Op::VSum, mc::stack::Op::VCloned, mc::stack::Op::VToMap]);
    let b = |depth: usize, classes: u32, maxlen: usize, hiccups: bool| Bounds { depth, classes, maxlen, hiccups };
    unary_jobs::<Fold<0>>(&mut js, "len", b(2, 1, 4, true), STARTS1);
    unary_jobs::<Fold<1>>(&mut js, "is_empty", b(2, 1, 4, true), STARTS1);
    unary_jobs::<Fold<2>>(&mut js, "sum", b(2, 1, 4, true), STARTS1);
    unary_jobs::<Fold<3>>(&mut js, "to_signal_cloned", b(2, 1, 4, true), STARTS1);
    unary_jobs::<Fold<4>>(&mut js, "to_signal_map", b(2, 1, 4, true), STARTS1);
    unary_jobs::<Fold<5>>(&mut js, "len of a filter", b(2, 2, 4, false), STARTS);
    unary_jobs::<Fold<6>>(&mut js, "sum of a map", b(2, 1, 4, false), STARTS1);
    unary_jobs::<Fold<7>>(&mut js, "to_signal_cloned of a sort", b(2, 2, 4, false), STARTS);
    const D: &[&[u32]] = &[&[], &[0], &[0, 0]];
    unary_jobs::<Fold<0>>(&mut js, "len, deep", b(3, 1, 3, true), D);
    unary_jobs::<Fold<1>>(&mut js, "is_empty, deep", b(3, 1, 3, true), D);
    unary_jobs::<Fold<2>>(&mut js, "sum, deep", b(3, 1, 3, true), D);
    unary_jobs::<Fold<3>>(&mut js, "to_signal_cloned, deep", b(3, 1, 3, true), D);
    let large: &[(usize, usize)] = t.pick(&[(24, 2), (70, 1), (300, 1)], &[(24, 2), (70, 2), (300, 1), (600, 1)]);
    unary_large::<Fold<0>>(&mut js, "len", 1, large);
    unary_large::<Fold<1>>(&mut js, "is_empty", 1, large);
    unary_large::<Fold<2>>(&mut js, "sum", 1, large);
    unary_large::<Fold<3>>(&mut js, "to_signal_cloned", 1, large);
    unary_large::<Fold<4>>(&mut js, "to_signal_map", 1, large);
    unary_jobs::<Fold<0>>(&mut js, "len, deeper", b(4, 1, 2, true), D);
    unary_jobs::<Fold<1>>(&mut js, "is_empty, deeper", b(4, 1, 2, true), D);
    if t.thorough() {
        unary_jobs::<Fold<2>>(&mut js, "sum, deeper", b(4, 1, 2, true), D);
        unary_jobs::<Fold<4>>(&mut js, "to_signal_map, deeper", b(4, 1, 2, true), D);
        unary_jobs::<Fold<5>>(&mut js, "len of a filter, deeper", b(3, 2, 3, false), STARTS);
        unary_jobs::<Fold<7>>(&mut js, "to_signal_cloned of a sort, deeper", b(3, 2, 3, false), STARTS);
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C16",
        assumptions: vec!["the source follows the SignalVec protocol (valid diffs, woken when it changes; a poll after the end is reported)".into()],
        notes: "every sequence of valid diffs up to the depth, from every start, with the signal polled to quiescence, once, not at all, or without a wake-up after each; its last value compared with the recomputed one whenever it blocks".into(),
    }, jobs)
}
