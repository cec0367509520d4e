//! C11: sort_by_cloned on every sequence of diffs.
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::cmp::Ordering;
use std::pin::Pin;

type Dyn<T> = Pin<Box<dyn SignalVec<Item = T>>>;

/// 0: by class; 1: by class, descending; 2: everything is equal; 3: by the value; 4: a stack of two sorts
struct Sort<const K: usize> { mirror: Vec<V> }
fn cmp<const K: usize>(a: &V, b: &V) -> Ordering {
    match K { 0 => class(*a).cmp(&class(*b)), 1 => class(*b).cmp(&class(*a)), 2 => Ordering::Equal, 3 => b.cmp(a), _ => class(*a).cmp(&class(*b)) }
}
impl<const K: usize> Watch for Sort<K> {
    type P = Sv<Dyn<V>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) {
        let o: Dyn<V> = if K == 4 { Box::pin(src.sort_by_cloned(cmp::<3>).sort_by_cloned(cmp::<4>)) } else { Box::pin(src.sort_by_cloned(cmp::<K>)) };
        (Sort { mirror: vec![] }, Sv(o))
    }
    fn item(&mut self, d: VecDiff<V>) { note(|| format!("output {:?}", d)); apply(&mut self.mirror, d) }
    fn caught_up(&mut self, s: &VecIn) {
        let mut want = s.cur.clone();
        if K == 4 { want.sort_by(cmp::<3>) }
        want.sort_by(cmp::<K>);
        assert_eq!(self.mirror, want, "replaying the output (the class that is compared is the value modulo 8)");
    }
    fn key(&self) -> u64 { self.mirror.len() as u64 }
}

const S: &[&[u32]] = &[&[], &[9], &[0], &[0, 1], &[1, 0], &[0, 0], &[1, 0, 1], &[0, 0, 0], &[2, 1, 0], &[1, 0, 1, 0], &[0, 0, 1, 1], &[2, 0, 1, 0]];
const LONG: &[&[u32]] = &[&[0, 1, 0, 1, 0], &[2, 2, 1, 1, 0, 0], &[0, 2, 1, 0, 2, 1]];

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VSort]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VSort]);
    let b = |depth: usize, classes: u32, maxlen: usize, hiccups: bool| Bounds { depth, classes, maxlen, hiccups };
    unary_jobs::<Sort<0>>(&mut js, "by class", b(2, 3, 5, true), S);
    unary_jobs::<Sort<1>>(&mut js, "by class, descending", b(2, 2, 5, false), S);
    unary_jobs::<Sort<2>>(&mut js, "all equal", b(2, 1, 5, false), STARTS1);
    unary_jobs::<Sort<3>>(&mut js, "by value", b(2, 1, 5, false), STARTS1);
    unary_jobs::<Sort<4>>(&mut js, "sorted twice", b(2, 2, 4, false), S);
    unary_jobs::<Sort<0>>(&mut js, "by class, long", b(1, 3, 7, true), LONG);
    unary_jobs::<Sort<0>>(&mut js, "by class, deep", b(3, 2, 3, false), &[&[], &[0, 1], &[0, 0], &[1, 0, 1]]);
    let large: &[(usize, usize)] = t.pick(&[(24, 2), (70, 1), (300, 1)], &[(24, 2), (70, 2), (300, 1), (600, 1)]);
    unary_large::<Sort<0>>(&mut js, "by class", 3, large);
    unary_large::<Sort<1>>(&mut js, "by class, descending", 2, large);
    unary_large::<Sort<2>>(&mut js, "all equal", 1, large);
    unary_large::<Sort<3>>(&mut js, "by value", 1, large);
    unary_jobs::<Sort<2>>(&mut js, "all equal, deep", b(3, 1, 4, true), STARTS1);
    if t.thorough() {
        unary_jobs::<Sort<3>>(&mut js, "by value, deep", b(3, 1, 5, false), STARTS1);
        unary_jobs::<Sort<0>>(&mut js, "by class, deeper", b(4, 2, 2, false), &[&[], &[0, 1]]);
        unary_jobs::<Sort<0>>(&mut js, "by class, three classes deep", b(3, 3, 4, false), S);
        unary_jobs::<Sort<2>>(&mut js, "all equal, deep", b(3, 1, 5, true), STARTS1);
        unary_jobs::<Sort<0>>(&mut js, "by class, longer", b(2, 3, 7, true), LONG);
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C11",
        assumptions: vec![
            "the source follows the SignalVec protocol (valid diffs, woken when it changes)".into(),
            "the comparison is a total preorder (five of them: by class, descending, all equal, by value, two sorts stacked)".into(),
        ],
        notes: "every sequence of valid diffs up to the depth, from every start, with the output polled to quiescence, once, not at all, or without a wake-up after each; values are unique, so stability is observed; output replayed against a stable sort of the reference contents whenever it blocks".into(),
    }, jobs)
}
