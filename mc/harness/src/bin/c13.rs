//! C13: flatten of a signal vec of signal vecs.
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::pin::Pin;

type Dyn<T> = Pin<Box<dyn SignalVec<Item = T>>>;

/// What a new inner vec is like when it is handed over.
#[derive(Clone, Copy, Debug, PartialEq)]
enum New { Silent, One, Two, Many(usize), EndedEmpty, EndedOne }

#[derive(Clone, Copy, Debug)]
enum Op { Clear, Pop, Push(New), Insert(usize, New), Update(usize, New), Remove(usize), Move(usize, usize), Replace(&'static [New]), End }

struct World {
    outer: Ctl<VecDiff<VSrc<V>>>,
    cur: Vec<usize>,
    all: Vec<VecIn>,
}
impl World {
    fn make(&mut self, k: New) -> (usize, VSrc<V>) {
        let n = self.all.len();
        let (mut v, s) = VecIn::numbered(&format!("inner {}", n), 100_000 * n as u32);
        match k { New::Silent | New::EndedEmpty => {}, New::One | New::EndedOne => { note(|| format!("inner {}:", n)); v.replace(&[0]) }, New::Two => { note(|| format!("inner {}:", n)); v.replace(&[0, 0]) } New::Many(k) => { note(|| format!("inner {}:", n)); v.replace(&vec![0; k]) } }
        if matches!(k, New::EndedEmpty | New::EndedOne) { v.end() }
        self.all.push(v);
        (n, s)
    }
    fn ops(&self, maxlen: usize, kinds: &[New]) -> Vec<Op> {
        let n = self.cur.len();
        let mut o = vec![Op::Clear];
        let at = indexes(n, maxlen);
        if n < maxlen { for k in kinds { o.push(Op::Push(*k)); } for &i in at.iter().chain(&[n]) { o.push(Op::Insert(i, New::One)); } }
        for &i in &at { o.push(Op::Update(i, New::Silent)); o.push(Op::Update(i, New::One)); o.push(Op::Remove(i)); for &j in &at { o.push(Op::Move(i, j)); } }
        if n > 0 { o.push(Op::Pop); }
        o.push(Op::Replace(&[]));
        o.push(Op::Replace(&[New::One]));
        o.push(Op::Replace(&[New::Silent, New::EndedOne]));
        o.push(Op::End);
        o
    }
    fn act(&mut self, op: Op) {
        note(|| format!("outer: {:?}", op));
        let d = match op {
            Op::Clear => { self.cur.clear(); VecDiff::Clear {} }
            Op::Pop => { self.cur.pop(); VecDiff::Pop {} }
            Op::Push(k) => { let (i, value) = self.make(k); self.cur.push(i); VecDiff::Push { value } }
            Op::Insert(index, k) => { let (i, value) = self.make(k); self.cur.insert(index, i); VecDiff::InsertAt { index, value } }
            Op::Update(index, k) => { let (i, value) = self.make(k); self.cur[index] = i; VecDiff::UpdateAt { index, value } }
            Op::Remove(index) => { self.cur.remove(index); VecDiff::RemoveAt { index } }
            Op::Move(old_index, new_index) => { let x = self.cur.remove(old_index); self.cur.insert(new_index, x); VecDiff::Move { old_index, new_index } }
            Op::Replace(ks) => { self.cur.clear(); let mut values = vec![]; for k in ks { let (i, s) = self.make(*k); self.cur.push(i); values.push(s); } VecDiff::Replace { values } }
            Op::End => { self.outer.end(); return; }
        };
        self.outer.push(d);
    }
    fn want(&self) -> Vec<V> { self.cur.iter().flat_map(|i| self.all[*i].cur.iter().copied()).collect() }
    fn over(&self) -> bool { self.outer.closed() && self.cur.iter().all(|i| self.all[*i].ctl.closed()) }
}

#[derive(Clone, Copy)]
struct Bounds { depth: usize, maxlen: usize, inner: usize, hiccups: bool }

fn run(b: Bounds, kinds: &[New], start: &[New], settled: bool) {
    let (outer, s) = source("outer");
    let mut w = World { outer, cur: vec![], all: vec![] };
    let out: Dyn<V> = Box::pin(VSrc(s).flatten());
    let mut ex = Exec::new(Sv(out));
    let mut mirror: Vec<V> = vec![];
    fn item(m: &mut Vec<V>, d: VecDiff<V>) { note(|| format!("output {:?}", d)); apply(m, d) }
    let check = |ex: &Exec<Sv<Dyn<V>>>, m: &Vec<V>, w: &World| {
        if ex.ended { assert!(w.over(), "the output ends although the outer or an inner vec has not ended"); }
        if !ex.runnable() { assert_eq!(*m, w.want(), "replaying the output"); }
        if ex.waiting() { assert!(!w.over(), "the output is blocked although everything has ended"); }
    };
    for k in start { w.act(Op::Push(*k)); }
    if settled { ex.run(&mut |d| item(&mut mirror, d)); } else { schedule(&mut ex, &mut |d| item(&mut mirror, d)); }
    check(&ex, &mirror, &w);
    for _ in 0..b.depth {
        if w.over() { break; }
        let open: Vec<usize> = indexes(w.cur.len(), b.maxlen).into_iter().map(|k| w.cur[k]).filter(|i| !w.all[*i].ctl.closed()).collect();
        let k = choose(open.len() + 2);
        if k == 0 { break; }
        if k == 1 {
            if w.outer.closed() { return; }
            let ops = w.ops(b.maxlen, kinds);
            let c = choose(ops.len() + b.hiccups as usize);
            if c < ops.len() { w.act(ops[c]); } else { note(|| "the next poll of the outer vec yields to itself".into()); w.outer.hiccup(); w.outer.spurious_wake(); }
        } else {
            let id = open[k - 2];
            let s = &mut w.all[id];
            let shapes = s.shapes(1, b.inner);
            let c = choose(shapes.len() + 1 + b.hiccups as usize);
            note(|| format!("inner {}:", id));
            if c < shapes.len() { s.act(shapes[c]); } else if c == shapes.len() { s.end(); } else { note(|| "its next poll yields to itself".into()); s.ctl.hiccup(); s.ctl.spurious_wake(); }
        }
        schedule(&mut ex, &mut |d| item(&mut mirror, d));
        check(&ex, &mirror, &w);
        state(&(w.cur.iter().map(|i| (w.all[*i].cur.len(), w.all[*i].ctl.undelivered(), w.all[*i].ctl.closed())).collect::<Vec<_>>(), w.outer.undelivered(), w.outer.closed(), ex.waiting(), mirror.len()));
    }
    ex.run(&mut |d| item(&mut mirror, d));
    check(&ex, &mirror, &w);
    // end everything, the outer vec first or last; each inner vec alone up to some number
    let outer_first = flip();
    let mut order: Vec<Option<usize>> = w.cur.iter().copied().map(Some).collect();
    if outer_first { order.insert(0, None) } else { order.push(None) }
    for o in order {
        let c = match o { None => w.outer.closed(), Some(i) => w.all[i].ctl.closed() };
        if c { continue; }
        match o { None => { note(|| "outer ends".into()); w.outer.end() } Some(i) => { note(|| format!("inner {}:", i)); w.all[i].end() } }
        ex.run(&mut |d| item(&mut mirror, d));
        check(&ex, &mirror, &w);
    }
    assert!(ex.ended, "the output does not end");
    outcome(&(mirror.len(), ex.polls, w.all.len()));
    ex.drop_out();
    assert!(w.outer.dropped() && w.all.iter().all(|s| s.ctl.dropped()), "an input is kept alive");
}

fn jobs(t: Tier) -> Vec<Job> {
    use New::*;
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VFlatten, Op::VFlattenB]); }
    mc::huge::flatten_job(&mut js);
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VFlatten, mc::stack::Op::VFlattenB]);
    let add = |js: &mut Vec<Job>, name: &str, b: Bounds, kinds: &'static [New], st: &'static [New], settled: bool| {
        js.push(seq(format!("{}: inner vecs {:?}{}, depth {}, up to {} inner vecs{}", name, st, if settled { " delivered" } else { "" }, b.depth, b.maxlen, if b.hiccups { ", self-waking polls" } else { "" }), move || run(b, kinds, st, settled)));
    };
    let b = |depth: usize, maxlen: usize, hiccups: bool| Bounds { depth, maxlen, inner: 2, hiccups };
    const K: &[New] = &[Silent, One, EndedEmpty, EndedOne];
    const K1: &[New] = &[One];
    let starts: &[&'static [New]] = &[&[], &[One], &[Silent], &[Two, One], &[EndedOne, Two], &[Silent, One], &[One, Silent, Two]];
    for st in starts { add(&mut js, "flatten", b(2, 3, true), K, st, false); }
    for st in &starts[..2] { add(&mut js, "flatten, deep", b(3, 2, false), K1, st, false); }
    add(&mut js, "flatten, deep", b(3, 2, false), K1, &[Two, One], true);
    add(&mut js, "flatten, deep", b(3, 3, false), K1, &[One, Silent, Two], true);
    const BIG: &[New] = &[Many(24), Silent, Many(300), One, Two, Many(24)];
    let crowd: &'static [New] = Vec::leak((0..24).map(|i| [Two, Silent, One, EndedOne, Many(3)][(i * 3 + i / 5) % 5]).collect());
    js.push(seq(format!("flatten: inner vecs {:?}, depth {}", BIG, t.pick(1, 2)), move || run(Bounds { depth: t.pick(1, 2), maxlen: 7, inner: 304, hiccups: false }, K1, BIG, true)));
    js.push(seq(format!("flatten: 24 inner vecs, depth {}", t.pick(1, 2)), move || run(Bounds { depth: t.pick(1, 2), maxlen: 28, inner: 2, hiccups: false }, K, crowd, true)));
    js.push(seq("flatten: 24 inner vecs at once, depth 1".to_string(), move || run(Bounds { depth: 1, maxlen: 28, inner: 2, hiccups: false }, K, crowd, false)));
    if t.thorough() {
        for st in starts { add(&mut js, "flatten, deeper", b(3, 3, false), K, st, false); }
        add(&mut js, "flatten, deeper", b(4, 1, false), K1, &[One], true);
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C13",
        assumptions: vec!["outer and inner vecs follow the SignalVec protocol (valid diffs, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of outer diffs, inner diffs, ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
