//! C12: chain on every interleaving of the diffs and ends of its inputs.
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::pin::Pin;

type Dyn<T> = Pin<Box<dyn SignalVec<Item = T>>>;

#[derive(Clone, Copy)]
enum Form { Two, LeftNested, RightNested }

fn run(form: Form, b: Bounds, starts: &[&[u32]]) {
    let names = ["left", "right", "third"];
    let n = if let Form::Two = form { 2 } else { 3 };
    let mut ins = vec![];
    let mut srcs = vec![];
    for i in 0..n { let (a, s) = VecIn::numbered(names[i], 100_000 * i as u32); ins.push(a); srcs.push(s); }
    let mut it = srcs.into_iter();
    let (a, c) = (it.next().unwrap(), it.next().unwrap());
    let out: Dyn<V> = match form {
        Form::Two => Box::pin(a.chain(c)),
        Form::LeftNested => Box::pin(a.chain(c).chain(it.next().unwrap())),
        Form::RightNested => Box::pin(a.chain(c.chain(it.next().unwrap()))),
    };
    let mut ex = Exec::new(Sv(out));
    let mut mirror: Vec<V> = vec![];
    for (i, s) in ins.iter_mut().enumerate() {
        let st = starts.get(i).copied().unwrap_or(&[]);
        if !st.is_empty() { note(|| format!("{}:", names[i])); s.replace(if st == [9] { &[] } else { st }); }
    }
    let mut item = |m: &mut Vec<V>, d: VecDiff<V>| { note(|| format!("output {:?}", d)); apply(m, d) };
    let check = |ex: &Exec<Sv<Dyn<V>>>, m: &Vec<V>, ins: &Vec<VecIn>| {
        if ex.ended { assert!(ins.iter().all(|s| s.ctl.closed()), "the output ends although an input has not ended"); }
        if !ex.runnable() {
            let want: Vec<V> = ins.iter().flat_map(|s| s.cur.iter().copied()).collect();
            assert_eq!(*m, want, "replaying the output");
        }
        if ex.waiting() { assert!(!ins.iter().all(|s| s.ctl.closed()), "the output is blocked although all inputs have ended"); }
    };
    schedule(&mut ex, &mut |v| item(&mut mirror, v));
    check(&ex, &mirror, &ins);
    for _ in 0..b.depth {
        let open: Vec<usize> = (0..n).filter(|i| !ins[*i].ctl.closed()).collect();
        if open.is_empty() { break; }
        let k = choose(open.len() + 1);
        if k == 0 { break; }
        let s = &mut ins[open[k - 1]];
        note(|| format!("{}:", names[open[k - 1]]));
        let shapes = s.shapes(b.classes, b.maxlen);
        let c = choose(shapes.len() + 1 + b.hiccups as usize);
        if c < shapes.len() { s.act(shapes[c]); }
        else if c == shapes.len() { s.end(); }
        else { note(|| "its next poll yields to itself".into()); s.ctl.hiccup(); s.ctl.spurious_wake(); }
        schedule(&mut ex, &mut |v| item(&mut mirror, v));
        check(&ex, &mirror, &ins);
        state(&(ins.iter().map(|s| (s.cur.len(), s.ctl.undelivered(), s.ctl.closed())).collect::<Vec<_>>(), ex.waiting(), mirror.len()));
    }
    ex.run(&mut |v| item(&mut mirror, v));
    check(&ex, &mirror, &ins);
    for s in &mut ins {
        if !s.ctl.closed() { s.end(); ex.run(&mut |v| item(&mut mirror, v)); }
    }
    check(&ex, &mirror, &ins);
    assert!(ex.ended, "the output does not end");
    outcome(&(mirror.len(), ex.polls));
    ex.drop_out();
    assert!(ins.iter().all(|s| s.ctl.dropped()), "an input is kept alive");
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VChainB, Op::VChainL, Op::VChainV]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VChainB, mc::stack::Op::VChainL, mc::stack::Op::VChainV]);
    let add = |js: &mut Vec<Job>, name: &str, form: Form, b: Bounds, st: Vec<&'static [u32]>| {
        js.push(seq(format!("{}, starts {:?}, depth {}, up to {} elements{}", name, st, b.depth, b.maxlen, if b.hiccups { ", self-waking polls" } else { "" }), move || run(form, b, &st)));
    };
    let b = |depth: usize, maxlen: usize, hiccups: bool| Bounds { depth, classes: 1, maxlen, hiccups };
    let (e, z, one, two): (&'static [u32], &'static [u32], &'static [u32], &'static [u32]) = (&[], &[9], &[0], &[0, 0]);
    for l in [e, z, one, two] { for r in [e, z, one, two] { add(&mut js, "left.chain(right)", Form::Two, b(2, 3, true), vec![l, r]); } }
    for (l, r) in [(e, e), (one, one), (e, two), (two, e)] { add(&mut js, "left.chain(right)", Form::Two, b(3, 3, false), vec![l, r]); }
    add(&mut js, "left.chain(right).chain(third)", Form::LeftNested, b(2, 2, false), vec![one, e, one]);
    add(&mut js, "left.chain(right.chain(third))", Form::RightNested, b(2, 2, false), vec![one, e, one]);
    add(&mut js, "left.chain(right).chain(third)", Form::LeftNested, b(2, 2, false), vec![e, one, one]);
    add(&mut js, "left.chain(right.chain(third))", Form::RightNested, b(2, 2, false), vec![one, one, one]);
    for (l, r) in t.pick(vec![(24, 70), (70, 24), (300, 24), (0, 70), (70, 0)], vec![(24, 70), (70, 24), (300, 24), (24, 300), (600, 600), (0, 70), (70, 0)]) {
        let (x, y): (&'static [u32], &'static [u32]) = (Vec::leak(vec![0; l]), Vec::leak(vec![0; r]));
        js.push(seq(format!("left.chain(right), {} and {} elements, depth {}", l, r, t.pick(1, 2)), move || run(Form::Two, Bounds { depth: t.pick(1, 2), classes: 1, maxlen: l.max(r) + 4, hiccups: false }, &[x, y])));
        js.push(seq(format!("left.chain(right).chain(third), {}, {} and {} elements, depth 1", l, r, l), move || run(Form::LeftNested, Bounds { depth: 1, classes: 1, maxlen: l.max(r) + 4, hiccups: false }, &[x, y, x])));
    }
    for (l, r) in [(e, e), (one, one), (e, one), (one, e)] { add(&mut js, "left.chain(right)", Form::Two, b(3, 3, true), vec![l, r]); }
    add(&mut js, "left.chain(right)", Form::Two, b(4, 1, false), vec![one, one]);
    if t.thorough() {
        for l in [e, one, two] { for r in [e, one, two] { add(&mut js, "left.chain(right)", Form::Two, b(3, 3, true), vec![l, r]); } }
        add(&mut js, "left.chain(right)", Form::Two, b(4, 1, false), vec![e, e]);
        add(&mut js, "left.chain(right)", Form::Two, b(4, 1, false), vec![one, one]);
        add(&mut js, "left.chain(right).chain(third)", Form::LeftNested, b(3, 1, false), vec![one, e, one]);
        add(&mut js, "left.chain(right.chain(third))", Form::RightNested, b(3, 1, false), vec![one, e, one]);
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C12",
        assumptions: vec!["the inputs follow the SignalVec protocol (valid diffs, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of diffs, ends and self-waking polls of two or three inputs up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
