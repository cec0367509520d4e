//! C20: flatten and switch of signals.
use futures_signals::signal::*;
use mc::conc::*;
use mc::sigs::*;
use mc::src::*;
use mc::*;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Item = (usize, Val);
type Dyn<T> = Pin<Box<dyn Signal<Item = T>>>;

/// An inner signal that knows its number.
struct Numbered(usize, Src<Val>);
impl Signal for Numbered {
    type Item = Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Item>> { let n = self.0; Pin::new(&mut self.1).poll_change(cx).map(|o| o.map(|v| (n, v))) }
}

const KINDS: &[Start] = &[Start::One(0), Start::Two(0, 0), Start::Ended(0)];

struct World { outer: Ctl<Numbered>, all: Vec<SigIn>, frozen: Vec<Option<usize>> }
impl World {
    fn inner(all: &mut Vec<SigIn>, k: Start) -> Numbered { let n = all.len(); let (i, s) = SigIn::new(format!("inner {}", n), 100 * n as u32, k); all.push(i); Numbered(n, s) }
    fn next(&mut self, k: Start, batch: bool) {
        note(|| format!("outer changes{}:", if batch { " without skipping" } else { "" }));
        let s = World::inner(&mut self.all, k);
        self.frozen.push(None);
        if batch { self.outer.push(s) } else { self.outer.set(s) }
    }
    fn last(&self) -> &SigIn { self.all.last().unwrap() }
    fn over(&self) -> bool { self.outer.closed() && self.last().closed() }
}

/// form 0: flatten; 1: switch; 2: switch of a mapped, deduplicated-by-number signal; 3: nested flatten
fn run(form: usize, depth: usize, start: Start, batch: Option<Start>) {
    let mut all = vec![];
    let s0 = World::inner(&mut all, start);
    let (outer, s) = source_with("outer", s0);
    let mut w = World { outer, all, frozen: vec![None] };
    if let Some(k) = batch { w.next(k, true); }
    let calls: Rc<RefCell<Vec<usize>>> = Default::default();
    let c = calls.clone();
    let call = move |n: usize| { note(|| format!("callback(inner {})", n)); c.borrow_mut().push(n); };
    let out: Dyn<Item> = match form {
        0 => Box::pin(s.flatten()),
        1 => Box::pin(s.switch(move |i| { call(i.0); i })),
        2 => Box::pin(s.map(Some).switch(move |i| { let i = i.unwrap(); call(i.0); i.boxed_local() })),
        _ => Box::pin(s.map(|i| always(i)).flatten().flatten()),
    };
    let mut ex = Exec::new(Sg(out));
    let got: Rc<RefCell<Vec<Item>>> = Default::default();
    let g = got.clone();
    // the inner signals handed out so far, as far as their polls show
    let ctls: Rc<RefCell<Vec<Ctl<Val>>>> = Rc::new(RefCell::new(w.all.iter().map(|a| a.ctl.clone()).collect()));
    let cs = ctls.clone();
    let mut item = move |v: Item| {
        note(|| format!("output: inner {}, {:?}", v.0, v.1));
        let newest = cs.borrow().iter().rposition(|c| c.polls() > 0).unwrap();
        assert_eq!(v.0, newest, "a value of a replaced signal");
        if let Some(p) = g.borrow().last() { assert!(p.0 < v.0 || (p.0 == v.0 && p.1 .0 < v.1 .0), "an old value"); }
        g.borrow_mut().push(v);
    };
    let check = |ex: &Exec<Sg<Dyn<Item>>>, w: &mut World| {
        let over = w.over();
        if ex.polls == 1 { assert!(!got.borrow().is_empty(), "the first poll yields nothing"); }
        if ex.ended { assert!(over, "the output ends although the outer signal or the current inner signal has not ended"); }
        if ex.waiting() { assert!(!over, "the output is blocked although everything has ended"); }
        if !ex.runnable() {
            let (g, l) = (got.borrow(), w.last());
            assert_eq!(g.last().map(|v| (v.0, v.1 .0)), Some((w.all.len() - 1, l.cur.0)), "the last value");
            for (n, i) in w.all.iter().enumerate() { if n + 1 < w.all.len() { assert!(i.ctl.dropped(), "the replaced inner signal {} is kept alive", n); } }
        }
        if form == 1 || form == 2 {
            let c = calls.borrow();
            assert!(c.windows(2).all(|x| x[0] < x[1]), "the callback is called twice for a change, or for an older value");
        }
        // a replaced signal is never polled again
        let newest = w.all.iter().rposition(|i| i.ctl.polls() > 0).unwrap_or(0);
        for n in 0..newest {
            let p = w.all[n].ctl.polls();
            match w.frozen[n] { None => w.frozen[n] = Some(p), Some(q) => assert_eq!(p, q, "the replaced inner signal {} is polled", n) }
        }
    };
    schedule(&mut ex, &mut item);
    check(&ex, &mut w);
    for _ in 0..depth {
        if w.over() { break; }
        let a = if w.outer.closed() { 0 } else { 2 * KINDS.len() + 1 + (w.outer.polls() > 0) as usize };
        // the inner signals that can change: the newest, and the one before if it is still in use
        let live: Vec<usize> = (0..w.all.len()).rev().take(2).filter(|n| !w.all[*n].ctl.dropped()).collect();
        let ns: Vec<usize> = live.iter().map(|n| w.all[*n].events(1)).collect();
        let mut c = choose(a + ns.iter().sum::<usize>() + 1);
        if c == 0 { break; }
        c -= 1;
        if c < a {
            if c < 2 * KINDS.len() { w.next(KINDS[c / 2], c % 2 == 1); ctls.borrow_mut().push(w.last().ctl.clone()); }
            else if c == 2 * KINDS.len() { note(|| "outer ends".into()); w.outer.end(); }
            else { note(|| "the next poll of the outer signal yields to itself".into()); w.outer.hiccup(); w.outer.spurious_wake(); }
        } else {
            c -= a;
            for (n, k) in live.iter().zip(&ns) { if c < *k { w.all[*n].event(c, 1); break; } c -= k; }
        }
        schedule(&mut ex, &mut item);
        check(&ex, &mut w);
        let l = w.last();
        state(&(l.sent.len(), l.ctl.undelivered(), l.closed(), w.outer.undelivered(), w.outer.closed(), ex.waiting(), w.all.len()));
    }
    ex.run(&mut item);
    check(&ex, &mut w);
    let outer_first = flip();
    for k in 0..2 {
        if (k == 0) == outer_first { if !w.outer.closed() { note(|| "outer ends".into()); w.outer.end(); } }
        else if !w.last().closed() { w.all.last_mut().unwrap().end(); }
        ex.run(&mut item);
        check(&ex, &mut w);
    }
    assert!(ex.ended, "the output does not end");
    outcome(&(w.all.len(), ex.polls));
    ex.drop_out();
    assert!(w.outer.dropped() && w.all.iter().all(|s| s.ctl.dropped()), "an input is kept alive");
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::A, Leaf::Chan], &[Op::SwitchB, Op::SwitchAlways, Op::FlattenB]); }
    for form in 0..4usize {
        let d = match form { 0 => t.pick(4, 5), 1 => 4, _ => t.pick(3, 4) };
        for st in KINDS { js.push(seq(format!("{}, start {:?}, depth {}", ["flatten", "switch", "switch, boxed", "nested flatten"][form], st, d), move || run(form, d, *st, None))); }
        for (a, b) in [(Start::One(0), Start::One(0)), (Start::Two(0, 0), Start::Ended(0)), (Start::Ended(0), Start::One(0))] {
            js.push(seq(format!("{}, start {:?} then {:?}, depth {}", ["flatten", "switch", "switch, boxed", "nested flatten"][form], a, b, d - 1), move || run(form, d - 1, a, Some(b))));
        }
    }
    js
}

fn main() {
    mc::main(Spec {
        property: "C20",
        assumptions: vec!["the inputs follow the Signal protocol (a first value at once, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of outer changes (skipping or not), changes of the current and the just replaced inner signal, ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
