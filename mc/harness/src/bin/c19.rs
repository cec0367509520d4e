//! C19: map_ref and map_mut.
use futures_signals::signal::*;
use futures_signals::{map_mut, map_ref};
use mc::conc::*;
use mc::sigs::*;
use mc::src::*;
use mc::*;
use std::cell::Cell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// A value and how often the callback of map_mut has touched it.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cnt { v: u32, n: u32 }
type Row = Vec<Cnt>;

/// Remembers what was available before each poll.
struct Tap { out: Pin<Box<dyn Signal<Item = Row>>>, ctls: Vec<Ctl<Val>>, calls: Rc<Cell<usize>> }
struct Polling { row: Row, ready: Vec<usize>, calls: usize }
impl Polled for Tap {
    type Out = Polling;
    fn poll_it(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Polling>> {
        let ready = self.ctls.iter().map(|c| if c.will_yield() { 0 } else { c.undelivered() }).collect();
        let n = self.calls.get();
        let r = self.out.as_mut().poll_change(cx);
        let calls = self.calls.get() - n;
        if !matches!(r, Poll::Ready(Some(_))) { assert_eq!(calls, 0, "the callback runs although nothing is yielded"); }
        r.map(|o| o.map(|row| Polling { row, ready, calls }))
    }
}

/// F: 0 map_ref long; 1 map_ref short; 2 map_ref with patterns (and `move`); 3 map_mut long; 4 map_mut short; 5 nested; 6 repeated inputs mixed with expressions
struct Comb<const F: usize, const N: usize> { rows: Vec<Row> }
impl<const F: usize, const N: usize> SigWatch for Comb<F, N> {
    type P = Tap;
    fn make(srcs: Vec<Src<Val>>) -> (Self, Tap) {
        let calls = Rc::new(Cell::new(0));
        let k = calls.clone();
        let call = move |r: Row| { note(|| format!("callback({:?})", r)); k.set(k.get() + 1); r };
        let mut it = srcs.into_iter().map(|s| s.map(|v| Cnt { v: v.0, n: 0 }));
        let mut nx = move || it.next().unwrap();
        fn up(c: &mut Cnt) -> Cnt { c.n += 1; *c }
        let out: Pin<Box<dyn Signal<Item = Row>>> = match (F, N) {
            (0, 1) => Box::pin(map_ref! { let a = nx() => call(vec![*a]) }),
            (0, 2) => Box::pin(map_ref! { let a = nx(), let b = nx() => call(vec![*a, *b]) }),
            (0, 3) => Box::pin(map_ref! { let a = nx(), let b = nx(), let c = nx() => call(vec![*a, *b, *c]) }),
            (0, 4) => Box::pin(map_ref! { let a = nx(), let b = nx(), let c = nx(), let d = nx() => call(vec![*a, *b, *c, *d]) }),
            (0, 6) => Box::pin(map_ref! { let a = nx(), let b = nx(), let c = nx(), let d = nx(), let e = nx(), let f = nx() => call(vec![*a, *b, *c, *d, *e, *f]) }),
            (1, 1) => { let a = nx(); Box::pin(map_ref!(a => call(vec![*a]))) }
            (1, 2) => { let (a, b) = (nx(), nx()); Box::pin(map_ref!(a, b => call(vec![*a, *b]))) }
            (1, 3) => { let (a, b, c) = (nx(), nx(), nx()); Box::pin(map_ref!(a, b, c => call(vec![*a, *b, *c]))) }
            (2, 2) => Box::pin(map_ref! { let Cnt { v, n } = nx(), let b = nx() => move { call(vec![Cnt { v: *v, n: *n }, *b]) } }),
            (2, 3) => { let b = nx(); let mut first = Some(b); Box::pin(map_ref! { let a = first.take().unwrap(), let Cnt { v, .. } = nx(), let c = nx() => { let r = vec![*a, Cnt { v: *v, n: 0 }, *c]; call(r) } }) }
            (3, 1) => Box::pin(map_mut! { let a = nx() => call(vec![up(a)]) }),
            (3, 2) => Box::pin(map_mut! { let a = nx(), let b = nx() => call(vec![up(a), up(b)]) }),
            (3, 3) => Box::pin(map_mut! { let a = nx(), let b = nx(), let c = nx() => call(vec![up(a), up(b), up(c)]) }),
            (4, 2) => { let (a, b) = (nx(), nx()); Box::pin(map_mut!(a, b => call(vec![up(a), up(b)]))) }
            (4, 3) => { let (a, b, c) = (nx(), nx(), nx()); Box::pin(map_mut!(a, b, c => call(vec![up(a), up(b), up(c)]))) }
            (5, 3) => { let (a, b) = (nx(), nx()); let ab = map_ref!(a, b => (*a, *b)); Box::pin(map_ref! { let (a, b) = ab, let c = nx() => call(vec![*a, *b, *c]) }) }
            (5, 4) => {
                let (a, b) = (nx(), nx());
                let ab = map_ref!(a, b => (*a, *b));
                let cd = map_ref! { let c = nx(), let d = nx() => (*c, *d) };
                Box::pin(map_ref!(ab, cd => call(vec![ab.0, ab.1, cd.0, cd.1])))
            }
            _ => unreachable!(),
        };
        (Comb { rows: vec![] }, Tap { out, ctls: vec![], calls })
    }
    fn ctls(&mut self, p: &mut Tap, c: Vec<Ctl<Val>>) { p.ctls = c; }
    fn item(&mut self, p: Polling, ins: &[SigIn]) {
        note(|| format!("output {:?}", p.row));
        assert_eq!(p.calls, 1, "callback calls during one poll");
        assert_eq!(p.row.len(), N);
        let mut changed = self.rows.is_empty();
        for i in 0..N {
            let now = p.row[i];
            let at = ins[i].at(Val(now.v));
            if ins[i].ctl.undelivered() == 0 { assert_eq!(now.v, ins[i].cur.0, "a stale value of input {}", i); }
            if p.ready[i] > 0 { assert!(ins[i].ctl.undelivered() < p.ready[i], "input {} was ready, but its change was left out", i); }
            let mut touched = 0;
            if let Some(r) = self.rows.last() {
                let before = ins[i].at(Val(r[i].v));
                assert!(before <= at, "an old value of input {}", i);
                if before == at { touched = r[i].n } else { changed = true }
            }
            if F == 3 || F == 4 { assert_eq!(now.n, touched + 1, "changes made through map_mut to input {}", i); }
        }
        assert!(changed, "the callback runs although no input changed");
        self.rows.push(p.row);
    }
    fn first(&mut self) { assert!(!self.rows.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, ins: &[SigIn], _: bool) {
        assert_eq!(self.rows.last().unwrap().iter().map(|c| c.v).collect::<Vec<_>>(), ins.iter().map(|i| i.cur.0).collect::<Vec<_>>(), "the last value of the signal");
    }
    fn key(&self) -> u64 { self.rows.len() as u64 }
}

fn job<const F: usize, const N: usize>(js: &mut Vec<Job>, depth: usize) {
    let o = Start::One(0);
    let mut ss: Vec<Vec<Start>> = vec![vec![o; N]];
    for i in 0..N {
        for s in [Start::Two(0, 0), Start::Ended(0)] { let mut v = vec![o; N]; v[i] = s; ss.push(v); }
    }
    if N > 1 { ss.push(vec![Start::Two(0, 0); N]); }
    for st in ss { js.push(seq(format!("{} inputs {:?}, form {}, depth {}", N, st, F, depth), move || signals::<Comb<F, N>>(depth, 1, &st))); }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::A, Leaf::Chan], &[Op::MapRef, Op::MapMut, Op::Triple]); }
    job::<0, 1>(&mut js, 6); job::<0, 2>(&mut js, 4); job::<0, 3>(&mut js, 3); job::<0, 4>(&mut js, t.pick(2, 3)); job::<0, 6>(&mut js, 2);
    job::<1, 1>(&mut js, t.pick(4, 5)); job::<1, 2>(&mut js, 3); job::<1, 3>(&mut js, t.pick(2, 3));
    job::<2, 2>(&mut js, 3); job::<2, 3>(&mut js, t.pick(2, 3));
    job::<3, 1>(&mut js, 5); job::<3, 2>(&mut js, t.pick(3, 4)); job::<3, 3>(&mut js, t.pick(2, 3));
    job::<4, 2>(&mut js, 3); job::<4, 3>(&mut js, t.pick(2, 3));
    job::<5, 3>(&mut js, t.pick(2, 3)); job::<5, 4>(&mut js, t.pick(2, 3));
    js
}

fn main() {
    mc::main(Spec {
        property: "C19",
        assumptions: vec!["the inputs follow the Signal protocol (a first value at once, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of changes (skipping or not), ends and self-waking polls of 1 to 6 inputs up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
