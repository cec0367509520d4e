//! C18: value combinators of signals.
use futures_signals::signal::*;
use mc::conc::*;
use mc::sigs::*;
use mc::src::*;
use mc::*;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Dyn<T> = Pin<Box<dyn Signal<Item = T>>>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum K { Map, Inspect, Eq, Neq, DedupeMap, Dedupe, DedupeCloned, FilterMap, Option_, Result_, Not, Boxed, BoxedLocal, Box_, Ref, Unpin_, Debug, Stacked }

const KINDS: &[K] = &[K::Map, K::Inspect, K::Eq, K::Neq, K::DedupeMap, K::Dedupe, K::DedupeCloned, K::FilterMap, K::Option_, K::Result_, K::Not, K::Boxed,
    K::BoxedLocal, K::Box_, K::Ref, K::Unpin_, K::Debug, K::Stacked];

struct Sendable(Src<Val>);
unsafe impl Send for Sendable {}
impl Signal for Sendable { type Item = Val; fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Val>> { Pin::new(&mut self.0).poll_change(cx) } }
struct ByRef(Src<Val>);
impl Signal for ByRef { type Item = Val; fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Val>> { let mut r = &mut self.0; Signal::poll_change(Pin::new(&mut r), cx) } }
struct ByUnpin(Src<Val>);
impl Signal for ByUnpin { type Item = Val; fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Val>> { self.0.poll_change_unpin(cx) } }

/// Output: (what, which) where `which` is the value it came from as far as it shows.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out { Value(Val), Bool(bool), Nothing }

struct One<const N: usize> { calls: Rc<RefCell<Vec<Val>>>, outs: Vec<Out> }
impl<const N: usize> One<N> {
    const KIND: K = KINDS[N];
    fn calls(kind: K) -> bool { matches!(kind, K::Map | K::Inspect | K::DedupeMap | K::FilterMap | K::Stacked) }
    /// what the documented function gives for the most recent value; calls: the values seen by the callback
    fn want(&self, i: &SigIn) -> Out {
        let v = i.cur;
        match Self::KIND {
            K::Eq => Out::Bool(v.class() == 1), K::Neq => Out::Bool(v.class() != 1), K::Not => Out::Bool(v.class() != 1),
            K::FilterMap => self.calls.borrow().iter().rev().find(|v| v.class() != 1).map(|v| Out::Value(*v)).unwrap_or(Out::Nothing),
            _ => Out::Value(v),
        }
    }
}
impl<const N: usize> SigWatch for One<N> {
    type P = Sg<Dyn<Out>>;
    fn make(mut srcs: Vec<Src<Val>>) -> (Self, Self::P) {
        let calls: Rc<RefCell<Vec<Val>>> = Default::default();
        let c = calls.clone();
        let call = move |v: Val| { note(|| format!("callback({:?})", v)); c.borrow_mut().push(v); };
        let s = srcs.pop().unwrap();
        let out: Dyn<Out> = match Self::KIND {
            K::Map => Box::pin(s.map(move |v| { call(v); Out::Value(v) })),
            K::Inspect => Box::pin(s.inspect(move |v| call(*v)).map(Out::Value)),
            K::Eq => Box::pin(s.eq(Val(1)).map(Out::Bool)),
            K::Neq => Box::pin(s.neq(Val(1)).map(Out::Bool)),
            K::DedupeMap => Box::pin(s.dedupe_map(move |v| { call(*v); Out::Value(*v) })),
            K::Dedupe => Box::pin(s.dedupe().map(Out::Value)),
            K::DedupeCloned => Box::pin(s.dedupe_cloned().map(Out::Value)),
            K::FilterMap => Box::pin(s.filter_map(move |v| { call(v); if v.class() != 1 { Some(Out::Value(v)) } else { None } }).map(|o| o.unwrap_or(Out::Nothing))),
            K::Option_ => Box::pin(option(Some(s)).map(|o| o.map(Out::Value).unwrap_or(Out::Nothing))),
            K::Result_ => Box::pin(result::<_, ()>(Ok(s)).map(|o| o.map(Out::Value).unwrap_or(Out::Nothing))),
            K::Not => Box::pin(not(s.map(|v| v.class() == 1)).map(Out::Bool)),
            K::Boxed => Box::pin(Sendable(s).boxed().map(Out::Value)),
            K::BoxedLocal => Box::pin(s.boxed_local().map(Out::Value)),
            K::Box_ => Box::pin(Box::new(s).map(Out::Value)),
            K::Ref => Box::pin(ByRef(s).map(Out::Value)),
            K::Unpin_ => Box::pin(ByUnpin(s).map(Out::Value)),
            K::Debug => Box::pin(s.debug().map(Out::Value)),
            K::Stacked => Box::pin(s.inspect(|_| {}).dedupe().inspect(move |v| call(*v)).map(|v| v).dedupe_cloned().boxed_local().debug().map(Out::Value)),
        };
        (One { calls, outs: vec![] }, Sg(out))
    }
    fn item(&mut self, v: Out, ins: &[SigIn]) {
        note(|| format!("output {:?}", v));
        let prev = self.outs.last().copied();
        match v {
            Out::Nothing => assert!(Self::KIND == K::FilterMap && prev.is_none(), "None is not the initial value"),
            Out::Value(v) => if let Some(Out::Value(p)) = prev { assert!(ins[0].at(p) < ins[0].at(v), "an old value is yielded again") },
            Out::Bool(_) => {}
        }
        if matches!(Self::KIND, K::Eq | K::Neq | K::Dedupe | K::DedupeCloned | K::DedupeMap | K::Stacked) { assert!(prev != Some(v), "an unchanged value is yielded"); }
        if matches!(Self::KIND, K::Map | K::Inspect | K::DedupeMap) { assert_eq!(self.calls.borrow().last().map(|x| Out::Value(*x).raw()), Some(v.raw()), "the output is not that of the last callback"); }
        self.outs.push(v);
    }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn step(&mut self, ins: &[SigIn]) {
        let c = self.calls.borrow();
        assert!(c.windows(2).all(|w| ins[0].at(w[0]) < ins[0].at(w[1])), "the callback is called twice for a change, or out of order: {:?}", c);
        if matches!(Self::KIND, K::Map | K::Inspect | K::DedupeMap) { assert_eq!(c.len(), self.outs.len(), "number of callback calls"); }
        if Self::KIND == K::DedupeMap { assert!(c.windows(2).all(|w| w[0] != w[1]), "the callback is called for an unchanged value"); }
    }
    fn caught_up(&mut self, ins: &[SigIn], _: bool) {
        if Self::calls(Self::KIND) {
            let last = self.calls.borrow().last().copied();
            if matches!(Self::KIND, K::DedupeMap | K::Stacked) { assert_eq!(last, Some(ins[0].cur), "the callback was not called with the most recent value") }
            else { assert_eq!(last.map(|v| v.0), Some(ins[0].cur.0), "the callback was not called with the most recent value") }
        }
        let (got, want) = (*self.outs.last().expect("no value was yielded"), self.want(&ins[0]));
        assert_eq!(got, want, "the last value of the signal");
        if !matches!(Self::KIND, K::Dedupe | K::DedupeCloned | K::DedupeMap | K::Stacked) { assert_eq!(got.raw(), want.raw(), "the last value of the signal"); }
    }
    fn key(&self) -> u64 { self.outs.len() as u64 }
}
impl Out { fn raw(self) -> (u8, u32) { match self { Out::Value(v) => (0, v.0), Out::Bool(b) => (1, b as u32), Out::Nothing => (2, 0) } } }

/// and (AND = true), or
struct Logic<const AND: bool> { outs: Vec<bool> }
impl<const AND: bool> SigWatch for Logic<AND> {
    type P = Sg<Dyn<bool>>;
    fn make(mut srcs: Vec<Src<Val>>) -> (Self, Self::P) {
        let b = srcs.pop().unwrap().map(|v| v.class() == 1);
        let a = srcs.pop().unwrap().map(|v| v.class() == 1);
        let out: Dyn<bool> = if AND { Box::pin(and(a, b)) } else { Box::pin(or(a, b)) };
        (Logic { outs: vec![] }, Sg(out))
    }
    fn item(&mut self, v: bool, _: &[SigIn]) { note(|| format!("output {}", v)); self.outs.push(v) }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, ins: &[SigIn], _: bool) {
        let (a, b) = (ins[0].cur.class() == 1, ins[1].cur.class() == 1);
        assert_eq!(self.outs.last(), Some(&if AND { a && b } else { a || b }), "the last value of the signal");
    }
    fn key(&self) -> u64 { self.outs.len() as u64 }
}

/// option(None), result(Err), always: one value, then the end
fn constants() {
    tok_reset();
    let kind = choose(4);
    let stop = choose(3);
    let t = Tok::new(7);
    let mut ex = Exec::new(Sg::<Dyn<Option<Result<Tok, Tok>>>>(match kind {
        0 => Box::pin(always(t).map(|t| Some(Ok(t)))),
        1 => { drop(t); Box::pin(option(None::<Always<Tok>>).map(|o| o.map(Ok))) }
        2 => Box::pin(result::<Always<Tok>, Tok>(Err(t)).map(Some)),
        _ => Box::pin(option(Some(always(t))).map(|o| o.map(Ok))),
    }));
    let mut outs = vec![];
    for i in 0..3 {
        if i == stop { ex.drop_out(); break; }
        if ex.force(&mut |o| { note(|| format!("output {:?}", o)); outs.push(o) }) == Step::Pending { panic!("a constant signal is pending"); }
    }
    assert_eq!(outs.len(), stop.min(1), "number of values");
    if let Some(o) = outs.pop() {
        let ok = match (kind, &o) { (0 | 3, Some(Ok(t))) => t.get() == 7, (1, None) => true, (2, Some(Err(t))) => t.get() == 7, _ => false };
        assert!(ok, "wrong value {:?}", o);
    }
    ex.drop_out();
    if let Err(e) = tok_verdict() { panic!("{}", e); }
    outcome(&(kind, stop));
}

fn one<const N: usize>(js: &mut Vec<Job>, t: Tier) {
    for st in [Start::One(0), Start::One(1), Start::Two(0, 1), Start::Two(1, 0), Start::Two(0, 0), Start::Two(1, 1), Start::Ended(0), Start::Ended(1)] {
        let deep = matches!(KINDS[N], K::Eq | K::Neq | K::DedupeMap | K::Dedupe | K::DedupeCloned | K::FilterMap);
        let d = if t.thorough() { if deep { 5 } else { 4 } } else if deep || matches!(st, Start::One(_)) { 4 } else { 3 };
        js.push(seq(format!("{:?}, start {:?}, depth {}, 2 classes", KINDS[N], st, d), move || signals::<One<N>>(d, 2, &[st])));
    }
    let d = t.pick(3, 4);
    for st in [Start::One(0), Start::Two(2, 1)] { js.push(seq(format!("{:?}, start {:?}, depth {}, 3 classes", KINDS[N], st, d), move || signals::<One<N>>(d, 3, &[st]))); }
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::A, Leaf::Chan], &[Op::Map, Op::Inspect, Op::Dedupe, Op::DedupeCloned, Op::DedupeMap, Op::FilterMap, Op::Boxed, Op::Debug, Op::Option_, Op::Result_, Op::Eq, Op::Neq, Op::Not, Op::And, Op::Or]); }
    macro_rules! all { ($($n:literal)*) => { $(one::<$n>(&mut js, t);)* } }
    all!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
    let d = t.pick(3, 4);
    for (a, b) in [(Start::One(0), Start::One(0)), (Start::One(1), Start::One(0)), (Start::Two(0, 1), Start::One(1)), (Start::One(1), Start::Two(1, 0)), (Start::Ended(1), Start::One(0)), (Start::One(0), Start::Ended(1))] {
        js.push(seq(format!("and, start {:?} {:?}, depth {}", a, b, d), move || signals::<Logic<true>>(d, 2, &[a, b])));
        js.push(seq(format!("or, start {:?} {:?}, depth {}", a, b, d), move || signals::<Logic<false>>(d, 2, &[a, b])));
    }
    js.push(seq("always, option(None), result(Err)", constants));
    js
}

fn main() {
    mc::main(Spec {
        property: "C18",
        assumptions: vec!["the inputs follow the Signal protocol (a first value at once, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of changes (skipping or not), ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
