//! C22: to_future, wait_for, first, stop_if, for_each, to_stream.
use futures_core::Stream;
use futures_signals::signal::*;
use mc::conc::*;
use mc::sigs::*;
use mc::src::*;
use mc::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

type Dyn<T> = Pin<Box<dyn Signal<Item = T>>>;
type DynFut<T> = Pin<Box<dyn Future<Output = T>>>;

fn raw(vs: &[Val]) -> Vec<u32> { vs.iter().map(|v| v.0).collect() }
fn is_match(v: &Val) -> bool { v.class() == 1 }

struct ToFut { out: Option<Val> }
impl SigWatch for ToFut {
    type P = Fu<DynFut<Val>>;
    fn make(mut s: Vec<Src<Val>>) -> (Self, Self::P) { (ToFut { out: None }, Fu(Box::pin(s.pop().unwrap().to_future()), false)) }
    fn item(&mut self, v: Val, ins: &[SigIn]) {
        note(|| format!("output {:?}", v));
        assert!(ins[0].closed() && ins[0].ctl.over(), "the future completes before the signal has ended");
        assert_eq!(v.0, ins[0].cur.0, "the output");
        self.out = Some(v);
    }
    fn caught_up(&mut self, _: &[SigIn], ended: bool) { assert_eq!(ended, self.out.is_some()) }
}

struct Wait { out: Option<Option<Val>> }
impl SigWatch for Wait {
    type P = Fu<DynFut<Option<Val>>>;
    fn make(mut s: Vec<Src<Val>>) -> (Self, Self::P) { (Wait { out: None }, Fu(Box::pin(s.pop().unwrap().wait_for(Val(1))), false)) }
    fn item(&mut self, v: Option<Val>, ins: &[SigIn]) {
        note(|| format!("output {:?}", v));
        let m = ins[0].taken().iter().find(|v| is_match(v));
        assert_eq!(v.map(|v| v.0), m.map(|v| v.0), "the output is not the first match");
        match v { Some(v) => assert_eq!(ins[0].taken().last().unwrap().0, v.0, "the signal is polled after the match"), None => assert!(ins[0].ctl.over(), "no match, but the signal has not ended") }
        self.out = Some(v);
    }
    fn caught_up(&mut self, ins: &[SigIn], ended: bool) { if !ended { assert_eq!(ins[0].ctl.undelivered(), 0, "it is blocked, but the signal has changed"); } }
    fn over(&self, ins: &[SigIn]) -> bool { ins[0].closed() || ins[0].taken().iter().any(is_match) }
}

struct Fst { outs: Vec<Val> }
impl SigWatch for Fst {
    type P = Sg<Dyn<Val>>;
    fn make(mut s: Vec<Src<Val>>) -> (Self, Self::P) { (Fst { outs: vec![] }, Sg(Box::pin(s.pop().unwrap().first()))) }
    fn item(&mut self, v: Val, ins: &[SigIn]) { note(|| format!("output {:?}", v)); self.outs.push(v); assert_eq!(raw(&self.outs), raw(ins[0].taken()), "values"); }
    fn first(&mut self) { assert_eq!(self.outs.len(), 1, "the first poll yields nothing"); }
    fn step(&mut self, ins: &[SigIn]) { assert!(self.outs.len() <= 1, "more than one value"); assert!(ins[0].ctl.polls() <= 1, "the input is polled again"); }
    fn caught_up(&mut self, ins: &[SigIn], ended: bool) { assert!(ended, "it does not end"); assert!(ins[0].ctl.dropped(), "the input is kept alive"); }
    fn over(&self, _: &[SigIn]) -> bool { self.outs.len() == 1 }
}

struct Stop { outs: Vec<Val>, calls: Rc<RefCell<Vec<Val>>>, frozen: Option<usize> }
impl SigWatch for Stop {
    type P = Sg<Dyn<Val>>;
    fn make(mut s: Vec<Src<Val>>) -> (Self, Self::P) {
        let calls: Rc<RefCell<Vec<Val>>> = Default::default();
        let c = calls.clone();
        let out = s.pop().unwrap().stop_if(move |v| { note(|| format!("test({:?})", v)); c.borrow_mut().push(*v); is_match(v) });
        (Stop { outs: vec![], calls, frozen: None }, Sg(Box::pin(out)))
    }
    fn item(&mut self, v: Val, ins: &[SigIn]) {
        note(|| format!("output {:?}", v));
        assert!(!self.outs.iter().any(is_match), "a value after the match");
        self.outs.push(v);
        assert_eq!(raw(&self.outs), raw(ins[0].taken()), "values");
        assert_eq!(raw(&self.outs), raw(&self.calls.borrow()), "values tested");
        if is_match(&v) { self.frozen = Some(ins[0].ctl.polls()); }
    }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn step(&mut self, ins: &[SigIn]) { if let Some(n) = self.frozen { assert_eq!(ins[0].ctl.polls(), n, "the input is polled after the match"); } }
    fn caught_up(&mut self, ins: &[SigIn], ended: bool) { if !ended { assert_eq!(ins[0].ctl.undelivered(), 0, "it is blocked, but the signal has changed"); } }
    fn over(&self, ins: &[SigIn]) -> bool { ins[0].closed() || self.outs.iter().any(is_match) }
    fn key(&self) -> u64 { self.outs.len() as u64 }
}

struct ToStr { outs: Vec<Val> }
impl SigWatch for ToStr {
    type P = St<Pin<Box<dyn Stream<Item = Val>>>>;
    fn make(mut s: Vec<Src<Val>>) -> (Self, Self::P) { (ToStr { outs: vec![] }, St(Box::pin(s.pop().unwrap().to_stream()))) }
    fn item(&mut self, v: Val, ins: &[SigIn]) { note(|| format!("output {:?}", v)); self.outs.push(v); assert_eq!(raw(&self.outs), raw(ins[0].taken()), "values"); }
    fn first(&mut self) { assert!(!self.outs.is_empty(), "the first poll yields nothing"); }
    fn caught_up(&mut self, ins: &[SigIn], _: bool) { assert_eq!(self.outs.last().map(|v| v.0), Some(ins[0].cur.0), "the last value"); }
    fn key(&self) -> u64 { self.outs.len() as u64 }
}

/// The future of a value of class 1 is ready at once.
struct Job1 { v: Val, ctl: Ctl<()>, done: bool }
struct Each { jobs: Rc<RefCell<Vec<Job1>>>, completed: bool }
impl Each {
    fn idle(&self) -> bool { self.jobs.borrow().iter().all(|j| j.done) }
    fn newest(&self) -> Option<u32> { self.jobs.borrow().last().map(|j| j.v.0) }
}
impl SigWatch for Each {
    type P = Fu<DynFut<()>>;
    fn make(mut s: Vec<Src<Val>>) -> (Self, Self::P) {
        let jobs: Rc<RefCell<Vec<Job1>>> = Default::default();
        let j = jobs.clone();
        let out = s.pop().unwrap().for_each(move |v| {
            note(|| format!("callback({:?})", v));
            let mut j = j.borrow_mut();
            assert!(j.iter().all(|j| j.done && j.ctl.taken() == 1), "the callback is called while a future is running");
            let (ctl, f) = future(format!("the future of {:?}", v));
            if v.class() == 1 { ctl.push(()); }
            j.push(Job1 { v, ctl, done: v.class() == 1 });
            f
        });
        (Each { jobs, completed: false }, Fu(Box::pin(out), false))
    }
    fn item(&mut self, _: (), ins: &[SigIn]) {
        note(|| "for_each completes".into());
        assert!(ins[0].ctl.over() && self.idle(), "it completes although the signal has not ended or a future is running");
        self.completed = true;
    }
    fn step(&mut self, ins: &[SigIn]) {
        let j = self.jobs.borrow();
        assert!(j.windows(2).all(|w| ins[0].at(w[0].v) < ins[0].at(w[1].v)), "the callback is called twice for a change, or out of order");
        for x in j.iter().rev().skip(1) { assert!(x.ctl.dropped(), "the future of {:?} is kept alive", x.v); }
    }
    fn caught_up(&mut self, ins: &[SigIn], ended: bool) {
        if self.idle() { assert_eq!(self.newest(), Some(ins[0].cur.0), "the callback was not called with the most recent value"); }
        assert_eq!(ended, self.completed);
    }
    fn extras(&self) -> usize { if self.idle() { 0 } else { 2 } }
    fn extra(&mut self, n: usize) {
        let mut g = self.jobs.borrow_mut();
        let j = g.iter_mut().find(|j| !j.done).unwrap();
        let c = j.ctl.clone();
        if n == 0 { note(|| format!("the future of {:?} completes", j.v)); j.done = true; drop(g); c.push(()) }
        else { note(|| format!("the next poll of the future of {:?} yields to itself", j.v)); drop(g); c.hiccup(); c.spurious_wake() }
    }
    fn over(&self, ins: &[SigIn]) -> bool { ins[0].closed() && self.idle() && self.newest() == Some(ins[0].cur.0) }
    fn finish(&mut self) -> bool { if self.idle() { false } else { self.extra(0); true } }
    fn key(&self) -> u64 { self.jobs.borrow().len() as u64 * 2 + self.idle() as u64 }
    fn gone(&mut self) { assert!(self.jobs.borrow().iter().all(|j| j.ctl.dropped()), "a future is kept alive"); }
}

const STARTS: &[Start] = &[Start::One(0), Start::One(1), Start::Two(0, 1), Start::Two(1, 0), Start::Two(0, 0), Start::Ended(0), Start::Ended(1)];
fn job<W: SigWatch + 'static>(js: &mut Vec<Job>, name: &str, depth: usize) {
    for st in STARTS { js.push(seq(format!("{}, start {:?}, depth {}", name, st, depth), move || signals::<W>(depth, 2, &[*st]))); }
}
fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::A, Leaf::Chan], &[Op::Stream, Op::StopIf]); }
    job::<ToFut>(&mut js, "to_future", 5);
    job::<Wait>(&mut js, "wait_for", 5);
    job::<Fst>(&mut js, "first", 5);
    job::<Stop>(&mut js, "stop_if", 5);
    job::<ToStr>(&mut js, "to_stream", 5);
    job::<Each>(&mut js, "for_each", t.pick(4, 5));
    js
}

fn main() {
    mc::main(Spec {
        property: "C22",
        assumptions: vec!["the inputs follow the protocols of Signal and Future (a first value of a signal at once, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of signal changes (skipping or not), future completions, ends and self-waking polls up to the depth, with the consumer polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
