//! Driver for consumers of scripted signals.
use crate::conc::Polled;
use crate::src::*;
use crate::*;

/// A value of an input signal; equality (what the deduplicating combinators see) looks at the class only.
#[derive(Clone, Copy, Debug, Eq, Hash)]
pub struct Val(pub u32);
impl Val { pub fn class(self) -> u32 { self.0 % 8 } }
impl PartialEq for Val { fn eq(&self, o: &Val) -> bool { self.class() == o.class() } }

/// A scripted signal.
pub struct SigIn {
    pub name: String,
    pub ctl: Ctl<Val>,
    /// the most recent value
    pub cur: Val,
    /// all values, in order
    pub sent: Vec<Val>,
    /// all values but those skipped
    offered: Vec<Val>,
    serial: u32,
}
/// How an input starts.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Start { One(u32), Two(u32, u32), Ended(u32) }

impl SigIn {
    pub fn new(name: impl Into<String>, base: u32, st: Start) -> (SigIn, Src<Val>) {
        let name = name.into();
        let (a, b, e) = match st { Start::One(a) => (a, None, false), Start::Two(a, b) => (a, Some(b), false), Start::Ended(a) => (a, None, true) };
        let v = Val(base * 8 + a);
        let (ctl, s) = source_with(name.clone(), v);
        note(|| format!("{} starts with {:?}{}", name, v, if e { " and has ended" } else { "" }));
        let mut i = SigIn { name, ctl, cur: v, sent: vec![v], offered: vec![v], serial: base };
        if let Some(b) = b { i.push(b); }
        if e { i.ctl.end(); }
        (i, s)
    }
    fn value(&mut self, class: u32) -> Val { self.serial += 1; let v = Val(self.serial * 8 + class); self.sent.push(v); self.cur = v; v }
    /// undelivered values are skipped
    pub fn set(&mut self, class: u32) { let v = self.value(class); note(|| format!("{} changes to {:?}", self.name, v)); self.offered.truncate(self.ctl.taken()); self.offered.push(v); self.ctl.set(v) }
    /// the values that were polled out
    pub fn taken(&self) -> &[Val] { &self.offered[..self.ctl.taken()] }
    pub fn push(&mut self, class: u32) { let v = self.value(class); note(|| format!("{} changes to {:?} without skipping", self.name, v)); self.offered.push(v); self.ctl.push(v) }
    pub fn end(&mut self) { note(|| format!("{} ends", self.name)); self.ctl.end() }
    pub fn hiccup(&mut self) { note(|| format!("the next poll of {} yields to itself", self.name)); self.ctl.hiccup(); self.ctl.spurious_wake() }
    pub fn closed(&self) -> bool { self.ctl.closed() }
    /// the value was polled out (as far as the harness can tell)
    pub fn newest_taken(&self) -> bool { self.ctl.undelivered() == 0 }
    pub fn events(&self, classes: u32) -> usize { if self.closed() { 0 } else { 3 * classes as usize + 1 + (self.ctl.polls() > 0) as usize } }
    pub fn event(&mut self, n: usize, classes: u32) {
        let c = classes as usize;
        if n < c { self.set(n as u32) }
        else if n < 2 * c { self.push((n - c) as u32) }
        else if n < 3 * c { self.set((n - 2 * c) as u32); self.end() }
        else if n == 3 * c { self.end() }
        else { self.hiccup() }
    }
    /// position of a value in the history
    pub fn at(&self, v: Val) -> usize { self.sent.iter().position(|x| x.0 == v.0).unwrap_or_else(|| panic!("{:?} is not a value of {}", v, self.name)) }
}

pub trait SigWatch {
    type P: Polled;
    /// may choose
    fn make(srcs: Vec<Src<Val>>) -> (Self, Self::P) where Self: Sized;
    /// the producers' ends
    fn ctls(&mut self, _p: &mut Self::P, _c: Vec<Ctl<Val>>) {}
    fn before(&mut self, _ins: &[SigIn]) {}
    fn item(&mut self, v: <Self::P as Polled>::Out, ins: &[SigIn]);
    fn caught_up(&mut self, ins: &[SigIn], ended: bool);
    fn step(&mut self, _ins: &[SigIn]) {}
    fn first(&mut self) {}
    /// number of environment events besides those of the inputs
    fn extras(&self) -> usize { 0 }
    fn extra(&mut self, _n: usize) {}
    /// it must have ended
    fn over(&self, ins: &[SigIn]) -> bool { ins.iter().all(|i| i.closed()) }
    /// it may have ended (if not the same)
    fn may_be_over(&self, ins: &[SigIn]) -> bool { self.over(ins) }
    /// something is still needed to end; do one such thing
    fn finish(&mut self) -> bool { false }
    fn key(&self) -> u64 { 0 }
    fn gone(&mut self) {}
}

pub fn signals<W: SigWatch>(depth: usize, classes: u32, starts: &[Start]) {
    let (mut ins, mut srcs) = (vec![], vec![]);
    for (i, st) in starts.iter().enumerate() { let (a, b) = SigIn::new(format!("input {}", i), 100 * i as u32, *st); ins.push(a); srcs.push(b); }
    let (mut w, mut p) = W::make(srcs);
    w.ctls(&mut p, ins.iter().map(|i| i.ctl.clone()).collect());
    let mut ex = Exec::new(p);
    let check = |ex: &Exec<W::P>, w: &mut W, ins: &[SigIn]| {
        w.step(ins);
        if ex.polls == 1 { w.first(); }
        if ex.ended { assert!(w.may_be_over(ins), "the output ends although its inputs have not ended"); }
        if !ex.runnable() { w.caught_up(ins, ex.ended); }
        if ex.waiting() { assert!(!w.over(ins), "the output is blocked although its inputs have ended"); }
    };
    w.before(&ins);
    schedule(&mut ex, &mut |v| w.item(v, &ins));
    check(&ex, &mut w, &ins);
    for _ in 0..depth {
        if ex.ended { break; }
        let ns: Vec<usize> = ins.iter().map(|i| i.events(classes)).collect();
        let total: usize = ns.iter().sum::<usize>() + w.extras();
        if total == 0 { break; }
        let mut c = choose(total + 1);
        if c == 0 { break; }
        c -= 1;
        let mut done = false;
        for (i, n) in ns.iter().enumerate() { if c < *n { ins[i].event(c, classes); done = true; break; } c -= n; }
        if !done { w.extra(c); }
        w.before(&ins);
        schedule(&mut ex, &mut |v| w.item(v, &ins));
        check(&ex, &mut w, &ins);
        state(&(ins.iter().map(|i| (i.cur.class(), i.ctl.undelivered(), i.closed())).collect::<Vec<_>>(), ex.waiting(), ex.ended, w.key()));
    }
    w.before(&ins); ex.run(&mut |v| w.item(v, &ins));
    check(&ex, &mut w, &ins);
    let first = choose(ins.len().max(1));
    let n = ins.len();
    for k in 0..n {
        let i = (k + first) % n;
        if !ins[i].closed() { ins[i].end(); w.before(&ins); ex.run(&mut |v| w.item(v, &ins)); check(&ex, &mut w, &ins); }
    }
    while !ex.ended && w.finish() { w.before(&ins); ex.run(&mut |v| w.item(v, &ins)); check(&ex, &mut w, &ins); }
    assert!(ex.ended, "the output does not end");
    outcome(&(ins.iter().map(|i| i.cur.class()).collect::<Vec<_>>(), ex.polls, w.key()));
    ex.drop_out();
    assert!(ins.iter().all(|i| i.ctl.dropped()), "an input is kept alive");
    w.gone();
}
