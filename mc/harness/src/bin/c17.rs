//! C17: switch_signal_vec, and everything that passes diffs or contents on.
use futures_core::Stream;
use futures_signals::signal::*;
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecs::*;
use mc::*;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Dyn<T> = Pin<Box<dyn SignalVec<Item = T>>>;

// ------------------------------------------------------------ switch_signal_vec

/// What a new inner vec is like when it is handed over.
#[derive(Clone, Copy, Debug, PartialEq)]
enum New { Silent, Empty, One, Two, Pushed, EndedSilent, EndedOne, EndedTwice }
const ALL: &[New] = &[New::Silent, New::Empty, New::One, New::Two, New::Pushed, New::EndedSilent, New::EndedOne, New::EndedTwice];
const SOME: &[New] = &[New::Silent, New::One, New::EndedSilent];

struct World { outer: Ctl<(usize, VSrc<V>)>, all: Vec<VecIn> }
impl World {
    /// one more value of the outer signal; `batch`: earlier ones are still delivered
    fn next(&mut self, k: New, batch: bool) {
        let n = self.all.len();
        note(|| format!("outer: inner {} ({:?}){}", n, k, if batch { ", not skipping" } else { "" }));
        let (mut v, s) = VecIn::numbered(&format!("inner {}", n), 50 * n as u32);
        match k {
            New::Silent | New::EndedSilent => {}
            New::Empty => v.replace(&[]),
            New::One | New::EndedOne => v.replace(&[0]),
            New::Two => v.replace(&[0, 0]),
            New::Pushed => { v.act(Shape::Push(0)); v.act(Shape::Push(0)); }
            New::EndedTwice => { v.replace(&[0]); v.act(Shape::Push(0)); }
        }
        if matches!(k, New::EndedSilent | New::EndedOne | New::EndedTwice) { v.end() }
        self.all.push(v);
        if batch { self.outer.push((n, s)) } else { self.outer.set((n, s)) }
    }
    fn over(&self) -> bool { self.outer.closed() && self.all.last().unwrap().ctl.closed() }
}

fn switch(depth: usize, kinds: &'static [New], start: &[New], hiccups: bool) {
    let (outer, s) = source("outer");
    let mut w = World { outer, all: vec![] };
    let calls: Rc<RefCell<Vec<usize>>> = Default::default();
    let c = calls.clone();
    let out: Dyn<V> = Box::pin(s.switch_signal_vec(move |(n, v)| { note(|| format!("callback(inner {})", n)); c.borrow_mut().push(n); v }));
    let mut ex = Exec::new(Sv(out));
    let mut mirror: Vec<V> = vec![];
    fn item(m: &mut Vec<V>, d: VecDiff<V>) { note(|| format!("output {:?}", d)); apply(m, d) }
    let check = |ex: &Exec<Sv<Dyn<V>>>, m: &Vec<V>, w: &World| {
        if ex.ended { assert!(w.over(), "the output ends although the outer signal or the current inner vec has not ended"); }
        if !ex.runnable() { assert_eq!(*m, w.all.last().unwrap().cur, "replaying the output"); }
        if ex.waiting() { assert!(!w.over(), "the output is blocked although everything has ended"); }
        let c = calls.borrow();
        assert!(c.windows(2).all(|x| x[0] < x[1]), "the callback is called twice for a value, or for an older value");
    };
    for (i, k) in start.iter().enumerate() { w.next(*k, false); if i + 1 < start.len() { ex.run(&mut |d| item(&mut mirror, d)); } }
    schedule(&mut ex, &mut |d| item(&mut mirror, d));
    check(&ex, &mirror, &w);
    for _ in 0..depth {
        if w.over() { break; }
        let inner_open = !w.all.last().unwrap().ctl.closed();
        let shapes = if inner_open { w.all.last().unwrap().shapes(1, 2) } else { vec![] };
        let a = if w.outer.closed() { 0 } else { 2 * kinds.len() + 1 + hiccups as usize };
        let b = if inner_open { shapes.len() + 1 + hiccups as usize } else { 0 };
        let c = choose(a + b + 1);
        if c == 0 { break; }
        let mut c = c - 1;
        if c < a {
            if c < 2 * kinds.len() { w.next(kinds[c / 2], c % 2 == 1); }
            else if c == 2 * kinds.len() { note(|| "outer ends".into()); w.outer.end(); }
            else { note(|| "the next poll of the outer signal yields to itself".into()); w.outer.hiccup(); w.outer.spurious_wake(); }
        } else {
            c -= a;
            let s = w.all.last_mut().unwrap();
            note(|| format!("{} of the current inner vec:", c));
            if c < shapes.len() { s.act(shapes[c]); } else if c == shapes.len() { s.end(); } else { note(|| "its next poll yields to itself".into()); s.ctl.hiccup(); s.ctl.spurious_wake(); }
        }
        schedule(&mut ex, &mut |d| item(&mut mirror, d));
        check(&ex, &mirror, &w);
        let l = w.all.last().unwrap();
        state(&(l.cur.len(), l.ctl.undelivered(), l.ctl.closed(), w.outer.undelivered(), w.outer.closed(), ex.waiting(), mirror.len()));
    }
    ex.run(&mut |d| item(&mut mirror, d));
    check(&ex, &mirror, &w);
    let outer_first = flip();
    for k in 0..2 {
        if (k == 0) == outer_first { if !w.outer.closed() { note(|| "outer ends".into()); w.outer.end(); } }
        else if !w.all.last().unwrap().ctl.closed() { w.all.last_mut().unwrap().end(); }
        ex.run(&mut |d| item(&mut mirror, d));
        check(&ex, &mirror, &w);
    }
    assert!(ex.ended, "the output does not end");
    outcome(&(mirror.len(), ex.polls, w.all.len()));
    ex.drop_out();
    assert!(w.outer.dropped() && w.all.iter().all(|s| s.ctl.dropped()), "an input is kept alive");
}

// ------------------------------------------------------------ diffs are passed on

/// 0: boxed_local; 1: boxed; 2: Box; 3: &mut; 4: debug; 5: poll_vec_change_unpin; 6: a signal vec in a Pin<Box>
struct Pass<const K: usize> { seen: Vec<String>, mirror: Vec<V> }
struct Sendable(VSrc<V>);
unsafe impl Send for Sendable {}
impl SignalVec for Sendable {
    type Item = V;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<V>>> { Pin::new(&mut self.0).poll_vec_change(cx) }
}
struct ByRef(VSrc<V>);
impl SignalVec for ByRef {
    type Item = V;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<V>>> { let mut r = &mut self.0; SignalVec::poll_vec_change(Pin::new(&mut r), cx) }
}
struct ByUnpin(VSrc<V>);
impl SignalVec for ByUnpin {
    type Item = V;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<V>>> { self.0.poll_vec_change_unpin(cx) }
}
impl<const K: usize> Watch for Pass<K> {
    type P = Sv<Dyn<V>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) {
        let out: Dyn<V> = match K {
            0 => src.boxed_local(),
            1 => Sendable(src).boxed(),
            2 => Box::pin(Box::new(src)),
            3 => Box::pin(ByRef(src)),
            4 => Box::pin(src.debug()),
            5 => Box::pin(ByUnpin(src)),
            _ => Box::pin(Box::pin(src)),
        };
        (Pass { seen: vec![], mirror: vec![] }, Sv(out))
    }
    fn item(&mut self, d: VecDiff<V>) { note(|| format!("output {:?}", d)); self.seen.push(format!("{:?}", d)); d.apply_to_vec(&mut self.mirror) }
    fn step(&mut self, s: &VecIn) { assert!(s.sent.starts_with(&self.seen), "the output is not what the source sent: {:?}", self.seen); }
    fn caught_up(&mut self, s: &VecIn) { assert_eq!(self.seen, s.sent, "diffs"); assert_eq!(self.mirror, s.cur, "contents after apply_to_vec"); }
}

/// to_stream
struct AsStream { seen: Vec<String> }
impl Watch for AsStream {
    type P = St<Pin<Box<dyn Stream<Item = VecDiff<V>>>>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) { (AsStream { seen: vec![] }, St(Box::pin(src.to_stream()))) }
    fn item(&mut self, d: VecDiff<V>) { note(|| format!("output {:?}", d)); self.seen.push(format!("{:?}", d)) }
    fn step(&mut self, s: &VecIn) { assert!(s.sent.starts_with(&self.seen), "the output is not what the source sent: {:?}", self.seen); }
    fn caught_up(&mut self, s: &VecIn) { assert_eq!(self.seen, s.sent, "diffs"); }
}

/// for_each; N: futures complete at once
struct Each<const N: bool> { seen: Rc<RefCell<Vec<(String, Ctl<()>)>>>, finished: usize }
impl<const N: bool> Each<N> { fn running(&self) -> bool { self.seen.borrow().len() > self.finished } }
impl<const N: bool> Watch for Each<N> {
    type P = Fu<Pin<Box<dyn std::future::Future<Output = ()>>>>;
    fn make(src: VSrc<V>) -> (Self, Self::P) {
        let seen: Rc<RefCell<Vec<(String, Ctl<()>)>>> = Default::default();
        let s = seen.clone();
        let f = src.for_each(move |d| {
            note(|| format!("callback({:?})", d));
            let (c, f) = future("a future of for_each");
            if N { c.push(()) }
            if let Some((_, c)) = s.borrow().last() { assert!(c.taken() == 1, "the callback is called while a future is running"); }
            s.borrow_mut().push((format!("{:?}", d), c));
            f
        });
        (Each { seen, finished: 0 }, Fu(Box::pin(f), false))
    }
    fn item(&mut self, _: ()) { note(|| "for_each completes".into()) }
    fn step(&mut self, s: &VecIn) {
        let seen = self.seen.borrow();
        assert!(seen.len() <= s.sent.len() && seen.iter().zip(&s.sent).all(|(a, b)| a.0 == *b), "the callback does not get what the source sent");
        if N { self.finished = seen.len() }
    }
    fn caught_up(&mut self, s: &VecIn) { if !self.running() { assert_eq!(self.seen.borrow().len(), s.sent.len(), "number of diffs handed to the callback"); } }
    fn extras(&self, _s: &VecIn) -> usize { if self.running() { 2 } else { 0 } }
    fn extra(&mut self, n: usize, _s: &VecIn) {
        let c = self.seen.borrow().last().unwrap().1.clone();
        if n == 0 { note(|| "the future completes".into()); self.finished += 1; c.push(()) }
        else { note(|| "the next poll of the future yields to itself".into()); c.hiccup(); c.spurious_wake() }
    }
    fn over(&self, s: &VecIn) -> bool { self.finished == s.sent.len() }
    fn finish(&mut self, _s: &VecIn) {}
    fn finish_more(&mut self) -> bool { if self.running() { self.extra_done(); true } else { false } }
    const EXTRAS: bool = true;
    fn gone(&mut self) { assert!(self.seen.borrow().iter().all(|e| e.1.dropped()), "a future is kept alive"); }
}
impl<const N: bool> Each<N> { fn extra_done(&mut self) { let c = self.seen.borrow().last().unwrap().1.clone(); self.finished += 1; c.push(()) } }

// ------------------------------------------------------------ to_signal_vec, from_stream, always

fn contents(form: usize, depth: usize) {
    // 0: to_signal_vec of a signal of vecs; 1: from_stream of a stream of values
    let mut ex;
    let mut mirror: Vec<V> = vec![];
    let mut want: Vec<V> = vec![];
    let (sig, sigs) = source_with::<Vec<V>>("the signal", vec![]);
    let (st, sts) = source::<V>("the stream");
    let mut diffs = 0;
    let mut sent = 0;
    ex = Exec::new(Sv(if form == 0 { let d: Dyn<V> = Box::pin(sigs.to_signal_vec()); d } else { Box::pin(from_stream_of(sts)) }));
    let closed = |x: &Ctl<Vec<V>>, y: &Ctl<V>| if form == 0 { x.closed() } else { y.closed() };
    let check = |ex: &Exec<Sv<Dyn<V>>>, m: &Vec<V>, want: &Vec<V>, diffs: usize, sent: usize| {
        let over = closed(&sig, &st);
        if ex.ended { assert!(over, "the output ends although its input has not ended"); }
        if ex.waiting() { assert!(!over, "the output is blocked although its input has ended"); }
        if !ex.runnable() { assert_eq!(m, want, "replaying the output"); }
        if form == 1 { assert!(diffs <= sent); if !ex.runnable() { assert_eq!(diffs, sent, "number of diffs"); } }
    };
    let mut item = |m: &mut Vec<V>, n: &mut usize, d: VecDiff<V>| { note(|| format!("output {:?}", d)); *n += 1; apply(m, d) };
    schedule(&mut ex, &mut |d| item(&mut mirror, &mut diffs, d));
    check(&ex, &mirror, &want, diffs, sent);
    let mut k = 0;
    for _ in 0..depth {
        if closed(&sig, &st) { break; }
        match choose(if form == 0 { 7 } else { 4 }) {
            0 => break,
            1 => { note(|| "the input ends".into()); if form == 0 { sig.end() } else { st.end() } }
            2 => { note(|| "the next poll of the input yields to itself".into()); if form == 0 { if ex.polls > 0 { sig.hiccup(); sig.spurious_wake() } } else { st.hiccup(); st.spurious_wake() } }
            3 if form == 1 => { k += 1; sent += 1; want.push(k); note(|| format!("the stream yields {}", k)); st.push(k) }
            c => {
                let n = (c - 3) / 2 + 1;
                want = (0..if c == 3 { 0 } else { n }).map(|_| { k += 1; k as V }).collect();
                let v = want.clone();
                note(|| format!("the signal changes to {:?}{}", v, if c == 6 { ", not skipping" } else { "" }));
                if c == 6 { sig.push(v) } else { sig.set(v) }
            }
        }
        schedule(&mut ex, &mut |d| item(&mut mirror, &mut diffs, d));
        check(&ex, &mirror, &want, diffs, sent);
    }
    ex.run(&mut |d| item(&mut mirror, &mut diffs, d));
    check(&ex, &mirror, &want, diffs, sent);
    if !closed(&sig, &st) { if form == 0 { sig.end() } else { st.end() } ex.run(&mut |d| item(&mut mirror, &mut diffs, d)); check(&ex, &mirror, &want, diffs, sent); }
    assert!(ex.ended, "the output does not end");
    outcome(&(mirror.len(), ex.polls));
    ex.drop_out();
    if form == 0 { assert!(sig.dropped(), "the input is kept alive") } else { assert!(st.dropped(), "the input is kept alive") }
}
fn from_stream_of(s: Src<V>) -> impl SignalVec<Item = V> { futures_signals::signal_vec::from_stream(s) }

fn constant() {
    tok_reset();
    let n = choose(4);
    let want: Vec<V> = (0..n as V).collect();
    let values: Vec<Tok> = want.iter().map(|v| Tok::new(*v)).collect();
    let mut ex = Exec::new(Sv(futures_signals::signal_vec::always(values)));
    let mut mirror: Vec<Tok> = vec![];
    let stop = choose(3);
    for i in 0..3 {
        if i == stop { ex.drop_out(); }
        if ex.ended { break; }
        if ex.force(&mut |d| apply(&mut mirror, d)) == Step::Pending { panic!("a constant signal vec is pending"); }
    }
    if stop > 0 { assert_eq!(mirror.iter().map(|t| t.get()).collect::<Vec<_>>(), want, "contents"); }
    if stop > 1 { assert!(ex.ended, "a constant signal vec does not end"); }
    ex.drop_out();
    drop(mirror);
    if let Err(e) = tok_verdict() { panic!("{}", e); }
    outcome(&(n, stop));
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::A, Leaf::Chan], &[Op::ToVec, Op::SwitchVecAlways, Op::SwitchVecB, Op::SwitchVecV]); }
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::Vec_], &[Op::VStream, Op::VBoxed, Op::VDebug, Op::VSnapshot]); }
    mc::huge::jobs(&mut js, mc::stack::Leaf::A, &[mc::stack::Op::SwitchVecV]);
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[mc::stack::Op::VStream, mc::stack::Op::VBoxed, mc::stack::Op::VSnapshot]);
    for k in ALL { js.push(seq(format!("switch_signal_vec, starting with {:?}, depth 2, self-waking polls", k), move || switch(2, ALL, &[*k], true))); }
    for st in [&[New::Two, New::Silent][..], &[New::One, New::Two], &[New::EndedTwice, New::EndedOne], &[New::Two, New::EndedOne]] {
        js.push(seq(format!("switch_signal_vec, starting with {:?}, depth 2", st), move || switch(2, ALL, st, false)));
    }
    for k in [New::Silent, New::One, New::Two] { js.push(seq(format!("switch_signal_vec, starting with {:?}, depth 3", k), move || switch(3, SOME, &[k], false))); }
    if t.thorough() {
        for k in ALL { js.push(seq(format!("switch_signal_vec, starting with {:?}, depth 3, self-waking polls", k), move || switch(3, ALL, &[*k], true))); }
        for k in [New::Silent, New::Two] { js.push(seq(format!("switch_signal_vec, starting with {:?}, depth 4", k), move || switch(4, SOME, &[k], false))); }
    }
    let b = Bounds { depth: 3, classes: 1, maxlen: 3, hiccups: true };
    const S: &[&[u32]] = &[&[], &[0, 0]];
    unary_jobs::<Pass<0>>(&mut js, "boxed_local", b, S);
    unary_jobs::<Pass<1>>(&mut js, "boxed", b, S);
    unary_jobs::<Pass<2>>(&mut js, "Box", b, S);
    unary_jobs::<Pass<3>>(&mut js, "&mut", b, S);
    unary_jobs::<Pass<4>>(&mut js, "debug", b, S);
    unary_jobs::<Pass<5>>(&mut js, "poll_vec_change_unpin", b, S);
    unary_jobs::<Pass<6>>(&mut js, "Pin", b, S);
    unary_jobs::<AsStream>(&mut js, "to_stream", b, S);
    unary_jobs::<Each<true>>(&mut js, "for_each", b, S);
    unary_jobs::<Each<false>>(&mut js, "for_each with pending futures", b, S);
    unary_large::<AsStream>(&mut js, "to_stream", 1, &[(70, 1), (300, 1)]);
    unary_large::<Each<true>>(&mut js, "for_each", 1, &[(70, 1), (300, 1)]);
    unary_large::<Each<false>>(&mut js, "for_each with pending futures", 1, &[(70, 1)]);
    let n = t.pick(6, 7);
    js.push(seq(format!("to_signal_vec, depth {}", n), move || contents(0, n)));
    js.push(seq(format!("from_stream, depth {}", n + 2), move || contents(1, n + 2)));
    js.push(seq("always", constant));
    js
}

fn main() {
    mc::main(Spec {
        property: "C17",
        assumptions: vec!["the inputs follow their protocols (valid diffs, a signal has a first value, woken when they change; a poll after the end is reported)".into()],
        notes: "every interleaving of outer changes, inner diffs, ends and self-waking polls up to the depth, with the output polled to quiescence, once, not at all, or without a wake-up after each".into(),
    }, jobs)
}
