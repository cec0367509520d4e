//! C04: Broadcaster signals under every interleaving.
use futures_signals::signal::*;
use mc::conc::*;
use mc::src::*;
use mc::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

type Dyn = Pin<Box<dyn Signal<Item = u32>>>;

// ------------------------------------------------- a source with scheduling points

struct CIn { queue: VecDeque<u32>, closed: bool, over: bool, waker: Option<Waker>, polling: bool }
struct CSrc(Rc<(Meta, RefCell<CIn>)>);
struct CCtl(Rc<(Meta, RefCell<CIn>)>);
fn csource(v: u32) -> (CCtl, CSrc) {
    let i = Rc::new((Meta::new(), RefCell::new(CIn { queue: VecDeque::from(vec![v]), closed: false, over: false, waker: None, polling: false })));
    (CCtl(i.clone()), CSrc(i))
}
fn point(i: &Rc<(Meta, RefCell<CIn>)>) { rt::op(Kind::Write, Some(&i.0)); }
impl CCtl {
    fn act(&self, f: impl FnOnce(&mut CIn)) {
        point(&self.0);
        let w = { let mut i = self.0.1.borrow_mut(); f(&mut i); i.waker.take() };
        if let Some(w) = w { w.wake() }
    }
    fn push(&self, v: u32) { self.act(|i| i.queue.push_back(v)) }
    fn end(&self) { self.act(|i| i.closed = true) }
}
impl Signal for CSrc {
    type Item = u32;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u32>> {
        point(&self.0);
        {
            let mut i = self.0.1.borrow_mut();
            if i.polling { rt::fail("the source is polled while it is being polled".into()); }
            if i.over { rt::fail("the source is polled after it has ended".into()); }
            i.polling = true;
        }
        point(&self.0);
        let r = {
            let mut i = self.0.1.borrow_mut();
            match i.queue.pop_front() {
                Some(v) => Poll::Ready(Some(v)),
                None if i.closed => { i.over = true; Poll::Ready(None) }
                None => { i.waker = Some(cx.waker().clone()); Poll::Pending }
            }
        };
        rt::observe(hash_of(&r));
        point(&self.0);
        self.0.1.borrow_mut().polling = false;
        r
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum From { Scripted, Chan, Mut }
#[derive(Clone, Copy, Debug)]
enum Op { Push, End }
use Op::*;
#[derive(Clone, Copy, Debug)]
struct Sub { kind: u8, spurious: usize, drop_after: usize, late: bool }
#[derive(Clone, Debug)]
struct Sc { from: From, prog: Vec<Op>, subs: Vec<Sub> }

enum Prod { S(CCtl), C(Sender<u32>), M(Mutable<u32>) }
impl Prod {
    fn push(&self, v: u32) { match self { Prod::S(c) => c.push(v), Prod::C(s) => { let _ = s.send(v); } Prod::M(m) => m.set(v) } }
    fn end(self) { if let Prod::S(c) = self { c.end() } }
}

fn poll_kind(b: &Broadcaster<Dyn>, kind: u8) -> Dyn {
    match kind { 0 => Box::pin(b.signal()), 1 => Box::pin(b.signal_cloned()), _ => Box::pin(b.signal_ref(|v| *v)) }
}

fn scenario(sc: &Sc, sim: &mut Sim) -> Check {
    let world = World::new();
    let (prod, src): (Prod, Dyn) = match sc.from {
        From::Scripted => { let (c, s) = csource(1); (Prod::S(c), Box::pin(s)) }
        From::Chan => { let (c, s) = channel(1); (Prod::C(c), Box::pin(s)) }
        From::Mut => { let m = Mutable::new(1); let s = m.signal(); (Prod::M(m), Box::pin(s)) }
    };
    let b = Broadcaster::new(src);
    let logs: Vec<Shared<u32>> = sc.subs.iter().map(|_| Shared::new()).collect();
    for (s, log) in sc.subs.iter().zip(&logs) {
        let (s, log, w) = (*s, log.clone(), world.clone());
        let opt = Opt { spurious: s.spurious, drop_after: s.drop_after, first_ready: true };
        if s.late {
            let b = b.clone();
            sim.thread(move || {
                w.step();
                rt::trace(|| "create signal".into());
                let sig = poll_kind(&b, s.kind);
                drop(b);
                consume(Sg(sig), &w, &log, opt, |v| v.to_string());
            });
        } else {
            let sig = poll_kind(&b, s.kind);
            sim.thread(move || consume(Sg(sig), &w, &log, opt, |v| v.to_string()));
        }
    }
    drop(b);
    let left = Rc::new(RefCell::new(None));
    {
        let (prog, left, w) = (sc.prog.clone(), left.clone(), world.clone());
        sim.thread(move || {
            let mut p = Some(prod);
            for (i, o) in prog.iter().enumerate() {
                w.step();
                match o { Push => { rt::trace(|| format!("push {}", i + 2)); p.as_ref().unwrap().push(i as u32 + 2) } End => { rt::trace(|| "end".into()); p.take().unwrap().end() } }
            }
            *left.borrow_mut() = p;
        });
    }
    let last = 1 + sc.prog.iter().filter(|o| matches!(o, Push)).count() as u32;
    let ends = matches!(sc.prog.last(), Some(End));
    Box::new(move |_| {
        let mut oc = vec![];
        for (i, l) in logs.iter().enumerate() {
            let l = l.0.borrow();
            oc.push((l.vals.clone(), l.ended));
            need(!l.first_pending, || format!("subscriber {}: the first poll was Pending", i))?;
            need(l.vals.windows(2).all(|w| w[0] < w[1]), || format!("subscriber {}: yields {:?}, not in source order", i, l.vals))?;
            need(l.vals.iter().all(|v| *v >= 1 && *v <= last), || format!("subscriber {}: yields {:?}", i, l.vals))?;
            if !l.stopped {
                need(l.vals.last() == Some(&last), || format!("subscriber {}: the latest source value is {} but it yielded {:?} and is {}", i, last, l.vals, if l.ended { "ended" } else { "blocked" }))?;
                need(l.ended == ends, || format!("subscriber {}: ended = {} although source ended = {}", i, l.ended, ends))?;
            } else if l.ended { need(ends && l.vals.last() == Some(&last), || format!("subscriber {} ends early", i))?; }
        }
        outcome(&oc);
        drop(left);
        Ok(())
    })
}

/// Every single-threaded history, exactly.
fn history(depth: usize, hiccups: bool) {
    let (ctl, src) = source_with("source", 1u32);
    let mut b = Some(Broadcaster::new(Box::pin(src) as Dyn));
    struct S { ex: Exec<Sg<Dyn>>, seen: u32, waiting: Option<u64>, got: Vec<u32> }
    let mut subs: Vec<S> = vec![];
    let mut latest = 1;
    let mut ended = false;
    let mut dropped_one = false;
    let mut oc = vec![];
    for _ in 0..depth {
        let mut ops: Vec<(u8, usize)> = vec![(0, 0)];
        if !ended { ops.push((1, 0)); ops.push((2, 0)); if hiccups && ctl.taken() > 0 { ops.push((3, 0)); } }
        if b.is_some() && subs.len() < 3 { for k in 0..3 { if k == subs.len() { ops.push((4, k)); } } ops.push((5, 0)); }
        for i in 0..subs.len() { if !subs[i].ex.ended { ops.push((6, i)); if !dropped_one { ops.push((7, i)); } } }
        let (o, i) = pick(&ops);
        let notifies = o == 1 || o == 2;
        match o {
            0 => break,
            1 => { latest += 1; note(|| format!("source: {}", latest)); ctl.push(latest); }
            2 => { ended = true; note(|| "source: end".into()); ctl.end(); }
            3 => { note(|| "source: the next poll yields to itself".into()); ctl.hiccup(); }
            4 => { note(|| format!("create signal {}", i)); subs.push(S { ex: Exec::new(Sg(poll_kind(b.as_ref().unwrap(), i as u8))), seen: 0, waiting: None, got: vec![] }); }
            5 => { note(|| "drop broadcaster".into()); b = None; }
            6 => {
                let mut v = None;
                let s = &mut subs[i];
                let r = s.ex.force(&mut |x| v = Some(x));
                note(|| format!("poll signal {} -> {:?} {:?}", i, r, v));
                s.waiting = None;
                match r {
                    Step::Item => {
                        let v = v.unwrap();
                        assert!(v > s.seen, "signal {} yields {} after {}", i, v, s.seen);
                        if !hiccups { assert_eq!(v, latest, "signal {} yields {} but the latest value is {}", i, v, latest); }
                        s.seen = v;
                        s.got.push(v);
                    }
                    Step::End => { assert!(ended && s.seen == latest, "signal {} ends too early (latest {}, yielded {})", i, latest, s.seen); }
                    Step::Pending => {
                        if !hiccups { assert!(s.seen == latest && !ended, "signal {} is Pending although the source is at {} (ended {}) and it yielded {}", i, latest, ended, s.seen); }
                        if s.seen == latest && !ended && !hiccups { s.waiting = Some(s.ex.task.wakes()); }
                    }
                    Step::Idle => {}
                }
                continue;
            }
            _ => { note(|| format!("drop signal {}", i)); subs[i].ex.drop_out(); subs[i].waiting = None; dropped_one = true; }
        }
        if notifies {
            for (i, s) in subs.iter_mut().enumerate() {
                if let Some(n) = s.waiting.take() { assert!(s.ex.task.wakes() > n, "signal {} is waiting and is not woken", i); }
            }
        }
        state(&(latest, ended, subs.iter().map(|s| (s.seen, s.waiting.is_some(), s.ex.ended)).collect::<Vec<_>>()));
    }
    // every signal that is polled whenever it is woken converges
    for _ in 0..8 {
        for s in subs.iter_mut() { let mut v = vec![]; s.ex.run(&mut |x| v.push(x)); for x in v { assert!(x > s.seen); s.seen = x; s.got.push(x); } }
    }
    for (i, s) in subs.iter().enumerate() {
        oc.push((s.got.clone(), s.ex.ended));
        if s.ex.exists() {
            assert!(s.seen == latest, "signal {} stays at {:?} although the source is at {}", i, s.got, latest);
            assert_eq!(s.ex.ended, ended, "signal {} ended", i);
        }
    }
    outcome(&oc);
    drop(b);
    for s in subs.iter_mut() { s.ex.drop_out(); }
    assert!(ctl.dropped(), "the source is kept alive");
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js: Vec<Job> = vec![];
    { use mc::stack::{Leaf, Op}; mc::huge::marathons(&mut js, &[Leaf::A, Leaf::Chan], &[Op::Broad, Op::BroadRef, Op::BroadTwice]); }
    let mut add = |sc: Sc, budget: u32| {
        let name = format!("{:?} {:?} {}", sc.from, sc.prog, sc.subs.iter().map(|s| format!("k{}s{}d{}{}", s.kind, s.spurious, s.drop_after, if s.late { "late" } else { "" })).collect::<Vec<_>>().join("+"));
        if js.iter().any(|j| j.name == name) { return; }
        js.push(conc(name, budget, move |sim| scenario(&sc, sim)));
    };
    let sub = |kind, spurious, drop_after, late| Sub { kind, spurious, drop_after, late };
    for from in [From::Scripted, From::Chan, From::Mut] {
        for prog in [vec![Push], vec![End], vec![Push, End], vec![Push, Push], vec![Push, Push, End]] {
            for k in 0..3 { add(Sc { from, prog: prog.clone(), subs: vec![sub(k, 0, 0, false)] }, if prog.len() > 1 { t.pick(4, 5) } else { UNBOUNDED }); }
            add(Sc { from, prog: prog.clone(), subs: vec![sub(0, 1, 0, false)] }, t.pick(4, 5));
            add(Sc { from, prog: prog.clone(), subs: vec![sub(2, 0, 0, true)] }, t.pick(4, 5));
        }
        for prog in [vec![Push], vec![End], vec![Push, End], vec![Push, Push]] {
            let small = prog.len() == 1;
            for (a, b) in [(sub(0, 0, 0, false), sub(1, 0, 0, false)), (sub(0, 0, 0, false), sub(2, 1, 0, false)), (sub(0, 0, 0, false), sub(2, 0, 1, false)), (sub(1, 0, 0, false), sub(0, 0, 2, false)), (sub(2, 0, 0, false), sub(1, 0, 0, true)), (sub(2, 0, 1, true), sub(1, 0, 0, true))] {
                add(Sc { from, prog: prog.clone(), subs: vec![a, b] }, if small { t.pick(4, 5) } else { t.pick(3, 4) });
            }
            { add(Sc { from, prog: prog.clone(), subs: vec![sub(0, 0, 0, false), sub(1, 0, 0, false), sub(2, 0, 0, false)] }, if small { t.pick(2, 3) } else { t.pick(1, 2) }); }
        }
    }
    crowd::jobs::<crowd::Cast<true>>(&mut js, "Broadcaster of a Mutable", t);
    crowd::jobs::<crowd::Cast<false>>(&mut js, "Broadcaster of a channel", t);
    let d = t.pick(9, 11);
    js.push(seq(format!("single-threaded histories, depth {}", d), move || history(d, false)));
    let d = t.pick(8, 10);
    js.push(seq(format!("single-threaded histories with self-waking polls, depth {}", d), move || history(d, true)));
    js
}

fn main() {
    mc::main(Spec { property: "C04", assumptions: vec!["sequentially consistent memory".into()], notes: "Real Broadcaster over a scripted source, a channel and a Mutable; every lock/atomic operation is a scheduling point.".into() }, jobs)
}
