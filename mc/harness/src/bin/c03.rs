//! C03: the signal channel under every interleaving.
use futures_signals::signal::*;
use mc::conc::*;
use mc::src::*;
use mc::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Send, Close, CloneDrop, CloneSend, Drop, CloneClose }
use Op::*;

#[derive(Clone, Debug)]
struct Ev { what: Op, v: u32, ok: bool, start: u64, end: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rx { Consume(usize), DropAfter(usize) }

#[derive(Clone, Debug)]
struct Sc { rx: Rx, progs: Vec<Vec<Op>>, keep: bool }

fn scenario(sc: &Sc, sim: &mut Sim) -> Check {
    let world = World::new();
    let (tx, rx) = channel(0u32);
    let log: Shared<u32> = Shared::new();
    let evs: Rc<RefCell<Vec<Ev>>> = Rc::new(RefCell::new(vec![]));
    let rx_drop: Rc<RefCell<Option<(u64, u64)>>> = Rc::new(RefCell::new(None));
    {
        let (w, log, d) = (world.clone(), log.clone(), rx_drop.clone());
        let opt = match sc.rx { Rx::Consume(s) => Opt { spurious: s, drop_after: 0, first_ready: true }, Rx::DropAfter(n) => Opt { spurious: 0, drop_after: n, first_ready: true } };
        sim.thread(move || {
            let rx = rx;
            let mut rx = Box::new(rx);
            struct R<'a>(&'a mut Receiver<u32>);
            impl Polled for R<'_> {
                type Out = u32;
                fn poll_it(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Option<u32>> { std::pin::Pin::new(&mut *self.get_mut().0).poll_change(cx) }
            }
            consume(R(&mut rx), &w, &log, opt, |v| v.to_string());
            let stopped = log.0.borrow().stopped;
            if stopped {
                let s = w.step();
                rt::trace(|| "drop receiver".into());
                drop(rx);
                let e = w.step();
                *d.borrow_mut() = Some((s, e));
            }
        });
    }
    let mut keepers = vec![];
    for (t, prog) in sc.progs.iter().cloned().enumerate() {
        let (w, evs, tx) = (world.clone(), evs.clone(), tx.clone());
        let slot: Rc<RefCell<Option<Sender<u32>>>> = Rc::new(RefCell::new(None));
        keepers.push(slot.clone());
        sim.thread(move || {
            let mut h = Some(tx);
            for (k, op) in prog.iter().enumerate() {
                let v = 10 * (t as u32 + 1) + k as u32;
                let start = w.step();
                let mut ok = true;
                match op {
                    Send => match h.as_ref().unwrap().send(v) { Ok(()) => {} Err(x) => { ok = false; if x != v { rt::fail(format!("send hands back {} instead of {}", x, v)); } } },
                    Close => h.as_ref().unwrap().close(),
                    CloneDrop => drop(h.as_ref().unwrap().clone()),
                    CloneSend => { let c = h.as_ref().unwrap().clone(); drop(h.take()); if c.send(v).is_err() { ok = false; } h = Some(c); }
                    CloneClose => { let c = h.as_ref().unwrap().clone(); c.close(); }
                    Drop => drop(h.take()),
                }
                rt::observe(ok as u64);
                rt::trace(|| format!("{:?} {} -> {}", op, v, ok));
                let end = w.step();
                evs.borrow_mut().push(Ev { what: *op, v, ok, start, end });
                if *op == Drop { return; }
            }
            *slot.borrow_mut() = h;
        });
    }
    let kept = if sc.keep { Some(tx) } else { drop(tx); None };
    let all_dropped = !sc.keep && sc.progs.iter().all(|p| p.last() == Some(&Drop));
    Box::new(move |_| {
        let evs = evs.borrow();
        let l = log.0.borrow();
        outcome(&(l.vals.clone(), l.ended, evs.iter().map(|e| (e.what as u32, e.v, e.ok)).collect::<Vec<_>>()));
        let is_send = |e: &&Ev| matches!(e.what, Send | CloneSend);
        let is_close = |e: &&Ev| matches!(e.what, Close | CloneClose);
        let closed = evs.iter().any(|e| is_close(&e));
        for e in evs.iter().filter(is_send) {
            let close_before = evs.iter().filter(is_close).any(|c| c.end < e.start);
            let close_overlap = evs.iter().filter(is_close).any(|c| c.start < e.end);
            // sender calls that overlap the drop of the receiver may keep the channel alive until they return
            let held = |mut t: u64| { loop { let u = evs.iter().filter(|o| o.v != e.v && o.start < t).map(|o| o.end).max().unwrap_or(0).max(t); if u == t { return t; } t = u; } };
            let (gone_before, gone_overlap) = match *rx_drop.borrow() { Some((s, x)) => (held(x) < e.start, s < e.end), None => (false, false) };
            if close_before || gone_before { need(!e.ok, || format!("send of {} is accepted although {}", e.v, if close_before { "the channel was closed" } else { "the receiver was dropped" }))?; }
            if !close_overlap && !gone_overlap { need(e.ok, || format!("send of {} is refused on an open channel", e.v))?; }
        }
        need(!l.first_pending, || "the first poll was Pending".into())?;
        let accepted: Vec<&Ev> = evs.iter().filter(|e| is_send(e) && e.ok).collect();
        let find = |v: u32| accepted.iter().find(|e| e.v == v);
        for (i, v) in l.vals.iter().enumerate() {
            need(*v == 0 || find(*v).is_some(), || format!("yields {} which was not accepted", v))?;
            need(*v != 0 || i == 0, || format!("the initial value is not the first one: {:?}", l.vals))?;
            for w in &l.vals[..i] {
                need(w != v, || format!("yields {} twice: {:?}", v, l.vals))?;
                if let (Some(a), Some(b)) = (find(*w), find(*v)) { need(!(b.end < a.start), || format!("yields {} after {} although it was sent before: {:?}", v, w, l.vals))?; }
            }
        }
        if !l.stopped {
            let first_close = evs.iter().filter(is_close).map(|c| c.start).min().unwrap_or(u64::MAX);
            let must: Vec<&&Ev> = accepted.iter().filter(|e| e.end < first_close).collect();
            let last = *l.vals.last().ok_or("no value was ever yielded")?;
            let fine = match find(last) {
                Some(e) => e.end > first_close || !must.iter().any(|m| m.start > e.end),
                None => must.is_empty(),
            };
            need(fine, || format!("the last accepted value is lost: yielded {:?}, accepted {:?}, ended {}", l.vals, accepted.iter().map(|e| e.v).collect::<Vec<_>>(), l.ended))?;
            need(l.ended == (closed || all_dropped), || format!("ended = {} although closed = {}, all senders dropped = {}", l.ended, closed, all_dropped))?;
        }
        drop(l);
        drop((kept, keepers));
        Ok(())
    })
}

/// Every single-threaded history, exactly.
fn history(depth: usize) {
    let (tx, rx) = channel(0u32);
    let mut senders = vec![tx];
    let mut ex = Some(Exec::new(Sg(rx)));
    let mut pending: Option<u32> = Some(0);
    let mut closed = false;
    let mut armed = false;
    let mut wakes = 0;
    let mut seen = vec![];
    for k in 0..depth {
        let c = choose(8);
        let v = 10 + k as u32;
        if ex.is_none() && (c == 1 || c == 7) { break; }
        let open = !closed && !senders.is_empty();
        match c {
            0 => break,
            1 => {
                let e = ex.as_mut().unwrap();
                if e.ended { break; }
                let mut got = None;
                let r = e.force(&mut |x| got = Some(x));
                wakes = e.task.wakes();
                note(|| format!("poll -> {:?} {:?}", r, got));
                armed = false;
                match r {
                    Step::Item => { assert!(got == pending, "poll yields {:?} instead of {:?}", got, pending); seen.push(got); pending = None; }
                    Step::End => { assert!(pending.is_none(), "ends without yielding {:?}", pending); assert!(!open, "ends although it is open and has senders"); seen.push(None); }
                    Step::Pending => { assert!(pending.is_none(), "Pending although {:?} was sent", pending); assert!(open, "Pending although the channel has ended"); armed = true; }
                    Step::Idle => {}
                }
                continue;
            }
            2 => {
                let s = match senders.last() { Some(s) => s, None => break };
                note(|| format!("send {}", v));
                match s.send(v) {
                    Ok(()) => { assert!(!closed, "send is accepted after close"); assert!(ex.is_some(), "send is accepted without receiver"); pending = Some(v); }
                    Err(x) => { assert_eq!(x, v, "send hands the value back"); assert!(closed || ex.is_none(), "send is refused on an open channel"); }
                }
                if armed && open { assert!(ex.as_ref().unwrap().task.wakes() > wakes, "a waiting receiver is not woken by a send"); armed = false; }
            }
            3 => { if senders.is_empty() || senders.len() > 2 { break; } note(|| "clone a sender".into()); let s = senders[0].clone(); senders.push(s); }
            4 => { note(|| "drop newest sender".into()); if senders.pop().is_none() { break; } }
            5 => { if senders.len() < 2 { break; } note(|| "drop oldest sender".into()); senders.remove(0); }
            6 => { note(|| "close".into()); match senders.first() { Some(s) => s.close(), None => break } closed = true; }
            _ => { note(|| "drop receiver".into()); ex = None; armed = false; pending = None; }
        }
        let still = !closed && !senders.is_empty();
        if armed && !still { assert!(ex.as_ref().unwrap().task.wakes() > wakes, "a waiting receiver is not woken by the end"); armed = false; }
        if let Some(e) = &ex { wakes = e.task.wakes(); }
        state(&(senders.len(), closed, pending, armed, ex.is_some()));
    }
    if let Some(e) = ex.as_mut() {
        if !e.ended {
            let mut got = vec![];
            e.run(&mut |x| got.push(x));
            if armed { assert!(got.is_empty()); }
            if let Some(p) = pending { assert!(got == vec![p], "the value {} is lost: {:?}", p, got); }
            assert_eq!(e.ended, closed || senders.is_empty(), "ended");
            seen.push(got.first().copied());
        }
    }
    outcome(&seen);
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js: Vec<Job> = vec![];
    let mut add = |sc: Sc, budget: u32| {
        let name = format!("{:?} | {}{}", sc.rx, sc.progs.iter().map(|p| format!("{:?}", p)).collect::<Vec<_>>().join(" || "), if sc.keep { " | kept" } else { "" });
        if js.iter().any(|j| j.name == name) { return; }
        js.push(conc(name, budget, move |sim| scenario(&sc, sim)));
    };
    let rxs = [Rx::Consume(0), Rx::Consume(1), Rx::DropAfter(1), Rx::DropAfter(2)];
    let progs: Vec<Vec<Op>> = vec![vec![Send], vec![Send, Drop], vec![Send, Send], vec![Send, Send, Drop], vec![Close], vec![Send, Close], vec![Close, Send], vec![Send, Close, Drop],
        vec![CloneDrop, Drop], vec![CloneSend, Drop], vec![Drop], vec![CloneClose, Send, Drop], vec![Close, CloneSend, Drop], vec![Send, Close, Send, Drop], vec![Send, Send, Send, Drop]];
    for r in rxs { for p in &progs { for keep in [false, true] {
        add(Sc { rx: r, progs: vec![p.clone()], keep }, if p.len() > 2 { t.pick(5, 6) } else { UNBOUNDED });
    } } }
    let two: Vec<Vec<Op>> = vec![vec![Send, Drop], vec![Drop], vec![Close], vec![CloneDrop, Drop], vec![CloneSend, Drop], vec![Close, Drop], vec![Send], vec![CloneClose, Drop], vec![Close, Send]];
    for r in [Rx::Consume(0), Rx::DropAfter(1)] { for (i, a) in two.iter().enumerate() { for b in &two[i..] {
        add(Sc { rx: r, progs: vec![a.clone(), b.clone()], keep: false }, t.pick(4, 5));
        if t.thorough() { add(Sc { rx: r, progs: vec![a.clone(), b.clone()], keep: true }, 3); }
    } } }
    if t.thorough() {
        let big: Vec<Vec<Op>> = vec![vec![Send, Send, Drop], vec![Send, Close, Drop], vec![CloneDrop, Send, Drop], vec![CloneSend, CloneSend, Drop]];
        for r in rxs { for a in &big { for b in &two { add(Sc { rx: r, progs: vec![a.clone(), b.clone()], keep: false }, 3); } } }
        for a in &two[..5] { for b in &two[..5] { for c in &two[..5] { add(Sc { rx: Rx::Consume(0), progs: vec![a.clone(), b.clone(), c.clone()], keep: false }, 2); } } }
    }
    else { for a in &two[..4] { for b in &two[..4] { for c in &two[..4] { add(Sc { rx: Rx::Consume(0), progs: vec![a.clone(), b.clone(), c.clone()], keep: false }, 1); } } } }
    for &n in crowd::HANDLES { js.push(seq(format!("{} senders", n), move || { let (s, r) = channel(1); crowd::handles(n, s, |s| s.clone(), |s, v| s.send(v).unwrap(), |_| Box::pin(r)) })); }
    let depth = 8;
    js.push(seq(format!("single-threaded histories, depth {}", depth), move || history(depth)));
    js
}

fn main() {
    mc::main(Spec { property: "C03", assumptions: vec!["sequentially consistent memory".into(), "a send that overlaps a close may be lost".into()], notes: "Real channel; every lock/atomic operation is a scheduling point; recorded calls are checked against the specification.".into() }, jobs)
}
