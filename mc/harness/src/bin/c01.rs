//! C01: signals of a Mutable under every interleaving.
use futures_signals::signal::*;
use mc::conc::*;
use mc::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum W { Set, Replace, ReplaceWith, SetIf, SetNeq, LockMut, Swap, Clone, RejectIf, LockRead }
use W::*;

/// value v of writer t: 10 * (t + 1) + k
fn write(m: &Mutable<u32>, op: W, v: u32) {
    match op {
        Set => m.set(v),
        Replace => { m.replace(v); }
        ReplaceWith => { m.replace_with(|_| v); }
        SetIf => m.set_if(v, |_, _| true),
        SetNeq => m.set_neq(v),
        LockMut => { let mut l = m.lock_mut(); *l = v; }
        Swap => { let o = Mutable::new(v); m.swap(&o); }
        Clone => { let c = m.clone(); drop(c); }
        RejectIf => m.set_if(v, |_, _| false),
        LockRead => { let l = m.lock_mut(); let _ = *l; }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kd { Copied, Cloned, Ref, LateRo, FromHandle }
use Kd::*;

#[derive(Clone, Debug)]
struct Sc { kinds: Vec<Kd>, opt: (usize, usize), progs: Vec<(Vec<W>, bool)>, keep: bool }

fn scenario(sc: &Sc, sim: &mut Sim) -> Check {
    let world = World::new();
    let m = Mutable::new(1u32);
    let ro = m.read_only();
    let logs: Vec<Shared<u32>> = sc.kinds.iter().map(|_| Shared::new()).collect();
    let opt = Opt { spurious: sc.opt.0, drop_after: sc.opt.1, first_ready: true };
    for (k, log) in sc.kinds.iter().zip(&logs) {
        let (w, log, k) = (world.clone(), log.clone(), *k);
        let show = |v: &u32| v.to_string();
        match k {
            Copied => { let s = m.signal(); sim.thread(move || consume(Sg(s), &w, &log, opt, show)) }
            Cloned => { let s = m.signal_cloned(); sim.thread(move || consume(Sg(s), &w, &log, opt, show)) }
            Ref => { let s = m.signal_ref(|v| *v); sim.thread(move || consume(Sg(s), &w, &log, opt, show)) }
            LateRo => { let r = m.read_only(); sim.thread(move || { let s = r.signal(); drop(r); consume(Sg(s), &w, &log, opt, show) }) }
            FromHandle => { let h = m.clone(); sim.thread(move || { let s = h.signal_cloned(); drop(h); consume(Sg(s), &w, &log, opt, show) }) }
        }
    }
    let mut all_dropped = !sc.keep;
    let mut keepers = vec![];
    for (t, (prog, dropit)) in sc.progs.iter().cloned().enumerate() {
        let h = m.clone();
        let w = world.clone();
        if !dropit { all_dropped = false; }
        let kept: Rc<std::cell::RefCell<Option<Mutable<u32>>>> = Rc::new(std::cell::RefCell::new(None));
        let k2 = kept.clone();
        keepers.push(kept);
        sim.thread(move || {
            for (k, op) in prog.iter().enumerate() {
                w.step();
                rt::trace(|| format!("{:?} {}", op, 10 * (t as u32 + 1) + k as u32));
                write(&h, *op, 10 * (t as u32 + 1) + k as u32);
            }
            if dropit { w.step(); rt::trace(|| "drop handle".into()); drop(h); } else { *k2.borrow_mut() = Some(h); }
        });
    }
    let kept_main = if sc.keep { Some(m) } else { drop(m); None };
    Box::new(move |_end| {
        let fin = ro.get();
        let mut oc: Vec<(Vec<u32>, bool)> = vec![];
        for (i, log) in logs.iter().enumerate() {
            let l = log.0.borrow();
            oc.push((l.vals.clone(), l.ended));
            need(!l.first_pending, || format!("subscriber {}: the first poll was Pending", i))?;
            if l.stopped { continue; }
            need(!l.vals.is_empty(), || format!("subscriber {}: no value was ever yielded", i))?;
            need(*l.vals.last().unwrap() == fin, || format!("subscriber {}: the value is {} but the last value yielded is {:?} (yielded {:?}, ended: {})", i, fin, l.vals.last(), l.vals, l.ended))?;
            need(l.ended == all_dropped, || format!("subscriber {}: ended = {} although all handles dropped = {} (yielded {:?})", i, l.ended, all_dropped, l.vals))?;
            for t in 0..3u32 {
                let own: Vec<u32> = l.vals.iter().copied().filter(|v| v / 10 == t + 1).collect();
                need(own.windows(2).all(|p| p[0] <= p[1]), || format!("subscriber {}: values of one writer out of order: {:?}", i, l.vals))?;
            }
            if let Some(p) = l.vals.iter().rposition(|v| *v == 1) { need(l.vals[..p].iter().all(|v| *v == 1), || format!("subscriber {}: the initial value came back: {:?}", i, l.vals))?; }
        }
        outcome(&oc);
        drop((kept_main, keepers));
        Ok(())
    })
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    let mut add = |sc: Sc, budget: u32| {
        let name = format!("{:?} polls+{} drop@{} | {}{}", sc.kinds, sc.opt.0, sc.opt.1,
            sc.progs.iter().map(|(p, d)| format!("{:?}{}", p, if *d { "+drop" } else { "" })).collect::<Vec<_>>().join(" || "), if sc.keep { " | kept" } else { "" });
        js.push(conc(name, budget, move |sim| scenario(&sc, sim)));
    };
    let writes = [Set, Replace, ReplaceWith, SetIf, SetNeq, LockMut, Swap, Clone, RejectIf, LockRead];
    // one subscriber, one writer: every operation, every way to subscribe, all interleavings
    for k in [Copied, Cloned, Ref, LateRo, FromHandle] {
        for op in writes {
            for sp in 0..2 {
                for d in [true, false] {
                    add(Sc { kinds: vec![k], opt: (sp, 0), progs: vec![(vec![op], d)], keep: false }, UNBOUNDED);
                }
            }
        }
        for a in [Set, LockMut, Replace] {
            add(Sc { kinds: vec![k], opt: (0, 0), progs: vec![(vec![a, Set], true)], keep: false }, UNBOUNDED);
            add(Sc { kinds: vec![k], opt: (1, 0), progs: vec![(vec![a, SetNeq], true)], keep: true }, UNBOUNDED);
        }
    }
    // two writers / droppers
    for k in [Copied, Cloned, Ref, LateRo] {
        for (a, b) in [(vec![Set], vec![Set]), (vec![Set], vec![]), (vec![], vec![]), (vec![Replace], vec![LockMut]), (vec![Clone], vec![Set]), (vec![Set], vec![Swap])] {
            add(Sc { kinds: vec![k], opt: (0, 0), progs: vec![(a, true), (b, true)], keep: false }, t.pick(4, 5));
        }
    }
    // two subscribers, one writer; one may be dropped half-way
    for k in [Copied, LateRo] {
        for d in [0, 1, 2] {
            add(Sc { kinds: vec![k, Cloned], opt: (0, d), progs: vec![(vec![Set], true)], keep: false }, t.pick(5, 6));
        }
    }
    // one subscriber reads the value while the other one sleeps
    for (a, b) in [(vec![], vec![]), (vec![Set], vec![]), (vec![LockRead], vec![])] {
        add(Sc { kinds: vec![Copied, Cloned], opt: (0, 0), progs: vec![(a, true), (b, true)], keep: false }, t.pick(2, 4));
    }
    if t.thorough() {
        for k in [Copied, Cloned, Ref, LateRo] {
            for a in writes {
                for b in writes {
                    add(Sc { kinds: vec![k], opt: (0, 0), progs: vec![(vec![a, b], true)], keep: false }, UNBOUNDED);
                    add(Sc { kinds: vec![k], opt: (1, 0), progs: vec![(vec![a], true), (vec![b], true)], keep: false }, 3);
                }
            }
        }
        add(Sc { kinds: vec![Copied], opt: (1, 0), progs: vec![(vec![Set, Set], true), (vec![Set], true)], keep: false }, 4);
        add(Sc { kinds: vec![Copied, Ref], opt: (1, 0), progs: vec![(vec![Set, Set], true)], keep: false }, 5);
        add(Sc { kinds: vec![Cloned, LateRo], opt: (0, 0), progs: vec![(vec![Set], true), (vec![Set], true)], keep: false }, 4);
    }
    crowd::jobs::<crowd::Mut>(&mut js, "Mutable", t);
    for &n in crowd::HANDLES { js.push(seq(format!("{} handles of a Mutable", n), move || crowd::handles(n, Mutable::new(1), |m| m.clone(), |m, v| m.set(v), |m| Box::pin(m.signal())))); }
    for k in 0..3 {
        let depth = t.pick(6, 7);
        js.push(seq(format!("histories of set/clone/drop/subscribe/poll, subscriber kind {}, depth {}", k, depth), move || {
            mutable_seq::run(&mutable_seq::Cfg { depth, kinds: [k, (k + 1) % 3], handles: true, ops: false })
        }));
        let depth = t.pick(4, 5);
        js.push(seq(format!("histories of all operations and handles, subscriber kind {}, depth {}", k, depth), move || {
            mutable_seq::run(&mutable_seq::Cfg { depth, kinds: [k, (k + 1) % 3], handles: true, ops: true })
        }));
    }
    js
}

fn main() {
    mc::main(Spec { property: "C01", assumptions: vec!["sequentially consistent memory; std Arc/Weak trusted".into()], notes: "Real code, every operation on a lock or atomic is a scheduling point.".into() }, jobs)
}
