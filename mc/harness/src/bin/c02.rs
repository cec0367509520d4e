//! C02: operations on Mutables are atomic, deadlock-free and notify exactly on change.
use futures_signals::signal::*;
use mc::conc::*;
use mc::*;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Get(usize), GetCloned(usize), RoGet(usize), LockRef(usize),
    Set(usize, u32), Replace(usize, u32), ReplaceWith(usize), SetIf(usize, u32), SetIfNever(usize), SetNeq(usize, u32),
    Rmw(usize), LockPeek(usize), Swap(usize, usize), SelfSwap(usize), Clone(usize),
}
use Op::*;

fn call(m: &[Mutable<u32>], op: Op) -> String {
    match op {
        Get(i) => m[i].get().to_string(),
        GetCloned(i) => m[i].get_cloned().to_string(),
        RoGet(i) => m[i].read_only().get().to_string(),
        LockRef(i) => { let a = m[i].lock_ref(); let x = *a; let y = *a; format!("{},{}", x, y) }
        Set(i, v) => { m[i].set(v); "()".into() }
        Replace(i, v) => m[i].replace(v).to_string(),
        ReplaceWith(i) => m[i].replace_with(|x| *x + 100).to_string(),
        SetIf(i, v) => { let mut seen = 0; m[i].set_if(v, |a, b| { seen = *a; *a < *b }); seen.to_string() }
        SetIfNever(i) => { let mut seen = 0; m[i].set_if(77, |a, _| { seen = *a; false }); seen.to_string() }
        SetNeq(i, v) => { m[i].set_neq(v); "()".into() }
        Rmw(i) => { let mut l = m[i].lock_mut(); let x = *l; *l = x + 1000; let r = x.to_string(); drop(l); r }
        LockPeek(i) => { let l = m[i].lock_mut(); let x = *l; drop(l); x.to_string() }
        Swap(i, j) => { m[i].swap(&m[j]); "()".into() }
        SelfSwap(i) => { let c = m[i].clone(); m[i].swap(&c); "()".into() }
        Clone(i) => { let c = m[i].clone(); c.get().to_string() }
    }
}
fn model(s: &mut [u32; 2], op: &Op) -> String {
    match *op {
        Get(i) | GetCloned(i) | RoGet(i) | LockPeek(i) | Clone(i) | SetIfNever(i) => s[i].to_string(),
        LockRef(i) => format!("{},{}", s[i], s[i]),
        Set(i, v) | SetNeq(i, v) => { s[i] = v; "()".into() }
        Replace(i, v) => { let o = s[i]; s[i] = v; o.to_string() }
        ReplaceWith(i) => { let o = s[i]; s[i] = o + 100; o.to_string() }
        SetIf(i, v) => { let o = s[i]; if o < v { s[i] = v; } o.to_string() }
        Rmw(i) => { let o = s[i]; s[i] = o + 1000; o.to_string() }
        Swap(i, j) => { s.swap(i, j); "()".into() }
        SelfSwap(_) => "()".into(),
    }
}
fn touches(op: &Op, k: usize) -> bool {
    match *op {
        Set(i, _) | Replace(i, _) | ReplaceWith(i) | SetIf(i, _) | SetNeq(i, _) | Rmw(i) | SelfSwap(i) => i == k,
        Swap(i, j) => i == k || j == k,
        _ => false,
    }
}

fn scenario(progs: &[Vec<Op>], sim: &mut Sim) -> Check {
    // the crate may order locks by address: make the order the same in every execution
    let ms = rt::unhooked(|| {
        let (a, b) = (Mutable::new(1u32), Mutable::new(2u32));
        let addr = |m: &Mutable<u32>| { let l = m.lock_ref(); &*l as *const u32 as usize };
        let (pa, pb) = (addr(&a), addr(&b));
        if pa < pb { vec![a, b] } else { a.set(2); b.set(1); vec![b, a] }
    });
    let mut sigs: Vec<_> = ms.iter().map(|m| m.signal()).collect();
    let tasks = [Parker::new(), Parker::new()];
    for (s, t) in sigs.iter_mut().zip(&tasks) {
        for k in 0..2 {
            let w = t.fresh();
            let r = Pin::new(&mut *s).poll_change(&mut Context::from_waker(&w));
            assert_eq!(r.is_ready(), k == 0, "first poll of a signal is ready, the second is not");
        }
    }
    let world = World::new();
    let hist: Hist<Op> = Hist::new();
    for p in progs.iter().cloned() {
        let (ms, h, w) = (ms.clone(), hist.clone(), world.clone());
        sim.thread(move || { for op in p { h.call(&w, op, || call(&ms, op)); } });
    }
    let progs = progs.to_vec();
    Box::new(move |_| {
        let fin = [ms[0].get(), ms[1].get()];
        outcome(&(fin, hist.0.borrow().iter().map(|c| c.res.clone()).collect::<Vec<_>>()));
        hist.linearizable([1, 2], &|s, o| model(s, o), &|s| *s == fin)?;
        for k in 0..2 {
            let woken = tasks[k].woken();
            let touched = progs.iter().flatten().any(|o| touches(o, k));
            if !touched { need(!woken, || format!("the signal of mutable {} is woken although nothing was stored", k))?; }
            if fin[k] != k as u32 + 1 { need(woken, || format!("the signal of mutable {} is not woken although the value is now {}", k, fin[k]))?; }
            let w = tasks[k].fresh();
            match Pin::new(&mut sigs[k]).poll_change(&mut Context::from_waker(&w)) {
                Poll::Ready(Some(v)) => { need(touched && v == fin[k], || format!("the signal of mutable {} yields {} (value {}, stored to: {})", k, v, fin[k], touched))?; }
                Poll::Ready(None) => return Err("the signal ended although handles are alive".into()),
                Poll::Pending => { need(fin[k] == k as u32 + 1, || format!("the signal of mutable {} is Pending although the value is now {}", k, fin[k]))?; }
            }
        }
        Ok(())
    })
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js: Vec<Job> = vec![];
    let mut add = |progs: Vec<Vec<Op>>, budget: u32| {
        let name = progs.iter().map(|p| format!("{:?}", p)).collect::<Vec<_>>().join(" || ");
        if js.iter().any(|j| j.name == name) { return; }
        js.push(conc(name, budget, move |sim| scenario(&progs, sim)));
    };
    let ops0 = [Get(0), GetCloned(0), RoGet(0), LockRef(0), Set(0, 10), Replace(0, 11), ReplaceWith(0), SetIf(0, 12), SetIfNever(0), SetNeq(0, 13), Rmw(0), LockPeek(0), Swap(0, 1), Swap(1, 0), SelfSwap(0), Clone(0)];
    let writes = [Set(0, 20), Replace(0, 21), ReplaceWith(0), SetIf(0, 22), SetNeq(0, 23), Rmw(0), Swap(0, 1), Swap(1, 0), SelfSwap(0)];
    for a in ops0 { for b in writes { add(vec![vec![a], vec![b]], UNBOUNDED); } }
    // two-step programs: get-then-check, read-modify-write chains
    for a in [Rmw(0), ReplaceWith(0), SetIf(0, 12), Replace(0, 11), Swap(0, 1)] {
        for b in [Rmw(0), ReplaceWith(0), Swap(1, 0), Set(0, 9), SetNeq(0, 1)] {
            for c in [Get(0), Get(1), Rmw(1), SetNeq(0, 1), Set(1, 31)] {
                add(vec![vec![a, c], vec![b]], UNBOUNDED);
            }
        }
    }
    // three threads
    for (a, b, c) in [(Rmw(0), Rmw(0), Rmw(0)), (Swap(0, 1), Swap(1, 0), Get(0)), (Swap(0, 1), Swap(1, 0), Rmw(1)), (ReplaceWith(0), Swap(0, 1), ReplaceWith(1)),
        (SetIf(0, 12), SetIf(0, 22), Replace(0, 5)), (Replace(0, 11), Replace(0, 21), Replace(0, 31)), (Swap(0, 1), Set(1, 9), Get(0)), (Set(0, 3), SetNeq(0, 3), Rmw(0))] {
        add(vec![vec![a], vec![b], vec![c]], t.pick(4, UNBOUNDED));
    }
    for a in writes { for b in writes { for c in [Get(0), Rmw(0), Swap(0, 1), SetIf(0, 50), Get(1)] { add(vec![vec![a, c], vec![b]], t.pick(4, UNBOUNDED)); } } }
    if t.thorough() {
        for a in writes { for b in writes { for c in [Get(0), Rmw(0), Swap(0, 1), SetIf(0, 50), Get(1)] {
            add(vec![vec![a, c], vec![b, Get(0)]], 4);
            add(vec![vec![a], vec![b], vec![c]], 4);
        } } }
    }
    for k in 0..3 {
        let depth = t.pick(5, 6);
        js.push(seq(format!("histories of all operations, subscriber kind {}, depth {}", k, depth), move || {
            mutable_seq::run(&mutable_seq::Cfg { depth, kinds: [k, (k + 1) % 3], handles: false, ops: true })
        }));
    }
    js
}

fn main() {
    mc::main(Spec { property: "C02", assumptions: vec!["sequentially consistent memory".into(), "std locks are mutual exclusion; a waiting writer blocks recursive readers".into()], notes: "Brute-force linearizability of the recorded calls against plain variables, deadlock detection, and notification checks, on the real code.".into() }, jobs)
}
