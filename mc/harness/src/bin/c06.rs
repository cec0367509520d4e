//! C06: subscribers of MutableVec and MutableBTreeMap beside concurrent mutators.
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Snap = Vec<(u32, u32)>;

/// All states the container went through, in order.
type States = Rc<RefCell<Vec<Snap>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Push, Insert, Set, Remove, Pop, Move, Clear, Replace, Twice, Retain, Swap, Read, Put(u32), Del(u32), CloneDrop, Subscribe, Nop }
use Op::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { VecCopy, VecCloned, Map, MapCloned, Keys, Entries, EntriesCopy }
impl Kind { fn is_vec(self) -> bool { matches!(self, Kind::VecCopy | Kind::VecCloned) } }

#[derive(Clone, Copy, Debug)]
struct Sub { kind: Kind, spurious: usize, drop_after: usize, late: bool }
#[derive(Clone, Debug)]
struct Sc { init: usize, progs: Vec<(Vec<Op>, bool)>, subs: Vec<Sub> }

#[derive(Clone)]
enum Cont { V(MutableVec<u32>), M(MutableBTreeMap<u32, u32>) }

fn vsnap(v: &[u32]) -> Snap { v.iter().map(|x| (*x, 0)).collect() }
fn msnap(m: &BTreeMap<u32, u32>) -> Snap { m.iter().map(|(a, b)| (*a, *b)).collect() }

impl Cont {
    fn run(&self, op: Op, v: u32, st: &States) {
        match self {
            Cont::V(c) => {
                if op == Read { let l = c.lock_ref(); let now = vsnap(&l); if st.borrow().last() != Some(&now) { rt::fail(format!("a read lock sees {:?} but the last state is {:?}", now, st.borrow().last())) } return; }
                if op == CloneDrop { drop(c.clone()); return; }
                if op == Subscribe { drop(c.signal_vec()); return; }
                let mut l = c.lock_mut();
                { let now = vsnap(&l); if st.borrow().last() != Some(&now) { rt::fail(format!("a write lock sees {:?} but the last state is {:?}", now, st.borrow().last())) } }
                let n = l.len();
                match op {
                    Push => l.push(v),
                    Insert => l.insert(0, v),
                    Set => if n > 0 { l.set(n / 2, v) },
                    Remove => if n > 0 { l.remove(0); },
                    Pop => { l.pop(); }
                    Move => if n > 1 { l.move_from_to(0, n - 1) },
                    Clear => l.clear(),
                    Replace => l.replace_cloned(vec![v, v + 1]),
                    Twice => { l.push_cloned(v); st.borrow_mut().push(vsnap(&l)); l.push(v + 1); }
                    Retain => l.retain(|x| x % 2 == 0),
                    Swap => if n > 1 { l.swap(0, 1) },
                    _ => {}
                }
                st.borrow_mut().push(vsnap(&l));
            }
            Cont::M(c) => {
                if op == Read { let l = c.lock_ref(); let now = msnap(&l); if st.borrow().last() != Some(&now) { rt::fail(format!("a read lock sees {:?} but the last state is {:?}", now, st.borrow().last())) } return; }
                if op == CloneDrop { drop(c.clone()); return; }
                if op == Subscribe { drop(c.signal_map()); return; }
                let mut l = c.lock_mut();
                { let now = msnap(&l); if st.borrow().last() != Some(&now) { rt::fail(format!("a write lock sees {:?} but the last state is {:?}", now, st.borrow().last())) } }
                match op {
                    Put(k) => { l.insert(k, v); }
                    Insert => { l.insert_cloned(1, v); }
                    Del(k) => { l.remove(&k); }
                    Clear => l.clear(),
                    Replace => l.replace([(1, v), (3, v)].into_iter().collect()),
                    Twice => { l.insert(0, v); st.borrow_mut().push(msnap(&l)); l.insert_cloned(9, v); }
                    _ => {}
                }
                st.borrow_mut().push(msnap(&l));
            }
        }
    }
    fn subscribe(&self, k: Kind) -> Mirror {
        match (self, k) {
            (Cont::V(c), Kind::VecCopy) => Mirror::V(Box::pin(c.signal_vec()), vec![]),
            (Cont::V(c), _) => Mirror::V(Box::pin(c.signal_vec_cloned()), vec![]),
            (Cont::M(c), Kind::Map) => Mirror::M(Box::pin(c.signal_map()), BTreeMap::new()),
            (Cont::M(c), Kind::Keys) => Mirror::K(Box::pin(c.signal_vec_keys()), vec![]),
            (Cont::M(c), Kind::Entries) => Mirror::E(Box::pin(c.entries_cloned()), vec![]),
            (Cont::M(c), Kind::EntriesCopy) => Mirror::E(Box::pin(c.signal_vec_entries()), vec![]),
            (Cont::M(c), _) => Mirror::M(Box::pin(c.signal_map_cloned()), BTreeMap::new()),
        }
    }
}

/// Replays the diffs of one subscriber; yields the replayed contents after every diff.
enum Mirror {
    V(Pin<Box<dyn SignalVec<Item = u32>>>, Vec<u32>),
    M(Pin<Box<dyn SignalMap<Key = u32, Value = u32>>>, BTreeMap<u32, u32>),
    K(Pin<Box<dyn SignalVec<Item = u32>>>, Vec<u32>),
    E(Pin<Box<dyn SignalVec<Item = (u32, u32)>>>, Vec<(u32, u32)>),
}
fn map_diff<T, U>(p: Poll<Option<T>>, f: impl FnOnce(T) -> U) -> Poll<Option<U>> { p.map(|o| o.map(f)) }
impl Polled for Mirror {
    type Out = Snap;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Snap>> {
        match self.get_mut() {
            Mirror::V(s, v) | Mirror::K(s, v) => map_diff(s.as_mut().poll_vec_change(cx), |d| { rt::trace(|| show_vec(&d)); apply(v, d); vsnap(v) }),
            Mirror::M(s, m) => map_diff(s.as_mut().poll_map_change(cx), |d| { rt::trace(|| show_map(&d)); apply_map(m, d); msnap(m) }),
            Mirror::E(s, v) => map_diff(s.as_mut().poll_vec_change(cx), |d| { rt::trace(|| show_vec(&d)); apply(v, d); v.clone() }),
        }
    }
}

fn scenario(sc: &Sc, sim: &mut Sim) -> Check {
    let world = World::new();
    let is_vec = sc.subs[0].kind.is_vec();
    let cont = if is_vec { Cont::V(MutableVec::from((0..sc.init as u32).collect::<Vec<_>>())) }
        else { Cont::M(MutableBTreeMap::from((0..sc.init as u32).map(|k| (k, k)).collect::<BTreeMap<u32, u32>>())) };
    let first: Snap = match &cont { Cont::V(v) => vsnap(&v.lock_ref()), Cont::M(m) => msnap(&m.lock_ref()) };
    let states: States = Rc::new(RefCell::new(vec![first]));
    let logs: Vec<(Shared<Snap>, Rc<RefCell<(usize, usize)>>)> = sc.subs.iter().map(|_| (Shared::new(), Rc::new(RefCell::new((0, 0))))).collect();
    for (s, (log, from)) in sc.subs.iter().zip(&logs) {
        let (s, log, from, w, st) = (*s, log.clone(), from.clone(), world.clone(), states.clone());
        let opt = Opt { spurious: s.spurious, drop_after: s.drop_after, first_ready: false };
        if s.late {
            let c = cont.clone();
            sim.thread(move || {
                w.step();
                let a = st.borrow().len() - 1;
                rt::trace(|| "subscribe".into());
                let m = c.subscribe(s.kind);
                *from.borrow_mut() = (a, st.borrow().len() - 1);
                drop(c);
                consume(m, &w, &log, opt, |v| format!("now {:?}", v));
            });
        } else {
            let m = cont.subscribe(s.kind);
            sim.thread(move || consume(m, &w, &log, opt, |v| format!("now {:?}", v)));
        }
    }
    let mut kept: Vec<Rc<RefCell<Option<Cont>>>> = vec![];
    for (t, (prog, drops)) in sc.progs.iter().cloned().enumerate() {
        let (c, w, st) = (cont.clone(), world.clone(), states.clone());
        let slot = Rc::new(RefCell::new(None));
        kept.push(slot.clone());
        sim.thread(move || {
            for (k, op) in prog.iter().enumerate() {
                w.step();
                rt::trace(|| format!("{:?}", op));
                c.run(*op, 20 * (t as u32 + 1) + 3 * k as u32, &st);
            }
            w.step();
            if drops { rt::trace(|| "drop handle".into()); drop(c); } else { *slot.borrow_mut() = Some(c); }
        });
    }
    drop(cont);
    let all_dropped = sc.progs.iter().all(|p| p.1);
    let subs = sc.subs.clone();
    Box::new(move |_| {
        let st = states.borrow();
        let mut oc = vec![];
        for (i, (log, from)) in logs.iter().enumerate() {
            let l = log.0.borrow();
            let (a, _) = *from.borrow();
            let keys = subs[i].kind == Kind::Keys;
            let view = |s: &Snap| -> Snap { if keys { s.iter().map(|(k, _)| (*k, 0)).collect() } else { s.clone() } };
            let mut at = a;
            for v in &l.vals {
                match (at..st.len()).find(|j| view(&st[*j]) == *v) {
                    Some(j) => at = j,
                    None => return Err(format!("subscriber {}: {:?} is no state the container went through after {:?} (states {:?}, replayed {:?})", i, v, st[at], &*st, l.vals)),
                }
            }
            if !l.stopped {
                let now = l.vals.last().cloned().unwrap_or_default();
                let last = view(st.last().unwrap());
                need(now == last, || format!("subscriber {}: replaying gives {:?} but the contents are {:?} ({})", i, now, last, if l.ended { "ended" } else { "blocked" }))?;
                need(l.ended == all_dropped, || format!("subscriber {}: ended = {} although all handles dropped = {}", i, l.ended, all_dropped))?;
            }
            oc.push((l.vals.clone(), l.ended));
        }
        outcome(&oc);
        drop(kept);
        Ok(())
    })
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js: Vec<Job> = vec![];
    let mut names = std::collections::HashSet::new();
    let mut add = |sc: Sc, budget: u32| {
        let name = format!("init {} {} {}", sc.init, sc.progs.iter().map(|(p, d)| format!("{:?}{}", p, if *d { "+drop" } else { "" })).collect::<Vec<_>>().join(" || "),
            sc.subs.iter().map(|s| format!("{:?} s{}d{}{}", s.kind, s.spurious, s.drop_after, if s.late { " late" } else { "" })).collect::<Vec<_>>().join(" + "));
        if !names.insert(name.clone()) { return; }
        js.push(conc(name, budget, move |sim| scenario(&sc, sim)));
    };
    let sub = |kind, spurious, drop_after, late| Sub { kind, spurious, drop_after, late };
    let vops = [Push, Insert, Set, Remove, Pop, Move, Clear, Replace, Twice, Read];
    let mops = [Put(0), Put(7), Insert, Del(0), Del(7), Clear, Replace, Twice, Read];
    for (ops, kinds) in [(&vops[..], &[Kind::VecCopy, Kind::VecCloned][..]), (&mops[..], &[Kind::Map, Kind::MapCloned, Kind::Keys, Kind::Entries, Kind::EntriesCopy][..])] {
        for (ki, &k) in kinds.iter().enumerate() {
            for (i, &a) in ops.iter().enumerate() {
                for init in [0, 2] { for drops in [false, true] {
                    for s in [sub(k, 0, 0, false), sub(k, 1, 0, false), sub(k, 0, 0, true)] {
                        add(Sc { init, progs: vec![(vec![a], drops)], subs: vec![s] }, UNBOUNDED);
                    }
                } }
                for (j, &b) in ops.iter().enumerate() {
                    if ki < 2 || t.thorough() || (i + j) % 2 == 0 {
                        for late in [false, true] {
                            add(Sc { init: 2, progs: vec![(vec![a, b], true)], subs: vec![sub(k, 0, 0, late)] }, UNBOUNDED);
                            if i <= j {
                                add(Sc { init: 2, progs: vec![(vec![a], true), (vec![b], true)], subs: vec![sub(k, 0, 0, late)] }, t.pick(4, 6));
                                add(Sc { init: 2, progs: vec![(vec![a], false), (vec![b], true)], subs: vec![sub(k, 0, 0, late)] }, t.pick(3, 4));
                            }
                        }
                        if t.thorough() { for s in [sub(k, 1, 0, false), sub(k, 0, 1, false), sub(k, 0, 2, true)] {
                            add(Sc { init: 2, progs: vec![(vec![a, CloneDrop, b], true)], subs: vec![s] }, 4);
                        } }
                    }
                }
                // two subscribers, one of them leaving or arriving late
                for (s1, s2) in [(sub(k, 0, 0, false), sub(k, 0, 1, false)), (sub(k, 0, 0, false), sub(kinds[(ki + 1) % kinds.len()], 0, 0, true)), (sub(k, 0, 1, true), sub(kinds[(ki + 1) % kinds.len()], 0, 0, false))] {
                    add(Sc { init: 2, progs: vec![(vec![a, ops[(i + 1) % ops.len()]], true)], subs: vec![s1, s2] }, t.pick(2, 3));
                }
            }
            add(Sc { init: 2, progs: vec![(vec![ops[0], ops[1], CloneDrop], true), (vec![CloneDrop, Subscribe], true)], subs: vec![sub(k, 0, 0, false)] }, t.pick(4, 5));
            add(Sc { init: 0, progs: vec![(vec![Subscribe, ops[0]], true), (vec![ops[1], Read], true)], subs: vec![sub(k, 0, 0, true)] }, t.pick(4, 5));
            if t.thorough() { for a in ops { for b in ops { for c in ops {
                add(Sc { init: 2, progs: vec![(vec![*a, *b], true), (vec![*c], true)], subs: vec![sub(k, 0, 0, true)] }, 2);
            } } } }
        }
    }
    js
}

fn main() {
    mc::main(Spec { property: "C06", assumptions: vec!["sequentially consistent memory".into(), "futures-channel's unbounded queue is linearizable (its operations are not interleaved internally)".into()], notes: "Real containers; every lock operation of the library is a scheduling point; replays are matched against the recorded states.".into() }, jobs)
}
