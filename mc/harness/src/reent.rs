//! Callbacks that use the very source that feeds them: while the output is polled, a callback of the pipeline may read,
//! change or subscribe to the source, as any user callback does.  No lock may be held around such a callback, and a
//! change made by it is a change like any other.
use crate::conc::{Sg, Sm, Sv, Fu};
use crate::model::{apply, apply_map};
use crate::src::{Exec, Step};
use crate::{choose, note, outcome, seq, Job, Tier};
use futures_signals::map_ref;
use futures_signals::signal::{always, Broadcaster, Mutable, MutableSignal, Signal, SignalExt};
use futures_signals::signal_map::{MutableBTreeMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::ready;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

struct World {
    m: Mutable<i32>,
    v: MutableVec<i32>,
    b: MutableBTreeMap<i32, i32>,
    subs: Vec<Exec<Sg<MutableSignal<i32>>>>,
}
#[derive(Clone)]
struct Poke { w: Rc<RefCell<Option<World>>>, left: Rc<Cell<usize>>, fresh: Rc<Cell<i32>>, level: usize }
impl Poke {
    fn fresh(&self) -> i32 { self.fresh.set(self.fresh.get() + 1); self.fresh.get() }
    /// what a callback does
    fn call(&self) {
        if self.left.get() == 0 { return; }
        let (m, v, b) = match &*self.w.borrow() { Some(w) => (w.m.clone(), w.v.clone(), w.b.clone()), None => return };
        let n = choose([7, 6, 5][self.level]);
        if n == 0 { return; }
        self.left.set(self.left.get() - 1);
        note(|| format!("     the callback does {}", n));
        match self.level {
            0 => match n {
                1 => m.set(self.fresh()),
                2 => { let x = self.fresh(); let mut l = m.lock_mut(); *l = x; }
                3 => { assert_eq!(m.get(), *m.lock_ref()); let x = m.get(); m.set_neq(x); }
                4 => { let mut e = Exec::new(Sg(m.signal())); let mut got = None; e.one(&mut |x| got = Some(x)); assert_eq!(got, Some(m.get())); if let Some(w) = &mut *self.w.borrow_mut() { w.subs.push(e) } }
                5 => { let s = self.w.borrow_mut().as_mut().map(|w| std::mem::take(&mut w.subs)); drop(s); }
                _ => { let x = self.fresh(); drop(m.replace(x)); let c = m.clone(); m.swap(&c); }
            },
            1 => match n {
                1 => v.lock_mut().push(self.fresh()),
                2 => { v.lock_mut().pop(); }
                3 => { let x = self.fresh(); v.lock_mut().replace(vec![x, x + 1]) }
                4 => { let x = self.fresh(); let mut l = v.lock_mut(); l.insert(0, x); let n = l.len(); l.move_from_to(0, n - 1); }
                _ => { let mut s = Exec::new(Sv(v.signal_vec())); let mut o = vec![]; s.run(&mut |d| apply(&mut o, d)); assert!(o == &v.lock_ref()[..]); }
            },
            _ => match n {
                1 => { b.lock_mut().insert(self.fresh(), 5); }
                2 => { b.lock_mut().insert(1, self.fresh()); }
                3 => { b.lock_mut().remove(&1); }
                _ => { b.lock_mut().clear(); }
            },
        }
    }
}

enum Out { Val(i32), List(Vec<i32>), Map(BTreeMap<i32, i32>) }
type St = (Option<i32>, Vec<i32>, BTreeMap<i32, i32>);
/// an output that keeps what it shows
trait Show { fn go(&mut self, how: usize) -> Step; fn shows(&self) -> Out; fn ended(&self) -> bool; fn waiting(&self) -> bool; }
struct SigShow(Exec<Sg<Pin<Box<dyn Signal<Item = i32>>>>>, Option<i32>);
struct VecShow(Exec<Sv<Pin<Box<dyn SignalVec<Item = i32>>>>>, Vec<i32>);
struct MapShow(Exec<Sm<Pin<Box<dyn futures_signals::signal_map::SignalMap<Key = i32, Value = i32>>>>>, BTreeMap<i32, i32>);
struct FutShow(Exec<Fu<Pin<Box<dyn std::future::Future<Output = ()>>>>>, Rc<RefCell<Out>>);
macro_rules! show {
    ($t:ident, $l:ident, $x:ident, $f:expr, $o:expr) => {
        impl Show for $t {
            fn go(&mut self, how: usize) -> Step { let $l = &mut self.1; let mut f = $f; match how { 0 => self.0.one(&mut f), _ => self.0.run(&mut f) } }
            fn shows(&self) -> Out { let $x = &self.1; $o }
            fn ended(&self) -> bool { self.0.ended }
            fn waiting(&self) -> bool { self.0.waiting() }
        }
    };
}
show!(SigShow, l, x, |v| *l = Some(v), Out::Val(x.unwrap_or(i32::MIN)));
show!(VecShow, l, x, |d| apply(l, d), Out::List(x.clone()));
show!(MapShow, l, x, |d| apply_map(l, d), Out::Map(x.clone()));
show!(FutShow, _l, x, |_| {}, match &*x.borrow() { Out::Val(v) => Out::Val(*v), Out::List(v) => Out::List(v.clone()), Out::Map(m) => Out::Map(m.clone()) });

type Build = fn(&World, Poke) -> Box<dyn Show>;
type Model = fn(&St) -> Out;
fn sg(s: impl Signal<Item = i32> + 'static) -> Box<dyn Show> { Box::new(SigShow(Exec::new(Sg(Box::pin(s))), None)) }
fn sv(s: impl SignalVec<Item = i32> + 'static) -> Box<dyn Show> { Box::new(VecShow(Exec::new(Sv(Box::pin(s))), vec![])) }
fn val(s: &St) -> i32 { s.0.unwrap() }

/// a signal that is ready once, and calls back when polled
struct Asks(Poke, Option<i32>);
impl Unpin for Asks {}
impl Signal for Asks {
    type Item = i32;
    fn poll_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<i32>> {
        match self.1.take() { Some(v) => { self.0.call(); Poll::Ready(Some(v)) } None => Poll::Ready(None) }
    }
}
struct PokeOnDrop(Poke, i32);
impl Drop for PokeOnDrop { fn drop(&mut self) { self.0.call() } }

const SIGNALS: &[(&str, Build, Model)] = &[
    ("signal.map", |w, p| sg(w.m.signal().map(move |x| { p.call(); x * 2 })), |s| Out::Val(val(s) * 2)),
    ("signal_cloned.inspect", |w, p| sg(w.m.signal_cloned().inspect(move |_| p.call())), |s| Out::Val(val(s))),
    ("dedupe_map", |w, p| sg(w.m.signal().dedupe_map(move |x| { p.call(); *x * 2 })), |s| Out::Val(val(s) * 2)),
    ("filter_map", |w, p| sg(w.m.signal().filter_map(move |x| { p.call(); Some(x * 2) }).map(|x| x.unwrap())), |s| Out::Val(val(s) * 2)),
    ("map_ref", |w, p| { let (a, b) = (w.m.signal(), w.m.signal().map(|x| x + 1)); sg(map_ref! { let a = a, let b = b => { p.call(); *a + *b } }) }, |s| Out::Val(val(s) * 2 + 1)),
    ("map_ref of two callbacks", |w, p| { let q = p.clone(); let (a, b) = (w.m.signal().map(move |x| { q.call(); x }), w.m.signal().map(move |x| { p.call(); x })); sg(map_ref! { a, b => *a + *b }) }, |s| Out::Val(val(s) * 2)),
    ("switch to a constant", |w, p| sg(w.m.signal().switch(move |x| { p.call(); always(x * 2) })), |s| Out::Val(val(s) * 2)),
    ("switch to the source", |w, p| { let m = w.m.read_only(); sg(w.m.signal().switch(move |_| { p.call(); m.signal() })) }, |s| Out::Val(val(s))),
    ("switch to an inner signal that calls back", |w, p| sg(w.m.signal().switch(move |x| Asks(p.clone(), Some(x)))), |s| Out::Val(val(s))),
    ("flatten", |w, p| sg(w.m.signal().map(move |x| { p.call(); always(x) }).flatten()), |s| Out::Val(val(s))),
    ("map_future", |w, p| sg(w.m.signal().map_future(move |x| { let p = p.clone(); async move { p.call(); x } }).map(|x| x.unwrap_or(-1))), |s| Out::Val(val(s))),
    ("throttle", |w, p| sg(w.m.signal().throttle(move || { p.call(); ready(()) })), |s| Out::Val(val(s))),
    ("stop_if", |w, p| sg(w.m.signal().stop_if(move |_| { p.call(); false })), |s| Out::Val(val(s))),
    ("to_signal_vec.map", |w, p| sv(w.m.signal().map(|x| vec![x, x]).to_signal_vec().map(move |x| { p.call(); x })), |s| Out::List(vec![val(s); 2])),
    ("switch_signal_vec", |w, p| { let v = w.v.clone(); sv(w.m.signal().switch_signal_vec(move |_| { p.call(); v.signal_vec() })) }, |s| Out::List(s.1.clone())),
    ("broadcaster over a callback", |w, p| { let b = Broadcaster::new(w.m.signal().map(move |x| { p.call(); x })); sg(b.signal()) }, |s| Out::Val(val(s))),
    ("callback over a broadcaster", |w, p| { let b = Broadcaster::new(w.m.signal()); let mut late = vec![]; sg(b.signal().map(move |x| { p.call(); let mut e = Exec::new(Sg(b.signal())); if p.left.get() > 0 { let mut got = None; e.one(&mut |y| got = Some(y)); assert!(got.is_some()); late.push(e); } x })) }, |s| Out::Val(val(s))),
    ("for_each", |w, p| { let o = Rc::new(RefCell::new(Out::Val(i32::MIN))); let q = o.clone(); Box::new(FutShow(Exec::new(Fu(Box::pin(w.m.signal().for_each(move |x| { p.call(); *q.borrow_mut() = Out::Val(x); ready(()) })), false)), o)) }, |s| Out::Val(val(s))),
    ("for_each with a future that calls back", |w, p| { let o = Rc::new(RefCell::new(Out::Val(i32::MIN))); let q = o.clone(); Box::new(FutShow(Exec::new(Fu(Box::pin(w.m.signal().for_each(move |x| { let (p, q) = (p.clone(), q.clone()); async move { p.call(); *q.borrow_mut() = Out::Val(x); } })), false)), o)) }, |s| Out::Val(val(s))),
    ("values whose drop calls back", |w, p| sg(w.m.signal().map(move |x| Rc::new(PokeOnDrop(p.clone(), x))).map(|x| x.1)), |s| Out::Val(val(s))),
    ("dedupe_cloned of values whose drop calls back", |w, p| sg(w.m.signal().map(move |x| Held(Rc::new(PokeOnDrop(p.clone(), x)))).dedupe_cloned().map(|x| (x.0).1)), |s| Out::Val(val(s))),
];
#[derive(Clone)]
struct Held(Rc<PokeOnDrop>);
impl PartialEq for Held { fn eq(&self, o: &Held) -> bool { self.0.1 == o.0.1 } }

fn sorted(s: &St) -> Vec<i32> { let mut v = s.1.clone(); v.sort(); v }
const VECS: &[(&str, Build, Model)] = &[
    ("vec map", |w, p| sv(w.v.signal_vec().map(move |x| { p.call(); x * 2 })), |s| Out::List(s.1.iter().map(|x| x * 2).collect())),
    ("vec filter", |w, p| sv(w.v.signal_vec().filter(move |x| { p.call(); x % 2 == 0 })), |s| Out::List(s.1.iter().copied().filter(|x| x % 2 == 0).collect())),
    ("vec filter_map", |w, p| sv(w.v.signal_vec().filter_map(move |x| { p.call(); if x % 2 == 0 { Some(x + 1) } else { None } })), |s| Out::List(s.1.iter().filter(|x| *x % 2 == 0).map(|x| x + 1).collect())),
    ("vec map_signal", |w, p| sv(w.v.signal_vec().map_signal(move |x| { p.call(); always(x) })), |s| Out::List(s.1.clone())),
    ("vec map_signal with signals that call back", |w, p| sv(w.v.signal_vec().map_signal(move |x| Asks(p.clone(), Some(x)))), |s| Out::List(s.1.clone())),
    ("vec filter_signal_cloned", |w, p| sv(w.v.signal_vec().filter_signal_cloned(move |x| Asks(p.clone(), Some(*x)).map(|x| x % 2 == 0))), |s| Out::List(s.1.iter().copied().filter(|x| x % 2 == 0).collect())),
    ("vec sort_by_cloned", |w, p| sv(w.v.signal_vec().sort_by_cloned(move |a, b| { p.call(); a.cmp(b) })), |s| Out::List(sorted(s))),
    ("vec chain", |w, p| { let q = p.clone(); sv(w.v.signal_vec().map(move |x| { p.call(); x }).chain(w.v.signal_vec().map(move |x| { q.call(); -x }))) }, |s| Out::List(s.1.iter().copied().chain(s.1.iter().map(|x| -x)).collect())),
    ("vec flatten", |w, p| sv(w.v.signal_vec().map(move |x| { p.call(); futures_signals::signal_vec::always(vec![x, x]) }).flatten()), |s| Out::List(s.1.iter().flat_map(|x| [*x, *x]).collect())),
    ("vec delay_remove", |w, p| sv(w.v.signal_vec().delay_remove(move |_| { let p = p.clone(); async move { p.call() } })), |s| Out::List(s.1.clone())),
    ("vec to_signal_map", |w, p| sg(w.v.signal_vec().to_signal_map(move |x| { p.call(); x.iter().sum() })), |s| Out::Val(s.1.iter().sum())),
    ("vec enumerate", |w, p| sv(w.v.signal_vec().enumerate().map(move |(_, x)| { p.call(); x })), |s| Out::List(s.1.clone())),
    ("vec len", |w, p| sg(w.v.signal_vec().map(move |x| { p.call(); x }).len().map(|x| x as i32)), |s| Out::Val(s.1.len() as i32)),
    ("vec for_each", |w, p| { let o = Rc::new(RefCell::new(Out::List(vec![]))); let q = o.clone(); Box::new(FutShow(Exec::new(Fu(Box::pin(w.v.signal_vec().for_each(move |d| { p.call(); if let Out::List(l) = &mut *q.borrow_mut() { apply(l, d) } ready(()) })), false)), o)) }, |s| Out::List(s.1.clone())),
];
const MAPS: &[(&str, Build, Model)] = &[
    ("map map_value", |w, p| Box::new(MapShow(Exec::new(Sm(Box::pin(w.b.signal_map().map_value(move |x| { p.call(); x * 2 })))), BTreeMap::new())), |s| Out::Map(s.2.iter().map(|(k, v)| (*k, v * 2)).collect())),
    ("map map_value_signal", |w, p| Box::new(MapShow(Exec::new(Sm(Box::pin(w.b.signal_map().map_value_signal(move |x| Asks(p.clone(), Some(x)))))), BTreeMap::new())), |s| Out::Map(s.2.clone())),
    ("map key_cloned", |w, p| sg(w.b.signal_map().map_value(move |x| { p.call(); x }).key_cloned(1).map(|x| x.unwrap_or(-7))), |s| Out::Val(s.2.get(&1).copied().unwrap_or(-7))),
    ("map keys", |w, p| sv(w.b.signal_vec_keys().map(move |x| { p.call(); x })), |s| Out::List(s.2.keys().copied().collect())),
    ("map entries", |w, p| sv(w.b.signal_vec_entries().map(move |(k, v)| { p.call(); k * 100 + v })), |s| Out::List(s.2.iter().map(|(k, v)| k * 100 + v).collect())),
];

fn same(a: &Out, b: &Out) -> bool { match (a, b) { (Out::Val(a), Out::Val(b)) => a == b, (Out::List(a), Out::List(b)) => a == b, (Out::Map(a), Out::Map(b)) => a == b, _ => false } }
fn text(a: &Out) -> String { match a { Out::Val(a) => a.to_string(), Out::List(a) => format!("{:?}", a), Out::Map(a) => format!("{:?}", a) } }

fn run(level: usize, build: Build, model: Model, depth: usize, pokes: usize) {
    let w = World { m: Mutable::new(1), v: MutableVec::new_with_values(vec![1, 2]), b: MutableBTreeMap::with_values([(1, 1), (2, 2)].into_iter().collect()), subs: vec![] };
    let (m, v, b) = (w.m.clone(), w.v.clone(), w.b.clone());
    let cell = Rc::new(RefCell::new(None));
    let poke = Poke { w: cell.clone(), left: Rc::new(Cell::new(pokes)), fresh: Rc::new(Cell::new(10)), level };
    let mut out = build(&w, poke.clone());
    *cell.borrow_mut() = Some(w);
    let check = |out: &dyn Show| {
        let st: St = (Some(m.get()), v.lock_ref().to_vec(), b.lock_ref().iter().map(|(k, v)| (*k, *v)).collect());
        let (want, got) = (model(&st), out.shows());
        assert!(same(&want, &got), "the output shows {} although the callbacks and changes lead to {}", text(&got), text(&want));
    };
    for _ in 0..depth {
        match choose(3) {
            0 => break,
            1 => { out.go(0); }
            _ => { note(|| "change".into()); match level { 0 => m.set(poke.fresh()), 1 => v.lock_mut().push(poke.fresh()), _ => { b.lock_mut().insert(1, poke.fresh()); } } }
        }
        if out.waiting() { check(&*out) }
    }
    out.go(1);
    assert!(!out.ended(), "the output ended although its source lives");
    check(&*out);
    outcome(&text(&out.shows()));
    // the last callbacks may still come while everything goes away
    let mut w = cell.borrow_mut().take();
    if let Some(w) = &mut w { for s in w.subs.iter_mut() { let mut last = None; s.run(&mut |x| last = Some(x)); let _ = last; } }
    let subs = w.as_mut().map(|w| std::mem::take(&mut w.subs));
    drop(w);
    drop((m, v, b));
    out.go(1);
    if level > 0 || !KEEPS.with(|k| k.get()) { assert!(out.ended(), "the output does not end with its source"); }
    for mut s in subs.into_iter().flatten() { s.run(&mut |_| {}); assert!(s.ended, "a signal made by a callback does not end"); }
}
thread_local! { static KEEPS: Cell<bool> = Cell::new(false); }

pub fn jobs(js: &mut Vec<Job>, t: Tier) {
    for (level, list) in [(0, SIGNALS), (1, VECS), (2, MAPS)] {
        for (name, build, model) in list {
            let (build, model) = (*build, *model);
            let (depth, pokes) = t.pick((3, 3), (4, 4));
            // the callback of this one holds a handle of the vec
            let keeps = *name == "switch_signal_vec";
            let name = *name;
            js.push(seq(format!("callbacks that use their own source: {}", name), move || { KEEPS.with(|k| k.set(keeps)); run(level, build, model, depth, pokes) }));
        }
    }    for (name, f) in LEAVING.iter().chain(LEAVING_CONTAINERS) {
        let f = *f;
        let rounds = t.pick(3, 4);
        js.push(seq(format!("tasks dropped by a wake-up: {}", name), move || leaving(f, rounds)));
    }
}

// ------------------------------------------------------------ tasks that a wake-up drops

type Task = Pin<Box<dyn Signal<Item = i32>>>;
type Tasks = Rc<RefCell<Vec<Option<Task>>>>;
/// what happens when a task is woken: it, or a neighbour of it, or a spare handle is dropped right there
struct Wake { woken: std::sync::atomic::AtomicBool, tasks: Tasks, victims: Vec<usize>, spare: Rc<RefCell<Option<Box<dyn std::any::Any>>>>, drop_spare: bool }
unsafe impl Send for Wake {}
unsafe impl Sync for Wake {}
impl std::task::Wake for Wake {
    fn wake(self: std::sync::Arc<Self>) {
        self.woken.store(true, std::sync::atomic::Ordering::SeqCst);
        for v in &self.victims {
            let t = match self.tasks.try_borrow_mut() { Ok(mut l) => l[*v].take(), Err(_) => None };
            drop(t);
        }
        if self.drop_spare { let s = self.spare.borrow_mut().take(); drop(s); }
    }
}
/// makes `n` signals, a way to change their source, and a spare handle of the source
type Make = fn(usize) -> (Vec<Task>, Box<dyn FnMut(i32)>, Box<dyn std::any::Any>);
const LEAVING: &[(&str, Make)] = &[
    ("Mutable, set", |n| { let m = Mutable::new(0); let s = (0..n).map(|i| -> Task { match i % 3 { 0 => Box::pin(m.signal()), 1 => Box::pin(m.signal_cloned()), _ => Box::pin(m.signal_ref(|x| *x)) } }).collect(); let spare = m.clone(); (s, Box::new(move |x| m.set(x)), Box::new(spare)) }),
    ("Mutable, lock_mut", |n| { let m = Mutable::new(0); let s = (0..n).map(|_| -> Task { Box::pin(m.signal()) }).collect(); let spare = m.clone(); (s, Box::new(move |x| *m.lock_mut() = x), Box::new(spare)) }),
    ("Mutable, tasks that own handles", |n| { let m = Mutable::new(0); let s = (0..n).map(|_| -> Task { let c = m.clone(); Box::pin(m.signal().map(move |x| { c.get(); x })) }).collect(); let spare = m.signal(); (s, Box::new(move |x| { m.replace(x); }), Box::new(spare)) }),
    ("Broadcaster", |n| { let m = Mutable::new(0); let b = Broadcaster::new(m.signal()); let s = (0..n).map(|i| -> Task { match i % 3 { 0 => Box::pin(b.signal()), 1 => Box::pin(b.signal_cloned()), _ => Box::pin(b.signal_ref(|x| *x)) } }).collect(); (s, Box::new(move |x| m.set(x)), Box::new(b)) }),
    ("Broadcasters of a Mutable and the Mutable", |n| { let m = Mutable::new(0); let b = Broadcaster::new(m.signal()); let s = (0..n).map(|i| -> Task { if i % 2 == 0 { Box::pin(b.signal()) } else { Box::pin(m.signal()) } }).collect(); drop(b); let spare = m.clone(); (s, Box::new(move |x| m.set(x)), Box::new(spare)) }),
    ("channels behind a Broadcaster", |n| { let (tx, rx) = futures_signals::signal::channel(0); let b = Broadcaster::new(rx); let s = (0..n).map(|_| -> Task { Box::pin(b.signal()) }).collect(); let spare = tx.clone(); (s, Box::new(move |x| { let _ = tx.send(x); }), Box::new((b, spare))) }),
];
const LEAVING_CONTAINERS: &[(&str, Make)] = &[
    ("MutableVec", |n| { let v = MutableVec::new_with_values(vec![0]); let s = (0..n).map(|i| -> Task { let c = v.clone(); if i % 2 == 0 { Box::pin(v.signal_vec().to_signal_map(|x| x[0])) } else { Box::pin(v.signal_vec().to_signal_map(move |x| { drop(c.lock_ref()); x[0] })) } }).collect(); let spare = v.clone(); (s, Box::new(move |x| v.lock_mut().set(0, x)), Box::new(spare)) }),
    ("MutableVec, several diffs", |n| { let v = MutableVec::new_with_values(vec![0]); let s = (0..n).map(|_| -> Task { Box::pin(v.signal_vec().filter(|_| true).to_signal_map(|x| x.iter().sum())) }).collect(); let spare = v.clone(); (s, Box::new(move |x| { let mut l = v.lock_mut(); l.insert(0, x); l.truncate(1); l.push(0); l.retain(|x| *x != 0); if l.is_empty() { l.push(x) } }), Box::new(spare)) }),
    ("MutableBTreeMap", |n| { let v = MutableBTreeMap::with_values([(1, 0)].into_iter().collect::<BTreeMap<i32, i32>>()); let s = (0..n).map(|_| -> Task { Box::pin(v.signal_map().key_cloned(1).map(|x| x.unwrap())) }).collect(); let spare = v.clone(); (s, Box::new(move |x| { v.lock_mut().insert(1, x); }), Box::new(spare)) }),
];
fn leaving(make: Make, rounds: usize) {
    let n = 4;
    let (tasks, mut set, spare) = make(n);
    let tasks: Tasks = Rc::new(RefCell::new(tasks.into_iter().map(Some).collect()));
    let spare = Rc::new(RefCell::new(Some(spare)));
    let mut shown: Vec<Option<i32>> = vec![None; n];
    let mut wakers: Vec<Option<std::sync::Arc<Wake>>> = (0..n).map(|_| None).collect();
    let mut v = 0;
    for round in 0..rounds {
        // in this round one task's wake-up drops: nothing, itself, a neighbour, both, everything
        let who = choose(n);
        let what = choose(6);
        note(|| format!("round {}: the wake-up of task {} drops {}", round, who, ["nothing", "itself", "the next task", "the previous task", "itself and the spare handle", "every task"][what]));
        for i in 0..n {
            let woken = wakers[i].as_ref().map_or(true, |w| w.woken.load(std::sync::atomic::Ordering::SeqCst));
            let victims = if i != who { vec![] } else { match what { 0 => vec![], 1 | 4 => vec![i], 2 => vec![(i + 1) % n], 3 => vec![(i + n - 1) % n], _ => (0..n).collect() } };
            let live = tasks.borrow()[i].is_some();
            if !live { continue; }
            assert!(woken, "task {} was not woken", i);
            let w = std::sync::Arc::new(Wake { woken: false.into(), tasks: tasks.clone(), victims, spare: spare.clone(), drop_spare: i == who && what == 4 });
            wakers[i] = Some(w.clone());
            let waker = std::task::Waker::from(w);
            loop {
                let r = match tasks.borrow_mut()[i].as_mut() { Some(t) => t.as_mut().poll_change(&mut Context::from_waker(&waker)), None => break };
                match r { Poll::Ready(Some(x)) => { note(|| format!("task {} -> {}", i, x)); shown[i] = Some(x); } Poll::Ready(None) => panic!("task {} ended although its source lives", i), Poll::Pending => break }
            }
        }
        for i in 0..n { if tasks.borrow()[i].is_some() { assert_eq!(shown[i], Some(v), "task {} shows an old value", i); } }
        if round + 1 < rounds { v += 1; note(|| format!("set {}", v)); set(v); }
    }
    outcome(&shown);
    drop(set);
    let last = spare.borrow_mut().take();
    drop(last);
    for i in 0..n {
        let t = tasks.borrow_mut()[i].take();
        if let Some(mut t) = t { assert!(matches!(t.as_mut().poll_change(&mut Context::from_waker(&std::task::Waker::noop())), Poll::Ready(None) | Poll::Pending)); }
    }
}
