//! Many subscribers of one source, and many changes: what holds for two subscribers
//! must hold for any number of them.
use crate::conc::Sg;
use crate::model::{apply, apply_map};
use crate::src::*;
use crate::*;
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::task::{Context, Poll};

pub type Sig = Pin<Box<dyn Signal<Item = u32>>>;

pub trait Hub {
    fn new(v: u32) -> Self where Self: Sized;
    fn subscribe(&self, k: usize) -> Sig;
    fn set(&mut self, v: u32);
    /// everything that keeps the source going is gone
    fn end(&mut self);
}

struct Sub { ex: Exec<Sg<Sig>>, last: Option<u32>, armed: Option<u64> }

/// Which of `n` subscribers: none, all, every second one, ...
fn among(k: usize, i: usize, n: usize) -> bool {
    match k { 0 => false, 1 => i % 2 == 0, 2 => i % 2 == 1, 3 => i == 0, 4 => i + 1 == n, 5 => i != n / 2, 6 => i < n / 2, 7 => i >= n / 2, _ => true }
}

fn poll(subs: &mut [Option<Sub>], which: usize, latest: u32, ended: bool) {
    let n = subs.len();
    for (i, s) in subs.iter_mut().enumerate() {
        let s = match s { Some(s) if among(which, i, n) && !s.ex.ended => s, _ => continue };
        loop {
            let before = s.last;
            let mut got = None;
            let r = s.ex.force(&mut |v| got = Some(v));
            s.armed = None;
            match r {
                Step::Item => { assert_eq!(got, Some(latest), "subscriber {} of {} yields the newest value", i, n); assert!(before != got, "subscriber {} of {} yields {:?} twice", i, n, got); s.last = got; }
                Step::Pending => { assert!(!ended, "subscriber {} of {} does not end", i, n); assert_eq!(s.last, Some(latest), "subscriber {} of {} is Pending, the last value it yielded", i, n); s.armed = Some(s.ex.task.wakes()); break; }
                Step::End => { assert!(ended, "subscriber {} of {} ends early", i, n); assert_eq!(s.last, Some(latest), "subscriber {} of {} has ended, the last value it yielded", i, n); break; }
                Step::Idle => break,
            }
        }
    }
}
fn woken(subs: &mut [Option<Sub>], what: &str) {
    let n = subs.len();
    for (i, s) in subs.iter_mut().enumerate() { if let Some(s) = s { if let Some(w) = s.armed.take() { assert!(s.ex.task.wakes() > w, "subscriber {} of {} waits and is not woken by {}", i, n, what); } } }
}

fn crowd<H: Hub>(n: usize, rounds: usize) {
    let mut hub = H::new(1);
    let mut latest = 1;
    let mut subs: Vec<Option<Sub>> = (0..n).map(|k| Some(Sub { ex: Exec::new(Sg(hub.subscribe(k))), last: None, armed: None })).collect();
    poll(&mut subs, 8, latest, false);
    for _ in 0..rounds {
        let (leave, join, reach) = (choose(9), pick(&[0, 1, n]), choose(9));
        note(|| format!("leave {}, join {}, polled {}", leave, join, reach));
        let m = subs.len();
        for (i, s) in subs.iter_mut().enumerate() { if among(leave, i, m) { *s = None; } }
        latest += 1;
        hub.set(latest);
        woken(&mut subs, "a change");
        for k in 0..join { subs.push(Some(Sub { ex: Exec::new(Sg(hub.subscribe(k))), last: None, armed: None })); }
        poll(&mut subs, reach, latest, false);
        state(&(leave, join, reach, subs.iter().flatten().count()));
    }
    if flip() { latest += 1; hub.set(latest); woken(&mut subs, "a change"); poll(&mut subs, 8, latest, false); }
    hub.end();
    woken(&mut subs, "the end");
    poll(&mut subs, 8, latest, true);
    assert!(subs.iter().flatten().all(|s| s.ex.ended));
    outcome(&(latest, subs.len()));
}

/// Many changes, polled after every `k`th.
fn marathon<H: Hub>(n: usize) {
    let mut hub = H::new(1);
    let every = pick(&[1, 2, 7, 64, n + 1]);
    let mut latest = 1;
    let mut subs: Vec<Option<Sub>> = (0..3).map(|k| Some(Sub { ex: Exec::new(Sg(hub.subscribe(k))), last: None, armed: None })).collect();
    if flip() { poll(&mut subs, 8, latest, false); }
    for k in 1..=n { latest += 1; hub.set(latest); woken(&mut subs, "a change"); if k % every == 0 { poll(&mut subs, 8, latest, false); } }
    poll(&mut subs, 8, latest, false);
    hub.end();
    woken(&mut subs, "the end");
    poll(&mut subs, 8, latest, true);
    assert!(subs.iter().flatten().all(|s| s.ex.ended));
}

/// One subscriber keeps up with the changes, another one sleeps through `n` of them.
fn sleeper<H: Hub>(n: usize) {
    let mut hub = H::new(1);
    let off = choose(3);
    let kinds = choose(3);
    let mut latest = 1;
    let mut subs: Vec<Option<Sub>> = (0..2).map(|k| Some(Sub { ex: Exec::new(Sg(hub.subscribe(k + kinds))), last: None, armed: None })).collect();
    poll(&mut subs, 8, latest, false);
    for _ in 0..n - 1 + off { latest += 1; hub.set(latest); woken(&mut subs, "a change"); poll(&mut subs, 3, latest, false); }
    poll(&mut subs, 8, latest, false);
    hub.end();
    woken(&mut subs, "the end");
    poll(&mut subs, 8, latest, true);
    assert!(subs.iter().flatten().all(|s| s.ex.ended));
}

/// More subscribers than 16 bits can count.
fn multitude<H: Hub>(n: usize) {
    let mut hub = H::new(1);
    let leave = pick(&[0, 1, 5, 6, 7]);
    note(|| format!("leave {}", leave));
    let mut subs: Vec<Option<Sub>> = (0..n).map(|k| Some(Sub { ex: Exec::new(Sg(hub.subscribe(k))), last: None, armed: None })).collect();
    poll(&mut subs, 8, 1, false);
    for latest in 2..4 {
        hub.set(latest);
        woken(&mut subs, "a change");
        poll(&mut subs, 8, latest, false);
        if latest == 2 { for i in 0..n { if among(leave, i, n) { subs[i] = None; } } }
    }
    hub.end();
    woken(&mut subs, "the end");
    poll(&mut subs, 8, 3, true);
    assert!(subs.iter().flatten().all(|s| s.ex.ended));
}

pub fn jobs<H: Hub + 'static>(js: &mut Vec<Job>, what: &str, t: Tier) {
    for n in t.pick(vec![3, 17, 40], vec![3, 5, 17, 40, 70, 300]) {
        let rounds = if n <= 5 { 2 } else { 1 };
        js.push(seq(format!("{}: {} subscribers that come and go, {} rounds", what, n, rounds), move || crowd::<H>(n, rounds)));
    }
    for n in t.pick(vec![16, 256, 65536], vec![16, 32, 64, 128, 256, 512, 1024, 4096, 32768, 65536]) { js.push(seq(format!("{}: one subscriber sleeps through {} changes", what, n), move || sleeper::<H>(n))); }
    js.push(seq(format!("{}: 66000 subscribers", what), || crate::huge::patient(|| multitude::<H>(66_000))));
    let most = t.pick(40, 300);
    js.push(seq(format!("{}: one subscriber sleeps through up to {} changes", what, most), move || sleeper::<H>(1 + choose(most))));
    for n in [70, 300, 1000] { js.push(seq(format!("{}: {} changes", what, n), move || marathon::<H>(n))); }
}

pub struct Mut(Option<Mutable<u32>>, ReadOnlyMutable<u32>);
impl Hub for Mut {
    fn new(v: u32) -> Self { let m = Mutable::new(v); let r = m.read_only(); Mut(Some(m), r) }
    fn subscribe(&self, k: usize) -> Sig { match k % 3 { 0 => Box::pin(self.1.signal()), 1 => Box::pin(self.1.signal_cloned()), _ => Box::pin(self.1.signal_ref(|v| *v)) } }
    fn set(&mut self, v: u32) { self.0.as_ref().unwrap().set(v) }
    fn end(&mut self) { self.0 = None }
}
/// K: over a Mutable, else over a channel
pub struct Cast<const K: bool>(Result<Mutable<u32>, Sender<u32>>, Option<Broadcaster<Sig>>);
impl<const K: bool> Hub for Cast<K> {
    fn new(v: u32) -> Self {
        if K { let m = Mutable::new(v); let s = m.signal(); Cast(Ok(m), Some(Broadcaster::new(Box::pin(s)))) }
        else { let (s, r) = channel(v); Cast(Err(s), Some(Broadcaster::new(Box::pin(r)))) }
    }
    fn subscribe(&self, k: usize) -> Sig { let b = self.1.as_ref().unwrap(); match k % 3 { 0 => Box::pin(b.signal()), 1 => Box::pin(b.signal_cloned()), _ => Box::pin(b.signal_ref(|v| *v)) } }
    fn set(&mut self, v: u32) { match &self.0 { Ok(m) => m.set(v), Err(s) => { s.send(v).unwrap() } } }
    fn end(&mut self) { self.0 = Ok(Mutable::new(0)); self.1 = None; }
}

/// Polls to the end of what there is, and yields the last element then.
struct LastOf<S: SignalVec<Item = u32>>(Pin<Box<S>>, Vec<u32>);
impl<S: SignalVec<Item = u32>> Signal for LastOf<S> {
    type Item = u32;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u32>> {
        let mut any = false;
        loop {
            match self.0.as_mut().poll_vec_change(cx) {
                Poll::Ready(Some(d)) => { any = true; apply(&mut self.1, d) }
                Poll::Ready(None) if !any => return Poll::Ready(None),
                Poll::Pending if !any => return Poll::Pending,
                // (the end shows again: MutableVec and MutableBTreeMap signals are fused)
                _ => return Poll::Ready(Some(self.1.last().copied().unwrap_or(0))),
            }
        }
    }
}
struct LastIn<S: SignalMap<Key = u32, Value = u32>>(Pin<Box<S>>, BTreeMap<u32, u32>);
impl<S: SignalMap<Key = u32, Value = u32>> Signal for LastIn<S> {
    type Item = u32;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u32>> {
        let mut any = false;
        loop {
            match self.0.as_mut().poll_map_change(cx) {
                Poll::Ready(Some(d)) => { any = true; apply_map(&mut self.1, d) }
                Poll::Ready(None) if !any => return Poll::Ready(None),
                Poll::Pending if !any => return Poll::Pending,
                _ => return Poll::Ready(Some(self.1.iter().next_back().map(|(k, v)| { assert_eq!(k, v); *v }).unwrap_or(0))),
            }
        }
    }
}
pub struct List(Option<MutableVec<u32>>);
impl Hub for List {
    fn new(v: u32) -> Self { List(Some(MutableVec::new_with_values(vec![v]))) }
    fn subscribe(&self, k: usize) -> Sig { let v = self.0.as_ref().unwrap(); if k % 2 == 0 { Box::pin(LastOf(Box::pin(v.signal_vec()), vec![])) } else { Box::pin(LastOf(Box::pin(v.signal_vec_cloned()), vec![])) } }
    fn set(&mut self, v: u32) { let mut l = self.0.as_ref().unwrap().lock_mut(); match v % 4 { 0 => l.push(v), 1 => { let n = l.len(); l.set(n - 1, v) } 2 => l.replace(vec![1, v]), _ => l.extend(vec![v, v]) } }
    fn end(&mut self) { self.0 = None }
}
pub struct Dict(Option<MutableBTreeMap<u32, u32>>);
impl Hub for Dict {
    fn new(v: u32) -> Self { Dict(Some(MutableBTreeMap::with_values([(v, v)].into()))) }
    fn subscribe(&self, k: usize) -> Sig {
        let m = self.0.as_ref().unwrap();
        match k % 4 { 0 => Box::pin(LastIn(Box::pin(m.signal_map()), BTreeMap::new())), 1 => Box::pin(LastOf(Box::pin(m.signal_vec_keys()), vec![])), 2 => Box::pin(LastIn(Box::pin(m.signal_map_cloned()), BTreeMap::new())),
            _ => Box::pin(LastOf(Box::pin(m.entries_cloned().map(|(k, _)| k)), vec![])) }
    }
    fn set(&mut self, v: u32) { let mut l = self.0.as_ref().unwrap().lock_mut(); match v % 3 { 0 => { l.insert(v, v); } 1 => l.replace([(1, 1), (v, v)].into()), _ => { l.remove(&1); l.insert_cloned(v, v); } } }
    fn end(&mut self) { self.0 = None }
}

/// Many handles: the end comes with the last one, and not before.
pub fn handles<T>(n: usize, first: T, clone: impl Fn(&T) -> T, change: impl Fn(&T, u32), subscribe: impl FnOnce(&T) -> Sig) {
    let mut ex = Exec::new(Sg(subscribe(&first)));
    let mut last = 0;
    let mut drain = move |ex: &mut Exec<Sg<Sig>>| { let s = loop { match ex.force(&mut |v| last = v) { Step::Item => {} s => break s } }; (s, last) };
    assert_eq!(drain(&mut ex), (Step::Pending, 1));
    let mut all: Vec<Option<T>> = vec![Some(first)];
    if n > 1000 {
        // more than 16 bits can count: looked at now and then
        let back = flip();
        for k in 1..n { let h = clone(all[0].as_ref().unwrap()); all.push(Some(h)); if k % 1024 < 2 || k > n - 3 { change(all[k].as_ref().unwrap(), k as u32); assert_eq!(drain(&mut ex), (Step::Pending, k as u32), "{} handles", k + 1); } }
        let mut all: Vec<T> = all.into_iter().flatten().collect();
        if back { all.reverse(); }
        while all.len() > 1 {
            all.pop();
            let k = all.len();
            if k % 256 < 2 { change(&all[0], k as u32); assert_eq!(drain(&mut ex), (Step::Pending, k as u32), "{} of {} handles are left", k, n); }
        }
        let w = ex.task.wakes();
        all.pop();
        assert!(ex.task.wakes() > w, "not woken for the end");
        assert_eq!(drain(&mut ex), (Step::End, 1), "all handles are gone");
        return;
    }
    for _ in 1..n { let h = clone(all[all.len() / 2].as_ref().unwrap()); all.push(Some(h)); }
    assert_eq!(drain(&mut ex), (Step::Pending, 1), "more handles");
    let mut v = 1;
    for k in [choose(9), choose(9), 8] {
        note(|| format!("drop {}", k));
        for i in 0..n {
            if !among(k, i, n) || all[i].is_none() { continue; }
            let w = ex.task.wakes();
            all[i] = None;
            match all.iter().flatten().next() {
                None => { assert!(ex.task.wakes() > w, "not woken for the end"); assert_eq!(drain(&mut ex), (Step::End, v), "all handles are gone"); return; }
                Some(h) => {
                    if i % 16 == 0 || n - i < 3 { v += 1; change(h, v); assert!(ex.task.wakes() > w, "not woken for a change"); }
                    assert_eq!(drain(&mut ex), (Step::Pending, v), "{} of {} handles are left", all.iter().flatten().count(), n);
                }
            }
        }
    }
    unreachable!()
}
pub const HANDLES: &[usize] = &[1, 2, 3, 8, 17, 40, 65, 130, 260, 66_000];
