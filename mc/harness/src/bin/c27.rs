//! C27: what is repeated on a long-lived source does not pile up, and all memory is given back.
use discard::{Discard, DiscardOnDrop};
use futures_signals::cancelable_future;
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::src::*;
use mc::stack::*;
use mc::*;
use mc::{mapops, vecops};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::task::{Context, Poll};

// ------------------------------------------------------------ memory in use by this thread

struct Counting;
thread_local! { static USED: Cell<(i64, i64)> = const { Cell::new((0, 0)) }; }
fn add(blocks: i64, bytes: i64) { USED.with(|u| { let (a, b) = u.get(); u.set((a + blocks, b + bytes)) }) }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(1, l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-1, -(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(1, l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(0, n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn used() -> (i64, i64) { USED.with(|u| u.get()) }

/// Repeats `cycle`: from some repetition on, the memory in use must not grow. Then `end` must give everything back.
fn lasso<W>(make: &dyn Fn() -> W, cycle: &dyn Fn(&mut W), end: &dyn Fn(W)) {
    mute(true);
    let mut bad = None;
    // What is allocated once per thread (by the first try) does not count, and neither does what
    // grows up to some bound only: a suspicion is confirmed with many repetitions.
    for reps in [36, 36, 1200] {
        let base = used();
        let (mut early, mut late) = ((0, 0), (0, 0));
        let mut w = make();
        for k in 1..=reps {
            cycle(&mut w);
            let (a, b) = used();
            let m = if k > reps / 4 && k <= reps / 3 { &mut early } else if k > reps - reps / 8 { &mut late } else { continue };
            *m = (m.0.max(a - base.0), m.1.max(b - base.1));
        }
        end(w);
        let left = used();
        bad = if late.0 > early.0 || late.1 > early.1 { Some(format!("repeating this piles up memory: {} blocks, {} bytes after {} repetitions, but {} blocks, {} bytes after {}", early.0, early.1, reps / 3, late.0, late.1, reps)) }
            else if left != base { Some(format!("everything is dropped, but {} blocks with {} bytes are still in use", left.0 - base.0, left.1 - base.1)) }
            else { None };
        if bad.is_none() { break; }
    }
    mute(false);
    if let Some(m) = bad { panic!("{}", m) }
}

// ------------------------------------------------------------ pipelines over long-lived sources

#[derive(Clone, Copy, Debug, PartialEq)]
enum Top { Leaf(Leaf), HubA(u8), HubC(u8) }
#[derive(Clone, Debug)]
struct Line { top: Top, ops: Vec<Op> }
type Bro = Broadcaster<Pin<Box<dyn Signal<Item = u32>>>>;
struct World { srcs: Srcs, base: mc::stack::State, hub: Option<Bro>, kept: Vec<Exec<View>> }
fn hub_signal(b: &Bro, k: u8) -> DS { match k { 0 => Box::pin(b.signal()), 1 => Box::pin(b.signal_cloned()), _ => Box::pin(b.signal_ref(|x| *x)) } }
impl Line {
    fn kind(&self) -> char { match self.top { Top::Leaf(l) => kind_of(l), _ => 'S' } }
    fn build(&self, s: &mut Srcs, hub: &Option<Bro>) -> Made {
        let mut m: Made = match self.top {
            Top::Leaf(l) => leaf(l, s),
            Top::HubA(k) => (Pipe::S(hub_signal(hub.as_ref().unwrap(), k)), std::rc::Rc::new(|s: &mc::stack::State| (vec![s.a], false)), vec![Id::A]),
            Top::HubC(k) => (Pipe::S(hub_signal(hub.as_ref().unwrap(), k)), std::rc::Rc::new(|s: &mc::stack::State| (vec![s.c], false)), vec![Id::C]),
        };
        for o in &self.ops { m = stack(*o, m, s); }
        m
    }
    fn sub(&self, w: &mut World) -> Exec<View> { let (p, _, _) = self.build(&mut w.srcs, &w.hub); Exec::new(View::new(p)) }
    fn world(&self, kept: usize) -> World {
        let (mut srcs, base) = sources();
        let hub = match self.top { Top::HubA(_) => Some(Broadcaster::new(Box::pin(srcs.a.as_ref().unwrap().signal()) as DS)), Top::HubC(_) => Some(Broadcaster::new(Box::pin(srcs.rx.take().unwrap()) as DS)), _ => None };
        let mut w = World { srcs, base, hub, kept: vec![] };
        for _ in 0..kept { let s = self.sub(&mut w); w.kept.push(s); }
        w
    }
    fn uses(&self) -> Vec<Id> { let mut w = self.world(0); self.build(&mut w.srcs, &w.hub).2 }
    fn name(&self) -> String { format!("{:?}{}", self.top, self.ops.iter().map(|o| format!(".{:?}", o)).collect::<String>()) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do { Act(usize, Act), Handles, Sub, Run(usize), One(usize), Leave(usize), Kept(bool) }

fn handle(s: &Srcs, id: Id) -> Option<Handle> {
    Some(match id { Id::A => Handle::A(s.a.clone()?), Id::B => Handle::B(s.b.clone()?), Id::C => Handle::C(s.tx.clone()?), Id::V => Handle::V(s.v.clone()?), Id::M => Handle::M(s.m.clone()?) })
}
/// Changes the contents, and then makes them what they were at first.
fn reset(s: &Srcs, id: Id, b: &mc::stack::State) {
    match id {
        Id::A => { let m = s.a.as_ref().unwrap(); m.set(77); m.set(b.a) }
        Id::B => { let m = s.b.as_ref().unwrap(); m.set(77); m.set(b.b) }
        Id::C => { let t = s.tx.as_ref().unwrap(); t.send(77).ok(); t.send(b.c).ok(); }
        Id::V => { let mut l = s.v.as_ref().unwrap().lock_mut(); l.replace(vec![77]); l.replace(b.v.clone()) }
        Id::M => { let mut l = s.m.as_ref().unwrap().lock_mut(); l.insert(77, 77); l.replace(b.m.clone()) }
    }
}
fn cycle(line: &Line, ids: &[Id], word: &[Do], asleep: bool, w: &mut World) {
    let mut st = w.base.clone();
    let mut hs: Vec<Option<Handle>> = ids.iter().map(|i| handle(&w.srcs, *i)).collect();
    let mut subs: Vec<Exec<View>> = vec![];
    let f = &mut |_| {};
    for d in word {
        match *d {
            Do::Act(i, a) => { let h = hs[i].take().unwrap(); hs[i] = perform(h, a, &mut st); }
            Do::Handles => drop(ids.iter().map(|i| handle(&w.srcs, *i)).collect::<Vec<_>>()),
            Do::Sub => { let s = line.sub(w); subs.push(s) }
            Do::Run(i) => { subs[i].run(f); }
            Do::One(i) => { subs[i].one(f); }
            Do::Leave(i) => subs[i].drop_out(),
            Do::Kept(all) => for k in w.kept.iter_mut() { if all { k.run(f); } else { k.one(f); } },
        }
    }
    drop((subs, hs));
    // a broadcaster looks for changes only when one of its signals is polled
    let fresh = w.hub.as_ref().map(|b| { let mut e = Exec::new(View::new(Pipe::S(hub_signal(b, 0)))); e.run(f); e });
    for id in IDS { if ids.contains(&id) { reset(&w.srcs, id, &w.base) } }
    drop(fresh);
    if !asleep { for k in w.kept.iter_mut() { k.run(f); } }
}
fn line_job(line: &Line, depth: usize) {
    let ids = line.uses();
    // a channel and what is built on it has only one receiver
    let once = line.top == Top::Leaf(Leaf::Chan);
    // queues of diffs grow while nobody polls: only signals may sleep for ever
    let sleepy = ids.iter().all(|i| !matches!(i, Id::V | Id::M));
    let kept = if once { 1 } else { choose(3) };
    let asleep = kept > 0 && sleepy && flip();
    let mut word: Vec<Do> = vec![];
    let mut subs: Vec<bool> = vec![];
    for _ in 0..depth {
        let mut c: Vec<Option<Do>> = vec![None, Some(Do::Handles)];
        for (i, id) in ids.iter().enumerate() { for a in acts(*id) { if *a != Act::Drop { c.push(Some(Do::Act(i, *a))) } } }
        if kept > 0 { c.push(Some(Do::Kept(true))); c.push(Some(Do::Kept(false))); }
        if !once && subs.len() < 2 { c.push(Some(Do::Sub)); }
        for (i, s) in subs.iter().enumerate() { if *s { c.extend([Some(Do::Run(i)), Some(Do::One(i)), Some(Do::Leave(i))]) } }
        match pick(&c) { None => break, Some(d) => { match d { Do::Sub => subs.push(true), Do::Leave(i) => subs[i] = false, _ => {} } word.push(d) } }
    }
    let order = if word.len() <= 1 { choose(3) } else { word.len() % 3 };
    note(|| format!("{} kept subscribers{}, repeated: {:?}, end {}", kept, if asleep { " that are never polled" } else { "" }, word, order));
    let f = |_| {};
    lasso(&|| { let mut w = line.world(kept); if !asleep { for k in w.kept.iter_mut() { k.run(&mut |_| {}); } } w }, &|w| cycle(line, &ids, &word, asleep, w), &|w| {
        let World { srcs, hub, kept, base } = w;
        match order {
            0 => { drop(kept); drop(hub); drop(srcs) }
            1 => { drop(srcs); drop(hub); drop(kept) }
            _ => { drop(srcs); for mut k in kept { k.run(&mut f.clone()); drop(k) } drop(hub) }
        }
        drop(base)
    });
    outcome(&(kept, asleep, order, word.len()));
    state(&(kept, asleep, format!("{:?}", word)));
}

// ------------------------------------------------------------ all operations of the containers

struct Sub<P: Polled>(Exec<P>);
struct Vs(Pin<Box<dyn SignalVec<Item = u32>>>);
impl Polled for Vs { type Out = (); fn poll_it(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<()>> { self.0.as_mut().poll_vec_change(cx).map(|o| o.map(drop)) } }
struct Ms(Pin<Box<dyn SignalMap<Key = u32, Value = u32>>>);
impl Polled for Ms { type Out = (); fn poll_it(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<()>> { self.0.as_mut().poll_map_change(cx).map(|o| o.map(drop)) } }

fn vec_job(n: u32, depth: usize) {
    let base: Vec<u32> = (1..=n).collect();
    let mut word = vec![];
    {
        let (v, mut m) = (MutableVec::from(base.clone()), base.clone());
        vecops::fresh_from(1000);
        for _ in 0..depth { let op = pick(&vecops::ops(m.len(), true)); vecops::run(&op, &v, &mut m); word.push(op); }
    }
    let (kept, passing) = (choose(3), choose(3));
    let order = choose(2);
    note(|| format!("{} kept subscribers, {} that come and go, repeated: {:?}", kept, passing, word));
    lasso(&|| { let v = MutableVec::from(base.clone()); let k: Vec<Sub<Vs>> = (0..kept).map(|i| Sub(Exec::new(Vs(if i == 0 { Box::pin(v.signal_vec()) } else { Box::pin(v.signal_vec_cloned()) })))).collect(); (v, k) },
        &|(v, k)| {
            vecops::fresh_from(1000);
            let mut m = base.clone();
            let mut p: Vec<Sub<Vs>> = (0..passing).map(|_| Sub(Exec::new(Vs(Box::pin(v.signal_vec()))))).collect();
            for op in &word { vecops::run(op, v, &mut m); }
            if let Some(s) = p.last_mut() { s.0.run(&mut |_| {}); }
            drop(p);
            v.lock_mut().replace(vec![77]);
            v.lock_mut().replace(base.clone());
            for s in k.iter_mut() { s.0.run(&mut |_| {}); }
        },
        &|(v, k)| if order == 0 { drop(k); drop(v) } else { drop(v); drop(k) });
    outcome(&(kept, passing));
    state(&format!("{:?}", word));
}
fn map_job(keys: u32, depth: usize) {
    let base: BTreeMap<u32, u32> = (0..keys).filter(|k| k % 2 == 1).map(|k| (k, k)).collect();
    let mut word = vec![];
    for _ in 0..depth { word.push(pick(&mapops::ops(keys))); }
    let (kept, passing) = (choose(3), choose(3));
    let order = choose(2);
    note(|| format!("{} kept subscribers, {} that come and go, repeated: {:?}", kept, passing, word));
    lasso(&|| { let c = MutableBTreeMap::from(base.clone()); let k: Vec<Sub<Ms>> = (0..kept).map(|i| Sub(Exec::new(Ms(if i == 0 { Box::pin(c.signal_map()) } else { Box::pin(c.signal_map_cloned()) })))).collect(); (c, k) },
        &|(c, k)| {
            mapops::fresh_from(1000);
            let mut m = base.clone();
            let mut p: Vec<Sub<Ms>> = (0..passing).map(|_| Sub(Exec::new(Ms(Box::pin(c.signal_map()))))).collect();
            for op in &word { mapops::run(*op, c, &mut m); }
            if let Some(s) = p.last_mut() { s.0.run(&mut |_| {}); }
            drop(p);
            c.lock_mut().insert(77, 77);
            c.lock_mut().replace(base.clone());
            for s in k.iter_mut() { s.0.run(&mut |_| {}); }
        },
        &|(c, k)| if order == 0 { drop(k); drop(c) } else { drop(c); drop(k) });
    outcome(&(kept, passing));
    state(&format!("{:?}", word));
}

/// All ways to change a Mutable, with subscribers.
fn mutable_job(depth: usize) {
    let word: Vec<usize> = (0..depth).map(|_| choose(13)).collect();
    let kept = choose(3);
    let asleep = flip();
    note(|| format!("{} kept subscribers{}, repeated: {:?}", kept, if asleep { " that are never polled" } else { "" }, word));
    lasso(&|| { let (m, o) = (Mutable::new(1u32), Mutable::new(2u32)); let r = m.read_only(); let mut k: Vec<Exec<Sg<DS>>> = (0..kept).map(|i| Exec::new(Sg(match i { 0 => Box::pin(m.signal()) as DS, _ => Box::pin(r.signal_cloned()) }))).collect(); for s in k.iter_mut() { if !asleep { s.run(&mut |_| {}); } } (m, o, r, k) },
        &|(m, o, r, k)| {
            let mut passing: Option<Exec<Sg<DS>>> = None;
            for x in &word { match x {
                0 => m.set(5), 1 => { m.set_neq(m.get()); } 2 => { m.replace(6); } 3 => { m.replace_with(|v| *v + 1); }
                4 => { m.set_if(7, |_, _| true); } 5 => { m.set_if(8, |_, _| false); } 6 => m.swap(o), 7 => { *m.lock_mut() = 9; } 8 => { let _ = *m.lock_mut(); }
                9 => drop((m.clone(), m.read_only(), r.clone())), 10 => passing = Some(Exec::new(Sg(Box::pin(m.signal()) as DS))), 11 => { if let Some(p) = &mut passing { p.run(&mut |_| {}); } } _ => passing = None,
            } }
            drop(passing);
            m.set(0); o.set(0);
            m.set(1); o.set(2);
            if !asleep { for s in k.iter_mut() { s.run(&mut |_| {}); } }
        },
        &|w| drop(w));
    outcome(&(kept, asleep));
    state(&word);
}

/// Cancelable futures in every order of polling, completing and cancelling.
fn cancel_job() {
    let how = choose(4);
    let (poll_first, completes, poll_again, drop_first) = (flip(), flip(), flip(), flip());
    note(|| format!("cancelled {}, polled first {}, completes {}, polled again {}, dropped first {}", how, poll_first, completes, poll_again, drop_first));
    lasso(&|| (), &|_| {
        let (c, f) = future::<Box<u32>>("inner");
        let b = Box::new(5);
        let (h, fut) = cancelable_future(f, move || b);
        let mut e = Exec::new(Fu(fut, false));
        if poll_first { e.run(&mut drop); }
        if completes { c.push(Box::new(3)); }
        let mut e = if drop_first { drop(e); None } else { Some(e) };
        match how { 0 => drop(h), 1 => DiscardOnDrop::leak(h).discard(), 2 => drop(DiscardOnDrop::leak(h)), _ => { if poll_again { if let Some(e) = &mut e { e.run(&mut drop); } } drop(h) } }
        if poll_again { if let Some(e) = &mut e { e.run(&mut drop); } }
    }, &|_| ());
    outcome(&(how, poll_first, completes, poll_again, drop_first));
}

/// After dropped subscribers, every operation that changes something leaves as many blocks in use as without them,
/// but for a buffer or two that may have grown.
fn forgotten(gone: usize, run: &dyn Fn(usize) -> (bool, i64)) {
    mute(true);
    let mut bad = None;
    for _ in 0..2 {
        let ((changed, without), (_, with)) = (run(0), run(gone));
        bad = if changed && with > without + 3 { Some((without, with)) } else { None };
        if bad.is_none() { break; }
    }
    mute(false);
    if let Some((a, b)) = bad { panic!("{} dropped subscribers are not forgotten by the change: {} blocks are in use instead of {}", gone, b, a) }
}
fn forget_vec(n: u32) {
    let base: Vec<u32> = (1..=n).collect();
    let op = pick(&vecops::ops(base.len(), true));
    let (gone, kept) = (pick(&[6, 17, 40]), choose(2));
    note(|| format!("{} dropped subscribers, {} more, then {:?}", gone, kept, op));
    forgotten(gone, &|gone| {
        let v = MutableVec::from(base.clone());
        let mut k: Vec<Exec<Vs>> = (0..kept).map(|_| Exec::new(Vs(Box::pin(v.signal_vec())))).collect();
        drop((0..4).map(|_| v.signal_vec()).collect::<Vec<_>>());
        v.lock_mut().replace(base.clone());
        let u = used();
        drop((0..gone).map(|_| v.signal_vec()).collect::<Vec<_>>());
        vecops::fresh_from(1000);
        let mut m = base.clone();
        let changed = vecops::run(&op, &v, &mut m);
        for s in k.iter_mut() { s.run(&mut |_| {}); }
        drop(m);
        (changed, used().0 - u.0)
    });
    state(&format!("{:?}", op));
}
fn forget_map(keys: u32) {
    let base: BTreeMap<u32, u32> = (0..keys).filter(|k| k % 2 == 1).map(|k| (k, k)).collect();
    let op = pick(&mapops::ops(keys));
    let (gone, kept) = (pick(&[6, 17, 40]), choose(2));
    note(|| format!("{} dropped subscribers, {} more, then {:?}", gone, kept, op));
    forgotten(gone, &|gone| {
        let c = MutableBTreeMap::from(base.clone());
        let mut k: Vec<Exec<Ms>> = (0..kept).map(|_| Exec::new(Ms(Box::pin(c.signal_map())))).collect();
        drop((0..4).map(|_| c.signal_map()).collect::<Vec<_>>());
        c.lock_mut().replace(base.clone());
        let u = used();
        drop((0..gone).map(|_| c.signal_map()).collect::<Vec<_>>());
        mapops::fresh_from(1000);
        let mut m = base.clone();
        let changed = mapops::run(op, &c, &mut m) > 0;
        for s in k.iter_mut() { s.run(&mut |_| {}); }
        drop(m);
        (changed, used().0 - u.0)
    });
    state(&format!("{:?}", op));
}
fn forget_mutable() {
    let op = choose(7);
    let (gone, kept) = (pick(&[6, 17, 40]), choose(2));
    note(|| format!("{} dropped subscribers, {} more, then operation {}", gone, kept, op));
    forgotten(gone, &|gone| {
        let (m, o) = (Mutable::new(1u32), Mutable::new(2u32));
        let mut k: Vec<Exec<Sg<DS>>> = (0..kept).map(|_| Exec::new(Sg(Box::pin(m.signal()) as DS))).collect();
        drop((0..4).map(|_| (m.signal(), o.signal())).collect::<Vec<_>>());
        m.set(1); o.set(2);
        let u = used();
        drop((0..gone).map(|_| m.signal()).collect::<Vec<_>>());
        match op { 0 => m.set(5), 1 => m.set_neq(5), 2 => { m.replace(6); } 3 => { m.replace_with(|v| *v + 1); } 4 => { m.set_if(7, |_, _| true); } 5 => m.swap(&o), _ => { *m.lock_mut() = 9; } }
        for s in k.iter_mut() { s.run(&mut |_| {}); }
        (true, used().0 - u.0)
    });
    state(&op);
}

fn lines(height: usize) -> Vec<Line> {
    let tops: Vec<Top> = LEAVES.iter().map(|l| Top::Leaf(*l)).chain((0..3).map(Top::HubA)).chain((0..3).map(Top::HubC)).collect();
    let mut out: Vec<Line> = tops.into_iter().map(|top| Line { top, ops: vec![] }).collect();
    let full = |l: &Line| if let Some(o) = l.ops.last() { kind_after(*o) } else { l.kind() };
    for _ in 0..height {
        out = out.into_iter().flat_map(|l| { let k = full(&l); ops_for(k).iter().map(move |o| { let mut l = l.clone(); l.ops.push(*o); l }).collect::<Vec<_>>() }).collect();
    }
    out
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    for h in 0..=2usize {
        for (n, l) in lines(h).into_iter().enumerate() {
            if h == 2 && !t.thorough() && n % 5 != 0 { continue; }
            let wide = matches!(l.kind(), 'V' | 'M') || l.uses().len() > 1;
            let depth = match h { 0 => t.pick(4, 5), 1 => t.pick(if wide { 2 } else { 3 }, if wide { 3 } else { 4 }), _ => t.pick(1, 2) };
            js.push(seq(format!("{}: cycles of {}", l.name(), depth), move || line_job(&l, depth)));
        }
    }
    for n in [0, 1, 3] { let d = t.pick(if n == 3 { 1 } else { 2 }, 2); js.push(seq(format!("MutableVec of {}: cycles of {} operations", n, d), move || vec_job(n, d))); }
    js.push(seq("MutableVec of 20: cycles of 1 operation", move || vec_job(20, 1)));
    { let d = t.pick(2, 3); js.push(seq(format!("MutableBTreeMap with 3 keys: cycles of {} operations", d), move || map_job(3, d))); }
    { let d = t.pick(3, 4); js.push(seq(format!("Mutable: cycles of {} operations", d), move || mutable_job(d))); }
    for n in [0, 1, 2, 3, 20] { js.push(seq(format!("MutableVec of {}: every change forgets dropped subscribers", n), move || forget_vec(n))); }
    for n in [1, 3] { js.push(seq(format!("MutableBTreeMap with {} keys: every change forgets dropped subscribers", n), move || forget_map(n))); }
    js.push(seq("Mutable: every change forgets dropped subscribers", forget_mutable));
    js.push(seq("cancelable futures", cancel_job));
    js
}

fn main() {
    mc::main(Spec { property: "C27", assumptions: vec!["the memory in use is what the global allocator has handed out and not got back (blocks and bytes)".into(), "a Mutable and a Broadcaster forget dropped signals when they next change, so every repeated history ends with a change".into()], notes: "Every history up to a length, closed to a cycle by dropping its subscribers and restoring the contents, is repeated 36 times on the same long-lived sources and subscribers: the blocks and bytes in use must stop growing, and be those of the beginning once everything is dropped. The histories cover every source and combinator, alone and in stacks.".into() }, jobs)
}
