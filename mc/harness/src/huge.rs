//! Combinators over very long sources: positions and lengths beyond 8 and 16 bits.
use crate::model::{apply, apply_map};
use crate::rt::Parker;
use crate::stack::*;
use crate::*;
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use std::collections::BTreeMap;
use std::task::{Context, Poll};

/// More elements than 16 bits can count, even if half of them are left out.
fn long(op: Option<Op>) -> usize { if matches!(op, Some(Op::VFilter | Op::VFilterMap)) { 140_000 } else { 66_000 } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit { Nothing, Push, Pop, Insert(usize), Remove(usize), Update(usize), Move(usize, usize), Less, Few, Clear, B, Leave }

fn edit(e: Edit, s: &mut Srcs, st: &mut stack::State, map: bool) {
    note(|| format!("{:?}", e));
    // (no channel is used here)
    let x = 1_000_000 + st.c * 7;
    st.c += 1;
    match e {
        Edit::Nothing => {}
        Edit::B => { st.b += 1; s.b.as_ref().unwrap().set(st.b) }
        Edit::Leave => { if map { s.m = None; st.gone[4] = true } else { s.v = None; st.gone[3] = true } s.b = None; st.gone[1] = true }
        e if map => {
            let m = s.m.as_ref().unwrap();
            let at = |i: usize| st.m.keys().nth(i).copied();
            match e {
                Edit::Push => { let k = 10 + st.m.keys().last().copied().unwrap_or(0); st.m.insert(k, x); m.lock_mut().insert(k, x); }
                Edit::Insert(i) => { if let Some(k) = at(i) { st.m.insert(k + 1, x); m.lock_mut().insert(k + 1, x); } }
                Edit::Remove(i) => { if let Some(k) = at(i) { st.m.remove(&k); m.lock_mut().remove(&k); } }
                Edit::Update(i) => { if let Some(k) = at(i) { st.m.insert(k, x); m.lock_mut().insert(k, x); } }
                Edit::Few | Edit::Less => { let n: BTreeMap<u32, u32> = [(0, x), (9, x + 1)].into_iter().collect(); st.m = n.clone(); m.lock_mut().replace(n) }
                Edit::Clear => { st.m.clear(); m.lock_mut().clear() }
                _ => {}
            }
        }
        e => {
            let mut v = s.v.as_ref().unwrap().lock_mut();
            let n = st.v.len();
            match e {
                Edit::Push => { st.v.push(x); v.push(x) }
                Edit::Pop => assert_eq!(st.v.pop(), v.pop()),
                Edit::Insert(i) => { if i <= n { st.v.insert(i, x); v.insert(i, x) } }
                Edit::Remove(i) => { if i < n { assert_eq!(st.v.remove(i), v.remove(i)) } }
                Edit::Update(i) => { if i < n { st.v[i] = x; v.set(i, x) } }
                Edit::Move(i, j) => { if i < n && j < n { let y = st.v.remove(i); st.v.insert(j, y); v.move_from_to(i, j) } }
                Edit::Less => { st.v.truncate(n - n.min(20)); v.truncate(n - n.min(20)) }
                Edit::Few => { st.v = vec![x, 3, 6]; v.replace(vec![x, 3, 6]) }
                Edit::Clear => { st.v.clear(); v.clear() }
                _ => {}
            }
        }
    }
}

/// Polls until nothing more comes. Returns whether the output has ended.
fn drain(pipe: &mut Pipe, v: &mut Vec<u32>, m: &mut BTreeMap<u32, u32>, task: &Parker, first: bool) -> bool {
    if !first && !task.woken() { return false }
    for _ in 0..1_000_000 {
        let w = task.fresh();
        let cx = &mut Context::from_waker(&w);
        let r = match pipe {
            Pipe::S(s) => match s.as_mut().poll_change(cx) { Poll::Ready(Some(x)) => { *v = vec![x]; Poll::Ready(true) } Poll::Ready(None) => Poll::Ready(false), Poll::Pending => Poll::Pending },
            Pipe::V(s) => match s.as_mut().poll_vec_change(cx) { Poll::Ready(Some(d)) => { apply(v, d); Poll::Ready(true) } Poll::Ready(None) => Poll::Ready(false), Poll::Pending => Poll::Pending },
            Pipe::M(s) => match s.as_mut().poll_map_change(cx) { Poll::Ready(Some(d)) => { apply_map(m, d); Poll::Ready(true) } Poll::Ready(None) => Poll::Ready(false), Poll::Pending => Poll::Pending },
        };
        match r { Poll::Ready(true) => {} Poll::Ready(false) => return true, Poll::Pending => if !task.woken() { return false } }
    }
    panic!("the output never stops being ready")
}

fn history(leaf_: Leaf, op: Option<Op>, grow: bool) {
    let n = long(op);
    let map = matches!(leaf_, Leaf::Map_ | Leaf::MapCloned | Leaf::Keys | Leaf::Entries);
    let (mut s, mut st) = sources();
    let full: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(40_503) % 100_003).collect();
    let keys: BTreeMap<u32, u32> = (0..n as u32).map(|i| (i * 10, i % 977)).collect();
    let start = |s: &Srcs, st: &mut stack::State| if map { st.m = keys.clone(); s.m.as_ref().unwrap().lock_mut().replace(keys.clone()) } else { st.v = full.clone(); s.v.as_ref().unwrap().lock_mut().replace(full.clone()) };
    if !grow { start(&s, &mut st) }
    let mut made = leaf(leaf_, &mut s);
    if let Some(o) = op { made = stack(o, made, &mut s) }
    let (mut pipe, model, _) = made;
    let (mut v, mut m, task) = (vec![], BTreeMap::new(), Parker::new());
    let mut check = |st: &stack::State, first: bool| {
        let over = drain(&mut pipe, &mut v, &mut m, &task, first);
        let (want, end) = model(st);
        let shown: Vec<u32> = if let Pipe::M(_) = pipe { m.iter().flat_map(|(k, v)| [*k, *v]).collect() } else { v.clone() };
        if shown != want {
            let i = (0..want.len().min(shown.len())).find(|i| shown[*i] != want[*i]).unwrap_or(want.len().min(shown.len()));
            panic!("the output has {} element(s) instead of {}, and {:?} instead of {:?} at {}", shown.len(), want.len(), shown.get(i), want.get(i), i);
        }
        assert!(over == end, "the output is {}, but its inputs have {}ended", if over { "ended" } else { "blocked" }, if end { "" } else { "not all " });
        over
    };
    check(&st, true);
    if grow { start(&s, &mut st); check(&st, false); }
    use Edit::*;
    let mut es = vec![Nothing, Push, Pop, Less, Few, Clear, B];
    // positions at which narrow arithmetic breaks
    for i in [0, 256, 65_535, 65_536, n - 500, n - 1] { es.extend([Insert(i), Remove(i), Update(i)]); }
    es.push(Insert(n));
    if !map { for (i, j) in [(0, n - 1), (n - 1, 0), (65_535, 65_536), (65_536, 65_535), (0, 65_536), (65_536, 0), (255, 65_536), (256, 255), (65_537, 256)] { es.push(Move(i, j)); } }
    else { es.retain(|e| !matches!(e, Pop | Less)) }
    let e = pick(&es);
    edit(e, &mut s, &mut st, map);
    check(&st, false);
    let e = pick(&[Leave, Update(65_536), Remove(65_535), Insert(65_536)]);
    if e != Leave { edit(e, &mut s, &mut st, map); check(&st, false); }
    edit(Leave, &mut s, &mut st, map);
    check(&st, false);
    outcome(&st.v.len());
}

/// Long vecs are a matter of seconds, but nothing promises that: once they have taken too long altogether, the rest is left out.
const PATIENCE: u64 = 600_000;
static SPENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn patient(f: impl FnOnce()) {
    use std::sync::atomic::Ordering::Relaxed;
    if SPENT.load(Relaxed) >= PATIENCE { outcome(&"left out"); return; }
    let t = std::time::Instant::now();
    f();
    let ms = t.elapsed().as_millis() as u64;
    SPENT.fetch_add(if ms > 8_000 { PATIENCE } else { ms }, Relaxed);
}

/// Two jobs for each: long from the start, and growing at once.
pub fn jobs(js: &mut Vec<Job>, leaf: Leaf, ops: &'static [Op]) {
    let name = |o: Option<Op>, g: bool| format!("{:?}{} {} {} elements", leaf, o.map(|o| format!(".{:?}", o)).unwrap_or_default(), if g { "growing to" } else { "of" }, long(o));
    if ops.is_empty() { for g in [false, true] { js.push(seq(name(None, g), move || patient(|| history(leaf, None, g)))); } }
    for o in ops { for g in [false, true] { js.push(seq(name(Some(*o), g), move || patient(|| history(leaf, Some(*o), g)))); } }
}


/// A long inner vec between two short ones.
const LONG: usize = 66_000;
fn flatten() {
    let mut serial = 0;
    let mut some = |n: usize| -> Vec<u32> { serial += n as u32; (serial - n as u32..serial).collect() };
    let inner: Vec<MutableVec<u32>> = [3, LONG, 3].into_iter().map(|n| MutableVec::new_with_values(some(n))).collect();
    let mut model: Vec<Vec<u32>> = inner.iter().map(|v| v.lock_ref().to_vec()).collect();
    let outer = MutableVec::new_with_values(vec![0usize, 1, 2]);
    let mut order = vec![0usize, 1, 2];
    let sources: Vec<_> = inner.iter().map(|v| v.clone()).collect();
    let mut pipe = Pipe::V(Box::pin(SignalVecExt::flatten(SignalVecExt::map(outer.signal_vec(), move |i| sources[i].signal_vec()))));
    let (mut v, mut m, task) = (vec![], BTreeMap::new(), Parker::new());
    let mut check = |order: &[usize], model: &[Vec<u32>], first: bool| {
        assert!(!drain(&mut pipe, &mut v, &mut m, &task, first), "the output ends early");
        let want: Vec<u32> = order.iter().flat_map(|i| model[*i].iter().copied()).collect();
        if v != want {
            let i = (0..want.len().min(v.len())).find(|i| v[*i] != want[*i]).unwrap_or(want.len().min(v.len()));
            panic!("the output has {} element(s) instead of {}, and {:?} instead of {:?} at {}", v.len(), want.len(), v.get(i), want.get(i), i);
        }
    };
    check(&order, &model, true);
    for _ in 0..2 {
        let n = order.len();
        let mut acts: Vec<(usize, usize, usize)> = vec![];
        for i in 0..n { for j in 0..n { if i != j && (i == 1 || j == 1) && n == 3 { acts.push((0, i, j)) } } acts.push((1, i, 0)); }
        for i in 0..3 { for a in 2..7 { acts.push((a, i, 0)) } }
        let (a, i, j) = pick(&acts);
        note(|| format!("{:?}", (a, i, j)));
        match a {
            0 => { let x = order.remove(i); order.insert(j, x); outer.lock_mut().move_from_to(i, j) }
            1 => { order.remove(i); outer.lock_mut().remove(i); }
            2 => { let x = some(1)[0]; model[i].push(x); inner[i].lock_mut().push(x) }
            3 => { model[i].pop(); inner[i].lock_mut().pop(); }
            4 => { let (k, x) = (model[i].len() / 2, some(1)[0]); model[i].insert(k, x); inner[i].lock_mut().insert(k, x) }
            5 => { if !model[i].is_empty() { model[i].remove(0); inner[i].lock_mut().remove(0); } }
            _ => { model[i].clear(); inner[i].lock_mut().clear() }
        }
        check(&order, &model, false);
    }
    outcome(&(order, v.len()));
}
pub fn flatten_job(js: &mut Vec<Job>) { js.push(seq(format!("flatten with an inner vec of {} elements", LONG), || patient(flatten))); }

/// More changes than 16 bits can count, of a small source.
fn marathon(leaf_: Leaf, op: Op) {
    use crate::src::Step;
    let n = 70_000;
    let every = pick(&[1, 2, 7, 1000]);
    let gentle = flip();
    let (mut srcs, mut st) = sources();
    let made = leaf(leaf_, &mut srcs);
    let (pipe, model, ids) = stack(op, made, &mut srcs);
    let view = View::new(pipe);
    let mut shown = view.initial();
    let mut ex = crate::src::Exec::new(view);
    let mut handles: Vec<(Id, Option<Handle>)> = ids.iter().map(|i| (*i, Some(srcs.take(*i)))).collect();
    drop(srcs);
    let mut look = |st: &stack::State, changes: usize| {
        let mut got = None;
        ex.run(&mut |v: Vec<u32>| got = Some(v));
        if got.is_some() { shown = got }
        let (want, end) = model(st);
        assert!(shown.as_ref() == Some(&want), "after {} changes the output shows {:?} and is {}, but the function of the current state is {:?}", changes, shown, if ex.ended { "ended" } else { "blocked" }, want);
        assert!(ex.ended == end, "after {} changes the output is {}, but its inputs have {}ended", changes, if ex.ended { "ended" } else { "blocked" }, if end { "" } else { "not all " });
    };
    look(&st, 0);
    let mut turn = [0usize; 5];
    for i in 1..=n {
        let k = (i * 7 / 5) % handles.len();
        let id = handles[k].0;
        let all: &[Act] = match id {
            Id::A | Id::C => &[Act::Set],
            Id::B => &[Act::Set, Act::Lock],
            Id::V if gentle => if st.v.len() > 5 { &[Act::Remove] } else { &[Act::Push, Act::Update, Act::Insert, Act::Move, Act::Push] },
            Id::V => &[Act::Push, Act::Insert, Act::Remove, Act::Update, Act::Push, Act::Move, Act::Replace, Act::Push, Act::Clear],
            Id::M if gentle => if st.m.contains_key(&1) && turn[4] % 3 == 0 { &[Act::Remove] } else { &[Act::Update] },
            Id::M => &[Act::Push, Act::Update, Act::Update, Act::Remove, Act::Push, Act::Push, Act::Replace, Act::Update, Act::Clear],
        };
        let a = all[turn[id as usize] % all.len()];
        turn[id as usize] += 1;
        let h = handles[k].1.take().unwrap();
        handles[k].1 = perform(h, a, &mut st);
        if i % every == 0 { look(&st, i) }
    }
    look(&st, n);
    if flip() { handles.reverse(); }
    for (_, h) in handles.iter_mut() { perform(h.take().unwrap(), Act::Drop, &mut st); look(&st, n); }
    outcome(&st);
}
pub fn marathons(js: &mut Vec<Job>, leaves: &'static [Leaf], ops: &'static [Op]) {
    for l in leaves { for o in ops { js.push(seq(format!("{:?}.{:?} with 70000 changes", l, o), move || patient(|| marathon(*l, *o)))); } }
}
