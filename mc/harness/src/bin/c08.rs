//! C08: every sequence of MutableVec operations against Vec.
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::vecops::*;
use mc::*;
use futures_signals::signal::SignalExt;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

type Dyn = Pin<Box<dyn SignalVec<Item = u32>>>;

struct Sub { ex: Exec<Sv<Dyn>>, mirror: Vec<u32>, items: usize }
impl Sub {
    fn new(v: &MutableVec<u32>, cloned: bool) -> Self { Sub { ex: Exec::new(Sv(if cloned { Box::pin(v.signal_vec_cloned()) as Dyn } else { Box::pin(v.signal_vec()) })), mirror: vec![], items: 0 } }
    fn poll(&mut self) -> Step {
        let (m, n) = (&mut self.mirror, &mut self.items);
        self.ex.force(&mut |d| { note(|| format!("   gets {:?}", d)); *n += 1; apply(m, d) })
    }
    fn drain(&mut self) -> Step { loop { match self.poll() { Step::Item => {} s => return s } } }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn history(n0: usize, depth: usize, layout: usize, late_at: usize, full: bool) {
    fresh_from(0);
    let mut m: Vec<u32> = (0..n0).map(|_| fresh()).collect();
    let v = MutableVec::new_with_values(m.clone());
    let other = v.clone();
    // 0: no subscriber; otherwise eager, lazy and (from layout 2 on) one that leaves, in different orders
    let mut eager = None;
    let mut lazy = None;
    let mut gone = None;
    match layout {
        0 => {}
        1 => { eager = Some(Sub::new(&v, false)); }
        2 => { eager = Some(Sub::new(&v, false)); lazy = Some(Sub::new(&v, true)); gone = Some(Sub::new(&v, true)); }
        3 => { gone = Some(Sub::new(&v, false)); eager = Some(Sub::new(&v, true)); lazy = Some(Sub::new(&v, false)); }
        _ => { eager = Some(Sub::new(&v, true)); gone = Some(Sub::new(&v, false)); lazy = Some(Sub::new(&v, true)); }
    }
    let mut late: Option<Sub> = None;
    if let Some(s) = eager.as_mut() { assert_eq!(s.drain(), Step::Pending); assert_eq!(s.mirror, m, "a new subscriber starts with the contents"); }
    for k in 0..depth {
        if layout > 0 && k == late_at { note(|| "subscribe".into()); late = Some(Sub::new(&v, k % 2 == 0)); }
        let os = ops(m.len(), full);
        let c = choose(os.len() + 1);
        if c == 0 { break; }
        let op = &os[c - 1];
        note(|| format!("{:?}", op));
        let waits = eager.as_ref().map(|s| (s.ex.task.wakes(), s.items));
        let changed = run(op, if k % 2 == 0 { &v } else { &other }, &mut m);
        note(|| format!("   contents {:?}", m));
        if k == 0 { gone = None; }
        {
            let l = v.lock_ref();
            assert_eq!(&l[..], &m[..], "contents");
            assert_eq!(l.len(), m.len());
            assert!(l.as_slice() == &m[..] && l == &m[..] && hash(&*l) == hash(&m[..]) && format!("{:?}", v) == format!("MutableVec({:?})", m));
            assert!(m.is_empty() || l[m.len() - 1] == m[m.len() - 1]);
        }
        if let (Some(s), Some((w, items))) = (eager.as_mut(), waits) {
            if changed { assert!(s.ex.task.wakes() > w, "a waiting subscriber is not woken"); }
            assert_eq!(s.drain(), Step::Pending, "a subscriber ends early");
            assert_eq!(s.mirror, m, "replaying the diffs");
            if !changed { assert_eq!(s.items, items, "an operation that changes nothing sends a diff"); }
        }
        state(&m);
    }
    for s in [&mut lazy, &mut late, &mut gone].into_iter().flatten() { assert_eq!(s.drain(), Step::Pending, "a subscriber ends early"); assert_eq!(s.mirror, m, "replaying the diffs"); }
    drop(v);
    for s in [&mut eager, &mut lazy, &mut late, &mut gone].into_iter().flatten() { assert!(s.poll() == Step::Pending, "a subscriber ends although a handle is left"); }
    other.lock_mut().push(0);
    m.push(0);
    let w: Vec<u64> = [&eager, &lazy, &late].iter().map(|s| s.as_ref().map(|s| s.ex.task.wakes()).unwrap_or(0)).collect();
    if let Some(s) = eager.as_mut() { assert_eq!(s.drain(), Step::Pending); }
    let e = eager.as_ref().map(|s| s.ex.task.wakes()).unwrap_or(0);
    drop(other);
    if let Some(s) = eager.as_ref() { assert!(s.ex.task.wakes() > e, "a waiting subscriber is not woken for the end"); }
    let _ = w;
    for s in [&mut eager, &mut lazy, &mut late, &mut gone].into_iter().flatten() { assert_eq!(s.drain(), Step::End, "a subscriber does not end"); assert_eq!(s.mirror, m, "replaying the diffs"); }
    outcome(&m);
}

/// One operation for every length before and every length handed to it.
fn lengths(from: usize, to: usize) {
    fresh_from(0);
    let (n, l) = (from + choose(to - from), choose(to + 40));
    let mut m: Vec<u32> = (0..n).map(|_| fresh()).collect();
    let v = MutableVec::new_with_values(m.clone());
    let mut sub = Sub::new(&v, flip());
    if flip() { assert_eq!(sub.drain(), Step::Pending); assert_eq!(sub.mirror, m); }
    let mut ops = vec![Extend(l), Replace(l, false), Replace(l, true), Truncate(l)];
    if l <= n { ops.extend([Insert(l, false), Drain(l, n, 0), Drain(0, l, 0), Drain(l, l + (n - l) / 2, 0)]); }
    if l < n { ops.extend([Remove(l), Move(0, l), Move(l, 0), Move(l, n - 1), Move(n - 1, l), Set(l, true), Swap(0, l), Swap(l, n - 1), Swap(l, l)]); }
    if l == 0 { ops.extend([Push(false), Pop, Clear, Reverse]); ops.extend((0..if n < 16 { 0 } else { 12 }).map(Retain)); }
    let op = pick(&ops);
    note(|| format!("{:?} on {} elements", op, n));
    run(&op, &v, &mut m);
    assert_eq!(&v.lock_ref()[..], &m[..], "contents");
    assert_eq!(sub.drain(), Step::Pending, "a subscriber ends early");
    assert_eq!(sub.mirror, m, "replaying the diffs");
    run(&Push(false), &v, &mut m);
    assert_eq!(sub.drain(), Step::Pending, "a subscriber ends early");
    assert_eq!(sub.mirror, m, "replaying the diffs");
    outcome(&m.len());
}

/// Calls that are out of range panic if and only if they do with a Vec, and send nothing then.
fn out_of_range(n0: usize) {
    fresh_from(0);
    let mut m: Vec<u32> = (0..n0).map(|_| fresh()).collect();
    let v = MutableVec::new_with_values(m.clone());
    let mut sub = Sub::new(&v, flip());
    assert_eq!(sub.drain(), Step::Pending);
    let (a, b) = (pick(&[0, n0, n0 + 1, n0 + 2, usize::MAX]), pick(&[0, n0, n0 + 1, usize::MAX]));
    let (from, to) = (pick(&[Bound::Included(a), Bound::Excluded(a), Bound::Unbounded]), pick(&[Bound::Included(b), Bound::Excluded(b), Bound::Unbounded]));
    let k = choose(8);
    note(|| format!("{} with {} {}", k, a, b));
    let real = catch_unwind(AssertUnwindSafe(|| { let mut l = v.lock_mut(); match k {
        0 => { l.remove(a); } 1 => l.insert(a, 100), 2 => l.insert_cloned(a, 100), 3 => l.set(a, 100), 4 => l.set_cloned(a, 100), 5 => { l.drain((from, to)); }
        6 => { return l[(from, to)].to_vec() } _ => { return vec![l[a]] }
    } vec![] }));
    let plain = catch_unwind(AssertUnwindSafe(|| { match k {
        0 => { m.remove(a); } 1 | 2 => m.insert(a, 100), 3 | 4 => m[a] = 100, 5 => { m.drain((from, to)); }
        6 => { return m[(from, to)].to_vec() } _ => { return vec![m[a]] }
    } vec![] }));
    assert_eq!(real.is_err(), plain.is_err(), "panics");
    assert_eq!(sub.drain(), Step::Pending);
    match plain {
        Ok(p) => { assert_eq!(real.unwrap(), p, "range"); assert_eq!(&v.lock_ref()[..], &m[..], "contents"); assert_eq!(sub.mirror, m, "replaying the diffs"); }
        Err(_) => {}
    }
    outcome(&(k, real_len(&sub)));
}
fn real_len(s: &Sub) -> usize { s.mirror.len() }

/// Comparisons of locked vecs are those of the contents.
fn comparisons(n: usize) {
    let mut make = || -> Vec<u32> { (0..choose(n + 1)).map(|_| choose(2) as u32).collect() };
    let (a, b) = (make(), make());
    let (v, w) = (MutableVec::new_with_values(a.clone()), MutableVec::new_with_values(b.clone()));
    note(|| format!("{:?} and {:?}", a, b));
    macro_rules! compare { ($l:expr, $r:expr) => {{
        let (l, r) = ($l, $r);
        assert!((l == r, l != r) == (a == b, a != b), "equality");
        assert!((l == &b[..], l != &b[..]) == (a == b, a != b), "equality with a slice");
        assert!((l.partial_cmp(&r), l.cmp(&r), l < r, l >= r) == (a.partial_cmp(&b), a.cmp(&b), a < b, a >= b), "order");
        assert!((hash(&l), hash(&r)) == (hash(&a[..]), hash(&b[..])), "hash");
        let s: (&[u32], &[u32], &[u32]) = (l.as_slice(), l.as_ref(), std::borrow::Borrow::borrow(&l));
        assert!(s == (&a[..], &a[..], &a[..]), "slices");
        for i in 0..a.len() { assert!(l[i] == a[i] && l[i..] == a[i..] && l[..i] == a[..i] && l.get(i) == a.get(i), "index"); }
        assert!(l.capacity() >= a.len());
    }} }
    match choose(3) { 0 => compare!(v.lock_ref(), w.lock_ref()), 1 => compare!(v.lock_mut(), w.lock_mut()), _ => { let u = v.clone(); let (l, r) = (v.lock_ref(), u.lock_ref()); assert!(l == r && l.cmp(&r).is_eq()); } }
    outcome(&(a, b));
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    mc::huge::jobs(&mut js, mc::stack::Leaf::Vec_, &[]);
    for n0 in 0..=4usize { for layout in 0..5 { for late_at in 0..3 {
        if layout == 0 && late_at > 0 { continue; }
        // a full operation set at depth 2, a smaller one one step deeper
        js.push(seq(format!("all operations, init {}, layout {}, late {}, depth 2", n0, layout, late_at), move || history(n0, 2, layout, late_at, true)));
        if n0 <= 3 && (layout == 2 || n0 <= 2 || t.thorough()) {
            js.push(seq(format!("operations, init {}, layout {}, late {}, depth 3", n0, layout, late_at), move || history(n0, 3, layout, late_at, t.thorough())));
        }
        if n0 <= 2 && layout == 3 && (t.thorough() || n0 == 1 && late_at == 0) { js.push(seq(format!("operations, init {}, layout {}, late {}, depth 4", n0, layout, late_at), move || history(n0, 4, layout, late_at, false))); }
    } } }
    for (from, to) in t.pick(vec![(0, 10), (10, 20), (20, 40), (60, 68)], vec![(0, 10), (10, 20), (20, 40), (40, 60), (60, 100), (120, 135), (250, 260)]) {
        js.push(seq(format!("every length from {} to {}", from, to), move || lengths(from, to)));
    }
    for n in 0..4 { js.push(seq(format!("out of range, {} elements", n), move || out_of_range(n))); }
    crowd::jobs::<crowd::List>(&mut js, "MutableVec", t);
    for &n in crowd::HANDLES { js.push(seq(format!("{} handles", n), move || crowd::handles(n, MutableVec::new_with_values(vec![1]), |v| v.clone(), |m, v| m.lock_mut().replace(vec![v]), |v| Box::pin(v.signal_vec().to_signal_cloned().map(|x| x[0]))))); }
    js.push(seq("comparisons", move || comparisons(t.pick(3, 4))));
    for (n, depth) in t.pick(vec![(24, 1), (70, 1), (300, 1)], vec![(24, 2), (70, 2), (300, 2), (1000, 1)]) { for layout in [0, 2, 3] { for late_at in 0..if layout == 0 { 1 } else { depth + 1 } {
        js.push(seq(format!("{} elements, layout {}, late {}, depth {}", n, layout, late_at, depth), move || history(n, depth, layout, late_at, true)));
    } } }
    js
}

fn main() {
    mc::main(Spec { property: "C08", assumptions: vec!["operations within their documented preconditions (indexes in range, drains not leaked)".into()], notes: "All operation sequences on the real MutableVec, in lock-step with a Vec and with replaying subscribers.".into() }, jobs)
}
