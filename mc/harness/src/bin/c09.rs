//! C09: every sequence of MutableBTreeMap operations against BTreeMap.
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::mapops::*;
use mc::src::*;
use mc::*;
use futures_signals::signal::SignalExt;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::pin::Pin;

type DynM = Pin<Box<dyn SignalMap<Key = u32, Value = u32>>>;
type DynV<T> = Pin<Box<dyn SignalVec<Item = T>>>;

enum Sub { Map(Exec<Sm<DynM>>, M, usize), Keys(Exec<Sv<DynV<u32>>>, Vec<u32>, usize), Entries(Exec<Sv<DynV<(u32, u32)>>>, Vec<(u32, u32)>, usize) }
impl Sub {
    fn new(c: &C, kind: usize) -> Self {
        match kind {
            0 => Sub::Map(Exec::new(Sm(Box::pin(c.signal_map()) as DynM)), M::new(), 0),
            1 => Sub::Map(Exec::new(Sm(Box::pin(c.signal_map_cloned()) as DynM)), M::new(), 0),
            2 => Sub::Keys(Exec::new(Sv(Box::pin(c.signal_vec_keys()) as DynV<u32>)), vec![], 0),
            3 => Sub::Entries(Exec::new(Sv(Box::pin(c.entries_cloned()) as DynV<(u32, u32)>)), vec![], 0),
            _ => Sub::Entries(Exec::new(Sv(Box::pin(c.signal_vec_entries()) as DynV<(u32, u32)>)), vec![], 0),
        }
    }
    fn poll(&mut self) -> Step {
        match self {
            Sub::Map(e, m, n) => e.force(&mut |d| { note(|| format!("   map gets {:?}", d)); *n += 1; apply_map(m, d) }),
            Sub::Keys(e, m, n) => e.force(&mut |d| { note(|| format!("   keys get {:?}", d)); *n += 1; apply(m, d) }),
            Sub::Entries(e, m, n) => e.force(&mut |d| { note(|| format!("   entries get {:?}", d)); *n += 1; apply(m, d) }),
        }
    }
    fn drain(&mut self) -> Step { loop { match self.poll() { Step::Item => {} s => return s } } }
    fn wakes(&self) -> u64 { match self { Sub::Map(e, ..) => e.task.wakes(), Sub::Keys(e, ..) => e.task.wakes(), Sub::Entries(e, ..) => e.task.wakes() } }
    fn items(&self) -> usize { match self { Sub::Map(.., n) => *n, Sub::Keys(.., n) => *n, Sub::Entries(.., n) => *n } }
    fn check(&self, m: &M) {
        match self {
            Sub::Map(_, x, _) => assert_eq!(x, m, "replaying the diffs"),
            Sub::Keys(_, x, _) => assert_eq!(*x, m.keys().copied().collect::<Vec<_>>(), "replaying the keys"),
            Sub::Entries(_, x, _) => assert_eq!(*x, m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "replaying the entries"),
        }
    }
    fn keys_only(&self) -> bool { matches!(self, Sub::Keys(..)) }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn history(init: u32, keys: u32, depth: usize, layout: usize, late_at: usize) {
    fresh_from(100);
    let mut m: M = (0..keys).filter(|k| if keys > 8 { k % 2 == 1 } else { init & (1 << k) != 0 }).map(|k| (k, fresh())).collect();
    let c = C::with_values(m.clone());
    let other = c.clone();
    let mut eager: Vec<Sub> = vec![];
    let mut lazy: Vec<Sub> = vec![];
    let mut gone = None;
    match layout {
        0 => {}
        1 => { eager.push(Sub::new(&c, 0)); }
        2 => { eager.push(Sub::new(&c, 2)); eager.push(Sub::new(&c, 3)); gone = Some(Sub::new(&c, 1)); lazy.push(Sub::new(&c, 1)); }
        3 => { gone = Some(Sub::new(&c, 0)); eager.push(Sub::new(&c, 1)); eager.push(Sub::new(&c, 4)); lazy.push(Sub::new(&c, 2)); }
        _ => { lazy.push(Sub::new(&c, 0)); lazy.push(Sub::new(&c, 3)); eager.push(Sub::new(&c, 2)); lazy.push(Sub::new(&c, 4)); }
    }
    for s in eager.iter_mut() { assert_eq!(s.drain(), Step::Pending); s.check(&m); }
    let os = ops(keys);
    for k in 0..depth {
        if k == late_at && layout > 0 { note(|| "subscribe".into()); lazy.push(Sub::new(&c, (layout + k) % 5)); lazy.push(Sub::new(&c, (layout + 3 * k + 2) % 5)); }
        let x = choose(os.len() + 1);
        if x == 0 { break; }
        let op = os[x - 1];
        note(|| format!("{:?}", op));
        let w: Vec<(u64, usize)> = eager.iter().map(|s| (s.wakes(), s.items())).collect();
        let r = run(op, if k % 2 == 0 { &c } else { &other }, &mut m);
        note(|| format!("   contents {:?}", m));
        if k == 0 { gone = None; }
        {
            let l = c.lock_ref();
            assert!(*l == m && hash(&*l) == hash(&m) && l.len() == m.len() && format!("{:?}", c) == format!("MutableBTreeMap({:?})", m), "contents");
            for (k, v) in &m { assert!(l[k] == *v && l.get(k) == Some(v)); }
        }
        for (s, (w, n)) in eager.iter_mut().zip(w) {
            // an insert over the same value may or may not be reported
            if r > 0 && !matches!(op, Same(_)) && !(s.keys_only() && r == 1) && !(m.is_empty() && s.items() == 0) { assert!(s.wakes() > w || matches!(op, Replace(0, _)), "a waiting subscriber is not woken"); }
            assert_eq!(s.drain(), Step::Pending, "a subscriber ends early");
            s.check(&m);
            if r == 0 { assert_eq!(s.items(), n, "an operation that changes nothing sends a diff"); }
            if r == 1 && s.keys_only() { assert_eq!(s.items(), n, "an update changes the keys"); }
        }
        state(&m);
    }
    for s in lazy.iter_mut().chain(gone.iter_mut()) { assert_eq!(s.drain(), Step::Pending, "a subscriber ends early"); s.check(&m); }
    drop(c);
    for s in eager.iter_mut().chain(lazy.iter_mut()) { assert!(s.poll() == Step::Pending, "a subscriber ends although a handle is left"); }
    other.lock_mut().insert(9999, 0);
    m.insert(9999, 0);
    for s in eager.iter_mut() { assert_eq!(s.drain(), Step::Pending); }
    let w: Vec<u64> = eager.iter().map(|s| s.wakes()).collect();
    drop(other);
    for (s, w) in eager.iter_mut().zip(w) { assert!(s.wakes() > w, "a waiting subscriber is not woken for the end"); }
    for s in eager.iter_mut().chain(lazy.iter_mut()).chain(gone.iter_mut()) { assert_eq!(s.drain(), Step::End, "a subscriber does not end"); s.check(&m); }
    outcome(&m);
}

/// Comparisons of locked maps are those of the contents.
fn comparisons(keys: u32) {
    let make = || -> M { (0..keys).filter_map(|k| match choose(3) { 0 => None, x => Some((k, x as u32)) }).collect() };
    let (a, b) = (make(), make());
    let (v, w) = (C::with_values(a.clone()), C::from(b.clone()));
    note(|| format!("{:?} and {:?}", a, b));
    macro_rules! compare { ($l:expr, $r:expr) => {{
        let (l, r) = ($l, $r);
        assert!((l == r, l != r) == (a == b, a != b), "equality");
        assert!((l == b, l != b) == (a == b, a != b), "equality with a map");
        assert!((l.partial_cmp(&r), l.cmp(&r), l < r, l >= r) == (a.partial_cmp(&b), a.cmp(&b), a < b, a >= b), "order");
        assert!((l.partial_cmp(&b), l < b, l >= b) == (a.partial_cmp(&b), a < b, a >= b), "order with a map");
        assert!((hash(&l), hash(&r)) == (hash(&a), hash(&b)), "hash");
        assert!(l.iter().eq(a.iter()) && l.keys().rev().eq(a.keys().rev()) && l.range(1..).eq(a.range(1..)), "iteration");
        for (k, x) in &a { assert!(l[k] == *x, "index"); }
    }} }
    if flip() { compare!(v.lock_ref(), w.lock_ref()) } else { compare!(v.lock_mut(), w.lock_mut()) }
    outcome(&(a, b));
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    mc::huge::jobs(&mut js, mc::stack::Leaf::Keys, &[]);
    mc::huge::jobs(&mut js, mc::stack::Leaf::Entries, &[]);
    mc::huge::jobs(&mut js, mc::stack::Leaf::Map_, &[]);
    crowd::jobs::<crowd::Dict>(&mut js, "MutableBTreeMap", t);
    for &n in crowd::HANDLES { js.push(seq(format!("{} handles", n), move || crowd::handles(n, C::with_values([(0, 1)].into()), |v| v.clone(), |m, v| { m.lock_mut().insert(0, v); }, |m| Box::pin(m.entries_cloned().to_signal_cloned().map(|x| x[0].1))))); }
    js.push(seq("comparisons", || comparisons(3)));
    for layout in 0..5 { for late_at in 0..3 {
        if layout == 0 && late_at > 0 { continue; }
        for init in 0..8u32 {
            js.push(seq(format!("3 keys, init {:03b}, layout {}, late {}, depth {}", init, layout, late_at, t.pick(3, 4)), move || history(init, 3, t.pick(3, 4), layout, late_at)));
        }
        for init in [0b0000u32, 0b1001, 0b0110, 0b1111] {
            js.push(seq(format!("4 keys, init {:04b}, layout {}, late {}, depth {}", init, layout, late_at, t.pick(2, 3)), move || history(init, 4, t.pick(2, 3), layout, late_at)));
        }
        for init in 0..4u32 {
            js.push(seq(format!("2 keys, init {:02b}, layout {}, late {}, depth {}", init, layout, late_at, t.pick(4, 5)), move || history(init, 2, t.pick(4, 5), layout, late_at)));
        }
        for (keys, depth) in t.pick(vec![(50, 1), (150, 1)], vec![(50, 2), (150, 2), (600, 1)]) {
            js.push(seq(format!("{} keys, layout {}, late {}, depth {}", keys, layout, late_at, depth), move || history(0, keys, depth, layout, late_at)));
        }
    } }
    js
}

fn main() {
    mc::main(Spec { property: "C09", assumptions: vec![], notes: "All operation sequences on the real MutableBTreeMap, in lock-step with a BTreeMap and with replaying subscribers.".into() }, jobs)
}
