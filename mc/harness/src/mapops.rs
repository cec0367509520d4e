//! All operations of a MutableBTreeMap, run in lock-step on a BTreeMap.
use futures_signals::signal_map::*;
use std::cell::Cell;
use std::collections::BTreeMap;

pub type M = BTreeMap<u32, u32>;
pub type C = MutableBTreeMap<u32, u32>;

pub fn fresh_from(n: u32) { FRESH.with(|f| f.set(n)) }

#[derive(Clone, Copy, Debug)]
pub enum Op { Put(u32, bool), Same(u32), Del(u32), Clear, Replace(u32, bool) }
pub use Op::*;

thread_local! { static FRESH: Cell<u32> = const { Cell::new(0) }; }
pub fn fresh() -> u32 { FRESH.with(|f| { f.set(f.get() + 1); f.get() }) }

/// With more than 8 keys: odd keys are present at first, and only some of the keys are used.
pub fn ops(keys: u32) -> Vec<Op> {
    let mut o = vec![Clear];
    let at: Vec<u32> = if keys > 8 { vec![0, 1, 2, keys / 2, keys / 2 + 1, keys - 2, keys - 1] } else { (0..keys).collect() };
    for k in at { o.push(Put(k, false)); o.push(Put(k, true)); o.push(Del(k)); o.push(Same(k)); }
    for s in 0..(1u32 << if keys > 8 { 2 } else { keys }) { o.push(Replace(s, s % 2 == 0)); }
    o.push(Replace(1, true));
    o
}

/// 0: nothing was written, 1: written (keys as before), 2: keys written
pub fn run(op: Op, c: &C, m: &mut M) -> u8 {
    let mut l = c.lock_mut();
    let r = match op {
        Put(k, cl) => { let v = fresh(); let a = if cl { l.insert_cloned(k, v) } else { l.insert(k, v) }; let b = m.insert(k, v); assert_eq!(a, b, "insert({})", k); if b.is_some() { 1 } else { 2 } }
        Same(k) => { let v = m.get(&k).copied().unwrap_or(77); let a = l.insert(k, v); let b = m.insert(k, v); assert_eq!(a, b, "insert({})", k); if b.is_some() { 1 } else { 2 } }
        Del(k) => { let (a, b) = (l.remove(&k), m.remove(&k)); assert_eq!(a, b, "remove({})", k); if b.is_some() { 2 } else { 0 } }
        Clear => { l.clear(); let e = m.is_empty(); m.clear(); if e { 0 } else { 2 } }
        Replace(s, cl) => { let x: M = (0..8).filter(|k| s & (1 << k) != 0).map(|k| (k, fresh())).collect(); if cl { l.replace_cloned(x.clone()) } else { l.replace(x.clone()) } *m = x; 2 }
    };
    assert!(*l == *m, "contents under the lock: {:?} instead of {:?}", *l, m);
    r
}

