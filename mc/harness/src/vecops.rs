//! All operations of a MutableVec, run in lock-step on a Vec.
use crate::model::*;
use futures_signals::signal_vec::*;
use std::cell::Cell;
use std::ops::Bound;

pub fn fresh_from(n: u32) { FRESH.with(|f| f.set(n)) }

#[derive(Clone, Debug)]
pub enum Op {
    Push(bool), Insert(usize, bool), Set(usize, bool), Remove(usize), Pop, Move(usize, usize), Swap(usize, usize), Reverse,
    Retain(u32), Drain(usize, usize, u8), Truncate(usize), Clear, Replace(usize, bool), Extend(usize), Diff(u8, usize, usize), Reserve,
}
pub use Op::*;

pub fn ops(n: usize, full: bool) -> Vec<Op> {
    if n >= 16 { return large_ops(n); }
    let mut o = vec![Push(false), Push(true), Pop, Clear, Reverse];
    for i in 0..=n { o.push(Insert(i, false)); if full || i == 0 { o.push(Insert(i, true)); } }
    for i in 0..n { o.push(Set(i, i % 2 == 0)); if full { o.push(Set(i, i % 2 == 1)); } o.push(Remove(i)); }
    for i in 0..n { for j in 0..n { o.push(Move(i, j)); o.push(Swap(i, j)); } }
    for m in 0..(1u32 << n) { o.push(Retain(m)); }
    for a in 0..=n { for b in a..=n { for k in 0..if full { 6 } else { 1 } { o.push(Drain(a, b, k)); } } }
    for l in 0..=n + 1 { o.push(Truncate(l)); }
    for l in 0..3 { o.push(Replace(l, l % 2 == 0)); if full { o.push(Replace(l, l % 2 == 1)); } o.push(Extend(l)); }
    if full {
        for k in 0..8 { match k {
            1 => for i in 0..=n { o.push(Diff(k, i, 0)) },
            2 | 3 => for i in 0..n { o.push(Diff(k, i, 0)) },
            4 => for i in 0..n { for j in 0..n { o.push(Diff(k, i, j)) } },
            6 => if n > 0 { o.push(Diff(k, 0, 0)) },
            _ => o.push(Diff(k, 2, 0)),
        } }
        o.push(Reserve);
    }
    o
}

/// Operations on a large vec: at some indexes only.
fn large_ops(n: usize) -> Vec<Op> {
    let mut o = vec![Push(false), Push(true), Pop, Clear, Reverse, Reserve];
    let at = [0, 1, n / 2, n - 2, n - 1];
    for &i in &at {
        o.extend([Insert(i, false), Insert(i, true), Set(i, false), Set(i, true), Remove(i), Truncate(i), Truncate(n - i)]);
        for &j in &at { o.extend([Move(i, j), Swap(i, j)]); }
        for &j in at.iter().chain(&[n]) { if j >= i { for k in 0..6 { o.push(Drain(i, j, k)); } } }
        o.extend([Diff(1, i, 0), Diff(2, i, 0), Diff(3, i, 0)]);
        for &j in &at { o.push(Diff(4, i, j)); }
    }
    o.extend([Insert(n, false), Insert(n, true), Truncate(n + 1), Diff(0, 2, 0), Diff(1, n, 0), Diff(5, 2, 0), Diff(6, 0, 0), Diff(7, 2, 0)]);
    for l in [0, 1, n - 1, n, n + 30] { o.extend([Replace(l, false), Replace(l, true), Extend(l)]); }
    for k in 0..12 { o.push(Retain(k)); }
    o
}
/// Which elements `retain` keeps: bits of the mask, or a pattern for a large vec.
fn keep(mask: u32, i: usize, n: usize) -> bool {
    if n < 16 { return mask & (1 << i) != 0; }
    match mask { 0 => false, 1 => true, 2 => i != 0, 3 => i != n - 1, 4 => i == 0, 5 => i == n - 1, 6 => i < n / 2, 7 => i >= n / 2, 8 => i % 2 == 0, 9 => i % 2 == 1, 10 => i % 7 < 3, _ => i != n / 2 }
}

thread_local! { static FRESH: Cell<u32> = const { Cell::new(0) }; }
pub fn fresh() -> u32 { FRESH.with(|f| { f.set(f.get() + 1); f.get() }) }

/// Runs one operation on both; true if the contents or the elements were written.
pub fn run(op: &Op, v: &MutableVec<u32>, m: &mut Vec<u32>) -> bool {
    let before = m.clone();
    let mut l = v.lock_mut();
    match *op {
        Push(c) => { let x = fresh(); if c { l.push_cloned(x) } else { l.push(x) } m.push(x); }
        Insert(i, c) => { let x = fresh(); if c { l.insert_cloned(i, x) } else { l.insert(i, x) } m.insert(i, x); }
        Set(i, c) => { let x = fresh(); if c { l.set_cloned(i, x) } else { l.set(i, x) } m[i] = x; }
        Remove(i) => { let (a, b) = (l.remove(i), m.remove(i)); assert_eq!(a, b, "remove({})", i); }
        Pop => { let (a, b) = (l.pop(), m.pop()); assert_eq!(a, b, "pop"); }
        Move(i, j) => { l.move_from_to(i, j); let x = m.remove(i); m.insert(j, x); }
        Swap(i, j) => { l.swap(i, j); m.swap(i, j); }
        Reverse => { l.reverse(); m.reverse(); }
        Retain(mask) => {
            let mut seen = vec![];
            let mut k = 0;
            let n = m.len();
            l.retain(|x| { seen.push(*x); k += 1; keep(mask, k - 1, n) });
            assert_eq!(&seen, m, "retain visits");
            let mut k = 0;
            m.retain(|_| { k += 1; keep(mask, k - 1, n) });
        }
        Drain(a, b, k) => {
            let n = m.len();
            let (x, y): (Vec<u32>, Vec<u32>) = match k {
                1 if b == n => (l.drain(a..).collect(), m.drain(a..).collect()),
                1 if a == 0 => (l.drain(..b).collect(), m.drain(..b).collect()),
                2 if b > a => (l.drain(a..=b - 1).collect(), m.drain(a..=b - 1).collect()),
                3 => { let mut d = l.drain(a..b); let x: Vec<u32> = d.next_back().into_iter().collect(); drop(d); let mut e = m.drain(a..b); let y = e.next_back().into_iter().collect(); drop(e); (x, y) }
                4 if a > 0 && b > a => { let r = (Bound::Excluded(a - 1), Bound::Included(b - 1)); (l.drain(r).collect(), m.drain(r).collect()) }
                5 if a == 0 && b == n => (l.drain(..).collect(), m.drain(..).collect()),
                5 if a == 0 && b > 0 => (l.drain(..=b - 1).collect(), m.drain(..=b - 1).collect()),
                5 if a > 0 => { let r = (Bound::Excluded(a - 1), Bound::Excluded(b)); (l.drain(r).collect(), m.drain(r).collect()) }
                _ => (l.drain(a..b).collect(), m.drain(a..b).collect()),
            };
            assert_eq!(x, y, "drain");
        }
        Truncate(n) => { l.truncate(n); m.truncate(n); }
        Clear => { l.clear(); m.clear(); }
        Replace(n, c) => { let xs: Vec<u32> = (0..n).map(|_| fresh()).collect(); if c { l.replace_cloned(xs.clone()) } else { l.replace(xs.clone()) } *m = xs; drop(l); return true; }
        Extend(n) => { let xs: Vec<u32> = (0..n).map(|_| fresh()).collect(); l.extend(xs.clone()); m.extend(xs); }
        Reserve => { l.reserve(5); assert!(l.capacity() >= m.len() + 5); l.shrink_to_fit(); l.reserve_exact(1); }
        Diff(k, i, j) => {
            let mk = |x: u32| match k {
                0 => VecDiff::Replace { values: vec![x, x + 1000] }, 1 => VecDiff::InsertAt { index: i, value: x }, 2 => VecDiff::UpdateAt { index: i, value: x },
                3 => VecDiff::RemoveAt { index: i }, 4 => VecDiff::Move { old_index: i, new_index: j }, 5 => VecDiff::Push { value: x }, 6 => VecDiff::Pop {}, _ => VecDiff::Clear {},
            };
            let x = fresh();
            MutableVecLockMut::apply_vec_diff(&mut l, mk(x));
            apply(m, mk(x));
            if k == 0 { return true; }
        }
    }
    assert_eq!(&l[..], &m[..], "contents under the lock");
    *m != before
}

