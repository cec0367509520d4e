//! Every history of operations on two Mutables with two subscribers each,
//! against plain variables (used by C01 and C02).
use crate::conc::Sg;
use crate::src::*;
use crate::{choose, note, outcome, state};
use futures_signals::signal::*;
use std::pin::Pin;

type Sig = Pin<Box<dyn Signal<Item = u32>>>;

struct Sub { ex: Exec<Sg<Sig>>, which: usize, due: bool, maybe: bool, armed: bool, wakes: u64, kind: &'static str }

pub struct Cfg { pub depth: usize, pub kinds: [usize; 2], pub handles: bool, pub ops: bool }

fn subscribe(m: &ReadOnlyMutable<u32>, kind: usize) -> (Sig, &'static str) {
    match kind {
        0 => (Box::pin(m.signal()), "signal"),
        1 => (Box::pin(m.signal_cloned()), "signal_cloned"),
        _ => (Box::pin(m.signal_ref(|v| *v)), "signal_ref"),
    }
}

pub fn run(cfg: &Cfg) {
    let init = [1u32, 2];
    let mut val = init;
    // the crate may order locks by address: make the order the same in every execution
    let (a, b) = (Mutable::new(1u32), Mutable::from(2u32));
    let addr = |m: &Mutable<u32>| { let l = m.lock_ref(); &*l as *const u32 as usize };
    let (a, b) = if addr(&a) < addr(&b) { (a, b) } else { a.set(2); b.set(1); (b, a) };
    let mut handles: Vec<Vec<Mutable<u32>>> = vec![vec![a], vec![b]];
    let ros: Vec<ReadOnlyMutable<u32>> = handles.iter().map(|h| h[0].read_only()).collect();
    let mut subs: Vec<Sub> = vec![];
    let add = |subs: &mut Vec<Sub>, which: usize, kind: usize| {
        let (s, kind) = subscribe(&ros[which], kind);
        subs.push(Sub { ex: Exec::new(Sg(s)), which, due: true, maybe: false, armed: false, wakes: 0, kind });
    };
    add(&mut subs, 0, cfg.kinds[0]);
    add(&mut subs, 0, cfg.kinds[1]);
    if cfg.ops { add(&mut subs, 1, cfg.kinds[0]); }
    let mut seen: Vec<Vec<u32>> = vec![vec![]; 4];
    for step in 0..cfg.depth {
        // 0..subs: poll; then operations
        let np = subs.len();
        let nops = if cfg.ops { 22 } else { 0 };
        let nh = if cfg.handles { 6 } else { 0 };
        let c = choose(np + nops + nh + 1);
        let v = 100_000 * (step as u32 + 1);
        // stores[i]: Some(true) the value was stored / mutable access taken, None unspecified
        let mut stores = [Some(false), Some(false)];
        let mut gone = [false, false];
        if c == 0 { break; }
        let c = c - 1;
        if c < np {
            poll(&mut subs[c], &val, &handles, &mut seen[c], c);
            continue;
        }
        let c = c - np;
        if c < nops {
            let k = if c < 14 { c } else { c };
            // operations on mutable 0, a few on 1, and on both
            let i = if k >= 14 && k < 19 { 1 } else { 0 };
            if handles[i].is_empty() { return; }
            let m = handles[i][handles[i].len() - 1].clone();
            let old = val[i];
            let what: String;
            match k {
                0 | 14 => { what = format!("set({})", v); m.set(v); val[i] = v; stores[i] = Some(true); }
                1 | 15 => { what = format!("replace({})", v); let r = m.replace(v); assert_eq!(r, old, "replace returns the old value"); val[i] = v; stores[i] = Some(true); }
                2 => { what = "replace_with(+100)".into(); let r = m.replace_with(|x| { assert_eq!(*x, old); *x + 100 }); assert_eq!(r, old, "replace_with returns the old value"); val[i] = old + 100; stores[i] = Some(true); }
                3 => { what = "replace_with(mutating its argument)".into(); let r = m.replace_with(|x| { *x += 1000; 7 }); assert_eq!(r, old + 1000, "replace_with returns what the callback left"); val[i] = 7; stores[i] = Some(true); }
                4 => { what = "set_if(accepted)".into(); m.set_if(v, |a, b| { assert_eq!((*a, *b), (old, v), "arguments of the set_if callback"); true }); val[i] = v; stores[i] = Some(true); }
                5 | 16 => { what = "set_if(rejected)".into(); m.set_if(v, |a, b| { assert_eq!((*a, *b), (old, v), "arguments of the set_if callback"); false }); }
                6 | 17 => { what = "set_neq(same)".into(); m.set_neq(old); }
                7 => { what = "set_neq(other)".into(); m.set_neq(v); val[i] = v; stores[i] = Some(true); }
                8 => { what = "lock_mut, no access".into(); drop(m.lock_mut()); }
                9 => { what = "lock_mut, read".into(); let l = m.lock_mut(); assert_eq!(*l, old); }
                10 | 18 => { what = "lock_mut, write".into(); let mut l = m.lock_mut(); *l += 1; *l += 1; drop(l); val[i] = old + 2; stores[i] = Some(true); }
                11 => { what = "lock_mut, mutable access".into(); let mut l = m.lock_mut(); let _: &mut u32 = &mut *l; drop(l); stores[i] = Some(true); }
                12 => { what = "lock_ref".into(); let l = m.lock_ref(); assert_eq!(*l, old); }
                13 => { what = "swap with its clone".into(); m.swap(&handles[i][0].clone()); stores[i] = None; }
                19 => { what = "set(same)".into(); m.set(old); stores[i] = Some(true); }
                20 | 21 => {
                    if handles[1].is_empty() { return; }
                    what = format!("{}.swap({})", k - 20, 21 - k);
                    let o = handles[1][0].clone();
                    if k == 20 { m.swap(&o) } else { o.swap(&m) }
                    val.swap(0, 1);
                    stores = [Some(true), Some(true)];
                }
                _ => unreachable!(),
            }
            note(|| format!("mutable {}: {} -> {:?}", i, what, val));
        } else {
            match c - nops {
                0 => { if handles[0].is_empty() || handles[0].len() > 2 { return; } note(|| "clone handle".into()); let h = handles[0][0].clone(); handles[0].push(h); }
                1 => { note(|| "drop handle".into()); if handles[0].pop().is_none() { return; } gone[0] = handles[0].is_empty(); }
                2 => { if subs.len() > 2 + cfg.ops as usize { return; } note(|| "late subscriber (signal)".into()); add(&mut subs, 0, 0); }
                3 => { if subs.len() > 2 + cfg.ops as usize { return; } note(|| "late subscriber (signal_ref)".into()); add(&mut subs, 0, 2); }
                4 => { if subs.is_empty() { return; } note(|| "drop subscriber 0".into()); subs.remove(0); continue; }
                _ => { if handles[0].is_empty() { return; } note(|| "take and drop a ReadOnlyMutable".into()); let r = handles[0][0].read_only(); assert_eq!(r.get(), val[0]); drop(r); }
            }
        }
        // what must and must not have happened to the subscribers
        for (i, s) in subs.iter_mut().enumerate() {
            let woken = s.ex.task.wakes() > s.wakes;
            s.wakes = s.ex.task.wakes();
            match stores[s.which] {
                Some(true) => { s.due = true; s.maybe = false; if s.armed { assert!(woken, "subscriber {} ({}) waits and is not woken by a store", i, s.kind); s.armed = false; } }
                Some(false) => {
                    if gone[s.which] { if s.armed { assert!(woken, "subscriber {} ({}) waits and is not woken when the last handle is dropped", i, s.kind); s.armed = false; } }
                    else { assert!(!woken, "subscriber {} ({}) is woken although nothing was stored", i, s.kind); }
                }
                None => { s.maybe = true; if woken { s.armed = false; } }
            }
        }
        for i in 0..2 {
            assert_eq!(ros[i].get(), val[i], "read-only handle reads the current value");
            assert_eq!(ros[i].get_cloned(), val[i]);
            for h in &handles[i] { assert_eq!(h.get(), val[i], "every handle reads the current value"); }
        }
        state(&(val, handles[0].len(), subs.iter().map(|s| (s.which, s.due, s.armed, s.ex.ended)).collect::<Vec<_>>()));
    }
    for (i, s) in subs.iter_mut().enumerate() {
        let mut k = 0;
        while !s.ex.ended && !s.armed && k < 4 { poll(s, &val, &handles, &mut seen[i], i); k += 1; }
    }
    outcome(&seen);
}

fn poll(s: &mut Sub, val: &[u32; 2], handles: &[Vec<Mutable<u32>>], seen: &mut Vec<u32>, i: usize) {
    if s.ex.ended { return; }
    let mut got = None;
    note(|| format!("poll subscriber {} ({})", i, s.kind));
    let r = s.ex.force(&mut |v| got = Some(v));
    s.wakes = s.ex.task.wakes();
    s.armed = false;
    match r {
        Step::Item => {
            assert!(s.due || s.maybe, "subscriber {} ({}) yields {:?} although nothing was stored", i, s.kind, got);
            assert_eq!(got, Some(val[s.which]), "subscriber {} ({}) yields the current value", i, s.kind);
            seen.push(got.unwrap());
        }
        Step::End => {
            assert!(!s.due, "subscriber {} ({}) ends without having yielded the value {}", i, s.kind, val[s.which]);
            assert!(handles[s.which].is_empty(), "subscriber {} ({}) ends although handles are alive", i, s.kind);
            seen.push(u32::MAX);
        }
        Step::Pending => {
            assert!(!s.due, "subscriber {} ({}) is Pending although {} was stored", i, s.kind, val[s.which]);
            assert!(!handles[s.which].is_empty(), "subscriber {} ({}) is Pending although all handles are gone", i, s.kind);
            s.armed = true;
        }
        Step::Idle => {}
    }
    s.due = false;
    s.maybe = false;
}
