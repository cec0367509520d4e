//! C26: diffs, cloned, compared, serialized and applied elsewhere, replicate a container.
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use mc::conc::*;
use mc::model::*;
use mc::src::*;
use mc::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::pin::Pin;
use std::task::{Context, Poll};

type DynV = Pin<Box<dyn SignalVec<Item = u32>>>;
type DynM = Pin<Box<dyn SignalMap<Key = u32, Value = u32>>>;

/// What arrives elsewhere: the diff, cloned, serialized and deserialized.
fn send<D: Serialize + DeserializeOwned + Clone + PartialEq + Debug>(d: &D, seen: &[String], before: &[D]) -> D {
    let text = format!("{:?}", d);
    let e = d.clone();
    assert!(e == *d && !(e != *d), "a clone of {} differs from it", text);
    assert_eq!(format!("{:?}", e), text, "a clone of the diff");
    for (t, b) in seen.iter().zip(before) { assert_eq!(*b == *d, *t == text, "comparison of {} and {}", t, text); assert_eq!(*d == *b, *t == text, "comparison of {} and {}", text, t); }
    let js = serde_json::to_string(d).unwrap_or_else(|e| panic!("{} does not serialize: {}", text, e));
    let r: D = serde_json::from_str(&js).unwrap_or_else(|e| panic!("{} does not deserialize from {}: {}", text, js, e));
    assert_eq!(format!("{:?}", r), text, "{} deserialized", js);
    r
}

/// Copies of a container that is watched: a plain one, and a mutable one that can be watched in turn.
struct VecCopy { ex: Exec<Sv<DynV>>, plain: Vec<u32>, to: MutableVec<u32>, seen: Vec<String>, before: Vec<VecDiff<u32>> }
impl VecCopy {
    fn new(of: &MutableVec<u32>) -> Self { VecCopy { ex: Exec::new(Sv(Box::pin(of.signal_vec()) as DynV)), plain: vec![], to: MutableVec::new(), seen: vec![], before: vec![] } }
    fn pull(&mut self, batch: bool) -> Step {
        let mut got = vec![];
        let r = loop { match self.ex.force(&mut |d| got.push(d)) { Step::Item => {} s => break s } };
        let mut lock = if batch { Some(self.to.lock_mut()) } else { None };
        for d in got {
            note(|| format!("   copies {:?}", d));
            let s = send(&d, &self.seen, &self.before);
            self.seen.push(format!("{:?}", d)); self.before.push(d.clone());
            s.apply_to_vec(&mut self.plain);
            match lock.as_mut() {
                Some(l) => MutableVecLockMut::apply_vec_diff(l, d),
                None => MutableVecLockMut::apply_vec_diff(&mut self.to.lock_mut(), d),
            }
        }
        r
    }
    fn check(&self, m: &[u32], who: &str) {
        assert_eq!(self.plain, m, "{}: the plain copy", who);
        assert_eq!(&self.to.lock_ref()[..], m, "{}: the copy", who);
    }
}
fn vec_history(n0: usize, depth: usize, late: bool, full: bool) {
    use mc::vecops::*;
    fresh_from(0);
    let mut m: Vec<u32> = (0..n0).map(|_| fresh()).collect();
    let v = MutableVec::new_with_values(m.clone());
    let mut one = VecCopy::new(&v);
    let mut two = if late { None } else { Some(VecCopy::new(&one.to)) };
    for k in 0..depth {
        let os = ops(m.len(), full);
        let c = choose(os.len() + 1);
        if c == 0 { break; }
        note(|| format!("{:?}", os[c - 1]));
        run(&os[c - 1], &v, &mut m);
        let how = choose(4);
        if how == 0 { continue; }
        assert_eq!(one.pull(how == 2), Step::Pending, "the source ends early");
        one.check(&m, "first copy");
        if late && k == 0 { two = Some(VecCopy::new(&one.to)); }
        if how != 3 { if let Some(t) = two.as_mut() { assert_eq!(t.pull(how == 2), Step::Pending, "the copy ends early"); t.check(&m, "second copy"); } }
        state(&m);
    }
    let mut two = two.unwrap_or_else(|| VecCopy::new(&one.to));
    drop(v);
    assert_eq!(one.pull(true), Step::End, "the source does not end");
    one.check(&m, "first copy");
    let VecCopy { to, .. } = one;
    drop(to);
    assert_eq!(two.pull(false), Step::End, "the first copy does not end");
    two.check(&m, "second copy");
    outcome(&m);
}

struct MapCopy { ex: Exec<Sm<DynM>>, plain: BTreeMap<u32, u32>, to: MutableBTreeMap<u32, u32>, seen: Vec<String>, before: Vec<MapDiff<u32, u32>> }
fn apply_mut(to: &mut MutableBTreeMapLockMut<u32, u32>, d: MapDiff<u32, u32>) {
    match d {
        MapDiff::Replace { entries } => to.replace(entries.into_iter().collect()),
        MapDiff::Insert { key, value } => { let o = to.insert(key, value); assert_eq!(o, None, "Insert of a present key"); }
        MapDiff::Update { key, value } => { let o = to.insert(key, value); assert!(o.is_some(), "Update of a missing key"); }
        MapDiff::Remove { key } => { assert!(to.remove(&key).is_some(), "Remove of a missing key"); }
        MapDiff::Clear {} => to.clear(),
    }
}
impl MapCopy {
    fn new(of: &MutableBTreeMap<u32, u32>) -> Self { MapCopy { ex: Exec::new(Sm(Box::pin(of.signal_map()) as DynM)), plain: BTreeMap::new(), to: MutableBTreeMap::new(), seen: vec![], before: vec![] } }
    fn pull(&mut self, batch: bool) -> Step {
        let mut got = vec![];
        let r = loop { match self.ex.force(&mut |d| got.push(d)) { Step::Item => {} s => break s } };
        let mut lock = if batch { Some(self.to.lock_mut()) } else { None };
        for d in got {
            note(|| format!("   copies {:?}", d));
            let s = send(&d, &self.seen, &self.before);
            self.seen.push(format!("{:?}", d)); self.before.push(d.clone());
            apply_map(&mut self.plain, s);
            match lock.as_mut() { Some(l) => apply_mut(l, d), None => apply_mut(&mut self.to.lock_mut(), d) }
        }
        r
    }
    fn check(&self, m: &BTreeMap<u32, u32>, who: &str) {
        assert_eq!(self.plain, *m, "{}: the plain copy", who);
        assert_eq!(*self.to.lock_ref(), *m, "{}: the copy", who);
    }
}
fn map_history(init: u32, keys: u32, depth: usize, late: bool) {
    use mc::mapops::*;
    fresh_from(100);
    let mut m: M = (0..keys).filter(|k| init & (1 << k) != 0).map(|k| (k, fresh())).collect();
    let c = C::with_values(m.clone());
    let mut one = MapCopy::new(&c);
    let mut two = if late { None } else { Some(MapCopy::new(&one.to)) };
    let mut names = Exec::new(Sv(one.to.signal_vec_keys()));
    let mut listed: Vec<u32> = vec![];
    let os = ops(keys);
    for _ in 0..depth {
        let k = choose(os.len() + 1);
        if k == 0 { break; }
        note(|| format!("{:?}", os[k - 1]));
        run(os[k - 1], &c, &mut m);
        let how = choose(4);
        if how == 0 { continue; }
        assert_eq!(one.pull(how == 2), Step::Pending, "the source ends early");
        one.check(&m, "first copy");
        let t = two.get_or_insert_with(|| MapCopy::new(&one.to));
        if how != 3 { assert_eq!(t.pull(how == 2), Step::Pending, "the copy ends early"); t.check(&m, "second copy"); }
        state(&m);
    }
    let mut two = two.unwrap_or_else(|| MapCopy::new(&one.to));
    drop(c);
    assert_eq!(one.pull(true), Step::End, "the source does not end");
    one.check(&m, "first copy");
    let MapCopy { to, .. } = one;
    drop(to);
    assert_eq!(two.pull(false), Step::End, "the first copy does not end");
    two.check(&m, "second copy");
    while names.force(&mut |d| apply(&mut listed, d)) == Step::Item {}
    assert!(names.ended && listed == m.keys().copied().collect::<Vec<_>>(), "the keys of the copy are {:?}", listed);
    outcome(&m);
}

// ------------------------------------------------------------ diffs on their own

trait Elem: Serialize + DeserializeOwned + Clone + PartialEq + Debug + 'static { fn all() -> Vec<Self>; }
impl Elem for u8 { fn all() -> Vec<u8> { vec![0, 1, 255] } }
impl Elem for i64 { fn all() -> Vec<i64> { vec![0, i64::MIN, i64::MAX] } }
impl Elem for String { fn all() -> Vec<String> { vec!["".into(), "a\"b".into(), "Push".into()] } }
impl Elem for Option<u8> { fn all() -> Vec<Self> { vec![None, Some(0), Some(1)] } }
impl Elem for Vec<u8> { fn all() -> Vec<Self> { vec![vec![], vec![0], vec![0, 1]] } }
impl Elem for () { fn all() -> Vec<()> { vec![()] } }
impl Elem for (u8, bool) { fn all() -> Vec<Self> { vec![(0, false), (0, true), (1, false)] } }
impl Elem for BTreeMap<String, u8> { fn all() -> Vec<Self> { vec![BTreeMap::new(), [("value".to_string(), 1)].into(), [("a".to_string(), 0), ("b".to_string(), 1)].into()] } }
impl Elem for VecDiff<u8> { fn all() -> Vec<Self> { vec![VecDiff::Pop {}, VecDiff::Clear {}, VecDiff::Replace { values: vec![] }] } }

fn some<T: Elem>() -> T { pick(&T::all()) }
fn index() -> usize { pick(&[0, 1, 2, usize::MAX]) }
fn vec_diff<T: Elem>(len: usize) -> VecDiff<T> {
    match choose(8) {
        0 => VecDiff::Replace { values: (0..choose(len + 1)).map(|_| some()).collect() },
        1 => VecDiff::InsertAt { index: index(), value: some() }, 2 => VecDiff::UpdateAt { index: index(), value: some() }, 3 => VecDiff::RemoveAt { index: index() },
        4 => VecDiff::Move { old_index: index(), new_index: index() }, 5 => VecDiff::Push { value: some() }, 6 => VecDiff::Pop {}, _ => VecDiff::Clear {},
    }
}
fn map_diff<K: Elem, V: Elem>(len: usize) -> MapDiff<K, V> {
    match choose(5) {
        0 => MapDiff::Replace { entries: (0..choose(len + 1)).map(|_| (some(), some())).collect() },
        1 => MapDiff::Insert { key: some(), value: some() }, 2 => MapDiff::Update { key: some(), value: some() }, 3 => MapDiff::Remove { key: some() }, _ => MapDiff::Clear {},
    }
}
/// Two diffs: equality, clones, round trips, and documents with a missing part.
fn codec<D: Serialize + DeserializeOwned + Clone + PartialEq + Debug>(make: impl Fn(usize) -> D, first: usize, second: usize) {
    let a = make(first);
    note(|| format!("{:?}", a));
    let sent = send(&a, &[], &[]);
    assert!(sent == a, "{:?} differs from what it was", sent);
    let v = serde_json::to_value(&a).unwrap_or_else(|e| panic!("{:?} does not serialize: {}", a, e));
    let r: D = serde_json::from_value(v).unwrap_or_else(|e| panic!("{:?} does not deserialize: {}", a, e));
    assert_eq!(format!("{:?}", r), format!("{:?}", a), "deserialized through a value");
    let (ja, ta) = (serde_json::to_string(&a).unwrap(), format!("{:?}", a));
    state(&ta);
    if flip() {
        let b = make(second);
        let (jb, tb) = (serde_json::to_string(&b).unwrap(), format!("{:?}", b));
        assert_eq!(a == b, ta == tb, "comparison of {} and {}", ta, tb);
        assert_eq!(a != b, ta != tb, "comparison of {} and {}", ta, tb);
        assert_eq!(ja == jb, ta == tb, "the documents of {} and {}: {} and {}", ta, tb, ja, jb);
        outcome(&(ta == tb));
        return;
    }
    // a document without one of its parts is not a diff
    let v: serde_json::Value = serde_json::from_str(&ja).unwrap();
    let Some(serde_json::Value::Object(parts)) = v.as_object().and_then(|o| o.values().next()).cloned() else { return };
    if parts.is_empty() { return; }
    let gone = parts.keys().nth(choose(parts.len())).unwrap().clone();
    let mut w = v.clone();
    w.as_object_mut().unwrap().values_mut().next().unwrap().as_object_mut().unwrap().remove(&gone);
    // a missing field of an Option is read as None by serde itself
    if parts[&gone].is_null() || ta.contains("Some(") || ta.contains("None") { return; }
    if let Ok(d) = serde_json::from_value::<D>(w.clone()) { panic!("{} is accepted as {:?}", w, d) }
    outcome(&(ta, gone));
}
fn codec_jobs<T: Elem>(js: &mut Vec<Job>, name: &str, n: usize) {
    js.push(seq(format!("pairs of VecDiff<{}>, values up to {} and 1", name, n), move || codec(vec_diff::<T>, n, 1)));
    js.push(seq(format!("pairs of MapDiff with values {}, entries up to {} and 1", name, n - 1), move || codec(map_diff::<u8, T>, n - 1, 1)));
    js.push(seq(format!("pairs of MapDiff with keys {}, entries up to {} and 1", name, n - 1), move || codec(map_diff::<T, u8>, n - 1, 1)));
}

// ------------------------------------------------------------ copies made while the source changes

/// Applies every diff to the copy when it arrives.
struct Pump(Sv<DynV>, MutableVec<u32>, bool);
impl Polled for Pump {
    type Out = VecDiff<u32>;
    fn poll_it(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<u32>>> {
        let r = Pin::new(&mut self.0).poll_it(cx);
        if let Poll::Ready(Some(d)) = &r {
            let d = d.clone();
            if self.2 { let mut l = self.1.lock_mut(); MutableVecLockMut::apply_vec_diff(&mut l, d); } else { let mut v = self.1.lock_ref().to_vec(); d.apply_to_vec(&mut v); self.1.lock_mut().replace(v); }
        }
        r
    }
}
struct MapPump(Sm<DynM>, MutableBTreeMap<u32, u32>);
impl Polled for MapPump {
    type Out = MapDiff<u32, u32>;
    fn poll_it(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<u32, u32>>> {
        let r = Pin::new(&mut self.0).poll_it(cx);
        if let Poll::Ready(Some(d)) = &r { apply_mut(&mut self.1.lock_mut(), d.clone()) }
        r
    }
}
#[derive(Clone, Copy, Debug)]
enum W { Push, Insert, Pop, Move, Set, Clear, Replace, Reverse }
fn write(v: &MutableVec<u32>, w: W, x: u32) {
    let mut l = v.lock_mut();
    let n = l.len();
    match w { W::Push => l.push(x), W::Insert => l.insert(0, x), W::Pop => { l.pop(); } W::Move => if n > 1 { l.move_from_to(0, n - 1) }, W::Set => if n > 0 { l.set(n - 1, x) }, W::Clear => l.clear(), W::Replace => l.replace(vec![x, x + 1]), W::Reverse => l.reverse() }
}
fn chain(sim: &mut Sim, progs: &[Vec<W>], copies: usize) -> Check {
    let world = World::new();
    let a = MutableVec::new_with_values(vec![1, 2]);
    let watch = a.clone();
    for (t, p) in progs.iter().enumerate() {
        let (a, w, p) = (a.clone(), world.clone(), p.clone());
        sim.thread(move || for (k, op) in p.into_iter().enumerate() { w.step(); rt::trace(|| format!("{:?}", op)); write(&a, op, 10 * (t as u32 + 1) + k as u32) });
    }
    let mut at = a;
    let mut all = vec![];
    for c in 0..copies {
        let to = MutableVec::new();
        let p = Pump(Sv(Box::pin(at.signal_vec()) as DynV), to.clone(), c == 0);
        let log = Shared::new();
        let (l, w) = (log.clone(), world.clone());
        sim.thread(move || consume(p, &w, &l, Opt::default(), |d| format!("{:?}", d)));
        all.push((to.clone(), log));
        at = to;
    }
    Box::new(move |_| {
        let m = watch.lock_ref().to_vec();
        for (k, (to, log)) in all.iter().enumerate() {
            need(to.lock_ref().to_vec() == m, || format!("copy {} is {:?} instead of {:?}", k + 1, to.lock_ref().to_vec(), m))?;
            need(!log.0.borrow().ended, || format!("copy {} ends early", k + 1))?;
        }
        outcome(&m);
        Ok(())
    })
}
fn map_chain(sim: &mut Sim, progs: &[Vec<u32>], copies: usize) -> Check {
    let world = World::new();
    let a = MutableBTreeMap::with_values([(0, 1), (1, 2)].into());
    let watch = a.clone();
    for (t, p) in progs.iter().enumerate() {
        let (a, w, p) = (a.clone(), world.clone(), p.clone());
        sim.thread(move || for (k, op) in p.into_iter().enumerate() {
            w.step();
            let (key, x) = (op % 3, 10 * (t as u32 + 1) + k as u32);
            let mut l = a.lock_mut();
            match op / 3 { 0 => { l.insert(key, x); } 1 => { l.remove(&key); } 2 => l.clear(), _ => l.replace([(key, x), (key + 1, x)].into()) }
        });
    }
    let mut at = a;
    let mut all = vec![];
    for _ in 0..copies {
        let to = MutableBTreeMap::new();
        let p = MapPump(Sm(Box::pin(at.signal_map()) as DynM), to.clone());
        let log = Shared::new();
        let (l, w) = (log.clone(), world.clone());
        sim.thread(move || consume(p, &w, &l, Opt::default(), |d| format!("{:?}", d)));
        all.push((to.clone(), log));
        at = to;
    }
    Box::new(move |_| {
        let m: BTreeMap<u32, u32> = (*watch.lock_ref()).clone();
        for (k, (to, log)) in all.iter().enumerate() {
            let c: BTreeMap<u32, u32> = (*to.lock_ref()).clone();
            need(c == m, || format!("copy {} is {:?} instead of {:?}", k + 1, c, m))?;
            need(!log.0.borrow().ended, || format!("copy {} ends early", k + 1))?;
        }
        outcome(&m);
        Ok(())
    })
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    for n0 in 0..=3usize { for late in [false, true] {
        js.push(seq(format!("MutableVec, all operations, init {}, late {}, depth 2", n0, late), move || vec_history(n0, 2, late, true)));
        if n0 <= t.pick(0, 2) { js.push(seq(format!("MutableVec, operations, init {}, late {}, depth 3", n0, late), move || vec_history(n0, 3, late, false))); }
    } }
    for n in t.pick(vec![24, 70], vec![24, 70, 300]) { js.push(seq(format!("MutableVec, {} elements, depth 1", n), move || vec_history(n, 1, false, true))); }
    for init in [0, 1, 3, 7] { for late in [false, true] {
        let depth = t.pick(3, 4);
        js.push(seq(format!("MutableBTreeMap, init {:b}, late {}, depth {}", init, late, depth), move || map_history(init, if depth == 4 { 2 } else { 3 }, depth, late)));
    } }
    let n = t.pick(2, 3);
    codec_jobs::<u8>(&mut js, "u8", n); codec_jobs::<i64>(&mut js, "i64", n); codec_jobs::<String>(&mut js, "String", n); codec_jobs::<Option<u8>>(&mut js, "Option<u8>", n); codec_jobs::<Vec<u8>>(&mut js, "Vec<u8>", n);
    codec_jobs::<()>(&mut js, "()", n); codec_jobs::<(u8, bool)>(&mut js, "(u8, bool)", n); codec_jobs::<BTreeMap<String, u8>>(&mut js, "BTreeMap<String, u8>", n); codec_jobs::<VecDiff<u8>>(&mut js, "VecDiff<u8>", n);
    let all = [W::Push, W::Insert, W::Pop, W::Move, W::Set, W::Clear, W::Replace, W::Reverse];
    for a in all { for b in all { for copies in 1..3 {
        let ps = vec![vec![a, b]];
        js.push(conc(format!("{:?} with {} copies", ps, copies), t.pick(2, 4), move |sim| chain(sim, &ps, copies)));
        if copies == 2 && !t.thorough() { continue; }
        let ps = vec![vec![a], vec![b]];
        js.push(conc(format!("{:?} with {} copies", ps, copies), t.pick(2, 3), move |sim| chain(sim, &ps, copies)));
    } } }
    for a in [0, 2, 3, 5, 6, 9] { for b in [0, 2, 3, 6, 10] { for copies in 1..3 {
        let ps = vec![vec![a, b]];
        js.push(conc(format!("map {:?} with {} copies", ps, copies), t.pick(2, 4), move |sim| map_chain(sim, &ps, copies)));
        if copies == 2 && !t.thorough() { continue; }
        let ps = vec![vec![a], vec![b]];
        js.push(conc(format!("map {:?} with {} copies", ps, copies), t.pick(2, 3), move |sim| map_chain(sim, &ps, copies)));
    } } }
    js
}

fn main() {
    mc::main(Spec {
        property: "C26",
        assumptions: vec!["serde_json stands for all data formats; applying a diff to a MutableBTreeMap means the operation of the same name".into()],
        notes: "every history of operations up to the depth, each followed by any amount of copying (diffs cloned, compared, sent through serde_json and applied to a Vec and a second container, which is copied again); every pair of small diffs; and every interleaving of writers and copying threads up to the preemption bound".into(),
    }, jobs)
}
