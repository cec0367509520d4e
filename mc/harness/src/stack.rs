//! Stacks of combinators over real sources, and what they should converge on.
use crate::conc::Polled;
use crate::model::*;
use futures_signals::{map_mut, map_ref};
use futures_signals::signal::{self, *};
use futures_signals::signal_map::*;
use futures_signals::signal_vec::{self, *};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type DS = Pin<Box<dyn Signal<Item = u32>>>;
pub type DV = Pin<Box<dyn SignalVec<Item = u32>>>;
pub type DM = Pin<Box<dyn SignalMap<Key = u32, Value = u32>>>;

/// Fails if an input is polled after it has ended, or while it is being polled.
struct Guard<T: ?Sized> { what: &'static str, over: bool, busy: bool, _count: Count, inner: Pin<Box<T>> }
thread_local! { static STAGES: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
struct Count;
impl Count { fn new() -> Count { STAGES.with(|s| s.set(s.get() + 1)); Count } }
impl Drop for Count { fn drop(&mut self) { STAGES.with(|s| s.set(s.get() - 1)); } }
pub fn stages_reset() { STAGES.with(|s| s.set(0)) }
thread_local! { static LENIENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Stages do not complain about how they are polled.
pub fn lenient() { LENIENT.with(|l| l.set(true)) }
/// The number of stages that have not been dropped.
pub fn stages_alive() -> i64 { STAGES.with(|s| s.get()) }
impl<T: ?Sized> Guard<T> {
    fn enter(&mut self) {
        if LENIENT.with(|l| l.get()) { return }
        if self.over { panic!("the input of {} is polled again after it has ended", self.what) }
        if self.busy { panic!("the input of {} is polled while it is being polled", self.what) }
        self.busy = true;
    }
    fn leave(&mut self, over: bool) { self.busy = false; self.over = over; }
}
impl Signal for Guard<dyn Signal<Item = u32>> {
    type Item = u32;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u32>> {
        self.enter();
        let r = self.inner.as_mut().poll_change(cx);
        self.leave(matches!(r, Poll::Ready(None)));
        r
    }
}
impl SignalVec for Guard<dyn SignalVec<Item = u32>> {
    type Item = u32;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<u32>>> {
        self.enter();
        let r = self.inner.as_mut().poll_vec_change(cx);
        self.leave(matches!(r, Poll::Ready(None)));
        r
    }
}
impl SignalMap for Guard<dyn SignalMap<Key = u32, Value = u32>> {
    type Key = u32;
    type Value = u32;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<u32, u32>>> {
        self.enter();
        let r = self.inner.as_mut().poll_map_change(cx);
        self.leave(matches!(r, Poll::Ready(None)));
        r
    }
}
fn gs(what: &'static str, s: DS) -> Guard<dyn Signal<Item = u32>> { Guard { what, over: false, busy: false, _count: Count::new(), inner: s } }
fn gv(what: &'static str, s: DV) -> Guard<dyn SignalVec<Item = u32>> { Guard { what, over: false, busy: false, _count: Count::new(), inner: s } }
fn gm(what: &'static str, s: DM) -> Guard<dyn SignalMap<Key = u32, Value = u32>> { Guard { what, over: false, busy: false, _count: Count::new(), inner: s } }

/// A stream of diffs as a signal vec.
struct Diffs<S>(S);
impl<S: futures_core::Stream<Item = VecDiff<u32>> + Unpin> SignalVec for Diffs<S> {
    type Item = u32;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<u32>>> { Pin::new(&mut self.0).poll_next(cx) }
}

pub enum Pipe { S(DS), V(DV), M(DM) }

/// The sources. `A`, `B`: Mutable; `C`: channel; `V`: MutableVec; `M`: MutableBTreeMap.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Id { A, B, C, V, M }
pub const IDS: [Id; 5] = [Id::A, Id::B, Id::C, Id::V, Id::M];

pub struct Srcs { pub a: Option<Mutable<u32>>, pub b: Option<Mutable<u32>>, pub tx: Option<Sender<u32>>, pub rx: Option<Receiver<u32>>, pub v: Option<MutableVec<u32>>, pub m: Option<MutableBTreeMap<u32, u32>> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct State { pub a: u32, pub b: u32, pub c: u32, pub v: Vec<u32>, pub m: BTreeMap<u32, u32>, pub gone: [bool; 5] }
pub type Model = Rc<dyn Fn(&State) -> (Vec<u32>, bool)>;

pub fn sources() -> (Srcs, State) {
    let (tx, rx) = channel(4);
    let m: BTreeMap<u32, u32> = [(1, 5)].into_iter().collect();
    (Srcs { a: Some(Mutable::new(1)), b: Some(Mutable::new(2)), tx: Some(tx), rx: Some(rx), v: Some(MutableVec::from(vec![7, 2])), m: Some(MutableBTreeMap::from(m.clone())) },
     State { a: 1, b: 2, c: 4, v: vec![7, 2], m, gone: [false; 5] })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act { Set, Same, Lock, Push, Insert, Remove, Update, Move, Replace, Clear, Drop }
pub fn acts(id: Id) -> &'static [Act] {
    use Act::*;
    match id { Id::A => &[Set, Same, Drop], Id::B => &[Set, Lock, Drop], Id::C => &[Set, Drop], Id::V => &[Push, Insert, Remove, Update, Move, Replace, Clear, Drop], Id::M => &[Push, Update, Remove, Replace, Clear, Drop] }
}
/// A one-source handle that a modelled thread can own.
pub enum Handle { A(Mutable<u32>), B(Mutable<u32>), C(Sender<u32>), V(MutableVec<u32>), M(MutableBTreeMap<u32, u32>) }
impl Srcs {
    pub fn take(&mut self, id: Id) -> Handle { match id { Id::A => Handle::A(self.a.take().unwrap()), Id::B => Handle::B(self.b.take().unwrap()), Id::C => Handle::C(self.tx.take().unwrap()), Id::V => Handle::V(self.v.take().unwrap()), Id::M => Handle::M(self.m.take().unwrap()) } }
}
/// Runs an action; the state is updated to what it becomes. Gives the handle back unless it is dropped.
pub fn perform(h: Handle, act: Act, st: &mut State) -> Option<Handle> {
    match &h {
        Handle::A(m) => match act { Act::Set => { st.a += 1; m.set(st.a) } Act::Same => m.set_neq(st.a), _ => { st.gone[0] = true; drop(h); return None } },
        Handle::B(m) => match act { Act::Set => { st.b += 1; m.set(st.b) } Act::Lock => { st.b += 3; *m.lock_mut() += 3; } _ => { st.gone[1] = true; drop(h); return None } },
        Handle::C(s) => match act { Act::Set => { st.c += 1; s.send(st.c).ok(); } _ => { st.gone[2] = true; drop(h); return None } },
        Handle::V(v) => {
            let n = st.v.len();
            let x = 10 + st.v.iter().copied().max().unwrap_or(0) % 7;
            match act {
                Act::Push => { st.v.push(x); v.lock_mut().push(x) }
                Act::Insert => { st.v.insert(0, x); v.lock_mut().insert(0, x) }
                Act::Remove => if n > 0 { st.v.remove(0); v.lock_mut().remove(0); },
                Act::Update => if n > 0 { st.v[n - 1] = x; v.lock_mut().set(n - 1, x) },
                Act::Move => if n > 1 { let y = st.v.remove(0); st.v.push(y); v.lock_mut().move_from_to(0, n - 1) },
                Act::Replace => { st.v = vec![x, 3]; v.lock_mut().replace(vec![x, 3]) }
                Act::Clear => { st.v.clear(); v.lock_mut().clear() }
                _ => { st.gone[3] = true; drop(h); return None }
            }
        }
        Handle::M(m) => {
            let x = 20 + st.m.len() as u32;
            match act {
                Act::Push => { let k = (0..).find(|k| !st.m.contains_key(k)).unwrap(); st.m.insert(k, x); m.lock_mut().insert(k, x); }
                Act::Update => { let y = st.m.get(&1).map(|v| v + 1).unwrap_or(x); st.m.insert(1, y); m.lock_mut().insert(1, y); }
                Act::Remove => { st.m.remove(&1); m.lock_mut().remove(&1); }
                Act::Replace => { let n: BTreeMap<u32, u32> = [(1, x), (2, x)].into_iter().collect(); st.m = n.clone(); m.lock_mut().replace(n) }
                Act::Clear => { st.m.clear(); m.lock_mut().clear() }
                _ => { st.gone[4] = true; drop(h); return None }
            }
        }
    }
    Some(h)
}

pub type Made = (Pipe, Model, Vec<Id>);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Leaf { A, ACloned, ARef, Chan, Broad, Both, Vec_, VecCloned, Map_, MapCloned, Keys, Entries }
pub const LEAVES: [Leaf; 12] = [Leaf::A, Leaf::ACloned, Leaf::ARef, Leaf::Chan, Leaf::Broad, Leaf::Both, Leaf::Vec_, Leaf::VecCloned, Leaf::Map_, Leaf::MapCloned, Leaf::Keys, Leaf::Entries];

pub fn kind_of(l: Leaf) -> char { use Leaf::*; match l { A | ACloned | ARef | Chan | Broad | Both => 'S', Vec_ | VecCloned | Keys | Entries => 'V', Map_ | MapCloned => 'M' } }

pub fn leaf(l: Leaf, s: &mut Srcs) -> Made {
    let a = s.a.as_ref().unwrap();
    let v = s.v.as_ref().unwrap();
    let m = s.m.as_ref().unwrap();
    let ma: Model = Rc::new(|s| (vec![s.a], s.gone[0]));
    let mv: Model = Rc::new(|s| (s.v.clone(), s.gone[3]));
    let mm: Model = Rc::new(|s| (s.m.iter().flat_map(|(k, v)| [*k, *v]).collect(), s.gone[4]));
    match l {
        Leaf::A => (Pipe::S(Box::pin(a.signal())), ma, vec![Id::A]),
        Leaf::ACloned => (Pipe::S(Box::pin(a.signal_cloned())), ma, vec![Id::A]),
        Leaf::ARef => (Pipe::S(Box::pin(a.signal_ref(|x| *x))), ma, vec![Id::A]),
        Leaf::Chan => (Pipe::S(Box::pin(s.rx.take().unwrap())), Rc::new(|s| (vec![s.c], s.gone[2])), vec![Id::C]),
        Leaf::Broad => (Pipe::S(Box::pin(a.signal().broadcast().signal())), ma, vec![Id::A]),
        Leaf::Both => {
            let (x, y) = (a.signal(), s.b.as_ref().unwrap().signal());
            (Pipe::S(Box::pin(map_ref! { let x = x, let y = y => *x * 100 + *y })), Rc::new(|s| (vec![s.a * 100 + s.b], s.gone[0] && s.gone[1])), vec![Id::A, Id::B])
        }
        Leaf::Vec_ => (Pipe::V(Box::pin(v.signal_vec())), mv, vec![Id::V]),
        Leaf::VecCloned => (Pipe::V(Box::pin(v.signal_vec_cloned())), mv, vec![Id::V]),
        Leaf::Map_ => (Pipe::M(Box::pin(m.signal_map())), mm, vec![Id::M]),
        Leaf::MapCloned => (Pipe::M(Box::pin(m.signal_map_cloned())), mm, vec![Id::M]),
        Leaf::Keys => (Pipe::V(Box::pin(m.signal_vec_keys())), Rc::new(|s| (s.m.keys().copied().collect(), s.gone[4])), vec![Id::M]),
        Leaf::Entries => (Pipe::V(Box::pin(SignalVecExt::map(m.entries_cloned(), |(k, v)| k * 1000 + v))), Rc::new(|s| (s.m.iter().map(|(k, v)| k * 1000 + v).collect(), s.gone[4])), vec![Id::M]),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Map, Inspect, Dedupe, DedupeCloned, DedupeMap, FilterMap, Boxed, Debug, Broad, BroadRef, BroadTwice, Stream, Option_, Result_, Eq, Neq, Not, And, Or, MapRef, MapMut, SwitchB, SwitchAlways, FlattenB, Throttle, MapFuture, MapFutureB, StopIf, Triple,
    ToVec, SwitchVecAlways, SwitchVecB, SwitchVecV,
    VMap, VFilter, VFilterMap, VSort, VEnumerate, VChainB, VChainL, VChainV, VFlatten, VFlattenB, VMapSignal, VMapSignalBroad, VFilterSignal, VDelay, VStream, VBoxed, VDebug, VSnapshot,
    VLen, VEmpty, VSum, VCloned, VToMap,
    MMap, MMapSignal, MBoxed, MKey, MMissing,
}
use Op::*;
pub const S_OPS: [Op; 33] = [Map, Inspect, Dedupe, DedupeCloned, DedupeMap, FilterMap, Boxed, Debug, Broad, BroadRef, BroadTwice, Stream, Option_, Result_, Eq, Neq, Not, And, Or, MapRef, MapMut, SwitchB, SwitchAlways, FlattenB, Throttle, MapFuture, MapFutureB, StopIf, Triple, ToVec, SwitchVecAlways, SwitchVecB, SwitchVecV];
pub const V_OPS: [Op; 23] = [VMap, VFilter, VFilterMap, VSort, VEnumerate, VChainB, VChainL, VChainV, VFlatten, VFlattenB, VMapSignal, VMapSignalBroad, VFilterSignal, VDelay, VStream, VBoxed, VDebug, VSnapshot, VLen, VEmpty, VSum, VCloned, VToMap];
pub const M_OPS: [Op; 5] = [MMap, MMapSignal, MBoxed, MKey, MMissing];

pub fn ops_for(kind: char) -> &'static [Op] { match kind { 'S' => &S_OPS, 'V' => &V_OPS, _ => &M_OPS } }
pub fn kind_after(o: Op) -> char {
    match o {
        ToVec | SwitchVecAlways | SwitchVecB | SwitchVecV | VMap | VFilter | VFilterMap | VSort | VEnumerate | VChainB | VChainL | VChainV | VFlatten | VFlattenB | VMapSignal | VMapSignalBroad | VFilterSignal | VDelay | VStream | VBoxed | VDebug | VSnapshot => 'V',
        MMap | MMapSignal | MBoxed => 'M',
        _ => 'S',
    }
}

fn fold(v: &[u32]) -> u32 { v.iter().fold(7u32, |h, x| h.wrapping_mul(31).wrapping_add(*x)) }
fn mix(x: u32, y: u32) -> u32 { x.wrapping_mul(10).wrapping_add(y) }

pub fn stack(o: Op, (p, m, mut ids): Made, s: &mut Srcs) -> Made {
    let bro = s.b.as_ref().unwrap().read_only();
    let mut uses = |id: Id| { if !ids.contains(&id) { ids.push(id) } };
    let one = |m: &Model, f: fn(u32) -> u32| -> Model { let m = m.clone(); Rc::new(move |s| { let (v, e) = m(s); (vec![f(v[0])], e) }) };
    let each = |m: &Model, f: fn(Vec<u32>) -> Vec<u32>| -> Model { let m = m.clone(); Rc::new(move |s| { let (v, e) = m(s); (f(v), e) }) };
    let with_b = |m: &Model, f: fn(u32, u32) -> u32| -> Model { let m = m.clone(); Rc::new(move |s| { let (v, e) = m(s); (vec![f(v[0], s.b)], e && s.gone[1]) }) };
    let id: fn(u32) -> u32 = |x| x;
    match p {
        Pipe::S(p) => {
            let name: &'static str = match o { Map => "map", Dedupe => "dedupe", Stream => "to_stream", _ => "a combinator" };
            let g = gs(name, p);
            let (q, m): (DS, Model) = match o {
                Map => (Box::pin(g.map(|x| x.wrapping_mul(2).wrapping_add(1))), one(&m, |x| x.wrapping_mul(2).wrapping_add(1))),
                Inspect => (Box::pin(g.inspect(|_| {})), m),
                Dedupe => (Box::pin(g.map(|x| x / 2).dedupe()), one(&m, |x| x / 2)),
                DedupeCloned => (Box::pin(g.map(|x| x / 3).dedupe_cloned()), one(&m, |x| x / 3)),
                DedupeMap => (Box::pin(g.dedupe_map(|x| x.wrapping_add(5))), one(&m, |x| x.wrapping_add(5))),
                FilterMap => (Box::pin(g.filter_map(|x| Some(x)).map(|x| x.unwrap_or(999))), m),
                Boxed => (g.boxed_local(), m),
                Debug => (Box::pin(g.debug()), m),
                Broad => (Box::pin(g.broadcast().signal()), m),
                BroadRef => (Box::pin(g.broadcast().signal_ref(|x| x.wrapping_add(1))), one(&m, |x| x.wrapping_add(1))),
                BroadTwice => { let b = g.broadcast(); let (x, y) = (b.signal(), b.signal_cloned()); drop(b); (Box::pin(map_ref! { let x = x, let y = y => mix(*x, *y) }), one(&m, |x| mix(x, x))) }
                Triple => { let b = g.broadcast(); let (x, y, z) = (b.signal(), b.signal_cloned(), b.signal_ref(|z| *z)); (Box::pin(map_ref! { let x = x, let y = y.map(|y| y / 2).dedupe(), let z = z => mix(mix(*x, *y), *z) }), one(&m, |x| mix(mix(x, x / 2), x))) }
                Stream => (Box::pin(signal::from_stream(g.to_stream()).map(|x| x.unwrap_or(999))), m),
                Option_ => (Box::pin(signal::option(Some(g)).map(|x| x.unwrap_or(999))), m),
                Result_ => (Box::pin(signal::result::<_, ()>(Ok(g)).map(|x| x.unwrap_or(999))), m),
                Eq => (Box::pin(g.eq(2).map(|x| x as u32)), one(&m, |x| (x == 2) as u32)),
                Neq => (Box::pin(g.neq(2).map(|x| x as u32)), one(&m, |x| (x != 2) as u32)),
                Not => (Box::pin(signal::not(g.map(|x| x % 2 == 0)).map(|x| x as u32)), one(&m, |x| (x % 2 != 0) as u32)),
                And => { uses(Id::B); (Box::pin(signal::and(g.map(|x| x % 2 == 0), bro.signal().map(|x| x % 2 == 0)).map(|x| x as u32)), with_b(&m, |x, b| (x % 2 == 0 && b % 2 == 0) as u32)) }
                Or => { uses(Id::B); (Box::pin(signal::or(g.map(|x| x % 2 == 0), bro.signal().map(|x| x % 2 == 0)).map(|x| x as u32)), with_b(&m, |x, b| (x % 2 == 0 || b % 2 == 0) as u32)) }
                MapRef => { uses(Id::B); let y = bro.signal_cloned(); (Box::pin(map_ref! { let x = g, let y = y => mix(*x, *y) }), with_b(&m, mix)) }
                MapMut => { uses(Id::B); let y = bro.signal_cloned(); (Box::pin(map_mut! { let x = g, let y = y => mix(*x, *y) }), with_b(&m, mix)) }
                SwitchB => { uses(Id::B); let b = bro.clone(); (Box::pin(g.switch(move |x| b.signal().map(move |b| mix(x, b)))), with_b(&m, mix)) }
                SwitchAlways => (Box::pin(g.switch(|x| signal::always(x))), m),
                FlattenB => { uses(Id::B); let b = bro.clone(); (Box::pin(g.map(move |x| b.signal_ref(move |b| mix(x, *b))).flatten()), with_b(&m, mix)) }
                Throttle => (Box::pin(g.throttle(|| futures_util::future::ready(()))), m),
                MapFuture => (Box::pin(g.map_future(|x| futures_util::future::ready(x)).map(|x| x.unwrap_or(999))), m),
                MapFutureB => { let b = bro.clone(); uses(Id::B);
                    // the future completes once b has ended
                    (Box::pin(g.map_future(move |x| { let f = b.signal().to_future(); async move { mix(x, f.await) } }).map(|x| x.unwrap_or(999))),
                     Rc::new(move |s| { let (v, e) = m(s); (vec![if s.gone[1] { mix(v[0], s.b) } else { 999 }], e && s.gone[1]) })) }
                StopIf => (Box::pin(g.stop_if(|_| false)), m),
                ToVec => return (Pipe::V(Box::pin(g.map(|x| vec![x]).to_signal_vec())), m, ids),
                SwitchVecAlways => return (Pipe::V(Box::pin(g.switch_signal_vec(|x| signal_vec::always(if x % 3 == 0 { vec![] } else { vec![x, x.wrapping_add(1)] })))), each(&m, |v| if v[0] % 3 == 0 { vec![] } else { vec![v[0], v[0].wrapping_add(1)] }), ids),
                SwitchVecB => { uses(Id::B); let b = bro.clone(); return (Pipe::V(Box::pin(g.switch_signal_vec(move |x| b.signal().map(move |b| vec![mix(x, b)]).to_signal_vec()))), with_b(&m, mix), ids) }
                SwitchVecV => {
                    uses(Id::V);
                    // the callback keeps a handle of the MutableVec: it never ends
                    let v = s.v.as_ref().unwrap().clone();
                    return (Pipe::V(Box::pin(g.switch_signal_vec(move |x| SignalVecExt::map(v.signal_vec(), move |y| mix(x % 2, y))))), Rc::new(move |s| { let (x, _) = m(s); (s.v.iter().map(|y| mix(x[0] % 2, *y)).collect(), false) }), ids)
                }
                _ => unreachable!(),
            };
            (Pipe::S(q), m, ids)
        }
        Pipe::V(p) => {
            let g = gv("a vec combinator", p);
            let all_b = |m: &Model, f: fn(u32, u32) -> u32| -> Model { let m = m.clone(); Rc::new(move |s| { let (v, e) = m(s); let end = e && (v.is_empty() || s.gone[1]); (v.iter().map(|x| f(*x, s.b)).collect(), end) }) };
            let (q, m): (DV, Model) = match o {
                VMap => (Box::pin(SignalVecExt::map(g, |x| x.wrapping_add(1))), each(&m, |v| v.iter().map(|x| x.wrapping_add(1)).collect())),
                VFilter => (Box::pin(g.filter(|x| x % 2 == 0)), each(&m, |v| v.into_iter().filter(|x| x % 2 == 0).collect())),
                VFilterMap => (Box::pin(SignalVecExt::filter_map(g, |x| if x % 3 == 0 { None } else { Some(x / 2) })), each(&m, |v| v.into_iter().filter(|x| x % 3 != 0).map(|x| x / 2).collect())),
                VSort => (Box::pin(g.sort_by_cloned(|a, b| (a % 4).cmp(&(b % 4)))), each(&m, |mut v| { v.sort_by(|a, b| (a % 4).cmp(&(b % 4))); v })),
                VEnumerate => (Box::pin(g.enumerate().map_signal(|(i, x)| i.signal().map(move |i| mix(x, i.map(|i| i as u32).unwrap_or(77))))), each(&m, |v| v.iter().enumerate().map(|(i, x)| mix(*x, i as u32)).collect())),
                VChainB => { uses(Id::B); let r = bro.signal().map(|b| vec![b]).to_signal_vec(); (Box::pin(g.chain(r)), Rc::new(move |s| { let (mut v, e) = m(s); v.push(s.b); (v, e && s.gone[1]) })) }
                VChainL => { uses(Id::B); let r = bro.signal_cloned().map(|b| vec![b]).to_signal_vec(); (Box::pin(r.chain(g)), Rc::new(move |s| { let (v, e) = m(s); let mut o = vec![s.b]; o.extend(v); (o, e && s.gone[1]) })) }
                VChainV => { uses(Id::V); let r = s.v.as_ref().unwrap().signal_vec(); (Box::pin(g.chain(r)), Rc::new(move |s| { let (mut v, e) = m(s); v.extend(&s.v); (v, e && s.gone[3]) })) }
                VFlatten => (Box::pin(SignalVecExt::flatten(SignalVecExt::map(g, |x| signal_vec::always(if x % 3 == 0 { vec![] } else { vec![x, x.wrapping_add(1)] })))), each(&m, |v| v.into_iter().flat_map(|x| if x % 3 == 0 { vec![] } else { vec![x, x.wrapping_add(1)] }).collect())),
                VFlattenB => { uses(Id::B); let b = bro.clone(); (Box::pin(SignalVecExt::flatten(SignalVecExt::map(g, move |x| b.signal().map(move |b| vec![mix(x, b)]).to_signal_vec()))), all_b(&m, mix)) }
                VMapSignal => { uses(Id::B); let b = bro.clone(); (Box::pin(g.map_signal(move |x| b.signal().map(move |b| mix(x, b)))), all_b(&m, mix)) }
                VMapSignalBroad => { uses(Id::B); let b = bro.signal().broadcast(); (Box::pin(g.map_signal(move |x| b.signal_ref(move |b| mix(x, *b)))), all_b(&m, mix)) }
                VFilterSignal => { uses(Id::B); let b = bro.clone(); (Box::pin(g.filter_signal_cloned(move |x| { let x = *x; b.signal().map(move |b| x.wrapping_add(b) % 2 == 0) })), Rc::new(move |s| { let (v, e) = m(s); let end = e && (v.is_empty() || s.gone[1]); (v.into_iter().filter(|x| x.wrapping_add(s.b) % 2 == 0).collect(), end) })) }
                VDelay => (Box::pin(g.delay_remove(|_| futures_util::future::ready(()))), m),
                VStream => (Box::pin(Diffs(SignalVecExt::to_stream(g))), m),
                VBoxed => (SignalVecExt::boxed_local(g), m),
                VDebug => (Box::pin(SignalVecExt::debug(g)), m),
                VSnapshot => (Box::pin(g.to_signal_cloned().switch_signal_vec(|v| signal_vec::always(v))), m),
                VLen => return (Pipe::S(Box::pin(g.len().map(|n| n as u32))), each(&m, |v| vec![v.len() as u32]), ids),
                VEmpty => return (Pipe::S(Box::pin(g.is_empty().map(|n| n as u32))), each(&m, |v| vec![v.is_empty() as u32]), ids),
                VSum => return (Pipe::S(Box::pin(SignalVecExt::map(g, |x| x % 1000).sum())), each(&m, |v| vec![v.iter().map(|x| x % 1000).sum()]), ids),
                VCloned => return (Pipe::S(Box::pin(g.to_signal_cloned().map(|v| fold(&v)))), each(&m, |v| vec![fold(&v)]), ids),
                VToMap => return (Pipe::S(Box::pin(g.to_signal_map(|v| fold(v)))), each(&m, |v| vec![fold(&v)]), ids),
                _ => unreachable!(),
            };
            (Pipe::V(q), m, ids)
        }
        Pipe::M(p) => {
            let g = gm("a map combinator", p);
            let _ = id;
            match o {
                MMap => (Pipe::M(Box::pin(g.map_value(|x| x + 1))), each(&m, |v| v.chunks(2).flat_map(|c| [c[0], c[1] + 1]).collect()), ids),
                MMapSignal => { uses(Id::B); let b = bro.clone(); (Pipe::M(Box::pin(g.map_value_signal(move |x| b.signal().map(move |b| mix(x, b))))), Rc::new(move |s| { let (v, e) = m(s); let end = e && (v.is_empty() || s.gone[1]); (v.chunks(2).flat_map(|c| [c[0], mix(c[1], s.b)]).collect(), end) }), ids) }
                MBoxed => (Pipe::M(SignalMapExt::boxed_local(g)), m, ids),
                MKey => (Pipe::S(Box::pin(g.key_cloned(1).map(|x| x.unwrap_or(999)))), each(&m, |v| vec![v.chunks(2).find(|c| c[0] == 1).map(|c| c[1]).unwrap_or(999)]), ids),
                MMissing => (Pipe::S(Box::pin(g.key_cloned(0).map(|x| x.unwrap_or(999)))), each(&m, |v| vec![v.chunks(2).find(|c| c[0] == 0).map(|c| c[1]).unwrap_or(999)]), ids),
                _ => unreachable!(),
            }
        }
    }
}

/// Replays the output: yields what it shows after every item.
pub struct View { pipe: Pipe, v: Vec<u32>, m: BTreeMap<u32, u32> }
impl View { pub fn new(pipe: Pipe) -> View { View { pipe, v: vec![], m: BTreeMap::new() } } 
    /// what an output that has yielded nothing shows
    pub fn initial(&self) -> Option<Vec<u32>> { if let Pipe::S(_) = self.pipe { None } else { Some(vec![]) } } }
impl Polled for View {
    type Out = Vec<u32>;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Vec<u32>>> {
        let this = self.get_mut();
        match &mut this.pipe {
            Pipe::S(s) => s.as_mut().poll_change(cx).map(|o| o.map(|x| vec![x])),
            Pipe::V(s) => { let v = &mut this.v; s.as_mut().poll_vec_change(cx).map(|o| o.map(|d| { crate::note(|| show_vec(&d)); apply(v, d); v.clone() })) }
            Pipe::M(s) => { let m = &mut this.m; s.as_mut().poll_map_change(cx).map(|o| o.map(|d| { crate::note(|| show_map(&d)); apply_map(m, d); m.iter().flat_map(|(k, v)| [*k, *v]).collect() })) }
        }
    }
}
