//! Driver for consumers of one scripted signal map.
use crate::conc::Polled;
use crate::model::apply_map;
use crate::src::*;
use crate::*;
use futures_signals::signal_map::MapDiff;
use std::collections::BTreeMap;

pub type Key = u8;
pub type V = u32;
pub fn class(v: V) -> u32 { v % 8 }

/// A scripted signal map with its reference contents.
pub struct MapIn {
    pub ctl: Ctl<MapDiff<Key, V>>,
    pub cur: BTreeMap<Key, V>,
    /// every value ever put into a diff, in order
    pub put: Vec<V>,
    pub sent: Vec<String>,
    serial: u32,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MShape { Clear, Insert(Key, u32), Update(Key, u32), Remove(Key), Replace(&'static [Key], u32) }

impl MapIn {
    pub fn new(name: &str) -> (MapIn, MSrc<Key, V>) { let (ctl, s) = source(name); (MapIn { ctl, cur: BTreeMap::new(), put: vec![], sent: vec![], serial: 0 }, MSrc(s)) }
    pub fn value(&mut self, class: u32) -> V { self.serial += 1; let v = self.serial * 8 + class; self.put.push(v); v }
    pub fn send(&mut self, d: MapDiff<Key, V>) { note(|| format!("source sends {:?}", d)); self.sent.push(format!("{:?}", d)); apply_map(&mut self.cur, d.clone()); self.ctl.push(d) }
    pub fn shapes(&self, keys: Key, classes: u32) -> Vec<MShape> {
        let mut o = vec![MShape::Clear];
        for k in 0..keys {
            if self.cur.contains_key(&k) { o.push(MShape::Remove(k)); for c in 0..classes { o.push(MShape::Update(k, c)); } }
            else { for c in 0..classes { o.push(MShape::Insert(k, c)); } }
        }
        let rs: &[&'static [Key]] = &[&[], &[0], &[1], &[0, 1], &[1, 0], &[2, 1, 0]];
        for r in rs { if r.iter().all(|k| *k < keys) { for c in 0..if r.is_empty() { 1 } else { classes } { o.push(MShape::Replace(r, c)); } } }
        o
    }
    pub fn act(&mut self, s: MShape) {
        let d = match s {
            MShape::Clear => MapDiff::Clear {}, MShape::Insert(key, c) => MapDiff::Insert { key, value: self.value(c) }, MShape::Update(key, c) => MapDiff::Update { key, value: self.value(c) },
            MShape::Remove(key) => MapDiff::Remove { key }, MShape::Replace(ks, c) => MapDiff::Replace { entries: ks.iter().map(|k| (*k, self.value(c))).collect() },
        };
        self.send(d)
    }
    pub fn end(&mut self) { note(|| "source ends".into()); self.ctl.end() }
}

pub trait MWatch {
    type P: Polled;
    fn make(src: MSrc<Key, V>) -> (Self, Self::P) where Self: Sized;
    fn item(&mut self, v: <Self::P as Polled>::Out);
    fn caught_up(&mut self, src: &MapIn);
    fn step(&mut self, _src: &MapIn) {}
    fn first(&mut self) {}
    fn extras(&self, _src: &MapIn) -> usize { 0 }
    fn extra(&mut self, _n: usize, _src: &MapIn) {}
    /// given that the source has ended: has everything else ended?
    fn over(&self, _src: &MapIn) -> bool { true }
    /// makes one more thing end; false: nothing left
    fn finish(&mut self) -> bool { false }
    const EXTRAS: bool = false;
    fn key(&self) -> u64 { 0 }
    fn gone(&mut self) {}
}

pub fn unary_map<W: MWatch>(depth: usize, keys: Key, classes: u32, hiccups: bool, start: &[MShape]) {
    let (mut s, src) = MapIn::new("source");
    let (mut w, p) = W::make(src);
    let mut ex = Exec::new(p);
    for st in start { s.act(*st); }
    let check = |ex: &Exec<W::P>, w: &mut W, s: &MapIn| {
        w.step(s);
        if ex.polls == 1 { w.first(); }
        let over = s.ctl.closed() && w.over(s);
        if ex.ended { assert!(over, "the output ends although its inputs have not ended"); }
        if !ex.runnable() { w.caught_up(s); }
        if ex.waiting() { assert!(!over, "the output is blocked although its inputs have ended"); }
    };
    schedule(&mut ex, &mut |v| w.item(v));
    check(&ex, &mut w, &s);
    for _ in 0..depth {
        if ex.ended { break; }
        let shapes = if s.ctl.closed() { vec![] } else { s.shapes(keys, classes) };
        let (n, x) = (shapes.len(), w.extras(&s));
        let own = if s.ctl.closed() { 0 } else { n + 1 + hiccups as usize };
        if own + x == 0 { break; }
        let c = choose(own + x + 1);
        if c == 0 { break; }
        let c = c - 1;
        if c >= own { w.extra(c - own, &s); }
        else if c < n { s.act(shapes[c]); }
        else if c == n { s.end(); }
        else { note(|| "the next poll of the source yields to itself".into()); s.ctl.hiccup(); s.ctl.spurious_wake(); }
        schedule(&mut ex, &mut |v| w.item(v));
        check(&ex, &mut w, &s);
        state(&(s.cur.iter().map(|(k, v)| (*k, class(*v))).collect::<Vec<_>>(), s.ctl.undelivered(), s.ctl.closed(), ex.waiting(), w.key()));
    }
    ex.run(&mut |v| w.item(v));
    check(&ex, &mut w, &s);
    let source_first = !W::EXTRAS || flip();
    if source_first && !s.ctl.closed() { s.end(); ex.run(&mut |v| w.item(v)); check(&ex, &mut w, &s); }
    while !ex.ended && w.finish() { ex.run(&mut |v| w.item(v)); check(&ex, &mut w, &s); }
    if !s.ctl.closed() { s.end(); ex.run(&mut |v| w.item(v)); check(&ex, &mut w, &s); }
    while !ex.ended && w.finish() { ex.run(&mut |v| w.item(v)); check(&ex, &mut w, &s); }
    assert!(ex.ended, "the output does not end");
    outcome(&(s.cur.iter().map(|(k, v)| (*k, class(*v))).collect::<Vec<_>>(), ex.polls, w.key()));
    ex.drop_out();
    assert!(s.ctl.dropped(), "the source is kept alive");
    w.gone();
}
