//! Driver for consumers of one scripted signal vec.
use crate::conc::Polled;
use crate::model::apply;
use crate::src::*;
use crate::*;
use futures_signals::signal_vec::VecDiff;

/// A value: `class` (0..8) decides what callbacks see, the rest makes it unique.
pub type V = u32;
pub fn class(v: V) -> u32 { v % 8 }

/// A scripted signal vec with its reference contents.
pub struct VecIn {
    pub ctl: Ctl<VecDiff<V>>,
    pub cur: Vec<V>,
    /// every value ever put into a diff
    pub put: Vec<V>,
    /// removed (not overwritten by an UpdateAt), in the order of removal
    pub gone: Vec<V>,
    /// every diff
    pub sent: Vec<String>,
    serial: u32,
}
impl VecIn {
    pub fn new(name: &str) -> (VecIn, VSrc<V>) { let (ctl, s) = source(name); (VecIn { ctl, cur: vec![], put: vec![], gone: vec![], sent: vec![], serial: 0 }, VSrc(s)) }
    pub fn numbered(name: &str, start: u32) -> (VecIn, VSrc<V>) { let (mut a, s) = VecIn::new(name); a.serial = start; (a, s) }
    pub fn value(&mut self, class: u32) -> V { self.serial += 1; let v = self.serial * 8 + class; self.put.push(v); v }
    pub fn send(&mut self, d: VecDiff<V>) { note(|| format!("source sends {:?}", d)); 
        self.sent.push(format!("{:?}", d));
        let old = self.cur.clone();
        apply(&mut self.cur, d.clone());
        if !matches!(d, VecDiff::UpdateAt { .. }) { for v in old { if !self.cur.contains(&v) { self.gone.push(v) } } }
        self.ctl.push(d);
    }
    pub fn replace(&mut self, classes: &[u32]) { let values = classes.iter().map(|c| self.value(*c)).collect(); self.send(VecDiff::Replace { values }); }
    /// All diffs that are valid now.
    pub fn shapes(&self, classes: u32, maxlen: usize) -> Vec<Shape> {
        let n = self.cur.len();
        let mut o = vec![Shape::Clear];
        let at = indexes(n, maxlen);
        if n < maxlen { for c in 0..classes { o.push(Shape::Push(c)); for &i in at.iter().chain(&[n]) { o.push(Shape::Insert(i, c)); } } }
        for &i in &at { for c in 0..classes { o.push(Shape::Update(i, c)); } o.push(Shape::Remove(i)); for &j in &at { o.push(Shape::Move(i, j)); } }
        if maxlen >= LARGE { o.push(Shape::Replace(maxlen - 4, 0)); }
        if n > 0 { o.push(Shape::Pop); }
        o.push(Shape::Replace(0, 0));
        for c in 0..classes { o.push(Shape::Replace(1, c)); }
        o.push(Shape::Replace(2, 0));
        if classes > 1 { o.push(Shape::Replace(2, 1)); }
        o
    }
    pub fn act(&mut self, s: Shape) {
        let d = match s {
            Shape::Clear => VecDiff::Clear {}, Shape::Pop => VecDiff::Pop {}, Shape::Push(c) => VecDiff::Push { value: self.value(c) },
            Shape::Insert(index, c) => VecDiff::InsertAt { index, value: self.value(c) }, Shape::Update(index, c) => VecDiff::UpdateAt { index, value: self.value(c) },
            Shape::Remove(index) => VecDiff::RemoveAt { index }, Shape::Move(old_index, new_index) => VecDiff::Move { old_index, new_index },
            Shape::Replace(n, c) => VecDiff::Replace { values: match n { 0 => vec![], 1 => vec![self.value(c)], 2 => vec![self.value(c), self.value(1 - c)], n => pattern(n, 2).iter().map(|c| self.value(*c)).collect() } },
        };
        self.send(d)
    }
    pub fn end(&mut self) { note(|| "source ends".into()); self.ctl.end() }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape { Clear, Pop, Push(u32), Insert(usize, u32), Update(usize, u32), Remove(usize), Move(usize, usize), Replace(usize, u32) }

/// From this `maxlen` on, only some indexes are tried.
pub const LARGE: usize = 16;
pub fn indexes(n: usize, maxlen: usize) -> Vec<usize> {
    if maxlen < LARGE || n < 6 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] }
}
/// Classes of the elements of a large vec.
pub fn pattern(n: usize, classes: u32) -> Vec<u32> { (0..n as u32).map(|i| (i * 5 + i / 3) % classes).collect() }

/// The observer of one consumer of a signal vec.
pub trait Watch {
    type P: Polled;
    fn make(src: VSrc<V>) -> (Self, Self::P) where Self: Sized;
    fn item(&mut self, v: <Self::P as Polled>::Out);
    /// before the output is polled
    fn before(&mut self, _src: &VecIn) {}
    /// the output is blocked (or ended): everything must be up to date
    fn caught_up(&mut self, src: &VecIn);
    /// after every step
    fn step(&mut self, _src: &VecIn) {}
    /// after the first poll
    fn first(&mut self) {}
    fn key(&self) -> u64 { 0 }
    /// events of the environment besides those of the source
    fn extras(&self, _src: &VecIn) -> usize { 0 }
    fn extra(&mut self, _n: usize, _src: &VecIn) {}
    /// given that the source has ended: has everything else that the output waits for?
    fn over(&self, _src: &VecIn) -> bool { true }
    /// make everything else end
    fn finish(&mut self, _src: &VecIn) {}
    /// as long as it returns true: more is needed to end
    fn finish_more(&mut self) -> bool { false }
    const EXTRAS: bool = false;
    /// after the output was dropped
    fn gone(&mut self) {}
}

#[derive(Clone, Copy)]
pub struct Bounds { pub depth: usize, pub classes: u32, pub maxlen: usize, pub hiccups: bool }

pub const STARTS: &[&[u32]] = &[&[], &[9], &[0], &[1], &[0, 1], &[1, 0], &[0, 0], &[1, 0, 1], &[0, 1, 0], &[0, 1, 1, 0]];

/// `start`: 9 stands for an empty Replace.
pub fn unary<W: Watch>(b: Bounds, start: &[u32]) {
    let (mut s, src) = VecIn::new("source");
    let (mut w, p) = W::make(src);
    let mut ex = Exec::new(p);
    if !start.is_empty() { s.replace(if start == [9] { &[] } else { start }); }
    let check = |ex: &Exec<W::P>, w: &mut W, s: &VecIn| {
        w.step(s);
        if ex.polls == 1 { w.first(); }
        let over = s.ctl.closed() && w.over(s);
        if ex.ended { assert!(over, "the output ends although its inputs have not ended"); }
        if !ex.runnable() { w.caught_up(s); }
        if ex.waiting() { assert!(!over, "the output is blocked although its inputs have ended"); }
    };
    w.before(&s);
        schedule(&mut ex, &mut |v| w.item(v));
    check(&ex, &mut w, &s);
    for _ in 0..b.depth {
        let shapes = if s.ctl.closed() { vec![] } else { s.shapes(b.classes, b.maxlen) };
        let (n, x) = (shapes.len(), w.extras(&s));
        let own = if s.ctl.closed() { 0 } else { n + 1 + b.hiccups as usize };
        if own + x == 0 { break; }
        let c = choose(own + x + 1);
        if c == 0 { break; }
        let c = c - 1;
        if c >= own { w.extra(c - own, &s); }
        else if c < n { s.act(shapes[c]); }
        else if c == n { s.end(); }
        else { note(|| "the next poll of the source yields to itself".into()); s.ctl.hiccup(); s.ctl.spurious_wake(); }
        w.before(&s);
        schedule(&mut ex, &mut |v| w.item(v));
        check(&ex, &mut w, &s);
        state(&(s.cur.iter().map(|v| class(*v)).collect::<Vec<_>>(), s.ctl.undelivered(), s.ctl.closed(), ex.waiting(), w.key()));
    }
    w.before(&s); ex.run(&mut |v| w.item(v));
    check(&ex, &mut w, &s);
    let source_first = !W::EXTRAS || flip();
    if source_first && !s.ctl.closed() { s.end(); w.before(&s); ex.run(&mut |v| w.item(v)); check(&ex, &mut w, &s); }
    w.finish(&s);
    w.before(&s); ex.run(&mut |v| w.item(v));
    check(&ex, &mut w, &s);
    if !s.ctl.closed() { s.end(); w.before(&s); ex.run(&mut |v| w.item(v)); check(&ex, &mut w, &s); }
    while w.finish_more() { w.before(&s); ex.run(&mut |v| w.item(v)); check(&ex, &mut w, &s); }
    assert!(ex.ended, "the output does not end");
    outcome(&(s.cur.iter().map(|v| class(*v)).collect::<Vec<_>>(), ex.polls, w.key()));
    ex.drop_out();
    assert!(s.ctl.dropped(), "the source is kept alive");
    w.gone();
}

pub const STARTS1: &[&[u32]] = &[&[], &[9], &[0], &[0, 0], &[0, 0, 0], &[0, 0, 0, 0]];
pub const STARTS3: &[&[u32]] = &[&[], &[0, 1, 2], &[2, 1, 0], &[1, 2, 2, 0]];

/// Large vecs (index arithmetic, growth and sorting algorithms may depend on the size): one job per size.
pub fn unary_large<W: Watch + 'static>(js: &mut Vec<Job>, name: &str, classes: u32, sizes: &[(usize, usize)]) {
    for &(n, depth) in sizes {
        let b = Bounds { depth, classes, maxlen: n + 4, hiccups: false };
        js.push(seq(format!("{}, {} elements, depth {}, {} classes", name, n, depth, classes), move || unary::<W>(b, &pattern(n, classes))));
    }
}

/// One job per start.
pub fn unary_jobs<W: Watch + 'static>(js: &mut Vec<Job>, name: &str, b: Bounds, starts: &'static [&'static [u32]]) {
    for st in starts { if st.len() <= b.maxlen { js.push(seq(format!("{}, start {:?}, depth {}, {} classes{}", name, st, b.depth, b.classes, if b.hiccups { ", self-waking polls" } else { "" }), move || unary::<W>(b, st))); } }
}
