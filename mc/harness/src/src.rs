//! Scripted inputs for the sequential harnesses, and the lazy executor that
//! polls an output only when it was woken.
use crate::conc::Polled;
use crate::{choose, note};
use futures_core::Stream;
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};
pub use mcstd::rt::Parker;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub struct Inner<T> {
    pub name: String,
    pub queue: VecDeque<T>,
    pub closed: bool,
    /// the end was handed out
    pub over: bool,
    pub polls: usize,
    pub taken: usize,
    pub dropped: bool,
    waker: Option<Waker>,
    once: bool,
    /// the next poll is Pending and wakes itself (a cooperative yield)
    hiccup: bool,
}

/// The consumer's end: a Signal, SignalVec, SignalMap, Stream or Future.
pub struct Src<T>(Rc<RefCell<Inner<T>>>);
/// The producer's end.
pub struct Ctl<T>(Rc<RefCell<Inner<T>>>);
impl<T> Clone for Ctl<T> { fn clone(&self) -> Self { Ctl(self.0.clone()) } }
impl<T> std::fmt::Debug for Src<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Src") } }

pub fn source<T>(name: impl Into<String>) -> (Ctl<T>, Src<T>) {
    let i = Rc::new(RefCell::new(Inner { name: name.into(), queue: VecDeque::new(), closed: false, over: false, polls: 0, taken: 0, dropped: false, waker: None, once: false, hiccup: false }));
    (Ctl(i.clone()), Src(i))
}
/// A source with a first item, as the contract of signals demands.
pub fn source_with<T>(name: impl Into<String>, v: T) -> (Ctl<T>, Src<T>) {
    let (c, s) = source(name);
    c.0.borrow_mut().queue.push_back(v);
    (c, s)
}

impl<T> Drop for Src<T> { fn drop(&mut self) { let mut i = self.0.borrow_mut(); i.dropped = true; let w = i.waker.take(); drop(i); drop(w); } }
impl<T> Unpin for Src<T> {}

impl<T> Ctl<T> {
    fn wake(&self) { let w = self.0.borrow_mut().waker.take(); if let Some(w) = w { w.wake() } }
    /// Adds an item (delivered by one poll each).
    pub fn push(&self, v: T) { let mut i = self.0.borrow_mut(); assert!(!i.closed, "harness: push after end"); i.queue.push_back(v); drop(i); self.wake(); }
    /// Replaces undelivered items: only the most recent one is left.
    pub fn set(&self, v: T) { { let mut i = self.0.borrow_mut(); i.queue.clear(); } self.push(v) }
    pub fn end(&self) { { let mut i = self.0.borrow_mut(); i.closed = true; } self.wake() }
    pub fn closed(&self) -> bool { self.0.borrow().closed }
    pub fn over(&self) -> bool { self.0.borrow().over }
    pub fn dropped(&self) -> bool { self.0.borrow().dropped }
    pub fn polls(&self) -> usize { self.0.borrow().polls }
    pub fn taken(&self) -> usize { self.0.borrow().taken }
    pub fn undelivered(&self) -> usize { self.0.borrow().queue.len() }
    /// The next poll returns Pending whatever there is, and wakes its waker during the poll.
    pub fn hiccup(&self) { self.0.borrow_mut().hiccup = true; }
    pub fn will_yield(&self) -> bool { self.0.borrow().hiccup }
    pub fn spurious_wake(&self) { self.wake() }
}
impl<T> Src<T> {
    fn next(&mut self, cx: &mut Context) -> Poll<Option<T>> {
        let mut i = self.0.borrow_mut();
        i.polls += 1;
        if i.over { let n = i.name.clone(); drop(i); panic!("input {} is polled again after it has ended", n); }
        if i.hiccup { i.hiccup = false; drop(i); cx.waker().wake_by_ref(); return Poll::Pending; }
        if let Some(v) = i.queue.pop_front() {
            i.taken += 1;
            if i.once { i.over = true; }
            return Poll::Ready(Some(v));
        }
        if i.closed { i.over = true; i.waker = None; return Poll::Ready(None); }
        let old = i.waker.replace(cx.waker().clone());
        drop(i);
        drop(old);
        Poll::Pending
    }
}
impl<T> Signal for Src<T> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> { self.next(cx) }
}
impl<T> Stream for Src<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> { self.next(cx) }
}
pub struct VSrc<T>(pub Src<VecDiff<T>>);
impl<T> SignalVec for VSrc<T> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> { self.0.next(cx) }
}
pub struct MSrc<K, V>(pub Src<MapDiff<K, V>>);
impl<K, V> SignalMap for MSrc<K, V> {
    type Key = K;
    type Value = V;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<K, V>>> { self.0.next(cx) }
}
pub struct FSrc<T>(pub Src<T>);
impl<T> Future for FSrc<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<T> {
        match self.0.next(cx) {
            Poll::Ready(Some(v)) => Poll::Ready(v),
            Poll::Ready(None) => panic!("harness: future source closed"),
            Poll::Pending => Poll::Pending,
        }
    }
}
/// A future completed by `push`.
pub fn future<T>(name: impl Into<String>) -> (Ctl<T>, FSrc<T>) {
    let (c, s) = source(name);
    c.0.borrow_mut().once = true;
    (c, FSrc(s))
}

// ------------------------------------------------------------ lazy executor

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step { Item, End, Pending, Idle }

/// Polls `out` the way an executor does.
pub struct Exec<P: Polled> {
    out: Option<Pin<Box<P>>>,
    pub task: Parker,
    started: bool,
    ready: bool,
    pub ended: bool,
    pub polls: usize,
    pub last_pending: bool,
}

impl<P: Polled> Exec<P> {
    pub fn new(out: P) -> Self {
        Exec { out: Some(Box::pin(out)), task: Parker::new(), started: false, ready: true, ended: false, polls: 0, last_pending: false }
    }
    /// true if an executor would poll it now
    pub fn runnable(&self) -> bool { !self.ended && (self.ready || self.task.woken()) }
    pub fn waiting(&self) -> bool { !self.ended && !self.runnable() }
    /// Polls once, whether woken or not.
    pub fn force(&mut self, f: &mut dyn FnMut(P::Out)) -> Step {
        if self.ended { return Step::Idle; }
        let w = self.task.fresh();
        self.polls += 1;
        let first = !self.started;
        self.started = true;
        let _ = first;
        let r = self.out.as_mut().unwrap().as_mut().poll_it(&mut Context::from_waker(&w));
        self.last_pending = false;
        match r {
            Poll::Ready(Some(v)) => { self.ready = true; f(v); Step::Item }
            Poll::Ready(None) => { self.ended = true; note(|| "output: end".into()); Step::End }
            Poll::Pending => { self.ready = false; self.last_pending = true; note(|| "output: Pending".into()); Step::Pending }
        }
    }
    /// Polls once if an executor would.
    pub fn one(&mut self, f: &mut dyn FnMut(P::Out)) -> Step { if self.runnable() { self.force(f) } else { Step::Idle } }
    /// Polls until it is Pending without having been woken, or ended.
    pub fn run(&mut self, f: &mut dyn FnMut(P::Out)) -> Step {
        let mut last = Step::Idle;
        let mut n = 0;
        while self.runnable() {
            last = self.force(f);
            n += 1;
            if n > 20_000 { panic!("the output never stops being ready"); }
        }
        last
    }
    pub fn exists(&self) -> bool { self.out.is_some() }
    pub fn drop_out(&mut self) { self.out = None; self.ended = true; }
}

/// Chooses how much the executor runs: not at all, one poll, to quiescence, or one poll without a wake-up.
pub fn schedule<P: Polled>(e: &mut Exec<P>, f: &mut dyn FnMut(P::Out)) -> Step {
    if e.ended { return Step::Idle; }
    if e.runnable() {
        match choose(3) {
            0 => { note(|| "run".into()); e.run(f) }
            1 => { note(|| "poll once".into()); e.one(f) }
            _ => Step::Idle,
        }
    } else {
        match choose(2) {
            0 => Step::Idle,
            _ => { note(|| "poll without wake-up".into()); let s = e.force(f); if s == Step::Item { s } else { s } }
        }
    }
}
