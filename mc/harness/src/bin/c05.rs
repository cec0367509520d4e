//! C05: cancelable_future under every interleaving.
use discard::{Discard, DiscardOnDrop};
use futures_signals::{cancelable_future, CancelableFutureHandle};
use mc::conc::*;
use mc::src::*;
use mc::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct In { ready: Cell<bool>, waker: RefCell<Option<Waker>>, dropped: Cell<bool>, done: Cell<bool>, polls: Cell<usize>, hook: RefCell<Option<Box<dyn FnOnce()>>>, hiccup: Cell<bool> }
struct Inner(Rc<(Meta, In)>);
fn inner() -> (Rc<(Meta, In)>, Inner) { let i = Rc::new((Meta::new(), In::default())); (i.clone(), Inner(i)) }
fn point(i: &Rc<(Meta, In)>) { rt::op(Kind::Write, Some(&i.0)); }
impl Future for Inner {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<u32> {
        point(&self.0);
        let i = &self.0 .1;
        i.polls.set(i.polls.get() + 1);
        if i.done.get() { panic!("the inner future is polled after it completed"); }
        let h = i.hook.borrow_mut().take();
        if let Some(h) = h { h() }
        if i.hiccup.replace(false) { cx.waker().wake_by_ref(); return Poll::Pending; }
        let r = if i.ready.get() { i.done.set(true); Poll::Ready(1) } else { let old = i.waker.borrow_mut().replace(cx.waker().clone()); drop(old); Poll::Pending };
        rt::observe(hash_of(&r));
        point(&self.0);
        r
    }
}
impl Drop for Inner { fn drop(&mut self) { self.0 .1.dropped.set(true) } }
fn complete(i: &Rc<(Meta, In)>) {
    point(i);
    i.1.ready.set(true);
    let w = i.1.waker.borrow_mut().take();
    if let Some(w) = w { w.wake() }
}

/// Records when each poll began and how many inner polls it made.
struct Rec<F> { f: Fu<F>, w: World, inner: Rc<(Meta, In)>, polls: Rc<RefCell<Vec<(u64, usize)>>> }
impl<F: Future<Output = u32>> Polled for Rec<F> {
    type Out = u32;
    fn poll_it(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u32>> {
        let t = unsafe { self.get_unchecked_mut() };
        let (at, n) = (t.w.now(), t.inner.1.polls.get());
        let r = unsafe { Pin::new_unchecked(&mut t.f) }.poll_it(cx);
        t.polls.borrow_mut().push((at, t.inner.1.polls.get() - n));
        r
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cancel { Drop, Discard, Leak, Keep }
#[derive(Clone, Copy, Debug)]
struct Sc { cancel: Cancel, completes: bool, spurious: usize, drop_after: usize, hiccup: bool }

fn scenario(sc: Sc, sim: &mut Sim) -> Check {
    let world = World::new();
    let (ctl, fut) = inner();
    ctl.1.hiccup.set(sc.hiccup);
    let calls = Rc::new(Cell::new(0));
    let early = Rc::new(Cell::new(false));
    let (c2, e2, i2) = (calls.clone(), early.clone(), ctl.clone());
    let (handle, fut) = cancelable_future(fut, move || { c2.set(c2.get() + 1); if !i2.1.dropped.get() { e2.set(true); } 2 });
    let log: Shared<u32> = Shared::new();
    let polls = Rc::new(RefCell::new(vec![]));
    let cancelled = Rc::new(Cell::new((u64::MAX, u64::MAX)));
    {
        let (w, log, i, polls) = (world.clone(), log.clone(), ctl.clone(), polls.clone());
        let opt = Opt { spurious: sc.spurious, drop_after: sc.drop_after, first_ready: false };
        sim.thread(move || { let r = Rec { f: Fu(fut, false), w: w.clone(), inner: i, polls }; consume(r, &w, &log, opt, |v| v.to_string()) });
    }
    let mut kept = None;
    match sc.cancel {
        Cancel::Keep => kept = Some(handle),
        c => {
            let (w, cancelled) = (world.clone(), cancelled.clone());
            sim.thread(move || {
                let s = w.step();
                rt::trace(|| format!("{:?} handle", c));
                match c {
                    Cancel::Drop => drop(handle),
                    Cancel::Discard => DiscardOnDrop::leak(handle).discard(),
                    _ => { let _ = DiscardOnDrop::leak(handle); }
                }
                let e = w.step();
                cancelled.set((s, e));
            });
        }
    }
    if sc.completes {
        let (w, i) = (world.clone(), ctl.clone());
        sim.thread(move || { w.step(); rt::trace(|| "inner future becomes ready".into()); complete(&i); });
    }
    Box::new(move |_| {
        let l = log.0.borrow();
        outcome(&(l.vals.clone(), calls.get(), l.stopped));
        let cancels = matches!(sc.cancel, Cancel::Drop | Cancel::Discard);
        need(!early.get(), || "the callback runs before the inner future was dropped".into())?;
        need(calls.get() == l.vals.iter().filter(|v| **v == 2).count(), || format!("the callback ran {} times, output {:?}", calls.get(), l.vals))?;
        need(calls.get() == 0 || cancels, || "cancelled without a discard".into())?;
        need(!l.vals.contains(&1) || ctl.1.done.get(), || "wrong output".into())?;
        if !l.stopped { need(l.vals.len() == (cancels || sc.completes) as usize, || format!("discarded = {}, inner completed = {}, but the output is {:?}", cancels, sc.completes, l.vals))?; }
        let (_, done) = cancelled.get();
        let ps = polls.borrow();
        for (at, n) in ps.iter() {
            if cancels && *at > done {
                need(*n == 0, || "the inner future is polled although it was cancelled before".into())?;
            }
        }
        drop(kept);
        Ok(())
    })
}

fn history(depth: usize) {
    let (ctl, fut) = inner();
    let calls = Rc::new(Cell::new(0usize));
    let (c2, i2) = (calls.clone(), ctl.clone());
    let (handle, fut) = cancelable_future(fut, move || { c2.set(c2.get() + 1); assert!(i2.1.dropped.get(), "the callback runs before the inner future was dropped"); 2 });
    let handle: Rc<RefCell<Option<DiscardOnDrop<CancelableFutureHandle>>>> = Rc::new(RefCell::new(Some(handle)));
    let mut leaked: Option<CancelableFutureHandle> = None;
    let mut ex = Exec::new(Fu(fut, false));
    let cancelled = Rc::new(Cell::new(false));
    let mut waiting: Option<u64> = None;
    let mut result = None;
    let mut hooked = false;
    for _ in 0..depth {
        let mut ops: Vec<u8> = vec![0];
        if ex.exists() && result.is_none() { ops.push(1); ops.push(2); }
        if !ctl.1.ready.get() { ops.push(3); }
        if handle.borrow().is_some() { ops.push(4); ops.push(5); if !hooked && result.is_none() { ops.push(7); } }
        if leaked.is_some() { ops.push(6); }
        if result.is_none() && !ctl.1.hiccup.get() { ops.push(8); }
        let before = ctl.1.polls.get();
        match pick(&ops) {
            0 => break,
            1 => {
                let was = cancelled.get();
                let r = ex.force(&mut |v| result = Some(v));
                note(|| format!("poll -> {:?} {:?}", r, result));
                waiting = None;
                if was {
                    assert_eq!(ctl.1.polls.get(), before, "the inner future is polled although it was cancelled before");
                    assert_eq!(result, Some(2), "a cancelled future does not complete when polled");
                }
                match result {
                    Some(1) => { assert!(ctl.1.done.get()); }
                    Some(2) => assert!(cancelled.get() && calls.get() == 1 && ctl.1.dropped.get(), "cancelled without a discard"),
                    None => { assert!(!ctl.1.done.get(), "the output of the inner future is lost"); if ex.runnable() || cancelled.get() {} else { waiting = Some(ex.task.wakes()); }
                              if cancelled.get() { assert!(ex.runnable(), "cancelled while it is polled, but neither completed nor woken"); } }
                    _ => {}
                }
            }
            2 => { note(|| "drop future".into()); ex.drop_out(); assert!(ctl.1.dropped.get(), "the inner future is kept alive"); waiting = None; }
            3 => { note(|| "inner future becomes ready".into()); complete(&ctl); if let Some(n) = waiting.take() { assert!(ex.task.wakes() > n, "not woken for the inner future"); } }
            4 => {
                note(|| "drop handle".into());
                let h = handle.borrow_mut().take();
                drop(h);
                cancelled.set(true);
                if let Some(n) = waiting.take() { assert!(ex.task.wakes() > n, "a blocked future is not woken by the discard"); }
            }
            5 => { note(|| "leak handle".into()); let h = handle.borrow_mut().take().unwrap(); leaked = Some(DiscardOnDrop::leak(h)); }
            6 => {
                note(|| "discard leaked handle".into());
                leaked.take().unwrap().discard();
                cancelled.set(true);
                if let Some(n) = waiting.take() { assert!(ex.task.wakes() > n, "a blocked future is not woken by the discard"); }
            }
            7 => {
                note(|| "the next inner poll drops the handle".into());
                hooked = true;
                let (h, c) = (handle.clone(), cancelled.clone());
                *ctl.1.hook.borrow_mut() = Some(Box::new(move || { let h = h.borrow_mut().take(); if let Some(h) = h { note(|| "drop handle".into()); drop(h); c.set(true); } }));
            }
            _ => { note(|| "the next inner poll yields to itself".into()); ctl.1.hiccup.set(true); }
        }
        state(&(result, cancelled.get(), ctl.1.ready.get(), ex.exists(), waiting.is_some(), calls.get()));
    }
    if ex.exists() && result.is_none() {
        ex.run(&mut |v| result = Some(v));
        assert_eq!(result.is_some(), cancelled.get() || ctl.1.ready.get(), "completed (discarded {}, inner ready {})", cancelled.get(), ctl.1.ready.get());
    }
    assert_eq!(calls.get(), (result == Some(2)) as usize, "callback runs");
    drop(leaked);
    *ctl.1.hook.borrow_mut() = None;
    outcome(&(result, calls.get(), ctl.1.polls.get()));
}

fn jobs(t: Tier) -> Vec<Job> {
    let mut js: Vec<Job> = vec![];
    for cancel in [Cancel::Drop, Cancel::Discard, Cancel::Leak, Cancel::Keep] { for completes in [false, true] { for spurious in 0..t.pick(4, 5) { for drop_after in 0..t.pick(4, 5) { for hiccup in [false, true] {
        let sc = Sc { cancel, completes, spurious, drop_after, hiccup };
        js.push(conc(format!("{:?}", sc), UNBOUNDED, move |sim| scenario(sc, sim)));
    } } } } }
    let d = t.pick(8, 10);
    js.push(seq(format!("single-threaded histories, depth {}", d), move || history(d)));
    js
}

fn main() {
    mc::main(Spec { property: "C05", assumptions: vec!["sequentially consistent memory".into()], notes: "Real cancelable_future over a scripted inner future; every lock/atomic operation is a scheduling point.".into() }, jobs)
}
