//! Controlled scheduler: every modelled thread is a coroutine; every operation
//! on a hooked primitive is a scheduling point at which the explorer decides
//! which thread goes on.
//!
//! Partial-order reduction: a state is identified by its happens-before
//! history (one hash per thread over its operations and, recursively, over the
//! operations it observed on each object).  A state already explored with at
//! least the same remaining preemption budget is not branched from again.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Wake, Waker};

pub const UNBOUNDED: u32 = 200;
const SOLO: usize = 15;
const STEP_LIMIT: usize = 100_000;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

/// Identity and bookkeeping of one synchronisation object.
#[derive(Default)]
pub struct Meta {
    id: AtomicU64,
    exec: AtomicU64,
    whash: AtomicU64,
    rsum: AtomicU64,
    writer: AtomicBool,
    readers: AtomicU32,
}

impl Meta {
    pub const fn new() -> Self {
        Meta {
            id: AtomicU64::new(0),
            exec: AtomicU64::new(0),
            whash: AtomicU64::new(0),
            rsum: AtomicU64::new(0),
            writer: AtomicBool::new(false),
            readers: AtomicU32::new(0),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Start,
    Read,
    Write,
    LockX,
    LockR,
    Park,
    Yield,
}

#[derive(Clone, Copy)]
struct Op {
    kind: Kind,
    meta: *const Meta,
    flag: *const ParkInner,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Live,
    Done,
    Dead,
}

struct Th {
    status: Status,
    op: Op,
    hash: u64,
    objs: u64,
    steps: u64,
    yielded: bool,
    /// looked at a reference count since its last operation
    looked: bool,
    was_parked: bool,
    held_r: Vec<u64>,
    yielder: *const Yielder<(), ()>,
}

#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub chosen: u16,
    pub n: u16,
    /// alternatives > 0 cost one preemption
    pub costly: bool,
    /// number of alternatives that must be explored (1 = none besides `chosen`)
    pub branch: u16,
}

pub struct Exec {
    id: u64,
    th: Vec<Th>,
    cur: usize,
    next: usize,
    solo: bool,
    shutdown: bool,
    pruned: bool,
    prefix: Vec<u16>,
    trace: Vec<Choice>,
    used: u32,
    budget: u32,
    visited: *const Visited,
    salt: u64,
    steps: usize,
    violation: Option<String>,
    internal: Option<String>,
    log: Option<Vec<String>>,
}

thread_local! {
    static CUR: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static EXEC_ID: Cell<u64> = const { Cell::new(0) };
}

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, v: u64) { self.0 = v; }
}
#[derive(Default, Clone, Copy)]
pub struct BuildId;
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdHash;
    fn build_hasher(&self) -> IdHash { IdHash(0) }
}

/// Fingerprints of visited states with the largest remaining budget.
pub struct Visited {
    shards: Vec<Mutex<HashMap<u64, u32, BuildId>>>,
    pub enabled: bool,
}
impl Visited {
    pub fn new(enabled: bool) -> Self {
        Visited { shards: (0..32).map(|_| Mutex::new(HashMap::default())).collect(), enabled }
    }
    /// true if it was already covered
    fn seen(&self, fp: u64, left: u32) -> bool {
        let mut m = self.shards[(fp >> 59) as usize].lock().unwrap();
        match m.get_mut(&fp) {
            Some(v) if *v >= left => self.enabled,
            Some(v) => { *v = left; false }
            None => { m.insert(fp, left); false }
        }
    }
    pub fn len(&self) -> usize { self.shards.iter().map(|s| s.lock().unwrap().len()).sum() }
    pub fn clear(&self) { for s in &self.shards { *s.lock().unwrap() = HashMap::default(); } }
}

impl Exec {
    fn object_id(&mut self, m: &Meta) -> u64 {
        if m.exec.load(Relaxed) == self.id {
            return m.id.load(Relaxed);
        }
        let t = &mut self.th[self.cur];
        t.objs += 1;
        let id = mix(0x0b7 + self.cur as u64, t.objs);
        m.exec.store(self.id, Relaxed);
        m.id.store(id, Relaxed);
        m.whash.store(0, Relaxed);
        m.rsum.store(0, Relaxed);
        id
    }

    fn enabled(&self, i: usize) -> bool {
        let t = &self.th[i];
        if t.status != Status::Live { return false; }
        match t.op.kind {
            Kind::Start | Kind::Read | Kind::Write => true,
            Kind::Yield => !t.yielded,
            Kind::LockX => {
                let m = unsafe { &*t.op.meta };
                !m.writer.load(Relaxed) && m.readers.load(Relaxed) == 0
            }
            Kind::LockR => {
                let m = unsafe { &*t.op.meta };
                if m.writer.load(Relaxed) { return false; }
                // std's RwLock blocks new readers while a writer waits: only a
                // recursive read can dead-lock because of it.
                let id = m.id.load(Relaxed);
                if t.held_r.contains(&id) {
                    for (j, u) in self.th.iter().enumerate() {
                        if j != i && u.status == Status::Live && u.op.kind == Kind::LockX && u.op.meta == t.op.meta {
                            return false;
                        }
                    }
                }
                true
            }
            Kind::Park => unsafe { (*t.op.flag).set.get() },
        }
    }

    fn fingerprint(&self) -> u64 {
        let mut h = mix(self.salt, if self.budget >= UNBOUNDED { 0 } else { self.cur as u64 + 1 });
        for t in &self.th[..self.th.len()] {
            h = mix(h, t.hash);
            let o = if t.op.meta.is_null() { 0 } else { unsafe {
                let m = &*t.op.meta;
                if m.exec.load(Relaxed) == self.id { m.id.load(Relaxed) } else { 1 } } };
            h = mix(h, (t.status as u64) << 16 | (t.op.kind as u64) << 8 | t.yielded as u64);
            h = mix(h, o);
            if t.op.kind == Kind::Park && t.status == Status::Live {
                h = mix(h, unsafe { (*t.op.flag).set.get() } as u64);
            }
        }
        h
    }

    fn choice(&mut self, n: usize, costly: bool) -> usize {
        debug_assert!(n >= 2);
        let i = self.trace.len();
        let (chosen, branch);
        if i < self.prefix.len() {
            chosen = self.prefix[i] as usize;
            branch = 1;
            if chosen >= n {
                self.internal = Some(format!("replay diverged: choice {} of {} at point {}", chosen, n, i));
                self.trace.push(Choice { chosen: 0, n: n as u16, costly, branch: 1 });
                return 0;
            }
        } else {
            chosen = 0;
            let left = self.budget.saturating_sub(self.used);
            if !self.pruned {
                let fp = self.fingerprint();
                if unsafe { (*self.visited).seen(fp, if self.budget >= UNBOUNDED { UNBOUNDED } else { left }) } {
                    self.pruned = true;
                }
            }
            branch = if self.pruned || (costly && left == 0) { 1 } else { n as u16 };
        }
        if costly && chosen > 0 && self.budget < UNBOUNDED { self.used += 1; }
        self.trace.push(Choice { chosen: chosen as u16, n: n as u16, costly, branch });
        chosen
    }

    /// Picks the thread to go on with; usize::MAX ends the run.
    fn decide(&mut self) -> usize {
        if self.violation.is_some() || self.internal.is_some() { return usize::MAX; }
        self.steps += 1;
        if self.steps > STEP_LIMIT {
            self.violation = Some("no progress: step limit reached (livelock)".into());
            return usize::MAX;
        }
        let mut en = [0usize; 16];
        let mut n = 0;
        let cur_on = self.cur < SOLO && self.enabled(self.cur);
        if cur_on { en[0] = self.cur; n = 1; }
        for i in 0..SOLO.min(self.th.len()) {
            if i != self.cur && self.enabled(i) { en[n] = i; n += 1; }
        }
        if n == 0 {
            // a thread that yielded may go on when nobody else can
            for i in 0..SOLO.min(self.th.len()) {
                if self.th[i].status == Status::Live && self.th[i].op.kind == Kind::Yield { self.th[i].yielded = false; return i; }
            }
            let live: Vec<usize> = (0..SOLO.min(self.th.len())).filter(|i| self.th[*i].status == Status::Live).collect();
            if live.iter().any(|i| self.th[*i].op.kind != Kind::Park) {
                let d: Vec<String> = live.iter().map(|i| format!("thread {} waits for {:?}", i, self.th[*i].op.kind)).collect();
                self.violation = Some(format!("deadlock: {}", d.join(", ")));
            }
            return usize::MAX;
        }
        if n == 1 { return en[0]; }
        let c = self.choice(n, cur_on);
        en[c]
    }

    fn note(&mut self, kind: Kind, meta: Option<&Meta>, what: &str) {
        let idm = meta.map(|m| self.object_id(m)).unwrap_or(0);
        let c = self.cur;
        if let Some(l) = &mut self.log {
            l.push(format!("t{} {}{:?} {}", c, what, kind, if idm == 0 { String::new() } else { format!("#{:04x}", idm & 0xffff) }));
        }
        let t = &mut self.th[c];
        t.steps += 1;
        let mut h = mix(t.hash, kind as u64 + 1);
        if let Some(m) = meta {
            h = mix(h, idm);
            h = mix(h, m.whash.load(Relaxed));
            match kind {
                Kind::Read | Kind::LockR => {
                    m.rsum.store(m.rsum.load(Relaxed).wrapping_add(mix(h, 7)), Relaxed);
                }
                _ => {
                    h = mix(h, m.rsum.load(Relaxed));
                    m.whash.store(h, Relaxed);
                    m.rsum.store(0, Relaxed);
                }
            }
        }
        t.hash = h;
    }
}

#[inline]
fn cur() -> *mut Exec { CUR.with(|c| c.get()) }

/// true while a scheduler drives this OS thread
pub fn active() -> bool { !cur().is_null() }

/// A scheduling point. Returns once the operation may be carried out.
/// Returns false if the operation can not be carried out (solo mode, lock held).
pub fn op(kind: Kind, meta: Option<&Meta>) -> bool {
    let p = cur();
    if p.is_null() { return true; }
    op_full(p, kind, meta, std::ptr::null())
}

fn op_full(p: *mut Exec, kind: Kind, meta: Option<&Meta>, flag: *const ParkInner) -> bool {
    unsafe {
        let e = &mut *p;
        let mp = meta.map(|m| m as *const Meta).unwrap_or(std::ptr::null());
        let c = e.cur;
        if let Some(m) = meta { e.object_id(m); }
        if e.solo {
            let ok = match kind {
                Kind::LockX => { let m = &*mp; !m.writer.load(Relaxed) && m.readers.load(Relaxed) == 0 }
                Kind::LockR => { let m = &*mp; !m.writer.load(Relaxed) }
                _ => true,
            };
            e.note(kind, meta, "");
            return ok;
        }
        e.th[c].op = Op { kind, meta: mp, flag };
        e.th[c].looked = false;
        if kind == Kind::Yield { e.th[c].yielded = true; }
        if std::thread::panicking() {
            if !e.enabled(c) {
                if e.violation.is_none() {
                    e.violation = Some("a panicking thread blocks forever".into());
                }
                e.th[c].status = Status::Dead;
                e.next = usize::MAX;
                loop { (*e.th[c].yielder).suspend(()); }
            }
        } else {
            let n = e.decide();
            if n != c {
                e.next = n;
                (*e.th[c].yielder).suspend(());
            }
        }
        let e = &mut *p;
        if !e.shutdown {
            for (j, u) in e.th.iter_mut().enumerate() { if j != c { u.yielded = false; } }
        }
        e.note(kind, meta, "");
        true
    }
}

pub fn yield_now() { op(Kind::Yield, None); }

pub(crate) fn locked(m: &Meta, x: bool) {
    if x { m.writer.store(true, Relaxed) } else {
        m.readers.store(m.readers.load(Relaxed) + 1, Relaxed);
        let p = cur();
        if !p.is_null() { unsafe { let e = &mut *p; let c = e.cur; e.th[c].held_r.push(m.id.load(Relaxed)); } }
    }
}
pub(crate) fn unlocked(m: &Meta, x: bool) {
    let p = cur();
    if x { m.writer.store(false, Relaxed) } else { m.readers.store(m.readers.load(Relaxed) - 1, Relaxed); }
    if p.is_null() { return; }
    unsafe {
        let e = &mut *p;
        let id = e.object_id(m);
        let c = e.cur;
        if !x {
            // a guard may be released by another modelled thread than the acquirer only if it was moved: guards are !Send
            if let Some(k) = e.th[c].held_r.iter().rposition(|v| *v == id) { e.th[c].held_r.remove(k); }
        }
        let h = mix(e.th[c].hash, 0x0410c + x as u64);
        if x { m.whash.store(mix(h, m.whash.load(Relaxed)), Relaxed); m.rsum.store(0, Relaxed); }
        else { m.rsum.store(m.rsum.load(Relaxed).wrapping_add(mix(h, 9)), Relaxed); }
        if let Some(l) = &mut e.log { l.push(format!("t{} unlock #{:04x}", c, id & 0xffff)); }
    }
}

/// Runs `f` outside of the exploration (no scheduling points, no bookkeeping).
pub fn unhooked<R>(f: impl FnOnce() -> R) -> R {
    let p = CUR.with(|c| c.replace(std::ptr::null_mut()));
    let r = f();
    CUR.with(|c| c.set(p));
    r
}

/// A look at a reference count is a scheduling point if it follows another one directly (otherwise, what
/// is between two looks is one already).
pub fn look() {
    let p = cur();
    if p.is_null() { return; }
    unsafe {
        let c = (*p).cur;
        if (*p).th[c].looked { op(Kind::Write, None); }
        (*p).th[c].looked = true;
    }
}

/// Records an observation of the running thread in its history.
pub fn observe(v: u64) {
    let p = cur();
    if p.is_null() { return; }
    unsafe { let e = &mut *p; let c = e.cur; e.th[c].hash = mix(e.th[c].hash, v ^ 0x0b5e); }
}

/// Annotates the log of a replay.
pub fn trace(f: impl FnOnce() -> String) {
    let p = cur();
    if p.is_null() { return; }
    unsafe { let e = &mut *p; let c = e.cur; if e.log.is_some() { let s = f(); e.log.as_mut().unwrap().push(format!("t{} {}", c, s)); } }
}

/// A data choice (costs no preemption).
pub fn choose(n: usize) -> usize {
    if n < 2 { return 0; }
    let p = cur();
    assert!(!p.is_null(), "choose outside an exploration");
    unsafe {
        let e = &mut *p;
        let k = e.choice(n, false);
        let c = e.cur;
        e.th[c].hash = mix(e.th[c].hash, 0xc0 + k as u64);
        k
    }
}

/// Reports a violation from inside a modelled thread.
pub fn fail(msg: String) {
    let p = cur();
    assert!(!p.is_null());
    unsafe { let e = &mut *p; if e.violation.is_none() { e.violation = Some(msg); } }
}

/// Index of the running modelled thread.
pub fn me() -> usize { unsafe { (*cur()).cur } }

// ---- parking -------------------------------------------------------------

pub struct ParkInner { meta: Meta, set: Cell<bool>, gen: Cell<u64>, wakes: Cell<u64>, all_wakes: Cell<u64> }
unsafe impl Send for ParkInner {}
unsafe impl Sync for ParkInner {}

/// The task of a modelled thread that polls: parks until its newest waker is woken.
#[derive(Clone)]
pub struct Parker(Arc<ParkInner>);

struct TaskWaker { p: Arc<ParkInner>, gen: u64 }
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) {
        op(Kind::Write, Some(&self.p.meta));
        self.p.all_wakes.set(self.p.all_wakes.get() + 1);
        if self.gen == self.p.gen.get() {
            self.p.set.set(true);
            self.p.wakes.set(self.p.wakes.get() + 1);
        }
        trace(|| format!("wake (handle {}, newest {})", self.gen, self.p.gen.get()));
    }
}

impl Parker {
    pub fn new() -> Self {
        Parker(Arc::new(ParkInner { meta: Meta::new(), set: Cell::new(false), gen: Cell::new(0), wakes: Cell::new(0), all_wakes: Cell::new(0) }))
    }
    /// A fresh waker for the next poll; older ones no longer count.
    pub fn fresh(&self) -> Waker {
        self.0.gen.set(self.0.gen.get() + 1);
        self.0.set.set(false);
        Waker::from(Arc::new(TaskWaker { p: self.0.clone(), gen: self.0.gen.get() }))
    }
    /// A second handle to the current task (same generation).
    pub fn again(&self) -> Waker {
        Waker::from(Arc::new(TaskWaker { p: self.0.clone(), gen: self.0.gen.get() }))
    }
    pub fn woken(&self) -> bool { self.0.set.get() }
    pub fn wakes(&self) -> u64 { self.0.wakes.get() }
    pub fn all_wakes(&self) -> u64 { self.0.all_wakes.get() }
    /// Waits for a wake of the newest waker. false: nothing will ever wake it.
    pub fn park(&self) -> bool {
        let p = cur();
        if p.is_null() { return self.0.set.replace(false); }
        unsafe {
            if (*p).solo { return self.0.set.replace(false); }
            op_full(p, Kind::Park, Some(&self.0.meta), &*self.0);
            if (*p).shutdown { return false; }
        }
        self.0.set.replace(false)
    }
}

// ---- one execution --------------------------------------------------------

pub struct Sim { bodies: Vec<Box<dyn FnOnce()>> }
impl Sim {
    pub fn thread(&mut self, f: impl FnOnce() + 'static) { self.bodies.push(Box::new(f)); }
}

pub struct End { pub parked: Vec<bool> }
pub type Check = Box<dyn FnOnce(&End) -> Result<(), String>>;

pub struct RunOut {
    pub trace: Vec<Choice>,
    pub violation: Option<String>,
    pub internal: Option<String>,
    pub steps: usize,
    pub used: u32,
    pub log: Vec<String>,
}

fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".into() }
}

fn no_op() -> Op { Op { kind: Kind::Start, meta: std::ptr::null(), flag: std::ptr::null() } }

pub fn run(prefix: &[u16], budget: u32, visited: &Visited, salt: u64, want_log: bool,
           scenario: &dyn Fn(&mut Sim) -> Check) -> RunOut {
    let id = EXEC_ID.with(|c| { c.set(c.get() + 1); c.get() });
    let mk = |_: usize| Th { status: Status::Live, op: no_op(), hash: 0, objs: 0, steps: 0, yielded: false, looked: false,
        was_parked: false, held_r: vec![], yielder: std::ptr::null() };
    let mut ex = Box::new(Exec {
        id, th: (0..16).map(mk).collect(), cur: SOLO, next: usize::MAX, solo: true, shutdown: false, pruned: false,
        prefix: prefix.to_vec(), trace: Vec::with_capacity(64), used: 0, budget, visited, salt, steps: 0,
        violation: None, internal: None, log: if want_log { Some(vec![]) } else { None },
    });
    for t in ex.th.iter_mut() { t.status = Status::Done; }
    let p: *mut Exec = &mut *ex;
    CUR.with(|c| c.set(p));
    let mut sim = Sim { bodies: vec![] };
    let set_up = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scenario(&mut sim)));
    let check = match set_up {
        Ok(c) => Some(c),
        Err(e) => { unsafe { (*p).violation = Some(format!("panic in setup: {}", panic_text(&e))) }; None }
    };
    let mut end = End { parked: vec![] };
    let mut leaked = false;
    if check.is_some() {
        let n = sim.bodies.len();
        let mut cos: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = vec![];
        for (i, b) in sim.bodies.into_iter().enumerate() {
            let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 * 1024).expect("stack"));
            unsafe {
                let e = &mut *p;
                e.th[i].status = Status::Live;
                e.th[i].hash = mix(e.th[SOLO].hash, i as u64);
            }
            cos.push(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, _| {
                unsafe { (*p).th[i].yielder = y; }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                if let Err(er) = r {
                    unsafe { let e = &mut *p; if e.violation.is_none() {
                        e.violation = Some(format!("thread {} panicked: {}", i, panic_text(&er))); } }
                }
            })));
        }
        unsafe {
            (*p).solo = false;
            let mut next = (*p).decide();
            while next != usize::MAX {
                (*p).cur = next;
                match cos[next].as_mut().unwrap().resume(()) {
                    CoroutineResult::Yield(()) => next = (*p).next,
                    CoroutineResult::Return(()) => {
                        (*p).th[next].status = Status::Done;
                        let st = cos[next].take().unwrap().into_stack();
                        STACKS.with(|s| s.borrow_mut().push(st));
                        next = (*p).decide();
                    }
                }
            }
            end.parked = (0..n).map(|i| (*p).th[i].status == Status::Live).collect();
            if (*p).violation.is_none() && (*p).internal.is_none() {
                (*p).solo = true;
                (*p).shutdown = true;
                for i in 0..n {
                    if let Some(mut c) = cos[i].take() {
                        (*p).cur = i;
                        (*p).th[i].was_parked = true;
                        loop {
                            match c.resume(()) {
                                CoroutineResult::Return(()) => break,
                                CoroutineResult::Yield(()) => {}
                            }
                        }
                        STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
                    }
                }
                (*p).cur = SOLO;
            } else {
                for c in cos.into_iter().flatten() { std::mem::forget(c); }
                leaked = true;
            }
        }
    }
    unsafe {
        (*p).solo = true;
        (*p).cur = SOLO;
        if !leaked && (*p).violation.is_none() {
            if let Some(c) = check {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c(&end))) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => if (*p).violation.is_none() { (*p).violation = Some(m) },
                    Err(e) => (*p).violation = Some(format!("panic in final check: {}", panic_text(&e))),
                }
            }
        } else if let Some(c) = check { std::mem::forget(c); }
    }
    CUR.with(|c| c.set(std::ptr::null_mut()));
    let out = RunOut {
        violation: ex.violation.take(), internal: ex.internal.take(), steps: ex.steps, used: ex.used,
        log: ex.log.take().unwrap_or_default(), trace: std::mem::take(&mut ex.trace),
    };
    if leaked { std::mem::forget(ex); }
    out
}
