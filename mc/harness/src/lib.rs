//! Exhaustive explorer shared by all checks: enumerates every choice sequence
//! of a job (a sequential harness, or a concurrent harness under the
//! controlled scheduler of `mcstd::rt`) and reports what was covered.
use mcstd::rt;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::{AcqRel, Relaxed}};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub mod conc;
pub mod crowd;
pub mod huge;
pub mod mapops;
pub mod maps;
pub mod model;
pub mod mutable_seq;
pub mod reent;
pub mod sigs;
pub mod src;
pub mod stack;
pub mod vecops;
pub mod vecs;
pub use rt::mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
    pub fn thorough(self) -> bool { self == Tier::Thorough }
}

pub type SeqFn = Box<dyn Fn() + Send + Sync>;
pub type ConcFn = Box<dyn Fn(&mut rt::Sim) -> rt::Check + Send + Sync>;

enum Body {
    Seq(SeqFn),
    Conc { budget: u32, f: ConcFn },
}

pub struct Job {
    pub name: String,
    body: Body,
}

/// A sequential job: `f` asks `choose` for every decision.
pub fn seq(name: impl Into<String>, f: impl Fn() + Send + Sync + 'static) -> Job {
    Job { name: name.into(), body: Body::Seq(Box::new(f)) }
}
/// A concurrent job, explored up to `budget` preemptions.
pub fn conc(name: impl Into<String>, budget: u32, f: impl Fn(&mut rt::Sim) -> rt::Check + Send + Sync + 'static) -> Job {
    Job { name: name.into(), body: Body::Conc { budget, f: Box::new(f) } }
}

// ------------------------------------------------------------ sequential choices

struct Ch {
    prefix: Vec<u16>,
    trace: Vec<(u16, u16)>,
    log: Option<Vec<String>>,
    steps: u64,
    states: Vec<u64>,
    job: u64,
    internal: Option<String>,
}

thread_local! {
    static CH: RefCell<Option<Ch>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CURRENT: Cell<Option<(*const Job, (*const u16, usize))>> = const { Cell::new(None) };
    static OUTCOME: Cell<u64> = const { Cell::new(0) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static MUTE: Cell<bool> = const { Cell::new(false) };
}

/// Every alternative of every `choose` is explored.
pub fn choose(n: usize) -> usize {
    assert!(n > 0);
    if n == 1 { return 0; }
    if rt::active() { return rt::choose(n); }
    CH.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().expect("choose outside an exploration");
        let i = c.trace.len();
        let mut k = if i < c.prefix.len() { c.prefix[i] as usize } else { 0 };
        if k >= n {
            c.internal = Some(format!("replay diverged at point {}: {} of {}", i, k, n));
            k = 0;
        }
        c.trace.push((k as u16, n as u16));
        k
    })
}
pub fn flip() -> bool { choose(2) == 1 }
pub fn pick<T: Clone>(xs: &[T]) -> T { xs[choose(xs.len())].clone() }

/// Notes for the replay log.
pub fn note(f: impl FnOnce() -> String) {
    if MUTE.with(|m| m.get()) { return; }
    if rt::active() { rt::trace(f); return; }
    CH.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            c.steps += 1;
            if let Some(l) = c.log.as_mut() { l.push(f()); }
        }
    });
}
/// Notes are dropped from here on (they take memory).
pub fn mute(on: bool) { MUTE.with(|m| m.set(on)) }
/// Reports a reached (model) state, for the coverage counts.
pub fn state<T: std::hash::Hash>(t: &T) {
    CH.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            let mut h = Fx(c.job);
            t.hash(&mut h);
            c.states.push(h.0);
        }
    });
}
/// Reports the observable outcome of this execution, for the coverage counts.
pub fn outcome<T: std::hash::Hash>(t: &T) {
    let mut h = Fx(1);
    t.hash(&mut h);
    OUTCOME.with(|o| o.set(h.0));
}

#[derive(Clone, Copy)]
pub struct Fx(pub u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = mix(self.0, *x as u64); } }
    fn write_u8(&mut self, v: u8) { self.0 = mix(self.0, v as u64) }
    fn write_u32(&mut self, v: u32) { self.0 = mix(self.0, v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = mix(self.0, v) }
    fn write_usize(&mut self, v: usize) { self.0 = mix(self.0, v as u64) }
}

struct Out {
    trace: Vec<(u16, u16)>,
    violation: Option<String>,
    internal: Option<String>,
    log: Vec<String>,
    steps: u64,
    states: Vec<u64>,
    outcome: u64,
}

fn run_job(job: &Job, salt: u64, prefix: &[u16], visited: &rt::Visited, want_log: bool, budget_override: Option<u32>) -> Out {
    OUTCOME.with(|o| o.set(0));
    PANIC.with(|p| *p.borrow_mut() = None);
    CURRENT.with(|c| c.set(Some((job, (prefix.as_ptr(), prefix.len())))));
    let mut o = match &job.body {
        Body::Seq(f) => {
            CH.with(|c| *c.borrow_mut() = Some(Ch {
                prefix: prefix.to_vec(), trace: Vec::with_capacity(32), log: if want_log { Some(vec![]) } else { None },
                steps: 0, states: vec![], job: salt, internal: None }));
            mute(false);
            let r = catch_unwind(AssertUnwindSafe(|| f()));
            let violation = match r {
                Ok(()) => None,
                Err(e) => Some(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| text(&e))),
            };
            let c = CH.with(|c| c.borrow_mut().take().unwrap());
            Out { trace: c.trace, violation, internal: c.internal, log: c.log.unwrap_or_default(), steps: c.steps, states: c.states, outcome: 0 }
        }
        Body::Conc { budget, f } => {
            let r = rt::run(prefix, budget_override.unwrap_or(*budget), visited, salt, want_log, &|s| f(s));
            let mut v = r.violation;
            if let Some(m) = PANIC.with(|p| p.borrow_mut().take()) {
                if let Some(x) = v.as_mut() { x.push_str(&format!(" [{}]", m)); }
            }
            Out {
                trace: r.trace.iter().map(|c| (c.chosen, c.branch)).collect(),
                violation: v, internal: r.internal, log: r.log, steps: r.steps as u64, states: vec![], outcome: 0 }
        }
    };
    CURRENT.with(|c| c.set(None));
    o.outcome = OUTCOME.with(|o| o.get());
    if o.violation.is_some() && o.internal.is_some() { o.violation = None; }
    o
}
/// Code whose steps depend on more than the choices (allocation addresses, hash seeds, ...) may
/// leave the given choice sequence: try again, and give up on that sequence in the end.
fn run_retry(job: &Job, salt: u64, prefix: &[u16], visited: &rt::Visited, tries: usize, mut ok: impl FnMut(&Out) -> bool) -> Option<Out> {
    for _ in 0..tries {
        let o = run_job(job, salt, prefix, visited, true, None);
        if o.internal.is_none() && ok(&o) { return Some(o); }
    }
    None
}

// ------------------------------------------------------------ crashes

static PROPERTY: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

/// The code under test aborted (panic while panicking, double free, ...): report the execution.
extern "C" fn crashed(sig: libc::c_int) {
    let cur = CURRENT.with(|c| c.replace(None));
    if let (Some((job, prefix)), Ok(g)) = (cur, PROPERTY.lock()) {
        let (job, prefix) = unsafe { (&*job, std::slice::from_raw_parts(prefix.0, prefix.1)) };
        let first = PANIC.try_with(|p| p.try_borrow().ok().and_then(|p| p.clone())).ok().flatten();
        let msg = format!("the code under test crashes with signal {}{}", sig, first.map(|f| format!(" (after: {})", f)).unwrap_or_default());
        let path = write_replay(&g.1, &g.0, &job.name, prefix, &msg, &[]);
        let out = format!("job {}: {}\nVIOLATION property={} replay={}\n", job.name, msg, g.0, path);
        unsafe { libc::write(1, out.as_ptr() as *const libc::c_void, out.len()); libc::_exit(1) }
    }
    unsafe { libc::signal(sig, libc::SIG_DFL); libc::raise(sig); }
}
fn own_signal_stack() {
    let m = Box::leak(vec![0u8; 256 << 10].into_boxed_slice());
    let st = libc::stack_t { ss_sp: m.as_mut_ptr() as *mut libc::c_void, ss_flags: 0, ss_size: m.len() };
    unsafe { libc::sigaltstack(&st, std::ptr::null_mut()); }
}
fn catch_crashes() {
    own_signal_stack();
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = crashed as *const () as usize;
        a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] { libc::sigaction(s, &a, std::ptr::null_mut()); }
    }
}

fn text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".into() }
}

// ------------------------------------------------------------ exploration

#[derive(Default)]
struct Stats { execs: AtomicU64, steps: AtomicU64, maxlen: AtomicU64 }

struct Found { job: usize, choices: Vec<u16>, msg: String }

struct Slot { start: Mutex<Option<(Instant, usize, Vec<u16>)>> }

type Set = Vec<Mutex<HashSet<u64, rt::BuildId>>>;
fn set() -> Set { (0..128).map(|_| Mutex::new(HashSet::default())).collect() }
fn insert(s: &Set, h: u64) { s[(h >> 57) as usize].lock().unwrap().insert(h); }
fn count(s: &Set) -> usize { s.iter().map(|m| m.lock().unwrap().len()).sum() }

pub struct Spec {
    pub property: &'static str,
    pub assumptions: Vec<String>,
    pub notes: String,
}

fn env(k: &str) -> Option<String> { std::env::var(k).ok() }

/// Entry point of every check binary.
/// resident memory in bytes
fn resident() -> usize {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1)?.parse::<usize>().ok()).unwrap_or(0) * 4096
}
const MEMORY_CAP: usize = 20 << 30;

pub fn main(spec: Spec, jobs: fn(Tier) -> Vec<Job>) {
    let t0 = Instant::now();
    catch_crashes();
    *PROPERTY.lock().unwrap() = (spec.property.into(), env("VERIF_DIR").unwrap_or_else(|| "/verif".into()));
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let worker = QUIET.with(|q| q.get());
        if worker {
            PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some(format!("{}{}", msg, loc)); } });
        } else {
            eprintln!("panic: {}{}", msg, loc);
        }
    }));
    let tier = match env("VERIF_TIER").as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    let seed: i64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads: usize = env("MC_THREADS").and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let cap = Duration::from_secs(env("MC_CAP").and_then(|s| s.parse().ok()).unwrap_or(tier.pick(400, 3000)));
    let exec_cap = Duration::from_secs(env("MC_EXEC_CAP").and_then(|s| s.parse().ok()).unwrap_or(60));
    let args: Vec<String> = std::env::args().collect();
    let verif = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
    let mut all = jobs(tier);
    if let Some(m) = env("MC_ONLY") { all.retain(|j| j.name.contains(&m)); }
    {
        // the same scenario may be listed twice: explore it once, with the larger bound
        let budget = |j: &Job| match &j.body { Body::Conc { budget, .. } => *budget, _ => 0 };
        let mut best: HashMap<String, u32> = HashMap::new();
        for j in &all { let b = best.entry(j.name.clone()).or_default(); *b = (*b).max(budget(j)); }
        let mut names = HashSet::new();
        all.retain(|j| {
            let first = budget(j) == best[&j.name] && names.insert(j.name.clone());
            if !first && matches!(j.body, Body::Seq(_)) { eprintln!("duplicate job name {}", j.name); std::process::exit(3); }
            first
        });
    }
    if args.len() == 3 && args[1] == "--replay" {
        QUIET.with(|q| q.set(true));
        std::process::exit(replay(&all, &args[2]));
    }
    let salts: Vec<u64> = all.iter().map(|j| j.name.bytes().fold(0x5eed, |h, b| mix(h, b as u64))).collect();
    // the states seen by a job are given back when it is done
    let visited: Vec<std::sync::OnceLock<rt::Visited>> = all.iter().map(|_| Default::default()).collect();
    let por = env("MC_NO_POR").is_none();
    let open: Vec<AtomicUsize> = all.iter().map(|_| AtomicUsize::new(1)).collect();
    let total_states = AtomicUsize::new(0);
    let stats: Vec<Stats> = all.iter().map(|_| Stats::default()).collect();
    let stopped: Vec<AtomicBool> = all.iter().map(|_| AtomicBool::new(false)).collect();
    let states = set();
    let outcomes = set();
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    // choice sequences that the code under test does not follow deterministically
    let internal: Mutex<(u64, Option<String>)> = Mutex::new((0, None));
    let capped = AtomicBool::new(false);
    let queue: Mutex<(Vec<(usize, Vec<u16>)>, usize)> = Mutex::new(((0..all.len()).rev().map(|i| (i, vec![])).collect(), 0));
    let cv = Condvar::new();
    let hungry = AtomicUsize::new(0);
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { start: Mutex::new(None) }).collect();
    let done = AtomicBool::new(false);
    let finished = AtomicUsize::new(0);
    let verbose = env("MC_VERBOSE").is_some();

    std::thread::scope(|sc| {
        // watchdog: an execution that does not come back is a hang of the code under test
        sc.spawn(|| {
            let mut tick = 0;
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                tick += 1;
                // out of memory is no answer: the enumeration is cut short instead
                if tick % 20 == 0 && resident() > MEMORY_CAP { capped.store(true, Relaxed); }
                for s in &slots {
                    let g = s.start.lock().unwrap();
                    if let Some((t, j, p)) = g.as_ref() {
                        if t.elapsed() > exec_cap {
                            let msg = format!("the code under test does not return (no progress for {} s)", exec_cap.as_secs());
                            let path = write_replay(&verif, spec.property, &all[*j].name, p, &msg, &[]);
                            println!("job {}: {}", all[*j].name, msg);
                            println!("VIOLATION property={} replay={}", spec.property, path);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for w in 0..threads {
            let (all, salts, visited, stats, stopped, states, outcomes, found, internal, capped, queue, cv, hungry, slots, done, finished, open, total_states) =
                (&all, &salts, &visited, &stats, &stopped, &states, &outcomes, &found, &internal, &capped, &queue, &cv, &hungry, &slots, &done, &finished, &open, &total_states);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                own_signal_stack();
                QUIET.with(|q| q.set(true));
                let mut local: Vec<(usize, Vec<u16>)> = vec![];
                loop {
                    let item = match local.pop() {
                        Some(i) => i,
                        None => {
                            let mut g = queue.lock().unwrap();
                            hungry.fetch_add(1, Relaxed);
                            let r = loop {
                                if let Some(i) = g.0.pop() { g.1 += 1; break Some(i); }
                                if g.1 == 0 { break None; }
                                g = cv.wait(g).unwrap();
                            };
                            hungry.fetch_sub(1, Relaxed);
                            match r { Some(i) => i, None => { cv.notify_all(); break; } }
                        }
                    };
                    let (j, prefix) = item;
                    let stop = stopped[j].load(Relaxed) || capped.load(Relaxed);
                    let seen = || visited[j].get_or_init(|| rt::Visited::new(por));
                    if !stop {
                        *slots[w].start.lock().unwrap() = Some((Instant::now(), j, prefix.clone()));
                        let mut o = run_job(&all[j], salts[j], &prefix, seen(), false, None);
                        if o.internal.is_some() {
                            if let Some(again) = run_retry(&all[j], salts[j], &prefix, seen(), 20, |_| true) { o = again; }
                        }
                        *slots[w].start.lock().unwrap() = None;
                        stats[j].execs.fetch_add(1, Relaxed);
                        stats[j].steps.fetch_add(o.steps, Relaxed);
                        stats[j].maxlen.fetch_max(o.trace.len() as u64, Relaxed);
                        for h in &o.states { insert(states, *h); }
                        if o.outcome != 0 { insert(outcomes, mix(salts[j], o.outcome)); }
                        if let Some(m) = o.internal {
                            let mut g = internal.lock().unwrap();
                            g.0 += 1;
                            g.1.get_or_insert_with(|| format!("job {}: {}", all[j].name, m));
                        } else if let Some(m) = o.violation {
                            if !stopped[j].swap(true, Relaxed) {
                                found.lock().unwrap().push(Found { job: j, choices: o.trace.iter().map(|t| t.0).collect(), msg: m });
                            }
                        } else {
                            for i in (prefix.len()..o.trace.len()).rev() {
                                // later points last on the stack => explored first (depth first)
                                let _ = i;
                            }
                            for i in prefix.len()..o.trace.len() {
                                let n = o.trace[i].1;
                                for alt in (1..n).rev() {
                                    let mut p: Vec<u16> = Vec::with_capacity(i + 1);
                                    p.extend(o.trace[..i].iter().map(|t| t.0));
                                    p.push(alt);
                                    local.push((j, p));
                                    open[j].fetch_add(1, Relaxed);
                                }
                            }
                        }
                        if t0.elapsed() > cap && !capped.swap(true, Relaxed) {}
                    }
                    if open[j].fetch_sub(1, AcqRel) == 1 {
                        if let Some(v) = visited[j].get() { total_states.fetch_add(v.len(), Relaxed); v.clear(); }
                    }
                    if local.is_empty() {
                        let mut g = queue.lock().unwrap();
                        g.1 -= 1;
                        if g.1 == 0 { cv.notify_all(); }
                    } else if hungry.load(Relaxed) > 0 && local.len() > 1 {
                        let k = local.len() / 2;
                        let mut g = queue.lock().unwrap();
                        if g.0.len() < threads {
                            g.0.extend(local.drain(..k));
                            cv.notify_all();
                        }
                    }
                }
                if finished.fetch_add(1, Relaxed) + 1 == threads { done.store(true, Relaxed); }
            }).unwrap();
        }
    });

    let (diverged, first_diverged) = internal.into_inner().unwrap();
    if let Some(m) = first_diverged {
        println!("note: {} choice sequences are not followed deterministically by the code under test, first: {}", diverged, m);
    }
    let mut fs = found.into_inner().unwrap();
    fs.sort_by_key(|f| f.job);
    let known = known_findings(&verif, spec.property);
    let mut violations = 0;
    let mut replay_paths = vec![];
    QUIET.with(|q| q.set(true));
    let known_one = |job: &Job, msg: &str| known.iter().any(|(j, m)| *j == job.name && msg.contains(m.as_str()));
    // Whatever happens to the executions that make the reports short and readable, there is an answer.
    if let Some(f) = fs.iter().find(|f| !known_one(&all[f.job], &f.msg)) {
        let (property, verif, name, choices, msg) = (spec.property, verif.clone(), all[f.job].name.clone(), f.choices.clone(), f.msg.clone());
        std::thread::spawn(move || {
            std::thread::sleep(REPORT_AT_MOST);
            let path = write_replay(&verif, property, &name, &choices, &msg, &[]);
            println!("job {}: {}", name, msg);
            println!("VIOLATION property={} replay={}", property, path);
            std::process::exit(1);
        });
    }
    let reporting = Instant::now();
    let mut lost: Option<String> = None;
    for f in &fs {
        let job = &all[f.job];
        if violations > 0 && reporting.elapsed() > REPORT_IN_FULL {
            if known_one(job, &f.msg) { println!("KNOWN-FINDING: property={} job {}: {}", spec.property, job.name, f.msg); } else { violations += 1; println!("job {}: {}", job.name, f.msg); }
            continue;
        }
        let dummy = rt::Visited::new(false);
        let (choices, msg) = shrink(job, f, &dummy);
        let a = run_job(job, 0, &choices, &dummy, true, None);
        let b = run_job(job, 0, &choices, &dummy, true, None);
        let (choices, msg, a) = if a.violation.is_none() || a.violation != b.violation || a.log != b.log {
            // depends on more than the choices: take any execution that shows it again
            match run_retry(job, 0, &choices, &dummy, 500, |o| o.violation.is_some()).map(|o| (choices, o))
                .or_else(|| run_retry(job, 0, &f.choices, &dummy, 2000, |o| o.violation.is_some()).map(|o| (f.choices.clone(), o))) {
                Some((c, mut o)) => { let m = format!("{} (not in every execution of this choice sequence)", o.violation.take().unwrap()); (c, m, o) }
                None => { lost.get_or_insert_with(|| format!("job {}: a violation does not show again ({})", job.name, f.msg)); continue; }
            }
        } else { (choices, msg, a) };
        if known_one(job, &msg) {
            println!("KNOWN-FINDING: property={} job {}: {}", spec.property, job.name, msg);
            continue;
        }
        violations += 1;
        println!("job {}: {}", job.name, msg);
        if violations <= 5 || verbose {
            for l in a.log.iter() { println!("    {}", l); }
            let path = write_replay(&verif, spec.property, &job.name, &choices, &msg, &a.log);
            replay_paths.push(path);
        }
    }
    if let (Some(m), 0) = (&lost, violations) { eprintln!("INTERNAL ERROR: {}", m); std::process::exit(2); }
    // evidence
    let execs: u64 = stats.iter().map(|s| s.execs.load(Relaxed)).sum();
    let steps: u64 = stats.iter().map(|s| s.steps.load(Relaxed)).sum();
    let nstates = count(&states) + total_states.load(Relaxed);
    let was_capped = capped.load(Relaxed);
    let mut samples = vec![];
    let dummy = rt::Visited::new(false);
    for k in 0..3usize.min(all.len()) {
        let j = k * (all.len() - 1) / 2usize.max(1).min(all.len());
        let j = j.min(all.len() - 1);
        if fs.iter().any(|f| f.job == j) { continue; }
        let o = run_job(&all[j], 0, &[], &dummy, true, None);
        samples.push(format!("{{\"job\":{},\"execution\":[{}]}}", js(&all[j].name), o.log.iter().take(60).map(|l| js(l)).collect::<Vec<_>>().join(",")));
    }
    let mut per = BTreeMap::new();
    for (j, s) in all.iter().zip(&stats) {
        per.insert(j.name.clone(), (s.execs.load(Relaxed), s.steps.load(Relaxed), s.maxlen.load(Relaxed),
            match &j.body { Body::Seq(_) => "all choice sequences".to_string(),
                Body::Conc { budget, .. } => if *budget >= rt::UNBOUNDED { "all interleavings".into() } else { format!("all interleavings with <= {} preemptions", budget) } }));
    }
    let mut listed: Vec<_> = per.iter().collect();
    listed.sort_by_key(|(_, v)| std::cmp::Reverse(v.0));
    let per_txt: Vec<String> = listed.iter().take(40).map(|(n, v)| format!("{{\"job\":{},\"executions\":{},\"transitions\":{},\"longest_choice_sequence\":{},\"explored\":{}}}", js(n), v.0, v.1, v.2, js(&v.3))).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":[{}],\"jobs\":{},\"distinct_outcomes\":{},\"per_job\":[{}],\"exhaustive\":{},\"explanation\":{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(spec.property), js(tier.pick("quick", "thorough")), seed, nstates, steps, execs, samples.join(","), all.len(), count(&outcomes), per_txt.join(","),
        !was_capped && diverged == 0 && fs.is_empty(), js(&format!("{}{}", spec.notes, if was_capped { " CAP REACHED (time or memory): the enumeration was cut short." } else { "" })),
        spec.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(","), wall, violations);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if env("MC_ONLY").is_none() {
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", verif, spec.property), ev) { eprintln!("cannot write evidence: {}", e); std::process::exit(2); }
    }
    if verbose {
        for (n, v) in &listed { println!("  {:>9} execs {:>10} steps  {}", v.0, v.1, n); }
    }
    println!("{}: {} jobs, {} executions, {} transitions, {} states, {} distinct outcomes, {:.1} s{}", spec.property, all.len(), execs, steps, nstates, count(&outcomes), wall,
        if was_capped { " (CAP REACHED)" } else { "" });
    if violations > 0 {
        for p in &replay_paths { println!("VIOLATION property={} replay={}", spec.property, p); }
        std::process::exit(1);
    }
    std::process::exit(0);
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Greedy: fewer and smaller choices that still violate.
const REPORT_IN_FULL: Duration = Duration::from_secs(40);
const REPORT_AT_MOST: Duration = Duration::from_secs(150);
fn shrink(job: &Job, f: &Found, v: &rt::Visited) -> (Vec<u16>, String) {
    let t = Instant::now();
    let mut best = f.choices.clone();
    let mut msg = f.msg.clone();
    while best.last() == Some(&0) { best.pop(); }
    let mut improved = true;
    while improved && t.elapsed() < Duration::from_secs(5) {
        improved = false;
        let mut i = 0;
        while i < best.len() && t.elapsed() < Duration::from_secs(5) {
            let mut cands: Vec<Vec<u16>> = vec![];
            let mut c = best.clone(); c.remove(i); cands.push(c);
            if best[i] > 0 { let mut c = best.clone(); c[i] = 0; cands.push(c);
                if best[i] > 1 { let mut c = best.clone(); c[i] -= 1; cands.push(c); } }
            for mut c in cands {
                while c.last() == Some(&0) { c.pop(); }
                if c == best { continue; }
                let o = run_job(job, 0, &c, v, false, None);
                if let (Some(m), None) = (&o.violation, &o.internal) {
                    let w = |x: &[u16]| (x.len(), x.iter().map(|v| *v as u32).sum::<u32>());
                    if w(&c) < w(&best) { best = c; msg = m.clone(); improved = true; break; }
                }
            }
            i += 1;
        }
    }
    let o = run_job(job, 0, &best, v, false, None);
    if let Some(m) = o.violation { msg = m; }
    (best, msg)
}

fn write_replay(verif: &str, prop: &str, job: &str, choices: &[u16], msg: &str, log: &[String]) -> String {
    let h = job.bytes().fold(7u64, |h, b| mix(h, b as u64)) >> 24;
    let dir = format!("{}/evidence/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:010x}.txt", dir, prop, h);
    let mut s = format!("property: {}\njob: {}\nchoices: {}\nmessage: {}\n", prop, job,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), msg.replace('\n', " "));
    s.push_str("log:\n");
    for l in log { s.push_str("  "); s.push_str(l); s.push('\n'); }
    let _ = std::fs::write(&path, s);
    path
}

fn replay(all: &[Job], path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (job, choices) = (get("job:"), get("choices:"));
    let choices: Vec<u16> = choices.split(',').filter(|c| !c.is_empty()).map(|c| c.parse().unwrap()).collect();
    let j = match all.iter().find(|j| j.name == job) { Some(j) => j, None => { println!("no job {}", job); return 2; } };
    let none = rt::Visited::new(false);
    let o = run_retry(j, 0, &choices, &none, 500, |o| o.violation.is_some())
        .unwrap_or_else(|| run_job(j, 0, &choices, &none, true, None));
    for l in &o.log { println!("    {}", l); }
    match (o.internal, o.violation) {
        (Some(m), _) => { println!("does not replay: {}", m); 2 }
        (_, Some(m)) => { println!("reproduced: {}", m); 1 }
        _ => { println!("no violation"); 0 }
    }
}

/// known-findings.txt: `finding: property=<id> job=<job name> match=<text>`
fn known_findings(verif: &str, prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", verif)).unwrap_or_default();
    s.lines().filter_map(|l| l.strip_prefix("finding: ")).filter_map(|l| {
        let l = l.strip_prefix(&format!("property={} ", prop))?;
        let l = l.strip_prefix("job=")?;
        let (j, m) = l.split_once(" match=")?;
        Some((j.trim().to_string(), m.trim().to_string()))
    }).collect()
}
