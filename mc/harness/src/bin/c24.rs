//! C24: every stack of combinators up to a height, over the real sources.
use mc::conc::*;
use mc::src::*;
use mc::stack::*;
use mc::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
struct Stack { leaf: Leaf, ops: Vec<Op> }
impl Stack {
    fn name(&self) -> String { format!("{:?}{}", self.leaf, self.ops.iter().map(|o| format!(".{:?}", o)).collect::<String>()) }
    fn build(&self, s: &mut Srcs) -> Made { let mut m = leaf(self.leaf, s); for o in &self.ops { m = stack(*o, m, s); } m }
}

/// Every history of actions and polls.
fn history(sk: &Stack, depth: usize, spurious: bool) {
    let (mut srcs, mut st) = sources();
    let (pipe, model, ids) = sk.build(&mut srcs);
    let view = View::new(pipe);
    let mut shown = view.initial();
    let mut ex = Exec::new(view);
    let mut handles: Vec<(Id, Option<Handle>)> = ids.iter().map(|i| (*i, Some(srcs.take(*i)))).collect();
    drop(srcs);
    for _ in 0..depth {
        let mut all: Vec<Option<(usize, Act)>> = vec![None];
        for (i, (id, h)) in handles.iter().enumerate() { if h.is_some() { for a in acts(*id) { all.push(Some((i, *a))) } } }
        match pick(&all) {
            None => break,
            Some((i, a)) => {
                note(|| format!("{:?}: {:?}", handles[i].0, a));
                let h = handles[i].1.take().unwrap();
                handles[i].1 = perform(h, a, &mut st);
            }
        }
        // the executor may run to quiescence, poll once, or not at all
        let mut f = |v: Vec<u32>| { note(|| format!("shows {:?}", v)); shown = Some(v) };
        match if spurious { schedule(&mut ex, &mut f) } else if ex.runnable() { match choose(3) { 0 => ex.run(&mut f), 1 => ex.one(&mut f), _ => Step::Idle } } else { Step::Idle } { _ => {} }
        if !ex.runnable() { settled(sk, &ex, &shown, &model, &st) }
        state(&(&st, ex.ended, &shown));
    }
    let mut f = |v: Vec<u32>| { note(|| format!("shows {:?}", v)); shown = Some(v) };
    ex.run(&mut f);
    settled(sk, &ex, &shown, &model, &st);
    outcome(&(&shown, ex.ended));
}
fn settled(sk: &Stack, ex: &Exec<View>, shown: &Option<Vec<u32>>, model: &Model, st: &mc::stack::State) {
    let (want, end) = model(st);
    assert!(shown.as_ref() == Some(&want), "{}: the output shows {:?} and is {}, but the function of the current state is {:?}", sk.name(), shown, if ex.ended { "ended" } else { "blocked" }, want);
    assert!(ex.ended == end, "{}: the output is {}, but its inputs have {}ended", sk.name(), if ex.ended { "ended" } else { "blocked" }, if end { "" } else { "not all " });
}

/// One consumer, one mutating thread per source.
fn threads(sk: &Stack, progs: &dyn Fn(Id) -> Vec<Act>, opt: Opt, sim: &mut Sim) -> Check {
    let world = World::new();
    let (mut srcs, st) = sources();
    let (pipe, model, ids) = sk.build(&mut srcs);
    let view = View::new(pipe);
    let initial = view.initial();
    let log: Shared<Vec<u32>> = Shared::new();
    { let (w, log) = (world.clone(), log.clone()); sim.thread(move || consume(view, &w, &log, opt, |v| format!("shows {:?}", v))); }
    let st = Rc::new(RefCell::new(st));
    let kept: Rc<RefCell<Vec<Handle>>> = Rc::new(RefCell::new(vec![]));
    for id in ids {
        let (mut h, prog, w, st, kept) = (Some(srcs.take(id)), progs(id), world.clone(), st.clone(), kept.clone());
        sim.thread(move || {
            for a in prog {
                let Some(x) = h.take() else { break };
                w.step();
                rt::trace(|| format!("{:?}: {:?}", id, a));
                // the model moves first on a copy of this thread's part: only this thread touches it
                let mut mine = st.borrow().clone();
                h = perform(x, a, &mut mine);
                let mut s = st.borrow_mut();
                match id { Id::A => s.a = mine.a, Id::B => s.b = mine.b, Id::C => s.c = mine.c, Id::V => s.v = mine.v, Id::M => s.m = mine.m }
                s.gone[id as usize] = mine.gone[id as usize];
            }
            if let Some(h) = h { kept.borrow_mut().push(h) }
        });
    }
    drop(srcs);
    let name = sk.name();
    Box::new(move |_| {
        let l = log.0.borrow();
        if !l.stopped {
            let (want, end) = model(&st.borrow());
            let shown = l.vals.last().cloned().or(initial);
            need(shown.as_ref() == Some(&want), || format!("{}: the output shows {:?} and is {}, but the function of the final state is {:?}", name, shown, if l.ended { "ended" } else { "blocked" }, want))?;
            need(l.ended == end, || format!("{}: the output is {}, but its inputs have {}ended", name, if l.ended { "ended" } else { "blocked" }, if end { "" } else { "not all " }))?;
        }
        outcome(&(l.vals.last().cloned(), l.ended));
        drop(kept);
        Ok(())
    })
}

fn stacks(height: usize) -> Vec<Stack> {
    // higher stacks do not repeat all leaves of a kind
    let mut out = vec![];
    let leaves: Vec<Leaf> = LEAVES.to_vec();
    fn grow(l: Leaf, kind: char, ops: &mut Vec<Op>, height: usize, out: &mut Vec<Stack>) {
        if ops.len() == height { out.push(Stack { leaf: l, ops: ops.clone() }); return; }
        for o in ops_for(kind) { ops.push(*o); grow(l, kind_after(*o), ops, height, out); ops.pop(); }
    }
    let mut turn = 0;
    if height <= 1 { for l in leaves { grow(l, kind_of(l), &mut vec![], height, &mut out); } }
    else {
        for kind in ['S', 'V', 'M'] {
            let ls: Vec<Leaf> = leaves.iter().copied().filter(|l| kind_of(*l) == kind).collect();
            let mut all = vec![];
            grow(ls[0], kind, &mut vec![], height, &mut all);
            for mut s in all { s.leaf = ls[turn % ls.len()]; turn += 1; out.push(s); }
        }
    }
    out
}

/// boxed, debug, inspect and the like forward every poll: they are not stacked three high
fn plain(o: &Op) -> bool { matches!(o, Op::Boxed | Op::Debug | Op::Inspect | Op::VBoxed | Op::VDebug | Op::MBoxed | Op::Option_ | Op::Result_ | Op::StopIf | Op::FilterMap | Op::DedupeCloned | Op::Neq | Op::Not | Op::Or | Op::VToMap | Op::MMissing) }

fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    let uses = |s: &Stack| { let (mut x, _) = sources(); let (_, _, ids) = s.build(&mut x); ids };
    for h in 0..=3usize {
        for (n, sk) in stacks(h).into_iter().enumerate() {
            if h == 3 && sk.ops.iter().any(plain) { continue; }
            if h == 3 && !t.thorough() && n % 2 != 0 { continue; }
            let ids = uses(&sk);
            let wide = ids.len() > 1;
            let depth = match h { 0 => if matches!(sk.leaf, Leaf::A | Leaf::ACloned | Leaf::ARef | Leaf::Chan | Leaf::Broad) { t.pick(6, 8) } else { t.pick(4, 6) }, 1 => t.pick(if wide { 3 } else { 4 }, if wide { 4 } else { 5 }), 2 => t.pick(2, if wide { 3 } else { 4 }), _ => t.pick(1, 2) };
            let s = sk.clone();
            js.push(seq(format!("{} histories of {}", sk.name(), depth), move || history(&s, depth, h < 2)));
            if h == 3 && !t.thorough() { continue; }
            // mutations during polls
            let lead = ids[0];
            let first: &[Act] = match lead { Id::A | Id::C => &[Act::Set, Act::Drop], Id::B => &[Act::Lock, Act::Drop], Id::V => &[Act::Push, Act::Remove, Act::Update, Act::Move, Act::Replace, Act::Drop], Id::M => &[Act::Push, Act::Update, Act::Remove, Act::Drop] };
            let acts: Vec<Act> = if h <= 1 || t.thorough() && h == 2 { first.to_vec() } else { vec![first[n % first.len()]] };
            for a in acts {
                for then_drop in [false, true] {
                    if a == Act::Drop && then_drop { continue; }
                    if h >= 2 && !t.thorough() && (n % 2 == 0) != then_drop && a != Act::Drop { continue; }
                    let mut budget = match h { 0 => t.pick(4, UNBOUNDED), 1 => t.pick(2, 3), 2 => t.pick(1, 2), _ => 1 };
                    if ids.len() > 2 { budget = budget.min(2); }
                    let s = sk.clone();
                    let progs = move |id: Id| -> Vec<Act> {
                        if id == lead { let mut p = vec![a]; if then_drop { p.push(Act::Drop) } p }
                        else { let mut p = vec![match id { Id::V | Id::M => Act::Push, _ => Act::Set }]; if then_drop { p.push(Act::Drop) } p }
                    };
                    js.push(conc(format!("{} threads {:?}{}", sk.name(), a, if then_drop { "+drop" } else { "" }), budget, move |sim| threads(&s, &progs, Opt::default(), sim)));
                    if h <= 1 { let s = sk.clone(); js.push(conc(format!("{} threads {:?}{} leaving", sk.name(), a, if then_drop { "+drop" } else { "" }), 1, move |sim| threads(&s, &progs, Opt { spurious: 1, drop_after: 2, first_ready: false }, sim))); }
                }
            }
        }
    }
    mc::reent::jobs(&mut js, t);
    js
}

fn main() {
    mc::main(Spec { property: "C24", assumptions: vec!["sequentially consistent memory".into(), "futures-channel's unbounded queue is linearizable".into()], notes: "Every well-typed stack of combinators (height 0 to 2, most of height 3) over real Mutables, MutableVecs, MutableBTreeMaps, channels and broadcasters; the output is polled only when woken and compared with the composed function of the source state whenever it blocks; every stage is guarded against polls after the end.".into() }, jobs)
}
