//! Stateless model checking of the concurrent stack with loom: every program of a family, every
//! interleaving up to a preemption bound, every value that a load may return under the C11 model.
use crossbeam_epoch::model;
use extended_collections::sync::Stack;
use loom::cell::UnsafeCell;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Op {
    Push,
    Pop,
    Len,
    Empty,
    /// Says, by a release store, that everything before it is done.
    Sig,
    /// Looks, by an acquire load, whether that was said.
    Obs,
}
use Op::*;

#[derive(Clone, Debug)]
struct Prog {
    pre: usize,
    threads: Vec<Vec<Op>>,
    bound: Option<usize>,
    /// The first thread stops before this step until the others are done.
    stall: Option<usize>,
}
impl Prog {
    fn name(&self) -> String {
        let t: Vec<String> = self.threads.iter().map(|t| t.iter().map(|o| format!("{:?}", o).to_lowercase()).collect::<Vec<_>>().join(" ")).collect();
        format!(
            "{} elements, {}{}{}",
            self.pre,
            t.join(" || "),
            self.bound.map_or(String::new(), |b| format!(", at most {} preemptions", b)),
            self.stall.map_or(String::new(), |b| format!(", the first thread stops before step {}", b))
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum What {
    Results,
    Memory,
    Length,
    Progress,
}

// ---- values that know what happens to them

struct Led {
    /// Dropped how often, by value.
    drops: BTreeMap<u32, u32>,
    made: u32,
}
thread_local! {
    static LED: RefCell<Led> = RefCell::new(Led { drops: BTreeMap::new(), made: 0 });
    static RACES: Cell<bool> = Cell::new(false);
    static PUSHES: Cell<usize> = Cell::new(0);
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}
struct Val {
    id: u32,
    cell: Option<UnsafeCell<u32>>,
}
unsafe impl Send for Val {}
unsafe impl Sync for Val {}
impl Val {
    fn new(id: u32) -> Val {
        LED.with(|l| {
            let mut l = l.borrow_mut();
            l.drops.insert(id, 0);
            l.made += 1;
        });
        let cell = if RACES.with(|r| r.get()) {
            let c = UnsafeCell::new(0);
            c.with_mut(|p| unsafe { *p = id });
            Some(c)
        } else {
            None
        };
        Val { id, cell }
    }
    /// Whoever has taken it off may write to it.
    fn take(&self) {
        if let Some(c) = &self.cell {
            c.with_mut(|p| unsafe { assert_eq!(*p, self.id) });
        }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        LED.with(|l| *l.borrow_mut().drops.entry(self.id).or_insert(0) += 1);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Res {
    Push(u32),
    Pop(Option<u32>),
    Len(usize),
    Empty(bool),
    Sig,
    Obs(bool),
}
fn show(h: &[Vec<Res>]) -> String {
    h.iter()
        .enumerate()
        .map(|(i, t)| {
            let n = if i == 0 { "before".into() } else if i + 1 == h.len() { "after".into() } else { format!("thread {}", i) };
            format!("{}: {}", n, t.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>().join(" "))
        })
        .collect::<Vec<_>>()
        .join("; ")
}

fn run_ops(s: &Stack<Val>, ops: &[Op], base: u32, flag: &loom::sync::atomic::AtomicUsize, what: What) -> Result<(Vec<Res>, Vec<Val>), String> {
    let mut out = vec![];
    let mut kept = vec![];
    for (i, o) in ops.iter().enumerate() {
        match o {
            Push => {
                let id = base + i as u32;
                let v = Val::new(id);
                PUSHES.with(|p| p.set(p.get() + 1));
                s.push(v);
                out.push(Res::Push(id));
            }
            Pop => {
                let v = s.try_pop();
                if let Some(v) = &v {
                    v.take();
                }
                out.push(Res::Pop(v.as_ref().map(|v| v.id)));
                kept.extend(v);
            }
            Len => {
                let n = s.len();
                let p = PUSHES.with(|p| p.get());
                if what == What::Length && n > p {
                    return Err(format!("the length is given as {} when at most {} elements were ever pushed", n, p));
                }
                out.push(Res::Len(n));
            }
            Empty => {
                out.push(Res::Empty(s.is_empty()));
            }
            Sig => {
                flag.store(1, Ordering::Release);
                out.push(Res::Sig);
            }
            Obs => out.push(Res::Obs(flag.load(Ordering::Acquire) == 1)),
        }
    }
    Ok((out, kept))
}

/// Whether the results are those of some sequential execution of a stack that keeps the order of
/// each thread, the phases before and after, and what was observed to be done.
fn linear(h: &[Vec<Res>]) -> bool {
    fn go(h: &[Vec<Res>], at: &mut Vec<usize>, stack: &mut Vec<u32>, seen: &mut HashSet<(Vec<usize>, Vec<u32>)>) -> bool {
        let last = h.len() - 1;
        if at.iter().zip(h).all(|(a, t)| *a == t.len()) {
            return true;
        }
        if !seen.insert((at.clone(), stack.clone())) {
            return false;
        }
        for t in 0..h.len() {
            if at[t] == h[t].len() {
                continue;
            }
            if t > 0 && at[0] < h[0].len() {
                continue;
            }
            if t == last && (0..last).any(|u| at[u] < h[u].len()) {
                continue;
            }
            let r = h[t][at[t]];
            let undo: Option<Option<u32>>;
            match r {
                Res::Push(v) => {
                    stack.push(v);
                    undo = Some(None);
                }
                Res::Pop(None) => {
                    if !stack.is_empty() {
                        continue;
                    }
                    undo = None;
                }
                Res::Pop(Some(v)) => {
                    if stack.last() != Some(&v) {
                        continue;
                    }
                    stack.pop();
                    undo = Some(Some(v));
                }
                Res::Obs(true) => {
                    // the signal must have been given
                    let ok = (1..last).any(|u| u != t && h[u][..at[u]].contains(&Res::Sig));
                    if !ok {
                        continue;
                    }
                    undo = None;
                }
                _ => undo = None,
            }
            at[t] += 1;
            let ok = go(h, at, stack, seen);
            at[t] -= 1;
            match undo {
                Some(None) => {
                    stack.pop();
                }
                Some(Some(v)) => stack.push(v),
                None => {}
            }
            if ok {
                return true;
            }
        }
        false
    }
    go(h, &mut vec![0; h.len()], &mut vec![], &mut HashSet::new())
}

fn body(p: &Prog, what: What, outcomes: &Mutex<HashSet<String>>) {
    model::begin();
    LED.with(|l| *l.borrow_mut() = Led { drops: BTreeMap::new(), made: 0 });
    PUSHES.with(|p| p.set(0));
    RACES.with(|r| r.set(what == What::Memory));
    model::races(what == What::Memory);
    let fail = |m: String| -> ! { panic!("VIOLATED {}", m) };

    let s: Arc<Stack<Val>> = Arc::new(Stack::new());
    let flag = Arc::new(loom::sync::atomic::AtomicUsize::new(0));
    let pre = vec![Push; p.pre];
    let (h0, _) = run_ops(&s, &pre, 100, &flag, what).unwrap_or_else(|m| fail(m));
    let mut hist = vec![h0];
    let mut kept = vec![];
    let out: Arc<Mutex<Vec<Option<Result<(Vec<Res>, Vec<Val>), String>>>>> = Arc::new(Mutex::new((0..p.threads.len()).map(|_| None).collect()));
    let notify = Rc::new(loom::sync::Notify::new());
    let handles: Vec<_> = p
        .threads
        .iter()
        .enumerate()
        .map(|(i, ops)| {
            let (s, ops, flag, out) = (s.clone(), ops.clone(), flag.clone(), out.clone());
            let notify = Held(notify.clone());
            let stall = p.stall.filter(|_| i == 0);
            loom::thread::spawn(move || {
                let n = notify;
                if let Some(k) = stall {
                    model::stall(k, n.0.clone());
                }
                let r = run_ops(&s, &ops, (i as u32 + 2) * 100, &flag, what);
                out.lock().unwrap()[i] = Some(r);
            })
        })
        .collect();
    let mut handles = handles.into_iter();
    let first = handles.next().unwrap();
    for h in handles {
        h.join().unwrap();
    }
    if p.stall.is_some() {
        // the others are done although the first may stand still
        notify.notify();
    }
    first.join().unwrap();
    let outs = std::mem::take(&mut *out.lock().unwrap());
    for o in outs {
        match o.expect("a thread has ended without a result") {
            Ok((h, k)) => {
                hist.push(h);
                kept.push(k);
            }
            Err(m) => fail(m),
        }
    }
    let count = {
        let f = |g: fn(&Res) -> bool| hist.iter().flatten().filter(|r| g(r)).count();
        f(|r| matches!(r, Res::Push(_))).saturating_sub(f(|r| matches!(r, Res::Pop(Some(_)))))
    };
    if what == What::Length {
        let (n, e) = (s.len(), s.is_empty());
        if n != count {
            fail(format!("when all threads are done the length is given as {} for {} elements ({})", n, count, show(&hist)));
        }
        if e != (count == 0) {
            fail(format!("when all threads are done is_empty is {} for {} elements ({})", e, count, show(&hist)));
        }
        for k in 0..count + 1 {
            kept.push(s.try_pop().into_iter().collect());
            let n = s.len();
            let c = count.saturating_sub(k + 1);
            if n != c {
                fail(format!("emptying the stack afterwards the length is given as {} for {} elements", n, c));
            }
        }
    }
    if what == What::Results || what == What::Progress {
        let mut post = vec![];
        loop {
            match s.try_pop() {
                Some(v) => {
                    post.push(Res::Pop(Some(v.id)));
                    kept.push(vec![v]);
                    if post.len() > 20 {
                        break;
                    }
                }
                None => {
                    post.push(Res::Pop(None));
                    break;
                }
            }
        }
        hist.push(post);
        if what == What::Results && !linear(&hist) {
            fail(format!("no order of the operations explains their results ({})", show(&hist)));
        }
    }
    {
        let mut o = outcomes.lock().unwrap();
        if o.len() < 100_000 {
            o.insert(show(&hist));
        }
    }
    drop(kept);
    let s = match Arc::try_unwrap(s) {
        Ok(s) => s,
        Err(_) => fail("the stack is still shared".into()),
    };
    drop(s);
    let errors = model::end();
    if what == What::Memory {
        if let Some(e) = errors.first() {
            fail(format!("{} ({})", e, show(&hist)));
        }
        let bad = LED.with(|l| l.borrow().drops.iter().find(|d| *d.1 != 1).map(|d| (*d.0, *d.1)));
        if let Some((id, n)) = bad {
            fail(format!("the value {} was dropped {} times ({})", id, n, show(&hist)));
        }
    }
}
struct Held<T>(T);
unsafe impl<T> Send for Held<T> {}

// ---- families of programs

fn seqs(ops: &[Op], max: usize) -> Vec<Vec<Op>> {
    let mut all: Vec<Vec<Op>> = vec![];
    let mut cur: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for c in &cur {
            for o in ops {
                let mut c = c.clone();
                c.push(*o);
                next.push(c);
            }
        }
        all.extend(next.iter().cloned());
        cur = next;
    }
    all
}
fn pairs(a: &[Vec<Op>], pre: std::ops::RangeInclusive<usize>, bound: Option<usize>, v: &mut Vec<Prog>) {
    for n in pre {
        for i in 0..a.len() {
            for j in i..a.len() {
                v.push(Prog { pre: n, threads: vec![a[i].clone(), a[j].clone()], bound, stall: None });
            }
        }
    }
}
fn triples(a: &[Vec<Op>], pre: std::ops::RangeInclusive<usize>, bound: Option<usize>, v: &mut Vec<Prog>) {
    for n in pre {
        for i in 0..a.len() {
            for j in i..a.len() {
                for k in j..a.len() {
                    v.push(Prog { pre: n, threads: vec![a[i].clone(), a[j].clone(), a[k].clone()], bound, stall: None });
                }
            }
        }
    }
}
fn programs(what: What, th: bool) -> Vec<Prog> {
    let mut v = vec![];
    let pp = [Push, Pop];
    match what {
        What::Results | What::Memory => {
            pairs(&seqs(&pp, 1), 0..=2, None, &mut v);
            pairs(&seqs(&pp, 2), 0..=2, if th { None } else { Some(4) }, &mut v);
            pairs(&seqs(&pp, 3), if th { 0..=2 } else { 1..=1 }, Some(if th { 4 } else { 2 }), &mut v);
            triples(&seqs(&pp, 1), 0..=2, if th { None } else { Some(3) }, &mut v);
            triples(&seqs(&pp, 2), if th { 0..=2 } else { 1..=1 }, Some(if th { 3 } else { 1 }), &mut v);
            if what == What::Results {
                for a in seqs(&pp, 2) {
                    for b in seqs(&pp, 2) {
                        let mut x = a.clone();
                        x.push(Sig);
                        let mut y = vec![Obs];
                        y.extend(b.iter());
                        v.push(Prog { pre: 1, threads: vec![x, y], bound: if th { None } else { Some(3) }, stall: None });
                    }
                }
            }
        }
        What::Length => {
            let all = [Push, Pop, Len, Empty];
            pairs(&seqs(&all, 2), 0..=2, if th { None } else { Some(3) }, &mut v);
            v.retain(|p| p.threads.iter().flatten().any(|o| *o == Len));
            for n in 0..=2 {
                for a in seqs(&pp, 2) {
                    for b in seqs(&pp, 2) {
                        v.push(Prog { pre: n, threads: vec![a.clone(), b.clone(), vec![Len]], bound: Some(if th { 4 } else { 2 }), stall: None });
                    }
                }
            }
        }
        What::Progress => {
            let all = [Push, Pop, Len];
            let ones = seqs(&all, 1);
            for pre in 0..=2 {
                for first in [Push, Pop] {
                    for stall in 0..if th { 20 } else { 9 } {
                        let firsts = if th { vec![vec![first], vec![first, Push], vec![first, Pop]] } else { vec![vec![first], vec![first, Pop]] };
                        for f in firsts {
                            for a in seqs(&all, 2) {
                                v.push(Prog { pre, threads: vec![f.clone(), a.clone()], bound: Some(if th { 4 } else { 2 }), stall: Some(stall) });
                            }
                            for a in &ones {
                                for b in &ones {
                                    if th || a <= b {
                                        v.push(Prog { pre, threads: vec![f.clone(), a.clone(), b.clone()], bound: Some(if th { 2 } else { 1 }), stall: Some(stall) });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

fn arg(n: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let id = arg("--property").expect("--property");
    let th = arg("--tier").map_or(false, |t| t == "thorough");
    let what = match id.as_str() {
        "C01" => What::Results,
        "C02" => What::Memory,
        "C03" => What::Length,
        "C04" => What::Progress,
        _ => panic!("unknown property"),
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start = Instant::now();
    let progs = programs(what, th);
    let budget = Duration::from_secs(if th { 2400 } else { 300 });
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let m = match i.location() {
            Some(l) if !m.starts_with("VIOLATED") => format!("{} [{}:{}]", m, l.file().rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line()),
            _ => m,
        };
        PANIC.with(|p| {
            p.borrow_mut().get_or_insert(m);
        });
    }));
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let execs = Arc::new(AtomicU64::new(0));
    let skipped: Arc<Mutex<Vec<String>>> = Arc::default();
    let bad: Arc<Mutex<Option<(usize, String)>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(usize, u64, usize, bool)>>> = Arc::default();
    let progs = Arc::new(progs);
    let beat: Arc<Vec<(AtomicU64, AtomicUsize)>> = Arc::new((0..8).map(|_| (AtomicU64::new(0), AtomicUsize::new(usize::MAX))).collect());
    for w in 0..8 {
        let (next, done, execs, skipped, bad, stop, results, progs, beat) = (next.clone(), done.clone(), execs.clone(), skipped.clone(), bad.clone(), stop.clone(), results.clone(), progs.clone(), beat.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= progs.len() || stop.load(Ordering::Relaxed) {
                    beat[w].1.store(usize::MAX, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Relaxed);
                    return;
                }
                let p = progs[i].clone();
                beat[w].0.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                beat[w].1.store(i, Ordering::Relaxed);
                let n = Arc::new(AtomicU64::new(0));
                let outcomes: Arc<Mutex<HashSet<String>>> = Arc::default();
                PANIC.with(|p| *p.borrow_mut() = None);
                let cut = Arc::new(AtomicBool::new(false));
                let r = {
                    let (n, outcomes, execs, beat, stop, cut) = (n.clone(), outcomes.clone(), execs.clone(), beat.clone(), stop.clone(), cut.clone());
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let mut b = loom::model::Builder::new();
                        b.preemption_bound = p.bound;
                        b.max_branches = 2000;
                        b.check(move || {
                            n.fetch_add(1, Ordering::Relaxed);
                            execs.fetch_add(1, Ordering::Relaxed);
                            beat[w].0.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            if stop.load(Ordering::Relaxed) || start.elapsed() > budget {
                                cut.store(true, Ordering::Relaxed);
                                panic!("CUT");
                            }
                            body(&p, what, &outcomes)
                        })
                    }))
                };
                let o = outcomes.lock().unwrap().len();
                let mut complete = true;
                if r.is_err() {
                    complete = false;
                    let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    if !cut.load(Ordering::Relaxed) {
                        if m.contains("assertion `left != right` failed") && m.contains("rt/atomic.rs") {
                            // a limitation of loom ("this sometimes fails" in its source), not a verdict
                            skipped.lock().unwrap().push(progs[i].name());
                        } else {
                            let m = m.strip_prefix("VIOLATED ").map(|s| s.to_string()).unwrap_or_else(|| {
                                if m.contains("exceeded maximum number of branches") {
                                    "an operation goes on for ever while other threads stand still".into()
                                } else if m.contains("deadlock") {
                                    "the threads wait for each other for ever".into()
                                } else {
                                    m
                                }
                            });
                            let m = m.split_whitespace().collect::<Vec<_>>().join(" ");
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().map_or(true, |x| i < x.0) {
                                *b = Some((i, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                results.lock().unwrap().push((i, n.load(Ordering::Relaxed), o, complete));
            })
            .unwrap();
    }
    while done.load(Ordering::Relaxed) < 8 {
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed().as_millis() as u64;
        let hung = beat.iter().find(|b| b.1.load(Ordering::Relaxed) != usize::MAX && now.saturating_sub(b.0.load(Ordering::Relaxed)) > 30_000);
        if let Some(b) = hung {
            let mut bd = bad.lock().unwrap();
            if bd.is_none() {
                *bd = Some((b.1.load(Ordering::Relaxed), "one execution goes on for more than 30 s".into()));
            }
            break;
        }
    }
    let mut results = results.lock().unwrap().clone();
    results.sort();
    let bad = bad.lock().unwrap().clone();
    let skipped = skipped.lock().unwrap().clone();
    let complete = results.len() == progs.len() && results.iter().all(|r| r.3);
    let ex = execs.load(Ordering::Relaxed);
    let outs: usize = results.iter().map(|r| r.2).sum();
    let ndone = results.iter().filter(|r| r.3).count();
    println!("{}: {} of {} programs explored completely, {} executions, {} distinct outcomes{} ({:.1} s)", id, ndone, progs.len(), ex, outs, if skipped.is_empty() { String::new() } else { format!(", {} programs that loom cannot explore", skipped.len()) }, start.elapsed().as_secs_f64());
    let biggest: Vec<String> = {
        let mut r = results.clone();
        r.sort_by_key(|r| std::cmp::Reverse(r.1));
        r.iter().take(5).map(|r| js(&format!("{}: {} executions, {} distinct outcomes", progs[r.0].name(), r.1, r.2))).collect()
    };
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"schedules\": {}, \"programs\": {}, \"programs_explored_completely\": {}, \"programs_loom_cannot_explore\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        js(&id),
        js(if th { "thorough" } else { "quick" }),
        seed,
        outs,
        ex,
        ex,
        ex,
        progs.len(),
        ndone,
        skipped.len(),
        complete,
        js("An execution runs a program (what each thread does with one stack) on the code itself under one schedule and one choice of the values its atomic loads return; loom enumerates them all up to the preemption bound stated per program, leaving out those that differ only in the order of independent steps. `states` counts distinct outcomes (results of all operations), `transitions` executions."),
        biggest.join(", "),
        [
            js("loom's C11 model: the seven most recent stores to a location may be read; no load buffering; every SeqCst access is treated as AcqRel"),
            js("crossbeam-epoch keeps its promise: what a guard protects is not given back while the guard lives (its interface is modelled, its inside is not checked)"),
            js("bounded programs: 2-3 threads of 1-3 operations on stacks of 0-2 elements")
        ]
        .join(", "),
        start.elapsed().as_secs_f64(),
        bad.is_some() as u8
    );
    if let Some(f) = arg("--evidence") {
        std::fs::write(f, ev).expect("evidence");
    }
    if let Some((i, m)) = bad {
        let f = format!("{}/{}.json", arg("--replays").unwrap_or(".".into()), id);
        let _ = std::fs::write(&f, format!("{{\"property\": {}, \"program\": {}, \"number\": {}, \"message\": {}}}\n", js(&id), js(&progs[i].name()), i, js(&m)));
        println!("{}: {}", progs[i].name(), m);
        println!("VIOLATION property={} replay={}", id, f);
        std::process::exit(1);
    }
    println!("{}: held on everything explored", id);
    std::process::exit(0);
}
