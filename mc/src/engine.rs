//! Exhaustive exploration of operation sequences on the real code.
use crate::util::{json_str, H};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R<T> = Result<T, String>;

/// One system: real code and a reference model, driven by numbered operations.
pub trait Scenario: Send + Sync {
    fn name(&self) -> String;
    fn op_name(&self, op: u16) -> String;
    /// A fresh instance of the real code with its model.
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a>;
    /// Are leaks, double drops and heap corruption part of what is checked?
    fn ownership(&self) -> bool {
        false
    }
    /// Are leaks left out of that?
    fn may_leak(&self) -> bool {
        false
    }
}

pub trait Inst {
    /// Operations to explore from here (decided by the model alone).
    fn enabled(&self) -> Vec<u16>;
    /// Executes `op` on both and compares what they return. `last`: the trace ends here.
    fn step(&mut self, op: u16, last: bool) -> R<()>;
    /// Full observation of the real code against the model; returns a hash of the state.
    fn finish(self: Box<Self>) -> R<u128>;
}

const NSLOT: usize = 16;
const SLOT_TRACE: usize = 6000;

#[repr(C)]
struct Slot {
    seq: AtomicU64,
    busy: AtomicU64,
    scn: AtomicU64,
    len: AtomicU64,
    trace: [u16; SLOT_TRACE],
}

#[repr(C)]
struct Shared {
    slots: [Slot; NSLOT],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();

fn shared() -> &'static mut Shared {
    unsafe {
        if SHARED.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            SHARED = p as *mut Shared;
        }
        &mut *SHARED
    }
}

thread_local! {
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::untracked(|| {
            let m = format!("{}", info);
            if PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(m.clone())).is_err() {
                eprintln!("{}", m);
            }
        })
    }));
}

pub fn take_panic() -> String {
    PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Calls into the real code where a panic is an expected answer. `Err` holds the message.
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            drop(p);
            Err(crate::alloc::untracked(take_panic))
        }
    }
}

pub struct Violation {
    pub scn: usize,
    pub trace: Vec<u16>,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub name: String,
    pub what: String,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub steps: u64,
    pub max_len: usize,
    pub exhausted: bool,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub scns: Vec<Box<dyn Scenario>>,
    pub threads: usize,
    pub deadline: Instant,
    pub stats: Vec<Stats>,
    pub violation: Mutex<Option<Violation>>,
    stop: AtomicBool,
    pub out_of_time: AtomicBool,
}

enum TraceRes {
    Ok(u128),
    Bad(String),
}

pub fn show_trace(s: &dyn Scenario, t: &[u16]) -> String {
    let mut o = String::new();
    for (i, op) in t.iter().enumerate() {
        if i > 0 {
            o.push_str("; ");
        }
        let _ = write!(o, "{}", s.op_name(*op));
        if i > 200 {
            let _ = write!(o, "; … ({} operations)", t.len());
            break;
        }
    }
    o
}

fn run_trace(scns: &[Box<dyn Scenario>], si: usize, trace: &[u16]) -> TraceRes {
    let w = WORKER.with(|w| w.get());
    let slot = &mut shared().slots[w];
    slot.seq.fetch_add(1, Ordering::Relaxed);
    slot.scn.store(si as u64, Ordering::Relaxed);
    let n = trace.len().min(SLOT_TRACE);
    slot.trace[..n].copy_from_slice(&trace[..n]);
    slot.len.store(n as u64, Ordering::Relaxed);
    slot.busy.store(1, Ordering::SeqCst);
    let scn = &*scns[si];
    crate::tok::ledger_reset();
    crate::alloc::scope_begin();
    let mut done = 0usize;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut inst = scn.fresh();
        for (i, op) in trace.iter().enumerate() {
            done = i;
            inst.step(*op, i + 1 == trace.len())?;
        }
        done = trace.len();
        inst.finish()
    }));
    let bad = r.is_err();
    let out = crate::alloc::untracked(|| match r {
        Ok(Ok(k)) => TraceRes::Ok(k),
        Ok(Err(m)) => {
            let at = if done < trace.len() {
                format!("step {} ({})", done + 1, scn.op_name(trace[done]))
            } else {
                "final observation".to_string()
            };
            TraceRes::Bad(format!("{}: {}", at, m))
        }
        Err(_) => {
            let at = if done < trace.len() {
                format!("step {} ({})", done + 1, scn.op_name(trace[done]))
            } else {
                "final observation".to_string()
            };
            TraceRes::Bad(format!("{}: panic: {}", at, take_panic()))
        }
    });
    let _ = bad;
    let e = crate::alloc::scope_end();
    rand::ctrl::set_fixed(None);
    slot.busy.store(0, Ordering::SeqCst);
    if let TraceRes::Ok(_) = out {
        if scn.ownership() {
            if let Some(f) = crate::tok::ledger_fault() {
                return TraceRes::Bad(f);
            }
            if let Some(f) = e.fault {
                return TraceRes::Bad(f.into());
            }
            if scn.may_leak() {
                return out;
            }
            let l = crate::tok::ledger_live();
            if l != 0 {
                return TraceRes::Bad(format!("{} element(s) never dropped", l));
            }
            if e.live > 0 {
                return TraceRes::Bad(format!("{} heap block(s) leaked", e.live));
            }
        }
    }
    out
}

static COUNTS: Mutex<std::collections::BTreeMap<&'static str, u64>> = Mutex::new(std::collections::BTreeMap::new());
/// Counts something that the evidence reports.
pub fn count(what: &'static str, n: u64) {
    *COUNTS.lock().unwrap().entry(what).or_insert(0) += n;
}

pub fn nthreads() -> usize {
    std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4))
        .min(NSLOT)
        .max(1)
}

struct Node {
    trace: Vec<u16>,
    hist: Vec<u128>,
}

impl Ctx {
    pub fn new(scns: Vec<Box<dyn Scenario>>, budget: Duration) -> Ctx {
        Ctx {
            scns,
            threads: nthreads(),
            deadline: Instant::now() + budget,
            stats: vec![],
            violation: Mutex::new(None),
            stop: AtomicBool::new(false),
            out_of_time: AtomicBool::new(false),
        }
    }

    pub fn failed(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    fn report(&self, scn: usize, trace: &[u16], msg: String) {
        self.stop.store(true, Ordering::SeqCst);
        let mut v = self.violation.lock().unwrap();
        let better = match &*v {
            None => true,
            Some(o) => trace.len() < o.trace.len(),
        };
        if better {
            *v = Some(Violation { scn, trace: trace.to_vec(), msg });
        }
    }

    fn par<T: Sync>(&self, items: &[T], f: impl Fn(usize, &T) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (items.len() / (self.threads * 32)).clamp(1, 256);
        std::thread::scope(|s| {
            for w in 0..self.threads {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        WORKER.with(|x| x.set(w));
                        loop {
                            if self.stop.load(Ordering::Relaxed) {
                                return;
                            }
                            if Instant::now() > self.deadline {
                                self.out_of_time.store(true, Ordering::SeqCst);
                                return;
                            }
                            let i = next.fetch_add(chunk, Ordering::Relaxed);
                            if i >= items.len() {
                                return;
                            }
                            for j in i..(i + chunk).min(items.len()) {
                                f(j, &items[j]);
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
    }

    /// Breadth-first exploration of every operation sequence, merging states that agree in
    /// everything observed; `hist` previous observed states and operations are part of the
    /// state too, so that what cannot be observed directly is told apart that far.
    pub fn bfs(&mut self, si: usize, depth: usize, hist: usize, cap: usize) {
        self.bfs_from(si, vec![vec![]], depth, hist, cap)
    }

    pub fn bfs_from(&mut self, si: usize, init: Vec<Vec<u16>>, depth: usize, hist: usize, cap: usize) {
        if self.failed() {
            return;
        }
        let name = self.scns[si].name();
        let visited: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let plain: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let edges: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let traces = AtomicU64::new(0);
        let steps = AtomicU64::new(0);
        let nvis = AtomicU64::new(0);
        let capped = AtomicBool::new(false);
        let add = |set: &Vec<Mutex<HashSet<u128>>>, k: u128| set[(k >> 7) as usize & 63].lock().unwrap().insert(k);
        let mut frontier: Vec<Node> = vec![];
        let mut samples: Vec<String> = vec![];
        let nexts: Mutex<Vec<Node>> = Mutex::new(vec![]);
        self.par(&init, |_, t| {
            traces.fetch_add(1, Ordering::Relaxed);
            steps.fetch_add(t.len() as u64, Ordering::Relaxed);
            match run_trace(&self.scns, si, t) {
                TraceRes::Bad(m) => self.report(si, t, m),
                TraceRes::Ok(k) => {
                    add(&plain, k);
                    if add(&visited, k) {
                        nvis.fetch_add(1, Ordering::Relaxed);
                        nexts.lock().unwrap().push(Node { trace: t.clone(), hist: vec![k] });
                    }
                }
            }
        });
        frontier.append(&mut nexts.lock().unwrap());
        let mut level = 0;
        let mut maxlen = 0;
        while level < depth && !frontier.is_empty() && !self.failed() {
            level += 1;
            frontier.sort_by(|a, b| a.trace.cmp(&b.trace));
            let cur = std::mem::take(&mut frontier);
            if let Some(n) = cur.last() {
                maxlen = maxlen.max(n.trace.len() + 1);
            }
            self.par(&cur, |_, n| {
                let enabled = {
                    // the model decides; the real code is driven along
                    let w = WORKER.with(|w| w.get());
                    let slot = &mut shared().slots[w];
                    let l = n.trace.len().min(SLOT_TRACE);
                    slot.scn.store(si as u64, Ordering::Relaxed);
                    slot.trace[..l].copy_from_slice(&n.trace[..l]);
                    slot.len.store(l as u64, Ordering::Relaxed);
                    slot.seq.fetch_add(1, Ordering::Relaxed);
                    slot.busy.store(1, Ordering::SeqCst);
                    crate::tok::ledger_reset();
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let mut inst = self.scns[si].fresh();
                        for op in n.trace.iter() {
                            inst.step(*op, false)?;
                        }
                        Ok::<_, String>(inst.enabled())
                    }));
                    slot.busy.store(0, Ordering::SeqCst);
                    match r {
                        Ok(Ok(x)) => x,
                        Ok(Err(m)) => {
                            self.report(si, &n.trace, format!("the same sequence gave another result: {}", m));
                            return;
                        }
                        Err(_) => {
                            self.report(si, &n.trace, format!("panic: {}", take_panic()));
                            return;
                        }
                    }
                };
                let mut fresh: Vec<Node> = vec![];
                let mut t = n.trace.clone();
                for op in enabled {
                    t.push(op);
                    traces.fetch_add(1, Ordering::Relaxed);
                    steps.fetch_add(t.len() as u64, Ordering::Relaxed);
                    match run_trace(&self.scns, si, &t) {
                        TraceRes::Bad(m) => {
                            self.report(si, &t, m);
                            return;
                        }
                        TraceRes::Ok(k) => {
                            add(&plain, k);
                            let mut e = H::new();
                            e.u(*n.hist.last().unwrap() as u64);
                            e.u((n.hist.last().unwrap() >> 64) as u64);
                            e.u(op as u64);
                            add(&edges, e.fin());
                            let mut h = H::new();
                            let mut keep: Vec<u128> = vec![];
                            if hist > 0 {
                                let from = n.hist.len().saturating_sub(2 * hist - 1);
                                keep.extend_from_slice(&n.hist[from..]);
                                keep.push(op as u128);
                            }
                            keep.push(k);
                            for x in &keep {
                                h.u(*x as u64);
                                h.u((*x >> 64) as u64);
                            }
                            let hk = if hist == 0 { k } else { h.fin() };
                            if add(&visited, hk) {
                                if nvis.fetch_add(1, Ordering::Relaxed) as usize >= cap {
                                    capped.store(true, Ordering::Relaxed);
                                } else {
                                    fresh.push(Node { trace: t.clone(), hist: keep });
                                }
                            }
                        }
                    }
                    t.pop();
                }
                nexts.lock().unwrap().append(&mut fresh);
            });
            frontier.append(&mut nexts.lock().unwrap());
            if !cur.is_empty() {
                let k = cur.len() / 2;
                samples.push(show_trace(&*self.scns[si], &cur[k].trace));
            }
        }
        let closed = frontier.is_empty() && !capped.load(Ordering::Relaxed) && !self.out_of_time.load(Ordering::Relaxed);
        let n = samples.len();
        let samples = samples.into_iter().enumerate().filter(|(i, _)| *i + 2 >= n || *i == n / 2).map(|x| x.1).collect();
        self.stats.push(Stats {
            name,
            what: format!(
                "breadth-first, {} (history part of a state: {} steps; depth {}{})",
                if closed { "every reachable state: nothing new left to expand" } else { "bounded" },
                hist,
                level,
                if capped.load(Ordering::Relaxed) { "; state cap hit" } else { "" }
            ),
            states: plain.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
            transitions: edges.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
            traces: traces.load(Ordering::Relaxed),
            steps: steps.load(Ordering::Relaxed),
            max_len: maxlen,
            exhausted: !capped.load(Ordering::Relaxed) && !self.out_of_time.load(Ordering::Relaxed),
            samples,
        });
    }

    /// Every sequence of at most `depth` operations, no merging of states.
    pub fn dfs(&mut self, si: usize, prefixes: Vec<Vec<u16>>, depth: usize) {
        if self.failed() {
            return;
        }
        let name = self.scns[si].name();
        let traces = AtomicU64::new(0);
        let steps = AtomicU64::new(0);
        let keys: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let samples = Mutex::new(Vec::<String>::new());
        // split the tree at depth 2 (or less) into work items
        let mut items: Vec<(Vec<u16>, usize, bool)> = vec![];
        let split = depth.min(2);
        for p in &prefixes {
            let mut cur = vec![p.clone()];
            for d in 0..split {
                let mut nx = vec![];
                for t in cur {
                    items.push((t.clone(), depth - d, false));
                    for op in self.enabled_after(si, &t) {
                        let mut u = t.clone();
                        u.push(op);
                        nx.push(u);
                    }
                }
                cur = nx;
            }
            for t in cur {
                items.push((t, depth - split, true));
            }
        }
        let maxlen = AtomicUsize::new(0);
        self.par(&items, |i, (t, left, deep)| {
            let mut stack: Vec<(Vec<u16>, usize)> = vec![(t.clone(), if *deep { *left } else { 0 })];
            while let Some((t, left)) = stack.pop() {
                if self.failed() {
                    return;
                }
                if Instant::now() > self.deadline {
                    self.out_of_time.store(true, Ordering::SeqCst);
                    return;
                }
                traces.fetch_add(1, Ordering::Relaxed);
                steps.fetch_add(t.len() as u64, Ordering::Relaxed);
                maxlen.fetch_max(t.len(), Ordering::Relaxed);
                match run_trace(&self.scns, si, &t) {
                    TraceRes::Bad(m) => {
                        self.report(si, &t, m);
                        return;
                    }
                    TraceRes::Ok(k) => {
                        keys[(k >> 7) as usize & 63].lock().unwrap().insert(k);
                    }
                }
                if left > 0 {
                    for op in self.enabled_after(si, &t) {
                        let mut u = t.clone();
                        u.push(op);
                        stack.push((u, left - 1));
                    }
                } else if i % 997 == 3 && samples.lock().unwrap().len() < 3 {
                    samples.lock().unwrap().push(show_trace(&*self.scns[si], &t));
                }
            }
        });
        let tr = traces.load(Ordering::Relaxed);
        let samples = samples.into_inner().unwrap();
        self.stats.push(Stats {
            name,
            what: format!("every sequence of up to {} operations after each of {} starting sequences, states not merged", depth, prefixes.len()),
            states: keys.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
            transitions: tr.saturating_sub(prefixes.len() as u64),
            traces: tr,
            steps: steps.load(Ordering::Relaxed),
            max_len: maxlen.load(Ordering::Relaxed),
            exhausted: !self.out_of_time.load(Ordering::Relaxed),
            samples,
        });
    }

    fn enabled_after(&self, si: usize, t: &[u16]) -> Vec<u16> {
        let w = WORKER.with(|w| w.get());
        let slot = &mut shared().slots[w];
        let l = t.len().min(SLOT_TRACE);
        slot.scn.store(si as u64, Ordering::Relaxed);
        slot.trace[..l].copy_from_slice(&t[..l]);
        slot.len.store(l as u64, Ordering::Relaxed);
        slot.seq.fetch_add(1, Ordering::Relaxed);
        slot.busy.store(1, Ordering::SeqCst);
        crate::tok::ledger_reset();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut inst = self.scns[si].fresh();
            for op in t {
                inst.step(*op, false)?;
            }
            Ok::<_, String>(inst.enabled())
        }));
        slot.busy.store(0, Ordering::SeqCst);
        match r {
            Ok(Ok(x)) => x,
            Ok(Err(m)) => {
                self.report(si, t, m);
                vec![]
            }
            Err(_) => {
                self.report(si, t, format!("panic: {}", take_panic()));
                vec![]
            }
        }
    }

    /// Runs a given finite family of sequences.
    pub fn family(&mut self, si: usize, what: &str, traces: Vec<Vec<u16>>) {
        if self.failed() {
            return;
        }
        let name = self.scns[si].name();
        let steps = AtomicU64::new(0);
        let n = AtomicU64::new(0);
        let keys: Mutex<HashSet<u128>> = Mutex::new(HashSet::new());
        self.par(&traces, |_, t| {
            n.fetch_add(1, Ordering::Relaxed);
            steps.fetch_add(t.len() as u64, Ordering::Relaxed);
            match run_trace(&self.scns, si, t) {
                TraceRes::Bad(m) => self.report(si, t, m),
                TraceRes::Ok(k) => {
                    keys.lock().unwrap().insert(k);
                }
            }
        });
        let mut samples = vec![];
        if let Some(t) = traces.get(traces.len() / 2) {
            samples.push(show_trace(&*self.scns[si], t));
        }
        let nk = keys.lock().unwrap().len() as u64;
        self.stats.push(Stats {
            name,
            what: format!("family: {}", what),
            states: nk,
            transitions: n.load(Ordering::Relaxed),
            traces: n.load(Ordering::Relaxed),
            steps: steps.load(Ordering::Relaxed),
            max_len: traces.iter().map(|t| t.len()).max().unwrap_or(0),
            exhausted: !self.out_of_time.load(Ordering::Relaxed),
            samples,
        });
    }

    pub fn add(&mut self, s: Box<dyn Scenario>) -> usize {
        self.scns.push(s);
        self.scns.len() - 1
    }
}

// ---------------------------------------------------------------------------------------
// Command line, supervision, evidence

pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub evidence: String,
    /// Where to leave what this run counted, for the run of the other build.
    pub keep: Option<String>,
    /// What the run of the first build counted.
    pub after: Option<String>,
    pub replay_dir: String,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Builds the scenarios (the same list for exploring and for replaying).
    pub scenarios: fn(thorough: bool) -> Vec<Box<dyn Scenario>>,
    /// Explores them.
    pub explore: fn(&mut Ctx, thorough: bool),
    pub budget_s: (u64, u64),
    pub hang_s: u64,
}

enum ChildEnd {
    Exit(i32),
    Signal(i32),
    Hang,
}

fn wait_child(pid: libc::pid_t, hang: Duration, watch: bool) -> ChildEnd {
    let mut last = [0u64; NSLOT];
    let mut since = [Instant::now(); NSLOT];
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            return if libc::WIFEXITED(st) {
                ChildEnd::Exit(libc::WEXITSTATUS(st))
            } else {
                ChildEnd::Signal(libc::WTERMSIG(st))
            };
        }
        std::thread::sleep(Duration::from_millis(20));
        if watch {
            for i in 0..NSLOT {
                let s = &shared().slots[i];
                let q = s.seq.load(Ordering::Relaxed);
                if q != last[i] || s.busy.load(Ordering::SeqCst) == 0 {
                    last[i] = q;
                    since[i] = Instant::now();
                } else if since[i].elapsed() > hang {
                    unsafe {
                        libc::kill(pid, libc::SIGKILL);
                        let mut st = 0;
                        libc::waitpid(pid, &mut st, 0);
                    }
                    return ChildEnd::Hang;
                }
            }
        }
    }
}

fn clear_slots() {
    for s in shared().slots.iter_mut() {
        s.busy.store(0, Ordering::SeqCst);
        s.seq.store(0, Ordering::SeqCst);
    }
}

/// Replays one trace in a child process. Returns what went wrong, if anything did.
fn replay_child(check: &Check, thorough: bool, si: usize, trace: &[u16], hang: Duration) -> Option<String> {
    let path = format!("/tmp/vpmc-replay-{}", std::process::id());
    let _ = std::fs::remove_file(&path);
    clear_slots();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        install_panic_hook();
        let scns = (check.scenarios)(thorough);
        let t = trace.to_vec();
        let p2 = path.clone();
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || match run_trace(&scns, si, &t) {
                TraceRes::Ok(_) => 0,
                TraceRes::Bad(m) => {
                    let _ = std::fs::write(&p2, m);
                    10
                }
            })
            .unwrap();
        let c = h.join().unwrap_or(3);
        unsafe { libc::_exit(c) };
    }
    let r = match wait_child(pid, hang, true) {
        ChildEnd::Exit(0) => None,
        ChildEnd::Exit(10) => Some(std::fs::read_to_string(&path).unwrap_or_default()),
        ChildEnd::Exit(c) => Some(format!("the process ended with status {}", c)),
        ChildEnd::Signal(s) => Some(format!("the process was killed by signal {} ({})", s, signame(s))),
        ChildEnd::Hang => Some("an operation did not return".to_string()),
    };
    let _ = std::fs::remove_file(&path);
    r
}

fn signame(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGABRT => "SIGABRT",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGTRAP => "SIGTRAP",
        libc::SIGKILL => "SIGKILL",
        _ => "signal",
    }
}

fn write_replay(args: &Args, check: &Check, scn: &str, desc: &str, si: usize, trace: &[u16], msg: &str) -> String {
    let _ = std::fs::create_dir_all(&args.replay_dir);
    let path = format!("{}/{}.json", args.replay_dir, check.id);
    let body = format!(
        "{{\"property\":{},\"thorough\":{},\"scenario\":{},\"scenario_name\":{},\"message\":{},\"operations\":{},\"trace\":[{}]}}\n",
        json_str(check.id),
        args.thorough,
        si,
        json_str(scn),
        json_str(msg),
        json_str(desc),
        trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    );
    let _ = std::fs::write(&path, body);
    path
}

fn evidence(args: &Args, check: &Check, stats: &[Stats], counts: &Counts, wall: f64, violations: u32, note: &str) {
    let states: u64 = stats.iter().map(|s| s.states).sum();
    let trans: u64 = stats.iter().map(|s| s.transitions).sum();
    let traces: u64 = stats.iter().map(|s| s.traces).sum();
    let steps: u64 = stats.iter().map(|s| s.steps).sum();
    let ex = stats.iter().all(|s| s.exhausted);
    let mut runs = String::new();
    let mut samples = String::new();
    for s in stats {
        if !runs.is_empty() {
            runs.push(',');
        }
        let _ = write!(
            runs,
            "{{\"scenario\":{},\"what\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"operations\":{},\"longest_trace\":{},\"completed\":{}}}",
            json_str(&s.name),
            json_str(&s.what),
            s.states,
            s.transitions,
            s.traces,
            s.steps,
            s.max_len,
            s.exhausted
        );
        if let Some(x) = s.samples.last() {
            if !samples.is_empty() {
                samples.push(',');
            }
            samples.push_str(&json_str(&format!("{}: {}", s.name, x)));
        }
    }
    let extra: String = counts.iter().map(|(k, n)| format!("{}:{},", json_str(k), n)).collect();
    let assume = check.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(",");
    let body = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":{},\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"operations_executed\":{},{}\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},\"runs\":[{}],\"samples\":[{}],\"note\":{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(check.id),
        if args.thorough { "thorough" } else { "quick" },
        args.seed,
        json_str(check.level),
        states,
        trans,
        traces,
        steps,
        extra,
        traces,
        trans,
        json_str(check.rule),
        ex,
        runs,
        samples,
        json_str(note),
        assume,
        wall,
        violations
    );
    if let Some(d) = std::path::Path::new(&args.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&args.evidence, body).expect("evidence");
}

fn enc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn save_child(path: &str, stats: &[Stats], v: &Option<Violation>) {
    let mut o = String::new();
    for s in stats {
        let _ = writeln!(
            o,
            "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            enc(&s.name),
            enc(&s.what),
            s.states,
            s.transitions,
            s.traces,
            s.steps,
            s.max_len,
            s.exhausted as u8,
            enc(&s.samples.join(" | "))
        );
    }
    for (k, n) in COUNTS.lock().unwrap().iter() {
        let _ = writeln!(o, "C\t{}\t{}", k, n);
    }
    if let Some(v) = v {
        let _ = writeln!(
            o,
            "V\t{}\t{}\t{}",
            v.scn,
            enc(&v.msg),
            v.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
    }
    std::fs::write(path, o).expect("child result");
}

type Counts = Vec<(String, u64)>;
fn load_child(path: &str) -> (Vec<Stats>, Option<Violation>, Counts) {
    let mut stats = vec![];
    let mut counts = vec![];
    let mut v = None;
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f[0] == "S" && f.len() >= 10 {
            stats.push(Stats {
                name: dec(f[1]),
                what: dec(f[2]),
                states: f[3].parse().unwrap_or(0),
                transitions: f[4].parse().unwrap_or(0),
                traces: f[5].parse().unwrap_or(0),
                steps: f[6].parse().unwrap_or(0),
                max_len: f[7].parse().unwrap_or(0),
                exhausted: f[8] == "1",
                samples: vec![dec(f[9])],
            });
        } else if f[0] == "C" && f.len() >= 3 {
            counts.push((f[1].to_string(), f[2].parse().unwrap_or(0)));
        } else if f[0] == "V" && f.len() >= 4 {
            v = Some(Violation {
                scn: f[1].parse().unwrap_or(0),
                msg: dec(f[2]),
                trace: f[3].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            });
        }
    }
    (stats, v, counts)
}

pub fn main(checks: &[Check]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    crate::scratch::make();
    if a.len() >= 3 && a[1] == "replay" {
        let c = replay_file(checks, &a[2]);
        crate::scratch::remove();
        std::process::exit(c);
    }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--property").expect("--property");
    let args = Args {
        thorough: get("--tier").map_or(false, |t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
        evidence: get("--evidence").unwrap_or_else(|| format!("evidence/{}.json", prop)),
        replay_dir: get("--replays").unwrap_or_else(|| "replays".into()),
        keep: get("--keep"),
        after: get("--after"),
        prop,
    };
    let check = match checks.iter().find(|c| c.id == args.prop) {
        Some(c) => c,
        None => {
            eprintln!("no such property here: {}", args.prop);
            crate::scratch::remove();
            std::process::exit(2)
        }
    };
    let code = supervise(&args, check);
    crate::scratch::remove();
    std::process::exit(code)
}

fn supervise(args: &Args, check: &Check) -> i32 {
    let t0 = Instant::now();
    let res = format!("/tmp/vpmc-{}-{}", check.id, std::process::id());
    shared();
    clear_slots();
    let _ = std::fs::remove_file(&res);
    let budget = Duration::from_secs(if args.thorough { check.budget_s.1 } else { check.budget_s.0 });
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        install_panic_hook();
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            let mut ctx = Ctx::new((check.scenarios)(args.thorough), budget);
            (check.explore)(&mut ctx, args.thorough);
            let v = ctx.violation.lock().unwrap().take();
            save_child(&res, &ctx.stats, &v);
            if v.is_some() {
                10
            } else {
                0
            }
        }));
        let c = match r {
            Ok(c) => c,
            Err(_) => {
                eprintln!("engine error: {}", take_panic());
                3
            }
        };
        unsafe { libc::_exit(c) };
    }
    let hang = Duration::from_secs(check.hang_s);
    let end = wait_child(pid, hang, true);
    let (mut stats, v, mut counts) = load_child(&res);
    if let Some(ref keep) = args.keep {
        let body = std::fs::read_to_string(&res).unwrap_or_default();
        let _ = std::fs::write(keep, format!("{}W\t{}\n", body, t0.elapsed().as_secs_f64()));
    }
    let _ = std::fs::remove_file(&res);
    let mut first_wall = 0.0;
    if let Some(ref after) = args.after {
        let (first, _, first_counts) = load_child(after);
        let body = std::fs::read_to_string(after).unwrap_or_default();
        first_wall = body.lines().find(|l| l.starts_with("W\t")).and_then(|l| l[2..].parse().ok()).unwrap_or(0.0);
        let _ = std::fs::remove_file(after);
        for s in &mut stats {
            s.name = format!("{} (built without overflow checks and debug assertions)", s.name);
        }
        stats = first.into_iter().chain(stats).collect();
        for (k, n) in first_counts {
            match counts.iter_mut().find(|c| c.0 == k) {
                Some(c) => c.1 += n,
                None => counts.push((k, n)),
            }
        }
    }
    let scns = (check.scenarios)(args.thorough);
    let violation = match end {
        ChildEnd::Exit(0) => None,
        ChildEnd::Exit(10) => v,
        ChildEnd::Exit(c) => {
            eprintln!("exploration ended with status {}", c);
            return 2;
        }
        other => {
            let what = match other {
                ChildEnd::Signal(s) => format!("signal {} ({})", s, signame(s)),
                _ => "an operation did not return".to_string(),
            };
            eprintln!("exploration: {}", what);
            // which of the sequences being executed did it?
            let mut cands: Vec<(usize, Vec<u16>)> = vec![];
            for s in shared().slots.iter() {
                if s.busy.load(Ordering::SeqCst) == 1 {
                    let n = s.len.load(Ordering::SeqCst) as usize;
                    cands.push((s.scn.load(Ordering::SeqCst) as usize, s.trace[..n].to_vec()));
                }
            }
            let mut found = None;
            for (si, t) in cands {
                if let Some(m) = replay_child(check, args.thorough, si, &t, hang * 2) {
                    found = Some(Violation { scn: si, trace: t, msg: m });
                    break;
                }
            }
            if found.is_none() {
                eprintln!("not reproduced by any single sequence: {}", what);
                return 2;
            }
            found
        }
    };
    let wall = t0.elapsed().as_secs_f64() + first_wall;
    match violation {
        None => {
            let ex = stats.iter().all(|s| s.exhausted);
            evidence(args, check, &stats, &counts, wall, 0, if ex { "" } else { "a bound of time or memory was hit before the stated space was covered" });
            for s in &stats {
                println!(
                    "{}: {}: {}: {} states, {} transitions, {} traces, {} operations{}",
                    check.id, s.name, s.what, s.states, s.transitions, s.traces, s.steps,
                    if s.exhausted { "" } else { " (NOT completed)" }
                );
            }
            for (k, n) in &counts {
                println!("{}: {} {}", check.id, n, k);
            }
            println!("{}: held on everything explored ({:.1} s)", check.id, wall);
            0
        }
        Some(v) => {
            let scn = &scns[v.scn];
            let (trace, msg) = minimise(check, args.thorough, v.scn, v.trace, v.msg, hang);
            let desc = show_trace(&**scn, &trace);
            let path = write_replay(args, check, &scn.name(), &desc, v.scn, &trace, &msg);
            evidence(args, check, &stats, &counts, wall, 1, "ended at the first violation");
            println!("{}: {}", scn.name(), msg);
            if args.after.is_some() {
                println!("  built without overflow checks and debug assertions");
            }
            println!("  operations: {}", desc);
            println!("VIOLATION property={} replay={}", check.id, path);
            1
        }
    }
}

/// Shortens a failing sequence by leaving out single operations (best effort, bounded).
fn minimise(check: &Check, thorough: bool, si: usize, trace: Vec<u16>, msg: String, hang: Duration) -> (Vec<u16>, String) {
    if trace.len() < 8 || trace.len() > 400 || msg.contains("did not return") {
        return (trace, msg);
    }
    let t0 = Instant::now();
    let (mut best, mut m) = (trace, msg);
    let mut i = 0;
    while i < best.len() && t0.elapsed() < Duration::from_secs(8) {
        let mut t = best.clone();
        t.remove(i);
        match replay_child(check, thorough, si, &t, hang) {
            Some(x) if !x.starts_with("skip:") && x.contains("skip:") == false => {
                best = t;
                m = x;
            }
            _ => i += 1,
        }
    }
    (best, m)
}

fn replay_file(checks: &[Check], path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| -> String {
        let pat = format!("\"{}\":", k);
        let i = s.find(&pat).expect("field") + pat.len();
        let rest = &s[i..];
        let end = if rest.starts_with('[') { rest.find(']').unwrap() } else { rest.find(|c| c == ',' || c == '}').unwrap() };
        rest[..end].trim_matches(|c| c == '"' || c == '[').to_string()
    };
    let id = field("property");
    let check = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => return 2,
    };
    let th = field("thorough") == "true";
    let si: usize = field("scenario").parse().unwrap();
    let trace: Vec<u16> = field("trace").split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let scns = (check.scenarios)(th);
    println!("{}: {}", scns[si].name(), show_trace(&*scns[si], &trace));
    shared();
    match replay_child(check, th, si, &trace, Duration::from_secs(60)) {
        None => {
            println!("no violation");
            0
        }
        Some(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
