//! A scheduler under which one thread of an instance runs at a time.
//!
//! `Lazy`: threads started by the code run only when they are waited for, or when `run_others`
//! is called. `Explore`: at every point every thread that can go on may go on; the choices are
//! taken from a list and recorded, so that a caller can enumerate all of them.
use crossbeam_epoch::vp::{self, Event, Scheduler};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Th {
    Ready,
    /// Waits for a lock; worth trying again once another thread has made a step.
    Lock(u64),
    Join(usize),
    /// Gave way to the others.
    Yielded(u64),
    Done,
}

struct St {
    th: Vec<Th>,
    cur: usize,
    explore: bool,
    /// Choices to make, then (beyond them) the default.
    plan: Vec<u8>,
    /// Choices made with the number of possibilities.
    made: Vec<(u8, u8)>,
    bound: u32,
    preempt: u32,
    steps: u64,
    idle: u32,
    free: bool,
    fault: Option<String>,
    log: Vec<(usize, &'static str)>,
}

pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}

impl St {
    fn can(&self, t: usize) -> bool {
        match self.th[t] {
            Th::Ready => true,
            Th::Lock(s) | Th::Yielded(s) => self.steps > s,
            Th::Join(o) => self.th[o] == Th::Done,
            Th::Done => false,
        }
    }
    /// Who goes on after thread `t` has come to a point.
    fn next(&mut self, t: usize) -> Option<usize> {
        let mut c: Vec<usize> = vec![];
        if self.can(t) {
            c.push(t);
        }
        let own = !c.is_empty();
        for o in 0..self.th.len() {
            if o != t && self.can(o) {
                c.push(o);
            }
        }
        if c.is_empty() {
            // somebody who waits for a lock must try again
            for o in 0..self.th.len() {
                if o != t && matches!(self.th[o], Th::Lock(_) | Th::Yielded(_)) {
                    c.push(o);
                }
            }
            if c.is_empty() && matches!(self.th[t], Th::Lock(_) | Th::Yielded(_)) {
                c.push(t);
            }
            self.idle += 1;
            if self.idle > 100 {
                return None;
            }
        }
        if c.is_empty() {
            return None;
        }
        let mut pick = 0;
        if self.explore && c.len() > 1 && !(own && self.preempt >= self.bound) {
            let i = self.made.len();
            let n = c.len() as u8;
            pick = self.plan.get(i).copied().unwrap_or(0).min(n - 1) as usize;
            self.made.push((pick as u8, n));
            if own && pick != 0 {
                self.preempt += 1;
            }
        }
        Some(c[pick])
    }
}

impl Sched {
    pub fn new(explore: Option<(Vec<u8>, u32)>) -> Arc<Sched> {
        let (e, plan, bound) = match explore {
            Some((p, b)) => (true, p, b),
            None => (false, vec![], 0),
        };
        Arc::new(Sched {
            m: Mutex::new(St {
                th: vec![Th::Ready],
                cur: 0,
                explore: e,
                plan,
                made: vec![],
                bound,
                preempt: 0,
                steps: 0,
                idle: 0,
                free: false,
                fault: None,
                log: vec![],
            }),
            cv: Condvar::new(),
        })
    }
    pub fn enter(self: &Arc<Self>) {
        vp::enter(Some((self.clone() as Arc<dyn Scheduler>, 0)));
    }
    pub fn leave() {
        vp::enter(None);
    }
    fn switch(&self, mut g: std::sync::MutexGuard<St>, t: usize, done: bool) {
        if g.free {
            return;
        }
        match g.next(t) {
            None => {
                if g.th.iter().any(|x| *x != Th::Done) {
                    if g.fault.is_none() {
                        g.fault = Some(format!("deadlock: {:?}", g.th));
                    }
                    g.free = true;
                }
                self.cv.notify_all();
            }
            Some(n) => {
                g.cur = n;
                if n != t {
                    self.cv.notify_all();
                }
                if !done {
                    self.wait(g, t);
                }
            }
        }
    }
    fn wait(&self, mut g: std::sync::MutexGuard<St>, t: usize) {
        let mut seen = g.steps;
        let mut since = Instant::now();
        while g.cur != t && !g.free {
            let (h, to) = self.cv.wait_timeout(g, Duration::from_millis(500)).unwrap();
            g = h;
            if g.steps != seen {
                seen = g.steps;
                since = Instant::now();
            } else if to.timed_out() && since.elapsed() > Duration::from_secs(3) {
                // whoever runs waits for something this scheduler does not know: let all go on
                g.free = true;
                self.cv.notify_all();
            }
        }
        g.steps += 1;
        if !matches!(g.th[t], Th::Done) {
            g.th[t] = Th::Ready;
        }
    }
    /// Lets every other thread run to its end.
    pub fn run_others(&self) {
        for t in 1.. {
            {
                let g = self.m.lock().unwrap();
                if t >= g.th.len() {
                    break;
                }
            }
            self.point(0, Event::Join(t), 0);
        }
    }
    /// Are there threads that have not ended?
    pub fn pending(&self) -> usize {
        let g = self.m.lock().unwrap();
        g.th.iter().skip(1).filter(|x| **x != Th::Done).count()
    }
    pub fn spawned(&self) -> usize {
        self.m.lock().unwrap().th.len() - 1
    }
    pub fn set_explore(&self, on: bool) {
        self.m.lock().unwrap().explore = on;
    }
    pub fn made(&self) -> Vec<(u8, u8)> {
        self.m.lock().unwrap().made.clone()
    }
    pub fn fault(&self) -> Option<String> {
        self.m.lock().unwrap().fault.clone()
    }
    pub fn note(&self, t: usize, what: &'static str) {
        let mut g = self.m.lock().unwrap();
        if g.explore && g.log.len() < 400 {
            g.log.push((t, what));
        }
    }
    /// Waits for all threads really to have ended.
    pub fn drain(&self) {
        self.set_explore(false);
        self.run_others();
        let t0 = Instant::now();
        while self.pending() > 0 && t0.elapsed() < Duration::from_secs(10) {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    /// The schedule as a list of who ran.
    pub fn show(&self) -> String {
        let g = self.m.lock().unwrap();
        let mut o = String::new();
        let mut last = usize::MAX;
        for (t, w) in &g.log {
            if *t != last {
                o.push_str(&format!(" | thread {}:", t));
                last = *t;
            }
            o.push(' ');
            o.push_str(w);
        }
        o
    }
}

impl Scheduler for Sched {
    fn point(&self, t: usize, e: Event, _object: usize) {
        let mut g = self.m.lock().unwrap();
        if g.free {
            drop(g);
            if e == Event::Blocked || e == Event::Yield {
                std::thread::yield_now();
            }
            return;
        }
        let s = g.steps;
        match e {
            Event::Blocked => g.th[t] = Th::Lock(s),
            Event::Yield => g.th[t] = Th::Yielded(s),
            Event::Join(o) => {
                if o >= g.th.len() || g.th[o] == Th::Done {
                    return;
                }
                g.th[t] = Th::Join(o);
            }
            Event::Lock | Event::Atomic => {
                g.th[t] = Th::Ready;
                g.idle = 0;
                if !g.explore {
                    g.steps += 1;
                    return;
                }
            }
        }
        self.switch(g, t, false)
    }
    fn spawning(&self, _parent: usize) -> usize {
        let mut g = self.m.lock().unwrap();
        g.th.push(Th::Ready);
        let t = g.th.len() - 1;
        crate::fsx::thread_spawning(self as *const Sched as usize ^ t);
        t
    }
    fn started(&self, t: usize) {
        crate::fsx::thread_started(self as *const Sched as usize ^ t);
        let g = self.m.lock().unwrap();
        self.wait(g, t);
    }
    fn ended(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        if std::thread::panicking() && g.fault.is_none() {
            g.fault = Some("a thread started by the map panicked".into());
        }
        g.th[t] = Th::Done;
        g.steps += 1;
        g.idle = 0;
        self.switch(g, t, true)
    }
}
