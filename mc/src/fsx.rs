//! What happens around the file system calls of the code under test: scheduling points,
//! pictures of the directory before each call that changes it, and injected failures.
use crate::util::H;
use crossbeam_epoch::vp::{self, Event};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

/// The contents of a directory tree: a file's bytes, or `None` for a directory.
pub type Tree = BTreeMap<String, Option<Vec<u8>>>;

/// What the system may do without anything being wrong.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gentle {
    /// Every read and write transfers only about half of the bytes.
    Parts,
    /// Every read, write, open and truncation is interrupted by a signal before it does anything, and works when made again.
    Interruptions,
}
/// What a call is to do.
pub enum Fate {
    Go,
    Error(i32),
    Part,
}

pub struct Watch {
    root: PathBuf,
    st: Mutex<WatchSt>,
}
struct WatchSt {
    on: bool,
    pics: Vec<Tree>,
    calls: u64,
    fail_at: Option<u64>,
    failed: bool,
    /// Fail all calls from then on.
    rest: bool,
    /// Reading counts, too.
    reads: bool,
    gentle: Option<Gentle>,
    /// The next call is to be interrupted.
    turn: bool,
    /// Paths opened and bytes read.
    log: Option<(Vec<String>, u64)>,
}

thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static W: RefCell<Option<Arc<Watch>>> = const { RefCell::new(None) };
}
/// The watch that threads started from now on by a watched thread get.
static LAST: Mutex<Vec<(usize, Arc<Watch>)>> = Mutex::new(Vec::new());

pub fn take(root: &Path) -> Tree {
    fn rec(dir: &Path, pre: &str, t: &mut Tree) {
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                let name = format!("{}{}", pre, e.file_name().to_string_lossy());
                let p = e.path();
                if e.file_type().map_or(false, |x| x.is_dir()) {
                    t.insert(name.clone(), None);
                    rec(&p, &format!("{}/", name), t);
                } else {
                    t.insert(name, Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut t = Tree::new();
    rec(root, "", &mut t);
    t
}

pub fn put(root: &Path, t: &Tree) {
    std::fs::create_dir_all(root).expect("scratch");
    for (n, c) in t {
        match c {
            None => std::fs::create_dir_all(root.join(n)).expect("scratch"),
            Some(b) => std::fs::write(root.join(n), b).expect("scratch"),
        }
    }
}

/// Hash of a tree up to the names of its directories and where it lies.
pub fn hash(root: &Path, t: &Tree) -> u128 {
    let mut dirs: Vec<(u128, String)> = vec![];
    for (n, c) in t {
        if c.is_none() && !n.contains('/') {
            let mut h = H::new();
            for (m, b) in t.range(format!("{}/", n)..format!("{}0", n)) {
                h.bytes(m[n.len()..].as_bytes());
                match b {
                    Some(b) if m.ends_with("filter.dat") => h.u(b.len() as u64 + (1 << 40)),
                    Some(b) => h.bytes(b),
                    None => h.u(3),
                }
            }
            dirs.push((h.fin(), n.clone()));
        }
    }
    dirs.sort();
    let mut h = H::new();
    for d in &dirs {
        h.u(d.0 as u64);
        h.u((d.0 >> 64) as u64);
    }
    for (n, c) in t {
        if let (Some(b), false) = (c, n.contains('/')) {
            h.bytes(n.as_bytes());
            let mut s = replace(b, root.to_string_lossy().as_bytes(), b"@");
            for (i, d) in dirs.iter().enumerate() {
                s = replace(&s, d.1.as_bytes(), format!("#{}", i).as_bytes());
            }
            h.bytes(&s);
        }
    }
    h.fin()
}

pub fn replace(b: &[u8], what: &[u8], with: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if what.len() > 0 && b[i..].starts_with(what) {
            o.extend_from_slice(with);
            i += what.len();
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl Watch {
    pub fn new(root: &Path) -> Arc<Watch> {
        Arc::new(Watch { root: root.into(), st: Mutex::new(WatchSt { on: false, pics: vec![], calls: 0, fail_at: None, failed: false, rest: false, reads: false, gentle: None, turn: false, log: None }) })
    }
    /// Makes this the watch of the current thread, and of threads started by it.
    pub fn enter(self: &Arc<Self>) {
        W.with(|w| *w.borrow_mut() = Some(self.clone()));
    }
    pub fn leave() {
        W.with(|w| *w.borrow_mut() = None);
    }
    pub fn pictures(&self, on: bool) -> Vec<Tree> {
        let mut s = self.st.lock().unwrap();
        s.on = on;
        std::mem::take(&mut s.pics)
    }
    /// Fail the `n`th call from now on, and if asked for all after it; or count only.
    pub fn fail(&self, n: Option<u64>, rest: bool, reads: bool) {
        let mut s = self.st.lock().unwrap();
        s.rest = rest;
        s.reads = reads;
        s.calls = 0;
        s.fail_at = n;
        s.failed = false;
    }
    /// From now on all calls transfer parts, or are interrupted.
    pub fn gently(&self, g: Option<Gentle>) {
        let mut s = self.st.lock().unwrap();
        s.gentle = g;
        s.turn = false;
    }
    pub fn failed(&self) -> bool {
        self.st.lock().unwrap().failed
    }
    /// Starts, or ends, noting what is opened and how much is read.
    pub fn log(&self, on: bool) -> (Vec<String>, u64) {
        let mut s = self.st.lock().unwrap();
        std::mem::replace(&mut s.log, if on { Some((vec![], 0)) } else { None }).unwrap_or_default()
    }
    pub fn calls(&self) -> u64 {
        self.st.lock().unwrap().calls
    }
}

/// Called by the thread that starts another one, before it does.
pub fn thread_spawning(key: usize) {
    if let Some(w) = W.with(|w| w.borrow().clone()) {
        let mut l = LAST.lock().unwrap();
        l.push((key, w));
    }
}
pub fn thread_started(key: usize) {
    let mut l = LAST.lock().unwrap();
    if let Some(i) = l.iter().position(|x| x.0 == key) {
        let w = l.swap_remove(i).1;
        drop(l);
        W.with(|x| *x.borrow_mut() = Some(w));
    }
}

/// Before a call that changes files. `true`: the call is to fail.
pub fn before(_what: &'static str) -> bool {
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return false;
    }
    let w = match W.try_with(|w| w.borrow().clone()) {
        Ok(Some(w)) => w,
        _ => return false,
    };
    vp::point(Event::Atomic, 1);
    BUSY.with(|b| b.set(true));
    let mut s = w.st.lock().unwrap();
    let mut fail = false;
    if s.on {
        let t = take(&w.root);
        if s.pics.last() != Some(&t) {
            s.pics.push(t);
        }
    }
    s.calls += 1;
    if s.hit() {
        fail = true;
    }
    drop(s);
    BUSY.with(|b| b.set(false));
    fail
}

/// Before a call that only reads. `true`: the call is to fail.
pub fn before_read() -> bool {
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return false;
    }
    let w = match W.try_with(|w| w.borrow().clone()) {
        Ok(Some(w)) => w,
        _ => return false,
    };
    BUSY.with(|b| b.set(true));
    let mut s = w.st.lock().unwrap();
    let mut fail = false;
    if s.reads {
        s.calls += 1;
        fail = s.hit();
    }
    drop(s);
    BUSY.with(|b| b.set(false));
    fail
}
/// Before a call that may be interrupted or, if it reads or writes, transfer less than asked for.
pub fn transfer(write: bool) -> Fate {
    if if write { before("") } else { before_read() } {
        return Fate::Error(libc::EIO);
    }
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return Fate::Go;
    }
    let w = match W.try_with(|w| w.borrow().clone()) {
        Ok(Some(w)) => w,
        _ => return Fate::Go,
    };
    BUSY.with(|b| b.set(true));
    let mut s = w.st.lock().unwrap();
    let f = match s.gentle {
        None => Fate::Go,
        Some(Gentle::Parts) => Fate::Part,
        Some(Gentle::Interruptions) => {
            s.turn = !s.turn;
            if s.turn {
                Fate::Error(libc::EINTR)
            } else {
                Fate::Go
            }
        }
    };
    drop(s);
    BUSY.with(|b| b.set(false));
    f
}
/// How many of `n` bytes are transferred.
pub fn part(n: usize) -> usize {
    (n + 1) / 2
}
impl WatchSt {
    fn hit(&mut self) -> bool {
        let h = self.fail_at.map_or(false, |f| self.calls == f || (self.rest && self.calls > f));
        self.failed |= h;
        h
    }
}

/// Notes a path opened, or so many bytes read.
pub fn note(path: Option<&std::ffi::CStr>, n: u64) {
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return;
    }
    if let Ok(Some(w)) = W.try_with(|w| w.borrow().clone()) {
        BUSY.with(|b| b.set(true));
        if let Some((l, m)) = &mut w.st.lock().unwrap().log {
            *m += n;
            if let Some(p) = path {
                l.push(p.to_string_lossy().into_owned());
            }
        }
        BUSY.with(|b| b.set(false));
    }
}

/// Runs something whose calls are not those of the code under test.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(old));
    r
}
pub fn watched() -> bool {
    W.try_with(|w| w.try_borrow().map_or(false, |w| w.is_some())).unwrap_or(false)
}
