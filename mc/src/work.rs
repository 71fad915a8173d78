//! How many instructions single operations take, on collections with thousands of elements.
use crate::depth::{mix, pos, run_order};
use crate::engine::{count, Inst, Scenario, R};
use crate::maps::ensure;
use crate::util::H;
use std::cell::Cell;
use std::sync::Once;

/// An operation that looks at every one of `RUN` elements takes several instructions for each.
pub const RUN: usize = 12000;
pub const LIMIT: u64 = 25000;

thread_local! { static STEPS: Cell<u64> = const { Cell::new(0) }; }

extern "C" fn trap(_: i32) {
    STEPS.with(|s| s.set(s.get() + 1));
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as *const () as usize;
        a.sa_flags = libc::SA_NODEFER | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    });
}

/// Runs `f` with the processor's trap flag set and counts the instructions it executes.
#[cfg(target_arch = "x86_64")]
#[inline(never)]
pub fn steps_of<R>(f: impl FnOnce() -> R) -> (R, u64) {
    install();
    STEPS.with(|s| s.set(0));
    // SAFETY: the handler only adds to a counter of this thread
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    (r, STEPS.with(|s| s.get()))
}

#[cfg(not(target_arch = "x86_64"))]
pub fn steps_of<R>(f: impl FnOnce() -> R) -> (R, u64) {
    (f(), 0)
}

/// Whether instructions can be counted here.
pub fn counts() -> bool {
    let mut x = vec![3u64; 1000];
    let (s, n) = steps_of(|| x.iter_mut().map(|y| std::hint::black_box(*y)).sum::<u64>());
    s == 3000 && n > 1000
}

fn cheap<T>(what: &str, n: usize, f: impl FnOnce() -> T) -> R<T> {
    within(LIMIT, what, n, f)
}
fn within<T>(limit: u64, what: &str, n: usize, f: impl FnOnce() -> T) -> R<T> {
    let (r, s) = steps_of(f);
    MAX.with(|m| {
        if s > m.get() {
            m.set(s);
            if std::env::var("VP_WORK").is_ok() {
                eprintln!("{what} of {n}: {s}");
            }
        }
    });
    count("operations_measured", 1);
    ensure!(s <= limit, "{} in a collection of {} elements took {} instructions, more than the {} it may take", what, n, s, limit);
    Ok(r)
}
thread_local! { static MAX: Cell<u64> = const { Cell::new(0) }; }

pub trait WMap: Sized + 'static {
    const NAME: &'static str;
    /// Only as cheap on average over its operations.
    const AMORTIZED: bool;
    const FLOOR: bool;
    /// Recursive set operations and splits by key.
    const TREAP: bool;
    fn new() -> Self;
    fn insert(&mut self, k: u64) -> bool;
    fn remove(&mut self, k: u64) -> bool;
    fn get(&self, k: u64) -> bool;
    fn contains(&self, k: u64) -> bool;
    fn get_mut(&mut self, k: u64) -> bool;
    fn floor(&self, k: u64) -> Option<u64>;
    fn ceil(&self, k: u64) -> Option<u64>;
    fn min(&self) -> Option<u64>;
    fn max(&self) -> Option<u64>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn first(&self) -> Option<u64>;
    fn first_mut(&mut self) -> Option<u64>;
    fn join(l: Self, r: Self, o: usize) -> Self;
    fn split(&mut self, k: u64) -> Self;
    fn first_of(self) -> (Option<u64>, Box<dyn std::any::Any>);
}

macro_rules! joins {
    (none, $l:ident, $r:ident, $o:ident) => { { let _ = ($l, $r, $o); unreachable!() } };
    ($any:ident, $l:ident, $r:ident, $o:ident) => {
        match $o { 0 => Self::union($l, $r), 1 => Self::intersection($l, $r), 2 => Self::difference($l, $r), _ => Self::symmetric_difference($l, $r) }
    };
}
macro_rules! splits {
    (treap, $s:ident, $k:ident) => { $s.split_off(&$k, false) };
    ($any:ident, $s:ident, $k:ident) => { { let _ = $k; unreachable!() } };
}

#[macro_export]
macro_rules! wmap {
    ($t:ident, $am:expr, $tr:expr, $j:ident) => {
        impl WMap for $t<u64, u64> {
            const NAME: &'static str = stringify!($t);
            const AMORTIZED: bool = $am;
            const FLOOR: bool = true;
            const TREAP: bool = $tr;
            fn new() -> Self { $t::new() }
            fn insert(&mut self, k: u64) -> bool { self.insert(k, k).is_none() }
            fn remove(&mut self, k: u64) -> bool { self.remove(&k).is_some() }
            fn get(&self, k: u64) -> bool { self.get(&k).is_some() }
            fn contains(&self, k: u64) -> bool { self.contains_key(&k) }
            fn get_mut(&mut self, k: u64) -> bool { self.get_mut(&k).is_some() }
            fn floor(&self, k: u64) -> Option<u64> { self.floor(&k).cloned() }
            fn ceil(&self, k: u64) -> Option<u64> { self.ceil(&k).cloned() }
            fn min(&self) -> Option<u64> { self.min().cloned() }
            fn max(&self) -> Option<u64> { self.max().cloned() }
            fn len(&self) -> usize { self.len() }
            fn is_empty(&self) -> bool { self.is_empty() }
            fn clear(&mut self) { self.clear() }
            fn first(&self) -> Option<u64> { self.iter().next().map(|x| *x.0) }
            fn first_mut(&mut self) -> Option<u64> { self.iter_mut().next().map(|x| *x.0) }
            fn join(l: Self, r: Self, o: usize) -> Self { joins!($j, l, r, o) }
            fn split(&mut self, k: u64) -> Self { let s = self; splits!($j, s, k) }
            fn first_of(self) -> (Option<u64>, Box<dyn std::any::Any>) {
                let mut i = IntoIterator::into_iter(self);
                (i.next().map(|x| x.0), Box::new(i))
            }
        }
    };
}
#[macro_export]
macro_rules! wset {
    ($t:ident, $am:expr, $tr:expr, $j:ident) => {
        impl WMap for $t<u64> {
            const NAME: &'static str = stringify!($t);
            const AMORTIZED: bool = $am;
            const FLOOR: bool = true;
            const TREAP: bool = $tr;
            fn new() -> Self { $t::new() }
            fn insert(&mut self, k: u64) -> bool { self.insert(k).is_none() }
            fn remove(&mut self, k: u64) -> bool { self.remove(&k).is_some() }
            fn get(&self, k: u64) -> bool { self.contains(&k) }
            fn contains(&self, k: u64) -> bool { self.contains(&k) }
            fn get_mut(&mut self, k: u64) -> bool { self.contains(&k) }
            fn floor(&self, k: u64) -> Option<u64> { self.floor(&k).cloned() }
            fn ceil(&self, k: u64) -> Option<u64> { self.ceil(&k).cloned() }
            fn min(&self) -> Option<u64> { self.min().cloned() }
            fn max(&self) -> Option<u64> { self.max().cloned() }
            fn len(&self) -> usize { self.len() }
            fn is_empty(&self) -> bool { self.is_empty() }
            fn clear(&mut self) { self.clear() }
            fn first(&self) -> Option<u64> { self.iter().next().cloned() }
            fn first_mut(&mut self) -> Option<u64> { self.iter().next().cloned() }
            fn join(l: Self, r: Self, o: usize) -> Self { joins!($j, l, r, o) }
            fn split(&mut self, k: u64) -> Self { let s = self; splits!($j, s, k) }
            fn first_of(self) -> (Option<u64>, Box<dyn std::any::Any>) {
                let mut i = IntoIterator::into_iter(self);
                (i.next(), Box::new(i))
            }
        }
    };
}

mod impls {
    use super::WMap;
    use extended_collections::avl_tree::{AvlMap, AvlSet};
    use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
    use extended_collections::skiplist::{SkipMap, SkipSet};
    use extended_collections::splay_tree::{SplayMap, SplaySet};
    use extended_collections::treap::{TreapMap, TreapSet};
    wmap!(AvlMap, false, false, none);
    wset!(AvlSet, false, false, none);
    wmap!(RedBlackMap, false, false, none);
    wset!(RedBlackSet, false, false, none);
    wmap!(SplayMap, true, false, none);
    wset!(SplaySet, true, false, none);
    wmap!(SkipMap, false, false, skip);
    wset!(SkipSet, false, false, skip);
    wmap!(TreapMap, false, true, treap);
    wset!(TreapSet, false, true, treap);
}

/// The sixteen hexadecimal digits of a key.
fn hex(k: u64) -> [u8; 16] {
    let mut b = [0; 16];
    for i in 0..16 {
        b[i] = (k >> (60 - 4 * i)) as u8 & 15;
    }
    b
}
fn unhex(b: &[u8]) -> u64 {
    b.iter().fold(0, |k, d| k << 4 | *d as u64)
}
macro_rules! wradix {
    ($t:ident, $in:ty, $ins:expr, $has:expr, $get:expr, $key:expr, $first_mut:expr) => {
        pub struct $t($in);
        impl WMap for $t {
            const NAME: &'static str = stringify!($t);
            const AMORTIZED: bool = false;
            const FLOOR: bool = false;
            const TREAP: bool = false;
            fn new() -> Self { $t(<$in>::new()) }
            fn insert(&mut self, k: u64) -> bool { $ins(&mut self.0, &hex(k)[..]) }
            fn remove(&mut self, k: u64) -> bool { self.0.remove(&hex(k)).is_some() }
            fn get(&self, k: u64) -> bool { $has(&self.0, &hex(k)[..]) }
            fn contains(&self, k: u64) -> bool { $has(&self.0, &hex(k)[..]) }
            fn get_mut(&mut self, k: u64) -> bool { $get(&mut self.0, &hex(k)[..]) }
            fn floor(&self, _: u64) -> Option<u64> { unreachable!() }
            fn ceil(&self, _: u64) -> Option<u64> { unreachable!() }
            fn min(&self) -> Option<u64> { self.0.min().map(|k| unhex(&k)) }
            fn max(&self) -> Option<u64> { self.0.max().map(|k| unhex(&k)) }
            fn len(&self) -> usize { self.0.len() }
            fn is_empty(&self) -> bool { self.0.is_empty() }
            fn clear(&mut self) { self.0.clear() }
            fn first(&self) -> Option<u64> { self.0.iter().next().map($key) }
            fn first_mut(&mut self) -> Option<u64> { $first_mut(&mut self.0).map($key) }
            fn join(_: Self, _: Self, _: usize) -> Self { unreachable!() }
            fn split(&mut self, _: u64) -> Self { unreachable!() }
            fn first_of(self) -> (Option<u64>, Box<dyn std::any::Any>) {
                let mut i = IntoIterator::into_iter(self.0);
                (i.next().map($key), Box::new(i))
            }
        }
    };
}
use extended_collections::radix;
trait Keyed {
    fn key(self) -> u64;
}
impl<T> Keyed for (Vec<u8>, T) {
    fn key(self) -> u64 {
        unhex(&self.0)
    }
}
impl Keyed for Vec<u8> {
    fn key(self) -> u64 {
        unhex(&self)
    }
}
type RMap = radix::RadixMap<u64>;
wradix!(RadixMap, RMap, |m: &mut RMap, k: &[u8]| m.insert(k, 7).is_none(), |m: &RMap, k: &[u8]| m.get(k).is_some() && m.contains_key(k), |m: &mut RMap, k: &[u8]| m.get_mut(k).is_some(), Keyed::key, |m: &mut RMap| m.iter_mut().next().map(|x| (x.0, ())));
wradix!(RadixSet, radix::RadixSet, |m: &mut radix::RadixSet, k: &[u8]| m.insert(k).is_none(), |m: &radix::RadixSet, k: &[u8]| m.contains(k), |m: &mut radix::RadixSet, k: &[u8]| m.contains(k), Keyed::key, |m: &mut radix::RadixSet| m.iter().next());

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WOp {
    /// As in `depth`: a run of new keys at place g in order o.
    Run(usize, usize),
    /// Removes every other key (0), the lower half ascending (1), the upper half descending (2).
    Remove(usize),
    /// Replaces every entry.
    Replace,
    /// Looks up every key.
    Look,
    Clear,
    /// Set operation with a collection of every other key and a run of new keys.
    Join(usize, usize),
    Split(usize, bool),
    /// Lists only: concatenation with a run in front or behind.
    Concat(bool),
}

fn ops<M: WMap>(skip: bool) -> Vec<WOp> {
    let mut v = vec![];
    for g in 0..3 {
        for o in 0..3 {
            v.push(WOp::Run(g, o));
        }
    }
    for j in 0..3 {
        v.push(WOp::Remove(j));
    }
    v.push(WOp::Replace);
    v.push(WOp::Look);
    v.push(WOp::Clear);
    if M::TREAP || skip {
        for o in 0..4 {
            for g in 0..3 {
                v.push(WOp::Join(o, g));
            }
        }
    }
    if M::TREAP {
        for p in 0..3 {
            v.push(WOp::Split(p, false));
            v.push(WOp::Split(p, true));
        }
    }
    v
}

fn enabled(ops: &[WOp], n: usize) -> Vec<u16> {
    (0..ops.len())
        .filter(|i| match ops[*i] {
            WOp::Run(g, _) => n > 0 || g == 0,
            _ => n > 1,
        })
        .map(|i| i as u16)
        .collect()
}

pub struct WorkScn<M> {
    ops: Vec<WOp>,
    _m: std::marker::PhantomData<fn() -> M>,
}
impl<M: WMap> WorkScn<M> {
    pub fn new(joins: bool) -> Self {
        WorkScn { ops: ops::<M>(joins), _m: std::marker::PhantomData }
    }
}
impl<M: WMap> Scenario for WorkScn<M> {
    fn name(&self) -> String {
        format!("{}: instructions", M::NAME)
    }
    fn op_name(&self, op: u16) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(WorkInst::<M> { ops: &self.ops, m: Some(M::new()), keys: vec![], h: H::new(), rnd: 0 })
    }
}
struct WorkInst<'a, M> {
    ops: &'a [WOp],
    m: Option<M>,
    keys: Vec<u64>,
    h: H,
    rnd: u32,
}

fn run_keys(keys: &[u64], g: usize) -> (Vec<u64>, usize) {
    let n = keys.len();
    let (lo, hi, at) = match (g, n) {
        (_, 0) => (1u64 << 61, 3u64 << 61, 0),
        (0, _) => (keys[0] / 2, keys[0], 0),
        (1, _) if n > 1 => (keys[n / 2 - 1], keys[n / 2], n / 2),
        _ => (keys[n - 1], keys[n - 1] + (1 << 58), n),
    };
    let step = (hi - lo) / (RUN as u64 + 1);
    assert!(step > 4, "room for keys");
    ((0..RUN).map(|i| lo + step * (i as u64 + 1)).collect(), at)
}

fn draw(rnd: &mut u32) {
    rand::ctrl::set_fixed(Some(mix(rnd)));
}

impl<'a, M: WMap> Inst for WorkInst<'a, M> {
    fn enabled(&self) -> Vec<u16> {
        enabled(self.ops, self.keys.len())
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let op = self.ops[op as usize];
        self.h.bytes(format!("{:?}", op).as_bytes());
        let n = self.keys.len();
        let m = self.m.as_mut().unwrap();
        match op {
            WOp::Run(g, o) => {
                let (new, at) = run_keys(&self.keys, g);
                for i in run_order(RUN, o) {
                    draw(&mut self.rnd);
                    ensure!(m.insert(new[i]), "insert of a new key returned an entry");
                }
                self.keys.splice(at..at, new);
            }
            WOp::Remove(j) => {
                let gone: Vec<usize> = match j {
                    0 => (0..n).step_by(2).collect(),
                    1 => (0..n / 2).collect(),
                    _ => (n / 2..n).rev().collect(),
                };
                for i in &gone {
                    ensure!(m.remove(self.keys[*i]), "remove did not find a stored key");
                }
                let mut i = 0;
                self.keys.retain(|_| {
                    i += 1;
                    match j {
                        0 => i % 2 == 0,
                        1 => i > n / 2,
                        _ => i <= n / 2,
                    }
                });
            }
            WOp::Replace => {
                for k in &self.keys {
                    draw(&mut self.rnd);
                    ensure!(!m.insert(*k), "insert of a stored key returned nothing");
                }
            }
            WOp::Look => {
                for k in &self.keys {
                    ensure!(m.get_mut(*k), "a stored key was not found");
                }
            }
            WOp::Clear => {
                m.clear();
                self.keys.clear();
            }
            WOp::Join(o, g) => {
                let (mut keys, _) = run_keys(&self.keys, g);
                keys.extend(self.keys.iter().step_by(2));
                keys.sort();
                let mut r = M::new();
                for k in &keys {
                    draw(&mut self.rnd);
                    r.insert(*k);
                }
                let l = self.m.take().unwrap();
                self.m = Some(M::join(l, r, o));
                let mine = std::mem::take(&mut self.keys);
                let mut all: Vec<u64> = mine.iter().chain(&keys).cloned().collect();
                all.sort();
                all.dedup();
                all.retain(|k| {
                    let (l, r) = (mine.binary_search(k).is_ok(), keys.binary_search(k).is_ok());
                    match o {
                        0 => true,
                        1 => l && r,
                        2 => l && !r,
                        _ => l != r,
                    }
                });
                self.keys = all;
            }
            WOp::Split(p, second) => {
                let at = pos(p, n);
                let k = self.keys[at];
                let r = cheap("splitting", n, || m.split(k))?;
                if second {
                    self.m = Some(r);
                    self.keys.drain(..at);
                } else {
                    self.keys.truncate(at);
                }
            }
            WOp::Concat(_) => unreachable!(),
        }
        Ok(())
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let mut m = self.m.take().unwrap();
        let n = self.keys.len();
        let l = cheap("length", n, || m.len())?;
        ensure!(l == n, "length is {}, not {}", l, n);
        let e = cheap("emptiness", n, || m.is_empty())?;
        ensure!(e == (n == 0), "emptiness is {} with {} entries", e, n);
        if n == 0 || M::AMORTIZED {
            return Ok(self.h.fin());
        }
        let (first, last) = (self.keys[0], self.keys[n - 1]);
        ensure!(cheap("minimum", n, || m.min())? == Some(first), "wrong minimum");
        ensure!(cheap("maximum", n, || m.max())? == Some(last), "wrong maximum");
        ensure!(cheap("the first step of an iterator", n, || m.first())? == Some(first), "wrong first item");
        ensure!(cheap("the first step of a mutable iterator", n, || m.first_mut())? == Some(first), "wrong first item");
        for p in 0..3 {
            let at = pos(p, n);
            let k = self.keys[at];
            ensure!(cheap("a lookup", n, || m.get(k))?, "a stored key was not found");
            ensure!(cheap("a lookup", n, || m.contains(k))?, "a stored key was not found");
            ensure!(!cheap("a lookup of an absent key", n, || m.contains(k + 1))?, "an absent key was found");
            ensure!(cheap("a mutable lookup", n, || m.get_mut(k))?, "a stored key was not found");
            if M::FLOOR {
                ensure!(cheap("floor", n, || m.floor(k + 1))? == Some(k), "wrong floor");
                ensure!(cheap("ceiling", n, || m.ceil(k - 1))? == Some(k), "wrong ceiling");
            }
            draw(&mut self.rnd);
            ensure!(!cheap("an insert of a stored key", n, || m.insert(k))?, "insert of a stored key returned nothing");
            draw(&mut self.rnd);
            ensure!(cheap("an insert", n, || m.insert(k + 1))?, "insert of a new key returned an entry");
            ensure!(!cheap("a removal of an absent key", n, || m.remove(k + 2))?, "an absent key was removed");
            ensure!(cheap("a removal", n, || m.remove(k))?, "a stored key was not removed");
            ensure!(cheap("a removal", n, || m.remove(k + 1))?, "a stored key was not removed");
            draw(&mut self.rnd);
            ensure!(cheap("an insert", n, || m.insert(k))?, "insert of a new key returned an entry");
            if M::TREAP {
                // with a small operand these take logarithmic time too
                let small = |k: u64, r: &mut u32| {
                    let mut s = M::new();
                    draw(r);
                    s.insert(k);
                    s
                };
                let s = small(k + 1, &mut self.rnd);
                m = cheap("a union with one key", n, || M::join(m, s, 0))?;
                let s = small(k + 1, &mut self.rnd);
                m = cheap("a difference with one key", n, || M::join(m, s, 2))?;
                let s = small(k + 1, &mut self.rnd);
                m = cheap("a union with one key", n, || M::join(s, m, 0))?;
                let s = small(k + 1, &mut self.rnd);
                m = cheap("a symmetric difference with one key", n, || M::join(s, m, 3))?;
            }
        }
        ensure!(m.len() == n, "length is {}, not {}", m.len(), n);
        let (f, rest) = cheap("the first step of a by-value iterator", n, || m.first_of())?;
        ensure!(f == Some(first), "wrong first item");
        drop(rest);
        Ok(self.h.fin())
    }
}

/// Elements are cheap here: more of them, so that even a sixteenth of them shows.
pub const LIST_RUN: usize = 120_000;
pub const LIST_LIMIT: u64 = 16_000;

pub trait WList: Sized + 'static {
    const NAME: &'static str;
    fn new() -> Self;
    fn insert(&mut self, i: usize, v: u64);
    fn remove(&mut self, i: usize) -> u64;
    fn push_front(&mut self, v: u64);
    fn push_back(&mut self, v: u64);
    fn pop_front(&mut self) -> u64;
    fn pop_back(&mut self) -> u64;
    fn get(&self, i: usize) -> Option<u64>;
    fn get_mut(&mut self, i: usize) -> Option<u64>;
    fn index(&self, i: usize) -> u64;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn first(&self) -> Option<u64>;
    fn first_mut(&mut self) -> Option<u64>;
    fn concat(l: Self, r: Self) -> Self;
    fn first_of(self) -> (Option<u64>, Box<dyn std::any::Any>);
}
macro_rules! wlist {
    ($t:ident) => {
        impl WList for $t<u64> {
            const NAME: &'static str = stringify!($t);
            fn new() -> Self { $t::new() }
            fn insert(&mut self, i: usize, v: u64) { self.insert(i, v) }
            fn remove(&mut self, i: usize) -> u64 { self.remove(i) }
            fn push_front(&mut self, v: u64) { self.push_front(v) }
            fn push_back(&mut self, v: u64) { self.push_back(v) }
            fn pop_front(&mut self) -> u64 { self.pop_front() }
            fn pop_back(&mut self) -> u64 { self.pop_back() }
            fn get(&self, i: usize) -> Option<u64> { self.get(i).cloned() }
            fn get_mut(&mut self, i: usize) -> Option<u64> { self.get_mut(i).cloned() }
            fn index(&self, i: usize) -> u64 { self[i] }
            fn len(&self) -> usize { self.len() }
            fn is_empty(&self) -> bool { self.is_empty() }
            fn clear(&mut self) { self.clear() }
            fn first(&self) -> Option<u64> { self.iter().next().cloned() }
            fn first_mut(&mut self) -> Option<u64> { self.iter_mut().next().cloned() }
            fn concat(l: Self, r: Self) -> Self { l + r }
            fn first_of(self) -> (Option<u64>, Box<dyn std::any::Any>) {
                let mut i = IntoIterator::into_iter(self);
                (i.next(), Box::new(i))
            }
        }
    };
}
mod list_impls {
    use super::WList;
    use extended_collections::skiplist::SkipList;
    use extended_collections::treap::TreapList;
    wlist!(SkipList);
    wlist!(TreapList);
}

pub struct WorkListScn<L> {
    ops: Vec<WOp>,
    mask: u32,
    _m: std::marker::PhantomData<fn() -> L>,
}
impl<L: WList> WorkListScn<L> {
    /// Only the bits of the mask differ between the random choices.
    pub fn new(mask: u32) -> Self {
        let mut ops = vec![WOp::Clear, WOp::Concat(false), WOp::Concat(true)];
        for g in 0..3 {
            for o in 0..3 {
                ops.push(WOp::Run(g, o));
            }
            ops.push(WOp::Remove(g));
        }
        WorkListScn { ops, mask, _m: std::marker::PhantomData }
    }
}
impl<L: WList> Scenario for WorkListScn<L> {
    fn name(&self) -> String {
        if self.mask == u32::MAX { format!("{}: instructions", L::NAME) } else { format!("{}: instructions, random choices within {:#x}", L::NAME, self.mask) }
    }
    fn op_name(&self, op: u16) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(WorkListInst::<L> { ops: &self.ops, m: Some(L::new()), n: 0, h: H::new(), rnd: 0, mask: self.mask })
    }
}
struct WorkListInst<'a, L> {
    ops: &'a [WOp],
    m: Option<L>,
    n: usize,
    h: H,
    rnd: u32,
    mask: u32,
}

impl<'a, L: WList> Inst for WorkListInst<'a, L> {
    fn enabled(&self) -> Vec<u16> {
        enabled(self.ops, self.n)
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let op = self.ops[op as usize];
        self.h.bytes(format!("{:?}", op).as_bytes());
        let n = self.n;
        let m = self.m.as_mut().unwrap();
        match op {
            // each behind the last, each before it, or by turns
            WOp::Run(g, o) => {
                let at = [0, n / 2, n][g];
                for i in 0..LIST_RUN {
                    rand::ctrl::set_fixed(Some(mix(&mut self.rnd) & self.mask));
                    match (o, g) {
                        (0, 2) => m.push_back(7),
                        (1, 0) => m.push_front(7),
                        (0, _) => m.insert(at + i, 7),
                        (1, _) => m.insert(at, 7),
                        _ => m.insert(at + i / 2, 7),
                    }
                }
                self.n += LIST_RUN;
            }
            WOp::Remove(j) => {
                for i in 0..n / 2 {
                    match j {
                        0 => m.remove(i),
                        1 => m.pop_front(),
                        _ => m.pop_back(),
                    };
                }
                self.n -= n / 2;
            }
            WOp::Clear => {
                m.clear();
                self.n = 0;
            }
            WOp::Concat(front) => {
                let mut s = L::new();
                for _ in 0..LIST_RUN {
                    rand::ctrl::set_fixed(Some(mix(&mut self.rnd) & self.mask));
                    s.push_back(7);
                }
                let m = self.m.take().unwrap();
                self.m = Some(within(LIST_LIMIT, "concatenation", n + LIST_RUN, || if front { L::concat(s, m) } else { L::concat(m, s) })?);
                self.n += LIST_RUN;
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let mut m = self.m.take().unwrap();
        let n = self.n;
        let l = within(LIST_LIMIT, "length", n, || m.len())?;
        ensure!(l == n, "length is {}, not {}", l, n);
        let e = within(LIST_LIMIT, "emptiness", n, || m.is_empty())?;
        ensure!(e == (n == 0), "emptiness is {} with {} elements", e, n);
        if n == 0 {
            return Ok(self.h.fin());
        }
        within(LIST_LIMIT, "the first step of an iterator", n, || m.first())?;
        within(LIST_LIMIT, "the first step of a mutable iterator", n, || m.first_mut())?;
        for p in 0..3 {
            let at = pos(p, n);
            ensure!(within(LIST_LIMIT, "reading an element", n, || m.get(at))? == Some(7), "wrong element");
            ensure!(within(LIST_LIMIT, "writing an element", n, || m.get_mut(at))? == Some(7), "wrong element");
            ensure!(within(LIST_LIMIT, "indexing", n, || m.index(at))? == 7, "wrong element");
            rand::ctrl::set_fixed(Some(mix(&mut self.rnd) & self.mask));
            within(LIST_LIMIT, "an insert", n, || m.insert(at, 8))?;
            ensure!(within(LIST_LIMIT, "a removal", n, || m.remove(at))? == 8, "wrong element removed");
        }
        ensure!(within(LIST_LIMIT, "reading beyond the end", n, || m.get(n))?.is_none(), "an element beyond the end");
        rand::ctrl::set_fixed(Some(mix(&mut self.rnd) & self.mask));
        within(LIST_LIMIT, "pushing in front", n, || m.push_front(1))?;
        rand::ctrl::set_fixed(Some(mix(&mut self.rnd) & self.mask));
        within(LIST_LIMIT, "pushing at the end", n, || m.push_back(2))?;
        ensure!(within(LIST_LIMIT, "popping in front", n, || m.pop_front())? == 1, "wrong element");
        ensure!(within(LIST_LIMIT, "popping at the end", n, || m.pop_back())? == 2, "wrong element");
        let mut s = L::new();
        rand::ctrl::set_fixed(Some(mix(&mut self.rnd) & self.mask));
        s.push_back(3);
        m = within(LIST_LIMIT, "concatenation", n, || L::concat(m, s))?;
        let mut s = L::new();
        rand::ctrl::set_fixed(Some(mix(&mut self.rnd) & self.mask));
        s.push_back(3);
        m = within(LIST_LIMIT, "concatenation", n, || L::concat(s, m))?;
        ensure!(m.len() == n + 2, "length is {}, not {}", m.len(), n + 2);
        let (f, rest) = within(LIST_LIMIT, "the first step of a by-value iterator", n, || m.first_of())?;
        ensure!(f == Some(3), "wrong first item");
        drop(rest);
        Ok(self.h.fin())
    }
}


/// Arena (chunks of 32) and concurrent stack (used by one thread): no order of elements at all.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum POp {
    Add,
    /// Frees or pops half of all: arena from the oldest (0), from the latest (1), every other (2).
    Take(usize),
}
pub trait Pool: 'static {
    const NAME: &'static str;
    const RUN: usize;
    const LIMIT: u64;
    fn new() -> Self;
    fn add(&mut self, v: u64);
    /// The i-th of the live ones.
    fn take(&mut self, i: usize) -> Option<u64>;
    fn read(&mut self, i: usize);
    fn len(&self) -> usize;
}
pub struct ArenaPool(extended_collections::arena::TypedArena<u64>, Vec<Option<extended_collections::arena::Entry>>, Vec<usize>);
impl Pool for ArenaPool {
    const NAME: &'static str = "TypedArena";
    const RUN: usize = 40_000;
    const LIMIT: u64 = 20_000;
    fn new() -> Self {
        ArenaPool(extended_collections::arena::TypedArena::new(32), Vec::with_capacity(1 << 20), Vec::with_capacity(1 << 20))
    }
    fn add(&mut self, v: u64) {
        let e = self.0.allocate(v);
        self.2.push(self.1.len());
        self.1.push(Some(e));
    }
    fn take(&mut self, i: usize) -> Option<u64> {
        // the table of the live ones is not shifted
        let at = self.2.swap_remove(i);
        let e = self.1[at].take().unwrap();
        Some(self.0.free(&e))
    }
    fn read(&mut self, i: usize) {
        let e = self.1[self.2[i]].as_ref().unwrap();
        assert!(self.0.get(e).is_some());
        assert!(self.0.get_mut(e).is_some());
        assert!(self.0[*e] > 0);
    }
    fn len(&self) -> usize {
        self.2.len()
    }
}
pub struct StackPool(extended_collections::sync::Stack<u64>);
impl Pool for StackPool {
    const NAME: &'static str = "Stack";
    // memory is reclaimed in batches
    const RUN: usize = 60_000;
    const LIMIT: u64 = 120_000;
    fn new() -> Self {
        StackPool(extended_collections::sync::Stack::new())
    }
    fn add(&mut self, v: u64) {
        self.0.push(v)
    }
    fn take(&mut self, _: usize) -> Option<u64> {
        self.0.try_pop()
    }
    fn read(&mut self, _: usize) {
        assert!(!self.0.is_empty());
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
/// The part of an LSM store that is in memory (nothing is flushed).
pub struct LsmPool(extended_collections::lsm_tree::LsmMap<u64, u64, extended_collections::lsm_tree::compaction::SizeTieredStrategy<u64, u64>>, u64, Vec<u64>, std::path::PathBuf);
impl Pool for LsmPool {
    const NAME: &'static str = "LsmMap in memory";
    const RUN: usize = 8000;
    const LIMIT: u64 = 20_000;
    fn new() -> Self {
        let p = crate::scratch::path("w");
        let s = extended_collections::lsm_tree::compaction::SizeTieredStrategy::new(&p, 1 << 40, 4, 1 << 20, 0.5, 1.5).expect("a new store");
        LsmPool(extended_collections::lsm_tree::LsmMap::new(s), 0, Vec::with_capacity(1 << 20), p)
    }
    fn add(&mut self, v: u64) {
        self.1 += 1;
        let k = self.1.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        self.2.push(k);
        self.0.insert(k, v).expect("insert");
    }
    fn take(&mut self, i: usize) -> Option<u64> {
        let k = self.2.swap_remove(i);
        self.0.remove(k).expect("remove");
        Some(5)
    }
    fn read(&mut self, i: usize) {
        let k = self.2[i];
        assert_eq!(self.0.get(&k).expect("get"), Some(5));
        assert!(!self.0.contains_key(&(k + 1)).expect("contains_key"));
        assert!(self.0.len_hint().expect("len_hint") >= self.2.len());
    }
    fn len(&self) -> usize {
        self.2.len()
    }
}
impl Drop for LsmPool {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.3);
    }
}
pub struct WorkPoolScn<P> {
    ops: Vec<POp>,
    _m: std::marker::PhantomData<fn() -> P>,
}
impl<P: Pool> WorkPoolScn<P> {
    pub fn new() -> Self {
        WorkPoolScn { ops: vec![POp::Add, POp::Take(0), POp::Take(1), POp::Take(2)], _m: std::marker::PhantomData }
    }
}
impl<P: Pool> Scenario for WorkPoolScn<P> {
    fn name(&self) -> String {
        format!("{}: instructions", P::NAME)
    }
    fn op_name(&self, op: u16) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(WorkPoolInst::<P> { ops: &self.ops, m: P::new(), h: H::new() })
    }
}
struct WorkPoolInst<'a, P> {
    ops: &'a [POp],
    m: P,
    h: H,
}
impl<'a, P: Pool> Inst for WorkPoolInst<'a, P> {
    fn enabled(&self) -> Vec<u16> {
        (0..if self.m.len() == 0 { 1 } else { self.ops.len() as u16 }).collect()
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let op = self.ops[op as usize];
        self.h.bytes(format!("{:?}", op).as_bytes());
        let n = self.m.len();
        match op {
            POp::Add => (0..P::RUN).for_each(|_| self.m.add(5)),
            POp::Take(j) => {
                for i in 0..n / 2 {
                    let at = match j {
                        0 => 0,
                        1 => self.m.len() - 1,
                        _ => i % self.m.len(),
                    };
                    ensure!(self.m.take(at) == Some(5), "an element is lost");
                }
            }
        }
        Ok(())
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let n = self.m.len();
        let m = &mut self.m;
        // enough to see a chunk grow and deferred reclamation come due
        for _ in 0..3 {
            for _ in 0..33 {
                within(P::LIMIT, "adding", n, || m.add(5))?;
            }
            for _ in 0..33 {
                let at = m.len() - 1;
                within(P::LIMIT, "reading", n, || m.read(at))?;
                within(P::LIMIT, "reading", n, || m.read(0))?;
                ensure!(within(P::LIMIT, "taking", n, || m.take(at))? == Some(5), "an element is lost");
            }
        }
        let l = within(P::LIMIT, "length", n, || m.len())?;
        ensure!(l == n, "length is {}, not {}", l, n);
        Ok(self.h.fin())
    }
}

/// An allocator whose every call takes constant time (the system's puts off work and does it in
/// one go), so that what is counted is the collections' own.
pub struct Constant;
const SHIFT: u32 = 4;
const CLASSES: usize = 40;
#[allow(clippy::declare_interior_mutable_const)]
const NONE: Cell<*mut u8> = Cell::new(std::ptr::null_mut());
thread_local! {
    static FREE: [Cell<*mut u8>; CLASSES] = const { [NONE; CLASSES] };
    static BUMP: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}
fn class(l: &std::alloc::Layout) -> usize {
    let n = l.size().max(l.align()).max(1 << SHIFT);
    (usize::BITS - (n - 1).leading_zeros() - SHIFT) as usize
}
// SAFETY: blocks are powers of two in size and alignment, and are handed out once until freed
unsafe impl std::alloc::GlobalAlloc for Constant {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let c = class(&l);
        let p = FREE.try_with(|f| {
            let p = f[c].get();
            if !p.is_null() {
                f[c].set(*(p as *mut *mut u8));
            }
            p
        });
        match p {
            Ok(p) if !p.is_null() => return p,
            Err(_) => return std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(1 << (c as u32 + SHIFT), l.align())),
            _ => {}
        }
        let n = 1usize << (c as u32 + SHIFT);
        const REGION: usize = 4 << 20;
        if n > REGION / 4 {
            return map(n);
        }
        BUMP.with(|b| {
            let (mut at, mut end) = b.get();
            at = (at + n - 1) & !(n - 1);
            if at + n > end {
                at = map(REGION) as usize;
                end = at + REGION;
                at = (at + n - 1) & !(n - 1);
            }
            b.set((at + n, end));
            at as *mut u8
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let c = class(&l);
        let _ = FREE.try_with(|f| {
            *(p as *mut *mut u8) = f[c].get();
            f[c].set(p);
        });
    }
}
unsafe fn map(n: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
    if p == libc::MAP_FAILED {
        std::process::abort();
    }
    p as *mut u8
}
