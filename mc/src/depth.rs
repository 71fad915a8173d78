//! How deep into the call stack the collections go, for long histories made of runs.
use crate::algebra::Algebra;
use crate::engine::{Inst, Scenario, R};
use crate::lists::ListLike;
use crate::maps::{ensure, MapLike};
use crate::tok::{stack_of, K, V};
use crate::util::H;

/// More than what logarithmic recursion over a few thousand elements takes in an unoptimised
/// build, and far less than one frame per element of a run.
pub const LIMIT: usize = 48 << 10;
pub const RUN: usize = 2000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DOp {
    /// A run of new keys below (0), in the middle of (1) or above (2) all others, ascending (0),
    /// descending (1), or from both ends inwards (2).
    Run(usize, usize),
    /// Touches the first (0), middle (1) or last (2) key.
    Access(usize),
    /// Lookup, floor or ceiling of it, or of the key below or above it, which are absent.
    Look(usize, usize),
    Remove(usize),
    /// Removes every other key.
    Thin,
    Clear,
    /// Union (0), intersection (1), difference (2) or symmetric difference (3) with a collection of
    /// every other key and a run of new keys below (0), between (1) or above (2) all others; as the
    /// first operand or the second.
    Join(usize, usize, bool),
    /// Splits at the first, middle or last key; the first part or the second is kept.
    Split(usize, bool),
    /// Takes the collection apart by value; the iterator is dropped after none (0), one (1), half
    /// (2) or all (3) of the items.
    Take(usize),
}

fn ops(maps: bool) -> Vec<DOp> {
    let mut v = vec![];
    for g in 0..3 {
        for o in 0..3 {
            v.push(DOp::Run(g, o));
        }
    }
    for p in 0..3 {
        v.push(DOp::Access(p));
        v.push(DOp::Remove(p));
    }
    if maps {
        for p in 0..3 {
            for w in 0..5 {
                v.push(DOp::Look(w, p));
            }
        }
    }
    v.push(DOp::Thin);
    v.push(DOp::Clear);
    for j in 0..4 {
        v.push(DOp::Take(j));
    }
    v
}

pub fn run_order(n: usize, o: usize) -> Vec<usize> {
    match o {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    }
}

pub fn pos(p: usize, n: usize) -> usize {
    [0, n / 2, n - 1][p]
}

fn enabled(ops: &[DOp], n: usize) -> Vec<u16> {
    (0..ops.len())
        .filter(|i| match ops[*i] {
            DOp::Run(g, _) => n > 0 || g == 0,
            _ => n > 0,
        })
        .map(|i| i as u16)
        .collect()
}

fn within(what: &str, n: usize, d: usize) -> R<()> {
    ensure!(d <= LIMIT, "{} of a collection of {} elements went {} bytes deep into the call stack, more than the {} that logarithmic depth takes", what, n, d, LIMIT);
    Ok(())
}

/// A fixed, well mixed sequence of random choices.
pub fn mix(i: &mut u32) -> u32 {
    *i = i.wrapping_add(1);
    let mut x = i.wrapping_mul(0x9e37_79b9);
    x ^= x >> 16;
    x = x.wrapping_mul(0x85eb_ca6b);
    x ^= x >> 13;
    x = x.wrapping_mul(0xc2b2_ae35);
    x ^ x >> 16
}

pub struct DeepScn<M> {
    ops: Vec<DOp>,
    join: fn(M, M, usize) -> M,
    split: fn(&mut M, u128) -> M,
}
impl<M> DeepScn<M> {
    pub fn new() -> Self {
        DeepScn { ops: ops(true), join: |_, _, _| unreachable!(), split: |_, _| unreachable!() }
    }
}
impl<M: Algebra> DeepScn<M> {
    pub fn pair() -> Self {
        let mut ops = ops(true);
        for o in 0..4 {
            for g in 0..3 {
                ops.push(DOp::Join(o, g, false));
                ops.push(DOp::Join(o, g, true));
            }
        }
        if M::SPLIT {
            for p in 0..3 {
                ops.push(DOp::Split(p, false));
                ops.push(DOp::Split(p, true));
            }
        }
        DeepScn {
            ops,
            join: |l, r, o| match o {
                0 => M::union(l, r),
                1 => M::intersection(l, r),
                2 => M::difference(l, r),
                _ => M::symmetric_difference(l, r),
            },
            split: |m, k| m.split_off(k, false),
        }
    }
}
impl<M: MapLike> Scenario for DeepScn<M> {
    fn name(&self) -> String {
        format!("{}: call stack", M::NAME)
    }
    fn op_name(&self, op: u16) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(DeepInst::<M> { ops: &self.ops, join: self.join, split: self.split, m: Some(M::new()), keys: vec![], h: H::new(), rnd: 0 })
    }
}

struct DeepInst<'a, M> {
    ops: &'a [DOp],
    join: fn(M, M, usize) -> M,
    split: fn(&mut M, u128) -> M,
    m: Option<M>,
    keys: Vec<u128>,
    h: H,
    rnd: u32,
}
impl<'a, M: MapLike> DeepInst<'a, M> {
    fn replace(&mut self) -> M {
        self.keys.clear();
        self.m.replace(M::new()).unwrap()
    }
}

impl<'a, M: MapLike> Inst for DeepInst<'a, M> {
    fn enabled(&self) -> Vec<u16> {
        enabled(self.ops, self.keys.len())
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let op = self.ops[op as usize];
        self.h.bytes(format!("{:?}", op).as_bytes());
        let n = self.keys.len();
        let name = format!("{:?}", op);
        match op {
            DOp::Run(g, o) => {
                let (lo, hi, at) = match (g, n) {
                    (_, 0) => (1u128 << 100, 3u128 << 100, 0),
                    (0, _) => (self.keys[0] / 2, self.keys[0], 0),
                    (1, _) if n > 1 => (self.keys[n / 2 - 1], self.keys[n / 2], n / 2),
                    _ => (self.keys[n - 1], self.keys[n - 1] + (1 << 100), n),
                };
                let step = (hi - lo) / (RUN as u128 + 1);
                ensure!(step > 0, "internal: no room for keys");
                let new: Vec<u128> = (0..RUN).map(|i| lo + step * (i as u128 + 1)).collect();
                let m = self.m.as_mut().unwrap();
                let rnd = &mut self.rnd;
                let (r, d) = stack_of(|| {
                    run_order(RUN, o).into_iter().all(|i| {
                        rand::ctrl::set_fixed(Some(mix(rnd)));
                        m.insert(K::new(new[i]), V::new(0)).is_none()
                    })
                });
                ensure!(r, "insert of a new key returned an entry");
                within("insert", n + RUN, d)?;
                self.keys.splice(at..at, new);
            }
            DOp::Access(p) => {
                let k = self.keys[pos(p, n)];
                let m = self.m.as_mut().unwrap();
                if M::HAS_VALUES {
                    let (r, d) = stack_of(|| m.get_mut(k).is_some());
                    ensure!(r, "a stored key was not found");
                    within("mutable access", n, d)?;
                }
            }
            DOp::Look(w, p) => {
                let k = self.keys[pos(p, n)];
                let m = self.m.as_mut().unwrap();
                let (r, d) = stack_of(|| match w {
                    0 => m.contains(k),
                    1 => m.floor(k).is_some(),
                    2 => m.ceil(k).is_some(),
                    3 => m.floor(k + 1).is_some() && !m.contains(k - 1),
                    _ => m.ceil(k - 1).is_some() && !m.contains(k + 1),
                });
                ensure!(r, "a stored key was not found");
                within("lookup", n, d)?;
            }
            DOp::Remove(p) => {
                let k = self.keys.remove(pos(p, n));
                let m = self.m.as_mut().unwrap();
                let (r, d) = stack_of(|| m.remove(k).is_some());
                ensure!(r, "remove did not find a stored key");
                within("remove", n, d)?;
            }
            DOp::Thin => {
                let m = self.m.as_mut().unwrap();
                let mut i = 0;
                let mut all = true;
                let keys = &mut self.keys;
                let (_, d) = stack_of(|| {
                    keys.retain(|k| {
                        i += 1;
                        if i % 2 == 0 {
                            return true;
                        }
                        all &= m.remove(*k).is_some();
                        false
                    })
                });
                ensure!(all, "remove did not find a stored key");
                within("remove", n, d)?;
            }
            DOp::Clear => {
                self.keys.clear();
                let m = self.m.as_mut().unwrap();
                let (_, d) = stack_of(|| m.clear());
                within("clear", n, d)?;
                ensure!(self.m.as_ref().unwrap().is_empty(), "not empty after clear");
            }
            DOp::Join(o, g, second) => {
                let mut keys: Vec<u128> = (0..RUN as u128)
                    .map(|i| match g {
                        0 => self.keys[0] / 2 + self.keys[0] / 2 / (RUN as u128 + 1) * i,
                        1 => {
                            let j = i as usize * (n - 1) / RUN;
                            let gap = self.keys[(j + 1).min(n - 1)] - self.keys[j];
                            self.keys[j] + gap / (RUN as u128 + 1) * (i + 1)
                        }
                        _ => self.keys[n - 1] + ((1 << 100) / (RUN as u128 + 1)) * (i + 1),
                    })
                    .collect();
                keys.extend(self.keys.iter().step_by(2));
                keys.sort();
                keys.dedup();
                let mut m = M::new();
                for k in &keys {
                    rand::ctrl::set_fixed(Some(mix(&mut self.rnd)));
                    m.insert(K::new(*k), V::new(0));
                }
                let mine = self.m.take().unwrap();
                let (l, r) = if second { (m, mine) } else { (mine, m) };
                let join = self.join;
                let (m, d) = stack_of(|| join(l, r, o));
                within("a set operation", n + keys.len(), d)?;
                self.m = Some(m);
                let old = std::mem::take(&mut self.keys);
                let (l, r) = if second { (keys, old) } else { (old, keys) };
                let in_l = |k: &u128| l.binary_search(k).is_ok();
                let in_r = |k: &u128| r.binary_search(k).is_ok();
                let mut all: Vec<u128> = l.iter().chain(&r).cloned().collect();
                all.sort();
                all.dedup();
                all.retain(|k| match o {
                    0 => true,
                    1 => in_l(k) && in_r(k),
                    2 => in_l(k) && !in_r(k),
                    _ => in_l(k) != in_r(k),
                });
                self.keys = all;
            }
            DOp::Split(p, second) => {
                let k = self.keys[pos(p, n)];
                let split = self.split;
                let m = self.m.as_mut().unwrap();
                let (r, d) = stack_of(|| split(m, k));
                within("splitting", n, d)?;
                let (a, b) = self.keys.split_at(pos(p, n));
                let (la, lb) = (m.len(), r.len());
                ensure!(la == a.len() && lb == b.len(), "splitting {} entries gave {} and {}, not {} and {}", n, la, lb, a.len(), b.len());
                self.keys = if second { b.to_vec() } else { a.to_vec() };
                let drops = if second { self.m.replace(r).unwrap() } else { r };
                let (_, d) = stack_of(|| drop(drops));
                within("drop", n, d)?;
            }
            DOp::Take(j) => {
                let j = [0, 1, n / 2, n][j];
                let m = self.replace();
                let mut it = None;
                let (_, d) = stack_of(|| it = Some(m.into_iter()));
                within("by-value iteration", n, d)?;
                let mut it = it.unwrap();
                let (c, d) = stack_of(|| (0..j).filter(|_| it.next().is_some()).count());
                ensure!(c == j, "by-value iteration ended early");
                within("by-value iteration", n, d)?;
                let (_, d) = stack_of(|| drop(it));
                within("dropping a by-value iterator", n, d)?;
            }
        }
        let _ = name;
        Ok(())
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let n = self.keys.len();
        let mut m = self.m.take().unwrap();
        ensure!(m.len() == n, "length is {}, not {}", m.len(), n);
        if n > 0 {
            let (_, d) = stack_of(|| m.min().is_some() && m.max().is_some());
            within("minimum and maximum", n, d)?;
            let (c, d) = stack_of(|| m.iter().count());
            ensure!(c == n, "iteration yielded {} of {} entries", c, n);
            within("iteration", n, d)?;
            if M::HAS_VALUES {
                let (c, d) = stack_of(|| m.iter_mut().count());
                ensure!(c == n, "mutable iteration yielded {} of {} entries", c, n);
                within("mutable iteration", n, d)?;
            }
            // lookups change the shape of splay trees
            let mut at = vec![0, 1, n / 4, n / 2 - n / 2 % 2, 3 * n / 4, n.saturating_sub(2), n - 1];
            at.retain(|i| *i < n);
            for i in at {
                let k = self.keys[i];
                let (r, d) = stack_of(|| m.contains(k));
                ensure!(r, "a stored key was not found");
                within("lookup", n, d)?;
                for k in [k - 1, k, k + 1] {
                    let (_, d) = stack_of(|| m.contains(k));
                    within("lookup", n, d)?;
                    let (_, d) = stack_of(|| m.floor(k).is_some());
                    within("floor", n, d)?;
                    let (_, d) = stack_of(|| m.ceil(k).is_some());
                    within("ceiling", n, d)?;
                }
            }
        }
        let (_, d) = stack_of(|| drop(m));
        within("drop", n, d)?;
        Ok(self.h.fin())
    }
}

pub struct DeepListScn<L> {
    ops: Vec<DOp>,
    _m: std::marker::PhantomData<fn() -> L>,
}
impl<L> DeepListScn<L> {
    pub fn new() -> Self {
        DeepListScn { ops: ops(false), _m: std::marker::PhantomData }
    }
}
impl<L: ListLike> Scenario for DeepListScn<L> {
    fn name(&self) -> String {
        format!("{}: call stack", L::NAME)
    }
    fn op_name(&self, op: u16) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(DeepListInst::<L> { ops: &self.ops, m: Some(L::new()), n: 0, h: H::new(), rnd: 0 })
    }
}
struct DeepListInst<'a, L> {
    ops: &'a [DOp],
    m: Option<L>,
    n: usize,
    h: H,
    rnd: u32,
}
impl<'a, L: ListLike> Inst for DeepListInst<'a, L> {
    fn enabled(&self) -> Vec<u16> {
        enabled(self.ops, self.n)
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let op = self.ops[op as usize];
        self.h.bytes(format!("{:?}", op).as_bytes());
        let n = self.n;
        match op {
            DOp::Run(g, o) => {
                // ascending: each behind the last; descending: each before it; last: one list
                // is built apart and concatenated
                let at = [0, n / 2, n][g];
                if o < 2 {
                    let m = self.m.as_mut().unwrap();
                    let rnd = &mut self.rnd;
                    let (_, d) = stack_of(|| {
                        for i in 0..RUN {
                            rand::ctrl::set_fixed(Some(mix(rnd)));
                            m.insert(if o == 0 { at + i } else { at }, V::new(0));
                        }
                    });
                    within("insert", n + RUN, d)?;
                } else {
                    let mut o = L::new();
                    for _ in 0..RUN {
                        rand::ctrl::set_fixed(Some(mix(&mut self.rnd)));
                        o.push_back(V::new(0));
                    }
                    let m = self.m.take().unwrap();
                    let (r, d) = stack_of(|| if g == 0 { L::concat(o, m) } else { L::concat(m, o) });
                    within("concatenation", n, d)?;
                    self.m = Some(r);
                }
                self.n += RUN;
            }
            DOp::Look(..) | DOp::Join(..) | DOp::Split(..) => {}
            DOp::Access(p) => {
                let m = self.m.as_mut().unwrap();
                let (r, d) = stack_of(|| m.get_mut(pos(p, n)).is_some());
                ensure!(r, "no element at an index in range");
                within("access", n, d)?;
            }
            DOp::Remove(p) => {
                let m = self.m.as_mut().unwrap();
                let (_, d) = stack_of(|| m.remove(pos(p, n)));
                within("remove", n, d)?;
                self.n -= 1;
            }
            DOp::Thin => {
                let m = self.m.as_mut().unwrap();
                let (_, d) = stack_of(|| {
                    for i in 0..n / 2 {
                        m.remove(i);
                    }
                });
                within("remove", n, d)?;
                self.n -= n / 2;
            }
            DOp::Clear => {
                let m = self.m.as_mut().unwrap();
                let (_, d) = stack_of(|| m.clear());
                within("clear", n, d)?;
                self.n = 0;
            }
            DOp::Take(j) => {
                let j = [0, 1, n / 2, n][j];
                let m = self.m.replace(L::new()).unwrap();
                self.n = 0;
                let mut it = m.into_iter();
                let (c, d) = stack_of(|| (0..j).filter(|_| it.next().is_some()).count());
                ensure!(c == j, "by-value iteration ended early");
                within("by-value iteration", n, d)?;
                let (_, d) = stack_of(|| drop(it));
                within("dropping a by-value iterator", n, d)?;
            }
        }
        Ok(())
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let n = self.n;
        let m = self.m.take().unwrap();
        ensure!(m.len() == n, "length is {}, not {}", m.len(), n);
        let (c, d) = stack_of(|| m.iter().count());
        ensure!(c == n, "iteration yielded {} of {} elements", c, n);
        within("iteration", n, d)?;
        let (_, d) = stack_of(|| drop(m));
        within("drop", n, d)?;
        Ok(self.h.fin())
    }
}
