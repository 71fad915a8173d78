//! Radix map and set against a sorted reference of byte strings.
use crate::engine::{may_panic, Inst, Scenario, R};
use crate::maps::{ensure, BoxIter};
use crate::tok::V;
use crate::util::H;
use extended_collections::radix::{RadixMap, RadixSet};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

pub type B = Vec<u8>;

pub trait RadixLike: Sized {
    const NAME: &'static str;
    const HAS_VALUES: bool;
    fn new() -> Self;
    fn default() -> Self;
    fn insert(&mut self, k: &[u8], v: V) -> Option<(B, Option<V>)>;
    fn remove(&mut self, k: &[u8]) -> Option<(B, Option<V>)>;
    fn contains(&self, k: &[u8]) -> bool;
    fn get(&self, k: &[u8]) -> Option<&V>;
    fn get_mut(&mut self, k: &[u8]) -> Option<&mut V>;
    fn index(&self, k: &[u8]) -> &V;
    fn index_mut(&mut self, k: &[u8]) -> &mut V;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn longest(&self, k: &[u8]) -> Vec<B>;
    fn min(&self) -> Option<B>;
    fn max(&self) -> Option<B>;
    fn iter(&self) -> BoxIter<'_, (B, Option<&V>)>;
    fn ref_into_iter(&self) -> BoxIter<'_, (B, Option<&V>)>;
    fn iter_mut(&mut self) -> BoxIter<'_, (B, &mut V)>;
    fn mut_into_iter(&mut self) -> BoxIter<'_, (B, &mut V)>;
    fn into_iter(self) -> BoxIter<'static, (B, Option<V>)>;
}

impl RadixLike for RadixMap<V> {
    const NAME: &'static str = "RadixMap";
    const HAS_VALUES: bool = true;
    fn new() -> Self {
        RadixMap::new()
    }
    fn default() -> Self {
        Default::default()
    }
    fn insert(&mut self, k: &[u8], v: V) -> Option<(B, Option<V>)> {
        RadixMap::insert(self, k, v).map(|(k, v)| (k, Some(v)))
    }
    fn remove(&mut self, k: &[u8]) -> Option<(B, Option<V>)> {
        RadixMap::remove(self, k).map(|(k, v)| (k, Some(v)))
    }
    fn contains(&self, k: &[u8]) -> bool {
        self.contains_key(k)
    }
    fn get(&self, k: &[u8]) -> Option<&V> {
        RadixMap::get(self, k)
    }
    fn get_mut(&mut self, k: &[u8]) -> Option<&mut V> {
        RadixMap::get_mut(self, k)
    }
    fn index(&self, k: &[u8]) -> &V {
        Index::index(self, k)
    }
    fn index_mut(&mut self, k: &[u8]) -> &mut V {
        IndexMut::index_mut(self, k)
    }
    fn len(&self) -> usize {
        RadixMap::len(self)
    }
    fn is_empty(&self) -> bool {
        RadixMap::is_empty(self)
    }
    fn clear(&mut self) {
        RadixMap::clear(self)
    }
    fn longest(&self, k: &[u8]) -> Vec<B> {
        self.get_longest_prefix(k)
    }
    fn min(&self) -> Option<B> {
        RadixMap::min(self)
    }
    fn max(&self) -> Option<B> {
        RadixMap::max(self)
    }
    fn iter(&self) -> BoxIter<'_, (B, Option<&V>)> {
        Box::new(RadixMap::iter(self).map(|(k, v)| (k, Some(v))))
    }
    fn ref_into_iter(&self) -> BoxIter<'_, (B, Option<&V>)> {
        Box::new(IntoIterator::into_iter(self).map(|(k, v)| (k, Some(v))))
    }
    fn iter_mut(&mut self) -> BoxIter<'_, (B, &mut V)> {
        Box::new(RadixMap::iter_mut(self))
    }
    fn mut_into_iter(&mut self) -> BoxIter<'_, (B, &mut V)> {
        Box::new(IntoIterator::into_iter(self))
    }
    fn into_iter(self) -> BoxIter<'static, (B, Option<V>)> {
        Box::new(IntoIterator::into_iter(self).map(|(k, v)| (k, Some(v))))
    }
}

impl RadixLike for RadixSet {
    const NAME: &'static str = "RadixSet";
    const HAS_VALUES: bool = false;
    fn new() -> Self {
        RadixSet::new()
    }
    fn default() -> Self {
        Default::default()
    }
    fn insert(&mut self, k: &[u8], _: V) -> Option<(B, Option<V>)> {
        RadixSet::insert(self, k).map(|k| (k, None))
    }
    fn remove(&mut self, k: &[u8]) -> Option<(B, Option<V>)> {
        RadixSet::remove(self, k).map(|k| (k, None))
    }
    fn contains(&self, k: &[u8]) -> bool {
        RadixSet::contains(self, k)
    }
    fn get(&self, _: &[u8]) -> Option<&V> {
        None
    }
    fn get_mut(&mut self, _: &[u8]) -> Option<&mut V> {
        None
    }
    fn index(&self, _: &[u8]) -> &V {
        unreachable!()
    }
    fn index_mut(&mut self, _: &[u8]) -> &mut V {
        unreachable!()
    }
    fn len(&self) -> usize {
        RadixSet::len(self)
    }
    fn is_empty(&self) -> bool {
        RadixSet::is_empty(self)
    }
    fn clear(&mut self) {
        RadixSet::clear(self)
    }
    fn longest(&self, k: &[u8]) -> Vec<B> {
        self.get_longest_prefix(k)
    }
    fn min(&self) -> Option<B> {
        RadixSet::min(self)
    }
    fn max(&self) -> Option<B> {
        RadixSet::max(self)
    }
    fn iter(&self) -> BoxIter<'_, (B, Option<&V>)> {
        Box::new(RadixSet::iter(self).map(|k| (k, None)))
    }
    fn ref_into_iter(&self) -> BoxIter<'_, (B, Option<&V>)> {
        Box::new(IntoIterator::into_iter(self).map(|k| (k, None)))
    }
    fn iter_mut(&mut self) -> BoxIter<'_, (B, &mut V)> {
        Box::new(std::iter::empty())
    }
    fn mut_into_iter(&mut self) -> BoxIter<'_, (B, &mut V)> {
        Box::new(std::iter::empty())
    }
    fn into_iter(self) -> BoxIter<'static, (B, Option<V>)> {
        Box::new(IntoIterator::into_iter(self).map(|k| (k, None)))
    }
}

/// Every string over `alpha` of length up to `len`.
pub fn strings(alpha: &[u8], len: usize) -> Vec<B> {
    let mut out: Vec<B> = vec![vec![]];
    let mut last: Vec<B> = vec![vec![]];
    for _ in 0..len {
        let mut nx = vec![];
        for s in &last {
            for c in alpha {
                let mut t = s.clone();
                t.push(*c);
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Reference,
    Longest,
}

pub struct RadixScn<M> {
    pub tag: &'static str,
    pub keys: Vec<B>,
    pub probes: Vec<B>,
    pub what: What,
    pub misuse: bool,
    pub value_ops: bool,
    p: PhantomData<fn() -> M>,
}

impl<M: RadixLike> RadixScn<M> {
    pub fn new(tag: &'static str, keys: Vec<B>, probes: Vec<B>, what: What, value_ops: bool, misuse: bool) -> Self {
        RadixScn { tag, keys, probes, what, misuse, value_ops, p: PhantomData }
    }
    // op codes: insert k, remove k, get_mut k, index_mut k, then the rest
    pub fn ins(&self, k: usize) -> u16 {
        k as u16
    }
    pub fn rem(&self, k: usize) -> u16 {
        (self.keys.len() + k) as u16
    }
    /// Fills with all keys and drains, in several orders; every prefix of the drain as a case.
    pub fn fill_drain(&self, every: usize) -> Vec<Vec<u16>> {
        let n = self.keys.len();
        let mut out = vec![];
        for f in crate::trees::orders(n) {
            for d in crate::trees::orders(n) {
                let mut t: Vec<u16> = f.iter().map(|k| self.ins(*k)).collect();
                out.push(t.clone());
                for (i, k) in d.iter().enumerate() {
                    t.push(self.rem(*k));
                    if (i + 1) % every == 0 || i + 1 == n {
                        out.push(t.clone());
                    }
                }
                // and fill again
                for k in f.iter() {
                    t.push(self.ins(*k));
                }
                out.push(t);
            }
        }
        out
    }
}

impl<M: RadixLike> Scenario for RadixScn<M> {
    fn name(&self) -> String {
        format!("{} ({})", M::NAME, self.tag)
    }
    fn op_name(&self, op: u16) -> String {
        let n = self.keys.len();
        let (c, k) = (op as usize / n, op as usize % n);
        match c {
            0 => format!("insert {:?}", self.keys[k]),
            1 => format!("remove {:?}", self.keys[k]),
            2 => format!("*get_mut({:?}) = new", self.keys[k]),
            3 => format!("map[{:?}] = new", self.keys[k]),
            _ => match op as usize - 4 * n {
                0 => "set every value through iter_mut".into(),
                1 => "clear".into(),
                2 => "into_iter, take 1, drop; start again".into(),
                _ => "start again with default()".into(),
            },
        }
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(RadixInst { scn: self, real: Some(M::new()), model: BTreeMap::new(), ctr: 0 })
    }
    fn ownership(&self) -> bool {
        true
    }
}

pub struct RadixInst<'a, M: RadixLike> {
    scn: &'a RadixScn<M>,
    real: Option<M>,
    model: BTreeMap<B, u64>,
    ctr: u64,
}

fn same_val(what: &str, hv: bool, got: Option<&V>, want: u64) -> R<()> {
    if hv {
        ensure!(got.map_or(false, |v| v.tok.ok() && v.v == want), "{}: another value", what);
    }
    Ok(())
}

fn same_pair<M: RadixLike>(what: &str, got: Option<(B, Option<V>)>, k: &B, want: Option<u64>) -> R<()> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some((g, v)), Some(w)) => {
            ensure!(&g == k, "{} of {:?} returned the key {:?}", what, k, g);
            same_val(what, M::HAS_VALUES, v.as_ref(), w)
        }
        (Some(_), None) => Err(format!("{} of the absent key {:?} returned an entry", what, k)),
        (None, Some(_)) => Err(format!("{} of the present key {:?} returned nothing", what, k)),
    }
}

fn same_seq<'x, M: RadixLike>(what: &str, mut it: impl Iterator<Item = (B, Option<&'x V>)>, model: &BTreeMap<B, u64>) -> R<()> {
    for (i, (k, v)) in model.iter().enumerate() {
        match it.next() {
            None => return Err(format!("{} ended after {} of {} items", what, i, model.len())),
            Some((g, gv)) => {
                ensure!(&g == k, "{}: item {} is {:?} instead of {:?}", what, i, g, k);
                same_val(what, M::HAS_VALUES, gv, *v)?;
            }
        }
    }
    ensure!(it.next().is_none(), "{} yields more than {} items", what, model.len());
    Ok(())
}

pub fn longest_reference(model: &BTreeMap<B, u64>, probe: &[u8]) -> Vec<B> {
    let common = |k: &B| k.iter().zip(probe.iter()).take_while(|(a, b)| a == b).count();
    let best = model.keys().map(|k| common(k)).max().unwrap_or(0);
    model.keys().filter(|k| common(k) == best).cloned().collect()
}

impl<'a, M: RadixLike> Inst for RadixInst<'a, M> {
    fn enabled(&self) -> Vec<u16> {
        let n = self.scn.keys.len();
        let mut v: Vec<u16> = (0..2 * n as u16).collect();
        if M::HAS_VALUES && self.scn.value_ops {
            for k in 0..n {
                v.push((2 * n + k) as u16);
                if self.model.contains_key(&self.scn.keys[k]) {
                    v.push((3 * n + k) as u16);
                }
            }
            v.push(4 * n as u16);
        }
        v.push(4 * n as u16 + 1);
        if self.scn.value_ops {
            v.push(4 * n as u16 + 2);
            v.push(4 * n as u16 + 3);
        }
        v
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let n = self.scn.keys.len();
        let (c, k) = (op as usize / n, op as usize % n);
        let m = self.real.as_mut().unwrap();
        self.ctr += 1;
        match c {
            0 => {
                let key = &self.scn.keys[k];
                let got = m.insert(key, V::new(self.ctr));
                let want = self.model.insert(key.clone(), self.ctr);
                same_pair::<M>("insert", got, key, want)?;
            }
            1 => {
                let key = &self.scn.keys[k];
                let got = m.remove(key);
                let want = self.model.remove(key);
                same_pair::<M>("remove", got, key, want)?;
            }
            2 | 3 => {
                let key = &self.scn.keys[k];
                let want = self.model.get_mut(key);
                if c == 3 && want.is_none() {
                    return Err("skip: absent".into());
                }
                let got = if c == 2 { m.get_mut(key) } else { Some(m.index_mut(key)) };
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => {
                        ensure!(g.tok.ok() && g.v == *w, "mutable access returned another value");
                        *g = V::new(self.ctr);
                        *w = self.ctr;
                    }
                    _ => return Err("get_mut() is wrong about whether the key is present".into()),
                }
            }
            _ => match op as usize - 4 * n {
                0 => {
                    let base = self.ctr * 100_000;
                    self.ctr += 1;
                    let mut i = 0;
                    for (_, v) in m.iter_mut() {
                        *v = V::new(base + i);
                        i += 1;
                    }
                    ensure!(i as usize == self.model.len(), "iter_mut() yields {} of {} items", i, self.model.len());
                    for (i, v) in self.model.values_mut().enumerate() {
                        *v = base + i as u64;
                    }
                }
                1 => {
                    m.clear();
                    self.model.clear();
                }
                2 => {
                    let m = self.real.take().unwrap();
                    let mut it = m.into_iter();
                    let got = it.next();
                    drop(it);
                    let want = self.model.iter().next();
                    match (got, want) {
                        (None, None) => {}
                        (Some((k, v)), Some((wk, wv))) => {
                            ensure!(&k == wk, "into_iter() starts with another key");
                            same_val("into_iter()", M::HAS_VALUES, v.as_ref(), *wv)?;
                        }
                        _ => return Err("into_iter() is wrong about whether there is an entry".into()),
                    }
                    self.model.clear();
                    self.real = Some(M::new());
                }
                _ => {
                    self.model.clear();
                    self.real = Some(M::default());
                }
            },
        }
        Ok(())
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let mut h = H::new();
        for (i, k) in self.scn.keys.iter().enumerate() {
            if self.model.contains_key(k) {
                h.u(i as u64 + 1);
            }
        }
        let mut m = self.real.take().unwrap();
        let model = &self.model;
        if self.scn.what == What::Longest {
            for p in &self.scn.probes {
                let got = m.longest(p);
                let want = longest_reference(model, p);
                let shares = p.is_empty() || want.first().map_or(false, |k| k.first() == p.first());
                if shares {
                    ensure!(got == want, "get_longest_prefix({:?}) is {:?} instead of {:?}", p, got, want);
                } else {
                    // nothing in common: no key, or at most the empty one
                    ensure!(got.iter().all(|k| k.is_empty() && model.contains_key(k)) && got.len() <= 1, "get_longest_prefix({:?}) is {:?}, which has nothing in common with it", p, got);
                }
            }
            return Ok(h.fin());
        }
        ensure!(m.len() == model.len(), "len() is {} instead of {}", m.len(), model.len());
        ensure!(m.is_empty() == model.is_empty(), "is_empty() is wrong");
        ensure!(m.min().as_ref() == model.keys().next(), "min() is {:?} instead of {:?}", m.min(), model.keys().next());
        ensure!(m.max().as_ref() == model.keys().next_back(), "max() is {:?} instead of {:?}", m.max(), model.keys().next_back());
        let mut absent = 0;
        for p in &self.scn.probes {
            let want = model.get(p);
            ensure!(m.contains(p) == want.is_some(), "contains({:?}) is wrong", p);
            if M::HAS_VALUES {
                match (m.get(p), want) {
                    (None, None) => {}
                    (Some(v), Some(w)) => ensure!(v.tok.ok() && v.v == *w, "get({:?}) returned another value", p),
                    _ => return Err(format!("get({:?}) is wrong about whether the key is present", p)),
                }
                match (m.get_mut(p), want) {
                    (None, None) => {}
                    (Some(v), Some(w)) => ensure!(v.tok.ok() && v.v == *w, "get_mut({:?}) returned another value", p),
                    _ => return Err(format!("get_mut({:?}) is wrong about whether the key is present", p)),
                }
                if let Some(w) = want {
                    ensure!(m.index(p).v == *w, "indexing returned another value");
                } else if self.scn.misuse && absent < 3 {
                    absent += 1;
                    ensure!(may_panic(|| m.index(p).v).is_err(), "indexing by an absent key did not panic");
                    ensure!(may_panic(|| m.index_mut(p).v).is_err(), "mutable indexing by an absent key did not panic");
                }
            }
        }
        same_seq::<M>("iter()", m.iter(), model)?;
        same_seq::<M>("(&map).into_iter()", m.ref_into_iter(), model)?;
        if M::HAS_VALUES {
            same_seq::<M>("iter_mut()", m.iter_mut().map(|(k, v)| (k, Some(&*v))), model)?;
            same_seq::<M>("(&mut map).into_iter()", m.mut_into_iter().map(|(k, v)| (k, Some(&*v))), model)?;
        }
        let mut it = m.into_iter();
        for (i, (k, v)) in model.iter().enumerate() {
            match it.next() {
                None => return Err(format!("into_iter() ended after {} of {} items", i, model.len())),
                Some((g, gv)) => {
                    ensure!(&g == k, "into_iter(): item {} is {:?} instead of {:?}", i, g, k);
                    same_val("into_iter()", M::HAS_VALUES, gv.as_ref(), *v)?;
                }
            }
        }
        ensure!(it.next().is_none(), "into_iter() yields more than {} items", model.len());
        Ok(h.fin())
    }
}
