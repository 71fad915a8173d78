//! Ordered maps and sets against a sorted reference.
use crate::engine::{may_panic, Inst, Scenario, R};
use crate::tok::{log_comparisons, log_distinct, log_start, K, V};
use crate::util::H;

pub type BoxIter<'a, T> = Box<dyn Iterator<Item = T> + 'a>;

pub trait MapLike: Sized {
    const NAME: &'static str;
    const HAS_VALUES: bool;
    /// Can absent keys be searched without changing the tree?
    fn new() -> Self;
    fn insert(&mut self, k: K, v: V) -> Option<(K, Option<V>)>;
    fn remove(&mut self, k: u128) -> Option<(K, Option<V>)>;
    fn contains(&self, k: u128) -> bool;
    fn get(&self, k: u128) -> Option<&V>;
    fn get_mut(&mut self, k: u128) -> Option<&mut V>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn floor(&self, k: u128) -> Option<&K>;
    fn ceil(&self, k: u128) -> Option<&K>;
    fn min(&self) -> Option<&K>;
    fn max(&self) -> Option<&K>;
    fn iter(&self) -> BoxIter<'_, (&K, Option<&V>)>;
    fn ref_into_iter(&self) -> BoxIter<'_, (&K, Option<&V>)>;
    fn iter_mut(&mut self) -> BoxIter<'_, (&K, &mut V)>;
    fn mut_into_iter(&mut self) -> BoxIter<'_, (&K, &mut V)>;
    fn into_iter(self) -> BoxIter<'static, (K, Option<V>)>;
    fn index(&self, k: u128) -> &V;
    fn index_mut(&mut self, k: u128) -> &mut V;
    fn default() -> Self;
}

#[macro_export]
macro_rules! impl_map {
    ($t:ty, $name:expr) => {
        impl MapLike for $t {
            const NAME: &'static str = $name;
            const HAS_VALUES: bool = true;
            fn new() -> Self {
                <$t>::new()
            }
            fn insert(&mut self, k: K, v: V) -> Option<(K, Option<V>)> {
                <$t>::insert(self, k, v).map(|(k, v)| (k, Some(v)))
            }
            fn remove(&mut self, k: u128) -> Option<(K, Option<V>)> {
                <$t>::remove(self, &P(k)).map(|(k, v)| (k, Some(v)))
            }
            fn contains(&self, k: u128) -> bool {
                <$t>::contains_key(self, &P(k))
            }
            fn get(&self, k: u128) -> Option<&V> {
                <$t>::get(self, &P(k))
            }
            fn get_mut(&mut self, k: u128) -> Option<&mut V> {
                <$t>::get_mut(self, &P(k))
            }
            fn len(&self) -> usize {
                <$t>::len(self)
            }
            fn is_empty(&self) -> bool {
                <$t>::is_empty(self)
            }
            fn clear(&mut self) {
                <$t>::clear(self)
            }
            fn floor(&self, k: u128) -> Option<&K> {
                <$t>::floor(self, &P(k))
            }
            fn ceil(&self, k: u128) -> Option<&K> {
                <$t>::ceil(self, &P(k))
            }
            fn min(&self) -> Option<&K> {
                <$t>::min(self)
            }
            fn max(&self) -> Option<&K> {
                <$t>::max(self)
            }
            fn iter(&self) -> BoxIter<'_, (&K, Option<&V>)> {
                Box::new(<$t>::iter(self).map(|(k, v)| (k, Some(v))))
            }
            fn ref_into_iter(&self) -> BoxIter<'_, (&K, Option<&V>)> {
                Box::new(IntoIterator::into_iter(self).map(|(k, v)| (k, Some(v))))
            }
            fn iter_mut(&mut self) -> BoxIter<'_, (&K, &mut V)> {
                Box::new(<$t>::iter_mut(self))
            }
            fn mut_into_iter(&mut self) -> BoxIter<'_, (&K, &mut V)> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn into_iter(self) -> BoxIter<'static, (K, Option<V>)> {
                Box::new(IntoIterator::into_iter(self).map(|(k, v)| (k, Some(v))))
            }
            fn index(&self, k: u128) -> &V {
                Index::index(self, &P(k))
            }
            fn index_mut(&mut self, k: u128) -> &mut V {
                IndexMut::index_mut(self, &P(k))
            }
            fn default() -> Self {
                Default::default()
            }
        }
    };
}

#[macro_export]
macro_rules! impl_set {
    ($t:ty, $name:expr) => {
        impl MapLike for $t {
            const NAME: &'static str = $name;
            const HAS_VALUES: bool = false;
            fn new() -> Self {
                <$t>::new()
            }
            fn insert(&mut self, k: K, v: V) -> Option<(K, Option<V>)> {
                drop(v);
                <$t>::insert(self, k).map(|k| (k, None))
            }
            fn remove(&mut self, k: u128) -> Option<(K, Option<V>)> {
                let probe = K::new(k);
                <$t>::remove(self, &probe).map(|k| (k, None))
            }
            fn contains(&self, k: u128) -> bool {
                <$t>::contains(self, &P(k))
            }
            fn get(&self, _: u128) -> Option<&V> {
                None
            }
            fn get_mut(&mut self, _: u128) -> Option<&mut V> {
                None
            }
            fn len(&self) -> usize {
                <$t>::len(self)
            }
            fn is_empty(&self) -> bool {
                <$t>::is_empty(self)
            }
            fn clear(&mut self) {
                <$t>::clear(self)
            }
            fn floor(&self, k: u128) -> Option<&K> {
                <$t>::floor(self, &P(k))
            }
            fn ceil(&self, k: u128) -> Option<&K> {
                <$t>::ceil(self, &P(k))
            }
            fn min(&self) -> Option<&K> {
                <$t>::min(self)
            }
            fn max(&self) -> Option<&K> {
                <$t>::max(self)
            }
            fn iter(&self) -> BoxIter<'_, (&K, Option<&V>)> {
                Box::new(<$t>::iter(self).map(|k| (k, None)))
            }
            fn ref_into_iter(&self) -> BoxIter<'_, (&K, Option<&V>)> {
                Box::new(IntoIterator::into_iter(self).map(|k| (k, None)))
            }
            fn iter_mut(&mut self) -> BoxIter<'_, (&K, &mut V)> {
                Box::new(std::iter::empty())
            }
            fn mut_into_iter(&mut self) -> BoxIter<'_, (&K, &mut V)> {
                Box::new(std::iter::empty())
            }
            fn into_iter(self) -> BoxIter<'static, (K, Option<V>)> {
                Box::new(IntoIterator::into_iter(self).map(|k| (k, None)))
            }
            fn index(&self, _: u128) -> &V {
                unreachable!()
            }
            fn index_mut(&mut self, _: u128) -> &mut V {
                unreachable!()
            }
            fn default() -> Self {
                Default::default()
            }
        }
    };
}

/// One element of the reference: key, identity of the stored key, value.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct E {
    pub k: u128,
    pub id: u32,
    pub v: u64,
    /// The random choices the entry may have been stored with, as a set of indices.
    pub r: u64,
}

/// The search tree as lookups see it.
pub struct Shape {
    /// For every key in order: the stored keys its lookup compares, itself last.
    pub paths: Vec<Vec<u128>>,
}

pub fn observe_shape<M: MapLike>(m: &M, model: &[E]) -> Shape {
    let mut paths = vec![];
    for e in model {
        let (_, log) = log_comparisons(|| m.contains(e.k));
        let mut p: Vec<u128> = vec![];
        // the probe has the same position as the key looked for: the stored key of a
        // comparison is the other one, or the probe's own position when they are equal
        for (a, b) in log {
            let s = if a == e.k { b } else { a };
            if p.last() != Some(&s) {
                p.push(s);
            }
            if s == e.k {
                break;
            }
        }
        paths.push(p);
    }
    Shape { paths }
}

pub struct Tree {
    pub left: Option<Box<Tree>>,
    pub right: Option<Box<Tree>>,
    pub idx: usize,
    pub height: usize,
    pub size: usize,
}

impl Shape {
    pub fn hash(&self, model: &[E], h: &mut H) {
        for p in &self.paths {
            h.u(p.len() as u64);
            for k in p {
                let i = model.iter().position(|e| e.k == *k).unwrap_or(usize::MAX);
                h.u(i as u64);
            }
        }
    }
    pub fn depth(&self) -> usize {
        self.paths.iter().map(|p| p.len()).max().unwrap_or(0)
    }
    pub fn total(&self) -> usize {
        self.paths.iter().map(|p| p.len()).sum()
    }
    /// Rebuilds the tree from the lookup paths.
    pub fn tree(&self, model: &[E]) -> R<Option<Box<Tree>>> {
        let idx: Vec<Vec<usize>> = self
            .paths
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let v: Option<Vec<usize>> = p.iter().map(|k| model.iter().position(|e| e.k == *k)).collect();
                match v {
                    Some(v) if v.last() == Some(&i) => Ok(v),
                    _ => Err(format!("lookup of key {} did not end at that key", i)),
                }
            })
            .collect::<R<_>>()?;
        fn build(idx: &[Vec<usize>], lo: usize, hi: usize, d: usize) -> R<Option<Box<Tree>>> {
            if lo >= hi {
                return Ok(None);
            }
            let root = *idx[lo].get(d).ok_or("lookups do not follow one search tree")?;
            if root < lo || root >= hi {
                return Err("lookups do not follow one search tree".into());
            }
            for i in lo..hi {
                if idx[i].get(d) != Some(&root) {
                    return Err("lookups do not follow one search tree".into());
                }
            }
            let left = build(idx, lo, root, d + 1)?;
            let right = build(idx, root + 1, hi, d + 1)?;
            let hl = left.as_ref().map_or(0, |t| t.height);
            let hr = right.as_ref().map_or(0, |t| t.height);
            let sl = left.as_ref().map_or(0, |t| t.size);
            let sr = right.as_ref().map_or(0, |t| t.size);
            Ok(Some(Box::new(Tree { left, right, idx: root, height: 1 + hl.max(hr), size: sl + sr + 1 })))
        }
        build(&idx, 0, self.paths.len(), 0)
    }
}

impl Tree {
    pub fn walk(&self, f: &mut impl FnMut(&Tree)) {
        f(self);
        if let Some(l) = &self.left {
            l.walk(f)
        }
        if let Some(r) = &self.right {
            r.walk(f)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// Insert a new key in gap g (before the g-th key), random choice r.
    Ins(usize, usize),
    /// Insert a key equal to the i-th one.
    Repl(usize, usize),
    Rem(usize),
    /// Remove a key that is not there, in gap g.
    RemMiss(usize),
    GetMut(usize),
    GetMutMiss(usize),
    IndexMut(usize),
    IterMut,
    Clear,
    /// Take the map apart by value, drop the iterator after j items, go on with a new map.
    Take(usize),
    /// Insert / remove by absolute key.
    InsKey(usize, usize),
    RemKey(usize),
    GetMutKey(usize),
    /// Replace by the default value of the type.
    Fresh,
}

/// What is checked in each reached state, and what distinguishes states.
#[derive(Clone, Copy)]
pub struct MapCfg {
    pub max_n: usize,
    /// The random choices explored (as values the generator returns).
    pub rs: &'static [u32],
    /// Is the reference comparison made?
    pub reference: bool,
    pub ownership: bool,
    /// Include rank operations on partial consumption.
    pub take: bool,
    pub shape: Option<fn(&Shape, &[E]) -> R<()>>,
    /// Cost check of the last operation: shapes before and after, and distinct keys compared.
    pub access: Option<fn(&Shape, &[E], &Shape, &[E], Op, u64) -> R<()>>,
    /// Cost check of the whole sequence: keys compared, operations, largest size.
    pub total: Option<fn(u64, usize, usize) -> R<()>>,
    /// Do lookups show the structure (search trees), so that states can be told apart by it?
    pub shaped: bool,
    pub keys: usize,
    /// Include operations that change no key (get_mut, iter_mut, ...).
    pub value_ops: bool,
    pub miss_ops: bool,
    /// Check that rejected calls panic and change nothing.
    pub misuse: bool,
    /// Existing keys are only inserted again with the random choice they have already.
    pub repl_same: bool,
}

pub const CFG: MapCfg = MapCfg {
    max_n: 5,
    rs: &[0],
    reference: true,
    ownership: false,
    take: false,
    shape: None,
    access: None,
    total: None,
    shaped: true,
    keys: 0,
    value_ops: true,
    miss_ops: true,
    misuse: false,
    repl_same: false,
};

pub struct MapScn<M> {
    pub cfg: MapCfg,
    pub label: String,
    pub ops: Vec<Op>,
    _m: std::marker::PhantomData<fn() -> M>,
}

impl<M: MapLike> MapScn<M> {
    pub fn new(label: &str, cfg: MapCfg) -> Self {
        let n = cfg.max_n;
        let mut ops = vec![];
        let nr = cfg.rs.len();
        for k in 0..cfg.keys {
            for r in 0..nr {
                ops.push(Op::InsKey(k, r));
            }
        }
        for k in 0..cfg.keys {
            ops.push(Op::RemKey(k));
        }
        for k in 0..cfg.keys {
            ops.push(Op::GetMutKey(k));
        }
        for g in 0..n.max(1) {
            for r in 0..nr {
                ops.push(Op::Ins(g, r));
            }
        }
        for i in 0..n {
            for r in 0..nr {
                ops.push(Op::Repl(i, r));
            }
        }
        for i in 0..n {
            ops.push(Op::Rem(i));
        }
        for g in 0..=n {
            ops.push(Op::RemMiss(g));
        }
        for i in 0..n {
            ops.push(Op::GetMut(i));
            ops.push(Op::IndexMut(i));
        }
        for g in 0..=n {
            ops.push(Op::GetMutMiss(g));
        }
        ops.push(Op::IterMut);
        ops.push(Op::Clear);
        ops.push(Op::Fresh);
        for j in 0..=n {
            ops.push(Op::Take(j));
        }
        MapScn { cfg, label: label.to_string(), ops, _m: std::marker::PhantomData }
    }
    pub fn code(&self, op: Op) -> u16 {
        self.ops.iter().position(|o| *o == op).expect("op") as u16
    }
}

impl<M: MapLike> Scenario for MapScn<M> {
    fn name(&self) -> String {
        format!("{}/{}", M::NAME, self.label)
    }
    fn op_name(&self, op: u16) -> String {
        match self.ops[op as usize] {
            Op::Ins(g, r) if self.cfg.rs.len() > 1 => format!("insert new key #{} (random {:#x})", g, self.cfg.rs[r]),
            Op::Ins(g, _) => format!("insert new key #{}", g),
            Op::Repl(i, r) if self.cfg.rs.len() > 1 => format!("insert existing key #{} (random {:#x})", i, self.cfg.rs[r]),
            Op::Repl(i, _) => format!("insert existing key #{}", i),
            Op::Rem(i) => format!("remove key #{}", i),
            Op::RemMiss(g) => format!("remove absent key before #{}", g),
            Op::GetMut(i) => format!("get_mut key #{}", i),
            Op::GetMutMiss(g) => format!("get_mut absent key before #{}", g),
            Op::IndexMut(i) => format!("index_mut key #{}", i),
            Op::IterMut => "iter_mut".into(),
            Op::Clear => "clear".into(),
            Op::Take(j) => format!("into_iter, {} items, drop", j),
            Op::InsKey(k, r) => format!("insert {} (random {:#x})", k, self.cfg.rs[r]),
            Op::RemKey(k) => format!("remove {}", k),
            Op::GetMutKey(k) => format!("get_mut {}", k),
            Op::Fresh => "replace by default()".into(),
        }
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(MapInst::<M> { scn: self, real: Some(M::new()), model: vec![], ctr: 0, cmps: 0, nops: 0, largest: 0 })
    }
    fn ownership(&self) -> bool {
        self.cfg.ownership
    }
}

pub struct MapInst<'a, M: MapLike> {
    pub scn: &'a MapScn<M>,
    pub real: Option<M>,
    pub model: Vec<E>,
    pub ctr: u64,
    pub cmps: u64,
    pub nops: usize,
    pub largest: usize,
}

pub fn rank_shape_hash<M: MapLike>(m: &M, model: &[E], shaped: bool, h: &mut H) {
    h.u(model.len() as u64);
    for e in model {
        h.u(e.r);
    }
    if shaped {
        observe_shape(m, model).hash(model, h);
    }
}

fn skip<T>() -> R<T> {
    Err("skip: not enabled here".into())
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

impl<'a, M: MapLike> MapInst<'a, M> {
    fn gap_key(&self, g: usize) -> R<u128> {
        if g > self.model.len() {
            return skip();
        }
        let lo = if g == 0 { 0 } else { self.model[g - 1].k };
        let hi = if g == self.model.len() { u128::MAX } else { self.model[g].k };
        if hi - lo < 2 {
            return Err("skip: out of key space".into());
        }
        Ok(lo + (hi - lo) / 2)
    }
    fn insert(&mut self, key: u128, r: usize) -> R<()> {
        let rv = self.scn.cfg.rs[r];
        rand::ctrl::set_fixed(Some(rv));
        let k = K::new(key);
        self.ctr += 1;
        let v = V::new(self.ctr);
        let id = k.tok.id;
        let val = self.ctr;
        let got = self.real.as_mut().unwrap().insert(k, v);
        let pos = self.model.iter().position(|e| e.k >= key).unwrap_or(self.model.len());
        let want = if pos < self.model.len() && self.model[pos].k == key {
            let old = self.model[pos];
            self.model[pos].id = id;
            self.model[pos].v = val;
            // the random choice of a replaced entry may or may not be kept
            self.model[pos].r |= 1 << r;
            Some(old)
        } else {
            self.model.insert(pos, E { k: key, id, v: val, r: 1 << r });
            None
        };
        if self.scn.cfg.reference {
            same_entry::<M>("insert", got.as_ref(), want)?;
        }
        Ok(())
    }
    fn remove(&mut self, key: u128) -> R<()> {
        let got = self.real.as_mut().unwrap().remove(key);
        let want = match self.model.iter().position(|e| e.k == key) {
            Some(p) => Some(self.model.remove(p)),
            None => None,
        };
        if self.scn.cfg.reference {
            same_entry::<M>("remove", got.as_ref(), want)?;
        }
        Ok(())
    }
}

pub fn same_entry<M: MapLike>(what: &str, got: Option<&(K, Option<V>)>, want: Option<E>) -> R<()> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some((k, v)), Some(e)) => {
            ensure!(k.tok.ok() && k.v == e.k, "{} returned another key", what);
            ensure!(k.tok.id == e.id, "{} returned an equal key that is not the stored one", what);
            if M::HAS_VALUES {
                match v {
                    Some(v) if v.tok.ok() && v.v == e.v => {}
                    _ => return Err(format!("{} returned another value", what)),
                }
            }
            Ok(())
        }
        (Some(_), None) => Err(format!("{} returned an entry for an absent key", what)),
        (None, Some(_)) => Err(format!("{} returned nothing for a present key", what)),
    }
}

/// Every read-only answer of the map, against the model.
pub fn observe_reference<M: MapLike>(m: &mut M, model: &[E], extra: &[u128]) -> R<()> {
    ensure!(m.len() == model.len(), "len() is {} instead of {}", m.len(), model.len());
    ensure!(m.is_empty() == model.is_empty(), "is_empty() is wrong");
    same_key("min()", m.min(), model.first())?;
    same_key("max()", m.max(), model.last())?;
    let mut probes: Vec<u128> = vec![];
    for (i, e) in model.iter().enumerate() {
        let lo = if i == 0 { 0 } else { model[i - 1].k };
        probes.push(lo + (e.k - lo) / 2);
        probes.push(e.k);
    }
    let lo = model.last().map_or(0, |e| e.k);
    probes.push(lo + (u128::MAX - lo) / 2);
    probes.extend_from_slice(extra);
    for p in probes {
        let at = model.iter().position(|e| e.k == p);
        ensure!(m.contains(p) == at.is_some(), "contains is wrong for a key that is {}", if at.is_some() { "present" } else { "absent" });
        let fl = model.iter().rev().find(|e| e.k <= p);
        same_key("floor()", m.floor(p), fl)?;
        let ce = model.iter().find(|e| e.k >= p);
        same_key("ceil()", m.ceil(p), ce)?;
        if M::HAS_VALUES {
            match (m.get(p), at) {
                (None, None) => {}
                (Some(v), Some(i)) => ensure!(v.tok.ok() && v.v == model[i].v, "get() returned another value"),
                (Some(_), None) => return Err("get() found an absent key".into()),
                (None, Some(_)) => return Err("get() did not find a present key".into()),
            }
            if at.is_some() {
                let i = at.unwrap();
                let v = m.index(p);
                ensure!(v.tok.ok() && v.v == model[i].v, "indexing returned another value");
            }
        }
    }
    same_seq::<M>("iter()", m.iter(), model)?;
    same_seq::<M>("(&map).into_iter()", m.ref_into_iter(), model)?;
    if M::HAS_VALUES {
        same_seq::<M>("iter_mut()", m.iter_mut().map(|(k, v)| (k, Some(&*v))), model)?;
        same_seq::<M>("(&mut map).into_iter()", m.mut_into_iter().map(|(k, v)| (k, Some(&*v))), model)?;
        for e in model {
            match m.get_mut(e.k) {
                Some(v) => ensure!(v.tok.ok() && v.v == e.v, "get_mut() returned another value"),
                None => return Err("get_mut() did not find a present key".into()),
            }
        }
    }
    Ok(())
}

fn same_key(what: &str, got: Option<&K>, want: Option<&E>) -> R<()> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(k), Some(e)) => {
            ensure!(k.tok.ok() && k.v == e.k, "{} returned another key", what);
            ensure!(k.tok.id == e.id, "{} returned an equal key that is not the stored one", what);
            Ok(())
        }
        (Some(_), None) => Err(format!("{} found a key where there is none", what)),
        (None, Some(_)) => Err(format!("{} found no key where there is one", what)),
    }
}

fn same_seq<'x, M: MapLike>(what: &str, mut it: impl Iterator<Item = (&'x K, Option<&'x V>)>, model: &[E]) -> R<()> {
    for (i, e) in model.iter().enumerate() {
        match it.next() {
            None => return Err(format!("{} ended after {} of {} items", what, i, model.len())),
            Some((k, v)) => {
                ensure!(k.tok.ok() && k.v == e.k && k.tok.id == e.id, "{}: item {} has another key", what, i);
                if M::HAS_VALUES {
                    ensure!(v.map_or(false, |v| v.tok.ok() && v.v == e.v), "{}: item {} has another value", what, i);
                }
            }
        }
    }
    ensure!(it.next().is_none(), "{} yields more than the {} items of the map", what, model.len());
    Ok(())
}

/// Consumes `j` items by value and drops the rest with the iterator.
pub fn take_apart<M: MapLike>(m: M, model: &[E], j: usize) -> R<()> {
    let mut it = m.into_iter();
    for (i, e) in model.iter().take(j).enumerate() {
        match it.next() {
            None => return Err(format!("into_iter() ended after {} of {} items", i, model.len())),
            Some((k, v)) => {
                ensure!(k.tok.ok() && k.v == e.k && k.tok.id == e.id, "into_iter(): item {} has another key", i);
                if M::HAS_VALUES {
                    ensure!(v.map_or(false, |v| v.tok.ok() && v.v == e.v), "into_iter(): item {} has another value", i);
                }
            }
        }
    }
    if j >= model.len() {
        ensure!(it.next().is_none(), "into_iter() yields more than the {} items of the map", model.len());
    }
    Ok(())
}

impl<'a, M: MapLike> Inst for MapInst<'a, M> {
    fn enabled(&self) -> Vec<u16> {
        let n = self.model.len();
        let c = &self.scn.cfg;
        let mut out = vec![];
        for (i, op) in self.scn.ops.iter().enumerate() {
            let on = match op {
                Op::Ins(g, _) => *g <= n && n < c.max_n,
                Op::Repl(k, r) => *k < n && (!c.repl_same || self.model[*k].r >> r & 1 == 1),
                Op::Rem(k) => *k < n,
                Op::RemMiss(g) => *g <= n && c.miss_ops,
                Op::GetMutMiss(g) => *g <= n && c.miss_ops && M::HAS_VALUES,
                Op::GetMut(k) => *k < n && c.value_ops && M::HAS_VALUES,
                Op::IndexMut(k) => *k < n && c.value_ops && M::HAS_VALUES,
                Op::IterMut => n > 0 && c.value_ops && M::HAS_VALUES,
                Op::Clear => n > 0,
                Op::Fresh => false,
                Op::Take(j) => c.take && *j <= n,
                Op::InsKey(..) | Op::RemKey(_) | Op::GetMutKey(_) => false,
            };
            if on {
                out.push(i as u16);
            }
        }
        out
    }

    fn step(&mut self, op: u16, last: bool) -> R<()> {
        let n = self.model.len();
        let opx = *self.scn.ops.get(op as usize).ok_or("skip: no such op")?;
        let before = if last && self.scn.cfg.access.is_some() {
            Some((observe_shape(self.real.as_ref().unwrap(), &self.model), self.model.clone()))
        } else {
            None
        };
        let counting = self.scn.cfg.total.is_some() || before.is_some();
        if counting {
            log_start();
        }
        match opx {
            Op::Ins(g, r) => {
                let k = self.gap_key(g)?;
                self.insert(k, r)?;
            }
            Op::Repl(i, r) => {
                if i >= n {
                    return skip();
                }
                let k = self.model[i].k;
                self.insert(k, r)?;
            }
            Op::Rem(i) => {
                if i >= n {
                    return skip();
                }
                let k = self.model[i].k;
                self.remove(k)?;
            }
            Op::RemMiss(g) => {
                let k = self.gap_key(g)?;
                self.remove(k)?;
            }
            Op::InsKey(k, r) => self.insert((k as u128 + 1) << 64, r)?,
            Op::RemKey(k) => self.remove((k as u128 + 1) << 64)?,
            Op::GetMutKey(k) => {
                let key = (k as u128 + 1) << 64;
                self.ctr += 1;
                let nv = self.ctr;
                let at = self.model.iter().position(|e| e.k == key);
                if M::HAS_VALUES {
                    match (self.real.as_mut().unwrap().get_mut(key), at) {
                        (None, None) => {}
                        (Some(v), Some(i)) => {
                            ensure!(v.v == self.model[i].v, "get_mut() returned another value");
                            *v = V::new(nv);
                            self.model[i].v = nv;
                        }
                        _ => return Err("get_mut() is wrong about whether the key is present".into()),
                    }
                }
            }
            Op::GetMut(i) | Op::IndexMut(i) => {
                if i >= n {
                    return skip();
                }
                self.ctr += 1;
                let nv = self.ctr;
                let e = self.model[i];
                let m = self.real.as_mut().unwrap();
                let v = if let Op::GetMut(_) = opx {
                    match m.get_mut(e.k) {
                        Some(v) => v,
                        None => return Err("get_mut() did not find a present key".into()),
                    }
                } else {
                    m.index_mut(e.k)
                };
                if self.scn.cfg.reference {
                    ensure!(v.tok.ok() && v.v == e.v, "mutable access returned another value");
                }
                *v = V::new(nv);
                self.model[i].v = nv;
            }
            Op::GetMutMiss(g) => {
                let k = self.gap_key(g)?;
                ensure!(self.real.as_mut().unwrap().get_mut(k).is_none(), "get_mut() found an absent key");
            }
            Op::IterMut => {
                self.ctr += 1000;
                let base = self.ctr;
                let mut i = 0;
                for (_, v) in self.real.as_mut().unwrap().iter_mut() {
                    i += 1;
                    *v = V::new(base + i);
                }
                ensure!(i as usize == n, "iter_mut() yields {} items instead of {}", i, n);
                for (j, e) in self.model.iter_mut().enumerate() {
                    e.v = base + 1 + j as u64;
                }
                self.ctr += n as u64;
            }
            Op::Clear => {
                self.real.as_mut().unwrap().clear();
                self.model.clear();
            }
            Op::Fresh => {
                self.real = Some(M::default());
                self.model.clear();
            }
            Op::Take(j) => {
                let m = self.real.take().unwrap();
                let r = take_apart(m, &self.model, j);
                self.real = Some(M::new());
                self.model.clear();
                r?;
            }
        }
        let spent = if counting { log_distinct() } else { 0 };
        self.cmps += spent;
        self.nops += 1;
        self.largest = self.largest.max(self.model.len());
        if let (Some((s0, m0)), Some(f)) = (before, self.scn.cfg.access) {
            let s1 = observe_shape(self.real.as_ref().unwrap(), &self.model);
            f(&s0, &m0, &s1, &self.model, opx, spent)?;
        }
        Ok(())
    }

    fn finish(mut self: Box<Self>) -> R<u128> {
        let cfg = &self.scn.cfg;
        let mut h = H::new();
        let mut m = self.real.take().unwrap();
        rank_shape_hash(&m, &self.model, cfg.shaped, &mut h);
        if let Some(f) = cfg.total {
            f(self.cmps, self.nops, self.largest)?;
        }
        if let Some(f) = cfg.shape {
            f(&observe_shape(&m, &self.model), &self.model)?;
        }
        if cfg.reference {
            observe_reference(&mut m, &self.model, &[])?;
        }
        if cfg.misuse && M::HAS_VALUES {
            for p in [1u128, u128::MAX - 1] {
                if self.model.iter().all(|e| e.k != p) {
                    ensure!(may_panic(|| m.index(p).v).is_err(), "indexing by an absent key did not panic");
                    ensure!(may_panic(|| m.index_mut(p).v).is_err(), "mutable indexing by an absent key did not panic");
                }
            }
            observe_reference(&mut m, &self.model, &[])?;
        }
        if cfg.reference || cfg.ownership {
            // by-value iteration, complete or dropped after as many items as the state hash says
            let n = self.model.len();
            let j = if cfg.reference { n } else { (h.fin() as usize) % (n + 1) };
            take_apart(m, &self.model, j)?;
        }
        Ok(h.fin())
    }
}
