//! Two maps (or sets) over a small universe of keys: set algebra and splitting.
use crate::engine::{Inst, Scenario, R};
use crate::maps::*;
use crate::tok::{K, V};
use crate::util::H;

pub trait Algebra: MapLike {
    const SPLIT: bool;
    fn union(l: Self, r: Self) -> Self;
    fn intersection(l: Self, r: Self) -> Self;
    fn difference(l: Self, r: Self) -> Self;
    fn symmetric_difference(l: Self, r: Self) -> Self;
    fn add(l: Self, r: Self) -> Self;
    fn sub(l: Self, r: Self) -> Self;
    fn split_off(&mut self, k: u128, inclusive: bool) -> Self;
}

#[macro_export]
macro_rules! impl_algebra {
    ($t:ty, $split:expr, $s:ident, $k:ident, $incl:ident, $body:expr) => {
        impl Algebra for $t {
            const SPLIT: bool = $split;
            fn union(l: Self, r: Self) -> Self {
                <$t>::union(l, r)
            }
            fn intersection(l: Self, r: Self) -> Self {
                <$t>::intersection(l, r)
            }
            fn difference(l: Self, r: Self) -> Self {
                <$t>::difference(l, r)
            }
            fn symmetric_difference(l: Self, r: Self) -> Self {
                <$t>::symmetric_difference(l, r)
            }
            fn add(l: Self, r: Self) -> Self {
                l + r
            }
            fn sub(l: Self, r: Self) -> Self {
                l - r
            }
            fn split_off(&mut self, $k: u128, $incl: bool) -> Self {
                let $s = self;
                $body
            }
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PairOp {
    /// Insert key k with random choice r into map 0 / 1.
    Ins(usize, usize, usize),
    Rem(usize, usize),
    Union,
    Inter,
    Diff,
    Sym,
    Add,
    Sub,
    /// Split the first map at half-position p (odd: at a key of the universe), the other part
    /// replaces the second map.
    Split(usize, bool),
    Swap,
    /// Clear map 0.
    Clear,
}

#[derive(Clone, Copy)]
pub struct PairCfg {
    pub universe: usize,
    pub rs: &'static [u32],
    pub shape: Option<fn(&Shape, &[E]) -> R<()>>,
    pub ownership: bool,
    /// Only insertions of absent keys and the operations on two maps.
    pub lean: bool,
}

pub struct PairScn<M> {
    pub cfg: PairCfg,
    pub label: String,
    pub ops: Vec<PairOp>,
    _m: std::marker::PhantomData<fn() -> M>,
}

impl<M: Algebra> PairScn<M> {
    pub fn new(label: &str, cfg: PairCfg) -> Self {
        let mut ops = vec![];
        for m in 0..2 {
            for k in 0..cfg.universe {
                for r in 0..cfg.rs.len() {
                    ops.push(PairOp::Ins(m, k, r));
                }
            }
        }
        for m in 0..2 {
            for k in 0..cfg.universe {
                ops.push(PairOp::Rem(m, k));
            }
        }
        ops.extend([PairOp::Union, PairOp::Inter, PairOp::Diff, PairOp::Sym, PairOp::Add, PairOp::Sub]);
        if M::SPLIT {
            for p in 0..2 * cfg.universe + 1 {
                ops.push(PairOp::Split(p, true));
                ops.push(PairOp::Split(p, false));
            }
        }
        ops.push(PairOp::Swap);
        ops.push(PairOp::Clear);
        PairScn { cfg, label: label.into(), ops, _m: std::marker::PhantomData }
    }
    pub fn code(&self, op: PairOp) -> u16 {
        self.ops.iter().position(|o| *o == op).expect("op") as u16
    }
    /// Both maps built in ascending order, for every pair of subsets of the universe and every
    /// assignment of random choices (rotating): then one operation on the two.
    pub fn subsets(&self, rot: usize) -> Vec<Vec<u16>> {
        let n = self.cfg.universe;
        let mut out = vec![];
        for a in 0..1usize << n {
            for b in 0..1usize << n {
                let mut t = vec![];
                for (m, s) in [(0, a), (1, b)] {
                    for k in 0..n {
                        if s >> k & 1 == 1 {
                            let r = (k * rot + m * (rot / 2 + 1) + k / 3) % self.cfg.rs.len();
                            t.push(self.code(PairOp::Ins(m, k, r)));
                        }
                    }
                }
                for op in &self.ops {
                    if !matches!(op, PairOp::Ins(..) | PairOp::Rem(..) | PairOp::Swap | PairOp::Clear) {
                        if matches!(op, PairOp::Split(..)) && b != 0 {
                            continue;
                        }
                        let mut u = t.clone();
                        u.push(self.code(*op));
                        out.push(u);
                    }
                }
            }
        }
        out
    }
}

fn key(k: usize) -> u128 {
    (k as u128 + 1) << 64
}

pub struct PairInst<'a, M: Algebra> {
    scn: &'a PairScn<M>,
    real: [Option<M>; 2],
    model: [Vec<E>; 2],
    ctr: u64,
}

impl<M: Algebra> Scenario for PairScn<M> {
    fn name(&self) -> String {
        format!("{}/{}", M::NAME, self.label)
    }
    fn op_name(&self, op: u16) -> String {
        let ab = |m: usize| if m == 0 { "A" } else { "B" };
        match self.ops[op as usize] {
            PairOp::Ins(m, k, r) => format!("{}.insert({}) (random {:#x})", ab(m), k, self.cfg.rs[r]),
            PairOp::Rem(m, k) => format!("{}.remove({})", ab(m), k),
            PairOp::Union => "A = union(A, B), B = {}".into(),
            PairOp::Inter => "A = intersection(A, B), B = {}".into(),
            PairOp::Diff => "A = difference(A, B), B = {}".into(),
            PairOp::Sym => "A = symmetric_difference(A, B), B = {}".into(),
            PairOp::Add => "A = A + B, B = {}".into(),
            PairOp::Sub => "A = A - B, B = {}".into(),
            PairOp::Split(p, i) => format!("B = A.split_off({}, inclusive: {})", p as f64 / 2.0 - 0.5, i),
            PairOp::Swap => "swap A and B".into(),
            PairOp::Clear => "A.clear()".into(),
        }
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(PairInst::<M> { scn: self, real: [Some(M::new()), Some(M::new())], model: [vec![], vec![]], ctr: 0 })
    }
    fn ownership(&self) -> bool {
        self.cfg.ownership
    }
}

impl<'a, M: Algebra> Inst for PairInst<'a, M> {
    fn enabled(&self) -> Vec<u16> {
        let mut out = vec![];
        for (i, op) in self.scn.ops.iter().enumerate() {
            let has = |m: usize, k: usize| self.model[m].iter().any(|e| e.k == key(k));
            let on = match op {
                PairOp::Ins(m, k, r) => match self.model[*m].iter().find(|e| e.k == key(*k)) {
                    None => true,
                    // replacing keeps the random choice in this space
                    Some(e) => !self.scn.cfg.lean && e.r >> r & 1 == 1,
                },
                PairOp::Rem(m, k) => has(*m, *k) && !self.scn.cfg.lean,
                PairOp::Swap => *self.model[0] != *self.model[1],
                PairOp::Clear => !self.scn.cfg.lean && !self.model[0].is_empty(),
                _ => true,
            };
            if on {
                out.push(i as u16);
            }
        }
        out
    }

    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let opx = *self.scn.ops.get(op as usize).ok_or("skip: no such op")?;
        match opx {
            PairOp::Ins(m, k, r) => {
                rand::ctrl::set_fixed(Some(self.scn.cfg.rs[r]));
                let kk = K::new(key(k));
                self.ctr += 1;
                let (id, v) = (kk.tok.id, self.ctr);
                let got = self.real[m].as_mut().unwrap().insert(kk, V::new(v));
                let mo = &mut self.model[m];
                let pos = mo.iter().position(|e| e.k >= key(k)).unwrap_or(mo.len());
                let want = if pos < mo.len() && mo[pos].k == key(k) {
                    let old = mo[pos];
                    mo[pos] = E { k: key(k), id, v, r: old.r | 1 << r };
                    Some(old)
                } else {
                    mo.insert(pos, E { k: key(k), id, v, r: 1 << r });
                    None
                };
                same_entry::<M>("insert", got.as_ref(), want)?;
            }
            PairOp::Rem(m, k) => {
                let got = self.real[m].as_mut().unwrap().remove(key(k));
                let mo = &mut self.model[m];
                let want = mo.iter().position(|e| e.k == key(k)).map(|p| mo.remove(p));
                same_entry::<M>("remove", got.as_ref(), want)?;
            }
            PairOp::Swap => {
                self.real.swap(0, 1);
                self.model.swap(0, 1);
            }
            PairOp::Clear => {
                self.real[0].as_mut().unwrap().clear();
                self.model[0].clear();
            }
            PairOp::Split(p, incl) => {
                // p odd: a key of the universe; even: between two keys
                let at = (1u128 << 64) / 2 + (p as u128) * (1u128 << 63);
                let r = self.real[0].as_mut().unwrap().split_off(at, incl);
                self.real[1] = Some(r);
                let (a, b): (Vec<E>, Vec<E>) = self.model[0].iter().partition(|e| if incl { e.k <= at } else { e.k < at });
                self.model = [a, b];
            }
            _ => {
                let l = self.real[0].take().unwrap();
                let r = self.real[1].take().unwrap();
                self.real[1] = Some(M::new());
                self.real[0] = Some(match opx {
                    PairOp::Union => M::union(l, r),
                    PairOp::Inter => M::intersection(l, r),
                    PairOp::Diff => M::difference(l, r),
                    PairOp::Sym => M::symmetric_difference(l, r),
                    PairOp::Add => M::add(l, r),
                    _ => M::sub(l, r),
                });
                let a = std::mem::take(&mut self.model[0]);
                let b = std::mem::take(&mut self.model[1]);
                let ina = |e: &E| a.iter().any(|x| x.k == e.k);
                let inb = |e: &E| b.iter().any(|x| x.k == e.k);
                let mut o: Vec<E> = match opx {
                    PairOp::Union | PairOp::Add => a.iter().chain(b.iter().filter(|e| !ina(e))).cloned().collect(),
                    PairOp::Inter => a.iter().filter(|e| inb(e)).cloned().collect(),
                    PairOp::Diff | PairOp::Sub => a.iter().filter(|e| !inb(e)).cloned().collect(),
                    _ => a.iter().filter(|e| !inb(e)).chain(b.iter().filter(|e| !ina(e))).cloned().collect(),
                };
                o.sort_by_key(|e| e.k);
                // of a key in both, the entry may keep the random choice of either
                for e in o.iter_mut().filter(|_| self.scn.cfg.shape.is_some()) {
                    for x in a.iter().chain(b.iter()).filter(|x| x.k == e.k) {
                        e.r |= x.r;
                    }
                }
                self.model[0] = o;
            }
        }
        Ok(())
    }

    fn finish(mut self: Box<Self>) -> R<u128> {
        let mut h = H::new();
        for i in 0..2 {
            let mut m = self.real[i].take().unwrap();
            let mo = &self.model[i];
            for e in mo {
                h.u((e.k >> 64) as u64);
                h.u(e.r);
            }
            h.u(!0);
            observe_shape(&m, mo).hash(mo, &mut h);
            let probes: Vec<u128> = (0..self.scn.cfg.universe).map(key).collect();
            observe_reference(&mut m, mo, &probes).map_err(|e| format!("map {}: {}", if i == 0 { "A" } else { "B" }, e))?;
            if let Some(f) = self.scn.cfg.shape {
                f(&observe_shape(&m, mo), mo)?;
            }
            let j = if self.scn.cfg.ownership { (h.fin() as usize) % (mo.len() + 1) } else { mo.len() };
            take_apart(m, mo, j)?;
        }
        Ok(h.fin())
    }
}
