//! User code that misbehaves: comparisons and destructors that panic, comparisons that answer
//! something inconsistent. Whatever happens, memory stays in order.
use crate::algebra::Algebra;
use crate::alloc::{fault_now, reaping, untracked};
use crate::engine::{may_panic, Inst, Scenario, R};
use crate::lists::ListLike;
use crate::maps::MapLike;
use crate::tok::{ledger_fault, ledger_reset, tricks_off, tricks_on, Trick, K, V};
use crate::util::H;
use std::any::Any;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum POp {
    /// Which collection, key or position, random choice.
    Ins(usize, usize, usize),
    Rem(usize, usize),
    Union,
    Inter,
    Diff,
    Sym,
    Concat,
    Swap,
    Clear,
    /// Iterate by value over the first, and stop after so many.
    Take(usize),
    Drop,
}

/// The contents: key (or nothing of interest, in a list) and random choice.
pub type Cont = Vec<(usize, usize)>;

/// Two collections of one kind.
pub trait PSys: Sized {
    fn name() -> &'static str;
    fn new() -> Self;
    fn ops(c: &PCfg) -> Vec<POp>;
    /// Effect on the contents; `None` if the operation is not offered.
    fn model(c: &PCfg, m: &mut [Cont; 2], op: POp) -> Option<()>;
    /// Runs an operation with a trick; says how many events and comparisons there were.
    fn run(&mut self, c: &PCfg, op: POp, t: Option<Trick>) -> (u64, u64);
    /// Looks at everything.
    fn poke(&mut self, c: &PCfg);
}

#[derive(Clone, Copy)]
pub struct PCfg {
    /// Keys, or the greatest length of a list; for both collections.
    pub n: [usize; 2],
    pub rs: &'static [u32],
    pub lies: bool,
    /// Wrong answers, or panics, in the operation after the last one, too.
    pub twice: bool,
}

fn trick<T: 'static>(t: Option<Trick>, f: impl FnOnce() -> T) -> (u64, u64) {
    tricks_on(t);
    let r = may_panic(f);
    let e = tricks_off();
    let _ = may_panic(move || drop(r));
    e
}

pub struct Maps<M>([M; 2]);
impl<M: Algebra + 'static> PSys for Maps<M> {
    fn name() -> &'static str {
        M::NAME
    }
    fn new() -> Self {
        Maps([M::new(), M::new()])
    }
    fn ops(c: &PCfg) -> Vec<POp> {
        let mut v = vec![];
        for m in 0..2 {
            for k in 0..c.n[m] {
                for r in 0..c.rs.len() {
                    v.push(POp::Ins(m, k, r));
                }
                v.push(POp::Rem(m, k));
            }
        }
        if c.n[1] > 0 {
            v.extend([POp::Union, POp::Inter, POp::Diff, POp::Sym, POp::Swap]);
        }
        v.extend([POp::Clear, POp::Drop]);
        v.extend((0..c.n[0]).map(POp::Take));
        v
    }
    fn model(_: &PCfg, m: &mut [Cont; 2], op: POp) -> Option<()> {
        let [a, b] = m;
        match op {
            POp::Ins(w, k, r) => {
                let x = if w == 0 { a } else { b };
                x.retain(|e| e.0 != k);
                x.push((k, r));
                x.sort();
            }
            POp::Rem(w, k) => {
                if w == 0 { a } else { b }.retain(|e| e.0 != k)
            }
            POp::Union | POp::Sym | POp::Inter | POp::Diff => {
                let r: Cont = a
                    .iter()
                    .filter(|e| op == POp::Union || b.iter().any(|f| f.0 == e.0) == (op == POp::Inter))
                    .chain(b.iter().filter(|e| (op == POp::Union || op == POp::Sym) && a.iter().all(|f| f.0 != e.0)))
                    .cloned()
                    .collect();
                *a = r;
                a.sort();
                b.clear();
            }
            POp::Swap => std::mem::swap(a, b),
            POp::Clear | POp::Drop => a.clear(),
            POp::Take(j) => {
                if j > a.len() {
                    return None;
                }
                a.clear()
            }
            POp::Concat => return None,
        }
        Some(())
    }
    fn run(&mut self, c: &PCfg, op: POp, t: Option<Trick>) -> (u64, u64) {
        let [a, b] = &mut self.0;
        let key = |k: usize| (k as u128 + 1) * 100;
        match op {
            POp::Ins(w, k, r) => {
                rand::ctrl::set_fixed(Some(c.rs[r]));
                let (k, v) = (K::new(key(k)), V::new(1));
                let x = if w == 0 { a } else { b };
                trick(t, || x.insert(k, v))
            }
            POp::Rem(w, k) => {
                let x = if w == 0 { a } else { b };
                trick(t, || x.remove(key(k)))
            }
            POp::Union | POp::Sym | POp::Inter | POp::Diff => {
                let (x, y) = (std::mem::replace(a, M::new()), std::mem::replace(b, M::new()));
                let a = &mut *a;
                trick(t, move || {
                    *a = match op {
                        POp::Union => M::union(x, y),
                        POp::Sym => M::symmetric_difference(x, y),
                        POp::Inter => M::intersection(x, y),
                        _ => M::difference(x, y),
                    }
                })
            }
            POp::Swap => {
                std::mem::swap(a, b);
                (0, 0)
            }
            POp::Clear => trick(t, || a.clear()),
            POp::Drop => {
                let x = std::mem::replace(a, M::new());
                trick(t, move || drop(x))
            }
            POp::Take(j) => {
                let x = std::mem::replace(a, M::new());
                trick(t, move || {
                    let mut out: Vec<(K, Option<V>)> = Vec::with_capacity(j);
                    let mut it = x.into_iter();
                    for _ in 0..j {
                        out.extend(it.next());
                    }
                    drop(it);
                    out
                })
            }
            POp::Concat => (0, 0),
        }
    }
    fn poke(&mut self, c: &PCfg) {
        for m in &mut self.0 {
            let _ = may_panic(|| {
                m.len();
                m.is_empty();
            });
            let _ = may_panic(|| m.min().map(|k| k.tok.check("use")));
            let _ = may_panic(|| m.max().map(|k| k.tok.check("use")));
            for x in 0..=2 * c.n[0].max(c.n[1]) {
                let x = x as u128 * 50 + 50;
                let _ = may_panic(|| m.contains(x));
                let _ = may_panic(|| m.get(x).map(|v| v.tok.check("use")));
                let _ = may_panic(|| m.get_mut(x).map(|v| v.tok.check("use")));
                let _ = may_panic(|| m.floor(x).map(|k| k.tok.check("use")));
                let _ = may_panic(|| m.ceil(x).map(|k| k.tok.check("use")));
            }
            let _ = may_panic(|| {
                for (k, v) in m.iter().take(64) {
                    k.tok.check("use");
                    v.map(|v| v.tok.check("use"));
                }
            });
            let _ = may_panic(|| {
                for (k, v) in m.iter_mut().take(64) {
                    k.tok.check("use");
                    v.tok.check("use");
                }
            });
        }
    }
}

pub struct Lists<L>([L; 2]);
impl<L: ListLike + 'static> PSys for Lists<L> {
    fn name() -> &'static str {
        L::NAME
    }
    fn new() -> Self {
        Lists([L::new(), L::new()])
    }
    fn ops(c: &PCfg) -> Vec<POp> {
        let mut v = vec![];
        for m in 0..2 {
            for k in 0..c.n[m] {
                for r in 0..c.rs.len() {
                    v.push(POp::Ins(m, k, r));
                }
                v.push(POp::Rem(m, k));
            }
        }
        v.extend([POp::Concat, POp::Swap, POp::Clear, POp::Drop]);
        v.extend((0..c.n[0]).map(POp::Take));
        v
    }
    fn model(c: &PCfg, m: &mut [Cont; 2], op: POp) -> Option<()> {
        let [a, b] = m;
        match op {
            POp::Ins(w, i, r) => {
                let x = if w == 0 { a } else { b };
                if i > x.len() || x.len() >= c.n[w] {
                    return None;
                }
                x.insert(i, (0, r));
            }
            POp::Rem(w, i) => {
                let x = if w == 0 { a } else { b };
                if i >= x.len() {
                    return None;
                }
                x.remove(i);
            }
            POp::Concat => {
                if a.len() + b.len() > c.n[0] {
                    return None;
                }
                a.append(b)
            }
            POp::Swap => {
                if a.len() > c.n[1] {
                    return None;
                }
                std::mem::swap(a, b)
            }
            POp::Clear | POp::Drop => a.clear(),
            POp::Take(j) => {
                if j > a.len() {
                    return None;
                }
                a.clear()
            }
            _ => return None,
        }
        Some(())
    }
    fn run(&mut self, c: &PCfg, op: POp, t: Option<Trick>) -> (u64, u64) {
        let [a, b] = &mut self.0;
        match op {
            POp::Ins(w, i, r) => {
                rand::ctrl::set_fixed(Some(c.rs[r]));
                let v = V::new(1);
                let x = if w == 0 { a } else { b };
                trick(t, || x.insert(i, v))
            }
            POp::Rem(w, i) => {
                let x = if w == 0 { a } else { b };
                trick(t, || x.remove(i))
            }
            POp::Concat => {
                let (x, y) = (std::mem::replace(a, L::new()), std::mem::replace(b, L::new()));
                let a = &mut *a;
                trick(t, move || *a = L::concat(x, y))
            }
            POp::Swap => {
                std::mem::swap(a, b);
                (0, 0)
            }
            POp::Clear => trick(t, || a.clear()),
            POp::Drop => {
                let x = std::mem::replace(a, L::new());
                trick(t, move || drop(x))
            }
            POp::Take(j) => {
                let x = std::mem::replace(a, L::new());
                trick(t, move || {
                    let mut out: Vec<V> = Vec::with_capacity(j);
                    let mut it = x.into_iter();
                    for _ in 0..j {
                        out.extend(it.next());
                    }
                    drop(it);
                    out
                })
            }
            _ => (0, 0),
        }
    }
    fn poke(&mut self, c: &PCfg) {
        for m in &mut self.0 {
            let _ = may_panic(|| {
                m.len();
                m.is_empty();
            });
            for i in 0..=c.n[0].max(c.n[1]) {
                let _ = may_panic(|| m.get(i).map(|v| v.tok.check("use")));
                let _ = may_panic(|| m.get_mut(i).map(|v| v.tok.check("use")));
            }
            let _ = may_panic(|| {
                for v in m.iter().take(64) {
                    v.tok.check("use");
                }
            });
            let _ = may_panic(|| {
                for v in m.iter_mut().take(64) {
                    v.tok.check("use");
                }
            });
        }
    }
}

pub struct PScn<S> {
    label: &'static str,
    cfg: PCfg,
    ops: Vec<POp>,
    p: std::marker::PhantomData<fn() -> S>,
}
impl<S: PSys> PScn<S> {
    pub fn new(label: &'static str, cfg: PCfg) -> Self {
        PScn { label, cfg, ops: S::ops(&cfg), p: std::marker::PhantomData }
    }
}
impl<S: PSys> Scenario for PScn<S> {
    fn name(&self) -> String {
        format!("{}/{}", S::name(), self.label)
    }
    fn op_name(&self, op: u16) -> String {
        let of = |w| if w == 0 { "the first" } else { "the second" };
        let r = |r: usize| if self.cfg.rs.len() > 1 { format!(" (random {:#x})", self.cfg.rs[r]) } else { String::new() };
        match self.ops[op as usize] {
            POp::Ins(w, k, x) => format!("insert {} into {}{}", k, of(w), r(x)),
            POp::Rem(w, k) => format!("remove {} from {}", k, of(w)),
            POp::Union => "union".into(),
            POp::Inter => "intersection".into(),
            POp::Diff => "difference".into(),
            POp::Sym => "symmetric difference".into(),
            POp::Concat => "concatenate".into(),
            POp::Swap => "swap".into(),
            POp::Clear => "clear the first".into(),
            POp::Take(j) => format!("iterate over the first by value, {} items, drop", j),
            POp::Drop => "drop the first".into(),
        }
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(PInst { scn: self, ops: vec![], m: [vec![], vec![]] })
    }
    fn ownership(&self) -> bool {
        true
    }
    fn may_leak(&self) -> bool {
        true
    }
}

struct PInst<'a, S> {
    scn: &'a PScn<S>,
    ops: Vec<u16>,
    m: [Cont; 2],
}
impl<'a, S: PSys> PInst<'a, S> {
    fn offered(&self) -> Vec<u16> {
        (0..self.scn.ops.len() as u16).filter(|o| S::model(&self.scn.cfg, &mut self.m.clone(), self.scn.ops[*o as usize]).is_some()).collect()
    }
    /// The operations with a trick in the last, then perhaps one more operation with a trick.
    fn one(&self, t: Option<Trick>, after: Option<u16>, u: Option<Trick>) -> R<((u64, u64), (u64, u64))> {
        ledger_reset();
        let c = &self.scn.cfg;
        let r = reaping(|| {
            let mut s = S::new();
            let mut e = (0, 0);
            for (i, o) in self.ops.iter().enumerate() {
                let last = i + 1 == self.ops.len();
                e = s.run(c, self.scn.ops[*o as usize], if last { t } else { None });
            }
            s.poke(c);
            let mut f = (0, 0);
            if let Some(o) = after {
                f = s.run(c, self.scn.ops[o as usize], u);
                s.poke(c);
            }
            let _ = may_panic(move || drop(s));
            (e, f)
        });
        crate::engine::count("misbehaviours", t.is_some() as u64 + u.is_some() as u64);
        match untracked(|| ledger_fault().or(fault_now().map(|x| x.to_string()))) {
            None => Ok(r),
            Some(m) => Err(untracked(|| {
                let w = |t: Option<Trick>| match t {
                    None => "nothing wrong".to_string(),
                    Some(Trick::Panic(n)) => format!("a panic in call {} of user code", n),
                    Some(Trick::Lie(n, d)) => format!("comparison {} answering wrong (+{})", n, d),
                };
                let a = match after {
                    Some(o) => format!(", then {} with {}", self.scn.op_name(o), w(u)),
                    None => String::new(),
                };
                format!("{} in the last operation{}: {}", w(t), a, m)
            })),
        }
    }
}
impl<'a, S: PSys> Inst for PInst<'a, S> {
    fn enabled(&self) -> Vec<u16> {
        self.offered()
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        S::model(&self.scn.cfg, &mut self.m, self.scn.ops[op as usize]).ok_or("skip: not offered")?;
        self.ops.push(op);
        Ok(())
    }
    fn finish(self: Box<Self>) -> R<u128> {
        let mut h = H::new();
        for m in &self.m {
            h.u(m.len() as u64);
            for (k, r) in m {
                h.u((k * 64 + r) as u64);
            }
        }
        let c = &self.scn.cfg;
        let ((n, cmps), _) = self.one(None, None, None)?;
        let mut first = vec![];
        if c.lies {
            for i in 1..=cmps {
                first.push(Trick::Lie(i, 1));
                first.push(Trick::Lie(i, 2));
            }
        } else {
            first.extend((1..=n).map(Trick::Panic));
        }
        let all: Vec<u16> = (0..self.scn.ops.len() as u16).collect();
        for t in first {
            self.one(Some(t), None, None)?;
            for o in &all {
                let (_, (n2, c2)) = self.one(Some(t), Some(*o), None)?;
                if c.twice {
                    if c.lies {
                        for i in 1..=c2 {
                            self.one(Some(t), Some(*o), Some(Trick::Lie(i, 1)))?;
                            self.one(Some(t), Some(*o), Some(Trick::Lie(i, 2)))?;
                        }
                    } else {
                        for i in 1..=n2 {
                            self.one(Some(t), Some(*o), Some(Trick::Panic(i)))?;
                        }
                    }
                }
            }
        }
        Ok(h.fin())
    }
}

#[allow(dead_code)]
fn _any(_: Box<dyn Any>) {}
