//! Indexed lists against a vector.
use crate::engine::{may_panic, Inst, Scenario, R};
use crate::maps::{ensure, BoxIter};
use crate::tok::V;
use crate::util::H;
use extended_collections::skiplist::SkipList;
use extended_collections::treap::TreapList;
use std::ops::{Index, IndexMut};

pub trait ListLike: Sized {
    const NAME: &'static str;
    fn new() -> Self;
    fn default() -> Self;
    fn insert(&mut self, i: usize, v: V);
    fn remove(&mut self, i: usize) -> V;
    fn push_front(&mut self, v: V);
    fn push_back(&mut self, v: V);
    fn pop_front(&mut self) -> V;
    fn pop_back(&mut self) -> V;
    fn get(&self, i: usize) -> Option<&V>;
    fn get_mut(&mut self, i: usize) -> Option<&mut V>;
    fn index(&self, i: usize) -> &V;
    fn index_mut(&mut self, i: usize) -> &mut V;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn iter(&self) -> BoxIter<'_, &V>;
    fn ref_into_iter(&self) -> BoxIter<'_, &V>;
    fn iter_mut(&mut self) -> BoxIter<'_, &mut V>;
    fn mut_into_iter(&mut self) -> BoxIter<'_, &mut V>;
    fn into_iter(self) -> BoxIter<'static, V>;
    fn concat(a: Self, b: Self) -> Self;
}

macro_rules! impl_list {
    ($t:ty, $name:expr) => {
        impl ListLike for $t {
            const NAME: &'static str = $name;
            fn new() -> Self {
                <$t>::new()
            }
            fn default() -> Self {
                Default::default()
            }
            fn insert(&mut self, i: usize, v: V) {
                <$t>::insert(self, i, v)
            }
            fn remove(&mut self, i: usize) -> V {
                <$t>::remove(self, i)
            }
            fn push_front(&mut self, v: V) {
                <$t>::push_front(self, v)
            }
            fn push_back(&mut self, v: V) {
                <$t>::push_back(self, v)
            }
            fn pop_front(&mut self) -> V {
                <$t>::pop_front(self)
            }
            fn pop_back(&mut self) -> V {
                <$t>::pop_back(self)
            }
            fn get(&self, i: usize) -> Option<&V> {
                <$t>::get(self, i)
            }
            fn get_mut(&mut self, i: usize) -> Option<&mut V> {
                <$t>::get_mut(self, i)
            }
            fn index(&self, i: usize) -> &V {
                Index::index(self, i)
            }
            fn index_mut(&mut self, i: usize) -> &mut V {
                IndexMut::index_mut(self, i)
            }
            fn len(&self) -> usize {
                <$t>::len(self)
            }
            fn is_empty(&self) -> bool {
                <$t>::is_empty(self)
            }
            fn clear(&mut self) {
                <$t>::clear(self)
            }
            fn iter(&self) -> BoxIter<'_, &V> {
                Box::new(<$t>::iter(self))
            }
            fn ref_into_iter(&self) -> BoxIter<'_, &V> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn iter_mut(&mut self) -> BoxIter<'_, &mut V> {
                Box::new(<$t>::iter_mut(self))
            }
            fn mut_into_iter(&mut self) -> BoxIter<'_, &mut V> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn into_iter(self) -> BoxIter<'static, V> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn concat(a: Self, b: Self) -> Self {
                a + b
            }
        }
    };
}
impl_list!(TreapList<V>, "TreapList");
impl_list!(SkipList<V>, "SkipList");

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LOp {
    Ins(usize, usize),
    PushF(usize),
    PushB(usize),
    Rem(usize),
    PopF,
    PopB,
    GetMut(usize),
    IndexMut(usize),
    IterMut,
    Clear,
    Take(usize),
    /// A = A + B, B = {}
    Concat,
    /// A = B + A, B = {}
    ConcatRev,
    Swap,
}

#[derive(Clone, Copy)]
pub struct ListCfg {
    pub max_n: usize,
    /// Elements of both lists together.
    pub max_total: usize,
    pub rs: &'static [u32],
    pub ownership: bool,
    pub misuse: bool,
    pub big: usize,
    pub value_ops: bool,
}
pub const LCFG: ListCfg = ListCfg { max_n: 5, max_total: 6, rs: &[0], ownership: false, misuse: false, big: 0, value_ops: true };

pub struct ListScn<L> {
    pub cfg: ListCfg,
    pub label: String,
    pub ops: Vec<LOp>,
    _m: std::marker::PhantomData<fn() -> L>,
}

impl<L: ListLike> ListScn<L> {
    pub fn new(label: &str, cfg: ListCfg) -> Self {
        let n = cfg.max_n.max(cfg.big);
        let nr = cfg.rs.len();
        let mut ops = vec![];
        for r in 0..nr {
            for i in 0..n {
                ops.push(LOp::Ins(i, r));
            }
            ops.push(LOp::PushF(r));
            ops.push(LOp::PushB(r));
        }
        for i in 0..n {
            ops.push(LOp::Rem(i));
        }
        ops.extend([LOp::PopF, LOp::PopB, LOp::IterMut, LOp::Clear, LOp::Concat, LOp::ConcatRev, LOp::Swap]);
        for i in 0..n {
            ops.push(LOp::GetMut(i));
            ops.push(LOp::IndexMut(i));
        }
        for j in 0..=n {
            ops.push(LOp::Take(j));
        }
        ListScn { cfg, label: label.into(), ops, _m: std::marker::PhantomData }
    }
    pub fn code(&self, op: LOp) -> u16 {
        self.ops.iter().position(|o| *o == op).expect("op") as u16
    }
    /// Long runs: fill by several patterns of positions, concatenate copies, drain by several.
    pub fn long(&self, sizes: &[usize]) -> Vec<Vec<u16>> {
        let nr = self.cfg.rs.len();
        let pats: Vec<fn(usize, usize) -> usize> = vec![
            |_, _| 0,
            |n, _| n,
            |n, _| n / 2,
            |n, i| if i % 2 == 0 { 0 } else { n },
            |n, i| (i * 7919 + i / 3) % (n + 1),
            |n, _| n / 3,
        ];
        let hs: Vec<Box<dyn Fn(usize) -> usize>> = vec![
            Box::new(move |i| ((i + 1).trailing_zeros() as usize).min(nr - 1)),
            Box::new(move |i| (i * 5 + i / 7) % nr),
        ];
        let mut out = vec![];
        for &n in sizes {
            for (pi, p) in pats.iter().enumerate() {
                for h in &hs {
                    for (qi, q) in pats.iter().enumerate() {
                        let mut t = vec![];
                        for i in 0..n {
                            t.push(self.code(LOp::Ins(p(i, i), h(i))));
                        }
                        if (pi + qi) % 2 == 0 {
                            t.push(self.code(LOp::Swap));
                            for i in 0..n / 2 {
                                t.push(self.code(LOp::Ins(p(i, i), h(i + 3))));
                            }
                            for i in 0..n / 4 {
                                t.push(self.code(LOp::Rem(q(n / 2 - i, i).min(n / 2 - i - 1))));
                            }
                            t.push(self.code(if pi % 2 == 0 { LOp::Concat } else { LOp::ConcatRev }));
                        }
                        out.push(t.clone());
                        let mut m = if (pi + qi) % 2 == 0 { n + n / 2 - n / 4 } else { n };
                        let mut i = 0;
                        while m > 0 {
                            t.push(self.code(LOp::Rem(q(m, i).min(m - 1))));
                            m -= 1;
                            i += 1;
                            if i % 3 == 2 {
                                t.push(self.code(LOp::Ins(p(m, i), h(i))));
                                t.push(self.code(LOp::Rem(q(m + 1, i + 1).min(m))));
                            }
                            if i % 5 == 0 || m == 0 {
                                out.push(t.clone());
                            }
                        }
                    }
                }
            }
        }
        out
    }
}

#[derive(Clone, Copy, PartialEq)]
struct LE {
    id: u32,
    v: u64,
    r: usize,
}

struct ListInst<'a, L: ListLike> {
    scn: &'a ListScn<L>,
    real: [Option<L>; 2],
    model: [Vec<LE>; 2],
    ctr: u64,
}

impl<L: ListLike> Scenario for ListScn<L> {
    fn name(&self) -> String {
        format!("{}/{}", L::NAME, self.label)
    }
    fn op_name(&self, op: u16) -> String {
        let rn = |r: usize| format!("random {:#x}", self.cfg.rs[r]);
        match self.ops[op as usize] {
            LOp::Ins(i, r) => format!("insert at {} ({})", i, rn(r)),
            LOp::PushF(r) => format!("push_front ({})", rn(r)),
            LOp::PushB(r) => format!("push_back ({})", rn(r)),
            LOp::Concat => "A = A + B, B = {}".into(),
            LOp::ConcatRev => "A = B + A, B = {}".into(),
            LOp::Swap => "swap A and B".into(),
            o => format!("{:?}", o),
        }
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(ListInst::<L> { scn: self, real: [Some(L::new()), Some(L::default())], model: [vec![], vec![]], ctr: 0 })
    }
    fn ownership(&self) -> bool {
        self.cfg.ownership
    }
}

fn same(what: &str, got: Option<&V>, want: Option<&LE>) -> R<()> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(v), Some(e)) => {
            ensure!(v.tok.ok() && v.v == e.v && v.tok.id == e.id, "{} gives another element", what);
            Ok(())
        }
        (Some(_), None) => Err(format!("{} gives an element where there is none", what)),
        (None, Some(_)) => Err(format!("{} gives nothing where there is an element", what)),
    }
}

impl<'a, L: ListLike> ListInst<'a, L> {
    fn new_v(&mut self, r: usize) -> (V, LE) {
        self.ctr += 1;
        let v = V::new(self.ctr);
        let e = LE { id: v.tok.id, v: self.ctr, r };
        rand::ctrl::set_fixed(Some(self.scn.cfg.rs[r]));
        (v, e)
    }
}

fn observe<L: ListLike>(l: &mut L, mo: &[LE]) -> R<()> {
    ensure!(l.len() == mo.len(), "len() is {} instead of {}", l.len(), mo.len());
    ensure!(l.is_empty() == mo.is_empty(), "is_empty() is wrong");
    for i in (0..mo.len() + 2).chain([usize::MAX - 1, usize::MAX]) {
        same("get()", l.get(i), mo.get(i))?;
        same("get_mut()", l.get_mut(i).map(|v| &*v), mo.get(i))?;
        if i < mo.len() {
            same("indexing", Some(l.index(i)), mo.get(i))?;
        }
    }
    for w in 0..4 {
        let name = ["iter()", "(&list).into_iter()", "iter_mut()", "(&mut list).into_iter()"][w];
        let mut it: BoxIter<'_, &V> = match w {
            0 => l.iter(),
            1 => l.ref_into_iter(),
            2 => Box::new(l.iter_mut().map(|v| &*v)),
            _ => Box::new(l.mut_into_iter().map(|v| &*v)),
        };
        for e in mo {
            same(name, it.next(), Some(e))?;
        }
        same(name, it.next(), None)?;
    }
    Ok(())
}

fn take<L: ListLike>(l: L, mo: &[LE], j: usize) -> R<()> {
    let mut it = l.into_iter();
    for e in mo.iter().take(j) {
        same("into_iter()", it.next().as_ref(), Some(e))?;
    }
    if j >= mo.len() {
        same("into_iter()", it.next().as_ref(), None)?;
    }
    Ok(())
}

impl<'a, L: ListLike> Inst for ListInst<'a, L> {
    fn enabled(&self) -> Vec<u16> {
        let c = &self.scn.cfg;
        let n = self.model[0].len();
        let total = n + self.model[1].len();
        let room = n < c.max_n && total < c.max_total;
        let mut out = vec![];
        for (i, op) in self.scn.ops.iter().enumerate() {
            let on = match op {
                LOp::Ins(g, _) => *g <= n && room,
                LOp::PushF(_) | LOp::PushB(_) => room && c.value_ops,
                LOp::Rem(k) => *k < n,
                LOp::PopF | LOp::PopB => n > 0 && c.value_ops,
                LOp::GetMut(k) | LOp::IndexMut(k) => *k < n && c.value_ops,
                LOp::IterMut => n > 0 && c.value_ops,
                LOp::Clear => n > 0,
                LOp::Take(j) => c.ownership && *j <= n,
                LOp::Concat | LOp::ConcatRev => true,
                LOp::Swap => n + total > n,
            };
            if on {
                out.push(i as u16);
            }
        }
        out
    }

    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let opx = *self.scn.ops.get(op as usize).ok_or("skip: no such op")?;
        let n = self.model[0].len();
        match opx {
            LOp::Ins(i, r) => {
                if i > n {
                    return Err("skip: out of range".into());
                }
                let (v, e) = self.new_v(r);
                self.real[0].as_mut().unwrap().insert(i, v);
                self.model[0].insert(i, e);
            }
            LOp::PushF(r) => {
                let (v, e) = self.new_v(r);
                self.real[0].as_mut().unwrap().push_front(v);
                self.model[0].insert(0, e);
            }
            LOp::PushB(r) => {
                let (v, e) = self.new_v(r);
                self.real[0].as_mut().unwrap().push_back(v);
                self.model[0].push(e);
            }
            LOp::Rem(i) => {
                if i >= n {
                    return Err("skip: out of range".into());
                }
                let got = self.real[0].as_mut().unwrap().remove(i);
                let want = self.model[0].remove(i);
                same("remove()", Some(&got), Some(&want))?;
            }
            LOp::PopF | LOp::PopB => {
                if n == 0 {
                    return Err("skip: empty".into());
                }
                let front = opx == LOp::PopF;
                let l = self.real[0].as_mut().unwrap();
                let got = if front { l.pop_front() } else { l.pop_back() };
                let want = self.model[0].remove(if front { 0 } else { n - 1 });
                same("pop", Some(&got), Some(&want))?;
            }
            LOp::GetMut(i) | LOp::IndexMut(i) => {
                if i >= n {
                    return Err("skip: out of range".into());
                }
                self.ctr += 1;
                let nv = V::new(self.ctr);
                let e = LE { id: nv.tok.id, v: self.ctr, r: self.model[0][i].r };
                let l = self.real[0].as_mut().unwrap();
                let v = if let LOp::GetMut(_) = opx { l.get_mut(i).ok_or("get_mut() gives nothing where there is an element")? } else { l.index_mut(i) };
                same("mutable access", Some(v), Some(&self.model[0][i]))?;
                *v = nv;
                self.model[0][i] = e;
            }
            LOp::IterMut => {
                let mut i = 0;
                for v in self.real[0].as_mut().unwrap().iter_mut() {
                    ensure!(i < n, "iter_mut() yields too many items");
                    self.ctr += 1;
                    *v = V::new(self.ctr);
                    self.model[0][i] = LE { id: v.tok.id, v: self.ctr, r: self.model[0][i].r };
                    i += 1;
                }
                ensure!(i == n, "iter_mut() yields too few items");
            }
            LOp::Clear => {
                self.real[0].as_mut().unwrap().clear();
                self.model[0].clear();
            }
            LOp::Take(j) => {
                let l = self.real[0].take().unwrap();
                self.real[0] = Some(L::new());
                let mo = std::mem::take(&mut self.model[0]);
                take(l, &mo, j)?;
            }
            LOp::Concat | LOp::ConcatRev => {
                let a = self.real[0].take().unwrap();
                let b = self.real[1].take().unwrap();
                let ma = std::mem::take(&mut self.model[0]);
                let mb = std::mem::take(&mut self.model[1]);
                self.real[1] = Some(L::new());
                let (l, m) = if opx == LOp::Concat { (L::concat(a, b), [ma, mb].concat()) } else { (L::concat(b, a), [mb, ma].concat()) };
                self.real[0] = Some(l);
                self.model[0] = m;
            }
            LOp::Swap => {
                self.real.swap(0, 1);
                self.model.swap(0, 1);
            }
        }
        Ok(())
    }

    fn finish(mut self: Box<Self>) -> R<u128> {
        let c = &self.scn.cfg;
        let mut h = H::new();
        for i in 0..2 {
            let mut l = self.real[i].take().unwrap();
            let mo = &self.model[i];
            h.u(mo.len() as u64);
            for e in mo {
                h.u(e.r as u64);
            }
            observe(&mut l, mo)?;
            if c.misuse {
                let n = mo.len();
                rand::ctrl::set_fixed(Some(c.rs[0]));
                for bad in [n + 1, n + 2, usize::MAX] {
                    ensure!(may_panic(|| l.insert(bad, V::new(0))).is_err(), "insert past the end did not panic");
                }
                for bad in [n, n + 1, usize::MAX] {
                    ensure!(may_panic(|| drop(l.remove(bad))).is_err(), "remove past the end did not panic");
                    ensure!(may_panic(|| l.index(bad).v).is_err(), "indexing past the end did not panic");
                    ensure!(may_panic(|| l.index_mut(bad).v).is_err(), "mutable indexing past the end did not panic");
                }
                if n == 0 {
                    ensure!(may_panic(|| drop(l.pop_front())).is_err(), "pop_front of an empty list did not panic");
                    ensure!(may_panic(|| drop(l.pop_back())).is_err(), "pop_back of an empty list did not panic");
                }
                observe(&mut l, mo).map_err(|e| format!("after rejected calls: {}", e))?;
            }
            let j = if c.ownership { (h.fin() as usize) % (mo.len() + 1) } else { mo.len() };
            if !c.ownership && i == 0 && c.big == 0 {
                // what cannot be seen of one list shows once another one is behind it
                let mut tail = L::new();
                let mut mt = mo.clone();
                for x in 0..3 {
                    rand::ctrl::set_fixed(Some(c.rs[(x + 1) % c.rs.len()]));
                    let v = V::new(x as u64);
                    mt.push(LE { id: v.tok.id, v: x as u64, r: 0 });
                    tail.push_back(v);
                }
                let mut all = L::concat(l, tail);
                observe(&mut all, &mt).map_err(|e| format!("after appending three elements with +: {}", e))?;
                take(all, &mt, j)?;
                continue;
            }
            take(l, mo, j)?;
        }
        Ok(h.fin())
    }
}
