use crate::types::E;
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use std::collections::{BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An element: key (in lists: nothing of interest) and height.
pub type Cont = Vec<(usize, u8)>;
pub type State = [Cont; 2];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// Which collection, key or position, height.
    Ins(usize, usize, u8),
    Rem(usize, usize),
    Union,
    Inter,
    Diff,
    Sym,
    Add,
    Clear,
    /// By value, this many elements.
    Take(usize),
    Look,
    LookMut,
}
use Op::*;

pub trait Sys: Sized {
    const NAME: &'static str;
    const LIST: bool;
    const MAP: bool;
    fn types() -> String;
    fn new() -> Self;
    fn ins(&mut self, at: usize);
    fn rem(&mut self, at: usize);
    fn join(self, o: Self, op: Op) -> Self;
    fn clear(&mut self);
    fn take(self, n: usize);
    fn look(&self, n: usize);
    fn look_mut(&mut self, n: usize);
}

fn sees<T: E>(x: &T) -> usize {
    assert!(x as *const T as usize % std::mem::align_of::<T>() == 0, "REFERENCE not aligned");
    std::hint::black_box(x.id())
}

/// Mutable references that live at the same time are to different places.
fn apart<T: E>(v: &mut Vec<&mut T>) {
    if std::mem::size_of::<T>() > 0 {
        for i in 0..v.len() {
            for j in 0..i {
                assert!(&*v[i] as *const T != &*v[j] as *const T, "REFERENCE handed out twice");
            }
        }
    }
    for x in v.iter_mut() {
        sees(&**x);
        x.put()
    }
}

/// Used by the method call syntax below if `iter_mut` of a map cannot be called through a shared
/// reference.
trait Shared<K, V> {
    fn iter_mut(&self) -> std::iter::Empty<(&K, &mut V)> {
        std::iter::empty()
    }
}
impl<K, V> Shared<K, V> for SkipMap<K, V> {}
trait SharedList<T> {
    fn iter_mut(&self) -> std::iter::Empty<&mut T> {
        std::iter::empty()
    }
}
impl<T> SharedList<T> for SkipList<T> {}

pub struct Map<K, V>(SkipMap<K, V>);
macro_rules! map_impl { ($($k:ty, $v:ty;)*) => { $(impl Sys for Map<$k, $v> {
    const NAME: &'static str = "SkipMap";
    const LIST: bool = false;
    const MAP: bool = true;
    fn types() -> String { format!("{}, {}", <$k>::NAME, <$v>::NAME) }
    fn new() -> Self { Map(SkipMap::new()) }
    fn ins(&mut self, at: usize) {
        if let Some((k, v)) = self.0.insert(<$k>::mk(at), <$v>::mk(at)) { sees(&k); sees(&v); }
    }
    fn rem(&mut self, at: usize) {
        if let Some((k, v)) = self.0.remove(&<$k>::mk(at)) { sees(&k); sees(&v); }
    }
    fn join(self, o: Self, op: Op) -> Self {
        let (a, b) = (self.0, o.0);
        Map(match op {
            Union => SkipMap::union(a, b),
            Inter => SkipMap::intersection(a, b),
            Diff => SkipMap::difference(a, b),
            _ => SkipMap::symmetric_difference(a, b),
        })
    }
    fn clear(&mut self) { self.0.clear() }
    fn take(self, n: usize) {
        let mut i = self.0.into_iter();
        let v: Vec<_> = i.by_ref().take(n).collect();
        drop(i);
        for (k, v) in &v { sees(k); sees(v); }
    }
    fn look(&self, n: usize) {
        let m = &self.0;
        let (a, b) = (m.iter(), m.iter());
        let v: Vec<_> = a.zip(b).map(|(x, y)| [x, y]).collect();
        let mut w: Vec<Option<&$k>> = vec![m.min(), m.max()];
        for k in 0..n {
            let key = <$k>::mk(k);
            w.extend([m.floor(&key), m.ceil(&key)]);
            if let Some(v) = m.get(&key) { sees(v); }
            m.contains_key(&key);
        }
        for (k, v) in v.iter().flatten() { sees(*k); sees(*v); }
        for k in w.iter().flatten() { sees(*k); }
        let mut both: Vec<&mut $v> = vec![];
        let mut keys: Vec<&$k> = vec![];
        #[allow(unused_mut)]
        for mut i in [(&self.0).iter_mut(), (&self.0).iter_mut()] {
            while let Some((k, v)) = i.next() { keys.push(k); both.push(v); }
        }
        apart(&mut both);
    }
    fn look_mut(&mut self, n: usize) {
        let mut i = self.0.iter_mut();
        let (mut ks, mut vs): (Vec<&$k>, Vec<&mut $v>) = (vec![], vec![]);
        while let Some((k, v)) = i.next() { ks.push(k); vs.push(v); }
        let _ = i.next();
        apart(&mut vs);
        for k in ks { sees(k); }
        for (_, v) in &mut self.0 { v.put() }
        for k in 0..n {
            let key = <$k>::mk(k);
            if let Some(v) = self.0.get_mut(&key) { sees(&*v); v.put() }
            if self.0.contains_key(&key) { self.0[&key].put() }
        }
    }
})* } }

pub struct Set<K>(SkipSet<K>);
macro_rules! set_impl { ($($k:ty;)*) => { $(impl Sys for Set<$k> {
    const NAME: &'static str = "SkipSet";
    const LIST: bool = false;
    const MAP: bool = false;
    fn types() -> String { <$k>::NAME.to_string() }
    fn new() -> Self { Set(SkipSet::new()) }
    fn ins(&mut self, at: usize) {
        if let Some(k) = self.0.insert(<$k>::mk(at)) { sees(&k); }
    }
    fn rem(&mut self, at: usize) {
        if let Some(k) = self.0.remove(&<$k>::mk(at)) { sees(&k); }
    }
    fn join(self, o: Self, op: Op) -> Self {
        let (a, b) = (self.0, o.0);
        Set(match op {
            Union => SkipSet::union(a, b),
            Inter => SkipSet::intersection(a, b),
            Diff => SkipSet::difference(a, b),
            _ => SkipSet::symmetric_difference(a, b),
        })
    }
    fn clear(&mut self) { self.0.clear() }
    fn take(self, n: usize) {
        let mut i = self.0.into_iter();
        let v: Vec<_> = i.by_ref().take(n).collect();
        drop(i);
        for k in &v { sees(k); }
    }
    fn look(&self, n: usize) {
        let m = &self.0;
        let v: Vec<_> = m.iter().zip(m).map(|(x, y)| [x, y]).collect();
        let mut w: Vec<Option<&$k>> = vec![m.min(), m.max()];
        for k in 0..n {
            let key = <$k>::mk(k);
            w.extend([m.floor(&key), m.ceil(&key)]);
            m.contains(&key);
        }
        for k in v.iter().flatten() { sees(*k); }
        for k in w.iter().flatten() { sees(*k); }
    }
    fn look_mut(&mut self, _: usize) {}
})* } }

pub struct List<T>(SkipList<T>);
macro_rules! list_impl { ($($k:ty;)*) => { $(impl Sys for List<$k> {
    const NAME: &'static str = "SkipList";
    const LIST: bool = true;
    const MAP: bool = false;
    fn types() -> String { <$k>::NAME.to_string() }
    fn new() -> Self { List(SkipList::new()) }
    fn ins(&mut self, at: usize) {
        let v = <$k>::mk(at);
        if at == 0 && self.0.len() % 2 == 0 { self.0.push_front(v) }
        else if at == self.0.len() && at % 2 == 0 { self.0.push_back(v) }
        else { self.0.insert(at, v) }
    }
    fn rem(&mut self, at: usize) {
        let v = if at == 0 && self.0.len() % 2 == 0 { self.0.pop_front() }
        else if at + 1 == self.0.len() && at % 2 == 0 { self.0.pop_back() }
        else { self.0.remove(at) };
        sees(&v);
    }
    fn join(self, o: Self, _: Op) -> Self { List(self.0 + o.0) }
    fn clear(&mut self) { self.0.clear() }
    fn take(self, n: usize) {
        let mut i = self.0.into_iter();
        let v: Vec<_> = i.by_ref().take(n).collect();
        drop(i);
        for k in &v { sees(k); }
    }
    fn look(&self, n: usize) {
        let m = &self.0;
        let v: Vec<_> = m.iter().zip(m).map(|(x, y)| [x, y]).collect();
        let w: Vec<Option<&$k>> = (0..n).map(|i| m.get(i)).collect();
        for k in v.iter().flatten() { sees(*k); }
        for k in w.iter().flatten() { sees(*k); }
        for i in 0..m.len() { sees(&m[i]); }
        let mut both: Vec<&mut $k> = vec![];
        #[allow(unused_mut)]
        for mut i in [(&self.0).iter_mut(), (&self.0).iter_mut()] {
            while let Some(v) = i.next() { both.push(v); }
        }
        apart(&mut both);
    }
    fn look_mut(&mut self, n: usize) {
        let mut i = self.0.iter_mut();
        let mut vs: Vec<&mut $k> = vec![];
        while let Some(v) = i.next() { vs.push(v); }
        let _ = i.next();
        apart(&mut vs);
        for v in &mut self.0 { v.put() }
        for k in 0..n {
            if let Some(v) = self.0.get_mut(k) { sees(&*v); v.put() }
            if k < self.0.len() { self.0[k].put() }
        }
    }
})* } }

#[derive(Clone, Copy)]
pub struct Cfg {
    /// Keys of the two collections (lists: greatest lengths).
    pub n: [usize; 2],
    pub hs: &'static [u8],
}

fn ops<S: Sys>(c: &Cfg, s: &State) -> Vec<Op> {
    let mut v = vec![];
    for m in 0..2 {
        let l = s[m].len();
        let places = if S::LIST { if l < c.n[m] { l + 1 } else { 0 } } else { c.n[m] };
        for k in 0..places {
            for h in c.hs {
                v.push(Ins(m, k, *h));
            }
        }
        for k in 0..if S::LIST { l } else { c.n[m] } {
            v.push(Rem(m, k));
        }
    }
    if c.n[1] > 0 {
        if S::LIST {
            if s[0].len() + s[1].len() <= c.n[0] {
                v.push(Add);
            }
        } else {
            v.extend([Union, Inter, Diff, Sym]);
        }
    }
    v.push(Clear);
    v.extend((0..=s[0].len()).map(Take));
    v.push(Look);
    if S::LIST || S::MAP {
        v.push(LookMut);
    }
    v
}

fn model<S: Sys>(s: &State, op: Op) -> State {
    let [mut a, mut b] = s.clone();
    match op {
        Ins(m, k, h) => {
            let x = if m == 0 { &mut a } else { &mut b };
            if S::LIST {
                x.insert(k, (0, h));
            } else if !x.iter().any(|e| e.0 == k) {
                x.push((k, h));
                x.sort();
            }
        }
        Rem(m, k) => {
            let x = if m == 0 { &mut a } else { &mut b };
            if S::LIST {
                x.remove(k);
            } else {
                x.retain(|e| e.0 != k);
            }
        }
        Add => a.append(&mut b),
        Union | Inter | Diff | Sym => {
            let mut r: Cont = a.iter().filter(|e| op == Union || b.iter().any(|f| f.0 == e.0) == (op == Inter)).cloned().collect();
            if op == Union || op == Sym {
                r.extend(b.iter().filter(|e| a.iter().all(|f| f.0 != e.0)));
            }
            r.sort();
            a = r;
            b.clear();
        }
        Clear | Take(_) => a.clear(),
        Look | LookMut => {}
    }
    [a, b]
}

fn run<S: Sys>(x: &mut [S; 2], c: &Cfg, op: Op) {
    let [a, b] = x;
    match op {
        Ins(m, k, h) => {
            rand::ctrl::set_fixed(Some((1u64 << 31 >> h) as u32));
            if m == 0 { a } else { b }.ins(k)
        }
        Rem(m, k) => if m == 0 { a } else { b }.rem(k),
        Union | Inter | Diff | Sym | Add => {
            let (p, q) = (std::mem::replace(a, S::new()), std::mem::replace(b, S::new()));
            *a = p.join(q, op)
        }
        Clear => a.clear(),
        Take(n) => std::mem::replace(a, S::new()).take(n),
        Look => a.look(c.n[0] + 1),
        LookMut => a.look_mut(c.n[0] + 1),
    }
}

impl Op {
    /// Four characters.
    pub fn code(self) -> String {
        let (c, m, k, h) = match self {
            Ins(m, k, h) => ('I', m, k, h),
            Rem(m, k) => ('R', m, k, 0),
            Union => ('U', 0, 0, 0),
            Inter => ('N', 0, 0, 0),
            Diff => ('D', 0, 0, 0),
            Sym => ('S', 0, 0, 0),
            Add => ('A', 0, 0, 0),
            Clear => ('C', 0, 0, 0),
            Take(n) => ('T', 0, n, 0),
            Look => ('L', 0, 0, 0),
            LookMut => ('M', 0, 0, 0),
        };
        [c, (b'0' + m as u8) as char, (b'0' + k as u8) as char, (b'0' + h) as char].iter().collect()
    }
    pub fn decode(b: &[u8]) -> Op {
        let (m, k, h) = ((b[1] - b'0') as usize, (b[2] - b'0') as usize, b[3] - b'0');
        match b[0] {
            b'I' => Ins(m, k, h),
            b'R' => Rem(m, k),
            b'U' => Union,
            b'N' => Inter,
            b'D' => Diff,
            b'S' => Sym,
            b'A' => Add,
            b'C' => Clear,
            b'T' => Take(k),
            b'L' => Look,
            _ => LookMut,
        }
    }
}

/// Every reachable state, and every operation in it: the shortest sequence that leads there.
pub struct Cases {
    pub name: String,
    pub states: u64,
    pub cases: Vec<Vec<Op>>,
}
pub fn cases<S: Sys>(c: Cfg) -> Cases {
    let mut seen: BTreeSet<State> = BTreeSet::new();
    let mut q: VecDeque<(State, Vec<Op>)> = VecDeque::new();
    let mut r = Cases { name: format!("{}<{}>", S::NAME, S::types()), states: 0, cases: vec![] };
    seen.insert(Default::default());
    q.push_back((Default::default(), vec![]));
    while let Some((s, path)) = q.pop_front() {
        r.states += 1;
        for op in ops::<S>(&c, &s) {
            let t = model::<S>(&s, op);
            let mut p = path.clone();
            p.push(op);
            r.cases.push(p.clone());
            if seen.insert(t.clone()) {
                q.push_back((t, p));
            }
        }
    }
    r
}

/// Runs the cases on the real code; `cases` is a list separated by commas.
pub fn perform<S: Sys>(c: Cfg, cases: &str) {
    for (i, p) in cases.split(',').enumerate() {
        println!("{}", i);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut x = [S::new(), S::new()];
            for o in p.as_bytes().chunks(4) {
                run(&mut x, &c, Op::decode(o));
            }
            x[0].look(c.n[0] + 1);
            x[0].look_mut(c.n[0] + 1);
            x[1].look(c.n[1] + 1);
            // what is left must have room for the tallest towers
            for (m, y) in x.iter_mut().enumerate() {
                let at = if S::LIST { 0 } else { c.n[m] };
                rand::ctrl::set_fixed(Some(0));
                y.ins(at);
                y.rem(at);
            }
        }));
        if let Err(e) = r {
            // wrong answers are for other properties
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
            if let Some(m) = m.filter(|m| m.starts_with("REFERENCE")) {
                println!("BAD {}", m);
                std::process::exit(9);
            }
        }
    }
    println!("DONE");
}

use crate::types::*;
use std::num::NonZeroU16;
map_impl! { u8, A32; A512, u8; Box<u8>, Box<u8>; u128, B3; u64, (); NonZeroU16, Option<String>; B3, u64; u16, Z64; A2, u128; }
set_impl! { u8; A32; Box<u8>; u128; B3; NonZeroU16; }
list_impl! { (); u8; A32; A512; Box<u8>; u128; B3; NonZeroU16; Option<String>; Z64; }

pub const JOBS: usize = 25;
/// Where only the type of the elements makes a difference.
fn small(thorough: bool) -> Cfg {
    if thorough { Cfg { n: [2, 1], hs: &[0, 2, 31] } } else { Cfg { n: [1, 1], hs: &[0, 1] } }
}
fn large(thorough: bool) -> Cfg {
    if thorough { Cfg { n: [3, 2], hs: &[0, 1] } } else { Cfg { n: [2, 1], hs: &[0, 1] } }
}
macro_rules! jobs { ($($n:literal $c:ident $t:ty;)*) => {
    pub fn job_cases(i: usize, thorough: bool) -> Cases {
        match i { $($n => cases::<$t>($c(thorough)),)* _ => unreachable!() }
    }
    pub fn job_perform(i: usize, thorough: bool, list: &str) {
        match i { $($n => perform::<$t>($c(thorough), list),)* _ => unreachable!() }
    }
} }
jobs! {
    0 small Map<u8, A32>; 1 small Map<A512, u8>; 2 large Map<Box<u8>, Box<u8>>; 3 small Map<u128, B3>; 4 small Map<u64, ()>;
    5 small Map<NonZeroU16, Option<String>>; 6 small Map<B3, u64>; 7 small Map<u16, Z64>; 8 small Map<A2, u128>;
    9 large Set<u8>; 10 small Set<A32>; 11 small Set<Box<u8>>; 12 small Set<u128>; 13 small Set<B3>; 14 small Set<NonZeroU16>;
    15 small List<()>; 16 small List<u8>; 17 small List<A32>; 18 small List<A512>; 19 large List<Box<u8>>; 20 small List<u128>;
    21 small List<B3>; 22 small List<NonZeroU16>; 23 small List<Option<String>>; 24 small List<Z64>;
}
