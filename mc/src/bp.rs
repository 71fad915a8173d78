//! The on-disk B+ tree map against a sorted reference.
use crate::engine::{may_panic, Inst, Scenario, R};
use crate::maps::ensure;
use crate::util::H;
use extended_collections::bp_tree::BpMap;
use serde::de::DeserializeOwned;
use serde::ser::Serialize;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::path::PathBuf;

/// A type stored in the map: numbered items of at most the declared size.
pub trait Item: Clone + Ord + Serialize + DeserializeOwned + Debug + 'static {
    const NAME: &'static str;
    /// Declared maximum of the serialised size.
    const MAX: u64;
    /// Item `i`, increasing in `i` for keys. Some of them are of the declared maximum size.
    fn item(i: usize) -> Self;
    /// Too large an item, if the type allows one.
    fn oversize(_i: usize) -> Option<Self> {
        None
    }
}

macro_rules! int_item {
    ($t:ty, $n:expr) => {
        impl Item for $t {
            const NAME: &'static str = stringify!($t);
            const MAX: u64 = $n;
            fn item(i: usize) -> Self {
                i as $t
            }
        }
    };
}
int_item!(u8, 1);
int_item!(u32, 4);
int_item!(u64, 8);
int_item!(i64, 8);

impl Item for () {
    const NAME: &'static str = "()";
    const MAX: u64 = 0;
    fn item(_: usize) -> Self {}
}
impl Item for String {
    const NAME: &'static str = "String";
    const MAX: u64 = 8 + 12;
    fn item(i: usize) -> Self {
        // three out of four are as long as allowed
        if i % 4 == 3 {
            format!("{:04}", i)
        } else {
            format!("{:04}{}", i, "z".repeat(8))
        }
    }
    fn oversize(i: usize) -> Option<Self> {
        Some(format!("{:04}{}", i, "z".repeat(9)))
    }
}
impl Item for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    const MAX: u64 = 8 + 100;
    fn item(i: usize) -> Self {
        let n = if i % 5 == 4 { 3 } else { 100 };
        let mut v = vec![(i / 251) as u8, (i % 251) as u8];
        v.resize(n, 0xA5);
        v
    }
    fn oversize(i: usize) -> Option<Self> {
        let mut v = vec![(i / 251) as u8, (i % 251) as u8];
        v.resize(101, 0xA5);
        Some(v)
    }
}
impl Item for Box<[u32]> {
    const NAME: &'static str = "Box<[u32]>";
    const MAX: u64 = 8 + 12;
    fn item(i: usize) -> Self {
        if i % 3 == 2 {
            Box::new([i as u32])
        } else {
            Box::new([i as u32, 7, 9])
        }
    }
    fn oversize(i: usize) -> Option<Self> {
        Some(Box::new([i as u32, 7, 9, 11]))
    }
}
impl Item for Option<u64> {
    const NAME: &'static str = "Option<u64>";
    const MAX: u64 = 9;
    fn item(i: usize) -> Self {
        if i == 0 {
            None
        } else {
            Some(i as u64)
        }
    }
}
impl Item for bool {
    const NAME: &'static str = "bool";
    const MAX: u64 = 1;
    fn item(i: usize) -> Self {
        i % 2 == 1
    }
}

#[derive(Clone, Copy)]
pub struct BpCfg {
    pub keys: usize,
    /// Leaf and internal degree, or the default ones.
    pub degrees: Option<(usize, usize)>,
    /// Close and open the map again after every operation.
    pub reopen_always: bool,
    pub reopen_op: bool,
    /// Offer replacing inserts as operations.
    pub repl: bool,
    pub clear: bool,
    pub oversize: bool,
    /// Compare the file's length with that of a map that started empty.
    pub space: bool,
    /// Bound the number of reads of a lookup.
    pub cost: bool,
    pub reference: bool,
}
pub const BCFG: BpCfg = BpCfg {
    keys: 6,
    degrees: Some((3, 3)),
    reopen_always: false,
    reopen_op: false,
    repl: true,
    clear: true,
    oversize: false,
    space: false,
    cost: false,
    reference: true,
};

pub struct BpScn<T, U> {
    pub tag: &'static str,
    pub cfg: BpCfg,
    p: PhantomData<fn() -> (T, U)>,
}

impl<T: Item, U: Item> BpScn<T, U> {
    pub fn new(tag: &'static str, cfg: BpCfg) -> Self {
        BpScn { tag, cfg, p: PhantomData }
    }
    pub fn ins(&self, k: usize) -> u16 {
        k as u16
    }
    pub fn rem(&self, k: usize) -> u16 {
        (self.cfg.keys + k) as u16
    }
    pub fn reopen(&self) -> u16 {
        (5 * self.cfg.keys + 1) as u16
    }
    /// Whether a second map, never closed, takes the same operations.
    fn twin(&self) -> bool {
        (self.cfg.reopen_always || self.cfg.reopen_op) && !self.cfg.space
    }
    /// Fill, drain and fill again in several orders.
    pub fn fill_drain(&self, n: usize, every: usize, reopen: bool) -> Vec<Vec<u16>> {
        let mut out = vec![];
        for f in crate::trees::orders(n) {
            for d in crate::trees::orders(n) {
                let mut t: Vec<u16> = vec![];
                for (i, k) in f.iter().enumerate() {
                    t.push(self.ins(*k));
                    if (i + 1) % (every * 3) == 0 {
                        out.push(t.clone());
                    }
                }
                for (i, k) in d.iter().enumerate() {
                    t.push(self.rem(*k));
                    if reopen && i % 5 == 0 {
                        t.push(self.reopen());
                    }
                    if (i + 1) % every == 0 || i + 1 == n {
                        out.push(t.clone());
                    }
                }
                for k in d.iter().take(n / 2) {
                    t.push(self.ins(*k));
                }
                out.push(t);
            }
        }
        out
    }
}

impl<T: Item, U: Item> Scenario for BpScn<T, U> {
    fn name(&self) -> String {
        let d = match self.cfg.degrees {
            Some((l, i)) => format!("leaf degree {}, internal degree {}", l, i),
            None => "default degrees".into(),
        };
        format!("BpMap<{}, {}> ({}; {})", T::NAME, U::NAME, self.tag, d)
    }
    fn op_name(&self, op: u16) -> String {
        let n = self.cfg.keys;
        let (c, k) = (op as usize / n, op as usize % n);
        match c {
            0 => format!("insert {}", k),
            1 => format!("remove {}", k),
            2 => format!("insert {} with another value, then with the first again", k),
            3 => format!("insert {} with too large a value", k),
            4 => format!("insert too large a key near {}", k),
            _ => match op as usize - 5 * n {
                0 => "clear".into(),
                _ => "close and open".into(),
            },
        }
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        let path = crate::scratch::path("bp");
        let map = create::<T, U>(&path, &self.cfg).expect("creating the map");
        let shadow = if self.twin() {
            let p = crate::scratch::path("bt");
            let m = create::<T, U>(&p, &self.cfg).expect("creating the map");
            Some((p, m))
        } else {
            None
        };
        Box::new(BpInst { scn: self, path, map: Some(map), model: BTreeMap::new(), shadow, base: 0, peak: 0 })
    }
}

fn create<T: Item, U: Item>(path: &PathBuf, c: &BpCfg) -> R<BpMap<T, U>> {
    let r = match c.degrees {
        Some((l, i)) => BpMap::with_degrees(path, T::MAX, U::MAX, l, i),
        None => BpMap::new(path, T::MAX, U::MAX),
    };
    r.map_err(|e| format!("creating the map: {}", e))
}

pub struct BpInst<'a, T: Item, U: Item> {
    scn: &'a BpScn<T, U>,
    path: PathBuf,
    map: Option<BpMap<T, U>>,
    /// Key number to the number of the value.
    model: BTreeMap<usize, usize>,
    shadow: Option<(PathBuf, BpMap<T, U>)>,
    /// File length when the map was last empty.
    base: u64,
    peak: usize,
}

impl<'a, T: Item, U: Item> Drop for BpInst<'a, T, U> {
    fn drop(&mut self) {
        self.map = None;
        let _ = std::fs::remove_file(&self.path);
        if let Some((p, m)) = self.shadow.take() {
            drop(m);
            let _ = std::fs::remove_file(p);
        }
    }
}

fn e<X>(what: &str, r: extended_collections::bp_tree::Result<X>) -> R<X> {
    r.map_err(|e| format!("{}: error: {}", what, e))
}

fn val(k: usize, ver: usize) -> usize {
    k * 2 + ver
}

impl<'a, T: Item, U: Item> BpInst<'a, T, U> {
    fn insert(&mut self, k: usize, ver: usize) -> R<()> {
        let got = e("insert", self.map.as_mut().unwrap().insert(T::item(k), U::item(val(k, ver))))?;
        if let Some((_, s)) = &mut self.shadow {
            e("insert", s.insert(T::item(k), U::item(val(k, ver))))?;
        }
        let want = self.model.insert(k, ver).map(|w| (T::item(k), U::item(val(k, w))));
        self.peak = self.peak.max(self.model.len());
        if self.scn.cfg.reference {
            ensure!(got == want, "insert returned {:?} instead of {:?}", got, want);
        }
        Ok(())
    }
    fn reopen(&mut self) -> R<()> {
        self.map = None;
        self.map = Some(e("open", BpMap::open(&self.path))?);
        Ok(())
    }
    fn emptied(&mut self) -> R<()> {
        if self.scn.cfg.space && self.model.is_empty() {
            if let Some((p, m)) = self.shadow.take() {
                drop(m);
                let _ = std::fs::remove_file(p);
            }
            let p = crate::scratch::path("bs");
            let m = create::<T, U>(&p, &self.scn.cfg)?;
            self.base = len(&self.path);
            self.shadow = Some((p, m));
        }
        Ok(())
    }
    fn observe(&mut self) -> R<()> {
        let model = &self.model;
        let m = self.map.as_mut().unwrap();
        ensure!(m.len() == model.len(), "len() is {} instead of {}", m.len(), model.len());
        ensure!(m.is_empty() == model.is_empty(), "is_empty() is wrong");
        let got = e("min", m.min())?;
        let want = model.keys().next().map(|k| T::item(*k));
        ensure!(got == want, "min() is {:?} instead of {:?}", got, want);
        let got = e("max", m.max())?;
        let want = model.keys().next_back().map(|k| T::item(*k));
        ensure!(got == want, "max() is {:?} instead of {:?}", got, want);
        for k in 0..self.scn.cfg.keys {
            let want = model.get(&k).map(|v| U::item(val(k, *v)));
            let got = e("get", m.get(&T::item(k)))?;
            ensure!(got == want, "get({}) is {:?} instead of {:?}", k, got, want);
            let got = e("contains_key", m.contains_key(&T::item(k)))?;
            ensure!(got == want.is_some(), "contains_key({}) is {}", k, got);
        }
        let want: Vec<(T, U)> = model.iter().map(|(k, v)| (T::item(*k), U::item(val(*k, *v)))).collect();
        {
            let mut it = e("iter_mut", m.iter_mut())?;
            for (i, w) in want.iter().enumerate() {
                match it.next() {
                    None => return Err(format!("iter_mut() ended after {} of {} items", i, want.len())),
                    Some(g) => {
                        let g = e("iter_mut", g)?;
                        ensure!(&g == w, "iter_mut(): item {} is {:?} instead of {:?}", i, g, w);
                    }
                }
            }
            ensure!(it.next().is_none(), "iter_mut() yields more than {} items", want.len());
        }
        let n = (&mut *m).into_iter().take(want.len() + 1).count();
        ensure!(n == want.len(), "(&mut map).into_iter() yields {} of {} items", n, want.len());
        Ok(())
    }
}

/// The state of the file up to the numbering of pages and the left-overs in them. Only used to
/// tell states apart: a file that cannot be read this way counts as it is, byte by byte.
mod canon {
    use super::*;
    use serde_derive::Deserialize;
    #[derive(Deserialize)]
    struct Meta {
        pages: usize,
        len: usize,
        root: usize,
        _key_size: u64,
        _value_size: u64,
        _leaf: usize,
        _internal: usize,
        free: Option<usize>,
    }
    #[derive(Deserialize)]
    struct Ent<T, U> {
        key: T,
        value: U,
    }
    #[derive(Deserialize)]
    struct Internal<T> {
        len: usize,
        keys: Box<[Option<T>]>,
        pointers: Box<[usize]>,
    }
    #[derive(Deserialize)]
    struct Leaf<T, U> {
        len: usize,
        entries: Box<[Option<Ent<T, U>>]>,
        next: Option<usize>,
    }
    #[derive(Deserialize)]
    enum Node<T, U> {
        Internal(Internal<T>),
        Leaf(Leaf<T, U>),
        Free(Option<usize>),
    }
    pub fn hash<T: Item, U: Item>(bytes: &[u8], h: &mut H) -> Option<()> {
        let m: Meta = bincode::deserialize(bytes).ok()?;
        let header = 72;
        let body = bytes.len().checked_sub(header)?;
        if m.pages == 0 || body % m.pages != 0 {
            return None;
        }
        let size = body / m.pages;
        let page = |i: usize| -> Option<Node<T, U>> { bincode::deserialize(bytes.get(header + i * size..header + (i + 1) * size)?).ok() };
        let mut num: Vec<usize> = vec![usize::MAX; m.pages];
        let mut order: Vec<usize> = vec![];
        let mut see = |p: usize, order: &mut Vec<usize>| -> Option<usize> {
            if *num.get(p)? == usize::MAX {
                num[p] = order.len();
                order.push(p);
            }
            Some(num[p])
        };
        h.u(m.pages as u64);
        h.u(m.len as u64);
        see(m.root, &mut order)?;
        match m.free {
            Some(f) => h.u(see(f, &mut order)? as u64),
            None => h.u(u64::MAX),
        }
        let mut i = 0;
        while i < order.len() {
            let p = order[i];
            i += 1;
            match page(p)? {
                Node::Internal(n) => {
                    h.u(1);
                    h.u(n.len as u64);
                    for (j, k) in n.keys.iter().enumerate() {
                        match k {
                            Some(k) => h.bytes(&bincode::serialize(k).ok()?),
                            None => h.u(if j < n.len { 77 } else { 7 }),
                        }
                    }
                    for p in n.pointers.iter().take(n.len + 1) {
                        h.u(see(*p, &mut order)? as u64);
                    }
                }
                Node::Leaf(n) => {
                    h.u(2);
                    h.u(n.len as u64);
                    for x in n.entries.iter() {
                        match x {
                            Some(x) => {
                                h.bytes(&bincode::serialize(&x.key).ok()?);
                                h.bytes(&bincode::serialize(&x.value).ok()?);
                            }
                            None => h.u(7),
                        }
                    }
                    match n.next {
                        Some(f) => h.u(see(f, &mut order)? as u64),
                        None => h.u(u64::MAX),
                    }
                }
                Node::Free(f) => {
                    h.u(3);
                    match f {
                        Some(f) => h.u(see(f, &mut order)? as u64),
                        None => h.u(u64::MAX),
                    }
                }
            }
        }
        Some(())
    }
}

fn len(p: &PathBuf) -> u64 {
    std::fs::metadata(p).map(|m| m.len()).unwrap_or(0)
}

thread_local! {
    pub static READS: Cell<u64> = const { Cell::new(0) };
}

impl<'a, T: Item, U: Item> Inst for BpInst<'a, T, U> {
    fn enabled(&self) -> Vec<u16> {
        let c = &self.scn.cfg;
        let n = c.keys;
        let mut v = vec![];
        for k in 0..n {
            if !self.model.contains_key(&k) {
                v.push(k as u16);
            } else if c.repl {
                v.push((2 * n + k) as u16);
            }
        }
        for k in 0..n {
            v.push((n + k) as u16);
        }
        if c.oversize {
            for k in 0..n {
                if U::oversize(k).is_some() {
                    v.push((3 * n + k) as u16);
                }
                if T::oversize(k).is_some() {
                    v.push((4 * n + k) as u16);
                }
            }
        }
        if c.clear {
            v.push(5 * n as u16);
        }
        if c.reopen_op {
            v.push(5 * n as u16 + 1);
        }
        v
    }

    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        let n = self.scn.cfg.keys;
        let (c, k) = (op as usize / n, op as usize % n);
        match c {
            0 => self.insert(k, 0)?,
            1 => {
                let got = e("remove", self.map.as_mut().unwrap().remove(&T::item(k)))?;
                if let Some((_, s)) = &mut self.shadow {
                    e("remove", s.remove(&T::item(k)))?;
                }
                let want = self.model.remove(&k).map(|w| (T::item(k), U::item(val(k, w))));
                if self.scn.cfg.reference {
                    ensure!(got == want, "remove returned {:?} instead of {:?}", got, want);
                }
                self.emptied()?;
            }
            2 => {
                if !self.model.contains_key(&k) {
                    return Err("skip: absent".into());
                }
                self.insert(k, 1)?;
                let got = e("get", self.map.as_mut().unwrap().get(&T::item(k)))?;
                ensure!(got == Some(U::item(val(k, 1))), "get() after a replacing insert is {:?}", got);
                self.insert(k, 0)?;
            }
            3 | 4 => {
                let key = if c == 4 { T::oversize(k).ok_or("skip: none")? } else { T::item(k) };
                let v = if c == 3 { U::oversize(k).ok_or("skip: none")? } else { U::item(val(k, 0)) };
                let m = self.map.as_mut().unwrap();
                ensure!(may_panic(|| m.insert(key, v).is_ok()).is_err(), "inserting too large an item did not panic");
            }
            _ => match op as usize - 5 * n {
                0 => {
                    e("clear", self.map.as_mut().unwrap().clear())?;
                    self.model.clear();
                    if let (Some((_, s)), true) = (&mut self.shadow, self.scn.twin()) {
                        e("clear", s.clear())?;
                    }
                    self.emptied()?;
                }
                _ => self.reopen()?,
            },
        }
        if self.scn.cfg.reopen_always {
            self.reopen()?;
        }
        Ok(())
    }

    fn finish(mut self: Box<Self>) -> R<u128> {
        let cfg = self.scn.cfg;
        let mut h = H::new();
        let bytes = std::fs::read(&self.path).unwrap_or_default();
        if canon::hash::<T, U>(&bytes, &mut h).is_none() {
            h = H::new();
            h.bytes(&bytes);
        }
        if cfg.reference {
            self.observe()?;
        }
        if cfg.reopen_always || cfg.reopen_op {
            self.reopen()?;
            self.observe()?;
        }
        if cfg.reopen_always || cfg.reopen_op {
            if let (Some((p, _)), false) = (&self.shadow, cfg.space) {
                let (got, twin) = (len(&self.path), len(p));
                ensure!(got <= twin, "the file takes {} bytes, that of a map never closed takes {}", got, twin);
                let mut g = H::new();
                let bytes = std::fs::read(p).unwrap_or_default();
                if canon::hash::<T, U>(&bytes, &mut g).is_none() {
                    g = H::new();
                    g.bytes(&bytes);
                }
                let g = g.fin();
                h.u(g as u64);
                h.u((g >> 64) as u64);
            }
        }
        if cfg.space {
            if let Some((p, _)) = &self.shadow {
                let (got, fresh) = (len(&self.path), len(p));
                h.u(self.base);
                h.u(fresh);
                ensure!(
                    got <= self.base.max(fresh),
                    "the file takes {} bytes; it took {} when the map was last empty, and a fresh map takes {} for the same operations since",
                    got, self.base, fresh
                );
            }
        }
        if cfg.cost {
            let (l, i) = cfg.degrees.expect("degrees");
            let n = self.model.len();
            // half-full nodes: at most n / ceil(l/2) leaves, and ceil(i/2) children per inner node
            let mut leaves = (n / ((l + 1) / 2)).max(1);
            let mut height = 1u64;
            let b = ((i + 1) / 2).max(2);
            while leaves > 1 {
                leaves /= b;
                height += 1;
            }
            let m = self.map.as_mut().unwrap();
            for k in 0..cfg.keys {
                READS.with(|r| r.set(0));
                e("get", m.get(&T::item(k)))?;
                let got = READS.with(|r| r.get());
                let most = 2 * height + 2;
                ensure!(got <= most, "a lookup among {} keys reads {} pages, more than {}", n, got, most);
            }
        }
        Ok(h.fin())
    }
}

/// In every state reached, every operation is executed once for each file system call it makes,
/// with that call failing, alone or together with all later ones.
pub struct BpFaultScn<T, U>(pub BpScn<T, U>);
impl<T: Item, U: Item> Scenario for BpFaultScn<T, U> {
    fn name(&self) -> String {
        self.0.name()
    }
    fn op_name(&self, op: u16) -> String {
        self.0.op_name(op)
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        let path = crate::scratch::path("bf");
        let map = create::<T, U>(&path, &self.0.cfg).expect("creating the map");
        Box::new(BpFaultInst(BpInst { scn: &self.0, path, map: Some(map), model: BTreeMap::new(), shadow: None, base: 0, peak: 0 }))
    }
}
struct BpFaultInst<'a, T: Item, U: Item>(BpInst<'a, T, U>);

#[derive(Clone, Copy, Debug, PartialEq)]
enum FOp {
    Insert(usize, usize),
    Remove(usize),
    Get(usize),
    Contains(usize),
    Min,
    Max,
    Iterate,
    Clear,
    Open,
    New,
}

impl<'a, T: Item, U: Item> BpInst<'a, T, U> {
    /// A map of its own in the same state.
    fn copy(&self, bytes: &[u8]) -> R<BpInst<'a, T, U>> {
        let path = crate::scratch::path("bc");
        std::fs::write(&path, bytes).map_err(|e| format!("scratch: {}", e))?;
        let map = e("open", BpMap::open(&path))?;
        Ok(BpInst { scn: self.scn, path, map: Some(map), model: self.model.clone(), shadow: None, base: 0, peak: 0 })
    }
    /// Does the operation; an error is passed on (`Ok(false)`), a wrong answer is a violation. The
    /// model follows if it succeeds.
    fn attempt(&mut self, op: FOp) -> R<bool> {
        let model = &mut self.model;
        macro_rules! got {
            ($r:expr) => {
                match $r {
                    Ok(x) => x,
                    Err(_) => return Ok(false),
                }
            };
        }
        if op == FOp::Open {
            self.map = None;
            self.map = Some(got!(BpMap::open(&self.path)));
            return Ok(true);
        }
        if op == FOp::New {
            let p = crate::scratch::path("bn");
            let r = create::<T, U>(&p, &self.scn.cfg);
            let r = match r {
                Ok(mut m) => crate::fsx::quiet(|| {
                    let mut fresh = BpInst { scn: self.scn, path: p.clone(), map: None, model: BTreeMap::new(), shadow: None, base: 0, peak: 0 };
                    ensure!(m.is_empty(), "a new map is not empty");
                    e("insert", m.insert(T::item(0), U::item(val(0, 0))))?;
                    fresh.model.insert(0, 0);
                    fresh.map = Some(m);
                    fresh.observe()?;
                    fresh.reopen()?;
                    fresh.observe()?;
                    Ok(true)
                }),
                Err(_) => Ok(false),
            };
            crate::fsx::quiet(|| std::fs::remove_file(&p).ok());
            return r;
        }
        let m = self.map.as_mut().unwrap();
        let item = |k: usize, v: usize| (T::item(k), U::item(val(k, v)));
        match op {
            FOp::Insert(k, v) => {
                let got = got!(m.insert(T::item(k), U::item(val(k, v))));
                let want = model.insert(k, v).map(|w| item(k, w));
                ensure!(got == want, "insert returned {:?} instead of {:?}", got, want);
            }
            FOp::Remove(k) => {
                let got = got!(m.remove(&T::item(k)));
                let want = model.remove(&k).map(|w| item(k, w));
                ensure!(got == want, "remove returned {:?} instead of {:?}", got, want);
            }
            FOp::Get(k) => {
                let got = got!(m.get(&T::item(k)));
                let want = model.get(&k).map(|w| U::item(val(k, *w)));
                ensure!(got == want, "get returned {:?} instead of {:?}", got, want);
            }
            FOp::Contains(k) => {
                let got = got!(m.contains_key(&T::item(k)));
                ensure!(got == model.contains_key(&k), "contains_key returned {:?}", got);
            }
            FOp::Min => {
                let got = got!(m.min());
                let want = model.keys().next().map(|k| T::item(*k));
                ensure!(got == want, "min returned {:?} instead of {:?}", got, want);
            }
            FOp::Max => {
                let got = got!(m.max());
                let want = model.keys().next_back().map(|k| T::item(*k));
                ensure!(got == want, "max returned {:?} instead of {:?}", got, want);
            }
            FOp::Iterate => {
                let mut it = got!(m.iter_mut());
                for (k, v) in model.iter() {
                    match it.next() {
                        None => return Err("iter_mut() ended early".into()),
                        Some(g) => {
                            let g = got!(g);
                            ensure!(g == item(*k, *v), "iter_mut() yields {:?} instead of {:?}", g, item(*k, *v));
                        }
                    }
                }
                if let Some(g) = it.next() {
                    got!(g);
                    return Err("iter_mut() yields too many items".into());
                }
            }
            FOp::Clear => {
                got!(m.clear());
                model.clear();
            }
            FOp::Open | FOp::New => unreachable!(),
        }
        Ok(true)
    }
}

impl<'a, T: Item, U: Item> Inst for BpFaultInst<'a, T, U> {
    fn enabled(&self) -> Vec<u16> {
        self.0.enabled()
    }
    fn step(&mut self, op: u16, last: bool) -> R<()> {
        self.0.step(op, last)
    }
    fn finish(self: Box<Self>) -> R<u128> {
        let i = self.0;
        let bytes = std::fs::read(&i.path).unwrap_or_default();
        let mut h = H::new();
        if canon::hash::<T, U>(&bytes, &mut h).is_none() {
            h = H::new();
            h.bytes(&bytes);
        }
        let mut ops = vec![FOp::Min, FOp::Max, FOp::Iterate, FOp::Clear, FOp::Open];
        if i.model.is_empty() {
            ops.push(FOp::New);
        }
        for k in 0..i.scn.cfg.keys {
            ops.extend([FOp::Insert(k, 1), FOp::Remove(k), FOp::Get(k), FOp::Contains(k)]);
        }
        let mut tried = 0;
        for op in ops {
            let watch = crate::fsx::Watch::new(&i.path);
            let mut c = i.copy(&bytes)?;
            watch.fail(None, false, true);
            watch.enter();
            let r = c.attempt(op);
            let calls = watch.calls();
            crate::fsx::Watch::leave();
            ensure!(r?, "{:?} fails without any failure of the file system", op);
            let most = len(&c.path);
            for g in [crate::fsx::Gentle::Parts, crate::fsx::Gentle::Interruptions] {
                let what = || format!("{:?} with {}", op, if g == crate::fsx::Gentle::Parts { "parts transferred" } else { "interrupted calls" });
                let mut c = i.copy(&bytes)?;
                watch.gently(Some(g));
                watch.enter();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.attempt(op)));
                watch.gently(None);
                crate::fsx::Watch::leave();
                ensure!(r.map_err(|_| format!("{}: it panicked", what()))?.map_err(|m| format!("{}: {}", what(), m))?, "{}: it fails", what());
                c.observe().map_err(|m| format!("{}: {}", what(), m))?;
                c.reopen()?;
                c.observe().map_err(|m| format!("{}, opened again: {}", what(), m))?;
                ensure!(len(&c.path) <= most, "{}: it leaves a file of {} bytes instead of {}", what(), len(&c.path), most);
            }
            for n in 1..=calls {
                for rest in [false, true] {
                    let mut c = i.copy(&bytes)?;
                    watch.fail(Some(n), rest, true);
                    watch.enter();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.attempt(op)));
                    let failed = watch.failed();
                    watch.fail(None, false, false);
                    crate::fsx::Watch::leave();
                    if !failed {
                        continue;
                    }
                    tried += 1;
                    let what = || format!("{:?} with file system call {} of {}{} failing", op, n, calls, if rest { " and those after it" } else { "" });
                    let done = match r {
                        Ok(r) => r.map_err(|m| format!("{}: {}", what(), m))?,
                        Err(_) => return Err(format!("{}: it panicked", what())),
                    };
                    if done {
                        c.observe().map_err(|m| format!("{} reported success: {}", what(), m))?;
                        c.reopen()?;
                        c.observe().map_err(|m| format!("{} reported success; opened again: {}", what(), m))?;
                    } else if op != FOp::New && std::fs::read(&c.path).unwrap_or_default() == bytes {
                        if c.map.is_none() {
                            c.reopen()?;
                        }
                        let name = || format!("{} failed before it changed the file", what());
                        c.observe().map_err(|m| format!("{}, but the map is changed: {}", name(), m))?;
                        let again = c.attempt(op).map_err(|m| format!("{}, tried again: {}", name(), m))?;
                        ensure!(again, "{}: it fails once more without any failure of the file system", name());
                        c.observe().map_err(|m| format!("{}, tried again with success: {}", name(), m))?;
                        let got = len(&c.path);
                        ensure!(got <= most, "{}, and tried again it leaves a file of {} bytes instead of {}", name(), got, most);
                        c.reopen()?;
                        c.observe().map_err(|m| format!("{}, tried again and opened again: {}", name(), m))?;
                    }
                }
            }
        }
        crate::engine::count("failed_calls", tried);
        Ok(h.fin())
    }
}
