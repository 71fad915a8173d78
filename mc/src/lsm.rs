//! The log-structured merge map with both compaction strategies against a reference.
use crate::bp::Item;
use crate::engine::{Inst, Scenario, R};
use crate::fsx::{self, Tree, Watch};
use crate::maps::ensure;
use crate::sched::Sched;
use crate::util::H;
use extended_collections::lsm_tree::compaction::{CompactionIter, CompactionStrategy, LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::{self, LsmMap};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::Hash;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub trait LItem: Item + Hash + Send + Sync {}
impl<T: Item + Hash + Send + Sync> LItem for T {}

#[derive(Clone, Copy, Debug)]
pub enum Par {
    /// In-memory size, table count, minimum table size, bucket bounds.
    Tiered(u64, usize, u64, f64, f64),
    /// In-memory size, table count, table size, tables in the first level, growth.
    Leveled(u64, usize, u64, usize, u64),
}
impl Par {
    fn mem(&self) -> u64 {
        match self {
            Par::Tiered(m, ..) | Par::Leveled(m, ..) => *m,
        }
    }
}

pub trait Strat<T, U>: CompactionStrategy<T, U> + Sized + 'static {
    const NAME: &'static str;
    fn create(path: &Path, p: Par) -> lsm_tree::Result<Self>;
    fn open_at(path: &Path) -> lsm_tree::Result<Self>;
}
impl<T: LItem, U: LItem> Strat<T, U> for SizeTieredStrategy<T, U> {
    const NAME: &'static str = "size-tiered";
    fn create(path: &Path, p: Par) -> lsm_tree::Result<Self> {
        match p {
            Par::Tiered(a, b, c, d, e) => SizeTieredStrategy::new(path, a, b, c, d, e),
            _ => unreachable!(),
        }
    }
    fn open_at(path: &Path) -> lsm_tree::Result<Self> {
        SizeTieredStrategy::open(path)
    }
}
impl<T: LItem, U: LItem> Strat<T, U> for LeveledStrategy<T, U> {
    const NAME: &'static str = "leveled";
    fn create(path: &Path, p: Par) -> lsm_tree::Result<Self> {
        match p {
            Par::Leveled(a, b, c, d, e) => LeveledStrategy::new(path, a, b, c, d, e),
            _ => unreachable!(),
        }
    }
    fn open_at(path: &Path) -> lsm_tree::Result<Self> {
        LeveledStrategy::open(path)
    }
}

#[derive(Clone, Copy)]
pub struct LsmCfg {
    pub keys: usize,
    pub par: Par,
    /// Offer running background work to its end as an operation; otherwise it runs when waited for.
    pub bg: bool,
    pub del: bool,
    pub flush: bool,
    pub reopen: bool,
    /// Close without flushing, then open.
    pub kill: bool,
    pub clear: bool,
    pub look: bool,
    pub minmax: bool,
    pub scan: bool,
    pub iters: usize,
    /// Take a picture of the directory at each call of the last operation and open each.
    pub crash: bool,
    /// Fail each call of the last operation in turn.
    pub fault: bool,
    /// Check that nothing superfluous is left in the directory.
    pub space: bool,
    /// Count what lookups read.
    pub cost: bool,
    /// Check sizes and ranges of tables.
    pub shape: bool,
    /// Check that tables are only merged when there are too many of them.
    pub lazy: bool,
    /// Offer several writes followed by a flush as one operation, instead of single writes.
    pub batch: bool,
    /// If any: only these batches.
    pub only: &'static [u16],
    /// Writes offered while background work is pending.
    pub lag: usize,
    /// Enumerate all schedules with at most this many preemptions.
    pub explore: Option<u32>,
}
pub const LCFG: LsmCfg = LsmCfg {
    keys: 2,
    par: Par::Tiered(0, 1, 1 << 40, 0.5, 1.5),
    bg: true,
    del: true,
    flush: true,
    reopen: false,
    kill: false,
    clear: false,
    look: false,
    minmax: false,
    scan: false,
    iters: 0,
    crash: false,
    fault: false,
    space: false,
    cost: false,
    shape: false,
    lazy: false,
    batch: false,
    only: &[],
    lag: 1,
    explore: None,
};

pub struct LsmScn<T, U, C> {
    pub tag: &'static str,
    pub cfg: LsmCfg,
    /// Pictures already examined.
    seen: Mutex<HashSet<u128>>,
    p: PhantomData<fn() -> (T, U, C)>,
}

pub const FLUSH: u16 = 0;
pub const REOPEN: u16 = 1;
pub const KILL: u16 = 2;
pub const CLEAR: u16 = 3;
pub const BG: u16 = 4;
pub const LOOK: u16 = 5;
pub const MINMAX: u16 = 6;
pub const SCAN: u16 = 7;
pub const IOPEN: u16 = 8;
pub const INEXT: u16 = 9;
pub const IDROP: u16 = 10;
pub const BATCH: u16 = 16;
const VERS: usize = 3;

impl<T: LItem, U: LItem, C: Strat<T, U>> LsmScn<T, U, C> {
    pub fn new(tag: &'static str, cfg: LsmCfg) -> Self {
        LsmScn { tag, cfg, seen: Mutex::new(HashSet::new()), p: PhantomData }
    }
    pub fn put(&self, k: usize) -> u16 {
        k as u16
    }
    pub fn del(&self, k: usize) -> u16 {
        (self.cfg.keys + k) as u16
    }
    /// The writes of a batch: key and whether it is inserted.
    fn batch(&self, mut b: u16) -> Vec<(usize, bool)> {
        let mut v = vec![];
        for k in 0..self.cfg.keys {
            match b % 3 {
                1 => v.push((k, true)),
                2 => v.push((k, false)),
                _ => {}
            }
            b /= 3;
        }
        v
    }
    pub fn op(&self, o: u16) -> u16 {
        2 * self.cfg.keys as u16 + o
    }
}

impl<T: LItem, U: LItem, C: Strat<T, U>> LsmScn<T, U, C> {
    /// Fill, replace and drain in fixed orders, with background work, flushing, closing and opening
    /// at fixed places, different for each pair of orders; a trace for every `every`-th prefix.
    /// With `iters`, iterators are made, advanced and dropped on the way.
    pub fn long(&self, n: usize, pairs: &[(usize, usize)], every: usize, iters: bool) -> Vec<Vec<u16>> {
        let mut out = vec![];
        let o = crate::trees::orders(n);
        let c = &self.cfg;
        for (j, &(f, d)) in pairs.iter().enumerate() {
            let mut t: Vec<u16> = vec![];
            let mut open = false;
            let mut i = 0usize;
            let writes = o[f].iter().map(|k| self.put(*k)).chain(o[d].iter().filter(|k| *k % 3 != 1).map(|k| self.put(*k))).chain(o[d].iter().map(|k| self.del(*k))).chain(o[f].iter().step_by(2).map(|k| self.put(*k)));
            for w in writes {
                t.push(w);
                i += 1;
                if i % (3 + j % 4) == 0 {
                    t.push(self.op(BG));
                }
                if i % (7 + j % 5) == 0 && j % 3 != 2 {
                    t.push(self.op(FLUSH));
                }
                if i % 11 == 5 {
                    t.push(self.op(if i % 2 == 0 { LOOK } else { MINMAX }));
                }
                if iters {
                    if i % 13 == 6 {
                        t.push(self.op(if open { IDROP } else { IOPEN }));
                        open = !open;
                    }
                    if open {
                        t.push(self.op(INEXT));
                        t.push(self.op(INEXT));
                    }
                }
                if !open && i % (n - 3) == 0 {
                    if c.reopen {
                        t.push(self.op(REOPEN));
                    } else if c.kill {
                        t.push(self.op(KILL));
                    }
                }
                if i % every == 0 {
                    out.push(t.clone());
                }
            }
            if c.clear && !open {
                t.push(self.op(CLEAR));
                t.push(self.put(n / 2));
                t.push(self.op(BG));
            }
            out.push(t);
        }
        out
    }
}

/// The batches that insert, or remove, all keys between two.
pub fn runs(keys: usize) -> &'static [u16] {
    let mut v = vec![];
    for a in 0..keys {
        for b in a..keys {
            for p in [1, 2] {
                v.push((a..=b).map(|k| p * 3u16.pow(k as u32)).sum());
            }
        }
    }
    Box::leak(v.into_boxed_slice())
}

impl<T: LItem, U: LItem, C: Strat<T, U>> Scenario for LsmScn<T, U, C> {
    fn name(&self) -> String {
        format!("LsmMap<{}, {}>, {} ({}; {:?})", T::NAME, U::NAME, C::NAME, self.tag, self.cfg.par)
    }
    fn op_name(&self, op: u16) -> String {
        let n = self.cfg.keys as u16;
        if op < n {
            return format!("insert {}", op);
        }
        if op < 2 * n {
            return format!("remove {}", op - n);
        }
        match op - 2 * n {
            FLUSH => "flush",
            REOPEN => "flush, close and open",
            KILL => "close without flushing and open",
            CLEAR => "clear",
            BG => "let background work finish",
            LOOK => "get all",
            MINMAX => "min and max",
            SCAN => "iterate",
            IOPEN => "make an iterator",
            INEXT => "advance the iterator",
            IDROP => "drop the iterator",
            o if o > BATCH => return self.batch(o - BATCH).iter().map(|(k, p)| format!("{} {}, ", if *p { "insert" } else { "remove" }, k)).collect::<String>() + "flush",
            _ => "?",
        }
        .into()
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        match self.cfg.explore {
            None if self.cfg.fault => Box::new(FaultInst { scn: self, ops: vec![], calls: 0, main: LsmInst::new(self, None).unwrap_or_else(|e| panic!("{}", e)) }),
            None => Box::new(LsmInst::new(self, None).unwrap_or_else(|e| panic!("{}", e))),
            Some(_) => Box::new(ProgInst { scn: self, ops: vec![], model: BTreeMap::new(), iters: 0 }),
        }
    }
}

static N: AtomicU64 = AtomicU64::new(0);
/// Paths of the same length throughout.
fn fresh_path() -> PathBuf {
    let n = N.fetch_add(1, Ordering::Relaxed);
    let mut p = crate::scratch::path("");
    p.set_file_name(format!("lsm{:08}-{:010}", std::process::id(), n));
    p
}

type Model = BTreeMap<usize, usize>;

/// What is done to the map, with the reference.
pub struct LsmInst<'a, T: LItem, U: LItem, C: Strat<T, U>> {
    scn: &'a LsmScn<T, U, C>,
    path: PathBuf,
    map: Option<LsmMap<T, U, C>>,
    model: Model,
    ver: Vec<usize>,
    /// Writes since the last point at which everything was on disk, and the contents before each.
    recent: Vec<(usize, Option<usize>)>,
    states: Vec<Model>,
    /// Writes not known to have left the memory.
    mem: Vec<(usize, Option<usize>)>,
    iters: Vec<(Box<CompactionIter<T, U>>, VecDeque<(usize, usize)>)>,
    sched: Arc<Sched>,
    watch: Arc<Watch>,
    /// The tables there were when a thread was last started, until it is waited for.
    spawn: Option<HashSet<String>>,
    lag: usize,
    killed: bool,
    pics: Vec<Tree>,
    old_states: Vec<Model>,
    /// What the operation under way would make of the contents.
    pending: Option<Model>,
    /// Keys that may be written to a table in the operation under way.
    fresh: Vec<usize>,
    /// They are all inserted.
    inserted: bool,
}

fn e<X>(what: &str, r: lsm_tree::Result<X>) -> R<X> {
    r.map_err(|e| format!("{}: error: {}", what, e))
}
fn val(k: usize, v: usize) -> usize {
    k * VERS + v
}

/// A table on disk.
struct Tab<T> {
    /// 0 for those not in a level.
    level: usize,
    key: Option<T>,
    name: String,
    /// Its size as its summary has it.
    size: u64,
    /// Keys, and sizes of entries.
    entries: Vec<(T, u64)>,
}

/// The sizes of tables written from memory, by their keys.
static FLUSHED: Mutex<BTreeMap<(&'static str, Vec<usize>), u64>> = Mutex::new(BTreeMap::new());
fn flushed<T: LItem, U: LItem, C: Strat<T, U>>(par: Par, keys: &[usize]) -> R<u64> {
    let id = (std::any::type_name::<(T, U, C)>(), keys.to_vec());
    if let Some(n) = FLUSHED.lock().unwrap().get(&id) {
        return Ok(*n);
    }
    let path = fresh_path();
    let par = match par {
        Par::Tiered(_, _, b, c, d) => Par::Tiered(u64::MAX, usize::MAX / 2, b, c, d),
        Par::Leveled(_, _, b, c, d) => Par::Leveled(u64::MAX, usize::MAX / 2, b, c, d),
    };
    let r = fsx::quiet(|| -> R<u64> {
        let mut m = LsmMap::new(e("create", C::create(&path, par))?);
        for k in keys {
            e("insert", m.insert(T::item(*k), U::item(val(*k, 0))))?;
        }
        e("flush", m.flush())?;
        drop(m);
        let t = fsx::take(&path);
        let s = t.iter().find(|x| x.0.ends_with("/summary.dat")).and_then(|x| x.1.clone());
        s.as_deref().and_then(summary_size).ok_or("a store that was flushed has no table".into())
    });
    fsx::quiet(|| std::fs::remove_dir_all(&path).ok());
    let n = r?;
    FLUSHED.lock().unwrap().insert(id, n);
    Ok(n)
}
fn summary_size(b: &[u8]) -> Option<u64> {
    Some(bincode::deserialize::<(u64, u64, u64)>(b.get(..24)?).ok()?.2)
}

/// Checks the whole contents of a map against a model.
fn contents<T: LItem, U: LItem, C: Strat<T, U>>(m: &mut LsmMap<T, U, C>) -> R<Vec<(T, U)>> {
    let mut out = vec![];
    for x in e("iter", m.iter())? {
        out.push(e("iterator", x)?);
    }
    Ok(out)
}
fn expected<T: LItem, U: LItem>(m: &Model) -> Vec<(T, U)> {
    m.iter().map(|(k, v)| (T::item(*k), U::item(val(*k, *v)))).collect()
}

impl<'a, T: LItem, U: LItem, C: Strat<T, U>> LsmInst<'a, T, U, C> {
    pub fn new(scn: &'a LsmScn<T, U, C>, explore: Option<(Vec<u8>, u32)>) -> R<Self> {
        let path = fresh_path();
        let sched = Sched::new(explore);
        let watch = Watch::new(&path);
        sched.enter();
        watch.enter();
        let c = e("creating the store", C::create(&path, scn.cfg.par))?;
        Ok(LsmInst {
            scn,
            map: Some(LsmMap::new(c)),
            path,
            model: Model::new(),
            ver: vec![0; scn.cfg.keys],
            recent: vec![],
            states: vec![Model::new()],
            mem: vec![],
            iters: vec![],
            sched,
            watch,
            spawn: None,
            lag: 0,
            killed: false,
            pics: vec![],
            old_states: vec![],
            pending: None,
            fresh: vec![],
            inserted: false,
        })
    }
    fn m(&mut self) -> &mut LsmMap<T, U, C> {
        self.map.as_mut().expect("map")
    }
    fn durable(&mut self) {
        self.recent.clear();
        self.mem.clear();
        self.states = vec![self.model.clone()];
    }
    /// Size in memory of a run of writes.
    fn usage(&self, w: &[(usize, Option<usize>)]) -> u64 {
        let mut last: BTreeMap<usize, Option<usize>> = BTreeMap::new();
        for (k, v) in w {
            last.insert(*k, *v);
        }
        last.iter()
            .map(|(k, v)| {
                let key = bincode::serialized_size(&T::item(*k)).unwrap();
                let v = match v {
                    Some(v) => bincode::serialized_size(&U::item(val(*k, *v))).unwrap(),
                    None => 0,
                };
                key + 1 + v + 8
            })
            .sum()
    }
    /// Contents that the disk may hold if the process ends now: those after some write such that
    /// the writes after it fit into the memory.
    fn possible(&self) -> Vec<Model> {
        let mut o: Vec<Model> = vec![];
        for j in (0..self.states.len()).rev() {
            if self.usage(&self.recent[j..]) > self.scn.cfg.par.mem() {
                break;
            }
            if !o.contains(&self.states[j]) {
                o.push(self.states[j].clone());
            }
        }
        o
    }
    fn write(&mut self, k: usize, v: Option<usize>) {
        match v {
            Some(v) => self.model.insert(k, v),
            None => self.model.remove(&k),
        };
        self.recent.push((k, v));
        self.mem.push((k, v));
        self.states.push(self.model.clone());
        while self.usage(&self.recent) > self.scn.cfg.par.mem() {
            self.recent.remove(0);
            self.states.remove(0);
        }
    }
    fn look(&mut self) -> R<()> {
        for k in 0..self.scn.cfg.keys {
            let want = self.model.get(&k).map(|v| U::item(val(k, *v)));
            let got = e("get", self.m().get(&T::item(k)))?;
            ensure!(got == want, "get({}) is {:?} instead of {:?}", k, got, want);
            let got = e("contains_key", self.m().contains_key(&T::item(k)))?;
            ensure!(got == want.is_some(), "contains_key({}) is {}", k, got);
        }
        let got = e("len_hint", self.m().len_hint())?;
        let n = self.model.len();
        ensure!(got >= n, "len_hint() is {} with {} entries", got, n);
        Ok(())
    }
    fn minmax(&mut self) -> R<()> {
        let want = self.model.keys().next().map(|k| T::item(*k));
        let got = e("min", self.m().min())?;
        ensure!(got == want, "min() is {:?} instead of {:?}", got, want);
        let want = self.model.keys().next_back().map(|k| T::item(*k));
        let got = e("max", self.m().max())?;
        ensure!(got == want, "max() is {:?} instead of {:?}", got, want);
        Ok(())
    }
    fn scan(&mut self) -> R<()> {
        let want: Vec<(T, U)> = expected(&self.model);
        let got = contents(self.m())?;
        ensure!(got == want, "iteration yields {:?} instead of {:?}", got, want);
        let got = e("len", self.m().len())?;
        ensure!(got == want.len(), "len() is {} instead of {}", got, want.len());
        let got = e("is_empty", self.m().is_empty())?;
        ensure!(got == want.is_empty(), "is_empty() is {} with {} entries", got, want.len());
        Ok(())
    }
    fn open(&mut self) -> R<()> {
        self.map = Some(LsmMap::new(e("open", C::open_at(&self.path))?));
        Ok(())
    }
    fn do_op(&mut self, op: u16) -> R<()> {
        let n = self.scn.cfg.keys as u16;
        if op < n {
            let k = op as usize;
            self.ver[k] = (self.ver[k] + 1) % VERS;
            let v = self.ver[k];
            let mut p = self.model.clone();
            p.insert(k, v);
            self.pending = Some(p);
            e("insert", self.m().insert(T::item(k), U::item(val(k, v))))?;
            self.write(k, Some(v));
            return Ok(());
        }
        if op < 2 * n {
            let k = (op - n) as usize;
            let mut p = self.model.clone();
            p.remove(&k);
            self.pending = Some(p);
            e("remove", self.m().remove(T::item(k)))?;
            self.write(k, None);
            return Ok(());
        }
        match op - 2 * n {
            FLUSH => {
                e("flush", self.m().flush())?;
                self.durable();
            }
            REOPEN => {
                e("flush", self.m().flush())?;
                self.durable();
                self.map = None;
                self.open()?;
            }
            KILL => {
                self.map = None;
                self.killed = true;
                self.sched.run_others();
                self.open()?;
                let poss = self.possible();
                let got = contents(self.m())?;
                match poss.iter().find(|p| expected::<T, U>(p) == got) {
                    Some(p) => self.model = p.clone(),
                    None => {
                        let p: Vec<_> = poss.iter().map(|p| expected::<T, U>(p)).collect();
                        return Err(format!("after closing without flushing the map holds {:?}, expected one of {:?}", got, p));
                    }
                }
                self.durable();
            }
            CLEAR => {
                self.pending = Some(Model::new());
                e("clear", self.m().clear())?;
                self.model.clear();
                self.durable();
            }
            BG => self.sched.run_others(),
            LOOK => self.look()?,
            MINMAX => self.minmax()?,
            SCAN => {
                self.scan()?;
                self.durable();
            }
            IOPEN => {
                let it = e("iter", self.m().iter())?;
                self.durable();
                let want = self.model.iter().map(|(k, v)| (*k, *v)).collect();
                self.iters.push((it, want));
            }
            INEXT => {
                if let Some((it, want)) = self.iters.first_mut() {
                    let want = want.pop_front().map(|(k, v)| (T::item(k), U::item(val(k, v))));
                    let got = match it.next() {
                        None => None,
                        Some(r) => Some(e("iterator", r)?),
                    };
                    ensure!(got == want, "the iterator yields {:?} instead of {:?}", got, want);
                }
            }
            IDROP => {
                if !self.iters.is_empty() {
                    self.iters.remove(0);
                }
            }
            o => {
                for (k, p) in self.scn.batch(o - BATCH) {
                    self.do_op(if p { self.scn.put(k) } else { self.scn.del(k) })?;
                }
                self.do_op(n + n + FLUSH)?;
            }
        }
        Ok(())
    }
    fn sane(&self) -> R<()> {
        match self.sched.fault() {
            Some(f) => Err(f),
            None => Ok(()),
        }
    }
    /// The state on disk up to names, the size of the gaps between logical times and the
    /// rotation of values. Only used to tell states apart: what cannot be read counts as it is.
    fn disk(&self, h: &mut H, t: &Tree) {
        let mut times: Vec<u64> = vec![];
        let mut tabs: BTreeMap<String, Vec<(usize, usize, u64)>> = BTreeMap::new();
        let mut odd: BTreeMap<String, &[u8]> = BTreeMap::new();
        for (n, c) in t {
            if let (Some(b), Some(d)) = (c, n.strip_suffix("/data.dat")) {
                let mut v = vec![];
                let mut i = 0;
                while i + 8 <= b.len() {
                    let l = u64::from_be_bytes(b[i..i + 8].try_into().unwrap()) as usize;
                    if l > b.len() || i + 8 + l > b.len() {
                        odd.insert(d.into(), b);
                        break;
                    }
                    match self.entry(&b[i + 8..i + 8 + l]) {
                        Some(x) => {
                            times.push(x.2);
                            v.push(x);
                        }
                        None => {
                            odd.insert(d.into(), b);
                        }
                    }
                    i += 8 + l;
                }
                tabs.insert(d.into(), v);
            }
        }
        times.sort();
        times.dedup();
        // what refers to what
        let mut meta: Vec<u8> = vec![];
        if let Some(Some(b)) = t.get("metadata.dat") {
            // bytes beyond what is read are left-overs
            let used = match self.scn.cfg.par {
                Par::Tiered(..) => bincode::deserialize::<(u64, u64, u64, f64, f64, Vec<PathBuf>)>(b).ok().and_then(|m| bincode::serialized_size(&m).ok()),
                Par::Leveled(..) => bincode::deserialize::<(u64, u64, u64, u64, u64, Vec<PathBuf>, Vec<BTreeMap<T, PathBuf>>)>(b).ok().and_then(|m| bincode::serialized_size(&m).ok()),
            };
            let b = &b[..used.map_or(b.len(), |u| (u as usize).min(b.len()))];
            meta = fsx::replace(b, self.path.to_string_lossy().as_bytes(), b"@");
        }
        let has = |n: &str| meta.windows(n.len()).any(|w| w == n.as_bytes());
        let mut names: Vec<(u128, String)> = vec![];
        for (d, v) in &tabs {
            let old = self.spawn.as_ref().map_or(2, |s| s.contains(d) as u64);
            if old != 0 && !has(d) {
                continue;
            }
            let mut g = H::new();
            g.u(old);
            for (k, u, t) in v {
                g.u(*k as u64);
                g.u(*u as u64);
                g.u(times.binary_search(t).unwrap() as u64);
            }
            if let Some(b) = odd.get(d) {
                g.bytes(b);
            }
            for (m, b) in t.range(format!("{}/", d)..format!("{}0", d)) {
                g.bytes(m[d.len()..].as_bytes());
                g.u(b.as_ref().map_or(0, |b| b.len()) as u64);
            }
            names.push((g.fin(), d.clone()));
        }
        names.sort();
        for x in &names {
            h.u(x.0 as u64);
            h.u((x.0 >> 64) as u64);
        }
        for (i, d) in names.iter().enumerate() {
            meta = fsx::replace(&meta, d.1.as_bytes(), format!("#{}", i).as_bytes());
        }
        h.bytes(&meta);
        for (n, c) in t {
            if !n.contains('/') && n != "metadata.dat" && n != "logical_time.dat" && c.is_some() {
                h.bytes(n.as_bytes());
                h.bytes(c.as_ref().unwrap());
            }
        }
    }
    /// Key, how long ago its value was the newest (or none), logical time.
    fn entry(&self, b: &[u8]) -> Option<(usize, usize, u64)> {
        let (k, (u, t)) = bincode::deserialize::<(T, (Option<U>, u64))>(b).ok()?;
        let k = (0..self.scn.cfg.keys).find(|i| T::item(*i) == k)?;
        let v = match u {
            None => VERS,
            Some(u) => self.rel(k, (0..VERS).find(|v| U::item(val(k, *v)) == u)?),
        };
        Some((k, v, t))
    }
    fn rel(&self, k: usize, v: usize) -> usize {
        (self.ver[k] + VERS - v) % VERS
    }
    fn hash(&self) -> u128 {
        let mut h = H::new();
        let t = fsx::quiet(|| fsx::take(&self.path));
        self.disk(&mut h, &t);
        for (k, v) in &self.model {
            h.u(*k as u64);
            h.u(self.rel(*k, *v) as u64);
        }
        for w in [&self.mem, &self.recent] {
            h.u(1 << 41);
            for (k, v) in w.iter() {
                h.u(*k as u64);
                h.u(v.map_or(99, |v| self.rel(*k, v) as u64));
            }
        }
        for s in &self.states {
            h.u(1 << 42);
            for (k, v) in s {
                h.u((*k * 16 + self.rel(*k, *v)) as u64);
            }
        }
        for (_, w) in &self.iters {
            h.u(1 << 43);
            for (k, v) in w {
                h.u((*k * 16 + self.rel(*k, *v)) as u64);
            }
        }
        h.u((self.killed && self.scn.cfg.space) as u64);
        h.u(self.sched.pending() as u64);
        h.u(self.lag as u64);
        h.fin()
    }
    /// Opens each picture in place of the store.
    fn crashes(&mut self) -> R<()> {
        let pics = std::mem::take(&mut self.pics);
        if pics.is_empty() {
            return Ok(());
        }
        crate::engine::count("crash_points", pics.len() as u64);
        let mut poss: Vec<Vec<(T, U)>> = vec![];
        for p in self.old_states.iter().chain(self.possible().iter()) {
            let x = expected(p);
            if !poss.contains(&x) {
                poss.push(x);
            }
        }
        let mut aside = self.path.clone();
        aside.set_file_name(format!("aside-{}", self.path.file_name().unwrap().to_string_lossy()));
        fsx::quiet(|| std::fs::rename(&self.path, &aside)).expect("scratch");
        let n = pics.len();
        let mut r = Ok(());
        for (i, t) in pics.iter().enumerate() {
            let mut h = H::new();
            let k = fsx::hash(&self.path, t);
            h.u(k as u64);
            h.u((k >> 64) as u64);
            for p in &poss {
                h.bytes(format!("{:?}", p).as_bytes());
            }
            if !self.scn.seen.lock().unwrap().insert(h.fin()) {
                continue;
            }
            crate::engine::count("crash_images_opened", 1);
            fsx::quiet(|| fsx::put(&self.path, t));
            let other = Sched::new(None);
            other.enter();
            r = self.crash(&poss).and_then(|_| other.fault().map_or(Ok(()), Err)).map_err(|m| format!("killed before file system call {} of {}: {}", i + 1, n, m));
            other.drain();
            self.sched.enter();
            fsx::quiet(|| std::fs::remove_dir_all(&self.path)).expect("scratch");
            if r.is_err() {
                break;
            }
        }
        fsx::quiet(|| std::fs::rename(&aside, &self.path)).expect("scratch");
        r
    }
    fn crash(&self, poss: &[Vec<(T, U)>]) -> R<()> {
        let mut m: LsmMap<T, U, C> = LsmMap::new(e("open", C::open_at(&self.path))?);
        let mut got = contents(&mut m)?;
        ensure!(poss.contains(&got), "the store holds {:?}, expected one of {:?}", got, poss);
        for round in 0..2 {
            for k in 0..self.scn.cfg.keys {
                let here = got.iter().position(|x| x.0 == T::item(k));
                if round == 0 && k % 2 == 1 {
                    e("remove after the crash", m.remove(T::item(k)))?;
                    if let Some(i) = here {
                        got.remove(i);
                    }
                    continue;
                }
                let v = U::item(val(k, round));
                e("insert after the crash", m.insert(T::item(k), v.clone()))?;
                match here {
                    Some(i) => got[i].1 = v,
                    None => {
                        got.push((T::item(k), v));
                        got.sort();
                    }
                }
            }
            let c = contents(&mut m)?;
            ensure!(c == got, "after the crash and more writes the store holds {:?} instead of {:?}", c, got);
            e("flush after the crash", m.flush())?;
        }
        drop(m);
        let mut m: LsmMap<T, U, C> = LsmMap::new(e("open", C::open_at(&self.path))?);
        let c = contents(&mut m)?;
        ensure!(c == got, "after the crash, more writes and opening again the store holds {:?} instead of {:?}", c, got);
        Ok(())
    }
    fn tables(&self) -> Vec<PathBuf> {
        fsx::quiet(|| {
            std::fs::read_dir(&self.path).map_or(vec![], |d| d.flatten().map(|x| x.path()).filter(|p| p.is_dir()).collect())
        })
    }
    /// Every table in the directory is needed.
    fn space(&mut self) -> R<()> {
        e("flush", self.m().flush())?;
        self.map = None;
        let want: Vec<(T, U)> = expected(&self.model);
        let mut aside = self.path.clone();
        aside.set_file_name(format!("table-{}", self.path.file_name().unwrap().to_string_lossy()));
        for d in self.tables() {
            fsx::quiet(|| std::fs::rename(&d, &aside)).expect("scratch");
            let same = match C::open_at(&self.path) {
                Err(_) => false,
                Ok(c) => {
                    let mut m: LsmMap<T, U, C> = LsmMap::new(c);
                    contents(&mut m).map_or(false, |c| c == want)
                }
            };
            fsx::quiet(|| std::fs::rename(&aside, &d)).expect("scratch");
            ensure!(!same, "after a flush the directory holds {} tables; one of them is not part of the store", self.tables().len());
        }
        self.open()?;
        // some writes more, so that compaction that has become due happens
        self.rewrite(4)?;
        let (n, most) = (self.tables().len(), self.most());
        ensure!(n <= most, "{} tables are kept for {} keys after compaction, more than {}", n, self.scn.cfg.keys, most);
        Ok(())
    }
    /// The tables the metadata on disk refers to, or `None` if it or one of them cannot be read.
    fn layout(&self) -> Option<Vec<Tab<T>>> {
        let t = fsx::quiet(|| fsx::take(&self.path));
        let m = t.get("metadata.dat")?.as_ref()?;
        let mut l: Vec<(usize, Option<T>, PathBuf)> = vec![];
        match self.scn.cfg.par {
            Par::Tiered(..) => {
                let m = bincode::deserialize::<(u64, u64, u64, f64, f64, Vec<PathBuf>)>(m).ok()?;
                l.extend(m.5.into_iter().map(|p| (0, None, p)));
            }
            Par::Leveled(..) => {
                let m = bincode::deserialize::<(u64, u64, u64, u64, u64, Vec<PathBuf>, Vec<BTreeMap<T, PathBuf>>)>(m).ok()?;
                l.extend(m.5.into_iter().map(|p| (0, None, p)));
                for (i, x) in m.6.into_iter().enumerate() {
                    l.extend(x.into_iter().map(|(k, p)| (i + 1, Some(k), p)));
                }
            }
        }
        let mut out = vec![];
        for (level, key, p) in l {
            let name = p.file_name()?.to_string_lossy().into_owned();
            let b = t.get(&format!("{}/data.dat", name))?.as_ref()?;
            let mut entries = vec![];
            let mut i = 0;
            while i + 8 <= b.len() {
                let n = u64::from_be_bytes(b[i..i + 8].try_into().unwrap()) as usize;
                let x = b.get(i + 8..(i + 8).checked_add(n)?)?;
                entries.push((bincode::deserialize::<(T, (Option<U>, u64))>(x).ok()?.0, n as u64 + 8));
                i += 8 + n;
            }
            if entries.is_empty() {
                return None;
            }
            let size = summary_size(t.get(&format!("{}/summary.dat", name))?.as_ref()?)?;
            out.push(Tab { level, key, name, size, entries });
        }
        Some(out)
    }
    /// What is opened, by table, and read by a lookup.
    fn lookup(&mut self, k: usize) -> R<(HashSet<String>, u64)> {
        let want = self.model.get(&k).map(|v| U::item(val(k, *v)));
        self.watch.log(true);
        let r = self.m().get(&T::item(k));
        let (opened, bytes) = self.watch.log(false);
        let got = e("get", r)?;
        ensure!(got == want, "get({}) is {:?} instead of {:?}", k, got, want);
        let mut s = HashSet::new();
        for p in &opened {
            if let Ok(p) = Path::new(p).strip_prefix(&self.path) {
                if let (Some(d), true) = (p.parent().and_then(|d| d.to_str()), p.components().count() > 1) {
                    s.insert(d.to_string());
                }
            }
        }
        crate::engine::count("lookups_measured", 1);
        Ok((s, bytes))
    }
    /// Lookups read as little as promised.
    fn cost(&mut self) -> R<()> {
        let mut mem: Vec<usize> = self.mem.iter().map(|w| w.0).collect();
        mem.sort();
        mem.dedup();
        // a compaction that has ended may be noticed by the next lookup
        self.look()?;
        for k in mem {
            let (s, _) = self.lookup(k)?;
            ensure!(s.is_empty(), "get({}) opens {} tables although the entry is in memory", k, s.len());
        }
        e("flush", self.m().flush())?;
        let tabs = match self.layout() {
            Some(t) => t,
            None => {
                crate::engine::count("stores_not_understood", 1);
                return Ok(());
            }
        };
        let all: u64 = tabs.iter().map(|t| t.entries.len() as u64).sum();
        let big = tabs.iter().flat_map(|t| t.entries.iter().map(|x| x.1)).max().unwrap_or(0);
        let (mut absent, mut needless) = (0u64, 0u64);
        for k in 0..self.scn.cfg.keys {
            let (s, n) = self.lookup(k)?;
            let t = T::item(k);
            let cover: Vec<&Tab<T>> = tabs.iter().filter(|b| b.entries[0].0 <= t && t <= b.entries[b.entries.len() - 1].0).collect();
            if let Some(x) = s.iter().find(|x| cover.iter().all(|b| &b.name != *x)) {
                let b = tabs.iter().find(|b| &b.name == x).map_or("?".into(), |b| format!("{:?} to {:?}", b.entries[0].0, b.entries[b.entries.len() - 1].0));
                return Err(format!("get({}) opens a table with keys {}, which cannot hold it", k, b));
            }
            // blocks of about the square root of the entries; some reading ahead is all right
            let most = cover.len() as u64 * (16384 + 4 * (1.0 + (2.0 * all as f64).sqrt()) as u64 * big);
            ensure!(n <= most, "get({}) reads {} bytes from {} tables with {} entries of at most {} bytes", k, n, cover.len(), all, big);
            let there = cover.iter().any(|b| b.entries.iter().any(|x| x.0 == t));
            if !there && !cover.is_empty() && cover.len() <= 3 {
                absent += 1;
                needless += !s.is_empty() as u64;
            }
        }
        // expected at most one in seven
        ensure!(absent < 100 || needless * 2 < absent, "{} of {} lookups of keys that no table holds open a table", needless, absent);
        self.sane()
    }
    /// Tables and levels are of the sizes asked for.
    fn shape(&mut self) -> R<()> {
        self.levels(None)?;
        self.rewrite(2)?;
        let c = match self.scn.cfg.par {
            Par::Tiered(..) => return Ok(()),
            Par::Leveled(_, c, ..) => c,
        };
        self.levels(Some(c))?;
        self.map = None;
        self.open()?;
        self.rewrite(1)?;
        self.levels(Some(c))?;
        self.sane()
    }
    /// Of the tables there were before the last operation, those that are gone were too many.
    fn merged(&self, op: u16, spawned: bool, old: &[Tab<T>]) -> R<()> {
        let n = 2 * self.scn.cfg.keys as u16;
        if op == n + CLEAR || op == n + KILL {
            return Ok(());
        }
        let new = match self.layout() {
            Some(l) => l,
            None => return Ok(()),
        };
        let here: HashSet<&str> = new.iter().map(|t| &t.name[..]).collect();
        let gone: Vec<&Tab<T>> = old.iter().filter(|t| !here.contains(&t.name[..])).collect();
        if let (Par::Tiered(_, c, min, low, high), true, false) = (self.scn.cfg.par, self.scn.cfg.batch && self.inserted, self.scn.cfg.bg) {
            // there was one more before compaction
            let mut sizes: Vec<u64> = old.iter().map(|t| t.size).collect();
            sizes.push(flushed::<T, U, C>(self.scn.cfg.par, &self.fresh)?);
            let (a, z) = (*sizes.iter().min().unwrap(), *sizes.iter().max().unwrap());
            let alike = z <= min || a as f64 * high > z as f64 && z as f64 * low < a as f64;
            let small: Vec<&str> = old.iter().filter(|t| t.size <= min || alike).map(|t| &t.name[..]).collect();
            if small.len() + (sizes[sizes.len() - 1] <= min || alike) as usize > c {
                crate::engine::count("compactions_due", 1);
                if let Some(x) = small.iter().find(|x| here.contains(**x)) {
                    return Err(format!("table {} of tables of sizes {:?} is not merged, although more than {} belong to the same bucket", x, sizes, c));
                }
            }
            // some that are alike, and much larger than any smaller one
            sizes.sort();
            let n = sizes.len();
            for i in 0..n {
                let g = sizes[i] as f64;
                let most = if i > 0 { (i as f64 * sizes[i - 1] as f64 + g) / (i + 1) as f64 } else { 0. };
                if sizes[i] <= min || i > 0 && g <= high * most * 1.000001 {
                    continue;
                }
                let j = sizes.iter().rposition(|z| (*z as f64) < g * high && g > *z as f64 * low).unwrap_or(i);
                if c > 0 && j >= i && j - i + 1 > c {
                    crate::engine::count("compactions_due", 1);
                    ensure!(new.len() < n, "none of the tables of sizes {:?} are merged, although the {} from number {} on belong to the same bucket", sizes, j - i + 1, i);
                }
            }
        }
        if gone.is_empty() {
            return Ok(());
        }
        crate::engine::count("compactions_examined", 1);
        // one more may have been written by the operation itself
        let waited = gone.iter().filter(|t| t.level == 0).count();
        let (limit, growth, first) = match self.scn.cfg.par {
            Par::Tiered(_, c, ..) => (c, 0, 0),
            Par::Leveled(_, c, _, f, g) => (c, g, f),
        };
        ensure!(
            waited >= limit,
            "{} tables are merged, of which {} waited (and at most one more, written just now); compaction is due when there are more than {}",
            gone.len(), waited, limit
        );
        if let Par::Tiered(_, _, min, low, high) = self.scn.cfg.par {
            let mut sizes: Vec<u64> = gone.iter().map(|t| t.size).collect();
            if spawned {
                if self.scn.cfg.bg || !self.scn.cfg.batch {
                    // there may have been two compactions
                    return Ok(());
                }
                // the table written just now was merged as well if all that is new is what was merged
                match new.len() + gone.len() - old.len() {
                    1 if self.inserted => sizes.push(flushed::<T, U, C>(self.scn.cfg.par, &self.fresh)?),
                    2 => {}
                    _ => return Ok(()),
                }
            }
            let avg = sizes.iter().sum::<u64>() as f64 / sizes.len() as f64;
            crate::engine::count("buckets_examined", 1);
            for x in &sizes {
                let y = *x as f64;
                ensure!(
                    *x <= min || avg * low <= y * 1.000001 && y <= avg * high * 1.000001,
                    "tables of sizes {:?} are merged; one of {} bytes does not belong to a bucket with the average {}",
                    sizes, x, avg
                );
            }
        }
        if growth as usize * first > 50 {
            // no further level is ever full: one of its tables is rewritten only for entries that come from above
            let span = |t: &Tab<T>| (t.entries[0].0.clone(), t.entries[t.entries.len() - 1].0.clone());
            let mut above: Vec<(T, T)> = gone.iter().filter(|t| t.level < 2).map(|t| span(t)).collect();
            above.extend(self.fresh.iter().map(|k| (T::item(*k), T::item(*k))));
            let lo = above.iter().map(|x| x.0.clone()).min();
            let hi = above.iter().map(|x| x.1.clone()).max();
            for t in gone.iter().filter(|t| t.level > 1) {
                let (a, b) = span(t);
                ensure!(
                    Some(&a) <= hi.as_ref() && Some(&b) >= lo.as_ref(),
                    "a table of level {} from {:?} to {:?} is rewritten; everything merged from above lies between {:?} and {:?}",
                    t.level, a, b, lo, hi
                );
            }
        }
        Ok(())
    }
    fn levels(&self, overlapping: Option<usize>) -> R<()> {
        let (size, first, growth) = match self.scn.cfg.par {
            Par::Leveled(_, _, s, f, g) => (s, f, g),
            _ => return Ok(()),
        };
        let tabs = match self.layout() {
            Some(t) => t,
            None => {
                crate::engine::count("stores_not_understood", 1);
                return Ok(());
            }
        };
        crate::engine::count("layouts_examined", 1);
        let unsorted = tabs.iter().filter(|t| t.level == 0).count();
        if let Some(c) = overlapping {
            ensure!(unsorted <= c, "{} tables are waiting to be merged into the first level, more than {}", unsorted, c);
        }
        for l in 1..=tabs.iter().map(|t| t.level).max().unwrap_or(0) {
            let mut v: Vec<&Tab<T>> = tabs.iter().filter(|t| t.level == l).collect();
            let most = (growth as usize).pow(l as u32 - 1) * first;
            ensure!(v.len() <= most, "level {} has {} tables, more than {}", l, v.len(), most);
            v.sort_by(|a, b| a.entries[0].0.cmp(&b.entries[0].0));
            for w in v.windows(2) {
                let (a, b) = (&w[0].entries[w[0].entries.len() - 1].0, &w[1].entries[0].0);
                ensure!(a < b, "two tables of level {} overlap: one ends at {:?}, another begins at {:?}", l, a, b);
            }
            for t in v {
                for w in t.entries.windows(2) {
                    ensure!(w[0].0 < w[1].0, "a table of level {} has {:?} before {:?}", l, w[0].0, w[1].0);
                }
                let (end, _) = &t.entries[t.entries.len() - 1];
                ensure!(t.key.as_ref() == Some(end), "a table of level {} ends at {:?} and is filed under {:?}", l, end, t.key);
                let n: u64 = t.entries[..t.entries.len() - 1].iter().map(|x| x.1).sum();
                ensure!(n <= size, "a table of level {} has {} bytes of entries before the last one, more than {}", l, n, size);
            }
        }
        Ok(())
    }
    fn rewrite(&mut self, times: usize) -> R<()> {
        for _ in 0..times {
            let k = 0;
            e("insert", self.m().insert(T::item(k), U::item(val(k, 0))))?;
            e("flush", self.m().flush())?;
        }
        self.model.insert(0, 0);
        Ok(())
    }
    /// The most tables there may be after a flush.
    fn most(&self) -> usize {
        match self.scn.cfg.par {
            // all tables here are in the first bucket; one more may wait for the compaction that has begun
            Par::Tiered(_, count, ..) => count + 1,
            Par::Leveled(_, count, ..) => count + 1 + 2 * self.scn.cfg.keys,
        }
    }
    /// After an operation in which a call failed.
    fn after_fault(&mut self, r: &R<()>, way: u8) -> R<()> {
        if r.is_ok() {
            self.pending = None;
        }
        self.iters.clear();
        if way == 2 {
            let mut poss = self.possible();
            if r.is_err() {
                poss.extend(self.old_states.iter().cloned());
                poss.extend(self.pending.iter().cloned());
            }
            self.map = None;
            self.sched.run_others();
            self.open()?;
            let got = contents(self.m())?;
            match poss.iter().find(|p| expected::<T, U>(p) == got) {
                Some(p) => self.model = p.clone(),
                None => {
                    let p: Vec<_> = poss.iter().map(|p| expected::<T, U>(p)).collect();
                    return Err(format!("closed and opened after that the map holds {:?}, expected one of {:?}", got, p));
                }
            }
        } else {
            let mut got = Model::new();
            for k in 0..self.scn.cfg.keys {
                if let Some(u) = e("get", self.m().get(&T::item(k)))? {
                    match (0..VERS).find(|v| U::item(val(k, *v)) == u) {
                        Some(v) => got.insert(k, v),
                        None => return Err(format!("get({}) is {:?}", k, u)),
                    };
                }
            }
            if got != self.model && Some(&got) != self.pending.as_ref() {
                return Err(format!("after that the map holds {:?}, before {:?}", expected::<T, U>(&got), expected::<T, U>(&self.model)));
            }
            self.model = got;
        }
        if way == 1 {
            let n = self.tables().len();
            let most = n + self.most();
            self.rewrite(most + 1)?;
            let m = self.tables().len();
            ensure!(m <= most, "after that {} tables became {} in {} more writes: compaction does not go on", n, m, most + 1);
        }
        self.battery()
    }
    fn battery(&mut self) -> R<()> {
        let ex = self.iters.is_empty();
        if self.scn.cfg.space {
            if ex && !self.killed {
                self.space()?;
            }
            return self.sane();
        }
        if self.scn.cfg.cost {
            return self.cost();
        }
        if self.scn.cfg.shape {
            return self.shape();
        }
        self.minmax()?;
        self.look()?;
        self.scan()?;
        self.look()?;
        self.minmax()?;
        for (it, want) in &mut self.iters {
            let mut got: Vec<(T, U)> = vec![];
            for x in it {
                got.push(e("iterator", x)?);
            }
            let want: Vec<(T, U)> = want.iter().map(|(k, v)| (T::item(*k), U::item(val(*k, *v)))).collect();
            ensure!(got == want, "the rest of the iterator is {:?} instead of {:?}", got, want);
        }
        self.iters.clear();
        e("flush", self.m().flush())?;
        self.map = None;
        self.open()?;
        self.look().map_err(|m| format!("opened again: {}", m))?;
        self.scan().map_err(|m| format!("opened again: {}", m))?;
        self.minmax().map_err(|m| format!("opened again: {}", m))?;
        self.sane()
    }
}

impl<'a, T: LItem, U: LItem, C: Strat<T, U>> Drop for LsmInst<'a, T, U, C> {
    fn drop(&mut self) {
        self.iters.clear();
        self.map = None;
        self.sched.drain();
        Sched::leave();
        Watch::leave();
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

fn enabled(c: &LsmCfg, iters: usize) -> Vec<u16> {
    let n = c.keys as u16;
    let mut v: Vec<u16> = vec![];
    if c.batch {
        v.extend((1..3u16.pow(n as u32)).filter(|b| c.only.is_empty() || c.only.contains(b)).map(|b| 2 * n + BATCH + b));
    } else {
        v.extend(0..n);
    }
    if c.del && !c.batch {
        v.extend(n..2 * n);
    }
    let mut on = |b: bool, o: u16| {
        if b {
            v.push(2 * n + o)
        }
    };
    on(c.flush, FLUSH);
    on(c.reopen && iters == 0, REOPEN);
    on(c.kill && iters == 0, KILL);
    on(c.clear && iters == 0, CLEAR);
    on(c.bg, BG);
    on(c.look, LOOK);
    on(c.minmax, MINMAX);
    on(c.scan, SCAN);
    on(iters < c.iters, IOPEN);
    on(iters > 0, INEXT);
    on(iters > 0, IDROP);
    v
}

impl<'a, T: LItem, U: LItem, C: Strat<T, U>> Inst for LsmInst<'a, T, U, C> {
    fn enabled(&self) -> Vec<u16> {
        let mut v = enabled(&self.scn.cfg, self.iters.len());
        if self.sched.pending() > 0 && self.lag >= self.scn.cfg.lag {
            v.retain(|o| *o >= 2 * self.scn.cfg.keys as u16);
        }
        v
    }
    fn step(&mut self, op: u16, last: bool) -> R<()> {
        if last && self.scn.cfg.crash {
            self.old_states = self.possible();
            self.watch.pictures(true);
        }
        let before = self.sched.spawned();
        let meta = |p: &Path| fsx::quiet(|| std::fs::read(p.join("metadata.dat")).unwrap_or_default());
        let m0 = meta(&self.path);
        let l0 = if last && self.scn.cfg.lazy { self.layout() } else { None };
        if l0.is_some() {
            let n = self.scn.cfg.keys as u16;
            self.fresh = self.mem.iter().map(|w| w.0).collect();
            self.inserted = false;
            if op < 2 * n {
                self.fresh.push((op % n) as usize);
            } else if op >= 2 * n + BATCH {
                self.inserted = self.mem.is_empty() && self.scn.batch(op - 2 * n - BATCH).iter().all(|w| w.1);
                self.fresh.extend(self.scn.batch(op - 2 * n - BATCH).iter().map(|w| w.0));
            }
        }
        let r = self.do_op(op);
        if let (Some(old), Ok(())) = (&l0, &r) {
            self.merged(op, self.sched.spawned() > before, old)?;
        }
        if last && self.scn.cfg.crash {
            self.pics = self.watch.pictures(false);
            self.pics.push(fsx::quiet(|| fsx::take(&self.path)));
        }
        r?;
        if (op as usize) < 2 * self.scn.cfg.keys && m0 != meta(&self.path) {
            self.mem.clear();
        }
        let n = 2 * self.scn.cfg.keys as u16;
        if self.sched.pending() == 0 || self.sched.spawned() > before {
            self.lag = 0;
        } else if op < n {
            self.lag += 1;
        }
        if self.sched.spawned() > before {
            self.spawn = Some(self.tables().iter().map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).collect());
        } else if self.sched.pending() == 0 && op >= n && matches!(op - n, FLUSH | REOPEN | KILL | CLEAR | SCAN | IOPEN) {
            self.spawn = None;
        }
        self.sane()
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let h = self.hash();
        self.crashes()?;
        self.battery()?;
        Ok(h)
    }
}

/// A program whose operations are only noted; at its end it is executed under every schedule.
struct ProgInst<'a, T: LItem, U: LItem, C: Strat<T, U>> {
    scn: &'a LsmScn<T, U, C>,
    ops: Vec<u16>,
    model: Model,
    iters: usize,
}

impl<'a, T: LItem, U: LItem, C: Strat<T, U>> Inst for ProgInst<'a, T, U, C> {
    fn enabled(&self) -> Vec<u16> {
        enabled(&self.scn.cfg, self.iters)
    }
    fn step(&mut self, op: u16, _last: bool) -> R<()> {
        self.ops.push(op);
        let n = 2 * self.scn.cfg.keys as u16;
        if op == n + IOPEN {
            self.iters += 1;
        } else if op == n + IDROP {
            self.iters = self.iters.saturating_sub(1);
        }
        Ok(())
    }
    fn finish(self: Box<Self>) -> R<u128> {
        let mut plan: Vec<u8> = vec![];
        let mut n = 0u64;
        let mut h = H::new();
        for o in &self.ops {
            h.u(*o as u64);
        }
        let _ = &self.model;
        loop {
            n += 1;
            let mut i = LsmInst::new(self.scn, Some((plan.clone(), self.scn.cfg.explore.unwrap())))?;
            let r = (|| {
                for (j, o) in self.ops.iter().enumerate() {
                    i.sched.note(0, "·");
                    i.do_op(*o).and_then(|_| i.sane()).map_err(|m| format!("operation {} ({}): {}", j + 1, self.scn.op_name(*o), m))?;
                }
                let made = i.sched.made();
                i.sched.set_explore(false);
                i.battery()?;
                Ok::<_, String>(made)
            })();
            let made = match r {
                Ok(m) => m,
                Err(m) => return Err(format!("{} [schedule{}]", m, i.sched.show())),
            };
            drop(i);
            plan = made.iter().map(|x| x.0).collect();
            let mut more = false;
            while let Some(l) = plan.pop() {
                let k = made[plan.len()].1;
                if l + 1 < k {
                    plan.push(l + 1);
                    more = true;
                    break;
                }
            }
            if !more {
                break;
            }
        }
        crate::engine::count("schedules", n);
        Ok(h.fin())
    }
}

/// Once its operations are done, repeats them with each file system call of the last one failing.
struct FaultInst<'a, T: LItem, U: LItem, C: Strat<T, U>> {
    scn: &'a LsmScn<T, U, C>,
    ops: Vec<u16>,
    calls: u64,
    main: LsmInst<'a, T, U, C>,
}

impl<'a, T: LItem, U: LItem, C: Strat<T, U>> Inst for FaultInst<'a, T, U, C> {
    fn enabled(&self) -> Vec<u16> {
        self.main.enabled()
    }
    fn step(&mut self, op: u16, last: bool) -> R<()> {
        self.ops.push(op);
        if last {
            self.main.watch.fail(None, false, true);
        }
        let r = self.main.step(op, false);
        self.calls = self.main.watch.calls();
        self.main.watch.fail(None, false, false);
        r
    }
    fn finish(self: Box<Self>) -> R<u128> {
        let h = self.main.hash();
        let FaultInst { scn, ops, calls, main } = *self;
        drop(main);
        let (last, first) = match ops.split_last() {
            Some(x) => x,
            None => return Ok(h),
        };
        for g in [crate::fsx::Gentle::Parts, crate::fsx::Gentle::Interruptions] {
            let what = || format!("with {} in the last operation and after it", if g == crate::fsx::Gentle::Parts { "reads and writes that transfer parts" } else { "interrupted file system calls" });
            let mut i = LsmInst::new(scn, None)?;
            for o in first {
                i.step(*o, false)?;
            }
            i.watch.gently(Some(g));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                i.step(*last, false)?;
                let h = i.hash();
                i.battery()?;
                Ok::<_, String>(h)
            }));
            i.watch.gently(None);
            let got = r.map_err(|_| format!("{}: it panicked", what()))?.map_err(|m| format!("{}: {}", what(), m))?;
            ensure!(got == h, "{}: what it leaves in the file system differs", what());
        }
        for n in 1..=calls {
            // what fails and what is done afterwards: all at once would hide something
            for (rest, way) in [(false, 0), (false, 1), (false, 2), (true, 0), (true, 2)] {
                let mut i = LsmInst::new(scn, None)?;
                for o in first {
                    i.step(*o, false)?;
                }
                i.old_states = i.possible();
                i.watch.fail(Some(n), rest, true);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.do_op(*last)));
                let failed = i.watch.failed();
                i.watch.fail(None, false, false);
                crate::engine::count("failed_calls", failed as u64);
                let what = || format!("file system call {} of {}{} failed in the last operation", n, calls, if rest { " and those after it" } else { "" });
                let r = match r {
                    Ok(r) => r,
                    Err(_) => return Err(format!("{}: it panicked", what())),
                };
                if failed {
                    i.after_fault(&r, way).map_err(|m| format!("{} ({}): {}", what(), r.err().unwrap_or("it succeeded".into()), m))?;
                }
            }
        }
        Ok(h)
    }
}
