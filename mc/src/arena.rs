//! Typed arena against a table of handles.
use crate::engine::{may_panic, Inst, Scenario, R};
use crate::maps::ensure;
use crate::tok::V;
use crate::util::H;
use extended_collections::arena::{Entry, TypedArena};

pub struct ArenaScn {
    pub chunk: usize,
    pub max: usize,
    /// Also try freeing handles that are not live.
    pub misuse: bool,
}

// op codes
const ALLOC: u16 = 0;
const FOREIGN: u16 = 1;
const FREE: u16 = 16; // + slot: live handles are freed, dead ones must be refused
const SET: u16 = 1040; // + slot
const SETIX: u16 = 2064;

pub fn alloc() -> u16 {
    ALLOC
}
pub fn free(i: usize) -> u16 {
    FREE + i as u16
}

impl Scenario for ArenaScn {
    fn name(&self) -> String {
        format!("TypedArena (chunks of {})", self.chunk)
    }
    fn op_name(&self, op: u16) -> String {
        match op {
            ALLOC => "allocate".into(),
            FOREIGN => "free a handle from beyond the end".into(),
            o if o >= SETIX => format!("arena[handle #{}] = new", o - SETIX),
            o if o >= SET => format!("*get_mut(handle #{}) = new", o - SET),
            o => format!("free(handle #{})", o - FREE),
        }
    }
    fn fresh<'a>(&'a self) -> Box<dyn Inst + 'a> {
        let mut other = TypedArena::new(self.chunk);
        let mut foreign = vec![];
        for i in 0..(2 * self.max + 2 * self.chunk + 2).min(3000) {
            foreign.push(other.allocate(i));
        }
        Box::new(ArenaInst {
            scn: self,
            real: TypedArena::new(self.chunk),
            known: vec![],
            freed: vec![],
            peak: 0,
            live: 0,
            ctr: 0,
            foreign: *foreign.last().unwrap(),
        })
    }
    fn ownership(&self) -> bool {
        true
    }
}

struct Slot {
    e: Entry,
    val: Option<u64>,
    addr: usize,
}

pub struct ArenaInst<'a> {
    scn: &'a ArenaScn,
    real: TypedArena<V>,
    known: Vec<Slot>,
    freed: Vec<usize>,
    peak: usize,
    live: usize,
    ctr: u64,
    foreign: Entry,
}

impl<'a> ArenaInst<'a> {
    fn one(&mut self, i: usize) -> R<()> {
        let s = &self.known[i];
        match (self.real.get(&s.e), s.val) {
            (None, None) => {}
            (Some(v), Some(w)) => {
                ensure!(v.tok.ok() && v.v == w, "handle #{} leads to another object", i);
                ensure!(v as *const V as usize == s.addr, "the object of handle #{} has moved", i);
            }
            (Some(_), None) => return Err(format!("the freed handle #{} still leads to an object", i)),
            (None, Some(_)) => return Err(format!("handle #{} leads nowhere", i)),
        }
        match (self.real.get_mut(&s.e), s.val) {
            (None, None) => {}
            (Some(v), Some(w)) => ensure!(v.tok.ok() && v.v == w, "handle #{} leads to another object (get_mut)", i),
            _ => return Err(format!("get_mut of handle #{} is wrong about whether it is live", i)),
        }
        Ok(())
    }
}

impl<'a> Inst for ArenaInst<'a> {
    fn enabled(&self) -> Vec<u16> {
        let mut v = vec![];
        if self.live < self.scn.max {
            v.push(ALLOC);
        }
        if self.scn.misuse {
            v.push(FOREIGN);
        }
        for i in 0..self.known.len() {
            if self.known[i].val.is_some() {
                v.push(FREE + i as u16);
                v.push(SET + i as u16);
                v.push(SETIX + i as u16);
            } else if self.scn.misuse {
                v.push(FREE + i as u16);
            }
        }
        v
    }
    fn step(&mut self, op: u16, last: bool) -> R<()> {
        self.ctr += 1;
        let ctr = self.ctr;
        match op {
            ALLOC => {
                let e = self.real.allocate(V::new(ctr));
                self.live += 1;
                self.peak = self.peak.max(self.live);
                let addr = self.real.get(&e).map_or(0, |v| v as *const V as usize);
                match self.known.iter().position(|s| s.e == e) {
                    Some(i) => {
                        ensure!(self.known[i].val.is_none(), "allocate returned handle #{}, which is live", i);
                        self.known[i].val = Some(ctr);
                        self.known[i].addr = addr;
                        self.freed.retain(|x| *x != i);
                    }
                    None => self.known.push(Slot { e, val: Some(ctr), addr }),
                }
                let c = self.scn.chunk;
                let room = (self.peak + c - 1) / c * c;
                ensure!(self.known.len() <= room, "{} places were taken for at most {} live objects", self.known.len(), self.peak);
            }
            FOREIGN => {
                if self.known.iter().any(|s| s.e == self.foreign) {
                    return Err("skip: not foreign any more".into());
                }
                let (a, f) = (&mut self.real, self.foreign);
                ensure!(may_panic(|| a.free(&f).v).is_err(), "freeing an invalid handle did not panic");
                ensure!(a.get(&f).is_none() && a.get_mut(&f).is_none(), "an invalid handle leads to an object");
            }
            o if o >= SET => {
                let ix = o >= SETIX;
                let i = (o - if ix { SETIX } else { SET }) as usize;
                if i >= self.known.len() || self.known[i].val.is_none() {
                    return Err("skip: not live".into());
                }
                let v = if ix {
                    &mut self.real[self.known[i].e]
                } else {
                    self.real.get_mut(&self.known[i].e).ok_or(format!("handle #{} leads nowhere", i))?
                };
                ensure!(v.tok.ok() && Some(v.v) == self.known[i].val, "handle #{} leads to another object", i);
                *v = V::new(ctr);
                self.known[i].val = Some(ctr);
            }
            o => {
                let i = (o - FREE) as usize;
                if i >= self.known.len() {
                    return Err("skip: unknown handle".into());
                }
                let e = self.known[i].e;
                match self.known[i].val.take() {
                    Some(w) => {
                        let v = self.real.free(&e);
                        ensure!(v.tok.ok() && v.v == w, "free(handle #{}) returned another object", i);
                        self.freed.push(i);
                        self.live -= 1;
                    }
                    None => {
                        let a = &mut self.real;
                        ensure!(may_panic(|| a.free(&e).v).is_err(), "freeing the freed handle #{} did not panic", i);
                        if last {
                            ensure!(may_panic(|| a[e].v).is_err(), "indexing by the freed handle #{} did not panic", i);
                            ensure!(may_panic(|| (&mut a[e]).v).is_err(), "mutable indexing by the freed handle #{} did not panic", i);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn finish(mut self: Box<Self>) -> R<u128> {
        let mut h = H::new();
        for i in 0..self.known.len() {
            self.one(i)?;
            h.u(self.known[i].val.is_some() as u64);
            if let Some(_) = self.known[i].val {
                let e = self.known[i].e;
                ensure!(Some(self.real[e].v) == self.known[i].val, "indexing by handle #{} gives another object", i);
            }
        }
        h.u(99);
        for i in &self.freed {
            h.u(*i as u64);
        }
        Ok(h.fin())
    }
}
