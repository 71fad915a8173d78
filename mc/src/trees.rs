use crate::engine::*;
use crate::maps::*;
use crate::tok::{K, P, V};
use crate::{impl_map, impl_set};
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapMap, TreapSet};
use std::ops::{Index, IndexMut};

impl_map!(AvlMap<K, V>, "AvlMap");
impl_map!(RedBlackMap<K, V>, "RedBlackMap");
impl_map!(SplayMap<K, V>, "SplayMap");
impl_map!(TreapMap<K, V>, "TreapMap");
impl_set!(AvlSet<K>, "AvlSet");
impl_set!(RedBlackSet<K>, "RedBlackSet");
impl_set!(SplaySet<K>, "SplaySet");
impl_set!(TreapSet<K>, "TreapSet");

/// Fill and drain orders over n keys: ascending, descending, middle first, interleaved.
pub fn orders(n: usize) -> Vec<Vec<usize>> {
    let asc: Vec<usize> = (0..n).collect();
    let desc: Vec<usize> = (0..n).rev().collect();
    let mut mid = vec![];
    fn bin(lo: usize, hi: usize, o: &mut Vec<usize>) {
        if lo < hi {
            let m = (lo + hi) / 2;
            o.push(m);
            bin(lo, m, o);
            bin(m + 1, hi, o);
        }
    }
    bin(0, n, &mut mid);
    let mut inter = vec![];
    for i in 0..n {
        inter.push(if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 });
    }
    let mut rev = inter.clone();
    rev.reverse();
    // a fixed scattering permutation: multiples of a number coprime to n
    let mut step = n / 2 + 1;
    while gcd(step, n.max(1)) != 1 {
        step += 1;
    }
    let scat: Vec<usize> = (0..n).map(|i| (i * step) % n).collect();
    vec![asc, desc, mid, inter, rev, scat]
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Fill in every order, then drain in every order; a trace for every prefix length that is a
/// multiple of `every` (so that intermediate states are observed too).
pub fn fill_drain<M: MapLike>(s: &MapScn<M>, sizes: &[usize], every: usize, rs: &[usize]) -> Vec<Vec<u16>> {
    let mut out = vec![];
    for &n in sizes {
        for f in orders(n) {
            for d in orders(n) {
                let mut t: Vec<u16> = vec![];
                for (i, k) in f.iter().enumerate() {
                    t.push(s.code(Op::InsKey(*k, rs[i % rs.len()])));
                }
                out.push(t.clone());
                for (i, k) in d.iter().enumerate() {
                    t.push(s.code(Op::RemKey(*k)));
                    if (i + 1) % every == 0 || i + 1 == n {
                        out.push(t.clone());
                    }
                }
            }
        }
    }
    out
}

/// AVL: below every key, the two sides differ in height by at most one.
pub fn avl_shape(s: &Shape, m: &[E]) -> R<()> {
    if let Some(t) = s.tree(m)? {
        let mut bad = None;
        t.walk(&mut |n| {
            let l = n.left.as_ref().map_or(0, |x| x.height);
            let r = n.right.as_ref().map_or(0, |x| x.height);
            if l.abs_diff(r) > 1 && bad.is_none() {
                bad = Some((n.idx, l, r));
            }
        });
        if let Some((i, l, r)) = bad {
            return Err(format!("below key #{} of {} the heights of the two sides are {} and {}", i, m.len(), l, r));
        }
    }
    Ok(())
}

/// Red-black: no lookup path is longer than 2 log2(n+1), and there is a colouring of the tree
/// that meets the red-black rules.
pub fn rb_shape(s: &Shape, m: &[E]) -> R<()> {
    let t = s.tree(m)?;
    let d = s.depth();
    let n = m.len() as f64;
    let bound = 2.0 * (n + 1.0).log2() + 1e-9;
    if d as f64 > bound {
        return Err(format!("a lookup among {} keys compares {} keys, more than 2*log2(n+1) = {:.2}", m.len(), d, bound));
    }
    // black heights possible with a black / red root of each subtree
    fn bh(t: &Option<Box<Tree>>) -> (Vec<usize>, Vec<usize>) {
        match t {
            None => (vec![0], vec![]),
            Some(n) => {
                let (lb, lr) = bh(&n.left);
                let (rb, rr) = bh(&n.right);
                let any = |b: &Vec<usize>, r: &Vec<usize>| {
                    let mut v = b.clone();
                    v.extend(r.iter());
                    v
                };
                let (la, ra) = (any(&lb, &lr), any(&rb, &rr));
                let mut black: Vec<usize> = la.iter().filter(|x| ra.contains(x)).map(|x| x + 1).collect();
                let mut red: Vec<usize> = lb.iter().filter(|x| rb.contains(x)).cloned().collect();
                black.sort();
                black.dedup();
                red.sort();
                red.dedup();
                (black, red)
            }
        }
    }
    let (b, r) = bh(&t);
    if b.is_empty() && r.is_empty() {
        return Err(format!("no colouring makes the tree over {} keys a red-black tree", m.len()));
    }
    Ok(())
}

fn potential(t: &Option<Box<Tree>>) -> f64 {
    let mut p = 0.0;
    if let Some(t) = t {
        t.walk(&mut |n| p += (n.size as f64).log2());
    }
    p
}

/// Splay: the key just inserted or accessed mutably is the first one compared, and the access
/// lemma holds: comparisons paid for by the drop of the potential, up to 3*log2(n) + constant.
pub fn splay_access(s0: &Shape, m0: &[E], s1: &Shape, m1: &[E], op: Op, cmps: u64) -> R<()> {
    let target = match op {
        Op::Ins(g, _) => Some(g),
        Op::Repl(i, _) | Op::GetMut(i) | Op::IndexMut(i) => Some(i),
        _ => None,
    };
    if let Some(i) = target {
        if s1.paths[i].len() != 1 {
            return Err(format!("the key just accessed (#{} of {}) is at depth {}: a lookup compares {} keys", i, m1.len(), s1.paths[i].len() - 1, s1.paths[i].len()));
        }
    }
    if matches!(op, Op::Clear | Op::IterMut | Op::Take(_) | Op::Fresh) {
        return Ok(());
    }
    let n = m0.len().max(m1.len()) as f64;
    let amortised = cmps as f64 + potential(&s1.tree(m1)?) - potential(&s0.tree(m0)?);
    let bound = splay_bound(n);
    if amortised > bound {
        return Err(format!("amortised cost {:.2} ({} keys compared) is more than {:.2} with {} keys", amortised, cmps, bound, n));
    }
    Ok(())
}

pub fn splay_bound(n: f64) -> f64 {
    3.0 + 3.0 * (n + 1.0).log2()
}

pub fn splay_total(cmps: u64, nops: usize, n: usize) -> R<()> {
    let bound = (nops as f64 * (3.0 * (n as f64 + 1.0).log2() + 3.0) + n as f64 * (n as f64 + 1.0).log2());
    if cmps as f64 > bound {
        return Err(format!("{} operations on at most {} keys compared {} keys, more than O((m+n) log n) = {:.0}", nops, n, cmps, bound));
    }
    Ok(())
}

pub const PRIOS: [u32; 16] = [
    0x0800_0000, 0x1800_0000, 0x2800_0000, 0x3800_0000, 0x4800_0000, 0x5800_0000, 0x6800_0000, 0x7800_0000,
    0x8800_0000, 0x9800_0000, 0xa800_0000, 0xb800_0000, 0xc800_0000, 0xd800_0000, 0xe800_0000, 0xf800_0000,
];

/// Choices that differ in few bits, and those at the ends and around the middle of the range.
pub const PLOW: [u32; 8] = [0, 1, 2, 0x0001_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];

/// Does the larger random choice go up? Found out once from two keys.
fn larger_on_top() -> bool {
    use std::sync::OnceLock;
    static T: OnceLock<bool> = OnceLock::new();
    *T.get_or_init(|| {
        let mut m: TreapMap<K, V> = TreapMap::new();
        rand::ctrl::set_fixed(Some(PRIOS[0]));
        MapLike::insert(&mut m, K::new(1 << 64), V::new(0));
        rand::ctrl::set_fixed(Some(PRIOS[15]));
        MapLike::insert(&mut m, K::new(2 << 64), V::new(0));
        let model = [E { k: 1 << 64, id: 0, v: 0, r: 1 }, E { k: 2 << 64, id: 1, v: 0, r: 2 }];
        observe_shape(&m, &model).paths[1].len() == 1
    })
}

/// Treap: the tree is a heap of the random choices of its keys.
pub fn treap_shape(s: &Shape, m: &[E]) -> R<()> {
    let up = larger_on_top();
    let t = s.tree(m)?;
    // smallest choice a subtree's root can have had, given the heap below it
    fn low(t: &Tree, m: &[E], up: bool) -> R<i64> {
        let mut at = i64::MIN;
        for c in [&t.left, &t.right] {
            if let Some(c) = c {
                at = at.max(low(c, m, up)?);
            }
        }
        let mut best: Option<i64> = None;
        for i in 0..64 {
            if m[t.idx].r >> i & 1 == 1 {
                let p = if up { i } else { -i };
                if p >= at && best.map_or(true, |b| p < b) {
                    best = Some(p);
                }
            }
        }
        best.ok_or_else(|| format!("key #{} of {} is above a key with a priority that should be above it: the tree is not the one of its random priorities", t.idx, m.len()))
    }
    if let Some(t) = t {
        low(&t, m, up)?;
    }
    Ok(())
}

use crate::algebra::Algebra;
use crate::impl_algebra;
impl_algebra!(TreapMap<K, V>, true, s, k, incl, s.split_off(&P(k), incl));
impl_algebra!(TreapSet<K>, true, s, k, incl, s.split_off(&K::new(k), incl));
