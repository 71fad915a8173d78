use crate::algebra::Algebra;
use crate::maps::*;
use crate::engine::R;
use crate::tok::{K, P, V};
use crate::{impl_algebra, impl_map, impl_set};
use extended_collections::skiplist::{SkipMap, SkipSet};
use std::ops::{Index, IndexMut};

impl_map!(SkipMap<K, V>, "SkipMap");
impl_set!(SkipSet<K>, "SkipSet");
impl_algebra!(SkipMap<K, V>, false, _s, _k, _incl, unreachable!());
impl_algebra!(SkipSet<K>, false, _s, _k, _incl, unreachable!());

/// A random number that gives an element `h` links above the lowest one.
pub const fn height(h: u32) -> u32 {
    if h >= 32 { 0 } else { u32::MAX >> h }
}
pub const H4: [u32; 4] = [height(0), height(1), height(2), height(3)];
pub const H3: [u32; 3] = [height(0), height(1), height(2)];
pub const H2: [u32; 2] = [height(0), height(1)];
pub const HX: [u32; 4] = [height(0), height(1), height(31), height(32)];
/// Heights as a fair coin would give them, for long runs.
pub const RULER: [u32; 8] = [height(0), height(1), height(2), height(3), height(4), height(5), height(6), height(7)];

/// The keys a lookup compares are no more than those a search of the skiplist with these towers
/// compares, started on the highest level there is or on the one that fits the number of keys.
/// The choices in `E::r` are heights (see `H4`, `RULER`).
pub fn skip_shape(s: &Shape, m: &[E]) -> R<()> {
    // an entry that two operands had in common may have the tower of either
    let mut towers: Vec<Vec<usize>> = vec![vec![]];
    for e in m {
        let hs: Vec<usize> = (0..33).filter(|b| e.r >> b & 1 == 1).collect();
        towers = towers.into_iter().flat_map(|t| hs.iter().map(move |h| [&t[..], &[*h]].concat())).collect();
    }
    let n = m.len();
    let fit = (usize::BITS - n.leading_zeros()) as usize;
    let cost = |h: &Vec<usize>, x: usize, start: usize| {
        let mut seen = std::collections::BTreeSet::new();
        let mut from = 0;
        for level in (0..=start).rev() {
            for i in from..n {
                if h[i] < level {
                    continue;
                }
                seen.insert(i);
                if i >= x {
                    break;
                }
                from = i + 1;
            }
            if seen.contains(&x) {
                break;
            }
        }
        seen.len()
    };
    let cost: Vec<Vec<usize>> = towers.iter().map(|h| (0..n).map(|x| cost(h, x, fit).max(cost(h, x, 32))).collect()).collect();
    let paths: Vec<usize> = (0..n)
        .map(|x| {
            let mut p = s.paths[x].clone();
            p.sort();
            p.dedup();
            p.len()
        })
        .collect();
    if !cost.iter().any(|c| (0..n).all(|x| paths[x] <= c[x])) {
        let x = (0..n).find(|x| cost.iter().all(|c| paths[*x] > c[*x])).unwrap_or(0);
        return Err(format!("looking up key #{} of {} with towers {:?} compares {} keys; searching that skiplist compares {}", x, n, towers, paths[x], cost[0][x]));
    }
    Ok(())
}
