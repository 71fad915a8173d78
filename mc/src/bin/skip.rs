use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use vpmc::algebra::*;
use vpmc::engine::*;
use vpmc::lists::*;
use vpmc::maps::*;
use vpmc::panics::*;
use vpmc::skip::*;
use vpmc::tok::{K, V};
use vpmc::trees::fill_drain;

#[global_allocator]
static A: vpmc::alloc::Checking = vpmc::alloc::Checking;

fn b<S: Scenario + 'static>(s: S) -> Box<dyn Scenario> {
    Box::new(s)
}
type S = Vec<Box<dyn Scenario>>;
const CAP: usize = 40_000_000;

fn main() {
    let checks = [
        Check {
            id: "S01",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                vec![
                    b(MapScn::<SkipMap<K, V>>::new("reference, heights 0..3", MapCfg { max_n: if th { 4 } else { 3 }, rs: &H4, ..CFG })),
                    b(MapScn::<SkipSet<K>>::new("reference, heights 0..2", MapCfg { max_n: 4, rs: &H3, ..CFG })),
                    b(MapScn::<SkipMap<K, V>>::new("reference, heights 0..2", MapCfg { max_n: if th { 5 } else { 4 }, rs: &H3, ..CFG })),
                    b(MapScn::<SkipMap<K, V>>::new("reference, heights 0, 1", MapCfg { max_n: if th { 8 } else { 6 }, rs: &H2, ..CFG })),
                    b(MapScn::<SkipMap<K, V>>::new("reference, extreme heights", MapCfg { max_n: 3, rs: &HX, ..CFG })),
                    b(MapScn::<SkipMap<K, V>>::new("reference, no merging", MapCfg { max_n: 3, rs: &H2, misuse: true, ..CFG })),
                    b(MapScn::<SkipMap<K, V>>::new("long", MapCfg { max_n: 1, keys: 130, rs: &RULER, ..CFG })),
                    b(MapScn::<SkipSet<K>>::new("long", MapCfg { max_n: 1, keys: 130, rs: &RULER, ..CFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, if th { 0 } else { 1 }, CAP);
                c.bfs(1, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(2, 1000, 0, CAP);
                c.bfs(3, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(4, 1000, 0, CAP);
                c.dfs(5, vec![vec![]], 5);
                let sz: &[usize] = if th { &[9, 17, 33, 64, 120] } else { &[9, 17, 33, 64] };
                let rs: Vec<usize> = (0..64).map(|i: usize| ((i + 1).trailing_zeros() as usize).min(7)).collect();
                let s = MapScn::<SkipMap<K, V>>::new("", MapCfg { max_n: 1, keys: 130, rs: &RULER, ..CFG });
                c.family(6, "6 fill orders x 6 drain orders", fill_drain(&s, sz, if th { 1 } else { 3 }, &rs));
                let s = MapScn::<SkipSet<K>>::new("", MapCfg { max_n: 1, keys: 130, rs: &RULER, ..CFG });
                c.family(7, "6 fill orders x 6 drain orders", fill_drain(&s, sz, if th { 1 } else { 3 }, &rs));
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "S02",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                let c = PairCfg { universe: 4, rs: &H2, shape: None, ownership: false, lean: false };
                vec![
                    b(PairScn::<SkipMap<K, V>>::new("algebra, heights 0, 1", PairCfg { universe: 4, ..c })),
                    b(PairScn::<SkipSet<K>>::new("algebra, heights 0, 1", PairCfg { universe: 4, ..c })),
                    b(PairScn::<SkipMap<K, V>>::new("algebra, heights 0, 1, 2", PairCfg { universe: 3, rs: &H3, ..c })),
                    b(PairScn::<SkipMap<K, V>>::new("algebra, extreme heights", PairCfg { universe: 2, rs: &HX, ..c })),
                    b(PairScn::<SkipMap<K, V>>::new("algebra, all pairs of subsets", PairCfg { universe: if th { 7 } else { 6 }, rs: &H4, ..c })),
                    b(PairScn::<SkipSet<K>>::new("algebra, all pairs of subsets", PairCfg { universe: if th { 6 } else { 5 }, rs: &H4, ..c })),
                ]
            },
            explore: |c, th| {
                let h = if th { 2 } else { 1 };
                c.bfs(0, 1000, h, CAP);
                c.bfs(1, 1000, h - 1, CAP);
                c.bfs(2, 1000, h, CAP);
                c.bfs(3, 1000, h, CAP);
                let s = PairScn::<SkipMap<K, V>>::new("", PairCfg { universe: if th { 7 } else { 6 }, rs: &H4, shape: None, ownership: false, lean: true });
                for rot in [1, 3, 5] {
                    c.family(4, "every pair of subsets, then one operation", s.subsets(rot));
                }
                let s = PairScn::<SkipSet<K>>::new("", PairCfg { universe: if th { 6 } else { 5 }, rs: &H4, shape: None, ownership: false, lean: true });
                c.family(5, "every pair of subsets, then one operation", s.subsets(3));
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "S03",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                vec![
                    b(ListScn::<SkipList<V>>::new("heights 0..2", ListCfg { max_n: 5, max_total: if th { 6 } else { 5 }, rs: &H3, ..LCFG })),
                    b(ListScn::<SkipList<V>>::new("heights 0, 1", ListCfg { max_n: if th { 6 } else { 5 }, max_total: if th { 7 } else { 5 }, rs: &H2, value_ops: false, ..LCFG })),
                    b(ListScn::<SkipList<V>>::new("extreme heights", ListCfg { max_n: 3, max_total: 3, rs: &HX, ..LCFG })),
                    b(ListScn::<SkipList<V>>::new("no merging", ListCfg { max_n: 4, max_total: 4, rs: &H2, misuse: true, ..LCFG })),
                    b(ListScn::<SkipList<V>>::new("long", ListCfg { max_n: 1, max_total: 1, big: 130, rs: &RULER, ..LCFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, 1, CAP);
                c.bfs(1, 1000, 2, CAP);
                c.bfs(2, 1000, if th { 2 } else { 1 }, CAP);
                c.dfs(3, vec![vec![]], if th { 5 } else { 4 });
                let s = ListScn::<SkipList<V>>::new("", ListCfg { max_n: 1, max_total: 1, big: 130, rs: &RULER, ..LCFG });
                c.family(4, "6 fill patterns x 2 height patterns x 6 drain patterns, with concatenation", s.long(if th { &[9, 20, 40, 80] } else { &[9, 20, 40] }));
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "S04",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                let c = MapCfg { reference: false, value_ops: false, shape: Some(skip_shape), repl_same: true, ..CFG };
                let p = PairCfg { universe: 3, rs: &H3, shape: Some(skip_shape), ownership: false, lean: true };
                vec![
                    b(MapScn::<SkipMap<K, V>>::new("lookup cost, heights 0..3", MapCfg { max_n: 4, rs: &H4, ..c })),
                    b(MapScn::<SkipMap<K, V>>::new("lookup cost, heights 0..2", MapCfg { max_n: if th { 6 } else { 5 }, rs: &H3, ..c })),
                    b(MapScn::<SkipSet<K>>::new("lookup cost, heights 0..2", MapCfg { max_n: 4, rs: &H3, ..c })),
                    b(PairScn::<SkipMap<K, V>>::new("lookup cost after set operations", p)),
                    b(PairScn::<SkipSet<K>>::new("lookup cost after set operations", PairCfg { rs: if th { &H3 } else { &H2 }, ..p })),
                    b(PairScn::<SkipMap<K, V>>::new("lookup cost after set operations, all pairs of subsets", PairCfg { universe: if th { 7 } else { 6 }, rs: &RULER, ..p })),
                    b(MapScn::<SkipMap<K, V>>::new("lookup cost, long", MapCfg { max_n: 1, keys: 300, rs: &RULER, ..c })),
                    b(MapScn::<SkipSet<K>>::new("lookup cost, long", MapCfg { max_n: 1, keys: 300, rs: &RULER, ..c })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(1, 1000, 0, CAP);
                c.bfs(2, 1000, 1, CAP);
                c.bfs(3, 1000, 0, CAP);
                c.bfs(4, 1000, 0, CAP);
                let cfg = PairCfg { universe: if th { 7 } else { 6 }, rs: &RULER, shape: None, ownership: false, lean: true };
                let s = PairScn::<SkipMap<K, V>>::new("", cfg);
                for rot in [1, 3, 5] {
                    c.family(5, "every pair of subsets, then one operation", s.subsets(rot));
                }
                let sz: &[usize] = if th { &[9, 17, 33, 64, 150, 300] } else { &[9, 17, 33, 64, 150] };
                let rs: Vec<usize> = (0..64).map(|i: usize| ((i + 1).trailing_zeros() as usize).min(7)).collect();
                let s = MapScn::<SkipMap<K, V>>::new("", MapCfg { max_n: 1, keys: 300, rs: &RULER, ..CFG });
                c.family(6, "6 fill orders x 6 drain orders", fill_drain(&s, sz, if th { 7 } else { 15 }, &rs));
                let s = MapScn::<SkipSet<K>>::new("", MapCfg { max_n: 1, keys: 300, rs: &RULER, ..CFG });
                c.family(7, "6 fill orders x 6 drain orders", fill_drain(&s, sz, if th { 7 } else { 15 }, &rs));
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "M03",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                let c = PCfg { n: [3, 2], rs: &H2, lies: false, twice: false };
                vec![
                    b(PScn::<Maps<SkipMap<K, V>>>::new("panics", PCfg { n: if th { [4, 2] } else { [3, 2] }, ..c })),
                    b(PScn::<Maps<SkipSet<K>>>::new("panics", c)),
                    b(PScn::<Lists<SkipList<V>>>::new("panics", PCfg { n: [4, 2], ..c })),
                    b(PScn::<Maps<SkipMap<K, V>>>::new("panics, twice", PCfg { n: [3, 0], rs: if th { &H3 } else { &H2 }, twice: true, ..c })),
                    b(PScn::<Maps<SkipMap<K, V>>>::new("inconsistent comparisons", PCfg { n: [3, 0], rs: &H3, lies: true, ..c })),
                    b(PScn::<Maps<SkipMap<K, V>>>::new("inconsistent comparisons, twice", PCfg { n: if th { [3, 0] } else { [2, 0] }, rs: &H2, lies: true, twice: true, ..c })),
                    b(PScn::<Maps<SkipSet<K>>>::new("inconsistent comparisons", PCfg { n: [3, 0], rs: &H2, lies: true, ..c })),
                    b(PScn::<Maps<SkipMap<K, V>>>::new("inconsistent comparisons, two operands", PCfg { n: [2, 2], rs: &H2, lies: true, ..c })),
                ]
            },
            explore: |c, _| {
                for i in 0..8 {
                    c.bfs(i, 1000, 0, CAP);
                }
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "M02",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                vec![
                    b(MapScn::<SkipMap<K, V>>::new("ownership", MapCfg { max_n: if th { 5 } else { 4 }, rs: &H3, take: true, ownership: true, reference: false, ..CFG })),
                    b(MapScn::<SkipSet<K>>::new("ownership", MapCfg { max_n: if th { 5 } else { 4 }, rs: &H2, take: true, ownership: true, reference: false, ..CFG })),
                    b(MapScn::<SkipMap<K, V>>::new("ownership, extreme heights", MapCfg { max_n: 3, rs: &HX, take: true, ownership: true, reference: false, ..CFG })),
                    b(PairScn::<SkipMap<K, V>>::new("ownership, algebra", PairCfg { universe: 3, rs: &H2, shape: None, ownership: true, lean: false })),
                    b(PairScn::<SkipMap<K, V>>::new("ownership, algebra, extreme heights", PairCfg { universe: 2, rs: &HX, shape: None, ownership: true, lean: false })),
                    b(PairScn::<SkipSet<K>>::new("ownership, algebra", PairCfg { universe: 3, rs: &H2, shape: None, ownership: true, lean: true })),
                    b(ListScn::<SkipList<V>>::new("ownership", ListCfg { max_n: 4, max_total: if th { 5 } else { 4 }, rs: &H3, ownership: true, ..LCFG })),
                    b(ListScn::<SkipList<V>>::new("ownership, extreme heights", ListCfg { max_n: 3, max_total: 3, rs: &HX, ownership: true, ..LCFG })),
                ]
            },
            explore: |c, th| {
                for i in 0..8 {
                    c.bfs(i, 1000, if th || i == 1 || i >= 3 { 1 } else { 0 }, CAP);
                }
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
    ];
    vpmc::engine::main(&checks)
}

const RULE: &str = "A case is one sequence of operations executed on the real collection and on the reference, compared at every step and observed in full at its end. Cases are enumerated, not drawn: breadth first with states merged on what is observed (plus the stated number of past steps), or all sequences up to a length. Distinct and non-trivial: a distinct (state, operation) pair.";
const ASSUME_RND: &[&str] = &[
    "keys are only compared through Ord, so key sequences with the same order pattern behave alike (keys are named by rank)",
    "random choices come from rand::XorShiftRng; every outcome of the stated set is tried for every choice",
    "bounded size: the collections hold at most the stated number of elements in the exhaustive part",
];
