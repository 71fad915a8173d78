use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use vpmc::algebra::*;
use vpmc::engine::*;
use vpmc::lists::*;
use vpmc::maps::*;
use vpmc::tok::{K, V};
use vpmc::trees::*;

#[global_allocator]
static A: vpmc::alloc::Checking = vpmc::alloc::Checking;

fn b<S: Scenario + 'static>(s: S) -> Box<dyn Scenario> {
    Box::new(s)
}
type S = Vec<Box<dyn Scenario>>;
const CAP: usize = 40_000_000;

fn long<M: MapLike + 'static>(c: &mut Ctx, si: usize, cfg: MapCfg, th: bool) {
    let s = MapScn::<M>::new("", cfg);
    let rs: Vec<usize> = if cfg.rs.len() == 1 { vec![0] } else { (0..64).map(|i: usize| (i * 7 + i / 3) % cfg.rs.len()).collect() };
    let t = fill_drain(&s, if th { &[9, 17, 33, 64, 120] } else { &[9, 17, 33, 64] }, if th { 1 } else { 3 }, &rs);
    c.family(si, "6 fill orders x 6 drain orders, sizes up to the longest trace / 2", t);
}

fn main() {
    let checks = [
        Check {
            id: "T01",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let n = if th { 14 } else { 12 };
                vec![
                    b(MapScn::<AvlMap<K, V>>::new("reference", MapCfg { max_n: n, keys: 130, ..CFG })),
                    b(MapScn::<AvlSet<K>>::new("reference", MapCfg { max_n: n, keys: 130, ..CFG })),
                    b(MapScn::<AvlMap<K, V>>::new("reference, no merging", MapCfg { max_n: 4, misuse: true, ..CFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, 1, CAP);
                c.bfs(1, 1000, 1, CAP);
                c.dfs(2, vec![vec![]], if th { 6 } else { 5 });
                long::<AvlMap<K, V>>(c, 0, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
                long::<AvlSet<K>>(c, 1, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T02",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let c = MapCfg { max_n: if th { 16 } else { 13 }, keys: 130, reference: false, value_ops: false, shape: Some(avl_shape), ..CFG };
                vec![
                    b(MapScn::<AvlMap<K, V>>::new("balance", c)),
                    b(MapScn::<AvlSet<K>>::new("balance", MapCfg { max_n: 9, ..c })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, 1, CAP);
                c.bfs(1, 1000, 1, CAP);
                long::<AvlMap<K, V>>(c, 0, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T03",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let n = if th { 16 } else { 13 };
                vec![
                    b(MapScn::<RedBlackMap<K, V>>::new("reference", MapCfg { max_n: n, keys: 130, ..CFG })),
                    b(MapScn::<RedBlackSet<K>>::new("reference", MapCfg { max_n: n, keys: 130, ..CFG })),
                    b(MapScn::<RedBlackMap<K, V>>::new("reference, no merging", MapCfg { max_n: 4, misuse: true, ..CFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, 1, CAP);
                c.bfs(1, 1000, 1, CAP);
                c.dfs(2, vec![vec![]], if th { 6 } else { 5 });
                long::<RedBlackMap<K, V>>(c, 0, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
                long::<RedBlackSet<K>>(c, 1, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T04",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let c = MapCfg { max_n: if th { 19 } else { 15 }, keys: 130, reference: false, value_ops: false, shape: Some(rb_shape), ..CFG };
                vec![
                    b(MapScn::<RedBlackMap<K, V>>::new("balance", c)),
                    b(MapScn::<RedBlackSet<K>>::new("balance", MapCfg { max_n: 9, ..c })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, 1, CAP);
                c.bfs(1, 1000, 1, CAP);
                long::<RedBlackMap<K, V>>(c, 0, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T05",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let n = if th { 10 } else { 9 };
                vec![
                    b(MapScn::<SplayMap<K, V>>::new("reference", MapCfg { max_n: n, keys: 130, ..CFG })),
                    b(MapScn::<SplaySet<K>>::new("reference", MapCfg { max_n: n, keys: 130, ..CFG })),
                    b(MapScn::<SplayMap<K, V>>::new("reference, no merging", MapCfg { max_n: 4, misuse: true, ..CFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(1, 1000, if th { 1 } else { 0 }, CAP);
                c.dfs(2, vec![vec![]], if th { 6 } else { 5 });
                long::<SplayMap<K, V>>(c, 0, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
                long::<SplaySet<K>>(c, 1, MapCfg { max_n: 1, keys: 130, ..CFG }, th);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T06",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let c = MapCfg { max_n: if th { 11 } else { 10 }, keys: 0, reference: false, value_ops: true, access: Some(splay_access), ..CFG };
                vec![
                    b(MapScn::<SplayMap<K, V>>::new("accessed key first", c)),
                    b(MapScn::<SplaySet<K>>::new("accessed key first", MapCfg { max_n: 7, ..c })),
                    b(MapScn::<SplayMap<K, V>>::new("total cost", MapCfg { max_n: 1, keys: 1024, reference: false, shaped: false, total: Some(splay_total), ..CFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, 0, CAP);
                c.bfs(1, 1000, 0, CAP);
                let s = MapScn::<SplayMap<K, V>>::new("", MapCfg { max_n: 1, keys: 1024, ..CFG });
                let mut t = vec![];
                for n in if th { vec![64usize, 256, 1000] } else { vec![64, 256] } {
                    for f in orders(n) {
                        for a in orders(n) {
                            for d in orders(n) {
                                let mut v: Vec<u16> = f.iter().map(|k| s.code(Op::InsKey(*k, 0))).collect();
                                v.extend(a.iter().map(|k| s.code(Op::GetMutKey(*k))));
                                v.extend(a.iter().map(|k| s.code(Op::GetMutKey(*k))));
                                v.extend(d.iter().map(|k| s.code(Op::RemKey(*k))));
                                t.push(v);
                            }
                        }
                    }
                }
                c.family(2, "6 fill orders x 6 access orders (twice) x 6 drain orders", t);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T07",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                vec![
                    b(MapScn::<TreapMap<K, V>>::new("reference, priorities in any order", MapCfg { max_n: if th { 5 } else { 4 }, rs: if th { &PRIOS[..5] } else { &PRIOS[..4] }, ..CFG })),
                    b(MapScn::<TreapSet<K>>::new("reference, priorities in any order", MapCfg { max_n: 4, rs: &PRIOS[..3], ..CFG })),
                    b(MapScn::<TreapMap<K, V>>::new("reference, equal priorities", MapCfg { max_n: if th { 7 } else { 6 }, rs: &[PRIOS[3], PRIOS[9]], ..CFG })),
                    b(MapScn::<TreapMap<K, V>>::new("reference, extreme priorities", MapCfg { max_n: 5, rs: &[0, u32::MAX], ..CFG })),
                    b(MapScn::<TreapMap<K, V>>::new("reference, no merging", MapCfg { max_n: 3, rs: &PRIOS[..2], misuse: true, ..CFG })),
                    b(MapScn::<TreapMap<K, V>>::new("long", MapCfg { max_n: 1, keys: 130, rs: &PRIOS, ..CFG })),
                    b(MapScn::<TreapSet<K>>::new("long", MapCfg { max_n: 1, keys: 130, rs: &PRIOS, ..CFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(1, 1000, 0, CAP);
                c.bfs(2, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(3, 1000, 0, CAP);
                c.dfs(4, vec![vec![]], if th { 5 } else { 4 });
                long::<TreapMap<K, V>>(c, 5, MapCfg { max_n: 1, keys: 130, rs: &PRIOS, ..CFG }, th);
                long::<TreapSet<K>>(c, 6, MapCfg { max_n: 1, keys: 130, rs: &PRIOS, ..CFG }, th);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T08",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                let c = MapCfg { reference: false, value_ops: false, shape: Some(treap_shape), repl_same: true, ..CFG };
                vec![
                    b(MapScn::<TreapMap<K, V>>::new("heap order", MapCfg { max_n: 5, rs: &PRIOS[..5], ..c })),
                    b(MapScn::<TreapMap<K, V>>::new("heap order", MapCfg { max_n: if th { 8 } else { 6 }, rs: &PRIOS[..3], ..c })),
                    b(MapScn::<TreapSet<K>>::new("heap order", MapCfg { max_n: 4, rs: &PRIOS[..4], ..c })),
                    b(MapScn::<TreapMap<K, V>>::new("heap order, replacing with other priorities", MapCfg { max_n: 4, rs: &PRIOS[..3], repl_same: false, ..c })),
                    b(MapScn::<TreapMap<K, V>>::new("heap order, long", MapCfg { max_n: 1, keys: 130, rs: &PRIOS, ..c })),
                    b(MapScn::<TreapMap<K, V>>::new("heap order, extreme priorities", MapCfg { max_n: if th { 5 } else { 4 }, rs: &PLOW, ..c })),
                    b(MapScn::<TreapSet<K>>::new("heap order, extreme priorities", MapCfg { max_n: 3, rs: &PLOW, ..c })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(1, 1000, 0, CAP);
                c.bfs(2, 1000, 1, CAP);
                c.bfs(3, if th { 10 } else { 7 }, 0, CAP);
                c.bfs(5, 1000, 0, CAP);
                c.bfs(6, 1000, 0, CAP);
                long::<TreapMap<K, V>>(c, 4, MapCfg { max_n: 1, keys: 130, rs: &PRIOS, ..CFG }, th);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T09",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                let c = PairCfg { universe: 4, rs: &PRIOS[..2], shape: Some(treap_shape), ownership: false, lean: false };
                vec![
                    b(PairScn::<TreapMap<K, V>>::new("algebra and splits, 2 priorities", PairCfg { universe: if th { 4 } else { 3 }, ..c })),
                    b(PairScn::<TreapSet<K>>::new("algebra and splits, 2 priorities", PairCfg { universe: 3, ..c })),
                    b(PairScn::<TreapMap<K, V>>::new("algebra and splits, 3 priorities", PairCfg { universe: 3, rs: &PRIOS[..3], lean: !th, ..c })),
                    b(PairScn::<TreapMap<K, V>>::new("algebra and splits, all pairs of subsets", PairCfg { universe: if th { 7 } else { 6 }, rs: &PRIOS, ..c })),
                    b(PairScn::<TreapSet<K>>::new("algebra and splits, all pairs of subsets", PairCfg { universe: if th { 6 } else { 5 }, rs: &PRIOS, ..c })),
                ]
            },
            explore: |c, th| {
                let h = if th { 1 } else { 0 };
                c.bfs(0, 1000, h, CAP);
                c.bfs(1, 1000, h, CAP);
                c.bfs(2, 1000, h, CAP);
                let cfg = PairCfg { universe: if th { 7 } else { 6 }, rs: &PRIOS, shape: None, ownership: false, lean: true };
                let s = PairScn::<TreapMap<K, V>>::new("", cfg);
                for rot in [1, 3, 5, 7, 9, 11, 13, 15] {
                    c.family(3, "every pair of subsets, then one operation", s.subsets(rot));
                }
                let s = PairScn::<TreapSet<K>>::new("", PairCfg { universe: if th { 6 } else { 5 }, ..cfg });
                for rot in [3, 7, 15] {
                    c.family(4, "every pair of subsets, then one operation", s.subsets(rot));
                }
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "T10",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                vec![
                    b(ListScn::<TreapList<V>>::new("3 priorities", ListCfg { max_n: 5, max_total: if th { 6 } else { 5 }, rs: &PRIOS[..3], ..LCFG })),
                    b(ListScn::<TreapList<V>>::new("5 priorities", ListCfg { max_n: 4, max_total: if th { 5 } else { 4 }, rs: &PRIOS[..5], ..LCFG })),
                    b(ListScn::<TreapList<V>>::new("2 priorities", ListCfg { max_n: if th { 8 } else { 7 }, max_total: if th { 8 } else { 7 }, rs: &PRIOS[..2], value_ops: false, ..LCFG })),
                    b(ListScn::<TreapList<V>>::new("no merging", ListCfg { max_n: 4, max_total: 4, rs: &PRIOS[..2], misuse: true, ..LCFG })),
                    b(ListScn::<TreapList<V>>::new("long", ListCfg { max_n: 1, max_total: 1, big: 130, rs: &PRIOS, ..LCFG })),
                ]
            },
            explore: |c, th| {
                c.bfs(0, 1000, 1, CAP);
                c.bfs(1, 1000, if th { 1 } else { 0 }, CAP);
                c.bfs(2, 1000, if th { 1 } else { 0 }, CAP);
                c.dfs(3, vec![vec![]], if th { 5 } else { 4 });
                let s = ListScn::<TreapList<V>>::new("", ListCfg { max_n: 1, max_total: 1, big: 130, rs: &PRIOS, ..LCFG });
                c.family(4, "6 fill patterns x 2 priority patterns x 6 drain patterns, with concatenation", s.long(if th { &[9, 20, 40, 80] } else { &[9, 20, 40] }));
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "M01",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME_RND,
            scenarios: |th| -> S {
                let c = MapCfg { max_n: if th { 7 } else { 6 }, take: true, ownership: true, reference: false, ..CFG };
                vec![
                    b(MapScn::<AvlMap<K, V>>::new("ownership", c)),
                    b(MapScn::<AvlSet<K>>::new("ownership", c)),
                    b(MapScn::<RedBlackMap<K, V>>::new("ownership", c)),
                    b(MapScn::<RedBlackSet<K>>::new("ownership", c)),
                    b(MapScn::<SplayMap<K, V>>::new("ownership", MapCfg { max_n: 6, ..c })),
                    b(MapScn::<SplaySet<K>>::new("ownership", MapCfg { max_n: 6, ..c })),
                    b(MapScn::<TreapMap<K, V>>::new("ownership", MapCfg { max_n: 4, rs: &PRIOS[..3], ..c })),
                    b(MapScn::<TreapSet<K>>::new("ownership", MapCfg { max_n: 4, rs: &PRIOS[..2], ..c })),
                    b(PairScn::<TreapMap<K, V>>::new("ownership, algebra", PairCfg { universe: 3, rs: &PRIOS[..2], shape: None, ownership: true, lean: false })),
                    b(PairScn::<TreapSet<K>>::new("ownership, algebra", PairCfg { universe: 3, rs: &PRIOS[..2], shape: None, ownership: true, lean: true })),
                    b(ListScn::<TreapList<V>>::new("ownership", ListCfg { max_n: 4, max_total: if th { 5 } else { 4 }, rs: &PRIOS[..3], ownership: true, ..LCFG })),
                ]
            },
            explore: |c, th| {
                for i in 0..11 {
                    c.bfs(i, 1000, if th || i < 4 || i == 10 { 1 } else { 0 }, CAP);
                }
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
    ];
    vpmc::engine::main(&checks)
}

const RULE: &str = "A case is one sequence of operations executed on the real collection and on the reference, compared at every step and observed in full at its end. Cases are enumerated, not drawn: breadth first with states merged on what is observed (plus the stated number of past steps), or all sequences up to a length. Distinct and non-trivial: a distinct (state, operation) pair.";
const ASSUME: &[&str] = &[
    "keys are only compared through Ord, so key sequences with the same order pattern behave alike (keys are named by rank)",
    "bounded size: the collections hold at most the stated number of elements in the exhaustive part",
];
const ASSUME_RND: &[&str] = &[
    "keys are only compared through Ord, so key sequences with the same order pattern behave alike (keys are named by rank)",
    "random choices come from rand::XorShiftRng; every outcome of the stated set is tried for every choice",
    "bounded size: the collections hold at most the stated number of elements in the exhaustive part",
];
