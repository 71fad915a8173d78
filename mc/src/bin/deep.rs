use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use vpmc::depth::*;
use vpmc::engine::*;
use vpmc::tok::{K, V};

fn b<S: Scenario + 'static>(s: S) -> Box<dyn Scenario> {
    Box::new(s)
}

fn main() {
    let checks = [Check {
        id: "T11",
        level: "model_checking",
        rule: "A case is one sequence of runs of insertions and other operations, executed on the real collection; the call stack used is measured, 64 KB of it directly and beyond in every comparison and every drop the collection makes. All sequences up to a length are enumerated, not drawn. Distinct: the sequence; non-trivial: all but the empty one.",
        assumptions: &[
            "stack below the call is filled with a pattern beforehand and looked at afterwards (x86-64; elsewhere the depth is taken in comparisons and drops only)",
            "built without optimisation, so that recursion is not turned into loops; unbounded recursion is told from logarithmic one by runs of 2000 elements and a limit of 48 KB",
            "random choices come from rand::XorShiftRng; one well mixed sequence of choices is used",
        ],
        scenarios: |_| -> Vec<Box<dyn Scenario>> {
            vec![
                b(DeepScn::<SplayMap<K, V>>::new()),
                b(DeepScn::<SplaySet<K>>::new()),
                b(DeepScn::<AvlMap<K, V>>::new()),
                b(DeepScn::<AvlSet<K>>::new()),
                b(DeepScn::<RedBlackMap<K, V>>::new()),
                b(DeepScn::<RedBlackSet<K>>::new()),
                b(DeepScn::<TreapMap<K, V>>::pair()),
                b(DeepScn::<TreapSet<K>>::pair()),
                b(DeepScn::<SkipMap<K, V>>::pair()),
                b(DeepScn::<SkipSet<K>>::pair()),
                b(DeepListScn::<TreapList<V>>::new()),
                b(DeepListScn::<SkipList<V>>::new()),
            ]
        },
        explore: |c, th| {
            for i in 0..12 {
                c.dfs(i, vec![vec![]], if th { 4 } else if i < 2 { 3 } else { 2 });
            }
        },
        budget_s: (300, 3000),
        hang_s: 60,
    }];
    vpmc::engine::main(&checks)
}
