use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use vpmc::engine::*;
use vpmc::work::*;

#[global_allocator]
static A: Constant = Constant;

fn b<S: Scenario + 'static>(s: S) -> Box<dyn Scenario> {
    Box::new(s)
}

fn main() {
    if !counts() {
        eprintln!("instructions cannot be counted here (no trap flag); lengths and answers are checked only");
        count("instructions_cannot_be_counted", 1);
    }
    let checks = [Check {
        id: "T12",
        level: "model_checking",
        rule: "A case is one sequence of runs of operations, executed on the real collection, after which every kind of operation is executed at the first, middle and last position with the processor in single-step mode, which counts the instructions. All sequences up to a length are enumerated, not drawn. Distinct: the sequence; non-trivial: all but the empty one.",
        assumptions: &[
            "an x86-64 processor with the trap flag; elsewhere nothing is measured",
            "cost in proportion to the number of elements is told from logarithmic one by runs of 12000 elements and a limit of 25000 instructions (lists 120000 and 16000, arena 40000 and 20000, concurrent stack, which reclaims in batches, 60000 and 120000, LSM store in memory 8000 and 20000)",
            "random choices come from rand::XorShiftRng; one well mixed sequence of choices is used",
        ],
        scenarios: |_| -> Vec<Box<dyn Scenario>> {
            vec![
                b(WorkScn::<AvlMap<u64, u64>>::new(false)),
                b(WorkScn::<AvlSet<u64>>::new(false)),
                b(WorkScn::<RedBlackMap<u64, u64>>::new(false)),
                b(WorkScn::<RedBlackSet<u64>>::new(false)),
                b(WorkScn::<SplayMap<u64, u64>>::new(false)),
                b(WorkScn::<SplaySet<u64>>::new(false)),
                b(WorkScn::<TreapMap<u64, u64>>::new(true)),
                b(WorkScn::<TreapSet<u64>>::new(true)),
                b(WorkScn::<SkipMap<u64, u64>>::new(true)),
                b(WorkScn::<SkipSet<u64>>::new(true)),
                b(WorkScn::<RadixMap>::new(false)),
                b(WorkScn::<RadixSet>::new(false)),
                b(WorkListScn::<TreapList<u64>>::new(u32::MAX)),
                b(WorkListScn::<TreapList<u64>>::new(0x000f_ffff)),
                b(WorkListScn::<TreapList<u64>>::new(0xffff_f000)),
                b(WorkListScn::<SkipList<u64>>::new(u32::MAX)),
                b(WorkPoolScn::<ArenaPool>::new()),
                b(WorkPoolScn::<StackPool>::new()),
                b(WorkPoolScn::<LsmPool>::new()),
            ]
        },
        explore: |c, th| {
            for i in 0..19 {
                c.dfs(i, vec![vec![]], if i == 18 { if th { 4 } else { 2 } } else if i > 15 { 4 } else if th && i < 12 { 4 } else if th { 3 } else { 2 });
            }
        },
        budget_s: (300, 3000),
        hang_s: 60,
    }];
    vpmc::engine::main(&checks)
}
