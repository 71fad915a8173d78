use extended_collections::radix::{RadixMap, RadixSet};
use vpmc::arena::{self, ArenaScn};
use vpmc::engine::*;
use vpmc::radix::*;
use vpmc::tok::V;

#[global_allocator]
static A: vpmc::alloc::Checking = vpmc::alloc::Checking;

fn b<S: Scenario + 'static>(s: S) -> Box<dyn Scenario> {
    Box::new(s)
}
type S = Vec<Box<dyn Scenario>>;
const CAP: usize = 40_000_000;

fn bytes(v: &[&[u8]]) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.to_vec()).collect()
}
/// Chains of prefixes, a branch at every depth, and the extreme bytes.
fn chain() -> Vec<Vec<u8>> {
    bytes(&[b"", b"a", b"aa", b"aab", b"aabb", b"aac", b"aabbaab", b"b"])
}
fn bits() -> Vec<Vec<u8>> {
    strings(&[0, 255], 2)
}
fn wide_keys() -> Vec<Vec<u8>> {
    // one node with all 256 bytes below it, and a few long keys
    let mut v: Vec<Vec<u8>> = (0..=255u8).map(|c| vec![b'k', c]).collect();
    v.sort();
    v
}
fn long_keys() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for i in 0..24usize {
        let mut k = vec![7u8; 40 + 37 * i];
        v.push(k.clone());
        let n = k.len();
        k[n / 2] = 8;
        v.push(k.clone());
        k[n - 1] = 6;
        v.push(k);
    }
    v.sort();
    v
}
fn deep_keys() -> Vec<Vec<u8>> {
    // all binary strings of length 5, and prefixes of some
    let mut v: Vec<Vec<u8>> = strings(&[1, 2], 5);
    v.sort();
    v
}

fn scns<M: RadixLike + 'static>(what: What, th: bool) -> S {
    let vals = what == What::Reference;
    let probes2: Vec<_> = strings(&[0, 9, 255], 3);
    vec![
        b(RadixScn::<M>::new("2 bytes, length up to 3", strings(b"ab", 3), strings(b"abc", if th { 5 } else if vals { 3 } else { 4 }), what, th && vals, false)),
        b(RadixScn::<M>::new("3 bytes, length up to 2", strings(&[0, 128, 255], 2), strings(&[0, 128, 255, 7], 3), what, false, false)),
        b(RadixScn::<M>::new("prefix chains", chain(), {
            let mut p = chain();
            p.extend(strings(b"abc", 4));
            p.extend(bytes(&[b"aabbaa", b"aabbaaba", b"aabbaabb", b"aabbb", b"zzz"]));
            p
        }, what, vals, true)),
        b(RadixScn::<M>::new("2 bytes, length up to 2", bits(), probes2, what, vals, true)),
        b(RadixScn::<M>::new("256 branches", wide_keys(), wide_keys().into_iter().step_by(5).chain(bytes(&[b"", b"k", b"kkk", b"l"])).collect(), what, false, false)),
        b(RadixScn::<M>::new("keys of up to 900 bytes", long_keys(), long_keys().into_iter().chain(bytes(&[b"", &[7u8; 300], &[7u8; 301]])).collect(), what, false, false)),
        b(RadixScn::<M>::new("2 bytes, length up to 5", deep_keys(), strings(&[1, 2], 6), what, false, false)),
    ]
}
fn explore<M: RadixLike + 'static>(c: &mut Ctx, off: usize, th: bool, what: What, set: bool) {
    if !set || th {
        c.bfs(off, 1000, 0, CAP);
        c.bfs(off + 1, 1000, 0, CAP);
    }
    c.bfs(off + 2, 1000, if th { 2 } else { 1 }, CAP);
    c.bfs(off + 3, 1000, if th { 2 } else { 1 }, CAP);
    c.dfs(off + 3, vec![vec![]], if th { 5 } else { 4 });
    let every = if th { 1 } else { 7 };
    let s = RadixScn::<M>::new("", wide_keys(), vec![], what, false, false);
    c.family(off + 4, "6 fill orders x 6 drain orders, then filled again", s.fill_drain(if th { 7 } else { 41 }));
    let s = RadixScn::<M>::new("", long_keys(), vec![], what, false, false);
    c.family(off + 5, "6 fill orders x 6 drain orders, then filled again", s.fill_drain(every));
    let s = RadixScn::<M>::new("", deep_keys(), vec![], what, false, false);
    c.family(off + 6, "6 fill orders x 6 drain orders, then filled again", s.fill_drain(every));
}

fn main() {
    let checks = [
        Check {
            id: "R01",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v = scns::<RadixMap<V>>(What::Reference, th);
                v.extend(scns::<RadixSet>(What::Reference, th));
                v
            },
            explore: |c, th| {
                explore::<RadixMap<V>>(c, 0, th, What::Reference, false);
                explore::<RadixSet>(c, 7, th, What::Reference, true);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "R02",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v = scns::<RadixMap<V>>(What::Longest, th);
                v.extend(scns::<RadixSet>(What::Longest, th));
                v
            },
            explore: |c, th| {
                explore::<RadixMap<V>>(c, 0, th, What::Longest, false);
                explore::<RadixSet>(c, 7, th, What::Longest, true);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
        Check {
            id: "A01",
            level: "model_checking",
            rule: RULE,
            assumptions: &["bounded size: at most the stated number of live objects in the exhaustive part"],
            scenarios: |th| -> S {
                let m = if th { 8 } else { 6 };
                vec![
                    b(ArenaScn { chunk: 1, max: m, misuse: false }),
                    b(ArenaScn { chunk: 2, max: m, misuse: false }),
                    b(ArenaScn { chunk: 3, max: m, misuse: false }),
                    b(ArenaScn { chunk: 1, max: 4, misuse: true }),
                    b(ArenaScn { chunk: 2, max: 5, misuse: true }),
                    b(ArenaScn { chunk: 3, max: 5, misuse: true }),
                    b(ArenaScn { chunk: 8, max: 200, misuse: false }),
                    b(ArenaScn { chunk: 1024, max: 4, misuse: true }),
                ]
            },
            explore: |c, th| {
                for i in 0..3 {
                    c.bfs(i, 1000, 0, CAP);
                }
                for i in 3..6 {
                    c.bfs(i, 1000, if th { 1 } else { 0 }, CAP);
                }
                c.dfs(4, vec![vec![]], if th { 8 } else { 6 });
                c.bfs(7, 1000, 1, CAP);
                let mut traces = vec![];
                for n in [9usize, 17, 64, 200] {
                    for d in vpmc::trees::orders(n) {
                        let mut t: Vec<u16> = (0..n).map(|_| arena::alloc()).collect();
                        for half in [n / 2, n] {
                            for k in d.iter().take(half) {
                                t.push(arena::free(*k));
                            }
                            traces.push(t.clone());
                            for _ in 0..half {
                                t.push(arena::alloc());
                            }
                            traces.push(t.clone());
                        }
                    }
                }
                c.family(6, "fill, free half or all in 6 orders, fill again", traces);
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
    ];
    vpmc::engine::main(&checks);
}
const RULE: &str = "A case is one sequence of operations executed on the real collection and on the reference, compared at every step and observed in full at its end. Cases are enumerated, not drawn: breadth first with states merged on what is observed (plus the stated number of past steps), or all sequences up to a length. Distinct and non-trivial: a distinct (state, operation) pair.";
const ASSUME: &[&str] = &[
    "keys are byte strings over the stated alphabets; other bytes behave alike (the code only compares bytes)",
    "bounded size: the collections hold at most the stated number of elements in the exhaustive part",
];
