HOOKS = {"guard": "cfg(vp_sync)", "enable": "--cfg vp_sync in RUSTFLAGS (mc/.cargo/config.toml, stackmc/.cargo/config.toml), together with the shims of crossbeam-epoch in /verif/shims"}

def P(id, title, statement, over, qtext, why, files, mech, note, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
             why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, note=note)
    d["anchors"]["hook_needed"] = kw.pop("hook", None)
    d.update(kw)
    return d

BST = "The unit tests insert and remove a handful of fixed keys (and one random bulk run); which rebalancing case runs depends on the shape reached by the whole history, and they never compare the whole observable state with a reference after each step."
RND = "The tests run with one fixed random seed, so one outcome of every random choice per position; the structure depends on all of them."
N1 = " Bounded: sizes up to the number stated in the evidence (all shapes reachable up to it), keys named by rank, plus fixed long fill/drain families to 64-120 elements; no claim beyond those bounds."

PROPS = [
P("T01", "AVL map and set answer every operation like a sorted reference",
  "After any sequence of inserts, replacing inserts, removals (of present and absent keys), mutable accesses and clears, an AVL map or set gives exactly the answers of a sorted reference: what insert and remove return, lookups, floor, ceiling, minimum, maximum, length, and the content and order of every iterator. An insert of an equal key returns the old entry and keeps the new one. Indexing an absent key panics and changes nothing.",
  ["histories", "inputs"], "every sequence of operations, every relative order of keys", BST,
  ["src/avl_tree/map.rs", "src/avl_tree/set.rs", "src/avl_tree/tree.rs", "src/avl_tree/node.rs"],
  [("recursive insert/remove with rotations and height updates", "src/avl_tree/tree.rs insert, remove, remove_min, balance"), ("in-order iterators with an explicit stack", "src/avl_tree/map.rs")],
  "Every reachable (shape, last step) up to 12 keys, every operation from each, full comparison with a sorted reference in each state." + N1),
P("T02", "AVL trees stay height-balanced",
  "After any sequence of inserts and removals on an AVL map or set, below every key the heights of the two sides of the search tree, as lookups traverse it, differ by at most one; so a lookup among n keys compares fewer than 1.45*log2(n+2) keys.",
  ["histories"], "every sequence of inserts and removals", "The tests never look at the shape; a missing rebalancing step leaves every answer right and costs only time.",
  ["src/avl_tree/tree.rs", "src/avl_tree/node.rs"],
  [("balance after insert and remove", "src/avl_tree/tree.rs balance"), ("cached heights", "src/avl_tree/node.rs update")],
  "The tree is reconstructed from the comparisons that lookups make, in every reachable state up to 13 keys, and the height rule is checked at every key." + N1),
P("T03", "Red-black map and set answer every operation like a sorted reference",
  "After any sequence of inserts, replacing inserts, removals (of present and absent keys), mutable accesses and clears, a red-black map or set gives exactly the answers of a sorted reference: what insert and remove return, lookups, floor, ceiling, minimum, maximum, length, and the content and order of every iterator. An insert of an equal key returns the old entry and keeps the new one. Indexing an absent key panics and changes nothing.",
  ["histories", "inputs"], "every sequence of operations, every relative order of keys", BST,
  ["src/red_black_tree/map.rs", "src/red_black_tree/set.rs", "src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"],
  [("left-leaning red-black insert and remove", "src/red_black_tree/tree.rs insert, remove, remove_min, combine_subtrees"), ("iterators", "src/red_black_tree/map.rs")],
  "Every reachable (shape, last step) up to 13 keys, every operation from each, full comparison with a sorted reference in each state." + N1),
P("T04", "Red-black trees keep logarithmic height under any history",
  "After any sequence of inserts and removals on a red-black map or set, the search tree, as lookups traverse it, has a colouring that satisfies the red-black rules (no red key below a red key, equally many black keys on every path), so no lookup among n keys compares more than 2*log2(n+1) stored keys.",
  ["histories"], "every sequence of inserts and removals", "The tests never look at the shape; a missing rotation or colour flip leaves every answer right and costs only time.",
  ["src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"],
  [("rotations and colour flips on the way up", "src/red_black_tree/node.rs, src/red_black_tree/tree.rs balance, shift_left, shift_right")],
  "The tree is reconstructed from the comparisons that lookups make, in every reachable state up to 15 keys; path bound and existence of a colouring are decided there." + N1),
P("T05", "Splay map and set answer every operation like a sorted reference",
  "After any sequence of inserts, replacing inserts, removals (of present and absent keys), lookups, mutable accesses (of present and absent keys) and clears, a splay map or set gives exactly the answers of a sorted reference: what insert and remove return, lookups, floor, ceiling, minimum, maximum, length, and the content and order of every iterator. An insert of an equal key returns the old entry and keeps the new one. Indexing an absent key panics and changes no entry.",
  ["histories", "inputs"], "every sequence of operations, every relative order of keys", BST,
  ["src/splay_tree/map.rs", "src/splay_tree/set.rs", "src/splay_tree/tree.rs", "src/splay_tree/node.rs"],
  [("top-down splaying that restructures on access", "src/splay_tree/tree.rs splay"), ("iterators", "src/splay_tree/map.rs")],
  "Every reachable shape up to 9 keys, every operation from each, full comparison with a sorted reference in each state." + N1),
P("T06", "Splay trees bring the accessed key to the top and cost O(log n) amortised",
  "Right after a key is inserted into a splay map or set, or mutably accessed in a splay map, it is the first key that a lookup compares. The number of keys compared by inserts, removals and mutable accesses is logarithmic amortised: each operation satisfies the access lemma up to constants, and any sequence of m such operations on n keys compares O((m + n) log n) keys.",
  ["histories"], "every sequence of operations", "The tests never look at the shape or cost; leaving out a rotation keeps every answer right.",
  ["src/splay_tree/tree.rs"], [("zig, zig-zig and zig-zag steps", "src/splay_tree/tree.rs splay")],
  "Shapes before and after each operation are reconstructed from lookup comparisons in every reachable state up to 10 keys; bound 3*log2(n+1)+3 on comparisons plus potential change." + N1),
P("T07", "Treap map and set answer every operation like a sorted reference",
  "Whatever priorities are drawn, after any sequence of inserts, replacing inserts, removals (of present and absent keys), mutable accesses and clears, a treap map or set gives exactly the answers of a sorted reference: what insert and remove return, lookups, floor, ceiling, minimum, maximum, length, and the content and order of every iterator. An insert of an equal key returns the old entry and keeps the new one. Indexing an absent key panics and changes nothing.",
  ["histories", "inputs"], "every sequence of operations, every relative order of keys and of drawn priorities, including equal ones", RND,
  ["src/treap/map.rs", "src/treap/set.rs", "src/treap/tree.rs", "src/treap/node.rs"],
  [("split and merge by priority", "src/treap/tree.rs insert, remove, split, merge"), ("cached sizes", "src/treap/node.rs update")],
  "Every reachable state up to 4 keys with 4 priorities (7 keys with 2), every operation with every priority from each, full comparison with a sorted reference." + N1),
P("T08", "A treap is the heap-ordered tree of its drawn priorities",
  "Whatever priorities are drawn, after any sequence of inserts and removals on a treap map or set, no key lies below a key whose priority should lie below its own: the priorities drawn for the keys form a heap along every lookup path. With independent priorities this gives logarithmic expected lookup cost.",
  ["histories", "inputs"], "every sequence of inserts and removals, every relative order of priorities", "The tests never look at the shape; ignoring priorities keeps every answer right and costs only time.",
  ["src/treap/tree.rs"], [("priority comparison in insert and merge", "src/treap/tree.rs")],
  "Priorities are supplied by the checker for every draw; the tree is reconstructed from lookup comparisons and the heap rule decided in every state." + N1),
P("T09", "Treap set algebra and splitting are exact",
  "For treap maps and sets, union (also as +), intersection, difference (also as -) and symmetric difference of any two collections contain exactly the entries of the set-theoretic result, taking the left operand's entry where a key is in both. Splitting at any probe leaves the smaller keys and returns the greater ones, an equal key staying on the left exactly if the split is inclusive. The results answer every query like a sorted reference and are heap-ordered treaps again.",
  ["inputs", "histories"], "every pair of operands, every shape of each, every probe", "The tests combine one pair of small operands per operation and read the result by iterator only.",
  ["src/treap/tree.rs", "src/treap/map.rs", "src/treap/set.rs"],
  [("recursive union, intersection, difference with swapped operands", "src/treap/tree.rs union, intersection, difference"), ("split_off", "src/treap/map.rs, src/treap/set.rs")],
  "Two treaps over 3-4 keys closed under insert, remove, swap, all set operations and all splits, for 2-3 priorities; every pair of subsets of 6 keys with 8 priority patterns." + N1),
P("T10", "Treap list behaves like a growable array",
  "Whatever priorities are drawn, after any sequence of inserts and removals at any position, pushes and pops at both ends, mutable accesses, clears and concatenations, a treap list holds exactly the elements of a reference array in order: access by every index (none beyond the end), length and all iterators agree. Out-of-range insertions, removals and indexing panic and change nothing.",
  ["histories", "inputs"], "every sequence of operations, every position, every relative order of priorities", RND,
  ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/treap/node.rs"],
  [("implicit keys from subtree sizes", "src/treap/node.rs ImplicitNode::update, get_implicit_key"), ("split and merge by position", "src/treap/implicit_tree.rs")],
  "Two lists with up to 5 elements (7 with 2 priorities), every operation from each state, full comparison with an array." + N1),
P("T11", "No collection goes deep into the call stack, however many elements",
  "Whatever the history and shape of an AVL, red-black, splay, treap or skiplist map, set or list, no operation on it (including set operations, splitting, clearing, dropping, and dropping a half consumed by-value iterator) takes call stack in proportion to the number of its elements. So a collection that fits in memory does not overflow the stack.",
  ["histories"], "every sequence of runs of insertions, removals, accesses, clears and by-value iterations", "The tests hold few elements; a splay tree filled in order is as deep as it is large, and recursing into it ends the process only at some hundred thousand elements.",
  ["src/splay_tree/tree.rs", "src/splay_tree/map.rs", "src/avl_tree/tree.rs", "src/red_black_tree/tree.rs", "src/treap/tree.rs", "src/treap/implicit_tree.rs", "src/skiplist/map.rs", "src/skiplist/list.rs"],
  [("loops instead of recursion in splay trees", "src/splay_tree/tree.rs get, floor, ceil, clear"), ("recursion only in balanced trees", "avl_tree, red_black_tree, treap")],
  "Every sequence of up to 3 (splay; 4 in thorough) or 2 (others) operations out of runs of 2000 insertions in 3 orders at 3 places, removals, accesses, lookups, set operations, splits, clearing and by-value iteration; the stack used is measured directly (x86-64) in an unoptimised build, limit 48 KB. Radix trees are not covered: they recurse along chains of nested prefixes, as deep as keys are long."),
P("T12", "Single operations take no time in proportion to the number of elements",
  "Whatever the history, a single operation on an AVL, red-black, treap, skiplist or radix map or set (insert, remove, lookup, floor, ceiling, minimum, maximum, length, first step of an iterator, union with one key, splitting a treap) or on an indexed list (also concatenation, splitting, pushing and popping), an arena, a concurrent stack or the part of an LSM map in memory takes a number of instructions that does not grow in proportion to the number of its elements. For splay maps and sets this holds of length and emptiness.",
  ["histories"], "every sequence of runs of insertions in several orders, removals, accesses and clears", "The tests hold few elements and measure nothing; an operation that walks over all elements, or a structure that has lost its shape, gives every answer right.",
  ["src/avl_tree/tree.rs", "src/red_black_tree/tree.rs", "src/treap/tree.rs", "src/treap/implicit_tree.rs", "src/skiplist/map.rs", "src/skiplist/list.rs", "src/radix/map.rs", "src/arena/mod.rs", "src/sync/stack.rs", "src/lsm_tree/map.rs"],
  [("descents along one path", "avl_tree, red_black_tree, treap, radix"), ("distances stored with the links", "src/skiplist/list.rs"), ("lengths and sizes kept, not counted", "all collections")],
  "Every sequence of up to 2-4 operations out of runs of 12000 (lists 120000) insertions in several orders and places, removals, lookups and clears; then each kind of operation is executed at the first, middle and last position and its instructions are counted by single-stepping the processor (limits 25000 and 16000; the code takes at most a tenth to a quarter). One well mixed sequence of random choices (three ranges of priorities for treap lists). The amortised cost of splay operations is another property."),
P("S01", "Skiplist map and set answer every operation like a sorted reference",
  "Whatever tower heights are drawn, after any sequence of inserts, replacing inserts, removals (of present and absent keys), mutable accesses and clears, a skiplist map or set gives exactly the answers of a sorted reference: what insert and remove return, lookups, floor, ceiling, minimum, maximum, length, and the content and order of every iterator. An insert of an equal key returns the old entry and keeps the new one. Indexing an absent key panics and changes nothing.",
  ["histories", "inputs"], "every sequence of operations, every relative order of keys, every combination of heights including the extreme ones", RND,
  ["src/skiplist/map.rs", "src/skiplist/set.rs"],
  [("linking and unlinking a tower on every level", "src/skiplist/map.rs insert, remove"), ("raw nodes with a variable number of links", "src/skiplist/map.rs Node")],
  "Every reachable combination of keys and heights up to 4 keys x 3 heights (6 x 2, 3 x {0,1,31,32}), every operation from each, full comparison; built with optimisation." + N1),
P("S02", "Skiplist set algebra is exact",
  "For skiplist maps and sets, union (also as +), intersection, difference (also as -) and symmetric difference of any two collections contain exactly the entries of the set-theoretic result, taking the left operand's entry where a key is in both. The results, and what is built further on them, answer every query like a sorted reference.",
  ["inputs", "histories"], "every pair of operands, every combination of heights", "The tests combine one pair of small operands per operation and read the result by iterator only.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs"],
  [("merging two linked lists and relinking every level", "src/skiplist/map.rs union, intersection, map_difference")],
  "Two collections over 3-4 keys closed under insert, remove, swap and all set operations, heights 0-2 and extreme ones; every pair of subsets of 6 keys with 3 height patterns." + N1),
P("S03", "Skiplist list behaves like a growable array",
  "Whatever tower heights are drawn, after any sequence of inserts and removals at any position, pushes and pops at both ends, mutable accesses, clears and concatenations, a skiplist list holds exactly the elements of a reference array in order: access by every index (none beyond the end), length and all iterators agree. Out-of-range insertions, removals and indexing panic and change nothing.",
  ["histories", "inputs"], "every sequence of operations, every position, every combination of heights including the extreme ones", RND,
  ["src/skiplist/list.rs"],
  [("link widths kept on every level", "src/skiplist/list.rs insert, remove, Add")],
  "Two lists with up to 5 elements, 2-3 heights and the extreme ones, every operation from each state; three more elements appended in each state to expose hidden widths." + N1),
P("S04", "A skiplist lookup costs what its drawn towers promise",
  "After any sequence of inserts, removals and set operations on skiplist maps and sets, looking up a key compares no more keys than a search of the skiplist with the towers drawn for its keys. With independent fair draws this gives logarithmic expected lookup cost.",
  ["histories", "inputs"], "every sequence of operations, every combination of heights", "The tests never count comparisons; a tower that is not linked on its upper levels leaves every answer right and costs only time.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs"], [("links of a tower on every level", "src/skiplist/map.rs insert, remove, union, intersection, map_difference"), ("starting level by length", "src/skiplist/map.rs get_starting_height")],
  "Heights are supplied by the checker for every draw; lookups in every reachable combination of keys and heights (4 keys x 4 heights, 5 x 3, pairs of collections over 3 keys closed under set operations, every pair of subsets of 6 keys) are compared with a simulated search, and families to 150-300 keys." + N1),
P("M01", "Tree collections own every element exactly once",
  "Every key and value given to an AVL, red-black, splay or treap map, set or list is returned to the caller or dropped exactly once, whatever the sequence of inserts, replacements, removals, clears, set operations, concatenations and by-value iterations dropped half way, and dropping the collection frees all its memory.",
  ["histories"], "every sequence of operations", "The tests use integers, for which a lost or doubled drop is invisible.",
  ["src/avl_tree/tree.rs", "src/red_black_tree/tree.rs", "src/splay_tree/tree.rs", "src/treap/tree.rs", "src/treap/implicit_tree.rs", "src/treap/list.rs"],
  [("ownership by boxed nodes", "tree modules"), ("by-value iterators", "map.rs IntoIter types")],
  "Element ledger and a checking allocator (leaks, double frees, overruns, use after free) on every explored sequence up to 6 keys." + N1),
P("M02", "Skiplist collections own every element exactly once and stay in bounds",
  "Every key and value given to a skiplist map, set or list is returned to the caller or dropped exactly once, whatever the heights drawn and the sequence of inserts, replacements, removals, clears, set operations, concatenations and by-value iterations dropped half way; no memory is written out of bounds or after it is freed, and dropping the collection frees all its memory.",
  ["histories", "inputs"], "every sequence of operations, every combination of heights including the extreme ones", "The tests use integers, for which a lost or doubled drop is invisible, and do not see out-of-bounds writes.",
  ["src/skiplist/map.rs", "src/skiplist/list.rs", "src/skiplist/set.rs"],
  [("manual allocation and deallocation of nodes", "src/skiplist/map.rs Node::allocate, deallocate, free"), ("owning iterators", "SkipMapIntoIter, SkipListIntoIter")],
  "Element ledger and a checking allocator (leaks, double frees, wrong layouts, overruns, writes after free) on every explored sequence." + N1),
P("M03", "Misbehaving user code never makes a skiplist unsound",
  "If a comparison of keys panics or answers inconsistently, or an element's destructor panics, during any operation on skiplist maps, sets or lists (set operations, clearing, dropping and by-value iteration included), then neither that operation nor any later one, on what is left of the collections, drops an element twice, hands out a dropped element or touches freed or foreign memory. Elements may then be lost or leaked, and answers are unspecified.",
  ["fault_sequences", "histories"], "every comparison and destructor that may misbehave, in every sequence of operations", "The tests only use well-behaved integers; whether a node is still linked when a comparison or destructor runs shows only if that misbehaves.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs", "src/skiplist/list.rs"],
  [("links change only after the last comparison", "src/skiplist/map.rs insert, remove"), ("nodes leave the collection before they are freed", "clear, Drop, IntoIter of map.rs and list.rs"), ("heads used as cursors", "src/skiplist/map.rs union, intersection, map_difference")],
  "From each reachable combination of keys and heights of one or two collections (up to 3 + 3 keys) each operation is repeated with a panic at each comparison and destructor call it makes, or with each answer for each comparison, then everything is looked at, used and dropped, under the ledger and the checking allocator; on smaller ones two operations in a row misbehave. Bounded to these sizes; one or two panics per history.",
  tech="fault"),
P("M04", "Safe use of the skiplists never is undefined behaviour, whatever the elements",
  "Whatever the type of the elements of a skiplist map, set or list (its size, alignment and invalid bit patterns; types without size included), no sequence of safe calls makes a misaligned, dangling, uninitialised or out-of-bounds access or an invalid value. Every reference handed out is aligned, and no two mutable references that live at the same time are to the same element.",
  ["histories", "configurations"], "every sequence of operations, for every type of element", "The tests run natively with integers of at most 8 bytes, and undefined behaviour need not show when it happens.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs", "src/skiplist/list.rs"],
  [("layout of nodes with a tail of links", "src/skiplist/map.rs, src/skiplist/list.rs Node::allocate, deallocate, get_pointer"), ("iterators that hold references into nodes", "src/skiplist/map.rs iter, iter_mut; src/skiplist/list.rs iter, iter_mut")],
  "For 25 combinations of collection and element types every operation in every reachable state of small collections (contents and heights; up to 2 + 1 elements, thorough 3 + 2) is performed on the real code under Miri, which checks each step it interprets; then everything is looked at, through all iterators at once. Without an aliasing model (Stacked Borrows): what counts as undefined there is still experimental."),
P("R01", "Radix map and set answer every operation like a sorted reference",
  "For any byte strings as keys (the empty one included) and any sequence of inserts, replacing inserts, removals (of present and absent keys), mutable accesses and clears, a radix map or set gives exactly the answers of a sorted reference: what insert and remove return, lookups, minimum, maximum, length, and the content and lexicographic order of every iterator, also after it was emptied. Indexing an absent key panics and changes nothing.",
  ["histories", "inputs"], "every sequence of operations over every set of byte strings", "The tests use a handful of fixed keys; which split and merge of edges runs depends on the keys already there and on the history, and no test fills a map again after emptying it.",
  ["src/radix/tree.rs", "src/radix/node.rs", "src/radix/map.rs", "src/radix/set.rs"],
  [("splitting edges on insert, merging them on remove", "src/radix/node.rs split, merge; src/radix/tree.rs insert, remove"), ("iterators that rebuild keys", "src/radix/map.rs")],
  "All sets of up to 15 strings over 2-3 bytes, chains of prefixes, every operation from each set (plus one step of history, and all sequences of 4-5 operations unmerged); families with 256 branches, keys of 900 bytes, all 63 binary strings up to length 5. Bounded to these alphabets and lengths."),
P("R02", "Longest-prefix search returns exactly the best-matching keys",
  "For any content of a radix map or set and any probe, the longest-prefix search returns, in lexicographic order, exactly the keys that share the longest common prefix with the probe that any key shares with it. If no key has its first byte in common with a non-empty probe, no non-empty key is returned; for the empty probe all keys are returned. The answer does not depend on the history.",
  ["inputs", "histories"], "every set of byte strings, every probe, every history leading to the set", "The tests ask for one probe on each of six tiny maps, where it happens to end inside an edge.",
  ["src/radix/tree.rs", "src/radix/node.rs"],
  [("descent along edges, collecting a subtree", "src/radix/tree.rs get_longest_prefix, src/radix/node.rs push_all_children")],
  "The same sets of keys and histories as for the reference property, with every probe over one more byte and one more position, against a brute-force answer. Bounded to these alphabets and lengths."),
P("A01", "Arena handles are unique, stable and reused",
  "In a typed arena with chunks of at least one object, every live handle leads to its own object, at an address that never changes, whatever else is allocated and freed; an allocated handle never equals a live one. Freeing returns the object; handles that are freed or were never issued by the arena lead to nothing, and freeing them or indexing by them panics and changes nothing. Freed places are reused: the number of places ever used stays within the peak number of live objects rounded up to whole chunks, and dropping the arena drops every object left in it once.",
  ["histories"], "every sequence of allocations, frees (right and wrong ones) and writes", "The tests allocate at most three objects and free at most one.",
  ["src/arena.rs"], [("free list threaded through vacant blocks", "src/arena.rs allocate, free")],
  "Every reachable state (live handles, order of freed ones) with up to 6 live objects and chunks of 1, 2, 3 and 1024; wrong frees in every state up to 5; fill/free/fill families to 200. Bounded to these sizes."),
P("B01", "The on-disk B+ tree answers every operation like a sorted reference",
  "For any leaf degree of at least one and internal degree of at least two, after any sequence of inserts, replacing inserts, removals (of present and absent keys) and clears, the on-disk map gives exactly the answers of a sorted reference: what insert and remove return, lookups, minimum, maximum, length, and the content and order of its iterator; no operation fails with an error.",
  ["histories", "inputs", "configurations"], "every sequence of operations, every relative order of keys, every pair of degrees", "The tests use one order of keys with one or two degrees; which split, borrow or merge runs depends on the whole history and on the degrees.",
  ["src/bp_tree/map.rs", "src/bp_tree/node.rs", "src/bp_tree/pager.rs"],
  [("splits on insert, borrowing and merging on remove", "src/bp_tree/map.rs insert, remove; src/bp_tree/node.rs"), ("leaf chain for iteration", "src/bp_tree/node.rs LeafNode::merge, next_leaf")],
  "The whole reachable state space (files up to the numbering of pages) for 7-9 keys and 12 pairs of degrees, every operation from each state, on real files; fill/drain/fill families to 460 keys including the default degrees. Bounded to these key counts."),
P("B02", "The on-disk B+ tree survives closing and opening at any point",
  "If an on-disk map is closed after any sequence of operations and opened again from its file, it has exactly the entries it had, and every further operation behaves as if it had never been closed: the degrees, the declared sizes, the free space and the content all come back.",
  ["histories"], "every sequence of operations and every place in it where the map is closed and opened", "One test opens one small file once.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("metadata written with every change", "src/bp_tree/pager.rs set_len, set_root_page, allocate_node, deallocate_node, clear")],
  "Every reachable state for 5-6 keys, 4 pairs of degrees: opened again after every operation, or as one more operation at any point, next to a twin that takes the same operations without ever being closed and whose file must not be shorter; families to 420 keys with reopening in between. Bounded to these key counts; a clean close only (the map keeps no log, so nothing is claimed for a crash)."),
P("B03", "Items up to the declared size fit, larger ones are refused",
  "Whatever the types of keys and values, items whose encoding is at most as long as the size declared for the map never damage other entries, however full the pages are: the map keeps answering like a reference. Inserting a key or value with a longer encoding panics and leaves the map as it was.",
  ["inputs", "configurations", "histories"], "every type of key and value, every content, every history", "The tests store fixed-size integers, whose in-memory size happens to leave slack in the page size.",
  ["src/bp_tree/node.rs", "src/bp_tree/pager.rs"],
  [("page size computed from the declared sizes", "src/bp_tree/node.rs get_max_size, get_payload_size, get_constant_size"), ("validation of items", "src/bp_tree/pager.rs validate_key, validate_value")],
  "11 pairs of types (with larger keys than values and the reverse; integers, strings, byte vectors, boxed slices, options, booleans, unit), 3 pairs of degrees: every reachable state for 5 keys of which most have the declared size; default degrees filled to 120-250 keys; oversized keys and values offered in every state."),
P("B04", "Removing gives B+ tree pages back; lookups stay logarithmic",
  "Pages freed by removals are used again: once an on-disk map is empty again, a further history takes no larger a file than the larger of the file so far and the file of a fresh map after the same further history. Whatever was removed before, a lookup among n keys reads at most 2h+2 pages, where h is the height of a tree whose nodes are half full.",
  ["histories"], "every sequence of operations", "The tests check one page number in one history; a leaked page or a skipped merge leaves every answer right.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("free list of pages", "src/bp_tree/pager.rs allocate_node, deallocate_node"), ("merging of half-full nodes", "src/bp_tree/map.rs remove")],
  "Every reachable state for 6-7 keys and 5 pairs of degrees with a second, fresh map run alongside after each emptying; file lengths and reads (interposed) are measured; families to 70-120 keys with 7 pairs of degrees. Bounded to these key counts."),
P("B05", "A failing file system call leaves a B+ tree map usable and truthful",
  "If calls to the file system fail during an operation on an on-disk map (one call, or all from one on until the operation ends), the operation does not panic, and reports success only if it took full effect, also in the file. If it reports an error and the file is unchanged, the map answers as before, and the operation can be made again with full effect. A call that is interrupted, or transfers only part of what was asked for, changes nothing: the operation succeeds.",
  ["fault_sequences", "histories"], "every file system call of every operation in every reachable state", "The tests never see a failing call; what was changed in memory before the call failed shows only in later answers.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("metadata in memory changes once it is written", "src/bp_tree/pager.rs write_metadata"), ("errors passed on", "src/bp_tree/map.rs"), ("whole pages read and written", "src/bp_tree/pager.rs get_page, write_node")],
  "Every reachable state for 4-6 keys and 4 configurations; in each, every operation (insert, remove, get, contains, minimum, maximum, iteration, clear, open, new) is executed once for each of its calls with that call failing, alone or with all later ones (interposed libc calls), once with every transfer halved and once with every call interrupted; answers in full afterwards, after trying again and after opening again. No claim about a map whose file was changed before the failure (the format has no log).",
  tech="fault"),
P("L01", "Size-tiered LSM store answers every operation like a sorted reference",
  "For any parameters of the size-tiered strategy, after any sequence of inserts, replacing inserts, removals (of present and absent keys), flushes, clears, closing (with or without flushing) and opening again, however flushes, compactions and garbage collection of old tables fall between them, an LSM map gives exactly the answers of a sorted reference: lookups, minimum, maximum, length and the content and order of its iterator; a removed key never comes back and no operation fails. After a flush closing loses nothing; without one it loses at most the latest writes that fit in memory.",
  ["histories", "configurations"], "every sequence of operations, every placement of compaction, flushing, closing and opening between them, parameters that reach every branch", "The tests write a few hundred keys in one order with one or two configurations; which tables meet in a compaction, and whether a removal outlives the value it hides, depends on the whole history.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs"],
  [("buckets, merging and purging of removals", "src/lsm_tree/compaction/size_tiered.rs get_compaction_range, compact"), ("handing over the compacted state", "src/lsm_tree/compaction/size_tiered.rs try_replace_metadata"), ("tables with blooms and block index", "src/lsm_tree/sstable.rs")],
  "Every sequence (merged on the decoded directory and the reference) of up to 6 operations on 2 keys for 4 parameter sets, every sequence of up to 3-5 whole tables over 2-4 keys for 7 more; answers in full in every state and after reopening. Bounded to these; background work between operations only (its interleavings are the concurrency property).",
  hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L02", "Leveled LSM store answers every operation like a sorted reference",
  "For any parameters of the leveled strategy, after any sequence of inserts, replacing inserts, removals (of present and absent keys), flushes, clears, closing (with or without flushing) and opening again, however flushes, compactions and garbage collection of old tables fall between them, an LSM map gives exactly the answers of a sorted reference: lookups, minimum, maximum, length and the content and order of its iterator; a removed key never comes back and no operation fails. After a flush closing loses nothing; without one it loses at most the latest writes that fit in memory.",
  ["histories", "configurations"], "every sequence of operations, every placement of compaction, flushing, closing and opening between them, parameters that reach every branch", "The tests write a few hundred keys in one order with one or two configurations; which tables meet on which level, and whether a removal outlives the value it hides, depends on the whole history.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("levels with disjoint tables, merging downwards", "src/lsm_tree/compaction/leveled.rs compact"), ("handing over the compacted state", "src/lsm_tree/compaction/leveled.rs try_replace_metadata"), ("lookup by key range per level", "src/lsm_tree/compaction/leveled.rs get")],
  "Every sequence (merged on the decoded directory and the reference) of up to 6 operations on 2 keys for 4 parameter sets, every sequence of up to 3-5 whole tables over 2-3 keys for 6 more; answers in full in every state and after reopening. Bounded to these; background work between operations only (its interleavings are the concurrency property).",
  hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L03", "Background compaction is invisible under every schedule",
  "While compaction runs in its background thread, however its steps interleave with the caller's operations (writes, removals, lookups, iteration, flush, clear, close and open again), every operation answers as if there were no compaction, no operation fails, panics or waits for ever, and after flush and reopening nothing is lost or resurrected.",
  ["schedules", "histories"], "every interleaving of the compaction thread with the caller at locks, atomics, thread starts and file system calls, for every short sequence of operations", "The tests run whatever schedule the machine happens to give; with a handful of entries compaction is over before the next operation looks.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/map.rs"],
  [("flag, snapshot and hand-over of the compacted state", "compaction strategies: try_compact, try_replace_metadata, flush, clear")],
  "Stateless exploration of all schedules with at most 2 preemptions (3 in thorough) of every program of two writes plus two more operations, 2 strategies x 2 parameter sets; scheduling points at locks, atomics, spawn, join and mutating file system calls. Sequential consistency assumed (all shared data is behind locks, the flag uses release/acquire).",
  tech="sched", hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L04", "An LSM store survives being killed at any file system call",
  "If the process is killed between any two calls it makes to the file system, the store can be opened again without error and holds exactly the contents after some prefix of the writes made so far: at least everything written before the last completed flush, and beyond it all but the latest writes that fit in memory. The opened store works on: it accepts further writes, flushes and reopening and answers them like a reference.",
  ["crash_points", "histories"], "every system call at which the process may end, in every sequence of operations", "The tests never kill the process; a wrong order of two file system calls shows only between them.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("order of writing tables, metadata and logical time, and of deleting tables", "try_compact, try_replace_metadata, clear; SSTableBuilder::flush"), ("no write-ahead log: memory is lost", "src/lsm_tree/map.rs")],
  "A picture of the directory before every mutating call of the last operation in every state (sequences up to 4 operations on 2 keys, up to 3 tables of 3 keys, 6 parameter sets); every distinct picture is opened, read in full, written to and opened again. A kill of the process, with calls taking effect in order and whole; not a power failure.",
  tech="fault", hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L05", "An LSM iterator is a snapshot, and minimum and maximum leave no trace",
  "An iterator over an LSM map yields, in order and without error, exactly the entries the map held when the iterator was made, whatever is written, removed, flushed, compacted or looked up while it is alive. Once it is dropped, and after any query, the store goes on as if they had not been.",
  ["histories"], "every sequence of operations with iterators made, advanced and dropped at any point", "The tests consume an iterator at once, with nothing happening in between.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("compaction held back while iterators are alive", "metadata_lock_count"), ("lazily read tables", "src/lsm_tree/sstable.rs SSTableDataIter")],
  "Every sequence of up to 6 operations on 2 keys with an iterator made, advanced and dropped anywhere, 2 strategies x 2 parameter sets. Bounded to these; clearing, closing and dropping the map under a live iterator is not claimed (the tables are deleted).",
  hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L06", "Compaction gives disk space back",
  "Once an LSM map is flushed, its directory holds no table that is not part of the store: every table that flushing, compacting or clearing made superfluous is deleted, whatever the history. And the number of tables stays bounded however often the same keys are written: when all tables fall in the first bucket at most one more than the configured count, in leveled stores that plus twice the number of keys.",
  ["histories"], "every sequence of operations", "The tests never look at the directory.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("deletion of replaced tables", "try_replace_metadata"), ("deletion of tables that end up empty or are merged again", "compact")],
  "In every state reached by up to 6 operations on 2 keys (4 parameter sets), after a flush and close each table is taken away in turn and the store must then miss it. Histories without a kill; bounded to these.",
  hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L07", "A failing file system call costs an LSM store nothing already written",
  "If calls to the file system fail during an operation on an LSM map (one call, or all from one on until the operation ends), the operation does not panic or wait for ever; if it reports an error, it took effect as a whole or not at all. Nothing written before is lost or changed by it, neither in the map as it lives on nor once it is closed and opened again (except for the latest writes that fit in memory, if it is not flushed). Once the file system works again so do all operations, and compaction goes on; calls that are interrupted or transfer only part of what was asked for change nothing at all.",
  ["fault_sequences", "histories"], "every call that may fail, in every sequence of operations", "The tests never see a failing call; what an operation has already given up when a call fails shows only then.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("entries leave the memory once they are on disk", "src/lsm_tree/map.rs try_compact"), ("the compaction thread works on a snapshot", "spawn_compaction_thread, try_replace_metadata"), ("iterators hold compaction back while they live", "metadata_lock_count")],
  "Every sequence of up to 4 operations on 2 keys, 4 parameter sets: each file system call of the last operation (reading ones included) fails once, alone or with all after it; then the store is read, written to, closed and opened in three different ways. Clearing is left out: a failed clear may or may not have taken effect. A failing call has no effect at all. Each sequence is also executed with every transfer halved, and with every call interrupted, in its last operation and after it.",
  tech="fault", hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L08", "A lookup in an LSM store reads no more than it has to",
  "A lookup of a key whose latest write is still in memory reads no table. Once a store is flushed, a lookup opens only tables whose key range contains the key, reads from each a small part (in the order of the square root of its number of entries, not all of it), and for most keys that are in none of these tables opens none.",
  ["histories", "inputs"], "every sequence of operations", "The tests check answers; a filter or an index that is ignored or built wrongly leaves every answer right and costs only reads.",
  ["src/lsm_tree/sstable.rs", "src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("key range, filter, two-level index", "src/lsm_tree/sstable.rs get, SSTableBuilder"), ("memory before tables", "src/lsm_tree/map.rs get"), ("one table per level", "src/lsm_tree/compaction/leveled.rs get")],
  "Opens and reads of each lookup are counted in every state reached by up to 6 operations on 3 keys or 4 tables over 4 keys (6 parameter sets); the parts read, and the filters, on families of stores with up to 720 entries in up to four tables, where the limit is a third of a table, and half of the lookups. If the files cannot be decoded (another format), nothing is claimed and the evidence counts it.",
  hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L09", "A leveled LSM store keeps the shape it is configured with",
  "At any time the tables of one level of a leveled store have disjoint key ranges, each table of a level is within the configured size up to its last entry, and no level has more tables than configured (the initial number times the growth factor for each further level; at least one). Whenever a write is followed by a flush and no compaction was under way, at most the configured number of tables waits to be merged into the first level.",
  ["histories", "configurations"], "every sequence of operations, every configuration", "The tests check answers only; the shape decides the number of tables a lookup and a compaction have to read.",
  ["src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("splitting tables by size, moving tables down", "src/lsm_tree/compaction/leveled.rs compact"), ("when to compact", "try_compact")],
  "The recorded layout is decoded in every state reached by up to 5 operations on 3 keys or 3 tables over 3-5 keys (7 parameter sets), and after further writes and reopening; families to 40 keys. If the recorded layout cannot be decoded (another format), nothing is claimed and the evidence counts it.",
  hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("L10", "An LSM store merges tables only when configured to, and then does",
  "No table of an LSM store is replaced or removed unless more than the configured number of tables was waiting to be merged (clearing the store aside); in a size-tiered store each table merged is at most the configured minimum size or within the configured factors of the average size of the tables merged together. When a flush makes more than that number of tables belong to one such bucket while no compaction is under way, they are merged. In a leveled store whose deeper levels are not full, a table of a deeper level is rewritten only if its key range meets that of what is merged into it from above.",
  ["histories", "configurations"], "every sequence of operations, every configuration", "The tests check answers only; what is merged when decides how much a store writes for each entry.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("which tables are merged", "src/lsm_tree/compaction/size_tiered.rs get_compaction_range"), ("when compaction starts, which tables of the next level take part", "src/lsm_tree/compaction/leveled.rs try_compact, compact")],
  "The recorded tables before and after every operation are compared, in every state reached by up to 6 operations on 2 keys or 4 tables over 2-4 keys (7 parameter sets), up to 7 tables of 1, 2, 4 or 8 entries, and families to 40 keys. If the recorded layout cannot be decoded (another format), nothing is claimed.",
  hook="cfg(vp_sync): threads, locks and atomics of the compaction strategies by name"),
P("C01", "The concurrent stack is linearizable",
  "Whatever several threads push and pop at the same time on one concurrent stack, there is one order of all operations, keeping the order of each thread and of whatever is synchronised otherwise, in which they are those of a last-in-first-out stack: every popped element is the latest one pushed and not yet popped, and a pop finds nothing only when the stack is empty.",
  ["schedules", "programs"], "every interleaving and every outcome of the atomic accesses allowed by the memory model, for every short program", "The tests use the stack from one thread only.",
  ["src/sync/stack.rs"], [("compare-and-set loop on the head", "src/sync/stack.rs push, try_pop")],
  "loom on the code itself: every program of 2 threads x 2 operations (3 x 1, samples of shape 2 x 3 and 3 x 2 with fewer preemptions) on 0-2 elements, all interleavings up to the stated preemption bound (unbounded for single operations), weak memory included; results checked by searching a linearization. Epoch reclamation is modelled.",
  tech="conc", hook="cfg(vp_sync): the length counter by name"),
P("C02", "The concurrent stack owns every value once and uses no reclaimed memory",
  "Every value pushed onto a concurrent stack is handed to exactly one pop or dropped exactly once with the stack, under every interleaving of pushes and pops; what a thread writes into a value before pushing it is seen by whoever pops it. No node is accessed once it may have been reclaimed, none is reclaimed twice, and none is leaked.",
  ["schedules", "programs"], "every interleaving and every outcome of the atomic accesses allowed by the memory model, for every short program", "The tests use one thread and integers, for which a doubled drop, a leak or a missing memory barrier is invisible.",
  ["src/sync/stack.rs"], [("moving the value out, deferring the reclamation of the node", "src/sync/stack.rs try_pop"), ("release on push, acquire on pop", "src/sync/stack.rs")],
  "loom on the code itself with values and nodes that report unordered accesses, and a model of epochs that knows for each deferred reclamation which guards hold it back; the programs of the linearizability property. The inside of crossbeam-epoch is trusted.",
  tech="conc", hook="cfg(vp_sync): the length counter by name"),
P("C03", "The concurrent stack's length is exact when quiet and never absurd",
  "When no operation is under way the length of a concurrent stack is the number of its elements, and it is empty exactly if that is zero, whatever interleaving went before. At any time the length is at most the number of elements pushed so far (pushes under way included).",
  ["schedules", "programs"], "every interleaving for every short program", "The tests use the stack from one thread only.",
  ["src/sync/stack.rs"], [("counter next to the list", "src/sync/stack.rs push, try_pop, len")],
  "loom on the code itself: every program of 2 threads x 2 operations out of push, pop, length and emptiness, and 2 x 2 with a third thread reading the length, on 0-2 elements, up to the stated preemption bound.",
  tech="conc", hook="cfg(vp_sync): the length counter by name"),
P("C04", "The concurrent stack is lock-free",
  "If a thread stops for ever at any point inside an operation on a concurrent stack, all operations of other threads still come to an end.",
  ["schedules", "programs"], "every point at which a thread may stop, every interleaving of the others", "No test can tell a lock-free algorithm from a blocking one.",
  ["src/sync/stack.rs"], [("compare-and-set loops without waiting", "src/sync/stack.rs push, try_pop")],
  "loom on the code itself: one thread stops before its n-th atomic access, for every n, while 1-2 other threads run every program of up to 2 operations, up to the stated preemption bound.",
  tech="conc", hook="cfg(vp_sync): the length counter by name"),
]
