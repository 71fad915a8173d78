From 0554fced888549bfa6d6d11ee93e43fb63d72f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:46 +0000
Subject: [PATCH 01/33] fix: rebalance the AVL tree along the path of the
 removed successor

---
 src/avl_tree/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avl_tree/tree.rs b/src/avl_tree/tree.rs
index 9809776..25764d1 100644
--- a/src/avl_tree/tree.rs
+++ b/src/avl_tree/tree.rs
@@ -44,7 +44,9 @@ fn balance<T, U>(tree: &mut Tree<T, U>) {
 fn remove_min<T, U>(tree: &mut Tree<T, U>) -> Box<Node<T, U>> {
     if let Some(ref mut node) = tree {
         if node.left.is_some() {
-            return remove_min(&mut node.left);
+            let min = remove_min(&mut node.left);
+            balance(tree);
+            return min;
         }
     }
 
-- 
2.43.0


From 7884929827cf14b5c7133689de259b65724f9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:47 +0000
Subject: [PATCH 02/33] fix: do not index the links of a skiplist node past a
 zero-length array

The links array has length 0, so get_unchecked on it is undefined
behaviour whatever the index: optimised builds trap on the first insert.
---
 src/skiplist/list.rs | 12 ++++++------
 src/skiplist/map.rs  | 30 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..9a22e23 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -30,11 +30,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -51,7 +51,7 @@ impl<T> Node<T> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -439,7 +439,7 @@ impl<T> SkipList<T> {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -516,9 +516,9 @@ impl<T> IntoIterator for SkipList<T> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: (*self.head).links.get_unchecked_mut(0).next,
+                current: (*(*self.head).links.as_mut_ptr()).next,
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..1176dad 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -26,11 +26,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -47,7 +47,7 @@ impl<T, U> Node<T, U> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -396,7 +396,7 @@ impl<T, U> SkipMap<T, U> {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -589,8 +589,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -626,7 +626,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -681,8 +681,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -723,7 +723,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -756,8 +756,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -805,7 +805,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -956,9 +956,9 @@ impl<T, U> IntoIterator for SkipMap<T, U> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: *(*self.head).links.get_unchecked_mut(0),
+                current: *(*self.head).links.as_mut_ptr(),
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
-- 
2.43.0


From d4855ae58583871f18f1c933eb05bf7a401afdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:47 +0000
Subject: [PATCH 03/33] fix: keep the rest of the left operand in the
 difference of skiplists

When the right operand ran out first, the right head, which is null by
then, was followed instead of the left one.
---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 1176dad..c5e696e 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From 76064340b64dd3f21256a6a6d22b6a2ac607b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:47 +0000
Subject: [PATCH 04/33] fix: do not write past the links of a node in the
 intersection of skiplists

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index c5e696e..c9f0cdf 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From 3f7a8e9a59f9c58ec412b9d60cb230cc6317de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:47 +0000
Subject: [PATCH 05/33] fix: drop the elements left in an owning skiplist
 iterator once, not twice

---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 9a22e23..a45df12 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index c9f0cdf..17bedff 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From f1e47109cc24ba0a54eadaaa06b1e3e6b4f972c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:07 +0000
Subject: [PATCH 06/33] fix: shorten the last link of each level when removing
 from a skiplist

The length of a link without a successor is used when lists are
concatenated; it was not reduced by a removal behind it, so that indexed
access after a concatenation found the wrong elements.
---
 src/skiplist/list.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index a45df12..59b6064 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -214,20 +214,19 @@ impl<T> SkipList<T> {
                     curr_node = &mut mem::replace(&mut next_link, next_next_link).next;
                 }
 
-                if !next_link.next.is_null() {
-                    if next_link.distance == index + 1 {
-                        let Link { next, distance } = *next_link;
-                        mem::swap(next_link, (*next).get_pointer_mut(curr_height));
-                        next_link.distance += distance - 1;
-                        if curr_height == 0 {
-                            let ret = ptr::read(&(*next).value);
-                            Node::deallocate(next);
-                            self.len -= 1;
-                            return ret;
-                        }
-                    } else {
-                        next_link.distance -= 1;
+                if !next_link.next.is_null() && next_link.distance == index + 1 {
+                    let Link { next, distance } = *next_link;
+                    mem::swap(next_link, (*next).get_pointer_mut(curr_height));
+                    next_link.distance += distance - 1;
+                    if curr_height == 0 {
+                        let ret = ptr::read(&(*next).value);
+                        Node::deallocate(next);
+                        self.len -= 1;
+                        return ret;
                     }
+                } else {
+                    // the last link of a level counts the elements behind it too
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From d12fa9bc746a7bf63e487ef8af261a9cbdb4f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:21 +0000
Subject: [PATCH 07/33] fix: return None for the largest index in the treap
 list's get and get_mut

index + 1 overflowed, which panics in builds with overflow checks.
---
 src/treap/list.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/treap/list.rs b/src/treap/list.rs
index ef672dd..051af22 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -181,7 +181,9 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(1), None);
     /// ```
     pub fn get(&self, index: usize) -> Option<&T> {
-        implicit_tree::get(&self.tree, index + 1)
+        index
+            .checked_add(1)
+            .and_then(|index| implicit_tree::get(&self.tree, index))
     }
 
     /// Returns a mutable reference to the value at a particular index. Returns `None` if the
@@ -198,7 +200,9 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(0), Some(&2));
     /// ```
     pub fn get_mut(&mut self, index: usize) -> Option<&mut T> {
-        implicit_tree::get_mut(&mut self.tree, index + 1)
+        index
+            .checked_add(1)
+            .and_then(move |index| implicit_tree::get_mut(&mut self.tree, index))
     }
 
     /// Returns the number of elements in the list.
-- 
2.43.0


From d5853ae4fc7ecb57d5414761721150613e1552df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:14 +0000
Subject: [PATCH 08/33] fix: let a radix tree be filled again after its last
 key was removed

---
 src/radix/tree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..f18dc5c 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -5,7 +5,13 @@ use std::mem;
 pub type Tree<T> = Option<Box<Node<T>>>;
 
 pub fn insert<T>(tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
-    let node = tree.as_mut().expect("Expected non-empty tree.");
+    let node = match tree {
+        Some(ref mut node) => node,
+        None => {
+            *tree = Some(Box::new(Node::new(key.to_vec(), Some(value))));
+            return None;
+        }
+    };
     let split_index = node
         .key
         .iter()
-- 
2.43.0


From d8617fb649236c1c984485ed1cb5444173a9ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:15 +0000
Subject: [PATCH 09/33] fix: return every key that shares the longest common
 prefix in a radix tree

---
 src/radix/tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index f18dc5c..4bd8f7d 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -152,6 +152,8 @@ pub fn get_longest_prefix<T>(
         .zip(key[index..].iter())
         .position(|pair| pair.0 != pair.1);
     match split_index {
+        // Keys that have no byte in common with the specified key are not returned.
+        Some(split_index) if index + split_index == 0 => {}
         Some(_) => {
             if node.value.is_some() {
                 keys.push(curr_key.clone());
@@ -166,7 +168,10 @@ pub fn get_longest_prefix<T>(
                     Some(_) => get_longest_prefix(next_child, key, index, curr_key, keys),
                     None => {
                         if node.value.is_some() {
-                            keys.push(curr_key)
+                            keys.push(curr_key.clone());
+                        }
+                        if index > 0 {
+                            node.push_all_children(curr_key, keys);
                         }
                     }
                 }
-- 
2.43.0


From c5217fa3d7b7592c9afd5a5a7b3f4769535a2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:15 +0000
Subject: [PATCH 10/33] fix: keep the free list of an arena when a vacant block
 is freed

---
 src/arena.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arena.rs b/src/arena.rs
index 264ad3d..4590ad7 100644
--- a/src/arena.rs
+++ b/src/arena.rs
@@ -138,12 +138,13 @@ impl<T> TypedArena<T> {
         if !self.is_valid_entry(entry) {
             panic!("Error: attempting to free invalid block.");
         }
-        let old_block = mem::replace(
-            &mut self.chunks[entry.chunk_index][entry.block_index],
-            Block::Vacant(self.head.take()),
-        );
+        let block = &mut self.chunks[entry.chunk_index][entry.block_index];
+        if let Block::Vacant(_) = block {
+            panic!("Error: attempting to free vacant block.");
+        }
+        let old_block = mem::replace(block, Block::Vacant(self.head.take()));
         match old_block {
-            Block::Vacant(_) => panic!("Error: attempting to free vacant block."),
+            Block::Vacant(_) => unreachable!(),
             Block::Occupied(value) => {
                 self.size -= 1;
                 self.head = Some(Entry {
-- 
2.43.0


From cbe92ca5c2013220b0641c360eebdd657088a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:46 +0000
Subject: [PATCH 11/33] fix: keep two children in the internal nodes of a B+
 tree with internal degree two

---
 src/bp_tree/map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..3b86d9b 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -4,6 +4,7 @@ use crate::entry::Entry;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
+use std::cmp;
 use std::mem;
 use std::path::Path;
 
@@ -376,7 +377,9 @@ impl<T, U> BpMap<T, U> {
             delete_entry = None;
             curr_node.remove_at(delete_index, true);
 
-            let is_underflow = curr_node.len + 1 < (self.pager.get_internal_degree() + 1) / 2;
+            // An internal node needs at least two children to have a sibling for each of them.
+            let min_children = cmp::max((self.pager.get_internal_degree() + 1) / 2, 2);
+            let is_underflow = curr_node.len + 1 < min_children;
             if is_underflow {
                 if let Some((parent_page, parent_node, curr_index)) = stack.pop() {
                     let mut parent_node = {
@@ -400,7 +403,7 @@ impl<T, U> BpMap<T, U> {
                         }
                     };
 
-                    if sibling_node.len + 1 == (self.pager.get_internal_degree() + 1) / 2 {
+                    if sibling_node.len + 1 == min_children {
                         if sibling_index == curr_index + 1 {
                             let parent_key = parent_node.keys[curr_index]
                                 .clone()
-- 
2.43.0


From f2eb375b0a1629866e66f67a33df185b7c29d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:46 +0000
Subject: [PATCH 12/33] fix: do not lose entries when replacing an entry of a
 full B+ tree leaf

---
 src/bp_tree/node.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..5e05716 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -245,6 +245,10 @@ impl<T, U> LeafNode<T, U> {
             self.entries[index] = Some(new_entry);
             None
         }
+        // node is full, but the key exists; replace its entry without splitting
+        else if let Some(index) = self.search(&new_entry.key) {
+            mem::replace(&mut self.entries[index], Some(new_entry)).map(InsertCases::Entry)
+        }
         // node is full; have to split
         else {
             let mut split_node = LeafNode::new(leaf_degree);
-- 
2.43.0


From caa5f08c98bb788fce22d25846a5150b5d5ead41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:05 +0000
Subject: [PATCH 13/33] fix: make the pages of a B+ tree as large as the
 encoding of a full node

---
 src/bp_tree/node.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index 5e05716..216acc2 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -375,10 +375,20 @@ impl<T, U> Node<T, U> {
         leaf_degree: usize,
         internal_degree: usize,
     ) -> u64 {
-        cmp::max(
+        let max_size = cmp::max(
             LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
             InternalNode::<T, U>::get_max_size(internal_degree, key_size),
-        )
+        );
+        // The in-memory size of an option can be smaller than its encoding, which always has a tag
+        // of one byte, so never make a page smaller than the encoding of a full node: a variant
+        // (4 bytes), the fields of the node, and the tagged keys or entries.
+        let encoded_leaf_size =
+            4 + U64_SIZE * 2 + (1 + U64_SIZE) + leaf_degree as u64 * (1 + key_size + value_size);
+        let encoded_internal_size = 4
+            + U64_SIZE * 3
+            + (internal_degree as u64 + 1) * U64_SIZE
+            + internal_degree as u64 * (1 + key_size);
+        cmp::max(max_size, cmp::max(encoded_leaf_size, encoded_internal_size))
     }
 }
 
-- 
2.43.0


From 027d2873836fe0f10bfc3b33c398bd82ba4a20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:03 +0000
Subject: [PATCH 14/33] hook: name the synchronisation primitives that model
 checking replaces (cfg vp_sync)

---
 src/lsm_tree/compaction/leveled.rs     | 12 +++++++++---
 src/lsm_tree/compaction/size_tiered.rs | 12 +++++++++---
 src/sync/stack.rs                      |  6 +++++-
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..97d6a94 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -3,6 +3,8 @@ use crate::lsm_tree::compaction::{CompactionIter, CompactionStrategy};
 use crate::lsm_tree::{sstable, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue};
 use bincode::{deserialize, serialize};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
+#[cfg(vp_sync)]
+use crossbeam_epoch::vp::{thread, AtomicBool, Mutex};
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use serde_derive::{Deserialize, Serialize};
@@ -18,9 +20,13 @@ use std::mem;
 use std::ops::Bound::{Included, Unbounded};
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
-use std::sync::atomic::{AtomicBool, Ordering};
-use std::sync::{Arc, Mutex, MutexGuard};
-use std::thread;
+use std::sync::atomic::Ordering;
+use std::sync::{Arc, MutexGuard};
+#[cfg(not(vp_sync))]
+use std::{
+    sync::{atomic::AtomicBool, Mutex},
+    thread,
+};
 
 #[derive(Clone, Serialize, Deserialize)]
 #[serde(bound(deserialize = "T: DeserializeOwned, U: DeserializeOwned"))]
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..da2d043 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -3,6 +3,8 @@ use crate::lsm_tree::compaction::{CompactionIter, CompactionStrategy};
 use crate::lsm_tree::{sstable, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue};
 use bincode::{deserialize, serialize};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
+#[cfg(vp_sync)]
+use crossbeam_epoch::vp::{thread, AtomicBool, Mutex};
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use serde_derive::{Deserialize, Serialize};
@@ -18,9 +20,13 @@ use std::marker::Send;
 use std::mem;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
-use std::sync::atomic::{AtomicBool, Ordering};
-use std::sync::{Arc, Mutex, MutexGuard};
-use std::thread;
+use std::sync::atomic::Ordering;
+use std::sync::{Arc, MutexGuard};
+#[cfg(not(vp_sync))]
+use std::{
+    sync::{atomic::AtomicBool, Mutex},
+    thread,
+};
 
 #[derive(Clone, Serialize, Deserialize)]
 #[serde(bound(deserialize = "T: DeserializeOwned, U: DeserializeOwned"))]
diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..118137a 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,6 +1,10 @@
+#[cfg(vp_sync)]
+use crossbeam_epoch::vp::AtomicUsize;
 use crossbeam_epoch::{self, Atomic, Owned};
 use std::ptr;
-use std::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(not(vp_sync))]
+use std::sync::atomic::AtomicUsize;
+use std::sync::atomic::Ordering;
 
 struct Node<T> {
     value: T,
-- 
2.43.0


From e65fdfa3a36e6cbc7232094e6aea3c3be0d5615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 15/33] fix: let an LSM store that has not been written to be
 opened again

---
 src/lsm_tree/compaction/leveled.rs     | 2 ++
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 97d6a94..8d3ab5b 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -196,6 +196,8 @@ where
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file
+            .write_u64::<BigEndian>(ret.curr_logical_time)?;
 
         Ok(ret)
     }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index da2d043..3f36e8e 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -250,6 +250,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file
+            .write_u64::<BigEndian>(ret.curr_logical_time)?;
 
         Ok(ret)
     }
-- 
2.43.0


From 0446f43f428521e375b1330174dfa1e61e318d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:15 +0000
Subject: [PATCH 16/33] fix: minimum and maximum of an LSM map must not be
 removed keys

---
 src/lsm_tree/map.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..4e693ca 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -406,7 +406,15 @@ where
             .iter()
             .find(|entry| entry.1.data.is_some())
             .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
+        let mut disk_min = None;
+        for entry in self.compaction_strategy.iter()? {
+            let key = entry?.0;
+            // the in-memory tree overrides what is on disk
+            if !self.in_memory_tree.contains_key(&key) {
+                disk_min = Some(key);
+                break;
+            }
+        }
 
         if in_memory_min.is_none() {
             Ok(disk_min)
@@ -440,14 +448,22 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
-        Ok(cmp::max(
-            self.in_memory_tree
-                .iter()
-                .rev()
-                .find(|entry| entry.1.data.is_some())
-                .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
-        ))
+        let in_memory_max = self
+            .in_memory_tree
+            .iter()
+            .rev()
+            .find(|entry| entry.1.data.is_some())
+            .map(|entry| entry.0.clone());
+        let mut disk_max = None;
+        for entry in self.compaction_strategy.iter()? {
+            let key = entry?.0;
+            // the in-memory tree overrides what is on disk
+            if !self.in_memory_tree.contains_key(&key) {
+                disk_max = Some(key);
+            }
+        }
+
+        Ok(cmp::max(in_memory_max, disk_max))
     }
 
     /// Flushes the in-memory tree into a SSTable if it is not empty. The map must be flushed
-- 
2.43.0


From ec57f37ed4fc1670e715284f6f3b759c3be7a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:26 +0000
Subject: [PATCH 17/33] fix: keep no SSTable that an LSM compaction has
 replaced

---
 src/lsm_tree/compaction/leveled.rs     | 19 +++++++------------
 src/lsm_tree/compaction/size_tiered.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 8d3ab5b..3aa5af7 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -119,6 +119,9 @@ where
     path: PathBuf,
     compaction_thread_join_handle: Option<thread::JoinHandle<()>>,
     is_compacting: Arc<AtomicBool>,
+    // The number of leading SSTables of the current metadata that the latest compaction started
+    // from. SSTables are only ever appended until the compacted metadata replaces the current one.
+    compacting_sstable_count: usize,
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
@@ -177,6 +180,7 @@ where
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compacting_sstable_count: 0,
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -239,6 +243,7 @@ where
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compacting_sstable_count: 0,
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -255,23 +260,12 @@ where
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .levels
-                .iter()
-                .map(|level_entry| {
-                    level_entry
-                        .iter()
-                        .map(|level_entry| level_entry.1.summary.logical_time_range.1)
-                        .max()
-                })
-                .max()
-                .and_then(|max_opt| max_opt);
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             let old_levels = mem::replace(&mut curr_metadata.levels, next_metadata.levels);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.0) > logical_time_opt)
+                    .skip(self.compacting_sstable_count)
                     .map(|sstable| Arc::clone(sstable)),
             );
 
@@ -511,6 +505,7 @@ where
         };
 
         if metadata_snapshot.sstables.len() > metadata_snapshot.max_sstable_count {
+            self.compacting_sstable_count = metadata_snapshot.sstables.len();
             self.spawn_compaction_thread(metadata_snapshot);
         }
 
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 3f36e8e..c9afc8f 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -176,6 +176,9 @@ pub struct SizeTieredStrategy<T, U> {
     path: PathBuf,
     compaction_thread_join_handle: Option<thread::JoinHandle<()>>,
     is_compacting: Arc<AtomicBool>,
+    // The number of leading SSTables of the current metadata that the latest compaction started
+    // from. SSTables are only ever appended until the compacted metadata replaces the current one.
+    compacting_sstable_count: usize,
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
@@ -231,6 +234,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compacting_sstable_count: 0,
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -293,6 +297,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compacting_sstable_count: 0,
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -362,16 +367,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.1) > logical_time_opt)
+                    .skip(self.compacting_sstable_count)
                     .map(|sstable| Arc::clone(sstable)),
             );
 
@@ -435,6 +435,7 @@ where
         };
 
         if let Some(range) = metadata_snapshot.get_compaction_range() {
+            self.compacting_sstable_count = metadata_snapshot.sstables.len();
             self.spawn_compaction_thread(metadata_snapshot, range);
         }
 
-- 
2.43.0


From 75a151c9042fd2fed5eeb396e39a314db47dcfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:35 +0000
Subject: [PATCH 18/33] fix: write the LSM metadata before deleting the
 SSTables it no longer refers to

---
 src/lsm_tree/compaction/leveled.rs     | 55 +++++++++++++-------------
 src/lsm_tree/compaction/size_tiered.rs | 54 ++++++++++++-------------
 2 files changed, 54 insertions(+), 55 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 3aa5af7..c3b22ba 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -253,10 +253,25 @@ where
         })
     }
 
+    fn write_metadata(&self, metadata: &LeveledMetadata<T, U>) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
+        let mut metadata_file = &self.metadata_file;
+        metadata_file.seek(SeekFrom::Start(0))?;
+        metadata_file.write_all(&serialize(metadata)?)?;
+        Ok(())
+    }
+
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, LeveledMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -269,6 +284,9 @@ where
                     .map(|sstable| Arc::clone(sstable)),
             );
 
+            // the metadata must not refer to SSTables that do not exist anymore
+            self.write_metadata(curr_metadata)?;
+
             let path_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let level_path_iter = curr_metadata
                 .levels
@@ -286,11 +304,8 @@ where
                     fs::remove_dir_all(path)?;
                 }
             }
-
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(())
     }
 
     fn compact<P>(
@@ -497,10 +512,7 @@ where
         // taking snapshot of current metadata
         let metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -520,10 +532,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -534,10 +543,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -568,10 +574,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstables_len_hint: usize = curr_metadata
             .sstables
@@ -614,6 +617,8 @@ where
         curr_metadata.sstables.clear();
         curr_metadata.levels.clear();
         *next_metadata = None;
+        // the metadata must not refer to SSTables that do not exist anymore
+        self.write_metadata(&curr_metadata)?;
 
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
@@ -622,9 +627,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -646,10 +648,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index c9afc8f..8bf4dc1 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -360,10 +360,25 @@ impl<T, U> SizeTieredStrategy<T, U> {
         }));
     }
 
+    fn write_metadata(&self, metadata: &SizeTieredMetadata<T, U>) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
+        let mut metadata_file = &self.metadata_file;
+        metadata_file.seek(SeekFrom::Start(0))?;
+        metadata_file.write_all(&serialize(metadata)?)?;
+        Ok(())
+    }
+
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, SizeTieredMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -375,6 +390,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
                     .map(|sstable| Arc::clone(sstable)),
             );
 
+            // the metadata must not refer to SSTables that do not exist anymore
+            self.write_metadata(curr_metadata)?;
+
             let new_sstable_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let new_sstable_paths: HashSet<&PathBuf> = HashSet::from_iter(new_sstable_iter);
 
@@ -383,10 +401,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
                     fs::remove_dir_all(old_sstable.path.as_path())?;
                 }
             }
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(())
     }
 }
 
@@ -427,10 +443,7 @@ where
         // taking snapshot of current metadata
         let mut metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -450,10 +463,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -464,10 +474,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -482,10 +489,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let len_hint = curr_metadata
             .sstables
@@ -516,6 +520,8 @@ where
         let mut next_metadata = self.next_metadata.lock().unwrap();
         curr_metadata.sstables.clear();
         *next_metadata = None;
+        // the metadata must not refer to SSTables that do not exist anymore
+        self.write_metadata(&curr_metadata)?;
 
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
@@ -524,9 +530,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -548,10 +551,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
-- 
2.43.0


From c3e885fad9125a0f02a54613cd9c8f2c0bbd387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:51 +0000
Subject: [PATCH 19/33] fix: remove the files of SSTables that an LSM
 compaction leaves empty

---
 src/lsm_tree/compaction/leveled.rs     | 8 ++++++--
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 src/lsm_tree/sstable.rs                | 6 ++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index c3b22ba..5965bbc 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -364,6 +364,8 @@ where
         if sstable_builder.key_range.is_some() {
             let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
             metadata_snapshot.insert_sstable(0, new_sstable);
+        } else {
+            sstable_builder.discard()?;
         }
 
         // compacting L1 and onwards
@@ -394,13 +396,13 @@ where
                         .expect("Expected SSTable to remove to exist.")
                 };
 
-                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
-
                 if index + 1 == metadata_snapshot.levels.len() {
                     metadata_snapshot.insert_sstable(index + 1, sstable);
                     continue;
                 }
 
+                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
+
                 let sstable_data_iter = sstable.data_iter();
                 let level = mem::replace(&mut metadata_snapshot.levels[index + 1], BTreeMap::new());
                 let (old_level, new_level): (BTreeMap<_, _>, BTreeMap<_, _>) =
@@ -439,6 +441,8 @@ where
                 if sstable_builder.key_range.is_some() {
                     let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
                     metadata_snapshot.insert_sstable(index + 1, new_sstable);
+                } else {
+                    sstable_builder.discard()?;
                 }
             }
         }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 8bf4dc1..8bf34f4 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -151,6 +151,8 @@ impl<T, U> SizeTieredMetadata<T, U> {
 
         if sstable_builder.key_range.is_some() {
             self.push_sstable(Arc::new(SSTable::new(sstable_builder.flush()?)?));
+        } else {
+            sstable_builder.discard()?;
         }
 
         Ok(())
diff --git a/src/lsm_tree/sstable.rs b/src/lsm_tree/sstable.rs
index c33a9d3..ee68b59 100644
--- a/src/lsm_tree/sstable.rs
+++ b/src/lsm_tree/sstable.rs
@@ -230,6 +230,12 @@ impl<T, U> SSTableBuilder<T, U> {
         self.data_stream.flush()?;
         Ok(self.sstable_path.clone())
     }
+
+    /// Removes the files of an SSTable that turned out to have no entries.
+    pub fn discard(self) -> Result<()> {
+        fs::remove_dir_all(self.sstable_path.as_path())?;
+        Ok(())
+    }
 }
 
 pub struct SSTable<T, U> {
-- 
2.43.0


From 4fee460b2f733035913dbcef7131449c376c7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:46 +0000
Subject: [PATCH 20/33] fix: remove SSTables that are written and merged by the
 same leveled compaction

---
 src/lsm_tree/compaction/leveled.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 5965bbc..c494955 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -321,6 +321,15 @@ where
     {
         println!("Started compacting.");
 
+        // the SSTables of the current metadata are removed when it is replaced; those that are
+        // both written and merged again by this compaction are not known to anyone else
+        let level_path_iter = metadata_snapshot
+            .levels
+            .iter()
+            .flat_map(|level| level.values().map(|sstable| sstable.path.clone()));
+        let curr_paths: HashSet<_> = level_path_iter.collect();
+        let mut merged_paths = Vec::new();
+
         if metadata_snapshot.levels.is_empty() {
             metadata_snapshot.levels.push(BTreeMap::new());
         }
@@ -415,6 +424,9 @@ where
 
                 metadata_snapshot.levels[index + 1] = new_level;
 
+                merged_paths.push(sstable.path.clone());
+                merged_paths.extend(old_level.values().map(|sstable| sstable.path.clone()));
+
                 let compaction_iter = LeveledIter::new(
                     None,
                     vec![sstable_data_iter],
@@ -447,6 +459,12 @@ where
             }
         }
 
+        for path in merged_paths {
+            if !curr_paths.contains(&path) {
+                fs::remove_dir_all(path)?;
+            }
+        }
+
         *next_metadata.lock().unwrap() = Some(metadata_snapshot);
 
         is_compacting.store(false, Ordering::Release);
-- 
2.43.0


From c52a92c7dfae623ead20f496106bad58fe698832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:57 +0000
Subject: [PATCH 21/33] fix: drop every value of a concurrent stack exactly
 once

---
 src/sync/stack.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 118137a..ed322c9 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,13 +1,15 @@
 #[cfg(vp_sync)]
 use crossbeam_epoch::vp::AtomicUsize;
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 #[cfg(not(vp_sync))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering;
 
 struct Node<T> {
-    value: T,
+    // moved out when the node is popped, before the node itself is dropped
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -65,7 +67,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -116,7 +118,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ManuallyDrop::into_inner(ptr::read(&head.value)));
                         }
                     }
                 }
@@ -160,6 +162,12 @@ impl<T> Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 impl<T> Default for Stack<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From cb6b4145a79e0d95d970fcac418ead36b1fb29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:57 +0000
Subject: [PATCH 22/33] fix: count an element of a concurrent stack before it
 can be popped

---
 src/sync/stack.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index ed322c9..b739fa9 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -71,6 +71,9 @@ impl<T> Stack<T> {
             next: Atomic::null(),
         });
 
+        // counted before it can be popped, so that the length never falls below zero
+        self.len.fetch_add(1, Ordering::Release);
+
         let guard = &crossbeam_epoch::pin();
         loop {
             let head_shared = self.head.load(Ordering::Relaxed, guard);
@@ -79,10 +82,7 @@ impl<T> Stack<T> {
                 .head
                 .compare_and_set(head_shared, new_node, Ordering::Release, guard)
             {
-                Ok(_) => {
-                    self.len.fetch_add(1, Ordering::Release);
-                    break;
-                }
+                Ok(_) => break,
                 Err(e) => new_node = e.new,
             }
         }
-- 
2.43.0


From 75273e20122bd89f23ca6fa310f4fb92bffcca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:41 +0000
Subject: [PATCH 23/33] fix: do not overflow the stack on deep splay trees

A splay tree can be as deep as it is large (inserting keys in ascending order
makes it a list), so looking up, clearing and dropping must not recurse.
---
 src/splay_tree/map.rs  | 21 +++++++++++--
 src/splay_tree/tree.rs | 71 ++++++++++++++++++++++++++++--------------
 2 files changed, 65 insertions(+), 27 deletions(-)

diff --git a/src/splay_tree/map.rs b/src/splay_tree/map.rs
index caa7d40..daa9d42 100644
--- a/src/splay_tree/map.rs
+++ b/src/splay_tree/map.rs
@@ -216,7 +216,7 @@ impl<T, U> SplayMap<T, U> {
     /// assert_eq!(map.is_empty(), true);
     /// ```
     pub fn clear(&mut self) {
-        self.tree = None;
+        tree::clear(&mut self.tree);
         self.len = 0;
     }
 
@@ -357,13 +357,19 @@ impl<T, U> SplayMap<T, U> {
     }
 }
 
+impl<T, U> Drop for SplayMap<T, U> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.tree);
+    }
+}
+
 impl<T, U> IntoIterator for SplayMap<T, U> {
     type IntoIter = SplayMapIntoIter<T, U>;
     type Item = (T, U);
 
-    fn into_iter(self) -> Self::IntoIter {
+    fn into_iter(mut self) -> Self::IntoIter {
         Self::IntoIter {
-            current: self.tree,
+            current: self.tree.take(),
             stack: Vec::new(),
         }
     }
@@ -423,6 +429,15 @@ impl<T, U> Iterator for SplayMapIntoIter<T, U> {
     }
 }
 
+impl<T, U> Drop for SplayMapIntoIter<T, U> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.current);
+        for node in &mut self.stack {
+            tree::clear(&mut node.right);
+        }
+    }
+}
+
 /// An iterator for `SplayMap<T, U>`.
 ///
 /// This iterator traverses the elements of the map in-order and yields immutable references.
diff --git a/src/splay_tree/tree.rs b/src/splay_tree/tree.rs
index de3b3a5..5613ec7 100644
--- a/src/splay_tree/tree.rs
+++ b/src/splay_tree/tree.rs
@@ -136,12 +136,15 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => get(&node.left, key),
-            Ordering::Greater => get(&node.right, key),
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => curr = &node.left,
+            Ordering::Greater => curr = &node.right,
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    None
 }
 
 pub fn get_mut<'a, T, U, V>(tree: &'a mut Tree<T, U>, key: &V) -> Option<&'a mut Entry<T, U>>
@@ -163,15 +166,19 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Greater => ceil(&node.right, key),
-            Ordering::Less => match ceil(&node.left, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => {
+                ret = Some(&node.entry);
+                curr = &node.left;
+            }
+            Ordering::Greater => curr = &node.right,
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
 }
 
 pub fn floor<'a, T, U, V>(tree: &'a Tree<T, U>, key: &V) -> Option<&'a Entry<T, U>>
@@ -179,15 +186,31 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => floor(&node.left, key),
-            Ordering::Greater => match floor(&node.right, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Greater => {
+                ret = Some(&node.entry);
+                curr = &node.right;
+            }
+            Ordering::Less => curr = &node.left,
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
+}
+
+// Drops a tree without recursing into it, because a splay tree can be as deep as it is large.
+pub fn clear<T, U>(tree: &mut Tree<T, U>) {
+    while let Some(mut node) = tree.take() {
+        if node.left.is_some() {
+            node.rotate_right();
+            *tree = Some(node);
+        } else {
+            *tree = node.right.take();
+        }
+    }
 }
 
 pub fn min<T, U>(tree: &Tree<T, U>) -> Option<&Entry<T, U>>
-- 
2.43.0


From 3d7d04dce46990d83f86e34e90b02d23b7d78b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 24/33] fix: keep the in-memory entries of an LSM map when
 writing them to disk fails

---
 src/lsm_tree/map.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 4e693ca..1e646d3 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -7,7 +7,6 @@ use std::borrow::Borrow;
 use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
-use std::mem;
 
 /// An ordered map implemented using a log structured merge-tree.
 ///
@@ -88,16 +87,24 @@ where
     }
 
     fn try_compact(&mut self) -> Result<()> {
-        self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
             self.in_memory_tree.len(),
         )?;
-        for entry in mem::replace(&mut self.in_memory_tree, BTreeMap::new()) {
-            sstable_builder.append(entry.0, entry.1)?;
+        for (key, value) in &self.in_memory_tree {
+            let value = SSTableValue {
+                data: value.data.clone(),
+                logical_time: value.logical_time,
+            };
+            sstable_builder.append(key.clone(), value)?;
         }
         let sstable = SSTable::new(sstable_builder.flush()?)?;
-        self.compaction_strategy.try_compact(sstable)
+        self.compaction_strategy.try_compact(sstable)?;
+
+        // the entries must stay in memory until they are known to be on disk
+        self.in_memory_tree.clear();
+        self.in_memory_usage = 0;
+        Ok(())
     }
 
     /// Inserts a key-value pair into the map. If the key-value pair causes the size of the
-- 
2.43.0


From 664ca8f51d2c865739bb4fc3af4e3024700228c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 25/33] fix: do not hold back compaction for an LSM iterator
 that could not be made

---
 src/lsm_tree/compaction/leveled.rs     | 9 +++++----
 src/lsm_tree/compaction/size_tiered.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index c494955..0ec7399 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -747,10 +747,6 @@ where
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
         mut level_data_iters: Vec<VecDeque<SSTableDataIter<T, U>>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -775,6 +771,11 @@ where
             }
         }
 
+        // it is released when the iterator is dropped, so there must be one
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(LeveledIter {
             metadata_lock_count,
             sstable_data_iters,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 8bf34f4..060f913 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -592,10 +592,6 @@ where
         metadata_lock_count: Option<Rc<Cell<u64>>>,
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -605,6 +601,11 @@ where
             }
         }
 
+        // it is released when the iterator is dropped, so there must be one
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(SizeTieredIter {
             metadata_lock_count,
             sstable_data_iters,
-- 
2.43.0


From 49448e8448f143ac0a881a018e82d824350e999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 26/33] fix: take the nodes off a skiplist before dropping them
 in clear

A destructor that panics in clear left the freed nodes linked, and they were freed
again when the map or list was dropped.
---
 src/skiplist/list.rs | 3 ++-
 src/skiplist/map.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 59b6064..862c9ab 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -434,11 +434,12 @@ impl<T> SkipList<T> {
         self.len = 0;
         unsafe {
             let mut curr_node = (*self.head).get_pointer(0).next;
+            // a destructor that panics must not leave freed nodes in the list
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 17bedff..8a54e42 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -392,11 +392,12 @@ impl<T, U> SkipMap<T, U> {
         self.len = 0;
         unsafe {
             let mut curr_node = *(*self.head).get_pointer(0);
+            // a destructor that panics must not leave freed nodes in the map
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
-- 
2.43.0


From ff0a825b49be40b5370259360fd822502cda719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 27/33] fix: survive panics in the set operations of SkipMap

While the heads of the two maps are used as cursors, a comparison or a destructor that
panics made their Drop free nodes as if they were heads.
---
 src/skiplist/map.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 8a54e42..af4adbd 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -3,7 +3,7 @@ use rand::Rng;
 use rand::XorShiftRng;
 use std::borrow::Borrow;
 use std::cmp;
-use std::mem;
+use std::mem::{self, ManuallyDrop};
 use std::ops::{Add, Index, IndexMut, Sub};
 use std::ptr;
 
@@ -574,7 +574,7 @@ impl<T, U> SkipMap<T, U> {
     ///     vec![(&1, &1), (&2, &2), (&3, &3)],
     /// );
     /// ```
-    pub fn union(mut left: Self, mut right: Self) -> Self
+    pub fn union(left: Self, right: Self) -> Self
     where
         T: Ord,
     {
@@ -584,6 +584,9 @@ impl<T, U> SkipMap<T, U> {
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
+        // while the heads are cursors, a panic must not drop the maps
+        let mut left = ManuallyDrop::new(left);
+        let mut right = ManuallyDrop::new(right);
 
         unsafe {
             let next_left_node = *(*left.head).get_pointer(0);
@@ -640,6 +643,8 @@ impl<T, U> SkipMap<T, U> {
             }
             left.head = left_head;
             right.head = right_head;
+            ManuallyDrop::drop(&mut left);
+            ManuallyDrop::drop(&mut right);
         }
         ret
     }
@@ -666,7 +671,7 @@ impl<T, U> SkipMap<T, U> {
     ///     vec![(&2, &2)],
     /// );
     /// ```
-    pub fn intersection(mut left: Self, mut right: Self) -> Self
+    pub fn intersection(left: Self, right: Self) -> Self
     where
         T: Ord,
     {
@@ -676,6 +681,9 @@ impl<T, U> SkipMap<T, U> {
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
+        // while the heads are cursors, a panic must not drop the maps
+        let mut left = ManuallyDrop::new(left);
+        let mut right = ManuallyDrop::new(right);
 
         unsafe {
             let next_left_node = *(*left.head).get_pointer(0);
@@ -737,11 +745,13 @@ impl<T, U> SkipMap<T, U> {
             }
             left.head = left_head;
             right.head = right_head;
+            ManuallyDrop::drop(&mut left);
+            ManuallyDrop::drop(&mut right);
         }
         ret
     }
 
-    fn map_difference(mut left: Self, mut right: Self, symmetric: bool) -> Self
+    fn map_difference(left: Self, right: Self, symmetric: bool) -> Self
     where
         T: Ord,
     {
@@ -751,6 +761,9 @@ impl<T, U> SkipMap<T, U> {
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
+        // while the heads are cursors, a panic must not drop the maps
+        let mut left = ManuallyDrop::new(left);
+        let mut right = ManuallyDrop::new(right);
 
         unsafe {
             let next_left_node = *(*left.head).get_pointer(0);
@@ -819,6 +832,8 @@ impl<T, U> SkipMap<T, U> {
             }
             left.head = left_head;
             right.head = right_head;
+            ManuallyDrop::drop(&mut left);
+            ManuallyDrop::drop(&mut right);
         }
         ret
     }
-- 
2.43.0


From bae06c73535571fadb66dbdb8a6f04510bd9de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 28/33] fix: do not free a skiplist node that is still linked
 on some level

SkipMap compared keys anew on every level while it changed the links of that level. A
comparison that answered inconsistently left a freed node linked on an upper level, and
one that panicked left a node on some levels only. Search first, compare on the lowest
level, then change the links of all levels.
---
 src/skiplist/map.rs | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index af4adbd..be31a93 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -142,47 +142,39 @@ impl<T, U> SkipMap<T, U> {
     where
         T: Ord,
     {
-        self.len += 1;
         let new_height = self.gen_random_height();
-        let new_node = Node::new(key, value, new_height + 1);
         let mut curr_height = MAX_HEIGHT;
+        let mut last_nodes = [self.head; MAX_HEIGHT + 1];
         let mut curr_node = &mut self.head;
-        let mut ret = None;
 
         unsafe {
             loop {
                 let mut next_node = (**curr_node).get_pointer_mut(curr_height);
-                while !next_node.is_null() && (**next_node).entry.key < (*new_node).entry.key {
+                while !next_node.is_null() && (**next_node).entry.key < key {
                     let next_next_node = (**next_node).get_pointer_mut(curr_height);
                     curr_node = mem::replace(&mut next_node, next_next_node);
                 }
-
-                if !next_node.is_null() && (**next_node).entry.key == (*new_node).entry.key {
-                    let temp = *next_node;
-                    let next_next_node = *(**next_node).get_pointer_mut(curr_height);
-                    *(**curr_node).get_pointer_mut(curr_height) = next_next_node;
-                    if curr_height == 0 {
-                        ret = Some((
-                            ptr::read(&(*temp).entry.key),
-                            ptr::read(&(*temp).entry.value),
-                        ));
-                        Node::deallocate(temp);
-                        self.len -= 1;
-                    }
-                }
-
-                if curr_height <= new_height {
-                    let next_node = &mut *(**curr_node).get_pointer_mut(curr_height);
-                    *(*new_node).get_pointer_mut(curr_height) = mem::replace(next_node, new_node);
-                }
+                last_nodes[curr_height] = *curr_node;
 
                 if curr_height == 0 {
+                    if !next_node.is_null() && (**next_node).entry.key == key {
+                        let entry = mem::replace(&mut (**next_node).entry, Entry { key, value });
+                        return Some((entry.key, entry.value));
+                    }
                     break;
                 }
 
                 curr_height -= 1;
             }
-            ret
+
+            // links change only once there is nothing left to compare
+            self.len += 1;
+            let new_node = Node::new(key, value, new_height + 1);
+            for (i, last_node) in last_nodes.iter().enumerate().take(new_height + 1) {
+                let next_node = (**last_node).get_pointer_mut(i);
+                *(*new_node).get_pointer_mut(i) = mem::replace(next_node, new_node);
+            }
+            None
         }
     }
 
@@ -205,8 +197,8 @@ impl<T, U> SkipMap<T, U> {
         V: Ord + ?Sized,
     {
         let mut curr_height = MAX_HEIGHT;
+        let mut last_nodes = [self.head; MAX_HEIGHT + 1];
         let mut curr_node = &mut self.head;
-        let mut ret = None;
 
         unsafe {
             loop {
@@ -215,28 +207,34 @@ impl<T, U> SkipMap<T, U> {
                     let next_next_node = (**next_node).get_pointer_mut(curr_height);
                     curr_node = mem::replace(&mut next_node, next_next_node);
                 }
+                last_nodes[curr_height] = *curr_node;
 
-                if !next_node.is_null() && (**next_node).entry.key.borrow() == key {
+                if curr_height == 0 {
+                    if next_node.is_null() || (**next_node).entry.key.borrow() != key {
+                        return None;
+                    }
                     let temp = *next_node;
-                    let next_next_node = *(**next_node).get_pointer_mut(curr_height);
-                    *(**curr_node).get_pointer_mut(curr_height) = next_next_node;
-                    if curr_height == 0 {
-                        ret = Some((
-                            ptr::read(&(*temp).entry.key),
-                            ptr::read(&(*temp).entry.value),
-                        ));
-                        Node::deallocate(temp);
-                        self.len -= 1;
+                    for (i, last_node) in last_nodes.iter_mut().enumerate() {
+                        if i == (*temp).links_len {
+                            break;
+                        }
+                        // an inconsistent `Ord` may have missed the node on this level
+                        if *(**last_node).get_pointer(i) != temp {
+                            *last_node = self.head;
+                        }
+                        while *(**last_node).get_pointer(i) != temp {
+                            *last_node = *(**last_node).get_pointer(i);
+                        }
+                        *(**last_node).get_pointer_mut(i) = *(*temp).get_pointer(i);
                     }
-                }
-
-                if curr_height == 0 {
-                    break;
+                    let Entry { key, value } = ptr::read(&(*temp).entry);
+                    Node::deallocate(temp);
+                    self.len -= 1;
+                    return Some((key, value));
                 }
 
                 curr_height -= 1;
             }
-            ret
         }
     }
 
-- 
2.43.0


From e4d922b4abbb2875c0b638673fcc24ef46d34c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 29/33] fix: align the nodes of skiplists for over-aligned
 elements

---
 src/skiplist/list.rs | 19 +++++++++++--------
 src/skiplist/map.rs  | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 862c9ab..2d3ac3f 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,6 @@
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
 use std::ptr;
@@ -37,18 +38,21 @@ impl<T> Node<T> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T>>();
         let link_size = mem::size_of::<Link<T>>();
-        let u64_size = mem::size_of::<u64>();
+        let align = mem::align_of::<Node<T>>();
 
-        (base_size + link_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + link_size * links_len, align)
+            .expect("Expected node layout to be valid.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -57,8 +61,7 @@ impl<T> Node<T> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index be31a93..665f077 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,7 @@
 use crate::entry::Entry;
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
 use std::mem::{self, ManuallyDrop};
@@ -33,18 +34,21 @@ impl<T, U> Node<T, U> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T, U>>();
         let ptr_size = mem::size_of::<*mut Node<T, U>>();
-        let u64_size = mem::size_of::<u64>();
+        let align = mem::align_of::<Node<T, U>>();
 
-        (base_size + ptr_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + ptr_size * links_len, align)
+            .expect("Expected node layout to be valid.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T, U>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T, U>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -53,8 +57,7 @@ impl<T, U> Node<T, U> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
-- 
2.43.0


From a2aa5df657046cb87ac3fbbd9e5420a863a8b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 30/33] fix: borrow a SkipMap mutably in iter_mut

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 665f077..eb1ded1 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -944,7 +944,7 @@ impl<T, U> SkipMap<T, U> {
     /// assert_eq!(iterator.next(), Some((&2, &mut 3)));
     /// assert_eq!(iterator.next(), None);
     /// ```
-    pub fn iter_mut(&self) -> SkipMapIterMut<'_, T, U> {
+    pub fn iter_mut(&mut self) -> SkipMapIterMut<'_, T, U> {
         unsafe {
             SkipMapIterMut {
                 current: &mut *(*self.head).get_pointer_mut(0),
-- 
2.43.0


From c1c06a301bcbe29cf2c17f0838010bb5474b3d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 31/33] fix: let a leveled store with no room on some level
 finish its compaction

With max_initial_level_count or growth_factor zero no level could hold an SSTable, so a compaction
moved the SSTables down for ever. A large growth factor overflowed.
---
 src/lsm_tree/compaction/leveled.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 0ec7399..6b7971a 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -385,9 +385,13 @@ where
 
             let should_merge = |metadata_snapshot: &LeveledMetadata<T, U>, index: usize| {
                 let curr_len = metadata_snapshot.levels[index].len();
-                let exponent = metadata_snapshot.growth_factor.pow(index as u32) as usize;
-                let max_len = metadata_snapshot.max_initial_level_count * exponent;
-                curr_len > max_len as usize
+                let exponent =
+                    metadata_snapshot.growth_factor.saturating_pow(index as u32) as usize;
+                let max_len = metadata_snapshot
+                    .max_initial_level_count
+                    .saturating_mul(exponent);
+                // no number of levels could hold an SSTable if none of them held at least one
+                curr_len > cmp::max(max_len, 1)
             };
 
             while should_merge(&metadata_snapshot, index) {
-- 
2.43.0


From ae1ba281a867393d3b1288948fb7f1c6adc218cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 32/33] fix: keep a BpMap as it is when writing its metadata
 fails

Pager changed the metadata in memory before the write that could fail. After
an error from clear, insert or remove that had written nothing, the map then
reported another length, lost its contents or pointed past the end of its file.
---
 src/bp_tree/pager.rs | 67 +++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/bp_tree/pager.rs b/src/bp_tree/pager.rs
index e0f32ed..712ab57 100644
--- a/src/bp_tree/pager.rs
+++ b/src/bp_tree/pager.rs
@@ -55,7 +55,7 @@ impl fmt::Display for Error {
 /// Convenience `Result` type for `bp_tree`.
 pub type Result<T> = result::Result<T, Error>;
 
-#[derive(Serialize, Deserialize)]
+#[derive(Clone, Serialize, Deserialize)]
 struct Metadata {
     pages: usize,
     len: usize,
@@ -145,6 +145,15 @@ impl<T, U> Pager<T, U> {
         })
     }
 
+    // The metadata in memory only changes after it is written successfully.
+    fn write_metadata(&mut self, metadata: Metadata) -> Result<()> {
+        self.db_file.seek(SeekFrom::Start(0))?;
+        let serialized_metadata = &serialize(&metadata)?;
+        self.db_file.write_all(serialized_metadata)?;
+        self.metadata = metadata;
+        Ok(())
+    }
+
     #[inline]
     fn get_node_size(&self) -> u64 {
         Node::<T, U>::get_max_size(
@@ -179,12 +188,9 @@ impl<T, U> Pager<T, U> {
     }
 
     pub fn set_len(&mut self, len: usize) -> Result<()> {
-        self.metadata.len = len;
-        self.db_file.seek(SeekFrom::Start(0))?;
-        let serialized_metadata = &serialize(&self.metadata)?;
-        self.db_file
-            .write_all(serialized_metadata)
-            .map_err(Error::IOError)
+        let mut metadata = self.metadata.clone();
+        metadata.len = len;
+        self.write_metadata(metadata)
     }
 
     pub fn get_root_page(&self) -> usize {
@@ -192,12 +198,9 @@ impl<T, U> Pager<T, U> {
     }
 
     pub fn set_root_page(&mut self, new_root_page: usize) -> Result<()> {
-        self.metadata.root_page = new_root_page;
-        self.db_file.seek(SeekFrom::Start(0))?;
-        let serialized_metadata = &serialize(&self.metadata)?;
-        self.db_file
-            .write_all(serialized_metadata)
-            .map_err(Error::IOError)
+        let mut metadata = self.metadata.clone();
+        metadata.root_page = new_root_page;
+        self.write_metadata(metadata)
     }
 
     pub fn get_page(&mut self, index: usize) -> Result<Node<T, U>>
@@ -219,17 +222,16 @@ impl<T, U> Pager<T, U> {
     {
         match self.metadata.free_page {
             None => {
-                self.metadata.pages += 1;
-                let len = self.calculate_page_offset(self.metadata.pages);
+                let mut metadata = self.metadata.clone();
+                metadata.pages += 1;
+                let len = self.calculate_page_offset(metadata.pages);
                 let node_size = self.get_node_size();
                 self.db_file.set_len(len)?;
                 self.db_file.seek(SeekFrom::Start(len - node_size))?;
                 let serialized_node = &serialize(&new_node)?;
                 self.db_file.write_all(serialized_node)?;
 
-                self.db_file.seek(SeekFrom::Start(0))?;
-                let serialized_metadata = &serialize(&self.metadata)?;
-                self.db_file.write_all(serialized_metadata)?;
+                self.write_metadata(metadata)?;
 
                 Ok(self.metadata.pages - 1)
             }
@@ -244,13 +246,12 @@ impl<T, U> Pager<T, U> {
                 let serialized_node = &serialize(&new_node)?;
                 self.db_file.write_all(serialized_node)?;
 
+                let mut metadata = self.metadata.clone();
                 match deserialize(buffer.as_slice())? {
-                    Node::Free::<T, U>(new_free_page) => self.metadata.free_page = new_free_page,
+                    Node::Free::<T, U>(new_free_page) => metadata.free_page = new_free_page,
                     _ => panic!("Expected a free node."),
                 }
-                self.db_file.seek(SeekFrom::Start(0))?;
-                let serialized_metadata = &serialize(&self.metadata)?;
-                self.db_file.write_all(serialized_metadata)?;
+                self.write_metadata(metadata)?;
 
                 Ok(free_page)
             }
@@ -268,12 +269,9 @@ impl<T, U> Pager<T, U> {
         let serialized_node = &serialize(&Node::Free::<T, U>(self.metadata.free_page))?;
         self.db_file.write_all(serialized_node)?;
 
-        self.metadata.free_page = Some(index);
-        self.db_file.seek(SeekFrom::Start(0))?;
-        let serialized_metadata = &serialize(&self.metadata)?;
-        self.db_file
-            .write_all(serialized_metadata)
-            .map_err(Error::IOError)
+        let mut metadata = self.metadata.clone();
+        metadata.free_page = Some(index);
+        self.write_metadata(metadata)
     }
 
     pub fn write_node(&mut self, index: usize, node: &Node<T, U>) -> Result<()>
@@ -296,15 +294,14 @@ impl<T, U> Pager<T, U> {
     {
         let header_size = Self::get_metadata_size();
         let body_size = self.get_node_size();
-        self.metadata.pages = 1;
-        self.metadata.len = 0;
-        self.metadata.root_page = 0;
-        self.metadata.free_page = None;
+        let mut metadata = self.metadata.clone();
+        metadata.pages = 1;
+        metadata.len = 0;
+        metadata.root_page = 0;
+        metadata.free_page = None;
         self.db_file.set_len(header_size + body_size)?;
 
-        self.db_file.seek(SeekFrom::Start(0))?;
-        let serialized_metadata = &serialize(&self.metadata)?;
-        self.db_file.write_all(serialized_metadata)?;
+        self.write_metadata(metadata)?;
 
         self.db_file.seek(SeekFrom::Start(header_size))?;
         let serialized_node = &serialize(&Node::Leaf(LeafNode::<T, U>::new(
-- 
2.43.0


From 9f02975d94591f823c3e25bf0a364a01fd30bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:52 +0000
Subject: [PATCH 33/33] fix: merge only the SSTables of one bucket in a
 size-tiered compaction

The SSTable that ended a bucket was merged along with it, and otherwise
belonged to no bucket at all, so that it was never compared with those
that follow. It now begins the next bucket.
---
 src/lsm_tree/compaction/size_tiered.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 060f913..e54809c 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -76,15 +76,16 @@ impl<T, U> SizeTieredMetadata<T, U> {
             let in_bucket = curr_avg * self.bucket_low <= start_size as f64
                 && curr_size as f64 <= curr_avg * self.bucket_high;
 
-            curr += 1;
             if in_min_bucket || in_bucket {
                 range_size += curr_size;
             } else if curr - start > self.max_sstable_count {
                 return Some((start, curr));
             } else {
-                range_size = 0;
+                // the SSTable that does not belong to the bucket begins the next one
+                range_size = curr_size;
                 start = curr;
             }
+            curr += 1;
         }
 
         if curr - start > self.max_sstable_count {
-- 
2.43.0

