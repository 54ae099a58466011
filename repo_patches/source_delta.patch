From 48eb0372a45c64858a17e5e4a8a9e3f24764e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:51 +0000
Subject: [PATCH 01/36] fix: rebalance the path to the successor when removing
 from an AvlMap

remove_min unlinked the minimum of the right subtree without updating heights
or rebalancing its ancestors, so removals could leave unbalanced subtrees and
stale heights.
---
 src/avl_tree/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avl_tree/tree.rs b/src/avl_tree/tree.rs
index 9809776..25764d1 100644
--- a/src/avl_tree/tree.rs
+++ b/src/avl_tree/tree.rs
@@ -44,7 +44,9 @@ fn balance<T, U>(tree: &mut Tree<T, U>) {
 fn remove_min<T, U>(tree: &mut Tree<T, U>) -> Box<Node<T, U>> {
     if let Some(ref mut node) = tree {
         if node.left.is_some() {
-            return remove_min(&mut node.left);
+            let min = remove_min(&mut node.left);
+            balance(tree);
+            return min;
         }
     }
 
-- 
2.43.0


From 17bf41926af92339511e698001098ac68db59cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 02/36] fix: keep SkipMap::intersection within the links of
 each node

The relinking loop wrote one link past the end of every node it kept.
---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..7a214cd 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From 2fb303f50ac67ef25760028b3cd7202cb19a3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 03/36] fix: take the rest of the left map in SkipMap
 difference

When the right map ran out first, the (null) right node was dereferenced.
---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 7a214cd..7659349 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From 8ac066b6a5e88499daa4aa93cb535d200a49a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 04/36] fix: do not drop remaining elements twice in skiplist
 into_iter

Node::free already drops the contents of the node.
---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..fcbffe1 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 7659349..5c3ad07 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From d634764fd4c8d1fd27bfdf80ee12e007853edab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 05/36] fix: require a mutable borrow for SkipMap::iter_mut

Taking &self allowed aliasing mutable references from safe code.
---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 5c3ad07..d944532 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -927,7 +927,7 @@ impl<T, U> SkipMap<T, U> {
     /// assert_eq!(iterator.next(), Some((&2, &mut 3)));
     /// assert_eq!(iterator.next(), None);
     /// ```
-    pub fn iter_mut(&self) -> SkipMapIterMut<'_, T, U> {
+    pub fn iter_mut(&mut self) -> SkipMapIterMut<'_, T, U> {
         unsafe {
             SkipMapIterMut {
                 current: &mut *(*self.head).get_pointer_mut(0),
-- 
2.43.0


From b0b34d83525d4a86ec01e1f4104016e244e7a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 06/36] fix: keep SkipList tail distances exact when removing

remove left the distances of null links unchanged, so concatenating another
list afterwards produced links with wrong distances.
---
 src/skiplist/list.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index fcbffe1..15b8b1e 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -214,20 +214,19 @@ impl<T> SkipList<T> {
                     curr_node = &mut mem::replace(&mut next_link, next_next_link).next;
                 }
 
-                if !next_link.next.is_null() {
-                    if next_link.distance == index + 1 {
-                        let Link { next, distance } = *next_link;
-                        mem::swap(next_link, (*next).get_pointer_mut(curr_height));
-                        next_link.distance += distance - 1;
-                        if curr_height == 0 {
-                            let ret = ptr::read(&(*next).value);
-                            Node::deallocate(next);
-                            self.len -= 1;
-                            return ret;
-                        }
-                    } else {
-                        next_link.distance -= 1;
+                if !next_link.next.is_null() && next_link.distance == index + 1 {
+                    let Link { next, distance } = *next_link;
+                    mem::swap(next_link, (*next).get_pointer_mut(curr_height));
+                    next_link.distance += distance - 1;
+                    if curr_height == 0 {
+                        let ret = ptr::read(&(*next).value);
+                        Node::deallocate(next);
+                        self.len -= 1;
+                        return ret;
                     }
+                } else {
+                    // the distance of a null link is the number of elements after the node
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From c237409272d00d9231eed03cbf3872e2b99e4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 07/36] fix: do not index past the zero-length links array of
 skiplist nodes

get_unchecked out of bounds is undefined behaviour whatever the allocation.
---
 src/skiplist/list.rs | 12 ++++++------
 src/skiplist/map.rs  | 30 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 15b8b1e..1f6faaa 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -30,11 +30,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -51,7 +51,7 @@ impl<T> Node<T> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -438,7 +438,7 @@ impl<T> SkipList<T> {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -515,9 +515,9 @@ impl<T> IntoIterator for SkipList<T> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: (*self.head).links.get_unchecked_mut(0).next,
+                current: (*(*self.head).links.as_mut_ptr()).next,
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index d944532..369c979 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -26,11 +26,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -47,7 +47,7 @@ impl<T, U> Node<T, U> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -396,7 +396,7 @@ impl<T, U> SkipMap<T, U> {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -589,8 +589,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -626,7 +626,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -681,8 +681,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -723,7 +723,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -756,8 +756,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -805,7 +805,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -956,9 +956,9 @@ impl<T, U> IntoIterator for SkipMap<T, U> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: *(*self.head).links.get_unchecked_mut(0),
+                current: *(*self.head).links.as_mut_ptr(),
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
-- 
2.43.0


From 498f5d4971ba57ba793a4188685f433b8c85b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 08/36] fix: allocate skiplist nodes with the alignment of
 their contents

Nodes were carved out of a Vec<u64>, which is misaligned for element types
with an alignment above eight.
---
 src/skiplist/list.rs | 18 ++++++++++--------
 src/skiplist/map.rs  | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 1f6faaa..7525096 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,6 @@
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
 use std::ptr;
@@ -37,18 +38,20 @@ impl<T> Node<T> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T>>();
         let link_size = mem::size_of::<Link<T>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + link_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + link_size * links_len, mem::align_of::<Node<T>>())
+            .expect("Expected valid node layout.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -57,8 +60,7 @@ impl<T> Node<T> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 369c979..b365433 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,7 @@
 use crate::entry::Entry;
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
 use std::mem;
@@ -33,18 +34,20 @@ impl<T, U> Node<T, U> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T, U>>();
         let ptr_size = mem::size_of::<*mut Node<T, U>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + ptr_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + ptr_size * links_len, mem::align_of::<Node<T, U>>())
+            .expect("Expected valid node layout.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T, U>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T, U>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -53,8 +56,7 @@ impl<T, U> Node<T, U> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
-- 
2.43.0


From 9e8ad99fb40aa4d5787b9ccaa2878339fbbe7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:32 +0000
Subject: [PATCH 09/36] fix: allow inserting into a RadixMap that became empty
 through remove

Removing the last key leaves no root node and the next insert panicked.
---
 src/radix/tree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..f18dc5c 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -5,7 +5,13 @@ use std::mem;
 pub type Tree<T> = Option<Box<Node<T>>>;
 
 pub fn insert<T>(tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
-    let node = tree.as_mut().expect("Expected non-empty tree.");
+    let node = match tree {
+        Some(ref mut node) => node,
+        None => {
+            *tree = Some(Box::new(Node::new(key.to_vec(), Some(value))));
+            return None;
+        }
+    };
     let split_index = node
         .key
         .iter()
-- 
2.43.0


From e20a27e97ac2ed27b9ac9e601cb1381657746490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:32 +0000
Subject: [PATCH 10/36] fix: return every key sharing the longest prefix from
 get_longest_prefix

When the walk stopped at a node without a matching child, the keys below that
node were left out although they share the same prefix; when the root edge
shared nothing with the key, every key was returned.
---
 src/radix/tree.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index f18dc5c..ad459de 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -152,11 +152,13 @@ pub fn get_longest_prefix<T>(
         .zip(key[index..].iter())
         .position(|pair| pair.0 != pair.1);
     match split_index {
-        Some(_) => {
-            if node.value.is_some() {
-                keys.push(curr_key.clone());
+        Some(split_index) => {
+            if index + split_index > 0 {
+                if node.value.is_some() {
+                    keys.push(curr_key.clone());
+                }
+                node.push_all_children(curr_key, keys);
             }
-            node.push_all_children(curr_key, keys);
         }
         None => match node.key.len().cmp(&(key.len() - index)) {
             Ordering::Less => {
@@ -166,7 +168,10 @@ pub fn get_longest_prefix<T>(
                     Some(_) => get_longest_prefix(next_child, key, index, curr_key, keys),
                     None => {
                         if node.value.is_some() {
-                            keys.push(curr_key)
+                            keys.push(curr_key.clone());
+                        }
+                        if index > 0 {
+                            node.push_all_children(curr_key, keys);
                         }
                     }
                 }
-- 
2.43.0


From c70eadbdd6d00e72d0776a24a62f41c91d49495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:32 +0000
Subject: [PATCH 11/36] fix: check for a vacant block before touching the free
 list in TypedArena::free

Freeing a vacant entry panicked only after the free list had been taken apart,
so the arena was corrupt if the panic was caught.
---
 src/arena.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arena.rs b/src/arena.rs
index 264ad3d..3d7eb93 100644
--- a/src/arena.rs
+++ b/src/arena.rs
@@ -138,12 +138,15 @@ impl<T> TypedArena<T> {
         if !self.is_valid_entry(entry) {
             panic!("Error: attempting to free invalid block.");
         }
+        if self.get(entry).is_none() {
+            panic!("Error: attempting to free vacant block.");
+        }
         let old_block = mem::replace(
             &mut self.chunks[entry.chunk_index][entry.block_index],
             Block::Vacant(self.head.take()),
         );
         match old_block {
-            Block::Vacant(_) => panic!("Error: attempting to free vacant block."),
+            Block::Vacant(_) => unreachable!(),
             Block::Occupied(value) => {
                 self.size -= 1;
                 self.head = Some(Entry {
-- 
2.43.0


From 523b0f1b84cd23663971d42721247eeeb85f45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 12/36] fix: return None from TreapList::get for index
 usize::MAX

index + 1 overflowed, panicking in debug builds.
---
 src/treap/list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/treap/list.rs b/src/treap/list.rs
index ef672dd..48543ef 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -181,7 +181,9 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(1), None);
     /// ```
     pub fn get(&self, index: usize) -> Option<&T> {
-        implicit_tree::get(&self.tree, index + 1)
+        index
+            .checked_add(1)
+            .and_then(|index| implicit_tree::get(&self.tree, index))
     }
 
     /// Returns a mutable reference to the value at a particular index. Returns `None` if the
@@ -198,7 +200,10 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(0), Some(&2));
     /// ```
     pub fn get_mut(&mut self, index: usize) -> Option<&mut T> {
-        implicit_tree::get_mut(&mut self.tree, index + 1)
+        let tree = &mut self.tree;
+        index
+            .checked_add(1)
+            .and_then(move |index| implicit_tree::get_mut(tree, index))
     }
 
     /// Returns the number of elements in the list.
-- 
2.43.0


From ee84f50572946a30d51c7d96b863b0e7b1df7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:58 +0000
Subject: [PATCH 13/36] fix: seed the priorities of each treap independently

All treaps drew the same priority sequence, so combining many of them (for
example concatenating single-element lists) degenerated into a linear chain
and overflowed the stack.
---
 src/treap/list.rs | 4 ++--
 src/treap/map.rs  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/treap/list.rs b/src/treap/list.rs
index 48543ef..749e03a 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -1,7 +1,7 @@
 use crate::treap::implicit_tree;
 use crate::treap::node::ImplicitNode;
 use rand::Rng;
-use rand::XorShiftRng;
+use rand::{weak_rng, XorShiftRng};
 use std::ops::{Add, Index, IndexMut};
 
 /// A list implemented using an implicit treap.
@@ -52,7 +52,7 @@ impl<T> TreapList<T> {
     pub fn new() -> Self {
         TreapList {
             tree: None,
-            rng: XorShiftRng::new_unseeded(),
+            rng: weak_rng(),
         }
     }
 
diff --git a/src/treap/map.rs b/src/treap/map.rs
index 6feee4d..8763ae2 100644
--- a/src/treap/map.rs
+++ b/src/treap/map.rs
@@ -2,7 +2,7 @@ use crate::entry::Entry;
 use crate::treap::node::Node;
 use crate::treap::tree;
 use rand::Rng;
-use rand::XorShiftRng;
+use rand::{weak_rng, XorShiftRng};
 use std::borrow::Borrow;
 use std::ops::{Add, Index, IndexMut, Sub};
 
@@ -52,7 +52,7 @@ impl<T, U> TreapMap<T, U> {
     pub fn new() -> Self {
         TreapMap {
             tree: None,
-            rng: XorShiftRng::new_unseeded(),
+            rng: weak_rng(),
         }
     }
 
@@ -331,13 +331,13 @@ impl<T, U> TreapMap<T, U> {
             tree::merge(tree, split_node);
             TreapMap {
                 tree: ret,
-                rng: XorShiftRng::new_unseeded(),
+                rng: weak_rng(),
             }
         } else {
             tree::merge(&mut split_node, ret);
             TreapMap {
                 tree: split_node,
-                rng: XorShiftRng::new_unseeded(),
+                rng: weak_rng(),
             }
         }
     }
-- 
2.43.0


From 08b988e714990445df298eab9ef0ac6121f50dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:27 +0000
Subject: [PATCH 14/36] fix: do not drop values popped from sync::Stack a
 second time

try_pop moved the value out of the node and then had the collector drop the
node with the value still in it.
---
 src/sync/stack.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..7a8c293 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,9 +1,10 @@
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 struct Node<T> {
-    value: T,
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -61,7 +62,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -112,7 +113,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ManuallyDrop::into_inner(ptr::read(&(*head).value)));
                         }
                     }
                 }
-- 
2.43.0


From 2fcf74f28365d2721cf34416afd9e40061986a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:27 +0000
Subject: [PATCH 15/36] fix: drop the remaining values of a sync::Stack

A Stack dropped while holding values leaked all of its nodes.
---
 src/sync/stack.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 7a8c293..d140208 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -157,6 +157,12 @@ impl<T> Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 impl<T> Default for Stack<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From ca792d980f986f064e085f8a89d36e7d9dace482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:27 +0000
Subject: [PATCH 16/36] fix: count a pushed value in sync::Stack before it can
 be popped

A concurrent pop could decrement the length first, making len() wrap around.
---
 src/sync/stack.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index d140208..e793772 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -66,6 +66,9 @@ impl<T> Stack<T> {
             next: Atomic::null(),
         });
 
+        // counted before it can be popped so that the length never drops below zero
+        self.len.fetch_add(1, Ordering::Release);
+
         let guard = &crossbeam_epoch::pin();
         loop {
             let head_shared = self.head.load(Ordering::Relaxed, guard);
@@ -74,10 +77,7 @@ impl<T> Stack<T> {
                 .head
                 .compare_and_set(head_shared, new_node, Ordering::Release, guard)
             {
-                Ok(_) => {
-                    self.len.fetch_add(1, Ordering::Release);
-                    break;
-                }
+                Ok(_) => break,
                 Err(e) => new_node = e.new,
             }
         }
-- 
2.43.0


From f7dad42075fde9351f9f107ed96693f7c9fea164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:47 +0000
Subject: [PATCH 17/36] fix: replace an existing key of a full BpMap leaf
 without splitting it

---
 src/bp_tree/node.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..d53a1f8 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -245,16 +245,17 @@ impl<T, U> LeafNode<T, U> {
             self.entries[index] = Some(new_entry);
             None
         }
-        // node is full; have to split
-        else {
+        // node is full; have to split unless the key already exists
+        else if let Some(index) = self.search(&new_entry.key) {
+            self.entries[index]
+                .replace(new_entry)
+                .map(InsertCases::Entry)
+        } else {
             let mut split_node = LeafNode::new(leaf_degree);
             for index in 0..leaf_degree {
                 if let Some(ref mut entry) = self.entries[index] {
                     if new_entry <= *entry {
                         mem::swap(entry, &mut new_entry);
-                        if new_entry == *entry {
-                            return Some(InsertCases::Entry(new_entry));
-                        }
                     }
                 }
                 if index > leaf_degree / 2 {
-- 
2.43.0


From 5cea933bba499e285f261ef155c39e5e6d85076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 18/36] fix: make BpMap pages large enough for the encoded
 nodes

---
 src/bp_tree/node.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index d53a1f8..e952946 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -365,6 +365,25 @@ pub enum Node<T, U> {
 }
 
 impl<T, U> Node<T, U> {
+    // The in-memory sizes used by `LeafNode::get_max_size` and `InternalNode::get_max_size` can be
+    // smaller than the encoding when `Option<T>` needs no tag in memory, so a page must also hold:
+    // 1) a variant index is encoded as u32 (4 bytes)
+    // 2) an option is encoded as a tag (1 byte) and the item
+    #[inline]
+    fn get_max_serialized_size(
+        key_size: u64,
+        value_size: u64,
+        leaf_degree: usize,
+        internal_degree: usize,
+    ) -> u64 {
+        let leaf_entry_size = 1 + key_size + value_size;
+        let internal_entry_size = 1 + key_size + U64_SIZE;
+        cmp::max(
+            4 + U64_SIZE * 2 + (1 + U64_SIZE) + leaf_degree as u64 * leaf_entry_size,
+            4 + U64_SIZE * 4 + internal_degree as u64 * internal_entry_size,
+        )
+    }
+
     #[inline]
     pub fn get_max_size(
         key_size: u64,
@@ -373,8 +392,11 @@ impl<T, U> Node<T, U> {
         internal_degree: usize,
     ) -> u64 {
         cmp::max(
-            LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
-            InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            cmp::max(
+                LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
+                InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            ),
+            Self::get_max_serialized_size(key_size, value_size, leaf_degree, internal_degree),
         )
     }
 }
-- 
2.43.0


From 9cfc00d9d78f7bb34cc793f3ef80c70b9c7e1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:08 +0000
Subject: [PATCH 19/36] fix: do not recurse through the arbitrarily deep nodes
 of a splay tree

---
 src/splay_tree/map.rs  | 21 +++++++++++--
 src/splay_tree/tree.rs | 71 ++++++++++++++++++++++++++++--------------
 2 files changed, 65 insertions(+), 27 deletions(-)

diff --git a/src/splay_tree/map.rs b/src/splay_tree/map.rs
index caa7d40..31cd1fc 100644
--- a/src/splay_tree/map.rs
+++ b/src/splay_tree/map.rs
@@ -216,7 +216,7 @@ impl<T, U> SplayMap<T, U> {
     /// assert_eq!(map.is_empty(), true);
     /// ```
     pub fn clear(&mut self) {
-        self.tree = None;
+        tree::clear(&mut self.tree);
         self.len = 0;
     }
 
@@ -357,13 +357,19 @@ impl<T, U> SplayMap<T, U> {
     }
 }
 
+impl<T, U> Drop for SplayMap<T, U> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.tree);
+    }
+}
+
 impl<T, U> IntoIterator for SplayMap<T, U> {
     type IntoIter = SplayMapIntoIter<T, U>;
     type Item = (T, U);
 
-    fn into_iter(self) -> Self::IntoIter {
+    fn into_iter(mut self) -> Self::IntoIter {
         Self::IntoIter {
-            current: self.tree,
+            current: self.tree.take(),
             stack: Vec::new(),
         }
     }
@@ -403,6 +409,15 @@ pub struct SplayMapIntoIter<T, U> {
     stack: Vec<Node<T, U>>,
 }
 
+impl<T, U> Drop for SplayMapIntoIter<T, U> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.current);
+        for node in &mut self.stack {
+            tree::clear(&mut node.right);
+        }
+    }
+}
+
 impl<T, U> Iterator for SplayMapIntoIter<T, U> {
     type Item = (T, U);
 
diff --git a/src/splay_tree/tree.rs b/src/splay_tree/tree.rs
index de3b3a5..d50c1ac 100644
--- a/src/splay_tree/tree.rs
+++ b/src/splay_tree/tree.rs
@@ -136,12 +136,15 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => get(&node.left, key),
-            Ordering::Greater => get(&node.right, key),
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => curr = &node.left,
+            Ordering::Greater => curr = &node.right,
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    None
 }
 
 pub fn get_mut<'a, T, U, V>(tree: &'a mut Tree<T, U>, key: &V) -> Option<&'a mut Entry<T, U>>
@@ -163,15 +166,19 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Greater => ceil(&node.right, key),
-            Ordering::Less => match ceil(&node.left, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Greater => curr = &node.right,
+            Ordering::Less => {
+                ret = Some(&node.entry);
+                curr = &node.left;
+            }
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
 }
 
 pub fn floor<'a, T, U, V>(tree: &'a Tree<T, U>, key: &V) -> Option<&'a Entry<T, U>>
@@ -179,15 +186,31 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => floor(&node.left, key),
-            Ordering::Greater => match floor(&node.right, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => curr = &node.left,
+            Ordering::Greater => {
+                ret = Some(&node.entry);
+                curr = &node.right;
+            }
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
+}
+
+// Drops every node of the tree without recursing, as a splay tree can be arbitrarily deep.
+pub fn clear<T, U>(tree: &mut Tree<T, U>) {
+    while let Some(mut node) = tree.take() {
+        if node.left.is_some() {
+            node.rotate_right();
+            *tree = Some(node);
+        } else {
+            *tree = node.right.take();
+        }
+    }
 }
 
 pub fn min<T, U>(tree: &Tree<T, U>) -> Option<&Entry<T, U>>
-- 
2.43.0


From 50faf37dc99596b01289f99d495fba44c25f921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:57 +0000
Subject: [PATCH 20/36] fix: persist the logical time of a new LSM tree

---
 src/lsm_tree/compaction/leveled.rs     | 3 +++
 src/lsm_tree/compaction/size_tiered.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..21cfcf9 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -189,6 +189,9 @@ where
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file.seek(SeekFrom::Start(0))?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..e16264a 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -243,6 +243,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file.seek(SeekFrom::Start(0))?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
-- 
2.43.0


From 0c3b75686ab6aae536310e1eb8fbd1212e584e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:38 +0000
Subject: [PATCH 21/36] fix: keep exactly the SSTables flushed after a
 compaction's snapshot

---
 src/lsm_tree/compaction/leveled.rs     | 22 ++++++++++------------
 src/lsm_tree/compaction/size_tiered.rs | 16 ++++++++++------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 21cfcf9..1505cb3 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -119,6 +119,8 @@ where
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<LeveledMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<LeveledMetadata<T, U>>>>,
+    // paths of the SSTables that the most recent compaction started from
+    snapshot_paths: HashSet<PathBuf>,
 }
 
 impl<T, U> LeveledStrategy<T, U>
@@ -183,6 +185,7 @@ where
                 growth_factor,
             ))),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_paths: HashSet::new(),
         };
 
         {
@@ -240,6 +243,7 @@ where
             metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_paths: HashSet::new(),
         })
     }
 
@@ -250,23 +254,12 @@ where
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .levels
-                .iter()
-                .map(|level_entry| {
-                    level_entry
-                        .iter()
-                        .map(|level_entry| level_entry.1.summary.logical_time_range.1)
-                        .max()
-                })
-                .max()
-                .and_then(|max_opt| max_opt);
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             let old_levels = mem::replace(&mut curr_metadata.levels, next_metadata.levels);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.0) > logical_time_opt)
+                    .filter(|sstable| !self.snapshot_paths.contains(&sstable.path))
                     .map(|sstable| Arc::clone(sstable)),
             );
 
@@ -442,6 +435,11 @@ where
         T: 'static + Clone + DeserializeOwned + Hash + Send + Serialize + Sync,
         U: 'static + DeserializeOwned + Serialize + Send + Sync,
     {
+        self.snapshot_paths = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.path.clone())
+            .collect();
         let path = self.path.clone();
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index e16264a..4d6048b 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -176,6 +176,8 @@ pub struct SizeTieredStrategy<T, U> {
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+    // paths of the SSTables that the most recent compaction started from
+    snapshot_paths: HashSet<PathBuf>,
 }
 
 impl<T, U> SizeTieredStrategy<T, U> {
@@ -237,6 +239,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
                 bucket_high,
             ))),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_paths: HashSet::new(),
         };
 
         {
@@ -294,6 +297,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_paths: HashSet::new(),
         })
     }
 
@@ -327,6 +331,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
         T: 'static + Clone + DeserializeOwned + Hash + Ord + Send + Serialize + Sync,
         U: 'static + DeserializeOwned + Send + Serialize + Sync,
     {
+        self.snapshot_paths = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.path.clone())
+            .collect();
         let path = self.path.clone();
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
@@ -357,16 +366,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.1) > logical_time_opt)
+                    .filter(|sstable| !self.snapshot_paths.contains(&sstable.path))
                     .map(|sstable| Arc::clone(sstable)),
             );
 
-- 
2.43.0


From 4b3d7d5693d9cebd66d8fa3754e03ad67aa78df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:04 +0000
Subject: [PATCH 22/36] fix: remove stale SSTables only after the metadata
 stops referring to them

---
 src/lsm_tree/compaction/leveled.rs     | 48 +++++++++++---------------
 src/lsm_tree/compaction/size_tiered.rs | 47 +++++++++++--------------
 2 files changed, 40 insertions(+), 55 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 1505cb3..46dc698 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -250,7 +250,11 @@ where
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, LeveledMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -263,6 +267,11 @@ where
                     .map(|sstable| Arc::clone(sstable)),
             );
 
+            // the SSTables may only be removed once the metadata no longer refers to them
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             let path_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let level_path_iter = curr_metadata
                 .levels
@@ -280,11 +289,9 @@ where
                     fs::remove_dir_all(path)?;
                 }
             }
-
-            Ok(true)
-        } else {
-            Ok(false)
         }
+
+        Ok(())
     }
 
     fn compact<P>(
@@ -496,10 +503,7 @@ where
         // taking snapshot of current metadata
         let metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -518,10 +522,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -532,10 +533,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -566,10 +564,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstables_len_hint: usize = curr_metadata
             .sstables
@@ -613,6 +608,9 @@ where
         curr_metadata.levels.clear();
         *next_metadata = None;
 
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -620,9 +618,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -644,10 +639,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 4d6048b..1a97dfa 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -362,7 +362,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, SizeTieredMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -374,6 +378,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
                     .map(|sstable| Arc::clone(sstable)),
             );
 
+            // the SSTables may only be removed once the metadata no longer refers to them
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             let new_sstable_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let new_sstable_paths: HashSet<&PathBuf> = HashSet::from_iter(new_sstable_iter);
 
@@ -382,10 +391,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
                     fs::remove_dir_all(old_sstable.path.as_path())?;
                 }
             }
-            Ok(true)
-        } else {
-            Ok(false)
         }
+
+        Ok(())
     }
 }
 
@@ -426,10 +434,7 @@ where
         // taking snapshot of current metadata
         let mut metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -448,10 +453,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -462,10 +464,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -480,10 +479,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let len_hint = curr_metadata
             .sstables
@@ -515,6 +511,9 @@ where
         curr_metadata.sstables.clear();
         *next_metadata = None;
 
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -522,9 +521,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -546,10 +542,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
-- 
2.43.0


From 49c82531df2a1574e2d374dd2017b48602758fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:52 +0000
Subject: [PATCH 23/36] fix: remove the SSTable directories that no metadata
 ever refers to

---
 src/lsm_tree/compaction/leveled.rs     | 24 ++++++++++++++++++++++--
 src/lsm_tree/compaction/size_tiered.rs |  2 ++
 src/lsm_tree/sstable.rs                |  5 +++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 46dc698..a3db178 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -311,6 +311,13 @@ where
             metadata_snapshot.levels.push(BTreeMap::new());
         }
 
+        let snapshot_paths: HashSet<_> = metadata_snapshot
+            .levels
+            .iter()
+            .flat_map(|level| level.values().map(|sstable| sstable.path.clone()))
+            .collect();
+        let mut merged_paths = Vec::new();
+
         // compacting L0
         let mut entry_count_hint = 0;
         let sstable_data_iters: Vec<_> = metadata_snapshot
@@ -350,6 +357,8 @@ where
         if sstable_builder.key_range.is_some() {
             let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
             metadata_snapshot.insert_sstable(0, new_sstable);
+        } else {
+            sstable_builder.discard()?;
         }
 
         // compacting L1 and onwards
@@ -380,8 +389,6 @@ where
                         .expect("Expected SSTable to remove to exist.")
                 };
 
-                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
-
                 if index + 1 == metadata_snapshot.levels.len() {
                     metadata_snapshot.insert_sstable(index + 1, sstable);
                     continue;
@@ -398,6 +405,8 @@ where
                     });
 
                 metadata_snapshot.levels[index + 1] = new_level;
+                merged_paths.push(sstable.path.clone());
+                merged_paths.extend(old_level.values().map(|sstable| sstable.path.clone()));
 
                 let compaction_iter = LeveledIter::new(
                     None,
@@ -408,6 +417,8 @@ where
                         .collect()],
                 )?;
 
+                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
+
                 for entry in compaction_iter {
                     let (key, value) = entry?;
 
@@ -425,10 +436,19 @@ where
                 if sstable_builder.key_range.is_some() {
                     let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
                     metadata_snapshot.insert_sstable(index + 1, new_sstable);
+                } else {
+                    sstable_builder.discard()?;
                 }
             }
         }
 
+        // removing SSTables that were both created and merged by this compaction
+        for path in merged_paths {
+            if !snapshot_paths.contains(&path) {
+                fs::remove_dir_all(path)?;
+            }
+        }
+
         *next_metadata.lock().unwrap() = Some(metadata_snapshot);
 
         is_compacting.store(false, Ordering::Release);
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 1a97dfa..b52139a 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -145,6 +145,8 @@ impl<T, U> SizeTieredMetadata<T, U> {
 
         if sstable_builder.key_range.is_some() {
             self.push_sstable(Arc::new(SSTable::new(sstable_builder.flush()?)?));
+        } else {
+            sstable_builder.discard()?;
         }
 
         Ok(())
diff --git a/src/lsm_tree/sstable.rs b/src/lsm_tree/sstable.rs
index c33a9d3..d3e617c 100644
--- a/src/lsm_tree/sstable.rs
+++ b/src/lsm_tree/sstable.rs
@@ -185,6 +185,11 @@ impl<T, U> SSTableBuilder<T, U> {
         Ok(())
     }
 
+    /// Removes the files of a builder that had no entries appended to it.
+    pub(crate) fn discard(self) -> Result<()> {
+        fs::remove_dir_all(self.sstable_path.as_path()).map_err(Error::IOError)
+    }
+
     pub fn flush(&mut self) -> Result<PathBuf>
     where
         T: Clone + Serialize,
-- 
2.43.0


From 56f73725a93cac0257bf33e7c7e255fe024d453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:58 +0000
Subject: [PATCH 24/36] fix: keep the in-memory entries of an LsmMap when
 flushing them fails

---
 src/lsm_tree/map.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..59dba18 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -7,7 +7,6 @@ use std::borrow::Borrow;
 use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
-use std::mem;
 
 /// An ordered map implemented using a log structured merge-tree.
 ///
@@ -88,16 +87,23 @@ where
     }
 
     fn try_compact(&mut self) -> Result<()> {
-        self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
             self.in_memory_tree.len(),
         )?;
-        for entry in mem::replace(&mut self.in_memory_tree, BTreeMap::new()) {
-            sstable_builder.append(entry.0, entry.1)?;
+        for (key, value) in &self.in_memory_tree {
+            let value = SSTableValue {
+                data: value.data.clone(),
+                logical_time: value.logical_time,
+            };
+            sstable_builder.append(key.clone(), value)?;
         }
         let sstable = SSTable::new(sstable_builder.flush()?)?;
-        self.compaction_strategy.try_compact(sstable)
+        self.compaction_strategy.try_compact(sstable)?;
+        // the entries must stay in memory if any of the steps above failed
+        self.in_memory_tree.clear();
+        self.in_memory_usage = 0;
+        Ok(())
     }
 
     /// Inserts a key-value pair into the map. If the key-value pair causes the size of the
-- 
2.43.0


From dec9015d2e2889d773cf93ce0efcff7427779467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:04 +0000
Subject: [PATCH 25/36] fix: do not return removed keys from LsmMap::min and
 LsmMap::max

---
 src/lsm_tree/map.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 59dba18..6cc2f3f 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -86,6 +86,13 @@ where
         }
     }
 
+    // Returns `false` if a key on the disk was removed by the in-memory tree.
+    fn is_visible(&self, key: &T) -> bool {
+        self.in_memory_tree
+            .get(key)
+            .map_or(true, |value| value.data.is_some())
+    }
+
     fn try_compact(&mut self) -> Result<()> {
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
@@ -412,7 +419,15 @@ where
             .iter()
             .find(|entry| entry.1.data.is_some())
             .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
+        // the in-memory tree may hold tombstones for keys on the disk
+        let mut disk_min = None;
+        for entry in self.compaction_strategy.iter()? {
+            let key = entry?.0;
+            if self.is_visible(&key) {
+                disk_min = Some(key);
+                break;
+            }
+        }
 
         if in_memory_min.is_none() {
             Ok(disk_min)
@@ -446,13 +461,21 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
+        let mut disk_max = None;
+        for entry in self.compaction_strategy.iter()? {
+            let key = entry?.0;
+            if self.is_visible(&key) {
+                disk_max = Some(key);
+            }
+        }
+
         Ok(cmp::max(
             self.in_memory_tree
                 .iter()
                 .rev()
                 .find(|entry| entry.1.data.is_some())
                 .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
+            disk_max,
         ))
     }
 
-- 
2.43.0


From cacdc0628809d15805bd9b6600fedb4ce9197a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:54 +0000
Subject: [PATCH 26/36] fix: do not hold off compaction for iterators that
 failed to be created

---
 src/lsm_tree/compaction/leveled.rs     | 9 +++++----
 src/lsm_tree/compaction/size_tiered.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index a3db178..5fabd41 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -736,10 +736,6 @@ where
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
         mut level_data_iters: Vec<VecDeque<SSTableDataIter<T, U>>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -764,6 +760,11 @@ where
             }
         }
 
+        // no lock may be held on behalf of an iterator that failed to be created
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(LeveledIter {
             metadata_lock_count,
             sstable_data_iters,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index b52139a..137f101 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -583,10 +583,6 @@ where
         metadata_lock_count: Option<Rc<Cell<u64>>>,
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -596,6 +592,11 @@ where
             }
         }
 
+        // no lock may be held on behalf of an iterator that failed to be created
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(SizeTieredIter {
             metadata_lock_count,
             sstable_data_iters,
-- 
2.43.0


From 5c92f5a7fb4207361b91cc17c62a48442a1364be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:55 +0000
Subject: [PATCH 27/36] fix: report read errors from LsmMap::len instead of
 counting them

---
 src/lsm_tree/compaction/leveled.rs     | 3 ++-
 src/lsm_tree/compaction/size_tiered.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 5fabd41..ea0abab 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -607,7 +607,8 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        self.iter()?
+            .try_fold(0, |len, entry| entry.map(|_| len + 1))
     }
 
     fn is_empty(&mut self) -> Result<bool> {
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 137f101..dbae7cc 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -493,7 +493,8 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        self.iter()?
+            .try_fold(0, |len, entry| entry.map(|_| len + 1))
     }
 
     fn is_empty(&mut self) -> Result<bool> {
-- 
2.43.0


From 02508bdc92481f2437c7af7a8df93a90506a9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:58 +0000
Subject: [PATCH 28/36] fix: seed the node heights of each skiplist
 independently

All skiplists drew the same sequence of heights, so a map combined from many
small ones (or one that keeps growing after set operations) consisted of nodes
of equal heights and was searched linearly.
---
 src/skiplist/list.rs |  4 ++--
 src/skiplist/map.rs  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 7525096..e8aaeb8 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,5 @@
 use rand::Rng;
-use rand::XorShiftRng;
+use rand::{weak_rng, XorShiftRng};
 use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
@@ -119,7 +119,7 @@ impl<T> SkipList<T> {
     pub fn new() -> Self {
         SkipList {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: weak_rng(),
             len: 0,
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index b365433..70f8c4d 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,6 @@
 use crate::entry::Entry;
 use rand::Rng;
-use rand::XorShiftRng;
+use rand::{weak_rng, XorShiftRng};
 use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
@@ -113,7 +113,7 @@ impl<T, U> SkipMap<T, U> {
     pub fn new() -> Self {
         SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: weak_rng(),
             len: 0,
         }
     }
@@ -581,7 +581,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: weak_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
@@ -673,7 +673,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: weak_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
@@ -748,7 +748,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: weak_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
-- 
2.43.0


From fa5315c4aceaf327aa03ff4fcfa9c8ec4f80379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 29/36] fix: keep the metadata of an LSM tree intact when
 writing it fails

---
 src/lsm_tree/compaction/leveled.rs     | 48 ++++++++++++--------------
 src/lsm_tree/compaction/size_tiered.rs | 46 ++++++++++++------------
 src/lsm_tree/map.rs                    |  3 +-
 3 files changed, 47 insertions(+), 50 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ea0abab..d2350ca 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -13,7 +13,7 @@ use std::collections::{BTreeMap, BinaryHeap, HashSet, VecDeque};
 use std::fmt::{self, Debug};
 use std::fs;
 use std::hash::Hash;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Read, Seek, SeekFrom};
 use std::mem;
 use std::ops::Bound::{Included, Unbounded};
 use std::path::{Path, PathBuf};
@@ -116,7 +116,6 @@ where
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
-    metadata_file: fs::File,
     curr_metadata: Arc<Mutex<LeveledMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<LeveledMetadata<T, U>>>>,
     // paths of the SSTables that the most recent compaction started from
@@ -159,11 +158,6 @@ where
     {
         fs::create_dir(path.as_ref())?;
 
-        let metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(path.as_ref().join("metadata.dat"))?;
         let logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
@@ -176,7 +170,6 @@ where
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(LeveledMetadata::new(
                 max_in_memory_size,
                 max_sstable_count,
@@ -190,8 +183,7 @@ where
 
         {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
-            ret.metadata_file.seek(SeekFrom::Start(0))?;
-            ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.write_metadata(&curr_metadata)?;
             ret.logical_time_file.seek(SeekFrom::Start(0))?;
             ret.logical_time_file
                 .write_u64::<BigEndian>(ret.curr_logical_time)?;
@@ -222,10 +214,7 @@ where
         U: DeserializeOwned,
         P: AsRef<Path>,
     {
-        let mut metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .open(path.as_ref().join("metadata.dat"))?;
+        let mut metadata_file = fs::File::open(path.as_ref().join("metadata.dat"))?;
         let mut logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
@@ -240,13 +229,25 @@ where
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
             snapshot_paths: HashSet::new(),
         })
     }
 
+    // A failed write must neither damage the metadata of the last successful one nor leave the
+    // folder without metadata.
+    fn write_metadata(&self, metadata: &LeveledMetadata<T, U>) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
+        let temp_path = self.path.join("metadata.dat.tmp");
+        fs::write(&temp_path, serialize(metadata)?)?;
+        fs::rename(&temp_path, self.path.join("metadata.dat"))?;
+        Ok(())
+    }
+
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, LeveledMetadata<T, U>>,
@@ -268,9 +269,7 @@ where
             );
 
             // the SSTables may only be removed once the metadata no longer refers to them
-            let mut metadata_file = &self.metadata_file;
-            metadata_file.seek(SeekFrom::Start(0))?;
-            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+            self.write_metadata(curr_metadata)?;
 
             let path_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let level_path_iter = curr_metadata
@@ -512,8 +511,7 @@ where
         {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
             curr_metadata.push_sstable(Arc::new(sstable));
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            self.write_metadata(&curr_metadata)?;
         }
 
         if self.is_compacting.load(Ordering::Acquire) || self.metadata_lock_count.get() != 0 {
@@ -625,13 +623,13 @@ where
 
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         let mut next_metadata = self.next_metadata.lock().unwrap();
-        curr_metadata.sstables.clear();
-        curr_metadata.levels.clear();
+        let mut cleared_metadata = curr_metadata.clone();
+        cleared_metadata.sstables.clear();
+        cleared_metadata.levels.clear();
+        self.write_metadata(&cleared_metadata)?;
+        *curr_metadata = cleared_metadata;
         *next_metadata = None;
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index dbae7cc..e332d87 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -12,7 +12,7 @@ use std::cmp;
 use std::collections::{BinaryHeap, HashSet};
 use std::fs;
 use std::hash::Hash;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Read, Seek, SeekFrom};
 use std::iter::FromIterator;
 use std::marker::Send;
 use std::mem;
@@ -175,7 +175,6 @@ pub struct SizeTieredStrategy<T, U> {
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
-    metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
     // paths of the SSTables that the most recent compaction started from
@@ -215,11 +214,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
     {
         fs::create_dir(path.as_ref())?;
 
-        let metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(path.as_ref().join("metadata.dat"))?;
         let logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
@@ -232,7 +226,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(SizeTieredMetadata::new(
                 max_in_memory_size,
                 max_sstable_count,
@@ -246,8 +239,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
 
         {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
-            ret.metadata_file.seek(SeekFrom::Start(0))?;
-            ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.write_metadata(&curr_metadata)?;
             ret.logical_time_file.seek(SeekFrom::Start(0))?;
             ret.logical_time_file
                 .write_u64::<BigEndian>(ret.curr_logical_time)?;
@@ -278,10 +270,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
         U: DeserializeOwned,
         P: AsRef<Path>,
     {
-        let mut metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .open(path.as_ref().join("metadata.dat"))?;
+        let mut metadata_file = fs::File::open(path.as_ref().join("metadata.dat"))?;
         let mut logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
@@ -296,7 +285,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
             snapshot_paths: HashSet::new(),
@@ -361,6 +349,19 @@ impl<T, U> SizeTieredStrategy<T, U> {
         }));
     }
 
+    // A failed write must neither damage the metadata of the last successful one nor leave the
+    // folder without metadata.
+    fn write_metadata(&self, metadata: &SizeTieredMetadata<T, U>) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
+        let temp_path = self.path.join("metadata.dat.tmp");
+        fs::write(&temp_path, serialize(metadata)?)?;
+        fs::rename(&temp_path, self.path.join("metadata.dat"))?;
+        Ok(())
+    }
+
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, SizeTieredMetadata<T, U>>,
@@ -381,9 +382,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             );
 
             // the SSTables may only be removed once the metadata no longer refers to them
-            let mut metadata_file = &self.metadata_file;
-            metadata_file.seek(SeekFrom::Start(0))?;
-            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+            self.write_metadata(curr_metadata)?;
 
             let new_sstable_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let new_sstable_paths: HashSet<&PathBuf> = HashSet::from_iter(new_sstable_iter);
@@ -425,8 +424,7 @@ where
         {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
             curr_metadata.push_sstable(Arc::new(sstable));
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            self.write_metadata(&curr_metadata)?;
         }
 
         if self.is_compacting.load(Ordering::Acquire) || self.metadata_lock_count.get() != 0 {
@@ -511,12 +509,12 @@ where
 
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         let mut next_metadata = self.next_metadata.lock().unwrap();
-        curr_metadata.sstables.clear();
+        let mut cleared_metadata = curr_metadata.clone();
+        cleared_metadata.sstables.clear();
+        self.write_metadata(&cleared_metadata)?;
+        *curr_metadata = cleared_metadata;
         *next_metadata = None;
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 6cc2f3f..b0b9d14 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -387,8 +387,9 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn clear(&mut self) -> Result<()> {
+        self.compaction_strategy.clear()?;
         self.in_memory_tree.clear();
-        self.compaction_strategy.clear()
+        Ok(())
     }
 
     /// Returns the minimum key of the map. Returns `None` if the map is empty.
-- 
2.43.0


From beddc48570de7b0aa8f899c75ab7a17616223638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 30/36] fix: an update of a BpMap that cannot be written left
 its length, root or size wrong in memory

---
 src/bp_tree/map.rs   |  4 ++--
 src/bp_tree/pager.rs | 28 ++++++++++++++++++----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..d4de8e2 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -363,10 +363,10 @@ impl<T, U> BpMap<T, U> {
                     let new_len = self.pager.get_len() - 1;
                     self.pager.set_len(new_len)?;
                 } else if ret.is_some() {
-                    let new_len = self.pager.get_len() - 1;
-                    self.pager.set_len(new_len)?;
                     self.pager
                         .write_node(curr_page, &Node::Leaf(curr_leaf_node))?;
+                    let new_len = self.pager.get_len() - 1;
+                    self.pager.set_len(new_len)?;
                 }
             }
             _ => panic!("Expected a leaf node."),
diff --git a/src/bp_tree/pager.rs b/src/bp_tree/pager.rs
index e0f32ed..3143ea6 100644
--- a/src/bp_tree/pager.rs
+++ b/src/bp_tree/pager.rs
@@ -179,12 +179,12 @@ impl<T, U> Pager<T, U> {
     }
 
     pub fn set_len(&mut self, len: usize) -> Result<()> {
-        self.metadata.len = len;
-        self.db_file.seek(SeekFrom::Start(0))?;
-        let serialized_metadata = &serialize(&self.metadata)?;
-        self.db_file
-            .write_all(serialized_metadata)
-            .map_err(Error::IOError)
+        let old_len = mem::replace(&mut self.metadata.len, len);
+        let ret = self.write_metadata();
+        if ret.is_err() {
+            self.metadata.len = old_len;
+        }
+        ret
     }
 
     pub fn get_root_page(&self) -> usize {
@@ -192,7 +192,15 @@ impl<T, U> Pager<T, U> {
     }
 
     pub fn set_root_page(&mut self, new_root_page: usize) -> Result<()> {
-        self.metadata.root_page = new_root_page;
+        let old_root_page = mem::replace(&mut self.metadata.root_page, new_root_page);
+        let ret = self.write_metadata();
+        if ret.is_err() {
+            self.metadata.root_page = old_root_page;
+        }
+        ret
+    }
+
+    fn write_metadata(&mut self) -> Result<()> {
         self.db_file.seek(SeekFrom::Start(0))?;
         let serialized_metadata = &serialize(&self.metadata)?;
         self.db_file
@@ -219,14 +227,14 @@ impl<T, U> Pager<T, U> {
     {
         match self.metadata.free_page {
             None => {
-                self.metadata.pages += 1;
-                let len = self.calculate_page_offset(self.metadata.pages);
+                let len = self.calculate_page_offset(self.metadata.pages + 1);
                 let node_size = self.get_node_size();
                 self.db_file.set_len(len)?;
                 self.db_file.seek(SeekFrom::Start(len - node_size))?;
                 let serialized_node = &serialize(&new_node)?;
                 self.db_file.write_all(serialized_node)?;
 
+                self.metadata.pages += 1;
                 self.db_file.seek(SeekFrom::Start(0))?;
                 let serialized_metadata = &serialize(&self.metadata)?;
                 self.db_file.write_all(serialized_metadata)?;
@@ -296,11 +304,11 @@ impl<T, U> Pager<T, U> {
     {
         let header_size = Self::get_metadata_size();
         let body_size = self.get_node_size();
+        self.db_file.set_len(header_size + body_size)?;
         self.metadata.pages = 1;
         self.metadata.len = 0;
         self.metadata.root_page = 0;
         self.metadata.free_page = None;
-        self.db_file.set_len(header_size + body_size)?;
 
         self.db_file.seek(SeekFrom::Start(0))?;
         let serialized_metadata = &serialize(&self.metadata)?;
-- 
2.43.0


From fd204bd6c58cdc478ea3943519f2246d23442847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 31/36] fix: elements that panic or compare inconsistently made
 skiplists access freed nodes

---
 src/skiplist/list.rs |  2 +-
 src/skiplist/map.rs  | 97 ++++++++++++++++++++++++--------------------
 2 files changed, 53 insertions(+), 46 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index e8aaeb8..acf09fb 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -436,11 +436,11 @@ impl<T> SkipList<T> {
         self.len = 0;
         unsafe {
             let mut curr_node = (*self.head).get_pointer(0).next;
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 70f8c4d..e16d586 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -144,48 +144,59 @@ impl<T, U> SkipMap<T, U> {
     where
         T: Ord,
     {
-        self.len += 1;
         let new_height = self.gen_random_height();
-        let new_node = Node::new(key, value, new_height + 1);
         let mut curr_height = MAX_HEIGHT;
-        let mut curr_node = &mut self.head;
+        let mut curr_node = self.head;
+        let mut prev_nodes = [self.head; MAX_HEIGHT + 1];
         let mut ret = None;
 
         unsafe {
+            // all keys are compared before anything is changed
             loop {
-                let mut next_node = (**curr_node).get_pointer_mut(curr_height);
-                while !next_node.is_null() && (**next_node).entry.key < (*new_node).entry.key {
-                    let next_next_node = (**next_node).get_pointer_mut(curr_height);
+                let mut next_node = *(*curr_node).get_pointer(curr_height);
+                while !next_node.is_null() && (*next_node).entry.key < key {
+                    let next_next_node = *(*next_node).get_pointer(curr_height);
                     curr_node = mem::replace(&mut next_node, next_next_node);
                 }
-
-                if !next_node.is_null() && (**next_node).entry.key == (*new_node).entry.key {
-                    let temp = *next_node;
-                    let next_next_node = *(**next_node).get_pointer_mut(curr_height);
-                    *(**curr_node).get_pointer_mut(curr_height) = next_next_node;
-                    if curr_height == 0 {
-                        ret = Some((
-                            ptr::read(&(*temp).entry.key),
-                            ptr::read(&(*temp).entry.value),
-                        ));
-                        Node::deallocate(temp);
-                        self.len -= 1;
-                    }
-                }
-
-                if curr_height <= new_height {
-                    let next_node = &mut *(**curr_node).get_pointer_mut(curr_height);
-                    *(*new_node).get_pointer_mut(curr_height) = mem::replace(next_node, new_node);
-                }
+                prev_nodes[curr_height] = curr_node;
 
                 if curr_height == 0 {
+                    if !next_node.is_null() && (*next_node).entry.key == key {
+                        ret = Some(self.unlink(&prev_nodes, next_node));
+                    }
                     break;
                 }
 
                 curr_height -= 1;
             }
-            ret
+
+            self.len += 1;
+            let new_node = Node::new(key, value, new_height + 1);
+            for (i, prev_node) in prev_nodes.iter().enumerate().take(new_height + 1) {
+                let next_node = &mut *(**prev_node).get_pointer_mut(i);
+                *(*new_node).get_pointer_mut(i) = mem::replace(next_node, new_node);
+            }
         }
+        ret
+    }
+
+    // removes a node from all levels, given the nodes that precede it
+    unsafe fn unlink(
+        &mut self,
+        prev_nodes: &[*mut Node<T, U>; MAX_HEIGHT + 1],
+        node: *mut Node<T, U>,
+    ) -> (T, U) {
+        let links_len = (*node).links_len;
+        for (i, prev_node) in prev_nodes.iter().enumerate().take(links_len) {
+            assert!(*(**prev_node).get_pointer(i) == node, "Expected consistently ordered keys.");
+        }
+        for (i, prev_node) in prev_nodes.iter().enumerate().take(links_len) {
+            *(**prev_node).get_pointer_mut(i) = *(*node).get_pointer(i);
+        }
+        self.len -= 1;
+        let Entry { key, value } = ptr::read(&(*node).entry);
+        Node::deallocate(node);
+        (key, value)
     }
 
     /// Removes a key-value pair from the map. If the key exists in the map, it will return the
@@ -207,32 +218,24 @@ impl<T, U> SkipMap<T, U> {
         V: Ord + ?Sized,
     {
         let mut curr_height = MAX_HEIGHT;
-        let mut curr_node = &mut self.head;
+        let mut curr_node = self.head;
+        let mut prev_nodes = [self.head; MAX_HEIGHT + 1];
         let mut ret = None;
 
         unsafe {
+            // all keys are compared before anything is changed
             loop {
-                let mut next_node = (**curr_node).get_pointer_mut(curr_height);
-                while !next_node.is_null() && (**next_node).entry.key.borrow() < key {
-                    let next_next_node = (**next_node).get_pointer_mut(curr_height);
+                let mut next_node = *(*curr_node).get_pointer(curr_height);
+                while !next_node.is_null() && (*next_node).entry.key.borrow() < key {
+                    let next_next_node = *(*next_node).get_pointer(curr_height);
                     curr_node = mem::replace(&mut next_node, next_next_node);
                 }
-
-                if !next_node.is_null() && (**next_node).entry.key.borrow() == key {
-                    let temp = *next_node;
-                    let next_next_node = *(**next_node).get_pointer_mut(curr_height);
-                    *(**curr_node).get_pointer_mut(curr_height) = next_next_node;
-                    if curr_height == 0 {
-                        ret = Some((
-                            ptr::read(&(*temp).entry.key),
-                            ptr::read(&(*temp).entry.value),
-                        ));
-                        Node::deallocate(temp);
-                        self.len -= 1;
-                    }
-                }
+                prev_nodes[curr_height] = curr_node;
 
                 if curr_height == 0 {
+                    if !next_node.is_null() && (*next_node).entry.key.borrow() == key {
+                        ret = Some(self.unlink(&prev_nodes, next_node));
+                    }
                     break;
                 }
 
@@ -394,11 +397,11 @@ impl<T, U> SkipMap<T, U> {
         self.len = 0;
         unsafe {
             let mut curr_node = *(*self.head).get_pointer(0);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -940,6 +943,10 @@ impl<T, U> SkipMap<T, U> {
 
 impl<T, U> Drop for SkipMap<T, U> {
     fn drop(&mut self) {
+        // the head of an operand is null if a set operation was aborted by a panic at its end
+        if self.head.is_null() {
+            return;
+        }
         unsafe {
             let next_node = *(*self.head).get_pointer(0);
             Node::deallocate(mem::replace(&mut self.head, next_node));
-- 
2.43.0


From d26eb2e75927036a8bfbcbf3fd5809a078990e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 32/36] fix: end an LsmMap iterator whose SSTable cannot be
 read

---
 src/lsm_tree/compaction/leveled.rs     | 6 +++++-
 src/lsm_tree/compaction/size_tiered.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index d2350ca..d2a78ff 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -795,7 +795,11 @@ where
                     Ok(entry) => self
                         .entries
                         .push(cmp::Reverse((entry.key, entry.value, index))),
-                    Err(error) => return Some(Err(error)),
+                    Err(error) => {
+                        // the entry that was popped is lost, so older entries of its key must not be yielded
+                        self.entries.clear();
+                        return Some(Err(error));
+                    }
                 }
             }
 
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index e332d87..ae1edc7 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -619,7 +619,11 @@ where
                     Ok(entry) => self
                         .entries
                         .push(cmp::Reverse((entry.key, entry.value, index))),
-                    Err(error) => return Some(Err(error)),
+                    Err(error) => {
+                        // the entry that was popped is lost, so older entries of its key must not be yielded
+                        self.entries.clear();
+                        return Some(Err(error));
+                    }
                 }
             }
 
-- 
2.43.0


From f218ac6da02a6e1542d32e772a38b016b4a0c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 33/36] fix: reset the in-memory size of an LsmMap when it is
 cleared

---
 src/lsm_tree/map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index b0b9d14..fb66a01 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -389,6 +389,7 @@ where
     pub fn clear(&mut self) -> Result<()> {
         self.compaction_strategy.clear()?;
         self.in_memory_tree.clear();
+        self.in_memory_usage = 0;
         Ok(())
     }
 
-- 
2.43.0


From f0bdec4553639a8b90e7a1adff777e83cb44dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:24 +0000
Subject: [PATCH 34/36] fix: keep size-tiered compactions within one bucket

---
 src/lsm_tree/compaction/size_tiered.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index ae1edc7..93ddc34 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -70,15 +70,16 @@ impl<T, U> SizeTieredMetadata<T, U> {
             let in_bucket = curr_avg * self.bucket_low <= start_size as f64
                 && curr_size as f64 <= curr_avg * self.bucket_high;
 
-            curr += 1;
             if in_min_bucket || in_bucket {
                 range_size += curr_size;
             } else if curr - start > self.max_sstable_count {
                 return Some((start, curr));
             } else {
-                range_size = 0;
+                // the SSTable is the first one of the next bucket
+                range_size = curr_size;
                 start = curr;
             }
+            curr += 1;
         }
 
         if curr - start > self.max_sstable_count {
-- 
2.43.0


From 2f6aae798445e1deecd75eb9cf9aa2c256d2d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:14 +0000
Subject: [PATCH 35/36] fix: do not create a file when opening a BpMap that
 does not exist

---
 src/bp_tree/pager.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/bp_tree/pager.rs b/src/bp_tree/pager.rs
index 3143ea6..22e7b92 100644
--- a/src/bp_tree/pager.rs
+++ b/src/bp_tree/pager.rs
@@ -127,11 +127,7 @@ impl<T, U> Pager<T, U> {
     where
         P: AsRef<Path>,
     {
-        let mut db_file = OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(file_path)?;
+        let mut db_file = OpenOptions::new().read(true).write(true).open(file_path)?;
         db_file.seek(SeekFrom::Start(0))?;
 
         let mut buffer: Vec<u8> = vec![0; Self::get_metadata_size() as usize];
-- 
2.43.0


From f37718346ab94e784cc642c7c56fce661026f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 36/36] fix: do not recurse through the arbitrarily deep nodes
 of a radix tree

---
 src/radix/map.rs  |  20 ++-
 src/radix/node.rs |  19 +--
 src/radix/tree.rs | 332 ++++++++++++++++++++++++----------------------
 3 files changed, 196 insertions(+), 175 deletions(-)

diff --git a/src/radix/map.rs b/src/radix/map.rs
index ec033b2..7b00762 100644
--- a/src/radix/map.rs
+++ b/src/radix/map.rs
@@ -202,6 +202,7 @@ impl<T> RadixMap<T> {
     /// assert_eq!(map.is_empty(), true);
     /// ```
     pub fn clear(&mut self) {
+        tree::clear(&mut self.root);
         self.root = Some(Box::new(Node::new(Vec::new(), None)));
         self.len = 0;
     }
@@ -324,14 +325,20 @@ impl<T> RadixMap<T> {
     }
 }
 
+impl<T> Drop for RadixMap<T> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.root);
+    }
+}
+
 impl<T> IntoIterator for RadixMap<T> {
     type IntoIter = RadixMapIntoIter<T>;
     type Item = (Vec<u8>, T);
 
-    fn into_iter(self) -> Self::IntoIter {
+    fn into_iter(mut self) -> Self::IntoIter {
         Self::IntoIter {
             prefix: Vec::new(),
-            current: self.root,
+            current: self.root.take(),
             stack: Vec::new(),
         }
     }
@@ -370,6 +377,15 @@ pub struct RadixMapIntoIter<T> {
     stack: Vec<(tree::Tree<T>, usize)>,
 }
 
+impl<T> Drop for RadixMapIntoIter<T> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.current);
+        for (next_tree, _) in &mut self.stack {
+            tree::clear(next_tree);
+        }
+    }
+}
+
 impl<T> Iterator for RadixMapIntoIter<T> {
     type Item = (Vec<u8>, T);
 
diff --git a/src/radix/node.rs b/src/radix/node.rs
index 010ba65..bfc0a70 100644
--- a/src/radix/node.rs
+++ b/src/radix/node.rs
@@ -95,26 +95,19 @@ impl<T> Node<T> {
         self.next.take()
     }
 
-    pub fn push_all_children(&self, curr_key: Vec<u8>, keys: &mut Vec<Vec<u8>>) {
-        fn push_all_children_inner<T>(
-            tree: &Tree<T>,
-            mut curr_key: Vec<u8>,
-            keys: &mut Vec<Vec<u8>>,
-        ) {
+    pub fn push_all_children(&self, mut curr_key: Vec<u8>, keys: &mut Vec<Vec<u8>>) {
+        let mut stack = vec![(&self.child, curr_key.len())];
+        while let Some((tree, len)) = stack.pop() {
+            curr_key.truncate(len);
             if let Some(ref node) = tree {
-                let len = curr_key.len();
-
                 curr_key.extend(node.key.iter());
                 if node.value.is_some() {
                     keys.push(curr_key.clone());
                 }
-                push_all_children_inner(&node.child, curr_key.clone(), keys);
-
-                curr_key.split_off(len);
-                push_all_children_inner(&node.next, curr_key, keys);
+                stack.push((&node.next, len));
+                stack.push((&node.child, curr_key.len()));
             }
         }
-        push_all_children_inner(&self.child, curr_key, keys);
     }
 
     pub fn min(&self) -> &Tree<T> {
diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index ad459de..50f2b4b 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -4,56 +4,97 @@ use std::mem;
 
 pub type Tree<T> = Option<Box<Node<T>>>;
 
-pub fn insert<T>(tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
-    let node = match tree {
-        Some(ref mut node) => node,
-        None => {
-            *tree = Some(Box::new(Node::new(key.to_vec(), Some(value))));
-            return None;
-        }
-    };
-    let split_index = node
-        .key
-        .iter()
-        .zip(key.iter())
-        .position(|pair| pair.0 != pair.1);
-    match split_index {
-        Some(split_index) => {
-            node.split(split_index);
-            key = key.split_at(split_index).1;
-            let child = Node::new(key.to_vec(), Some(value));
-            node.insert_child(child);
-            None
-        }
-        None => match node.key.len().cmp(&key.len()) {
-            Ordering::Less => {
-                key = key.split_at(node.key.len()).1;
-                let byte = key[0];
-                if node.contains(byte) {
-                    insert(node.get_mut(byte), key, value)
-                } else {
-                    node.insert_child(Node::new(key.to_vec(), Some(value)));
-                    None
-                }
+pub fn insert<T>(mut tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
+    loop {
+        let node = match { tree } {
+            Some(ref mut node) => node,
+            tree => {
+                *tree = Some(Box::new(Node::new(key.to_vec(), Some(value))));
+                return None;
             }
-            Ordering::Greater => {
-                node.split(key.len());
-                node.value = Some(value);
-                None
+        };
+        let split_index = node
+            .key
+            .iter()
+            .zip(key.iter())
+            .position(|pair| pair.0 != pair.1);
+        match split_index {
+            Some(split_index) => {
+                node.split(split_index);
+                key = key.split_at(split_index).1;
+                let child = Node::new(key.to_vec(), Some(value));
+                node.insert_child(child);
+                return None;
             }
-            Ordering::Equal => mem::replace(&mut node.value, Some(value)).map(|value| value),
-        },
+            None => match node.key.len().cmp(&key.len()) {
+                Ordering::Less => {
+                    key = key.split_at(node.key.len()).1;
+                    let byte = key[0];
+                    if node.contains(byte) {
+                        tree = node.get_mut(byte);
+                    } else {
+                        node.insert_child(Node::new(key.to_vec(), Some(value)));
+                        return None;
+                    }
+                }
+                Ordering::Greater => {
+                    node.split(key.len());
+                    node.value = Some(value);
+                    return None;
+                }
+                Ordering::Equal => return mem::replace(&mut node.value, Some(value)),
+            },
+        }
     }
 }
 
-pub fn remove<T>(tree: &mut Tree<T>, key: &[u8], mut index: usize) -> Option<(Vec<u8>, T)> {
+// Removes the value of the first node of the tree, and the node if nothing else needs it.
+fn remove_value<T>(tree: &mut Tree<T>, key: &[u8]) -> Option<(Vec<u8>, T)> {
     let mut next_tree = None;
-    let ret;
-    {
+    let mut ret = None;
+    if let Some(ref mut node) = tree {
+        ret = node.value.take().map(|value| (key.to_vec(), value));
+        node.merge();
+        if node.value.is_none() && node.is_leaf() {
+            next_tree = Some(node.get_replacement_tree());
+        }
+    }
+    if let Some(next_tree) = next_tree {
+        *tree = next_tree;
+    }
+    ret
+}
+
+pub fn remove<T>(mut tree: &mut Tree<T>, key: &[u8], mut index: usize) -> Option<(Vec<u8>, T)> {
+    match tree {
+        Some(ref node) if node.key == &key[index..] => return remove_value(tree, key),
+        _ => (),
+    }
+    // Only the parent of the node whose value is removed can have to merge with a child.
+    loop {
         let node = match tree {
-            Some(ref mut node) => node,
-            None => return None,
+            Some(ref mut node) if key[index..].starts_with(&node.key) => node,
+            _ => return None,
         };
+        index += node.key.len();
+        if index == key.len() {
+            return None;
+        }
+        let child = node.get_mut(key[index]);
+        match child {
+            Some(ref child_node) if child_node.key == &key[index..] => {
+                let ret = remove_value(child, key);
+                node.merge();
+                return ret;
+            }
+            _ => (),
+        }
+        tree = node.get_mut(key[index]);
+    }
+}
+
+pub fn get<'a, T>(mut tree: &'a Tree<T>, key: &[u8], mut index: usize) -> Option<&'a T> {
+    while let Some(ref node) = tree {
         let split_index = node
             .key
             .iter()
@@ -64,154 +105,125 @@ pub fn remove<T>(tree: &mut Tree<T>, key: &[u8], mut index: usize) -> Option<(Ve
             None => match node.key.len().cmp(&(key.len() - index)) {
                 Ordering::Less => {
                     index += node.key.len();
-                    let byte = key[index];
-                    ret = remove(node.get_mut(byte), key, index);
-                    node.merge();
-                    if node.value.is_none() && node.is_leaf() {
-                        next_tree = Some(node.get_replacement_tree());
-                    }
+                    tree = node.get(key[index]);
                 }
                 Ordering::Greater => return None,
-                Ordering::Equal => {
-                    ret = node.value.take().map(|value| (key.to_vec(), value));
-                    node.merge();
-                    if node.value.is_none() && node.is_leaf() {
-                        next_tree = Some(node.get_replacement_tree());
-                    }
-                }
+                Ordering::Equal => return node.value.as_ref(),
             },
         }
     }
-    if let Some(next_tree) = next_tree {
-        *tree = next_tree;
-    }
-    ret
-}
-
-pub fn get<'a, T>(tree: &'a Tree<T>, key: &[u8], mut index: usize) -> Option<&'a T> {
-    let node = match tree {
-        Some(ref node) => node,
-        None => return None,
-    };
-    let split_index = node
-        .key
-        .iter()
-        .zip(key[index..].iter())
-        .position(|pair| pair.0 != pair.1);
-    match split_index {
-        Some(_) => None,
-        None => match node.key.len().cmp(&(key.len() - index)) {
-            Ordering::Less => {
-                index += node.key.len();
-                get(node.get(key[index]), key, index)
-            }
-            Ordering::Greater => None,
-            Ordering::Equal => node.value.as_ref(),
-        },
-    }
+    None
 }
 
-pub fn get_mut<'a, T>(tree: &'a mut Tree<T>, key: &[u8], mut index: usize) -> Option<&'a mut T> {
-    let node = match tree {
-        Some(ref mut node) => node,
-        None => return None,
-    };
-    let split_index = node
-        .key
-        .iter()
-        .zip(key[index..].iter())
-        .position(|pair| pair.0 != pair.1);
-    match split_index {
-        Some(_) => None,
-        None => match node.key.len().cmp(&(key.len() - index)) {
-            Ordering::Less => {
-                index += node.key.len();
-                get_mut(node.get_mut(key[index]), key, index)
-            }
-            Ordering::Greater => None,
-            Ordering::Equal => node.value.as_mut(),
-        },
+pub fn get_mut<'a, T>(
+    mut tree: &'a mut Tree<T>,
+    key: &[u8],
+    mut index: usize,
+) -> Option<&'a mut T> {
+    while let Some(ref mut node) = tree {
+        let split_index = node
+            .key
+            .iter()
+            .zip(key[index..].iter())
+            .position(|pair| pair.0 != pair.1);
+        match split_index {
+            Some(_) => return None,
+            None => match node.key.len().cmp(&(key.len() - index)) {
+                Ordering::Less => {
+                    index += node.key.len();
+                    tree = node.get_mut(key[index]);
+                }
+                Ordering::Greater => return None,
+                Ordering::Equal => return node.value.as_mut(),
+            },
+        }
     }
+    None
 }
 
 pub fn get_longest_prefix<T>(
-    tree: &Tree<T>,
+    mut tree: &Tree<T>,
     key: &[u8],
     mut index: usize,
     mut curr_key: Vec<u8>,
     keys: &mut Vec<Vec<u8>>,
 ) {
-    let node = match tree {
-        Some(ref node) => node,
-        None => return,
-    };
-    curr_key.extend(node.key.iter());
-    let split_index = node
-        .key
-        .iter()
-        .zip(key[index..].iter())
-        .position(|pair| pair.0 != pair.1);
-    match split_index {
-        Some(split_index) => {
-            if index + split_index > 0 {
-                if node.value.is_some() {
-                    keys.push(curr_key.clone());
+    while let Some(ref node) = tree {
+        curr_key.extend(node.key.iter());
+        let split_index = node
+            .key
+            .iter()
+            .zip(key[index..].iter())
+            .position(|pair| pair.0 != pair.1);
+        match split_index {
+            Some(split_index) => {
+                if index + split_index > 0 {
+                    if node.value.is_some() {
+                        keys.push(curr_key.clone());
+                    }
+                    node.push_all_children(curr_key, keys);
                 }
-                node.push_all_children(curr_key, keys);
+                return;
             }
-        }
-        None => match node.key.len().cmp(&(key.len() - index)) {
-            Ordering::Less => {
-                index += node.key.len();
-                let next_child = node.get(key[index]);
-                match next_child {
-                    Some(_) => get_longest_prefix(next_child, key, index, curr_key, keys),
-                    None => {
-                        if node.value.is_some() {
-                            keys.push(curr_key.clone());
-                        }
-                        if index > 0 {
-                            node.push_all_children(curr_key, keys);
+            None => match node.key.len().cmp(&(key.len() - index)) {
+                Ordering::Less => {
+                    index += node.key.len();
+                    let next_child = node.get(key[index]);
+                    match next_child {
+                        Some(_) => tree = next_child,
+                        None => {
+                            if node.value.is_some() {
+                                keys.push(curr_key.clone());
+                            }
+                            if index > 0 {
+                                node.push_all_children(curr_key, keys);
+                            }
+                            return;
                         }
                     }
                 }
-            }
-            _ => {
-                if node.value.is_some() {
-                    keys.push(curr_key.clone());
+                _ => {
+                    if node.value.is_some() {
+                        keys.push(curr_key.clone());
+                    }
+                    node.push_all_children(curr_key, keys);
+                    return;
                 }
-                node.push_all_children(curr_key, keys);
-            }
-        },
+            },
+        }
     }
 }
 
-pub fn min<T>(tree: &Tree<T>, mut curr_key: Vec<u8>) -> Option<Vec<u8>> {
-    let node = match tree {
-        Some(ref node) => node,
-        None => return None,
-    };
+pub fn min<T>(mut tree: &Tree<T>, mut curr_key: Vec<u8>) -> Option<Vec<u8>> {
+    while let Some(ref node) = tree {
+        curr_key.extend_from_slice(node.key.as_slice());
 
-    curr_key.extend_from_slice(node.key.as_slice());
-
-    if node.value.is_some() {
-        Some(curr_key)
-    } else {
-        min(node.min(), curr_key)
+        if node.value.is_some() {
+            return Some(curr_key);
+        }
+        tree = node.min();
     }
+    None
 }
 
-pub fn max<T>(tree: &Tree<T>, mut curr_key: Vec<u8>) -> Option<Vec<u8>> {
-    let node = match tree {
-        Some(ref node) => node,
-        None => return None,
-    };
+pub fn max<T>(mut tree: &Tree<T>, mut curr_key: Vec<u8>) -> Option<Vec<u8>> {
+    while let Some(ref node) = tree {
+        curr_key.extend_from_slice(node.key.as_slice());
 
-    curr_key.extend_from_slice(node.key.as_slice());
+        if node.value.is_some() && node.is_leaf() {
+            return Some(curr_key);
+        }
+        tree = node.max();
+    }
+    None
+}
 
-    if node.value.is_some() && node.is_leaf() {
-        Some(curr_key)
-    } else {
-        max(node.max(), curr_key)
+// Drops every node of the tree without recursing, as a radix tree can be as deep as its longest key.
+pub fn clear<T>(tree: &mut Tree<T>) {
+    let mut stack = Vec::new();
+    stack.extend(tree.take());
+    while let Some(mut node) = stack.pop() {
+        stack.extend(node.next.take());
+        stack.extend(node.child.take());
     }
 }
-- 
2.43.0

