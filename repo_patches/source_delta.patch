From e4f98c2ac5b3e216af3e01c5aac52c4224bfb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 01/18] fix: CycleMap::drain leaves right items behind when
 dropped early

Dropping the iterator before it was exhausted emptied the left set only; the
remaining right items stayed in the map without a partner, so inserting or
removing one of them panicked.
---
 src/cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 9d1ca7f..80c5a4b 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1349,6 +1349,14 @@ where
 {
 }
 
+impl<L, R> Drop for DrainIter<'_, L, R> {
+    fn drop(&mut self) {
+        // The left items that weren't yielded are dropped by `left_iter`. Their right items have
+        // to be dropped with them, or they would be left in the map without a partner.
+        self.right_ref.clear();
+    }
+}
+
 /// A draining iterator over entries of a `CycleMap` which satisfy the predicate `f`.
 #[allow(missing_debug_implementations)]
 pub struct DrainFilterIter<'a, L, R, F>
-- 
2.43.0


From b7aa89add27a82ecf53363d114ba2f19d67ac864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 02/18] fix: CycleMap::swap_left/swap_right lose a pair when
 the old item is absent

The pair containing the new item was removed (and dropped) before the old item
was looked up, so a failed swap silently deleted an unrelated pair.
---
 src/cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 80c5a4b..50be7e5 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -348,6 +348,10 @@ where
     /// assert!(map.are_paired(&0, &"84".to_string()));
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, (L, R)> {
+        // Nothing is done if the old item isn't in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -498,6 +502,10 @@ where
     /// assert!(map.are_paired(&84, &"0".to_string()));
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, (L, R)> {
+        // Nothing is done if the old item isn't in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From 6b8756d40b8e7c169de73936e76d3e0fd293015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 03/18] fix: CycleMap::swap_right_or_insert panics when the
 left item is in the map

Inserting (to_insert, new) displaces to_insert's old pair if it has one; that
case was marked unreachable. Report it the way swap_left_or_insert does.
---
 src/cycle_map.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 50be7e5..f7d25bb 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -615,14 +615,9 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
-            match self.insert(to_insert, new) {
-                InsertOptional::Neither => Neither,
-                InsertOptional::SomeRight(pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
-            }
+            // As in `swap_left_or_insert`, the pairs displaced by the insertion are reported: the
+            // right item that `to_insert` was paired with and the pair that contained `new`.
+            self.insert(to_insert, new).map_left(|(_, r)| r)
         }
     }
 
-- 
2.43.0


From 7eb47e4395a84500ad792d050863f2515d6cf8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 04/18] fix: deserializing a CycleMap trusts the length claimed
 by the input

A sequence that claims a huge length made Deserialize panic with a capacity
overflow (or exhaust memory) before any element was read.
---
 src/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 62af85a..09f77da 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -43,8 +43,10 @@ where
     where
         M: SeqAccess<'de>,
     {
+        // The hint comes from the input, so it can't be trusted with an arbitrary allocation
+        let capacity = access.size_hint().unwrap_or(0).min(4096);
         let mut map: CycleMap<L, R, S> =
-            CycleMap::with_capacity_and_hasher(access.size_hint().unwrap_or(0), Default::default());
+            CycleMap::with_capacity_and_hasher(capacity, Default::default());
 
         while let Some(entry) = access.next_element::<(L, R)>()? {
             map.insert(entry.0, entry.1);
-- 
2.43.0


From 9ca4257dc973e7d36733ddeca96bd53f8119c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 05/18] fix: PartialCycleMap::unpair breaks up other pairs when
 hashes collide

Only the hashes were compared, so two items whose partners have the same hashes
were treated as a pair: both lost their pairing while their real partners
remained paired to them.
---
 src/partial_cycle_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 229d56a..c4a5552 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -555,7 +555,7 @@ where
         match (opt_left, opt_right) {
             (Some(left), Some(right)) => match (left.hash, right.hash) {
                 (Some(l_h), Some(r_h)) => {
-                    if l_hash == r_h && r_hash == l_h {
+                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                         left.hash = None;
                         right.hash = None;
                         right.id = self.counter;
-- 
2.43.0


From 8b8f643026ad7f0793a0134b9c490c190b4b7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 06/18] fix: PartialCycleMap::swap_left/swap_right lose items
 when the old item is absent

The new item's old cycle was removed (and dropped) before the old item was
looked up, so a failed swap silently deleted unrelated items.
---
 src/partial_cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index c4a5552..8dc3616 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -840,6 +840,10 @@ where
     /// assert_eq!(map.swap_left(&4, 5), Neither);
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, OptionalPair<L, R>> {
+        // Nothing is done if the old item isn't in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -995,6 +999,10 @@ where
     /// assert_eq!(map.swap_right(&"4", "5"), Neither);
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, OptionalPair<L, R>> {
+        // Nothing is done if the old item isn't in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From 71511768792727f9ccd0b8e2531b554d56b09cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 07/18] fix: PartialCycleMap::swap_{left,right}_or_insert panic
 when the new item is in the map

With the old item absent, the insertion can displace a cycle containing the new
item; that case was marked unreachable. Report the displaced item instead.
---
 src/partial_cycle_map.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 8dc3616..98cfded 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -951,14 +951,11 @@ where
         if self.left_set.get(old_l_hash, equivalent_key(old)).is_some() {
             self.swap_left(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
-            match self.insert(new, to_insert) {
-                (Neither, Neither) => Neither,
-                (Neither, pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
-            }
+            // `new` and `to_insert` can each displace an item that is already in the map
+            let (from_left, from_right) = self.insert(new, to_insert);
+            let (left, _): (Option<L>, Option<R>) = from_left.into();
+            let pair = Some(from_right).filter(OptionalPair::is_some);
+            OptionalPair::from((left, pair))
         }
     }
 
@@ -1115,14 +1112,11 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
-            match self.insert(to_insert, new) {
-                (Neither, Neither) => Neither,
-                (pair, Neither) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
-            }
+            // `to_insert` and `new` can each displace an item that is already in the map
+            let (from_left, from_right) = self.insert(to_insert, new);
+            let (_, right): (Option<L>, Option<R>) = from_right.into();
+            let pair = Some(from_left).filter(OptionalPair::is_some);
+            OptionalPair::from((right, pair))
         }
     }
 
-- 
2.43.0


From 86bf967bcd382944c513e7d1ac6e0f232bb7444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 08/18] fix: PartialCycleMap::drain yields only one unpaired
 right item

Every step past the left items started (and dropped) a new drain of the right
set, so all unpaired right items but one were dropped without being yielded.
The length reported by the iterator ignored unpaired right items as well.
---
 src/partial_cycle_map.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 98cfded..43f0b86 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1366,8 +1366,12 @@ where
     /// assert_eq!(map.capacity_left(), cap);
     /// ```
     pub fn drain(&mut self) -> DrainIter<'_, L, R> {
+        let unpaired_rights =
+            unsafe { self.right_set.iter() }.filter(|r| unsafe { r.as_ref() }.hash.is_none());
         DrainIter {
+            unpaired_rights: unpaired_rights.count(),
             left_iter: self.left_set.drain(),
+            right_iter: None,
             right_ref: &mut self.right_set,
         }
     }
@@ -2276,7 +2280,10 @@ where
     R: Eq + Hash,
 {
     left_iter: RawDrain<'a, MappingPair<L>>,
+    // Created once all paired right items have been removed
+    right_iter: Option<RawIter<MappingPair<R>>>,
     right_ref: &'a mut RawTable<MappingPair<R>>,
+    unpaired_rights: usize,
 }
 
 impl<'a, L, R> Drop for DrainIter<'a, L, R>
@@ -2290,6 +2297,8 @@ where
             drop(item);
             mem::forget(guard);
         }
+        // All items have been removed, this just resets the table's capacity
+        self.right_ref.clear();
     }
 }
 
@@ -2322,16 +2331,21 @@ where
                 }
                 None => Some(SomeLeft(left.extract())),
             },
-            None => self
-                .right_ref
-                .drain()
-                .next()
-                .map(|right| SomeRight(right.extract())),
+            None => {
+                let right_ref = &mut *self.right_ref;
+                let right_iter = self
+                    .right_iter
+                    .get_or_insert_with(|| unsafe { right_ref.iter() });
+                let right = right_iter.next()?;
+                self.unpaired_rights -= 1;
+                Some(SomeRight(unsafe { right_ref.remove(right).extract() }))
+            }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.left_iter.len() + self.unpaired_rights;
+        (len, Some(len))
     }
 }
 
@@ -2341,7 +2355,7 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
-        self.left_iter.len()
+        self.left_iter.len() + self.unpaired_rights
     }
 }
 
-- 
2.43.0


From 77d453e70b3e44df6448d8c2c9ac3baf9bf0e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 09/18] fix: PartialCycleMap::drain_filter tears paired right
 items out of their pair

Pairs that were kept had their right item visited a second time as if it were
unpaired; removing it left its left item paired with nothing. The upper bound
of the iterator's size hint ignored the right items.
---
 src/partial_cycle_map.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 43f0b86..3a879de 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2405,7 +2405,12 @@ where
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, self.inner.left_iter.size_hint().1)
+        let rights = if self.inner.reset_right_iter {
+            self.inner.right_ref.len()
+        } else {
+            self.inner.right_iter.len()
+        };
+        (0, Some(self.inner.left_iter.len() + rights))
     }
 }
 
@@ -2453,6 +2458,10 @@ impl<L: Eq, R: Eq> DrainFilterInner<'_, L, R> {
         }
         for right in self.right_iter.by_ref() {
             let r_pairing = unsafe { right.as_ref() };
+            // Paired items have been visited with their left item
+            if r_pairing.hash.is_some() {
+                continue;
+            }
             if f(SomeRight(&r_pairing.value)) {
                 let r = unsafe { self.right_ref.remove(right).extract() };
                 return Some(SomeRight(r));
-- 
2.43.0


From b1f14e08f1315af625d283fd8a02df649e297987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 10/18] fix: PartialCycleMap equality accepts maps with
 different unpaired items

An unpaired item didn't have to be in the other map at all to be considered
equal, and unpaired right items weren't compared.
---
 src/partial_cycle_map.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 3a879de..377dd11 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1753,14 +1753,14 @@ where
         if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
             return false;
         }
-        self.iter().all(|op| match op {
-            SomeLeft(l) => other.get_right(l).is_none(),
-            SomeRight(r) => other.get_left(r).is_none(),
-            SomeBoth(l, r) => other.are_paired(l, r),
-            _ => {
-                unreachable!("There has to be at least one item.")
-            }
-        })
+        self.iter_paired().all(|(l, r)| other.are_paired(l, r))
+            && self.iter_unpaired().all(|op| match op {
+                SomeLeft(l) => other.contains_left(l) && !other.is_left_paired(l),
+                SomeRight(r) => other.contains_right(r) && !other.is_right_paired(r),
+                _ => {
+                    unreachable!("Only unpaired items are visited.")
+                }
+            })
     }
 }
 
-- 
2.43.0


From 7ae8512193a85a89195863d87977d1eb518a33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 11/18] fix: PartialCycleMap::iter skips unpaired right items

The documentation promises them, and collecting the items of a map into a new
map (or formatting it) silently lost them. The items visited by retain, which
is tested to leave unpaired right items alone, are unchanged.
---
 src/partial_cycle_map.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 377dd11..e5cbff2 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1250,6 +1250,7 @@ where
     pub fn iter(&self) -> Iter<'_, L, R, S> {
         Iter {
             left_iter: unsafe { self.left_set.iter() },
+            right_iter: unsafe { self.right_set.iter() },
             map_ref: self,
         }
     }
@@ -1443,7 +1444,8 @@ where
     {
         let mut to_drop: Vec<(Option<u64>, Option<u64>, u64)> =
             Vec::with_capacity(self.left_set.len());
-        for op in self.iter() {
+        // Unpaired right items aren't visited
+        for op in self.iter().filter(|op| op.get_left().is_some()) {
             if f(&op) {
                 let (left, right): (Option<&L>, Option<&R>) = op.into();
                 let l_hash = left.map(|l| make_hash::<L, S>(&self.hash_builder, l));
@@ -1994,6 +1996,7 @@ where
 /// An iterator over the entry items of a `PartialCycleMap`.
 pub struct Iter<'a, L, R, S> {
     left_iter: RawIter<MappingPair<L>>,
+    right_iter: RawIter<MappingPair<R>>,
     map_ref: &'a PartialCycleMap<L, R, S>,
 }
 
@@ -2001,6 +2004,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             left_iter: self.left_iter.clone(),
+            right_iter: self.right_iter.clone(),
             map_ref: self.map_ref,
         }
     }
@@ -2032,12 +2036,19 @@ where
                 let right = self.map_ref.get_right(left);
                 Some(OptionalPair::from((Some(left), right)))
             },
-            None => None,
+            // Paired right items have been visited with their left item
+            None => self
+                .right_iter
+                .by_ref()
+                .map(|r| unsafe { r.as_ref() })
+                .find(|r| r.hash.is_none())
+                .map(|r| SomeRight(&r.value)),
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 4227847986ce8461f4c0fc3f8894513efee40549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 12/18] fix: wrong size hints of PartialCycleMap's paired and
 unpaired iterators

Both claimed to yield exactly as many items as the left set holds; they are
ExactSizeIterators, so their hints have to agree with their length.
---
 src/partial_cycle_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index e5cbff2..bf6f3f3 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2125,7 +2125,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2205,7 +2206,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From a4c7f83f845765566553e9fb8fa8a631b3dc6404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 13/18] fix: GroupMap::swap_right/swap_right_remove corrupt the
 map

The moved left items kept the id of their old right item, so lookups from the
left found nothing and the iterators panicked. Also, an item equal to the new
right item ended up in the map twice; it is replaced like insert_right does.
---
 src/group_map.rs | 66 +++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c33b224..0bd38e2 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -5,6 +5,7 @@ use std::{
     hash::{BuildHasher, Hash},
     iter::FusedIterator,
     marker::PhantomData,
+    mem,
     ops::AddAssign,
 };
 
@@ -476,22 +477,12 @@ where
                 self.insert_right(new);
             }
             Some(r) => {
-                let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
-                let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
-                let item = RightItem {
-                    value: new,
-                    pairs: set.clone(),
-                    id: self.right_counter,
-                };
-                self.right_set
-                    .insert(new_hash, item, make_hasher(&self.hash_builder));
-                self.right_counter += 1;
-                for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                // Equal items can't both be in the map
+                if new == *old {
+                    return;
                 }
+                let pairs = mem::take(&mut r.pairs);
+                self.insert_right_with_pairs(new, pairs);
             }
         }
     }
@@ -522,28 +513,39 @@ where
                 self.insert_right(new);
                 None
             }
-            Some(mut r) => {
-                let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
-                let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
-                let item = RightItem {
-                    value: new,
-                    pairs: set.clone(),
-                    id: self.right_counter,
-                };
-                self.right_set
-                    .insert(new_hash, item, make_hasher(&self.hash_builder));
-                self.right_counter += 1;
-                for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
-                }
+            Some(r) => {
+                self.insert_right_with_pairs(new, r.pairs);
                 Some(r.value)
             }
         }
     }
 
+    /// Inserts the given right item and pairs the given left items with it. Should the item be
+    /// equal to another right item, the old item and everything it is paired with are removed.
+    fn insert_right_with_pairs(&mut self, right: R, pairs: HashSet<(u64, ID)>) {
+        self.remove_right(&right);
+        let r_hash = make_hash::<R, S>(&self.hash_builder, &right);
+        for (hash, id) in pairs.iter() {
+            let left_item = self
+                .left_set
+                .get_mut(*hash, left_with_left_id(*id))
+                .unwrap();
+            left_item.hash = r_hash;
+            left_item.r_id = self.right_counter;
+        }
+        let right_item = RightItem {
+            value: right,
+            pairs,
+            id: self.right_counter,
+        };
+        self.right_counter += 1;
+        self.right_set.insert(
+            r_hash,
+            right_item,
+            make_hasher::<RightItem<R>, S>(&self.hash_builder),
+        );
+    }
+
     /// Pairs two existing items in the map. Returns `true` if they were successfully paired.
     /// Returns `false` if either item can not be found.
     ///
-- 
2.43.0


From f8297390149544fdf8b36c9754db99a940c58e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 14/18] fix: GroupMap::retain_paired leaves removed items in
 their right item's group

Iterating over the group or removing the right item panicked afterwards.
---
 src/group_map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 0bd38e2..79f7ce0 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -985,7 +985,13 @@ where
             }
         }
         for (l_hash, id) in to_drop {
-            self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            if let Some(left_item) = self.left_set.remove_entry(l_hash, left_with_left_id(id)) {
+                self.right_set
+                    .get_mut(left_item.hash, right_with_right_id(left_item.r_id))
+                    .unwrap()
+                    .pairs
+                    .remove(&(l_hash, id));
+            }
         }
     }
 
-- 
2.43.0


From 699efb1b8ed785b69848f1b9316b544e9659829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 15/18] fix: GroupMap equality accepts maps with different
 items

Maps were compared as equal if just one of the sides had the same size, and an
unpaired right item didn't have to be in the other map at all.
---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 79f7ce0..dc00f2f 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1073,12 +1073,12 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_left() != other.len_left() || self.len_right() != other.len_right() {
             return false;
         }
         self.iter().all(|(l_opt, r)| match l_opt {
             Some(l) => other.are_paired(l, r),
-            None => !other.is_right_paired(r),
+            None => other.contains_right(r) && !other.is_right_paired(r),
         })
     }
 }
-- 
2.43.0


From f725a9e5e74006b122991655f52a12f6566433dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 16/18] fix: GroupMap iterators report wrong lengths

Cloning an iterator dropped the rest of the group it was in, which made its
length wrong too, and the size hints counted right items instead of the items
left to yield.
---
 src/group_map.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index dc00f2f..590d599 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1322,7 +1322,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             right_iter: self.right_iter.clone(),
-            left_iter: None,
+            left_iter: self.left_iter.clone(),
             map_ref: self.map_ref,
         }
     }
@@ -1385,7 +1385,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -1525,7 +1526,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 08a24d3af5923ce312e11d10b98de7e075d75eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 17/18] verif: read-only hooks for verification harnesses
 (cfg(cycle_map_verif))

---
 src/cycle_map.rs         | 25 +++++++++++++++++++++++++
 src/group_map.rs         | 35 +++++++++++++++++++++++++++++++++++
 src/lib.rs               |  2 ++
 src/partial_cycle_map.rs | 25 +++++++++++++++++++++++++
 4 files changed, 87 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index f7d25bb..15923ac 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1487,3 +1487,28 @@ impl<T: fmt::Debug> fmt::Debug for MappingPair<T> {
         )
     }
 }
+
+/// Read access to the internal entries, in verification builds only
+#[cfg(cycle_map_verif)]
+impl<L, R, S> CycleMap<L, R, S> {
+    /// Visits the value, partner hash and id of every left entry
+    pub fn verif_left(&self, mut f: impl FnMut(&L, Option<u64>, u64)) {
+        for entry in unsafe { self.left_set.iter() } {
+            let entry = unsafe { entry.as_ref() };
+            f(&entry.value, Some(entry.hash), entry.id);
+        }
+    }
+
+    /// Visits the value, partner hash and id of every right entry
+    pub fn verif_right(&self, mut f: impl FnMut(&R, Option<u64>, u64)) {
+        for entry in unsafe { self.right_set.iter() } {
+            let entry = unsafe { entry.as_ref() };
+            f(&entry.value, Some(entry.hash), entry.id);
+        }
+    }
+
+    /// The id of the next pair
+    pub fn verif_counter(&self) -> u64 {
+        self.counter
+    }
+}
diff --git a/src/group_map.rs b/src/group_map.rs
index 590d599..3529c53 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1782,3 +1782,38 @@ impl AddAssign<u64> for ID {
         self.0 += other;
     }
 }
+
+/// Read access to the internal entries, in verification builds only
+#[cfg(cycle_map_verif)]
+impl<L, R, S> GroupMap<L, R, S> {
+    /// Visits the value, right hash, right id and id of every left entry
+    pub fn verif_left(&self, mut f: impl FnMut(&L, u64, u64, u64)) {
+        for entry in unsafe { self.left_set.iter() } {
+            let entry = unsafe { entry.as_ref() };
+            f(&entry.value, entry.hash, entry.r_id.0, entry.id.0);
+        }
+    }
+
+    /// Visits the value and id of every right entry
+    pub fn verif_right(&self, mut f: impl FnMut(&R, u64)) {
+        for entry in unsafe { self.right_set.iter() } {
+            let entry = unsafe { entry.as_ref() };
+            f(&entry.value, entry.id.0);
+        }
+    }
+
+    /// Visits the value of every right entry along with the hash and id of each of its left items
+    pub fn verif_pairs(&self, mut f: impl FnMut(&R, u64, u64)) {
+        for entry in unsafe { self.right_set.iter() } {
+            let entry = unsafe { entry.as_ref() };
+            for (hash, id) in entry.pairs.iter() {
+                f(&entry.value, *hash, id.0);
+            }
+        }
+    }
+
+    /// The ids of the next left and the next right item
+    pub fn verif_counters(&self) -> (u64, u64) {
+        (self.left_counter.0, self.right_counter.0)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 04c1a08..a5fd44d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,6 +24,8 @@
     rustdoc::broken_intra_doc_links
 )]
 #![warn(rust_2018_idioms)]
+// `cycle_map_verif` is only set by external verification harnesses
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "serde")]
 mod serde;
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index bf6f3f3..30a98e7 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2530,3 +2530,28 @@ impl<T: fmt::Debug> fmt::Debug for MappingPair<T> {
         )
     }
 }
+
+/// Read access to the internal entries, in verification builds only
+#[cfg(cycle_map_verif)]
+impl<L, R, S> PartialCycleMap<L, R, S> {
+    /// Visits the value, partner hash and id of every left entry
+    pub fn verif_left(&self, mut f: impl FnMut(&L, Option<u64>, u64)) {
+        for entry in unsafe { self.left_set.iter() } {
+            let entry = unsafe { entry.as_ref() };
+            f(&entry.value, entry.hash, entry.id);
+        }
+    }
+
+    /// Visits the value, partner hash and id of every right entry
+    pub fn verif_right(&self, mut f: impl FnMut(&R, Option<u64>, u64)) {
+        for entry in unsafe { self.right_set.iter() } {
+            let entry = unsafe { entry.as_ref() };
+            f(&entry.value, entry.hash, entry.id);
+        }
+    }
+
+    /// The id of the next item
+    pub fn verif_counter(&self) -> u64 {
+        self.counter
+    }
+}
-- 
2.43.0


From 583185cd674b2ead0275144c40d184a0b4ed2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 18/18] verif: hook that uses up ids (cfg(cycle_map_verif))

---
 src/cycle_map.rs         | 7 ++++++-
 src/group_map.rs         | 8 +++++++-
 src/partial_cycle_map.rs | 7 ++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 15923ac..0269131 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1488,7 +1488,7 @@ impl<T: fmt::Debug> fmt::Debug for MappingPair<T> {
     }
 }
 
-/// Read access to the internal entries, in verification builds only
+/// Access to the internal entries, in verification builds only
 #[cfg(cycle_map_verif)]
 impl<L, R, S> CycleMap<L, R, S> {
     /// Visits the value, partner hash and id of every left entry
@@ -1511,4 +1511,9 @@ impl<L, R, S> CycleMap<L, R, S> {
     pub fn verif_counter(&self) -> u64 {
         self.counter
     }
+
+    /// Uses up ids, as `by` insertions and removals of an item would
+    pub fn verif_skip(&mut self, by: u64) {
+        self.counter = (self.counter as u64 + by) as _;
+    }
 }
diff --git a/src/group_map.rs b/src/group_map.rs
index 3529c53..3bd536c 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1783,7 +1783,7 @@ impl AddAssign<u64> for ID {
     }
 }
 
-/// Read access to the internal entries, in verification builds only
+/// Access to the internal entries, in verification builds only
 #[cfg(cycle_map_verif)]
 impl<L, R, S> GroupMap<L, R, S> {
     /// Visits the value, right hash, right id and id of every left entry
@@ -1816,4 +1816,10 @@ impl<L, R, S> GroupMap<L, R, S> {
     pub fn verif_counters(&self) -> (u64, u64) {
         (self.left_counter.0, self.right_counter.0)
     }
+
+    /// Uses up ids, as insertions and removals of left and right items would
+    pub fn verif_skip(&mut self, left: u64, right: u64) {
+        self.left_counter.0 = (self.left_counter.0 as u64 + left) as _;
+        self.right_counter.0 = (self.right_counter.0 as u64 + right) as _;
+    }
 }
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 30a98e7..bc8a2fa 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2531,7 +2531,7 @@ impl<T: fmt::Debug> fmt::Debug for MappingPair<T> {
     }
 }
 
-/// Read access to the internal entries, in verification builds only
+/// Access to the internal entries, in verification builds only
 #[cfg(cycle_map_verif)]
 impl<L, R, S> PartialCycleMap<L, R, S> {
     /// Visits the value, partner hash and id of every left entry
@@ -2554,4 +2554,9 @@ impl<L, R, S> PartialCycleMap<L, R, S> {
     pub fn verif_counter(&self) -> u64 {
         self.counter
     }
+
+    /// Uses up ids, as `by` insertions and removals of an item would
+    pub fn verif_skip(&mut self, by: u64) {
+        self.counter = (self.counter as u64 + by) as _;
+    }
 }
-- 
2.43.0

