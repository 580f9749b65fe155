From b2da15cbcddc43d24ad7029db1d9631fa7cf2935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 1/5] fix: char::from_ordinal returns None for ordinals that do
 not fit u32

The ordinal was truncated to u32 first, so that ordinals above 2^32 could
wrap around into the valid range.
---
 ordinal-map/src/ordinal/impls/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/ordinal/impls/char.rs b/ordinal-map/src/ordinal/impls/char.rs
index f803c78..b760f59 100644
--- a/ordinal-map/src/ordinal/impls/char.rs
+++ b/ordinal-map/src/ordinal/impls/char.rs
@@ -18,7 +18,7 @@ impl Ordinal for char {
         if ordinal < SURROGATE_START as usize {
             char::from_u32(ordinal as u32)
         } else {
-            char::from_u32((ordinal as u32).checked_add(0x800)?)
+            char::from_u32(u32::try_from(ordinal).ok()?.checked_add(0x800)?)
         }
     }
 }
-- 
2.43.0


From 6d989dea7f29d537b24c9013d6287511399da623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 2/5] fix: OrdinalMap::contains_key is false for absent keys

It returned true for every key as soon as the map was allocated.
---
 ordinal-map/src/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/map.rs b/ordinal-map/src/map/map.rs
index e1765ae..46d4555 100644
--- a/ordinal-map/src/map/map.rs
+++ b/ordinal-map/src/map/map.rs
@@ -56,7 +56,7 @@ impl<K: Ordinal, V> OrdinalMap<K, V> {
     /// Returns `true` if the map contains the key.
     #[inline]
     pub fn contains_key(&self, key: &K) -> bool {
-        self.map.get(key.ordinal()).is_some()
+        self.get(key).is_some()
     }
 
     /// Returns the number of elements in the map. This is an `O(K::ORDINAL_SIZE)` operation.
-- 
2.43.0


From aeca4e453ec3f08d595ffc5027c8a59b9f11fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 3/5] fix: OrdinalSet64::all for types with exactly 64 values

The shift by 64 overflowed: panic with overflow checks, empty set without.
---
 ordinal-map/src/set/set64.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index e2a13cc..5974c97 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -100,7 +100,10 @@ impl<T: Ordinal> OrdinalSet64<T> {
     pub fn all() -> Self {
         const { Self::ASSERT };
         OrdinalSet64 {
-            set: (1 << T::ORDINAL_SIZE) - 1,
+            set: match T::ORDINAL_SIZE {
+                0 => 0,
+                size => u64::MAX >> (u64::BITS as usize - size),
+            },
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 1742e7beadff171c6c7c2069385ff7e99e4ab34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 4/5] fix: iterate and format sets of types without values

OrdinalSet::iter and the Debug of OrdinalSet and OrdinalSet64 failed a debug
assertion when T::ORDINAL_SIZE is zero: one word was given, none expected.
---
 ordinal-map/src/set/set.rs   | 5 ++++-
 ordinal-map/src/set/set64.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ordinal-map/src/set/set.rs b/ordinal-map/src/set/set.rs
index 31110a5..9ebc8bd 100644
--- a/ordinal-map/src/set/set.rs
+++ b/ordinal-map/src/set/set.rs
@@ -4,6 +4,7 @@ use std::fmt::Formatter;
 use std::marker::PhantomData;
 use std::slice;
 
+use crate::set::array::ordinal_array_set_s;
 use crate::set::iter::Iter;
 use crate::set::set_mut::OrdinalSetMut;
 use crate::set::set_ref::OrdinalSetRef;
@@ -47,7 +48,9 @@ impl<T: Ordinal> OrdinalSet<T> {
     #[inline]
     fn as_ref(&self) -> OrdinalSetRef<'_, T> {
         match (Self::IS_SMALL, &self.set) {
-            (true, SetImpl::Small(set)) => OrdinalSetRef::new(slice::from_ref(set)),
+            (true, SetImpl::Small(set)) => {
+                OrdinalSetRef::new(&slice::from_ref(set)[..ordinal_array_set_s::<T>()])
+            }
             (false, SetImpl::Large(set)) => OrdinalSetRef::new(set),
             _ => unreachable!(),
         }
diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index 5974c97..88f2d7f 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -4,6 +4,7 @@ use std::fmt::Formatter;
 use std::marker::PhantomData;
 use std::slice;
 
+use crate::set::array::ordinal_array_set_s;
 use crate::set::set_ref::OrdinalSetRef;
 use crate::Ordinal;
 
@@ -92,7 +93,7 @@ impl<T: Ordinal> OrdinalSet64<T> {
     }
 
     fn as_ref(&self) -> OrdinalSetRef<'_, T> {
-        OrdinalSetRef::new(slice::from_ref(&self.set))
+        OrdinalSetRef::new(&slice::from_ref(&self.set)[..ordinal_array_set_s::<T>()])
     }
 
     /// Create a set containing all possible elements of [`K`](Ordinal).
-- 
2.43.0


From a33d86484b4feb3ef94281ddc2e0e90e91a96b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 5/5] fix: exact size_hint of the array-backed total map's
 IntoIter

It is an ExactSizeIterator, which requires size_hint to be exact; adaptors'
len() panicked.
---
 ordinal-map/src/map/total/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ordinal-map/src/map/total/iter.rs b/ordinal-map/src/map/total/iter.rs
index d1643cb..24d317f 100644
--- a/ordinal-map/src/map/total/iter.rs
+++ b/ordinal-map/src/map/total/iter.rs
@@ -138,6 +138,11 @@ impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Ordinal, V, const S: usize> ExactSizeIterator for IntoIterArray<K, V, S> {
-- 
2.43.0

