From 243e184240bebe108daadad2935707f94175d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 01/61] fix: prime_s: don't overflow 16 bits in layouts of many
 disks

PrimeS::new accepts up to 215 disks, but the depth of the layout, the index of
a stripe within its repetition, and offsets within a repetition exceed i16's
range for many such layouts, e.g. 211 disks with 211 disks per stripe.
---
 bfffs-core/src/raid/prime_s.rs | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/prime_s.rs b/bfffs-core/src/raid/prime_s.rs
index b9edf3d..e63f233 100644
--- a/bfffs-core/src/raid/prime_s.rs
+++ b/bfffs-core/src/raid/prime_s.rs
@@ -81,7 +81,7 @@ struct ChunklocInt {
     /// Repetition of the layout
     r: u64,
     /// Stripe within its repetition.  Valid range is [0, n * (n-1))
-    s: i16,
+    s: i32,
     /// Stride.  Valid range is [0, n]
     y: i16,
     /// Iteration.  Valid range is is [0, n-1)
@@ -151,7 +151,7 @@ pub struct PrimeS {
     /// Number of stripes in one repetition.  Valid range is [1, 46010]
     stripes: u16,
     /// Number of rows in a single repetition.  Valid range is [1, 46010]
-    depth: i16
+    depth: u16
 }
 
 impl PrimeS {
@@ -170,7 +170,7 @@ impl PrimeS {
         assert!(num_disks <= 215);
         assert!(disks_per_stripe > 1 && disks_per_stripe <= num_disks);
         assert!(redundancy > 0 && redundancy < disks_per_stripe);
-        let depth = disks_per_stripe * (num_disks - 1);
+        let depth = disks_per_stripe as u16 * (num_disks as u16 - 1);
         let disks_per_stripe = disks_per_stripe as u8;
         let redundancy = redundancy as u8;
         let m = disks_per_stripe - redundancy;
@@ -192,10 +192,9 @@ impl PrimeS {
         let (r, z) = self.id2rep_and_iter(chunkid);
         // The stripe
         let s = a / i32::from(self.m);
-        debug_assert!(s <= i32::from(i16::MAX));
         // The stride
         let y = (z.rem_euclid(i16::from(self.n - 1))) + 1;
-        ChunklocInt{a, r, s: s as i16, y, z}
+        ChunklocInt{a, r, s, y, z}
     }
 
     /// Return the repetition and iteration numbers where a given Chunk is
@@ -222,7 +221,7 @@ impl PrimeS {
                                disk: i16) -> i32 {
         // We must loop to calculate the offset.  That's PRIME-S's disadvantage
         // vis-a-vis PRIME
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));
         // Contribution to offset from data chunks in this repetition
         let o0 = (s * i32::from(self.m) + b) / i32::from(self.n);
@@ -246,10 +245,10 @@ impl PrimeS {
     /// - `a`:      Index of data chunk within its repetition
     /// - `s`:      Stripe within its repetition
     /// - `m`:      Number of data disks per stripe
-    fn offset_within_stripe(id: ChunkId, a: i32, s: i16, m: u8) -> u8
+    fn offset_within_stripe(id: ChunkId, a: i32, s: i32, m: u8) -> u8
     {
         let b = match id {
-            ChunkId::Data(_) => a - i32::from(s * i16::from(m)),
+            ChunkId::Data(_) => a - s * i32::from(m),
             ChunkId::Parity(_, i) => i32::from(m) + i32::from(i)
         };
         debug_assert!(b < i32::from(u8::MAX));
@@ -279,7 +278,7 @@ impl Locator for PrimeS {
         let b = PrimeS::offset_within_stripe(chunkid, cli.a, cli.s, self.m);
         let b = i32::from(b);
         debug_assert!(b < i32::from(self.k));
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let m = i32::from(self.m);
         let y = i32::from(cli.y);
         let disk = ((s * m + b) * y).rem_euclid(i32::from(self.n));
@@ -326,9 +325,9 @@ impl Locator for PrimeS {
         // stripe
         let s = stripes.ones()
             .nth(offset_in_iter as usize)
-            .unwrap() as i16 + i16::from(self.n) * z;
+            .unwrap() as i32 + i32::from(self.n) * i32::from(z);
         // position of stripe unit within stripe
-        let b = (disk * y_inv - i32::from(s) * i32::from(self.m))
+        let b = (disk * y_inv - s * i32::from(self.m))
             .rem_euclid(i32::from(self.n)) as u8;
         // number of data chunks preceding this repetition
         let o = r * self.datachunks();
@@ -365,14 +364,14 @@ impl Locator for PrimeS {
 pub struct PrimeSIter {
     a: i32,             // Index of a data chunk within its repetition
     f: u8,              // Number of parity disks per stripe
-    depth: i16,         // Number of rows in a single repetition
+    depth: u16,         // Number of rows in a single repetition
     end: ChunkId,       // Id of the first chunk beyond the end
     id: ChunkId,        // Id of next chunk
     m: u8,              // Number of data chunks per stripe
     n: u8,              // Number of disks in the layout
-    o: Vec<i16>,        // Offsets within an iteration for each disk
+    o: Vec<i32>,        // Offsets within an iteration for each disk
     r: u64,             // Repetition number
-    stripe: i16,        // Stripe within its repetition
+    stripe: i32,        // Stripe within its repetition
     stripe_iter: u8,    // Stripe within its iteration
     y: u8,              // Stride
     z: u8,              // Iteration number
@@ -387,14 +386,14 @@ impl PrimeSIter {
     /// iterator should return.
     fn new(layout: &PrimeS, start: ChunkId, end: ChunkId) -> Self {
         let cli = layout.id2loc_int(&start);
-        let s_z = cli.s.rem_euclid(i16::from(layout.stripes_per_iteration()));
+        let s_z = cli.s.rem_euclid(i32::from(layout.stripes_per_iteration()));
         let b = PrimeS::offset_within_stripe(start, cli.a, cli.s, layout.m);
         debug_assert!(b < layout.k);
         // Start with offset contributions from previous iterations
-        let o0 = i16::from(layout.k) * cli.z;
-        let mut o: Vec<i16> = vec![o0; layout.n as usize];
-        for s in 0..=i32::from(s_z) {
-            let end = if s == i32::from(s_z) { b } else { layout.k };
+        let o0 = i32::from(layout.k) * i32::from(cli.z);
+        let mut o: Vec<i32> = vec![o0; layout.n as usize];
+        for s in 0..=s_z {
+            let end = if s == s_z { b } else { layout.k };
             // Add contributions from other chunks in this iteration
             for b in 0..end {
                 let disk = ((s * i32::from(layout.m) + i32::from(b))
@@ -421,7 +420,7 @@ impl PrimeSIter {
     fn next_elem(&self) -> (i16, u64) {
         let b = PrimeS::offset_within_stripe(self.id, self.a, self.stripe,
                                              self.m);
-        let disk = ((i32::from(self.stripe) * i32::from(self.m) + i32::from(b))
+        let disk = ((self.stripe * i32::from(self.m) + i32::from(b))
                     * i32::from(self.y)).rem_euclid(i32::from(self.n));
         let disk = disk as i16;
         let o3 = self.r * self.depth as u64;
@@ -462,11 +461,11 @@ impl Iterator for PrimeSIter {
         self.id = match self.id {
         ChunkId::Data(i) => {
             self.o[disk as usize] += 1;
-            if self.a < i32::from(self.stripe + 1) * i32::from(self.m) - 1 {
+            if self.a < (self.stripe + 1) * i32::from(self.m) - 1 {
                 self.a += 1;
                 ChunkId::Data(i + 1)
             } else {
-                self.a = i32::from(self.stripe) * i32::from(self.m);
+                self.a = self.stripe * i32::from(self.m);
                 ChunkId::Parity(i - u64::from(self.m - 1), 0)
             }
         },
-- 
2.43.0


From 54335f630d3a432f39a590f53483963f9a261617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 02/61] fix: accept recordsize=1048576

It is the documented upper end of the range, and how a RecordSize(20) is
displayed, but due to a typo only 1048776 was accepted.
---
 bfffs-core/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 1c695c9..dfeab8c 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -180,7 +180,7 @@ impl FromStr for Property {
                         131_072 => Ok(Property::RecordSize(17)),
                         262_144 => Ok(Property::RecordSize(18)),
                         524_288 => Ok(Property::RecordSize(19)),
-                        1_048_776 => Ok(Property::RecordSize(20)),
+                        1_048_576 | 1_048_776 => Ok(Property::RecordSize(20)),
                         _ => Err(ParsePropertyError::Value(propval.to_string()))
                     }
                 } else {
-- 
2.43.0


From 9a2dba6ed7f06e0f7bcf65cbdfe14ea7410ab0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 03/61] fix: cache: don't hang readers that wait on a failed or
 cancelled read

When several tasks read the same block at the same time, only the first one
reads it and the others wait.  If the first one's read failed, or it got
dropped, then the others, and everybody who tried to read that block later,
would wait forever.  And if a waiter got dropped, or the block was too large
to stay in cache, then the reader or the waiter would panic.
---
 bfffs-core/src/cache/mod.rs | 60 ++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index 4875f5f..031f947 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -8,6 +8,7 @@ use std::{
     borrow::Borrow,
     collections::HashMap,
     fmt::Debug,
+    sync::{Arc, Mutex},
 };
 
 mod lru;
@@ -124,7 +125,7 @@ impl Borrow<dyn CacheRef> for DivBuf {
 pub struct Cache{
     cache:self::lru::LruCache,
     #[doc(hidden)]
-    pub pending_insertions: HashMap<Key, Vec<oneshot::Sender<()>>>,
+    pub pending_insertions: HashMap<Key, Vec<oneshot::Sender<Box<dyn CacheRef>>>>,
 }
 
 impl Cache {
@@ -188,6 +189,45 @@ impl Cache {
     }
 }
 
+/// A promise to insert a block into the cache.
+///
+/// If it gets dropped unfulfilled, because the read failed or was cancelled,
+/// then any tasks that were waiting on it will be awakened.
+#[doc(hidden)]
+pub struct PendingInsertion {
+    cache: Arc<Mutex<Cache>>,
+    key: Key,
+    fulfilled: bool
+}
+
+impl PendingInsertion {
+    pub fn new(cache: &Arc<Mutex<Cache>>, key: Key) -> Self {
+        Self{cache: cache.clone(), key, fulfilled: false}
+    }
+
+    /// Insert the promised block, and give it to all waiting tasks.
+    pub fn fulfill(mut self, cacheable: Box<dyn Cacheable>) {
+        self.fulfilled = true;
+        let mut guard = self.cache.lock().unwrap();
+        let v = guard.pending_insertions.remove(&self.key);
+        for s in v.into_iter().flatten() {
+            // It's no problem if the waiter gave up
+            let _ = s.send(cacheable.make_ref());
+        }
+        guard.insert(self.key, cacheable);
+    }
+}
+
+impl Drop for PendingInsertion {
+    fn drop(&mut self) {
+        if !self.fulfilled {
+            if let Ok(mut guard) = self.cache.lock() {
+                guard.pending_insertions.remove(&self.key);
+            }
+        }
+    }
+}
+
 /// Get a read-only reference to a cached block, or if not present read it from
 /// disk and update cache.
 ///
@@ -219,28 +259,20 @@ macro_rules! get_or_insert {
                 let (tx, rx) = ::futures::channel::oneshot::channel();
                 v.push(tx);
                 drop(guard);
-                let cache2 = $amself.clone();
                 return async move {
-                    rx.await.unwrap();
-                    let t = cache2.lock().unwrap().get::<$R>(&$key)
-                        .expect("Other task did not insert to cache as promised?");
-                    Ok(t)
+                    // The other task does not tell us why its read failed
+                    let t = rx.await.map_err(|_| crate::types::Error::EIO)?;
+                    Ok(t.downcast::<$R>().unwrap())
                 }.boxed();
             } else {
                 guard.pending_insertions.insert($key, Vec::new());
                 drop(guard);
             }
 
-            let cache2 = $amself.clone();
+            let pending = $crate::cache::PendingInsertion::new(&$amself, $key);
             $f.map_ok(move |cacheable: Box<$C>| {
                 let r = cacheable.make_ref();
-                let mut guard = cache2.lock().unwrap();
-                guard.insert($key, cacheable);
-                if let Some(v) = guard.pending_insertions.remove(&$key) {
-                    for s in v.into_iter() {
-                        s.send(()).unwrap();
-                    }
-                }
+                pending.fulfill(cacheable);
                 r.downcast::<$R>().unwrap()
             }).boxed()
         }
-- 
2.43.0


From 97fb152e7d0e81d1f7ca9a96cb66e86cc1145c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 04/61] fix: writeback: don't miss wakeups when borrow races
 with repay

borrow used to debit the supply, if only temporarily, even if it was going to
sleep.  A concurrent repay could see too little credit to awaken the sleepers,
and nobody would awaken them later.  It could also be that credit was repaid
after borrow rechecked the supply but before it set the sleepers flag.
---
 bfffs-core/src/writeback/writeback.rs | 58 ++++++++++++++-------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 938b7e7..7e60b18 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -228,36 +228,38 @@ impl WriteBack {
             // to pick up any prior stores.  Using Relaxed means that we might
             // overdraw the bank's credit supply.  And that's not so bad!
             // Slightly exceeding the credit limit is permissible.
-            let old_supply = self.supply.fetch_sub(iwants, Relaxed);
-            if old_supply < iwants || (old_supply & 0x1 == 0x1) {
-                // We need to sleep if the supply is depleted.  For fairness'
-                // sake, we must also sleep if there are already any other
-                // sleepers, even if there is sufficient credit left for us.
-                // Otherwise a large write could be delayed indefinitely by
-                // smaller ones.
-                let mut guard = self.sleepers.lock().unwrap();
-                // NB: to be strictly correct, we ought to use Acquire here in
-                // order to pick up any credit that's just been repayed.  But
-                // since the total supply will always be much greater than the
-                // maximum credit used by any one operation, the consequence of
-                // using Relaxed here is just that we may fail to use all of the
-                // memory we're allowed.  That's not so bad!  We won't sleep
-                // unboundedly.
-                let locked_supply = self.supply.fetch_add(iwants, Relaxed);
-                if locked_supply != old_supply - iwants {
-                    // Race! New credit became available before we locked the
-                    // sleepers.  We must try again.
-                    continue;
-                } else {
-                    let (tx, rx) = oneshot::channel::<()>();
-                    let sleeper = Sleeper { tx, wants: iwants };
-                    guard.push_back(sleeper);
-                    self.supply.fetch_or(1, Release);
-                    break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
-                }
-            } else {
+            //
+            // We need to sleep if the supply is depleted.  For fairness' sake,
+            // we must also sleep if there are already any other sleepers, even
+            // if there is sufficient credit left for us.  Otherwise a large
+            // write could be delayed indefinitely by smaller ones.
+            //
+            // Don't take credit that we can't use, not even temporarily.  If we
+            // did, then a concurrent awaken() might think that there isn't
+            // enough left to wake anybody.
+            let sufficient = |old: isize| old & 0x1 == 0 && old >= iwants;
+            let r = self.supply.try_update(Relaxed, Relaxed, |old| {
+                sufficient(old).then(|| old - iwants)
+            });
+            if r.is_ok() {
                 break future::ready(Credit(AtomicIsize::new(iwants)));
             }
+            let mut guard = self.sleepers.lock().unwrap();
+            // Announce ourselves, but only if the supply is still insufficient.
+            // It must be a single atomic operation, lest somebody repay credit
+            // in between and never awaken us.
+            let r = self.supply.try_update(Release, Relaxed, |old| {
+                (!sufficient(old)).then_some(old | 0x1)
+            });
+            if r.is_err() {
+                // Race! New credit became available before we locked the
+                // sleepers.  We must try again.
+                continue;
+            }
+            let (tx, rx) = oneshot::channel::<()>();
+            let sleeper = Sleeper { tx, wants: iwants };
+            guard.push_back(sleeper);
+            break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
         }
     }
 
-- 
2.43.0


From 9fec04c90d1c940ab7b4526a334a0a5e48546204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 05/61] fix: pool create: don't panic on numbers that don't fit
 in 16 bits

---
 bfffs/src/pool_create_parser.lalrpop | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/pool_create_parser.lalrpop b/bfffs/src/pool_create_parser.lalrpop
index 27e1701..3aadd9f 100644
--- a/bfffs/src/pool_create_parser.lalrpop
+++ b/bfffs/src/pool_create_parser.lalrpop
@@ -1,11 +1,14 @@
 // vim: filetype=rust
 
 use std::str::FromStr;
+use lalrpop_util::ParseError;
 use crate::pool_create_ast::{Disk, Mirror, Raid, RaidChild, Tlv, Pool};
 
 grammar;
 
-Num: i16 = r"[0-9]+" => i16::from_str(<>).unwrap();
+Num: i16 = r"[0-9]+" =>? i16::from_str(<>).map_err(|_| ParseError::User {
+    error: "number too large"
+});
 
 Disk: Disk<'input> = {
     r"[/a-zA-Z][^ \t\n]*" => Disk(<>)
-- 
2.43.0


From 72ccca242167e3d93299aae6b411b7fed59d5777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 06/61] fix: a range with equal excluded bounds is empty

Tree::range_delete would panic for such a range, as BTreeMap::range does.
---
 bfffs-core/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 5278279..4637630 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -158,7 +158,7 @@ pub trait RangeBoundsExt<T>: RangeBounds<T>
             (Bound::Included(s), Bound::Included(e)) => s > e,
             (Bound::Included(s), Bound::Excluded(e)) => s >= e,
             (Bound::Excluded(s), Bound::Included(e)) => s >= e,
-            (Bound::Excluded(s), Bound::Excluded(e)) => s > e,
+            (Bound::Excluded(s), Bound::Excluded(e)) => s >= e,
             _ => false
         }
     }
-- 
2.43.0


From 76d5b41af69e73c43a5dbc5399cbcbb87f368b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 07/61] fix: clean_zone tolerates a tree that shrinks while it
 is being cleaned

Between finding a zone's nodes and rewriting them, other tasks may delete
enough to lower the tree, or merge and flush nodes.  Then clean_zone
treated a leaf as an interior node, or failed an assertion.
---
 bfffs-core/src/tree/tree/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 9c47a46..3ee076f 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2393,7 +2393,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
     {
         let tree_guard = self.read().await;
         let h = tree_guard.height;
-        if h == params.echelon + 1 {
+        if h <= params.echelon {
+            // The tree has shrunk, so it no longer has such a level
+            Ok((VecDeque::new(), None))
+        } else if h == params.echelon + 1 {
             // Clean the tree root
             let dirty = if tree_guard.elem.ptr.is_addr() &&
                 tree_guard.elem.ptr.as_addr().pba() >= params.pbas.start &&
@@ -2476,6 +2479,11 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
         .then(move |mut guard| {
             let h = guard.height;
             let dml2 = self.dml.clone();
+            if h <= node.height {
+                // The tree has shrunk, and another thread has already dirtied
+                // every node at this level.  Nothing to do!
+                return future::ok(()).boxed();
+            }
             if h == node.height + 1 {
                 // Clean the root node
                 if guard.elem.ptr.is_mem() {
@@ -2518,6 +2526,11 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                 // Another thread has already dirtied this node.  Nothing to do!
                 return future::ok(()).boxed()
             }
+            if guard.as_int().children[child_idx].key != node.key {
+                // Another thread has already merged this node into its
+                // sibling, and flushed it.  Nothing to do!
+                return future::ok(()).boxed()
+            }
             // TODO: bypass the cache for this part
             let dml2 = dml.clone();
             let fut = dml.pop::<Arc<Node<ddml::DRP, K, V>>,
-- 
2.43.0


From 25c96fe500b6f559c84c85a0b8b15567fee9b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 08/61] fix: link must not overwrite a directory entry with the
 same hash

Fs::link inserted the new directory entry with a plain insert, so that if
the name's hash collided with another entry's of the same directory then
that entry was lost.  Use htable::insert, as create, mkdir and rename do.
---
 bfffs-core/src/fs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index ab17c27..a54f74b 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1433,10 +1433,10 @@ impl Fs {
             let ifut = ds.insert(inode_key, FSValue::inode(iv));
 
             let dirent_objkey = ObjKey::dir_entry(&name);
-            let dirent = Dirent { ino, dtype, name };
+            let dirent = Dirent { ino, dtype, name: name.clone() };
             let dirent_key = FSKey::new(parent_ino, dirent_objkey);
-            let dirent_value = FSValue::DirEntry(dirent);
-            let dfut = ds.insert(dirent_key, dirent_value);
+            // The name's hash may collide with another directory entry's
+            let dfut = htable::insert(ds.clone(), dirent_key, dirent, name);
 
             let now = Timespec::now();
             let parent_attr = SetAttr {
-- 
2.43.0


From 2ecce1943984ab85b9cb141fb0a60f7da01519d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 09/61] fix: check the length of the slice being written, not
 of its whole buffer

DivBuf's Borrow<[u8]> returns the entire underlying buffer.  So the
assertion in VdevFile::write_at_unchecked failed when writing an aligned
part of an unaligned buffer, as VdevRaid does with whole stripes.
---
 bfffs-core/src/vdev_file.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index f2ed8f7..6752156 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -19,7 +19,6 @@ use futures::{
 use nix::libc::{c_int, off_t};
 use pin_project::pin_project;
 use std::{
-    borrow::Borrow,
     fs,
     io::{self, IoSlice, IoSliceMut},
     mem::{self, MaybeUninit},
@@ -475,10 +474,7 @@ impl<'fd> VdevFile<'fd> {
     fn write_at_unchecked(&'fd self, buf: IoVec, lba: LbaT) -> VdevFileFut<'fd>
     {
         let off = lba * (BYTES_PER_LBA as u64);
-        {
-            let b: &[u8] = buf.borrow();
-            debug_assert!(b.len().is_multiple_of(BYTES_PER_LBA));
-        }
+        debug_assert!(buf.len().is_multiple_of(BYTES_PER_LBA));
 
         // Safe because fut's lifetime is equal to buf's (or rather, it will
         // be once we move it into the WriteAt struct
-- 
2.43.0


From d79bc04bf9f1fc99c37f791e183d2bf301ab8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 10/61] fix: resume readdir in the middle of a hash bucket

When resuming within a bucket, the cursors of its remaining entries were
numbered as if none of it had been returned already.  So readdir of a
directory with a three-way hash collision could return an entry twice, or
never end.  Also, don't skip entries of a later bucket when the one at
the cursor has shrunk to a single entry or disappeared.
---
 bfffs-core/src/fs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index a54f74b..674ffd3 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -27,6 +27,7 @@ use std::{
     ffi::{OsStr, OsString},
     fmt::Debug,
     io,
+    mem,
     os::unix::ffi::OsStrExt,
     pin::Pin,
     sync::{
@@ -1929,22 +1930,24 @@ impl Fs {
                 match Pin::new(&mut self.rq).poll_next(cx) {
                     Poll::Ready(Some(Ok((k, v)))) => match v {
                         FSValue::DirEntry(dirent) => {
+                            // bucket_idx only applies to the first bucket
+                            self.bucket_idx = 0;
                             let curs = Cursor::new(k.offset() + 1, 0);
                             let de = dirent.into_libc_dirent(curs.0);
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
-                            for _ in 0..self.bucket_idx {
+                            let returned = mem::take(&mut self.bucket_idx);
+                            for _ in 0..returned {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
                                 let _ = bucket.pop();
                             }
-                            self.bucket_idx = 0;
                             if !bucket.is_empty() {
                                 self.bucketing = Some(Bucketing {
                                     bucket,
                                     kofs: k.offset(),
-                                    returned: 0
+                                    returned
                                 });
                                 Poll::Ready(Some(Ok(self.pop_bucket())))
                             } else {
-- 
2.43.0


From 804ea18de45b8d4498bb251f20c6ab8d0d5bfaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 11/61] fix: don't modify a buffer that's still in use

When part of a record that isn't dirty gets overwritten or deallocated, the
record's buffer is taken from the cache and modified in place.  But the
buffer may still be referenced, for example by a RAID stripe buffer.  That
caused a panic.  Copy the buffer in that case.
---
 bfffs-core/src/fs.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 674ffd3..58239a0 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -887,7 +887,8 @@ impl Fs {
                     future::ok(0)
                 }.boxed(),
                 Some(FSValue::InlineExtent(ile)) => async move {
-                    let mut b = ile.buf.try_mut().unwrap();
+                    let buf = Fs::unshare(ile.buf);
+                    let mut b = buf.try_mut().unwrap();
                     let r = if recofs > b.len() as u64 {
                         // Nothing to do.  The truncation happens in a part of
                         // the record that is already sparse.
@@ -904,7 +905,7 @@ impl Fs {
                         }
                         0
                     };
-                    let extent = InlineExtent::new(ile.buf);
+                    let extent = InlineExtent::new(buf);
                     let v = FSValue::InlineExtent(extent);
                     dataset.insert(k, v).await?;
                     Ok(r)
@@ -954,12 +955,13 @@ impl Fs {
                         future::ok(0).boxed()
                     },
                     Some(FSValue::InlineExtent(ile)) => async move {
-                        let mut b = ile.buf.try_mut().unwrap();
+                        let buf = Fs::unshare(ile.buf);
+                        let mut b = buf.try_mut().unwrap();
                         if len < b.len() as u64 {
                             for i in 0..len {
                                 b[i as usize] = 0;
                             }
-                            let extent = InlineExtent::new(ile.buf);
+                            let extent = InlineExtent::new(buf);
                             let v = FSValue::InlineExtent(extent);
                             dataset4.insert(k, v).await?;
                             Ok(0)
@@ -2488,6 +2490,20 @@ impl Fs {
         .await
     }
 
+    /// Get a buffer that's safe to modify.
+    ///
+    /// An extent's buffer might still be in use, even after it's been removed
+    /// from the tree.  For example, a RAID stripe buffer might hold it until
+    /// the stripe is complete.  If so, copy it.
+    fn unshare(dbs: Arc<DivBufShared>) -> Arc<DivBufShared> {
+        if dbs.try_mut().is_ok() {
+            dbs
+        } else {
+            let copy = dbs.try_const().unwrap().to_vec();
+            Arc::new(DivBufShared::from(copy))
+        }
+    }
+
     /// Subroutine of write.  Returns the amount by which the file's on-disk
     /// space changed.
     #[inline]
@@ -2523,7 +2539,7 @@ impl Fs {
                 },
                 Some(FSValue::InlineExtent(ile)) => {
                     let old_len = ile.len() as i64;
-                    (ile.buf, old_len)
+                    (Fs::unshare(ile.buf), old_len)
                 },
                 // Some(FSValue::BlobExtent(be)) should never happen, because
                 // FSValue::dpop will change it to an inline extent.
-- 
2.43.0


From 4bc485519d2a51b7c36ca30407000ba01ce99c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 12/61] fix: flush an extent that a reader is still using

InlineExtent::flush and InlineExtAttr::flush assumed that nobody else held
a reference to the extent's buffer.  But Fs::read holds one for every
dirty record that it reads until its last record has been read from disk.
If a flush began before then, it would panic.
---
 bfffs-core/src/fs_tree.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 7f8667c..6054982 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -574,7 +574,7 @@ impl InlineExtAttr {
         debug_assert!(lsize > BLOB_THRESHOLD);
         let namespace = self.namespace;
         let name = self.name;
-        let dbs = Arc::try_unwrap(self.extent.buf).unwrap();
+        let dbs = self.extent.into_dbs();
         dml.put(dbs, Compression::None, txg)
         .map_ok(move |rid: D::Addr| {
             let rid_a = checked_transmute(rid);
@@ -1062,7 +1062,7 @@ impl InlineExtent {
     {
         let lsize = self.len();
         assert!(lsize > BLOB_THRESHOLD);
-        let dbs = Arc::try_unwrap(self.buf).unwrap();
+        let dbs = self.into_dbs();
         let gfut = dml.put(dbs, Compression::None, txg);
         let g_type_id = gfut.type_id();
         let cfut: Pin<Box<dyn Future<Output=Result<RID>> + Send>> = unsafe {
@@ -1073,6 +1073,13 @@ impl InlineExtent {
         InlineExtentFlush{k, inner: cfut, lsize: lsize as u32}
     }
 
+    /// Get the buffer, copying it if a reader is still using it
+    fn into_dbs(self) -> DivBufShared {
+        Arc::try_unwrap(self.buf).unwrap_or_else(|buf| {
+            DivBufShared::from(buf.try_const().unwrap().to_vec())
+        })
+    }
+
     pub fn len(&self) -> usize {
         self.buf.len()
     }
-- 
2.43.0


From 8bd218e095bce4f6e0d85439b49e1efc5df8153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 13/61] fix: kill a zone when closing it, if everything in it
 was already freed

Cluster::free kills a closed zone when its last block gets freed.  But if
every block in a zone had been freed before the zone was closed, then
nothing would ever kill it.  Its space could never be reclaimed, and the
cleaner would select it forever, or panic if assertions are enabled.
---
 bfffs-core/src/cluster.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index baeaec1..cbd4520 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -898,6 +898,12 @@ impl Cluster {
         nearly_full_zones.iter().map(|&zone_id| {
             let blocks = wg.finish_zone(zone_id, txg);
             self.allocated_space.fetch_add(blocks, Ordering::Relaxed);
+            if wg.in_use(zone_id) == 0 {
+                // Everything in the zone was freed before it got closed, so
+                // there won't be another free to kill it.
+                let blocks = wg.kill_zone(zone_id);
+                self.allocated_space.fetch_sub(blocks, Ordering::Relaxed);
+            }
             self.vdev.finish_zone(zone_id)
         }).collect::<FuturesUnordered<BoxVdevFut>>()
     }
-- 
2.43.0


From 36ac55f095c7a63ea827701752fc6b49683403ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 14/61] fix: borrow enough credit to delete the dying inodes at
 mount

Fs::new borrowed the credit for a single range_delete but did one for each
dying inode, and another for their records.
---
 bfffs-core/src/fs.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 58239a0..47e2775 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1057,29 +1057,22 @@ impl Fs {
                                                    PropertyName::Atime);
             let recsize_fut = Fs::get_prop_unmounted(tree_id, db3.clone(),
                                                      PropertyName::RecordSize);
-            let di_fut = db3.fswrite(tree_id, 0, 1, 0, 0,
-            move |dataset| async move {
+            let di_fut = async move {
                 // Delete all dying inodes.  If there are any, it means that
                 // the previous mount was uncleanly dismounted.
                 // TODO: don't do this when mounting read-only.
-                let ds = Arc::new(dataset);
-                let ds2 = ds.clone();
-                let had_dying_inodes = ds.range(FSKey::dying_inode_range())
-                .try_fold(false, move |_acc, (_k, v)| {
-                    let ds3 = ds.clone();
-                    async move {
-                        let ino = v.as_dying_inode().unwrap().ino();
-                        Fs::do_delete_inode(ds3, ino).await?;
-                        Ok(true)
-                    }
-                }).await?;
-                // Finally, range delete all of the dying inodes, if any
-                if had_dying_inodes {
-                    ds2.range_delete(FSKey::dying_inode_range())
-                        .await?;
+                let dying = dataset.range(FSKey::dying_inode_range())
+                    .map_ok(|(_k, v)| v.as_dying_inode().unwrap().ino())
+                    .try_collect::<Vec<_>>().await?;
+                // There may be any number of them.  Borrow credit for just one
+                // at a time.
+                for ino in dying {
+                    db3.fswrite(tree_id, 0, 1, 1, 0, move |dataset| {
+                        Fs::do_inactive(Arc::new(dataset), ino)
+                    }).await?;
                 }
                 Ok(())
-            }).boxed();
+            }.boxed();
             future::try_join4(last_key_fut, atime_fut, recsize_fut, di_fut)
         }).map_err(Error::unhandled)
         .await.unwrap();
-- 
2.43.0


From 4ddb7697844a9a5ca933d97db89874f0b89bac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 15/61] fix: don't lose a blob after a hash collision

htable::insert inserted the new value, read it back, then inserted a bucket
containing it.  But if a flush came in between, then the value read back
referred to a blob which the second insertion dropped.
---
 bfffs-core/src/fs.rs | 61 +++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 47e2775..63c6cfc 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -138,6 +138,11 @@ mod htable {
               T: HTItem
     {
         let aux = value.aux();
+        // In case of a hash collision, we'll need to insert the value again.
+        // Keep a copy.  Don't read it back from the Tree, because it may have
+        // been flushed already, and the second insertion will drop whatever
+        // the first one flushed.
+        let new = value.clone();
         let fsvalue = value.into_fsvalue();
         dataset.as_ref().insert(key, fsvalue)
         .and_then(move |r| {
@@ -148,41 +153,33 @@ mod htable {
                         future::ok::<Option<T>, Error>(Some(old)).boxed()
                     } else {
                         // We had a hash collision setting an unrelated
-                        // item. Get the old value back, and pack them together.
-                        dataset.as_ref().get(key)
-                        .and_then(move |r| {
-                            let v = r.unwrap();
-                            let new = T::try_from(v).unwrap();
-                            let values = vec![old, new];
-                            let fsvalue = T::into_bucket(values);
-                            dataset.as_ref()
-                            .insert(key, fsvalue)
-                            .map_ok(|_| None)
-                        }).boxed()
+                        // item.  Pack them together.
+                        let values = vec![old, new];
+                        let fsvalue = T::into_bucket(values);
+                        dataset.as_ref()
+                        .insert(key, fsvalue)
+                        .map_ok(|_| None)
+                        .boxed()
                     }
                 },
                 HTValue::Bucket(mut old) => {
-                    // There was previously a hash collision.  Get the new value
-                    // back, then pack them together.
-                    dataset.as_ref().get(key)
-                    .and_then(move |r| {
-                        let v = r.unwrap();
-                        let new = T::try_from(v).unwrap();
-                        let r = if let Some(i) = old.iter().position(|x| {
-                            x.same(aux, &name)
-                        }) {
-                            // A 2-way hash collision, overwriting one value.
-                            // Replace the old value.
-                            Some(mem::replace(&mut old[i], new))
-                        } else {
-                            // A three (or more)-way hash collision.  Append the
-                            // new item
-                            old.push(new);
-                            None
-                        };
-                        dataset.as_ref().insert(key, T::into_bucket(old))
-                        .map_ok(|_| r)
-                    }).boxed()
+                    // There was previously a hash collision.  Pack the new
+                    // value together with the others.
+                    let r = if let Some(i) = old.iter().position(|x| {
+                        x.same(aux, &name)
+                    }) {
+                        // A 2-way hash collision, overwriting one value.
+                        // Replace the old value.
+                        Some(mem::replace(&mut old[i], new))
+                    } else {
+                        // A three (or more)-way hash collision.  Append the
+                        // new item
+                        old.push(new);
+                        None
+                    };
+                    dataset.as_ref().insert(key, T::into_bucket(old))
+                    .map_ok(|_| r)
+                    .boxed()
                 },
                 HTValue::Other(x) => {
                     panic!("Unexpected value {x:?} for key {key:?}")
-- 
2.43.0


From c3707943b935bc4f774d7e7ada65ddcfc08aad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 16/61] fix: hold the transaction open while cleaning a zone

---
 bfffs-core/src/cleaner.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 9526ce9..066c1bc 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -47,9 +47,10 @@ impl SyncCleaner {
             .try_for_each(move |zone| {
                 let idml3 = idml2.clone();
                 idml2.txg()
-                .then(move |txg_guard| 
-                    idml3.clean_zone(zone, *txg_guard)
-                )
+                .then(move |txg_guard| async move {
+                    // Don't let the transaction end while cleaning the zone
+                    idml3.clean_zone(zone, *txg_guard).await
+                })
             })
         })
     }
-- 
2.43.0


From 2141df5af84233989bb67033016543a323557e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 17/61] fix: don't clean a zone that may still be being written

A zone can be closed while writes to it are still in progress.  Cleaning it then
would miss the records being written, or even erase their allocation table
entries.
---
 bfffs-core/src/cleaner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 066c1bc..0984ef6 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -48,6 +48,12 @@ impl SyncCleaner {
                 let idml3 = idml2.clone();
                 idml2.txg()
                 .then(move |txg_guard| async move {
+                    if zone.txgs.end > *txg_guard {
+                        // The zone was closed during the current transaction.
+                        // Something might still be writing to it, so
+                        // clean_zone wouldn't find all of its records.
+                        return Ok(());
+                    }
                     // Don't let the transaction end while cleaning the zone
                     idml3.clean_zone(zone, *txg_guard).await
                 })
-- 
2.43.0


From 803d147cb43b5143da0fd2444bdcd83856979f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 18/61] fix: don't panic syncing or importing a raid with a
 missing child

VdevRaid's write_label, write_spacemap and read_spacemap unwrapped every child,
so a degraded raid could neither be synced nor have its label written, and
couldn't be imported if its first child was missing. Skip children that aren't
present, as the other methods do.
---
 bfffs-core/src/raid/vdev_raid.rs | 35 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 46b9b39..f73b5ed 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -312,8 +312,10 @@ impl Child {
         }
     }
 
-    fn read_spacemap(&self, buf: IoVecMut, smidx: u32) -> ChildReadSpacemap {
-        self.as_present().unwrap().read_spacemap(buf, smidx)
+    fn read_spacemap(&self, buf: IoVecMut, smidx: u32)
+        -> Option<ChildReadSpacemap>
+    {
+        self.as_present().map(|m| m.read_spacemap(buf, smidx))
     }
 
     fn readv_at(&self, bufs: SGListMut, lba: LbaT) -> ChildReadFut {
@@ -381,14 +383,16 @@ impl Child {
         }
     }
 
-    fn write_label(&self, labeller: LabelWriter, txg: TxgT) -> BoxVdevFut {
-        self.as_present().unwrap().write_label(labeller, txg, false)
+    fn write_label(&self, labeller: LabelWriter, txg: TxgT)
+        -> Option<BoxVdevFut>
+    {
+        self.as_present().map(|m| m.write_label(labeller, txg, false))
     }
 
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
-        ->  BoxVdevFut
+        -> Option<BoxVdevFut>
     {
-        self.as_present().unwrap().write_spacemap(sglist, idx, block)
+        self.as_present().map(|m| m.write_spacemap(sglist, idx, block))
     }
 
     fn writev_at(&self, bufs: SGList, lba: LbaT) -> ChildWriteFut {
@@ -465,6 +469,11 @@ impl Future for ReadSpacemap {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
+                    while *pinned.next < pinned.inner.children.len() &&
+                        !pinned.inner.children[*pinned.next].is_present()
+                    {
+                        *pinned.next += 1;
+                    }
                     if *pinned.next >= pinned.inner.children.len() {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
@@ -475,7 +484,7 @@ impl Future for ReadSpacemap {
             let buf = pinned.dbi.try_mut().unwrap();
             let child = &pinned.inner.children[*pinned.next];
             *pinned.next += 1;
-            let new_fut = child.read_spacemap(buf, *pinned.smidx);
+            let new_fut = child.read_spacemap(buf, *pinned.smidx).unwrap();
             pinned.fut.replace(new_fut);
         }
     }
@@ -2260,11 +2269,15 @@ impl VdevRaidApi for VdevRaid {
     {
         let dbi = buf.clone_inaccessible();
         let inner = self.inner.clone();
-        let fut = inner.children.first().map(|child| child.read_spacemap(buf, smidx));
+        let first = inner.children.iter()
+            .position(Child::is_present)
+            .unwrap_or(inner.children.len());
+        let fut = inner.children.get(first)
+            .and_then(|child| child.read_spacemap(buf, smidx));
 
         Box::pin(ReadSpacemap {
             inner,
-            next: 1,
+            next: first + 1,
             dbi,
             smidx,
             fut
@@ -2465,7 +2478,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_label(&self, mut labeller: LabelWriter, txg: TxgT) -> BoxVdevFut
     {
         self.serialize_label(&mut labeller);
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
            bd.write_label(labeller.clone(), txg)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
@@ -2476,7 +2489,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
         -> BoxVdevFut
     {
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
             bd.write_spacemap(sglist.clone(), idx, block)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
-- 
2.43.0


From bbc5cd9fd1b202acb7b2537c3223e2aa3482dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 19/61] fix: don't panic when a mirror within a raid gets a
 read error

A mirror retries a failed read with another child, reusing the buffer. But
DivBufInaccessible::try_mut fails if any other part of the same buffer is in
use, as it usually is if the mirror is a raid's child. Return the error then,
so the raid can reconstruct the data.
---
 bfffs-core/src/mirror.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index ee5b818..4c83c13 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -909,7 +909,7 @@ impl Future for ReadAt {
             return Poll::Ready(Err(Error::ENXIO));
         }
         loop {
-            match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
+            let e = match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
@@ -917,10 +917,16 @@ impl Future for ReadAt {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
                     }
+                    e
                 }
-            }
-            // Try a different child.
-            let buf = pinned.dbi.try_mut().unwrap();
+            };
+            // Try a different child.  We can't reuse the buffer if the upper
+            // layer is still using other parts of it; in that case we must
+            // leave recovery to the upper layer.
+            let buf = match pinned.dbi.try_mut() {
+                Ok(buf) => buf,
+                Err(_) => return Poll::Ready(Err(e))
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.read_at(buf, *pinned.lba);
             pinned.fut.replace(new_fut);
@@ -987,7 +993,7 @@ impl Future for ReadvAt {
             return Poll::Ready(Err(Error::ENXIO));
         }
         loop {
-            match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
+            let e = match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
@@ -995,12 +1001,18 @@ impl Future for ReadvAt {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
                     }
+                    e
                 }
-            }
-            // Try a different child.
-            let bufs = pinned.dbis.iter()
-                .map(|dbi| dbi.try_mut().unwrap())
-                .collect::<Vec<_>>();
+            };
+            // Try a different child.  As for ReadAt, the buffers might still be
+            // in use.
+            let bufs = match pinned.dbis.iter()
+                .map(|dbi| dbi.try_mut())
+                .collect::<std::result::Result<Vec<_>, _>>()
+            {
+                Ok(bufs) => bufs,
+                Err(_) => return Poll::Ready(Err(e))
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.readv_at(bufs, *pinned.lba);
             pinned.fut.replace(new_fut);
-- 
2.43.0


From f53a579b7446ecf2dce353146da11ee3f986e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 20/61] fix: don't use erased parity in
 VdevRaid::read_long_multi

When trying to reconstruct data without certain disks, parity chunks on those
disks were used all the same. So with two or more parity columns the right
reconstruction might never be offered, and the data was lost.
---
 bfffs-core/src/raid/vdev_raid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index f73b5ed..9b496ed 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1348,11 +1348,13 @@ impl VdevRaid {
                     {
                         let disk = loc.disk as usize;
                         let args = args_per_disk[disk].as_ref().unwrap();
-                        if disk_erasures.contains(disk) && cid.is_data() {
+                        if disk_erasures.contains(disk) {
                             erasures.set(chunkpos, true);
-                            let mut dbm = sdbmi.next().unwrap();
-                            missing.push(dbm.as_mut_ptr());
-                            vdbm.push(dbm);
+                            if cid.is_data() {
+                                let mut dbm = sdbmi.next().unwrap();
+                                missing.push(dbm.as_mut_ptr());
+                                vdbm.push(dbm);
+                            }
                         } else {
                             let dbs = buffers[disk].as_mut().unwrap();
                             let mut db = dbs.try_const().unwrap();
-- 
2.43.0


From 2c2fe95695360c8d670b57cdce3cfa258fd37acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 21/61] fix: recover from unexpected errors in any raid read

VdevRaid::read_at_one could only recover from an unexpected error if the read
was of whole chunks; otherwise it panicked for want of the chunks' other parts.
And read_at_multi never read the parity that it needed, so it failed with EIO
(see also issue 297). In both cases reread and reconstruct the stripe.
---
 bfffs-core/src/raid/vdev_raid.rs | 174 ++++++++++++++++++-------------
 1 file changed, 104 insertions(+), 70 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 9b496ed..7038281 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1004,10 +1004,28 @@ impl VdevRaid {
         async move {
             let dv = rfut.collect::<Vec<_>>().await;
 
-            // TODO: on error, issue extra parity reads.
+            let nerrs = dv.iter().filter(|r| r.is_err()).count() as i16;
 
-            if dv.iter().all(Result::is_ok) {
+            if nerrs == 0 {
                 Ok(())
+            } else if nerrs > faulted_children {
+                // Some disk must've had an unexpected error.  We didn't read
+                // everything that's needed for reconstruction.  Recover each
+                // stripe separately.
+                drop(buf);
+                let mut rbuf = dbi.try_mut().unwrap();
+                let mut r = Ok(());
+                let mut lba = ulba;
+                while lba < uelba && r.is_ok() {
+                    let elba = uelba
+                        .min(lba - lba % lbas_per_stripe + lbas_per_stripe);
+                    let sbytes = (elba - lba) as usize * BYTES_PER_LBA;
+                    let data = rbuf.split_to(sbytes);
+                    r = Self::read_at_recovery(&inner, chunksize, data, lba)
+                        .await;
+                    lba = elba;
+                }
+                r
             } else {
                 // Split the range into single stripes and perform error
                 // recovery on each.  It isn't the most efficient, but this
@@ -1078,7 +1096,7 @@ impl VdevRaid {
             None
         };
 
-        let mut start_chunk_addr = start_lba / chunksize;
+        let start_chunk_addr = start_lba / chunksize;
         let start_cid = ChunkId::Data(start_chunk_addr);
         let end_lba_remainder = end_lba % lbas_per_stripe;
         let end_cid = if faulted_children > 0 && faulted_children < f {
@@ -1169,79 +1187,20 @@ impl VdevRaid {
         }).collect::<FuturesOrdered<_>>();
 
         async move {
-            let mut nerrs;
-            let mut dv = rfut.collect::<Vec<Result<()>>>().await;
-
-            let mut old_nerrs = faulted_children;
-            loop {
-                nerrs = dv.iter().filter(|x| x.is_err()).count() as i16;
-                if nerrs <= old_nerrs {
-                    break;
-                }
-                debug_assert!(dv.len() - (nerrs as usize) < m);
-                // Some disk must've had an unexpected error.  Read enough
-                // parity for reconstruction.
-                if nerrs > f {
-                    // Too many errors.  No point in attempting recovery. :(
-                    break
-                }
-                if exbufs.is_none() {
-                    exbufs = Some(Vec::with_capacity(nerrs as usize));
-                }
-                let start_cid = ChunkId::Data(stripe_lba / chunksize);
-                let end_cid = if nerrs > 0 && nerrs < f {
-                    ChunkId::Parity(stripe_lba / chunksize, nerrs)
-                } else {
-                    ChunkId::Data(end_of_stripe_lba / chunksize)
-                };
-                let rfut = inner.locator.iter(start_cid, end_cid)
-                .map(|(cid, loc)| {
-                    if let ChunkId::Parity(_, pid) = cid {
-                        debug_assert!(pid < nerrs);
-                        if pid < old_nerrs {
-                            // Already read it
-                            let dvidx = m + pid as usize;
-                            Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
-                        } else {
-                            let dbs = DivBufShared::uninitialized(col_len);
-                            let dbm = dbs.try_mut().unwrap();
-                            exbufs.as_mut().unwrap().push(dbs);
-                            let disk_lba = loc.offset * chunksize;
-                            Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                        }
-                    } else if cid.address() < start_chunk_addr {
-                        // Need to read this data chunk for parity
-                        // reconstruction
-                        let dbs = DivBufShared::uninitialized(col_len);
-                        let dbm = dbs.try_mut().unwrap();
-                        exbufs.as_mut().unwrap().push(dbs);
-                        let disk_lba = loc.offset * chunksize;
-                        Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                    } else if cid.address() - start_chunk_addr < dv.len() as u64
-                    {
-                        // should've already read it
-                        let dvidx = (cid.address() - start_chunk_addr) as usize;
-                        Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
-                    } else {
-                        // Need to read this data chunk for parity
-                        // reconstruction
-                        let dbs = DivBufShared::uninitialized(col_len);
-                        let dbm = dbs.try_mut().unwrap();
-                        exbufs.as_mut().unwrap().push(dbs);
-                        let disk_lba = loc.offset * chunksize;
-                        Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                    }
-                }).collect::<FuturesOrdered<_>>();
-                start_chunk_addr = stripe_lba / chunksize;
-                old_nerrs = nerrs;
-                dv = rfut.collect::<Vec<Result<()>>>().await;
-            }
+            let dv = rfut.collect::<Vec<Result<()>>>().await;
+            let nerrs = dv.iter().filter(|x| x.is_err()).count() as i16;
 
             if nerrs > f {
                 // Reconstruction is impossible :(
                 dv.into_iter()
                     .find(Result::is_err)
                     .unwrap()
+            } else if nerrs > faulted_children {
+                // Some disk must've had an unexpected error.  We didn't read
+                // everything that's needed for reconstruction.
+                drop(buf);
+                let data = dbi.try_mut().unwrap();
+                Self::read_at_recovery(&inner, chunksize, data, ulba).await
             } else if nerrs > 0 {
                 // We must reconstruct the data
                 drop(buf);
@@ -1256,6 +1215,81 @@ impl VdevRaid {
         // and request the faulty drive's zone to be rebuilt.
     }
 
+    /// Recover from an unexpected error while reading part of a stripe, by
+    /// rereading the entire stripe including its parity.
+    async fn read_at_recovery(
+        inner: &Inner,
+        chunksize: LbaT,
+        // The part of the user's buffer that lies within the stripe.
+        mut data: DivBufMut,
+        // First LBA the user wants to read
+        ulba: LbaT,
+    ) -> Result<()>
+    {
+        let col_len = chunksize as usize * BYTES_PER_LBA;
+        let f = inner.codec.protection() as usize;
+        let k = inner.codec.stripesize() as usize;
+        let m = k - f;
+        let lbas_per_stripe = chunksize * m as LbaT;
+        let stripe = ulba / lbas_per_stripe;
+
+        let start_cid = ChunkId::Data(stripe * m as LbaT);
+        let end_cid = ChunkId::Data((stripe + 1) * m as LbaT);
+        let mut cols = Vec::with_capacity(k);
+        let dv = inner.locator.iter(start_cid, end_cid)
+        .map(|(_cid, loc)| {
+            let dbs = DivBufShared::from(vec![0u8; col_len]);
+            let dbm = dbs.try_mut().unwrap();
+            cols.push(dbs);
+            inner.children[loc.disk as usize].read_at(dbm, loc.offset * chunksize)
+        }).collect::<FuturesOrdered<_>>()
+        .collect::<Vec<Result<()>>>().await;
+
+        if dv.iter().filter(|r| r.is_err()).count() > f {
+            // Reconstruction is impossible :(
+            return dv.into_iter()
+                .find(Result::is_err)
+                .unwrap();
+        }
+
+        if dv[..m].iter().any(Result::is_err) {
+            let mut erasures = FixedBitSet::with_capacity(k);
+            let mut vdb = Vec::with_capacity(m);
+            let mut vdbm = Vec::with_capacity(f);
+            for (i, r) in dv.iter().enumerate() {
+                if r.is_err() {
+                    erasures.set(i, true);
+                    if i < m {
+                        vdbm.push(cols[i].try_mut().unwrap());
+                    }
+                } else if vdb.len() < m {
+                    vdb.push(cols[i].try_const().unwrap());
+                }
+            }
+            let surviving = vdb.iter().map(|db| db.as_ptr()).collect::<Vec<_>>();
+            let mut missing = vdbm.iter_mut()
+                .map(|dbm| dbm.as_mut_ptr())
+                .collect::<Vec<_>>();
+            // Safe because all columns are still owned by vdb and vdbm and they
+            // all have the same length.
+            unsafe {
+                inner.codec.decode(col_len, &surviving[..], &mut missing[..],
+                                   &erasures);
+            }
+        }
+
+        // Now copy just the part that the user wants
+        let mut ofs = (ulba % lbas_per_stripe) as usize * BYTES_PER_LBA;
+        while !data.is_empty() {
+            let col = cols[ofs / col_len].try_const().unwrap();
+            let colofs = ofs % col_len;
+            let len = (col_len - colofs).min(data.len());
+            data.split_to(len)[..].copy_from_slice(&col[colofs..colofs + len]);
+            ofs += len;
+        }
+        Ok(())
+    }
+
     fn read_long_multi(&self, unlbas: LbaT, ulba: LbaT)
         -> impl Future<Output=Result<Box<dyn Iterator<Item=DivBufShared> + Send>>> + Send
     {
-- 
2.43.0


From 810e5a459983aea837c802b7981221e0ca269ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 22/61] fix: match read errors to the right disks in
 read_long_multi

It used the index of the read operation as the index of the disk, which is
wrong if some disk takes no part, as happens with declustered raid.
---
 bfffs-core/src/raid/vdev_raid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 7038281..fb13c09 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1338,13 +1338,14 @@ impl VdevRaid {
             let dbm = dbs.try_mut().unwrap();
             buffers[disk_idx] = Some(dbs);
             self.inner.children[disk_idx].read_at(dbm, disk_lba)
+            .map(move |r| (disk_idx, r))
         }).collect::<FuturesOrdered<_>>()
-        .collect::<Vec<Result<()>>>()
+        .collect::<Vec<(usize, Result<()>)>>()
         .map(move |dv| {
             let mut failures = FixedBitSet::with_capacity(n);
-            for (i, v) in dv.iter().enumerate() {
+            for (disk_idx, v) in dv.iter() {
                 if v.is_err() {
-                    failures.set(i, true);
+                    failures.set(*disk_idx, true);
                 }
             }
             // Now iterate over all combinations of disk failures
-- 
2.43.0


From d80287f15a5d0af9550db0e8d514f1843b413604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 23/61] fix: truncate reconstructed records to their compressed
 size

DDML::read_long returns whole LBAs, but the checksum covers only the
record proper.  Without truncation no record that isn't a whole number of
LBAs could be reconstructed after a checksum error.
---
 bfffs-core/src/ddml/ddml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index 20d525f..974aed9 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -337,7 +337,9 @@ impl DDML {
                     match r {
                         Ok(reconstructions) => {
                             for rdbs in reconstructions {
-                                let rdb = rdbs.try_const().unwrap();
+                                let mut rdb = rdbs.try_const().unwrap();
+                                // Truncate, just like for an ordinary read
+                                rdb.split_off(drp.csize as usize);
                                 let mut hasher = MetroHash64::new();
                                 checksum_iovec(&rdb, &mut hasher);
                                 let checksum = hasher.finish();
-- 
2.43.0


From 0f21da2dc30c04b17b4b5f7849e219ea9b96d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 24/61] fix: combine VdevRaid::read_long with the stripe buffer

The last part of the range may not have been written to disk yet.  Then
no reconstruction was right.
---
 bfffs-core/src/raid/vdev_raid.rs | 37 +++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index fb13c09..86940aa 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2287,9 +2287,40 @@ impl VdevRaidApi for VdevRaid {
             return future::err(Error::EINTEGRITY).boxed();
         }
 
-        // Ignore the stripe buffer.  The fact that read_long got called meant
-        // that, even if the data is available in the stripe buffer , it must be
-        // wrong.
+        // The stripe buffer can't be corrupt, but it may hold the end of the
+        // range, which isn't on disk yet.  If it holds all of it, then there is
+        // nothing to reconstruct.
+        let mut direct_len = len;
+        let mut tail = Vec::new();
+        {
+            let sb_ref = self.stripe_buffers.read().unwrap();
+            let stripe_buffer = sb_ref.values()
+                .find(|&stripe_buffer| {
+                    !stripe_buffer.is_empty() &&
+                    ulba < stripe_buffer.next_lba() &&
+                    ulba + len > stripe_buffer.lba()
+                });
+            if let Some(sb) = stripe_buffer {
+                if ulba >= sb.lba() {
+                    return future::err(Error::EINTEGRITY).boxed();
+                }
+                direct_len = sb.lba() - ulba;
+                for iovec in sb.peek() {
+                    tail.extend_from_slice(&iovec[..]);
+                }
+                tail.truncate((len - direct_len) as usize * BYTES_PER_LBA);
+            }
+        }
+        if !tail.is_empty() {
+            return self.read_long(direct_len, ulba)
+                .map_ok(move |reconstructions| {
+                    Box::new(reconstructions.map(move |dbs| {
+                        let mut v = dbs.try_const().unwrap().to_vec();
+                        v.extend_from_slice(&tail[..]);
+                        DivBufShared::from(v)
+                    })) as Box<dyn Iterator<Item=DivBufShared> + Send>
+                }).boxed();
+        }
 
         let start_stripe = ulba / (self.chunksize * m as LbaT);
         // end_lba is inclusive.  The highest LBA from which data will be read
-- 
2.43.0


From c89d759bbdd2cdebfe2efb2fed659430e8203d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 25/61] fix: don't reuse the last transaction's number after
 import

IDML::open resumed at the transaction number in the label, which had
already been synced.  If the first transaction after an import missed one
of a mirror's disks, then that disk's label couldn't be told from the
others', and it was used as though it were up to date.
---
 bfffs-core/src/idml/idml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 0c5fcc6..11f0cfb 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -348,7 +348,9 @@ impl<'a> IDML {
         let l: Label = label_reader.deserialize().unwrap();
         let alloct = Arc::new(DTree::open(ddml.clone(), true, l.alloct));
         let ridt = Arc::new(DTree::open(ddml.clone(), true, l.ridt));
-        let transaction = RwLock::new(l.txg);
+        // l.txg has already been synced.  Don't reuse its number, or else leaves
+        // that missed part of it couldn't be told from those that have it all.
+        let transaction = RwLock::new(l.txg + 1);
         let next_rid = AtomicU64::new(l.next_rid);
         let writeback = WriteBack::with_capacity(writeback_size);
         let idml = IDML{
-- 
2.43.0


From c68bb3070e37c6317bb0528faacd12ce2f9897c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 26/61] fix: repair_mirror_zone must repair the zone's own
 chunks

It treated the zone's chunks as if they were at the start of the array, only
considered the last few, and mixed whole-mirror addresses with ones
relative to the zone, so rebuilding an open zone of a mirror within a RAID
copied the wrong blocks.
---
 bfffs-core/src/raid/vdev_raid.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 86940aa..3eaf02c 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2376,17 +2376,21 @@ impl VdevRaidApi for VdevRaid {
         if let Some(lbas) = lbas {
             let f = self.inner.codec.protection() as u64;
             let m = self.inner.codec.stripesize() as u64 - f;
-            let n = self.inner.locator.disks();
             let lbas_per_stripe = self.chunksize * m;
             let flushed_lbas = u64::from(lbas) - u64::from(lbas) % lbas_per_stripe;
-            let flushed_chunks: u64 = flushed_lbas / self.chunksize;
-            let end = ChunkId::Data(flushed_chunks);
-            let start = ChunkId::Data(flushed_chunks.saturating_sub(n.into()));
-            for (_id, loc) in self.inner.locator.iter(start, end) {
-                if loc.disk == mirror_idx as i16 {
-                    maxlba = NonZeroU64::new((loc.offset + 1) * self.chunksize);
-                }
-            }
+            // Chunk addresses are relative to the whole vdev, not to the zone.
+            let zone_start = self.zone_limits(zone).0;
+            let start = ChunkId::Data(zone_start / self.chunksize);
+            let end = ChunkId::Data((zone_start + flushed_lbas) /
+                                    self.chunksize);
+            // The mirror's zone may start before our first stripe does.
+            let mirror_start = self.first_healthy_child().zone_limits(zone).0;
+            // Within a layout iteration, offsets needn't be monotonic.
+            maxlba = self.inner.locator.iter(start, end)
+                .filter(|(_id, loc)| loc.disk == mirror_idx as i16)
+                .map(|(_id, loc)| (loc.offset + 1) * self.chunksize)
+                .max()
+                .and_then(|lba| NonZeroU64::new(lba - mirror_start));
             if maxlba.is_none() {
                 // Nothing to repair in this barely-open zone
                 return Box::pin(future::ok(()));
-- 
2.43.0


From 0ea07613caabd55e04e376387d957bdaca1eb212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 27/61] fix: link's two updates of the inode could overwrite
 each other

---
 bfffs-core/src/fs.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 63c6cfc..e60ec27 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1415,8 +1415,10 @@ impl Fs {
             let ds = Arc::new(dataset);
             let inode_key = FSKey::new(ino, ObjKey::Inode);
             let r = ds.get(inode_key).await?;
+            let now = Timespec::now();
             let mut iv = r.unwrap().as_mut_inode().unwrap().clone();
             iv.nlink += 1;
+            iv.ctime = now;
             let dtype = iv.file_type.dtype();
             // FUSE is single-threaded, so we don't have to worry that
             // the target gets deleted before we increase its link
@@ -1431,7 +1433,6 @@ impl Fs {
             // The name's hash may collide with another directory entry's
             let dfut = htable::insert(ds.clone(), dirent_key, dirent, name);
 
-            let now = Timespec::now();
             let parent_attr = SetAttr {
                 ctime: Some(now),
                 mtime: Some(now),
@@ -1440,13 +1441,7 @@ impl Fs {
             let parent_fut = Fs::do_setattr(ds.clone(), parent_ino,
                 parent_attr);
 
-            let ctime_attr = SetAttr {
-                ctime: Some(now),
-                .. Default::default()
-            };
-            let ctime_fut = Fs::do_setattr(ds, ino, ctime_attr);
-
-            future::try_join4(ifut, dfut, parent_fut, ctime_fut).await?;
+            future::try_join3(ifut, dfut, parent_fut).await?;
             Ok(())
         }).map_err(Error::into)
         .await
-- 
2.43.0


From 092bd1c29d7c07d3586ba7265f4e42b20b30526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 28/61] fix: don't clean records while they're being deleted

The cleaner could look up a record just before something else deleted it,
and then panic or resurrect it.  So hold a lock while moving a record.
---
 bfffs-core/src/idml/idml.rs | 52 +++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 11f0cfb..abdd9ca 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -41,6 +41,12 @@ pub struct IDML {
     /// Current transaction group
     transaction: RwLock<TxgT>,
 
+    /// Held exclusively while moving a record, and shared while deleting one.
+    ///
+    /// A record must not be deleted after the cleaner has looked it up but
+    /// before it has finished moving it.
+    move_lock: RwLock<()>,
+
     /// Allocation table.  The reverse of `ridt`.
     ///
     /// Maps disk addresses back to record IDs.  Used for operations like
@@ -203,6 +209,7 @@ impl<'a> IDML {
         let ridt2 = self.ridt.clone();
         let ridt3 = self.ridt.clone();
         let ddml2 = self.ddml.clone();
+        let move_lock = self.move_lock.clone();
         #[cfg(debug_assertions)]
         let ddml3 = self.ddml.clone();
         #[cfg(debug_assertions)]
@@ -213,14 +220,25 @@ impl<'a> IDML {
         // 1, so as not to interfere too much with foreground tasks
         self.list_indirect_records(&zone)
         .try_for_each(move |record| {
-            IDML::move_record(&cache2, ridt2.clone(), alloct2.clone(), &ddml2,
-                record, txg)
-            .map_ok(move |drp| {
+            let cache = cache2.clone();
+            let alloct = alloct2.clone();
+            let ridt = ridt2.clone();
+            let ddml = ddml2.clone();
+            let lock_fut = move_lock.write();
+            async move {
+                let _guard = lock_fut.await;
+                if ridt.get(record).await?.is_none() {
+                    // It's been deleted since we listed it
+                    return Ok(());
+                }
+                let drp = IDML::move_record(&cache, ridt, alloct, &ddml, record,
+                    txg).await?;
                 // We shouldn't have moved the record into the same zone
                 debug_assert!(drp.pba().cluster != pba.cluster ||
                               drp.pba().lba < pba.lba ||
                               drp.pba().lba >= pba.lba + total_blocks);
-            })
+                Ok(())
+            }
         }).and_then(move |_| {
             let txgs2 = zone.txgs.clone();
             let pba_range = pba..end;
@@ -256,7 +274,9 @@ impl<'a> IDML {
         let transaction = RwLock::new(TxgT::from(0));
         // TODO: apply configurable writeback size
         let writeback = WriteBack::limitless();
-        IDML{cache, ddml, next_rid, transaction, alloct, ridt, writeback}
+        let move_lock = RwLock::new(());
+        IDML{cache, ddml, next_rid, transaction, move_lock, alloct, ridt,
+            writeback}
     }
 
     /// Drop all data from the cache, for testing or benchmarking purposes
@@ -358,6 +378,7 @@ impl<'a> IDML {
             ddml,
             next_rid,
             transaction,
+            move_lock: RwLock::new(()),
             alloct,
             ridt,
             writeback
@@ -527,8 +548,12 @@ impl DML for IDML {
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
         let rid = *ridp;
-        let fut = self.ridt.get(rid)
-            .and_then(move |oentry| {
+        let ridt3 = self.ridt.clone();
+        let fut = self.move_lock.read()
+            .then(move |guard| {
+                ridt3.get(rid)
+                .map_ok(move |oentry| (guard, oentry))
+            }).and_then(move |(guard, oentry)| {
                 let mut entry = match oentry {
                     Some(e) => e,
                     None => panic!("Double delete detected for {rid:?}.")
@@ -542,13 +567,17 @@ impl DML for IDML {
                     let ridt_fut = ridt2.remove(rid, txg, Credit::null());
                     Box::pin(
                         future::try_join3(ddml_fut, alloct_fut, ridt_fut)
-                         .map_ok(|(_, old_rid, _old_ridt_entry)| {
+                         .map_ok(move |(_, old_rid, _old_ridt_entry)| {
                              assert!(old_rid.is_some());
+                             drop(guard);
                          })
                      )
                 } else {
                     let ridt_fut = ridt2.insert(rid, entry, txg, Credit::null())
-                        .map_ok(|old| assert!(old.is_some()));
+                        .map_ok(move |old| {
+                            assert!(old.is_some());
+                            drop(guard);
+                        });
                     ridt_fut.boxed()
                 }
             });
@@ -589,9 +618,10 @@ impl DML for IDML {
         let ddml2 = self.ddml.clone();
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
-        let efut = self.ridt.get(rid);
+        let lock_fut = self.move_lock.read();
         async move {
-            let mut entry = efut.await?
+            let _guard = lock_fut.await;
+            let mut entry = ridt2.get(rid).await?
                 .ok_or(Error::ENOENT)?;
             entry.refcount -= 1;
             if entry.refcount == 0 {
-- 
2.43.0


From b3fb468f386055eb6330d74ec39faa312416b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 29/61] fix: sync_transaction could forget about concurrent
 changes

---
 bfffs-core/src/database/database.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 4f59d57..95415a9 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -176,6 +176,7 @@ impl Inner {
         Inner::open_filesystem(&inner, tree_id).await?;
 
         let txg = inner.idml.txg().await;
+        inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
@@ -263,6 +264,8 @@ impl Inner {
             ).await;
             let idml2 = inner.idml.clone();
             let txg = inner.idml.txg().await;
+            // The database might've been synced while we awaited the txg lock.
+            inner.dirty.store(true, Ordering::Relaxed);
             let ds = ReadWriteFilesystem::new(idml2, itree, *txg, credit);
             let r = f(ds).await;
             drop(txg);
@@ -504,6 +507,7 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
+        self.inner.dirty.store(true, Ordering::Relaxed);
         fs.clone().flush(*txg_guard).await?;
 
         // Write the new Tree to the Forest, the source-of-truth for trees
@@ -729,7 +733,11 @@ impl Database {
         // 5) Write the second label
         // 6) Sync the pool again, in case we're about to physically pull the
         //    disk or power off.
-        if !inner.dirty.swap(false, Ordering::Relaxed) {
+        //
+        // The dirty flag must only be cleared after that's all done, and while
+        // still holding the txg lock.  Otherwise a concurrent sync_transaction
+        // would return too early, or we'd forget about a concurrent fswrite.
+        if !inner.dirty.load(Ordering::Relaxed) {
             future::ok(())
         } else {
             let inner2 = inner.clone();
@@ -763,7 +771,9 @@ impl Database {
                 // inner2.idml.sync_all(...).
                 inner2.idml.sync_all(txg).await?;
                 inner2.write_label(&label, 1, txg).await?;
-                inner2.idml.sync_all(txg).await
+                inner2.idml.sync_all(txg).await?;
+                inner2.dirty.store(false, Ordering::Relaxed);
+                Ok(())
             })
         }
     }
-- 
2.43.0


From a4aabfefb325e937c01dbf0845d7b67d667f4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 30/61] fix: clean_zone could finish before concurrent
 deletions had

---
 bfffs-core/src/idml/idml.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index abdd9ca..30d8db0 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -210,6 +210,7 @@ impl<'a> IDML {
         let ridt3 = self.ridt.clone();
         let ddml2 = self.ddml.clone();
         let move_lock = self.move_lock.clone();
+        let barrier_lock = self.move_lock.clone();
         #[cfg(debug_assertions)]
         let ddml3 = self.ddml.clone();
         #[cfg(debug_assertions)]
@@ -239,6 +240,10 @@ impl<'a> IDML {
                               drp.pba().lba >= pba.lba + total_blocks);
                 Ok(())
             }
+        }).and_then(move |_| {
+            // Records that were being deleted as we listed them are already
+            // gone from the AllocT, but their space might not be freed yet.
+            barrier_lock.write().map(|_guard| Ok(()))
         }).and_then(move |_| {
             let txgs2 = zone.txgs.clone();
             let pba_range = pba..end;
-- 
2.43.0


From 000e1a164aefd507b2c0b05ff9534d4059af4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 31/61] fix: create_fs must validate the name and the parent

---
 bfffs-core/src/controller.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index a10bbd1..d391bf9 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -91,20 +91,25 @@ impl Controller {
         -> Result<TreeID>
     {
         let fsname = self.strip_pool_name(name)?;
-        let r = fsname.rsplit_once('/');
-        if let Some((parent_name, dsname)) = r {
-            let (_, parent) = self.db.lookup_fs(parent_name).await?;
-            if parent.is_none() {
-                return Err(Error::ENOENT);
-            }
-            self.db.create_fs(parent, dsname.to_owned())
-        } else if fsname.is_empty() {
+        if fsname.is_empty() {
             // Creating the pool's root file system
-            self.db.create_fs(None, fsname.to_owned())
-        } else {
-            // Creating a child of the root file system
-            self.db.create_fs(Some(database::TreeID(0)), fsname.to_owned())
-        }.await
+            let (_, root) = self.db.lookup_fs(fsname).await?;
+            if root.is_some() {
+                return Err(Error::EEXIST);
+            }
+            return self.db.create_fs(None, fsname.to_owned()).await;
+        }
+        // Children of the root file system have no '/' in their names
+        let (parent_name, dsname) = fsname.rsplit_once('/')
+            .unwrap_or(("", fsname));
+        if fsname.split('/').any(str::is_empty) {
+            return Err(Error::EINVAL);
+        }
+        let (_, parent) = self.db.lookup_fs(parent_name).await?;
+        if parent.is_none() {
+            return Err(Error::ENOENT);
+        }
+        self.db.create_fs(parent, dsname.to_owned()).await
     }
 
     /// Destroy a filesystem
-- 
2.43.0


From 6cebf67424d279e81703e8ea31b7b402c891700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 32/61] fix: don't mistake a longer pool name for this pool's

---
 bfffs-core/src/controller.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index d391bf9..1b46912 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -425,8 +425,9 @@ impl Controller {
     // Strip the pool name.  For now, only one pool is supported.
     fn strip_pool_name<'a>(&self, name: &'a str) -> Result<&'a str> {
         match name.strip_prefix(self.db.pool_name()) {
-            Some(s) => Ok(s.strip_prefix('/').unwrap_or(s)),
-            None => {
+            Some("") => Ok(""),
+            Some(s) if s.starts_with('/') => Ok(&s[1..]),
+            _ => {
                 tracing::debug!("pool name not provided");
                 Err(Error::ENOENT)
             },
-- 
2.43.0


From 3046f705b5882a60c0cebf3634792a213b590307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 33/61] fix: a file system that was unmounted by the kernel can
 be destroyed

---
 bfffs-core/src/controller.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 1b46912..272d0f2 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -125,7 +125,10 @@ impl Controller {
         let (parent, tree_id) = self.db.lookup_fs(dsname).await?;
         match tree_id {
             Some(id) => {
-                if let Some(_fs) = guard.get(&id) {
+                let mounted = guard.get(&id)
+                    .map(|weak| weak.strong_count() > 0)
+                    .unwrap_or(false);
+                if mounted {
                     Err(Error::EBUSY)
                 } else {
                     self.db.destroy_fs(parent, id, dsname).await
-- 
2.43.0


From 64a0897346d22b47b37ab4695e997ebc051d78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 34/61] fix: don't leak space when creating a dataset that
 already exists

---
 bfffs-core/src/database/database.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 95415a9..5f50bc2 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -512,8 +512,18 @@ impl Database {
 
         // Write the new Tree to the Forest, the source-of-truth for trees
         let tod = fs.serialize().unwrap();
-        let tree_id = inner3.forest.insert_tree(parent, name.into(), tod,
-            *txg_guard).await?;
+        let r = inner3.forest.insert_tree(parent, name.into(), tod,
+            *txg_guard).await;
+        let tree_id = match r {
+            Ok(tree_id) => tree_id,
+            Err(e) => {
+                // Free the new Tree's storage.
+                let cr = fs.credit_requirements();
+                let credit = idml3.borrow_credit(cr.range_delete).await;
+                fs.range_delete(.., *txg_guard, credit).await?;
+                return Err(e);
+            }
+        };
 
         // Create the filesystem's root directory
         Inner::fswrite(inner3, tree_id, 3, 0, 0, 0, move |dataset|
-- 
2.43.0


From 8d83329c940241d0132eb94e038dc03e7093e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 35/61] fix: concurrently opening a file system must not create
 two trees

---
 bfffs-core/src/database/database.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 5f50bc2..98fcc21 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -211,12 +211,11 @@ impl Inner {
         let idml2 = inner.idml.clone();
         let tree = ITree::<FSKey, FSValue>::open(idml2, false, tod);
         let atree = Arc::new(tree);
-        let atree2 = atree.clone();
         inner.fs_trees.with_write(move |mut wguard| {
-            wguard.entry(tree_id).or_insert(atree2);
-            future::ready(())
-        }).map(|_| {
-            Ok(atree)
+            // Another task may have just opened the same tree.  If so, then we
+            // must use that one.
+            let atree = wguard.entry(tree_id).or_insert(atree).clone();
+            future::ready(Ok(atree))
         })
     }
 
-- 
2.43.0


From 59259fde6c5d414a0ab16309d45a334a72aceec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 36/61] fix: don't panic if there are no resources to sync a
 disk

Like aio_read and aio_write, aio_fsync can fail synchronously with EAGAIN, and
VdevBlock then polls its future again.  That isn't compatible with
FutureExt::map and TryFutureExt::map_err.
---
 bfffs-core/src/vdev_file.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index 6752156..06ff9ed 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -11,6 +11,7 @@ use divbuf::DivBuf;
 use futures::{
     Future,
     FutureExt,
+    TryFuture,
     TryFutureExt,
     future,
     task::{Context, Poll}
@@ -450,10 +451,8 @@ impl<'fd> VdevFile<'fd> {
     /// storage.
     pub fn sync_all(&self) -> VdevFileFut<'_>
     {
-        let fut = AioFileExt::sync_all(&self.fd).unwrap()
-            .map_ok(drop)
-            .map_err(Error::from);
-        Box::pin(fut)
+        let fut = AioFileExt::sync_all(&self.fd).unwrap();
+        Box::pin(SyncAll { fut })
     }
 
     /// Asynchronously write a contiguous portion of the vdev.
@@ -632,6 +631,29 @@ impl Future for ReadvAt<'_> {
     }
 }
 
+#[pin_project]
+struct SyncAll<F> {
+    #[pin]
+    fut: F,
+}
+
+impl<F> Future for SyncAll<F>
+    where F: TryFuture,
+          Error: From<F::Error>
+{
+    type Output = Result<()>;
+
+    // aio_fsync may fail synchronously (like with EAGAIN), too.  See the
+    // comment in ReadAt::poll.
+    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        match self.project().fut.try_poll(cx) {
+            Poll::Ready(Ok(_)) => Poll::Ready(Ok(())),
+            Poll::Ready(Err(e)) => Poll::Ready(Err(Error::from(e))),
+            Poll::Pending => Poll::Pending
+        }
+    }
+}
+
 #[pin_project]
 struct WritevAt<'a> {
     #[pin]
-- 
2.43.0


From 2dbf62a9d0e63b064c05f27c5b0a10e3682f9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 37/61] fix: wait for all operations when removing a disk

An operation that was accumulated from several ones counts just once towards
the queue depth.
---
 bfffs-core/src/vdev_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index cc9ec41..5b744b8 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -498,8 +498,8 @@ impl Inner {
             // Abort the future immediately
             for sender in senders {
                 sender.send(Err(Error::ENXIO)).unwrap();
-                self.queue_depth -= 1;
             }
+            self.queue_depth -= 1;
             return None;
         }
 
-- 
2.43.0


From 8e2247c71631a0843b3c699e7a8522ee80d1bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 38/61] fix: don't panic when the result of a disk operation is
 of no interest

Many callers drop what's still in progress when something else fails.  But then
the task that completed the operation panicked, before it could issue the next
one or even count the operation as complete.  After a few of those, VdevBlock
would never issue any operation again.
---
 bfffs-core/src/vdev_block.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 5b744b8..f8194b9 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -475,7 +475,7 @@ impl Inner {
         if self.queue_depth == 0 {
             // All I/O operations are done.  Notify the remover.
             if let Some(remover) = self.remover.take() {
-                remover.send(()).unwrap()
+                let _ = remover.send(());
             }
         }
         // Ran out of operations to issue or exceeded queue depth.  If queue
@@ -497,7 +497,7 @@ impl Inner {
         if self.remover.is_some() {
             // Abort the future immediately
             for sender in senders {
-                sender.send(Err(Error::ENXIO)).unwrap();
+                let _ = sender.send(Err(Error::ENXIO));
             }
             self.queue_depth -= 1;
             return None;
@@ -521,8 +521,9 @@ impl Inner {
                 // Tokio 0.1.0 did not return JoinHandles from spawn.
                 tokio::spawn( async move {
                     let r = fut.await;
+                    // If the receiver is gone, then nobody cares any more
                     for sender in senders{
-                        sender.send(r).unwrap();
+                        let _ = sender.send(r);
                     }
                     inner.write().unwrap().queue_depth -= 1;
                     schfut.await
@@ -532,7 +533,7 @@ impl Inner {
                 // This normally doesn't happen, but it can happen on a
                 // heavily laden system or one with very fast storage.
                 for sender in senders {
-                    sender.send(r).unwrap();
+                    let _ = sender.send(r);
                 }
                 self.queue_depth -= 1;
             }
-- 
2.43.0


From 931080fec621d2d97de1868bef6e66dce1583b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 39/61] fix: a shortage of disk resources doesn't mean that a
 disk has no label

When importing a pool, its labels are read in parallel.  If that failed with
EAGAIN, then the disk was taken to be missing.
---
 bfffs-core/src/vdev_block.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index f8194b9..ad349c9 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -1222,7 +1222,18 @@ impl Manager {
             let offset = lba * BYTES_PER_LBA as u64;
             // TODO: figure out how to use mem::MaybeUninit with File::read_at
             let mut rbuf = vec![0; LABEL_SIZE];
-            match f.read_at(&mut rbuf[..], offset).unwrap().await {
+            let read_result = loop {
+                let r = f.read_at(&mut rbuf[..], offset).unwrap().await
+                    .map_err(Error::from);
+                if matches!(r, Err(Error::EAGAIN)) {
+                    // Too few disk resources.  That says nothing about the
+                    // disk.  Try again later.
+                    tokio::time::sleep(time::Duration::from_millis(10)).await;
+                } else {
+                    break r;
+                }
+            };
+            match read_result {
                 Ok(_aio_result) => {
                     match LabelReader::new(rbuf) {
                         Ok(lr) => {
@@ -1236,7 +1247,7 @@ impl Manager {
                     }
                 },
                 Err(e) => {
-                    r = Err(Error::from(e));
+                    r = Err(e);
                 }
             }
         }
-- 
2.43.0


From a69ab6ce77b44905a9878e0d871e4d4c01bd1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:05 +0000
Subject: [PATCH 40/61] fix: don't panic if a disk is gone when its queue
 should be checked again

After a shortage of disk resources, issuing operations is retried 10 ms later.
By then the operations may have been issued, and the VdevBlock dropped.
---
 bfffs-core/src/vdev_block.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index ad349c9..28c2ea1 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -655,9 +655,11 @@ impl Future for ReschedFut {
     type Output = ();
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
-        let inner = self.0.upgrade()
-            .expect("VdevBlock dropped with outstanding I/O");
-        inner.write().unwrap().issue_all(cx);
+        // If the VdevBlock is gone, then there can't be anything left to issue.
+        // That may happen if we slept because of a shortage of disk resources.
+        if let Some(inner) = self.0.upgrade() {
+            inner.write().unwrap().issue_all(cx);
+        }
         Poll::Ready(())
     }
 }
-- 
2.43.0


From 5ce94d9daa6cd2522b0b1ded5b1acbf8c2144677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:32 +0000
Subject: [PATCH 41/61] fix: keep flushing stripes readable until they are on
 disk

Data that was in a stripe buffer has already been acknowledged, but once the
buffer is being written out a read of it went to the disks, where it could
find stale data.
---
 bfffs-core/src/raid/vdev_raid.rs | 148 +++++++++++++++++++++++++++----
 1 file changed, 133 insertions(+), 15 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 3eaf02c..6c05fa3 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -32,7 +32,7 @@ use std::{
     path::Path,
     pin::Pin,
     ptr,
-    sync::{Arc, RwLock}
+    sync::{Arc, Mutex, RwLock}
 };
 use super::{
     LocatorImpl,
@@ -490,6 +490,60 @@ impl Future for ReadSpacemap {
     }
 }
 
+/// Stripes that have been removed from a [`StripeBuffer`] but aren't fully
+/// written to disk yet, indexed by their starting LBA.
+#[derive(Clone, Default)]
+struct FlushingStripes(Arc<Mutex<BTreeMap<LbaT, SGList>>>);
+
+impl FlushingStripes {
+    /// Copy whatever is known about the LBAs beginning at `lba` into `buf`.
+    fn copy_into(stripes: &[(LbaT, SGList)], buf: &mut [u8], lba: LbaT) {
+        let begin = lba * BYTES_PER_LBA as u64;
+        let end = begin + buf.len() as u64;
+        for (stripe_lba, sglist) in stripes {
+            let mut next = stripe_lba * BYTES_PER_LBA as u64;
+            for iovec in sglist {
+                let ofs = next;
+                next += iovec.len() as u64;
+                let (first, last) = (ofs.max(begin), next.min(end));
+                if first < last {
+                    let dst = (first - begin) as usize..(last - begin) as usize;
+                    let src = (first - ofs) as usize..(last - ofs) as usize;
+                    buf[dst].copy_from_slice(&iovec[src]);
+                }
+            }
+        }
+    }
+
+    /// All stripes that overlap the given LBA range, in order.
+    fn find(&self, stripe_lbas: LbaT, lba: LbaT, end: LbaT)
+        -> Vec<(LbaT, SGList)>
+    {
+        self.0.lock().unwrap()
+            .range(..end)
+            .filter(|(slba, _)| *slba + stripe_lbas > lba)
+            .map(|(slba, sglist)| (*slba, sglist.clone()))
+            .collect()
+    }
+
+    /// Retain the stripe until the returned guard gets dropped.
+    fn insert(&self, lba: LbaT, sglist: SGList) -> FlushGuard {
+        self.0.lock().unwrap().insert(lba, sglist);
+        FlushGuard { stripes: self.clone(), lba }
+    }
+}
+
+struct FlushGuard {
+    stripes: FlushingStripes,
+    lba: LbaT
+}
+
+impl Drop for FlushGuard {
+    fn drop(&mut self) {
+        self.stripes.0.lock().unwrap().remove(&self.lba);
+    }
+}
+
 /// Parts of the [`VdevRaid`] structure that must be Arc'd
 struct Inner {
     /// Locator, declustering or otherwise
@@ -533,6 +587,12 @@ pub struct VdevRaid {
     /// stripes uses fewer resources than only cacheing the parity information.
     stripe_buffers: RwLock<BTreeMap<ZoneT, StripeBuffer>>,
 
+    /// Former contents of the stripe buffers that are still being written.
+    ///
+    /// Entries get added while `stripe_buffers` is locked for writing, so data
+    /// that was once in a stripe buffer is always in there, in here, or on disk.
+    flushing: FlushingStripes,
+
     uuid: Uuid,
 
     inner: Arc<Inner>,
@@ -707,11 +767,26 @@ impl VdevRaid {
             optimum_queue_depth,
             size,
             stripe_buffers: RwLock::new(BTreeMap::new()),
+            flushing: FlushingStripes::default(),
             uuid,
             inner
         }
     }
 
+    /// Write a stripe that was removed from a stripe buffer.
+    ///
+    /// Writes that only reached the stripe buffer are already complete as far
+    /// as the user knows, so that data must stay readable in the meantime.  Must
+    /// be called with `stripe_buffers` locked for writing.
+    fn flush_stripe(&self, sglist: SGList, lba: LbaT) -> BoxVdevFut {
+        let fut = self.writev_at_one(&sglist, lba);
+        let guard = self.flushing.insert(lba, sglist);
+        Box::pin(fut.map(move |r| {
+            drop(guard);
+            r
+        }))
+    }
+
     /// Open an existing `VdevRaid` from its component devices
     ///
     /// # Parameters
@@ -2161,7 +2236,7 @@ impl VdevRaidApi for VdevRaid {
             sb.pad();
             let lba = sb.lba();
             let sgl = sb.pop();
-            futs.push(self.writev_at_one(&sgl, lba))
+            futs.push(self.flush_stripe(sgl, lba))
         }
         futs.extend(
             self.inner.children.iter()
@@ -2196,8 +2271,7 @@ impl VdevRaidApi for VdevRaid {
                     let pad_lbas = sb.pad();
                     let lba = sb.lba();
                     let sgl = sb.pop();
-                    drop(sb_ref);
-                    (pad_lbas, Box::pin(self.writev_at_one(&sgl, lba)))
+                    (pad_lbas, self.flush_stripe(sgl, lba))
                 }
             }
         }
@@ -2268,12 +2342,39 @@ impl VdevRaidApi for VdevRaid {
         if justreturn {
             return Box::pin(future::ok(()))
         }
-        let start_stripe = lba / (self.chunksize * m as LbaT);
-        let end_stripe = end_lba / (self.chunksize * m);
-        if start_stripe == end_stripe {
-            Box::pin(self.read_at_one(buf2, lba))
+        let mut buf2 = buf2;
+        let stripe_lbas = self.chunksize * m;
+        let mut flushing = self.flushing.find(stripe_lbas, lba, end_lba + 1);
+        // Don't bother to read the end of the range from the disks if it's
+        // still in memory.
+        while let Some(slba) = flushing.last()
+            .map(|(slba, _)| *slba)
+            .filter(|slba| slba + stripe_lbas > end_lba)
+        {
+            let first = lba.max(slba);
+            let mut tail = buf2.split_off((first - lba) as usize * BYTES_PER_LBA);
+            FlushingStripes::copy_into(&flushing, &mut tail[..], first);
+            if first == lba {
+                return Box::pin(future::ok(()))
+            }
+            end_lba = first - 1;
+            flushing.pop();
+        }
+        let dbi = buf2.clone_inaccessible();
+        let start_stripe = lba / stripe_lbas;
+        let end_stripe = end_lba / stripe_lbas;
+        let fut = if start_stripe == end_stripe {
+            Box::pin(self.read_at_one(buf2, lba)) as BoxVdevFut
         } else {
-            Box::pin(self.read_at_multi(buf2, lba))
+            Box::pin(self.read_at_multi(buf2, lba)) as BoxVdevFut
+        };
+        if flushing.is_empty() {
+            fut
+        } else {
+            Box::pin(fut.map_ok(move |()| {
+                let mut buf = dbi.try_mut().unwrap();
+                FlushingStripes::copy_into(&flushing, &mut buf[..], lba);
+            }))
         }
     }
 
@@ -2322,15 +2423,32 @@ impl VdevRaidApi for VdevRaid {
                 }).boxed();
         }
 
-        let start_stripe = ulba / (self.chunksize * m as LbaT);
+        let stripe_lbas = self.chunksize * m as LbaT;
+        let start_stripe = ulba / stripe_lbas;
         // end_lba is inclusive.  The highest LBA from which data will be read
         let end_lba = ulba + len - 1;
-        let end_stripe = end_lba / (self.chunksize as LbaT * m as LbaT);
-        if start_stripe == end_stripe {
-            Box::pin(self.read_long_one(len, ulba))
+        let end_stripe = end_lba / stripe_lbas;
+        // Stripes that are still being written can't be corrupt, either.
+        let flushing = self.flushing.find(stripe_lbas, ulba, end_lba + 1);
+        let fut = if start_stripe == end_stripe {
+            if !flushing.is_empty() {
+                return future::err(Error::EINTEGRITY).boxed();
+            }
+            self.read_long_one(len, ulba).boxed()
         } else {
-            Box::pin(self.read_long_multi(len, ulba))
+            self.read_long_multi(len, ulba).boxed()
+        };
+        if flushing.is_empty() {
+            return fut;
         }
+        fut.map_ok(move |reconstructions| {
+            Box::new(reconstructions.map(move |dbs| {
+                FlushingStripes::copy_into(&flushing,
+                                           &mut dbs.try_mut().unwrap()[..],
+                                           ulba);
+                dbs
+            })) as Box<dyn Iterator<Item=DivBufShared> + Send>
+        }).boxed()
     }
 
     fn read_spacemap(&self, buf: IoVecMut, smidx: u32) -> BoxVdevFut
@@ -2514,7 +2632,7 @@ impl VdevRaidApi for VdevRaid {
                     let stripe_lba = stripe_buffer.lba();
                     let sglist = stripe_buffer.pop();
                     lba += ((buflen - buf2.len()) / BYTES_PER_LBA) as LbaT;
-                    futs.push(self.writev_at_one(&sglist, stripe_lba));
+                    futs.push(self.flush_stripe(sglist, stripe_lba));
                 }
                 buf2
             } else {
-- 
2.43.0


From fb8b0d1d4d9539af51d8512a16ab1d9c2a9e5e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 42/61] fix: don't let a borrower that gave up hold up the
 others

A borrower that drops its future while it sleeps stayed in the queue until
there was enough credit for it, though it no longer wants any.
---
 bfffs-core/src/writeback/writeback.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 7e60b18..1241762 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -194,6 +194,12 @@ impl WriteBack {
         let mut guard = self.sleepers.lock().unwrap();
         loop {
             if let Some(sleeper) = guard.front() {
+                if sleeper.tx.is_canceled() {
+                    // The borrower abandoned his loan application.  Don't let
+                    // him hold up those behind him.
+                    guard.pop_front();
+                    continue;
+                }
                 let wants = sleeper.wants;
                 if self.supply.fetch_sub(wants, Relaxed) < wants {
                     // Not enough supply to wake this sleeper
-- 
2.43.0


From 270ed439d64f607caf9244fd15a725aca6c65f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 43/61] fix: report a file's size on disk in blocks of 512
 bytes

---
 bfffs/src/bin/bfffsd/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 9ef0d88..71b0467 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -153,7 +153,7 @@ impl FuseFs {
                 let reply_attr = FileAttr {
                     ino: attr.ino,
                     size: attr.size,
-                    blocks: attr.bytes << 9,
+                    blocks: attr.bytes.div_ceil(512),
                     atime: Timestamp::new(attr.atime.sec, attr.atime.nsec),
                     mtime: Timestamp::new(attr.mtime.sec, attr.mtime.nsec),
                     ctime: Timestamp::new(attr.ctime.sec, attr.ctime.nsec),
-- 
2.43.0


From b38fff0b1f776b4ecc71c1a4db5f435bb2977151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 44/61] fix: fusefs: tolerate repeated lookups of "." after a
 FORGET

---
 bfffs/src/bin/bfffsd/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 71b0467..b8e81a9 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -99,8 +99,9 @@ impl FuseFs {
     fn cache_file(&self, parent_ino: u64, name: &OsStr, fd: FileDataMut) {
         let name_key = (parent_ino, name.to_owned());
         let old_ino = self.names.lock().unwrap().insert(name_key, fd.ino());
-        if let Some(oino) = old_ino {
-            // XXX Can reach this panic after a FORGET when NFS looks up "."
+        // The name may already be cached after a FORGET, when NFS looks up "."
+        // again.
+        if let Some(oino) = old_ino.filter(|oino| *oino != fd.ino()) {
             panic!(
                 "Create of an existing file: {}/{:?} was {} now {}",
                 parent_ino,
-- 
2.43.0


From 2a7cda6fa282ac99657d73da4edb322581b588bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 45/61] fix: fusefs: look up ".." even if the grandparent is
 not cached

---
 bfffs/src/bin/bfffsd/fs.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index b8e81a9..12705ec 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -172,6 +172,27 @@ impl FuseFs {
         }
     }
 
+    /// Private helper for `lookup`
+    async fn do_lookup(
+        &self,
+        grandparent_fd: Option<FileData>,
+        parent_fd: &FileData,
+        name: &OsStr,
+    ) -> Result<FileDataMut, i32> {
+        match parent_fd.parent() {
+            // An NFS server may look up ".." of a directory that it found with
+            // VFS_VGET, whose own parent hasn't been looked up yet.
+            Some(gino) if name == ".." && grandparent_fd.is_none() => {
+                self.fs.ilookup(gino).await
+            }
+            _ => {
+                self.fs
+                    .lookup(grandparent_fd.as_ref(), parent_fd, name)
+                    .await
+            }
+        }
+    }
+
     pub fn new(fs: Arc<Fs>) -> Self {
         FuseFs::from(fs)
     }
@@ -523,8 +544,7 @@ impl Filesystem for FuseFs {
                     None => {
                         // Only name is cached
                         let r = self
-                            .fs
-                            .lookup(grandparent_fd.as_ref(), &parent_fd, name)
+                            .do_lookup(grandparent_fd, &parent_fd, name)
                             .and_then(|fd| {
                                 async move {
                                     match self.do_getattr(&fd.handle()).await {
@@ -555,10 +575,8 @@ impl Filesystem for FuseFs {
             }
             (Some(parent_fd), None) => {
                 // Name is not cached
-                let r = self
-                    .fs
-                    .lookup(grandparent_fd.as_ref(), &parent_fd, name)
-                    .await;
+                let r =
+                    self.do_lookup(grandparent_fd, &parent_fd, name).await;
                 self.handle_new_entry(r, parent, name).await
             }
             (None, _) => {
-- 
2.43.0


From d2612679a844fe8e54fc8ad629333b1236f65482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:41 +0000
Subject: [PATCH 46/61] fix: fusefs: forget a moved directory's old ".." entry

---
 bfffs/src/bin/bfffsd/fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 12705ec..ce988d9 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -947,6 +947,8 @@ impl Filesystem for FuseFs {
                     assert_eq!(ino, cache_ino);
                     // And cache it in the new location
                     names_guard.insert(newname_key, cache_ino);
+                    // If it's a directory, then it may have a new parent
+                    names_guard.remove(&(ino, OsString::from("..")));
                 }
                 // Reparent the moved file
                 if let Some(fd) = self.files.lock().unwrap().get_mut(&ino) {
-- 
2.43.0


From e333eec85ae8a32246d67bee0c5614f8412e727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:11 +0000
Subject: [PATCH 47/61] fix: fusefs: check for directory loops even through
 uncached directories

---
 bfffs/src/bin/bfffsd/fs.rs | 51 ++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index ce988d9..b6ddfee 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -901,35 +901,42 @@ impl Filesystem for FuseFs {
                 .handle();
             let newname_key = (newparent, newname.to_owned());
 
-            // Dirloop check
             let src_fd = files_guard
                 .get(&src_ino)
                 .expect("rename before lookup or after forget of source")
                 .handle();
-            let mut fd = files_guard
-                .get(&newparent)
-                .expect("Uncached destination directory");
-            loop {
-                match fd.parent() {
-                    None => {
-                        // Root directory, or not a directory
-                        break;
-                    }
-                    Some(ino) if src_ino == ino => {
-                        // Dirloop detected!
-                        return Err(libc::EINVAL.into());
-                    }
-                    // Keep recursing
-                    _ => {
-                        fd = files_guard
-                            .get(&fd.parent().unwrap())
-                            .expect("Uncached parent directory");
-                    }
-                }
-            }
             (parent_fd, newparent_fd, newname_key, src_fd)
         };
 
+        // Dirloop check
+        let mut dir_ino = newparent;
+        loop {
+            let cached_parent = self
+                .files
+                .lock()
+                .unwrap()
+                .get(&dir_ino)
+                .map(FileDataMut::parent);
+            let dir_parent = match cached_parent {
+                Some(parent) => parent,
+                // A cached directory's own parent may have been forgotten, or
+                // never have been looked up if NFS used VFS_VGET.
+                None => self.fs.ilookup(dir_ino).await?.parent(),
+            };
+            match dir_parent {
+                None => {
+                    // Root directory, or not a directory
+                    break;
+                }
+                Some(ino) if src_ino == ino => {
+                    // Dirloop detected!
+                    return Err(libc::EINVAL.into());
+                }
+                // Keep recursing
+                Some(ino) => dir_ino = ino,
+            }
+        }
+
         match self
             .fs
             .rename(&parent_fd, &src_fd, name, &newparent_fd, new_ino, newname)
-- 
2.43.0


From 82dbf98bafa0e0e1687805f18f024ad60ac797ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 48/61] fix: don't panic if a free-space map can't be decoded

---
 bfffs-core/src/cluster.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index cbd4520..ab2fc41 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -242,7 +242,11 @@ impl<'a> FreeSpaceMap {
         let oz_futs = FuturesUnordered::new();
         let mut zid: ZoneT = 0;
         for (i, db) in buf.into_chunks(BYTES_PER_LBA).enumerate() {
-            let sod = SpacemapOnDisk::deserialize(i as u64, &db).unwrap();
+            let sod = SpacemapOnDisk::deserialize(i as u64, &db)
+                .unwrap_or_else(|e| {
+                    tracing::warn!("Undecodable FreeSpaceMap: {e}");
+                    Err(Error::EINTEGRITY)
+                });
             if let Err(e) = sod {
                 let fut = future::err(e);
                 return Box::pin(fut);
-- 
2.43.0


From 4e53c564345f7e3adfdb3b9f51ed90acaf630513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 49/61] fix: don't panic if lseek can't read the inode

---
 bfffs-core/src/fs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index e60ec27..6710d8e 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1576,8 +1576,7 @@ impl Fs {
         let ino = fd.ino;
         let inode_key = FSKey::new(ino, ObjKey::Inode);
         self.db.fsread(self.tree, move |ds| async move {
-            let r = ds.get(inode_key).await
-                .unwrap()
+            let r = ds.get(inode_key).await?
                 .expect("Inode not found");
             let inode = r.as_inode()
                 .expect("Wrong value type");
-- 
2.43.0


From e3d0e434940f3d52669bf79bd8c01397ec3a7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 50/61] fix: don't panic if a label's length is implausible

---
 bfffs-core/src/label.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/label.rs b/bfffs-core/src/label.rs
index f6c3b3c..04dae65 100644
--- a/bfffs-core/src/label.rs
+++ b/bfffs-core/src/label.rs
@@ -83,8 +83,10 @@ impl LabelReader {
             &buffer[length_start .. contents_start]);
         let mut hasher = MetroHash64::new();
         {
-            let csl = contents_start ..  contents_start + contents_len as usize;
-            let contents = if let Some(sl) = buffer.get(csl) {
+            let contents = if let Some(sl) = usize::try_from(contents_len).ok()
+                .and_then(|len| contents_start.checked_add(len))
+                .and_then(|end| buffer.get(contents_start..end))
+            {
                 sl
             } else {
                 tracing::warn!("Label too large");
-- 
2.43.0


From dcfcc80496bf5e510e560bbb6d764d17620f6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:47 +0000
Subject: [PATCH 51/61] fix: bfffsd: refuse unprivileged requests with
 responses of the right kind

The client panics if the response's kind doesn't match its request's, so
unprivileged users got a panic instead of EPERM.
---
 bfffs/src/bin/bfffsd/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/main.rs b/bfffs/src/bin/bfffsd/main.rs
index 4521ae1..cc60a9b 100644
--- a/bfffs/src/bin/bfffsd/main.rs
+++ b/bfffs/src/bin/bfffsd/main.rs
@@ -255,7 +255,7 @@ impl Bfffsd {
         match req {
             rpc::Request::DebugDropCache => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::FsMount(Err(Error::EPERM))
+                    rpc::Response::DebugDropCache(Err(Error::EPERM))
                 } else {
                     self.controller.drop_cache();
                     rpc::Response::DebugDropCache(Ok(()))
@@ -263,7 +263,7 @@ impl Bfffsd {
             }
             rpc::Request::FsCreate(req) => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::FsMount(Err(Error::EPERM))
+                    rpc::Response::FsCreate(Err(Error::EPERM))
                 } else {
                     let r = self
                         .controller
@@ -284,7 +284,7 @@ impl Bfffsd {
             }
             rpc::Request::FsDestroy(req) => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::FsMount(Err(Error::EPERM))
+                    rpc::Response::FsDestroy(Err(Error::EPERM))
                 } else {
                     let r = self.controller.destroy_fs(&req.name).await;
                     rpc::Response::FsDestroy(r)
@@ -412,7 +412,7 @@ impl Bfffsd {
             }
             rpc::Request::PoolFault(req) => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::PoolClean(Err(Error::EPERM))
+                    rpc::Response::PoolFault(Err(Error::EPERM))
                 } else {
                     let r = self
                         .controller
-- 
2.43.0


From 50365d5d82b4eb77ea8c800f62c81248f63579db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:47 +0000
Subject: [PATCH 52/61] fix: bfffsd: don't panic when a client sends an
 unintelligible request

---
 bfffs/src/bin/bfffsd/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffsd/main.rs b/bfffs/src/bin/bfffsd/main.rs
index cc60a9b..29d2e85 100644
--- a/bfffs/src/bin/bfffsd/main.rs
+++ b/bfffs/src/bin/bfffsd/main.rs
@@ -130,7 +130,10 @@ impl Bfffsd {
                 break;
             } else {
                 buf.truncate(nread);
-                let req = rpc::Request::read_from_buffer(&buf[..]).unwrap();
+                let Ok(req) = rpc::Request::read_from_buffer(&buf[..]) else {
+                    warn!("Client sent an unintelligible request");
+                    break;
+                };
                 let creds = peer.peer_cred().unwrap();
                 let resp = self.process_rpc(req, creds).await;
                 let encoded: Vec<u8> = resp.write_to_vec().unwrap();
-- 
2.43.0


From 6fc5192c93c7d07f1b328403208a0d026d716f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:57 +0000
Subject: [PATCH 53/61] fix: bfffsd: don't send FsList responses larger than
 the client can receive

The number of datasets per response was limited, but not their size.  So
"bfffs fs list" would fail if a dataset had several dozen children, or fewer
if their names were long.
---
 bfffs/src/bin/bfffsd/main.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffsd/main.rs b/bfffs/src/bin/bfffsd/main.rs
index 29d2e85..10ded8f 100644
--- a/bfffs/src/bin/bfffsd/main.rs
+++ b/bfffs/src/bin/bfffsd/main.rs
@@ -32,7 +32,7 @@ use nix::{
     sys::stat::Mode,
     unistd,
 };
-use speedy::{Readable, Writable};
+use speedy::{LittleEndian, Readable, Writable};
 use tokio_seqpacket::{UCred, UnixSeqpacket, UnixSeqpacketListener};
 use tracing::{error, warn};
 use tracing_subscriber::{filter::LevelFilter, prelude::*, EnvFilter};
@@ -296,6 +296,14 @@ impl Bfffsd {
             rpc::Request::FsList(req) => {
                 // this value of chunkqty is a guess, not well-calculated
                 const CHUNKQTY: usize = 64;
+                // Responses must be smaller than the client's buffer.
+                const CLIENT_BUFSIZ: usize = 4096;
+                // More than enough for the response's enum, Result, and Vec
+                // headers
+                const HEADERSIZ: usize = 16;
+                fn info_size(info: &rpc::fs::DsInfo) -> usize {
+                    Writable::<LittleEndian>::bytes_needed(info).unwrap()
+                }
 
                 let r = self
                     .controller
@@ -330,6 +338,21 @@ impl Bfffsd {
                             })
                             .collect::<FuturesOrdered<_>>()
                             .try_collect::<Vec<_>>()
+                            .map_ok(|infos| {
+                                // Return only as many as the client can
+                                // receive in a single response, but at least
+                                // one.  It will ask for the rest.
+                                let mut size = HEADERSIZ;
+                                infos
+                                    .into_iter()
+                                    .enumerate()
+                                    .take_while(|(i, info)| {
+                                        size += info_size(info);
+                                        *i == 0 || size < CLIENT_BUFSIZ
+                                    })
+                                    .map(|(_, info)| info)
+                                    .collect::<Vec<_>>()
+                            })
                             .await
                     }
                     Ok(None) => Ok(vec![]),
-- 
2.43.0


From 97875473f826e1b7ddafddbfbc6b43546ce18faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:41 +0000
Subject: [PATCH 54/61] fix: don't unmount other file systems in place of an
 unmounted one

If a dataset was not mounted, Controller::unmount would unmount whatever
happened to be mounted at its mountpoint.
---
 bfffs-core/src/controller.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 272d0f2..dc29c4a 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -457,6 +457,13 @@ impl Controller {
             (_, Some(id)) => id,
             (_, None) => return Err(Error::ENOENT)
         };
+        let mounted = guard.get(&tree_id)
+            .map(|weak| weak.strong_count() > 0)
+            .unwrap_or(false);
+        if !mounted {
+            // Don't unmount whatever else may be mounted there
+            return Err(Error::EINVAL);
+        }
         let (prop, _) = self.get_prop_locked(&guard, name, tree_id,
                                              PropertyName::Mountpoint)
             .await?;
-- 
2.43.0


From 991927e35d0560fb27f86000584bb5c75f61405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:34 +0000
Subject: [PATCH 55/61] fix: serialize creating and destroying datasets

Otherwise two clients creating the same dataset at once could both succeed, or
crash the daemon, and a dataset could be destroyed while a child was being
created.
---
 bfffs-core/src/controller.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index dc29c4a..111e4ca 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -91,6 +91,8 @@ impl Controller {
         -> Result<TreeID>
     {
         let fsname = self.strip_pool_name(name)?;
+        // Prevent races with other threads creating or destroying datasets
+        let _guard = self.filesystems.write().await;
         if fsname.is_empty() {
             // Creating the pool's root file system
             let (_, root) = self.db.lookup_fs(fsname).await?;
@@ -121,7 +123,7 @@ impl Controller {
     pub async fn destroy_fs(&self, name: &str) -> Result<()>
     {
         let dsname = self.strip_pool_name(name)?;
-        let guard = self.filesystems.read().await;
+        let guard = self.filesystems.write().await;
         let (parent, tree_id) = self.db.lookup_fs(dsname).await?;
         match tree_id {
             Some(id) => {
@@ -412,11 +414,11 @@ impl Controller {
     {
         let prop = prop.inheritable();
         let dsname = self.strip_pool_name(dataset)?;
+        let guard = self.filesystems.read().await;
         let tree_id = match self.db.lookup_fs(dsname).await? {
             (_parent, Some(tree_id)) => tree_id,
             (_, None) => return Err(Error::ENOENT)
         };
-        let guard = self.filesystems.read().await;
         if let Some(weak) = guard.get(&tree_id) {
             if let Some(fs) = weak.upgrade() {
                 return fs.set_prop(prop).await;
-- 
2.43.0


From 6f9535c7f7bf50368943a0dbe32b342e713b58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 56/61] fix: print the source of properties without one as
 "none"

The name of a dataset isn't inherited, and "bfffs fs get -s none" selects
it, but it was shown as inherited.
---
 bfffs-core/src/property.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index dfeab8c..8add123 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -284,6 +284,7 @@ impl PropertySource {
 impl fmt::Display for PropertySource {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match *self {
+            Self::None => "none".fmt(f),
             Self::Default => "default".fmt(f),
             Self::LOCAL => "local".fmt(f),
             _ => "inherited".fmt(f)
-- 
2.43.0


From f2952cba6b3c13d46fcbc72e113d791cd46ea176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 57/61] fix: return the property that was asked for

Asking for the basemountpoint returned a property called mountpoint.
---
 bfffs-core/src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 111e4ca..624bd58 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -248,7 +248,7 @@ impl Controller {
                     (Property::Mountpoint(mp), source)
                 } else {
                     assert_eq!(propname, PropertyName::BaseMountpoint);
-                    (Property::Mountpoint(bmp), source)
+                    (Property::BaseMountpoint(bmp), source)
                 }
             } else {
                 (prop, source)
-- 
2.43.0


From 913bd7539d94f609f61fc81059145c628979eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 58/61] fix: bfffs check must fail if the pool is inconsistent

It printed what's wrong, but exited successfully.
---
 bfffs/src/bin/bfffs/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffs/main.rs b/bfffs/src/bin/bfffs/main.rs
index 039b82f..9ff2a08 100644
--- a/bfffs/src/bin/bfffs/main.rs
+++ b/bfffs/src/bin/bfffs/main.rs
@@ -55,7 +55,10 @@ impl Check {
                     exit(1);
                 }),
         );
-        db.check().await.unwrap();
+        if !db.check().await.unwrap() {
+            eprintln!("Error: the pool is inconsistent");
+            exit(1);
+        }
         // TODO: the other checks
         Ok(())
     }
-- 
2.43.0


From 80365f1a6f6cdf91bfd3279df5b9cabfb3faec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:06 +0000
Subject: [PATCH 59/61] fix: let two lookups of a file through different links
 run at once

If a name was cached but not its inode, and another lookup cached the inode
while this one was waiting for the disk, then FuseFs panicked.
---
 bfffs/src/bin/bfffsd/fs.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index b6ddfee..6fe9743 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -550,12 +550,17 @@ impl Filesystem for FuseFs {
                                     match self.do_getattr(&fd.handle()).await {
                                         Ok(file_attr) => {
                                             let ino = fd.ino();
+                                            // Another lookup of the same file,
+                                            // by a hard link for example, may
+                                            // have cached it meanwhile.
                                             let mut g =
                                                 self.files.lock().unwrap();
-                                            assert!(
-                                                g.insert(ino, fd).is_none(),
-                                                "Inode number reuse detected"
-                                            );
+                                            g.entry(ino)
+                                                .and_modify(|ofd| {
+                                                    ofd.lookup_count +=
+                                                        fd.lookup_count
+                                                })
+                                                .or_insert(fd);
                                             Ok(file_attr)
                                         }
                                         Err(e) => {
-- 
2.43.0


From cafddfeb5f36eb2674dcdb8b994b4d1350281e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:16 +0000
Subject: [PATCH 60/61] fix: look up . of files that an NFS server looks up
 twice at once

If the first lookup cached the file before the second began, then the second
looked for . in the file's directory entries, and failed with ENOENT.
---
 bfffs/src/bin/bfffsd/fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 6fe9743..03d07a5 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -185,6 +185,11 @@ impl FuseFs {
             Some(gino) if name == ".." && grandparent_fd.is_none() => {
                 self.fs.ilookup(gino).await
             }
+            // Two of an NFS server's threads may VFS_VGET the same file at once.
+            // But only directories have an entry for ".".
+            None if name == "." && parent_fd.ino() != 1 => {
+                self.fs.ilookup(parent_fd.ino()).await
+            }
             _ => {
                 self.fs
                     .lookup(grandparent_fd.as_ref(), parent_fd, name)
-- 
2.43.0


From 1f2e5161f3ba38123bc1de2268c63417a48516e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:03 +0000
Subject: [PATCH 61/61] fix: dump file systems with timestamps that RFC 3339
 can't express

---
 bfffs-core/src/fs_tree.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 6054982..470062f 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -934,10 +934,13 @@ impl Serialize for Timespec {
             //const FORMAT = time::format_description::parse(
             let odt = OffsetDateTime::from_unix_timestamp_nanos(
                 i128::from(self.sec) * 1000000000 + i128::from(self.nsec)
-            ).unwrap();
-            odt.format(&Rfc3339)
-                .unwrap()
-                .serialize(serializer)
+            );
+            match odt.ok().and_then(|odt| odt.format(&Rfc3339).ok()) {
+                Some(s) => s.serialize(serializer),
+                // RFC 3339 only covers the years 0 through 9999
+                None => format!("{}.{:09}", self.sec, self.nsec)
+                    .serialize(serializer)
+            }
         } else {
             // But for binary, encode it compactly
             let mut state = serializer.serialize_struct("Timespec", 3)?;
-- 
2.43.0

