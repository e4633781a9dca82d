From feeec97a000214ce8f49f2a1673a3d2394073a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:16 +0000
Subject: [PATCH 01/19] fix: load non-sharded HashMaps whose encoding is
 shorter than 4 bytes

A non-empty map such as {5: 7} encodes to 3 bytes and was loaded as an
empty map because any payload below 4 bytes was taken for 'no shards'.
---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7acd7ee..7db8244 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -532,7 +532,7 @@ where
     fn from_node(node: &ChunkNode<'_>) -> Result<Self> {
         // Standard HashMap reconstruction logic (same as before)
         let container_payload = node.read_raw()?;
-        if container_payload.len() < 4 {
+        if container_payload.is_empty() {
             return Ok(Self::new());
         }
 
-- 
2.43.0


From 7d413ca5a97b619729ba3502efbcdb9a2dcc5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:31 +0000
Subject: [PATCH 02/19] fix: lazy promises over empty and non-sharded HashMaps

get()/get_lazy() on an empty #[parcode(map)] map divided by zero shards and
panicked; load() on a map stored as a single blob returned an empty map and
get() a format error. A map container without children is now decoded as
the blob it is.
---
 src/rt.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/rt.rs b/src/rt.rs
index bee9070..ce57539 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -248,6 +248,14 @@ where
     pub fn load(&self) -> Result<HashMap<K, V>> {
         // 1. Read number of shards from container
         let container_payload = self.node.read_raw()?;
+        if self.node.child_count() == 0 {
+            // No shards: empty map, or a map stored as a single blob (no `map` attribute).
+            return if container_payload.is_empty() {
+                Ok(HashMap::new())
+            } else {
+                self.node.decode()
+            };
+        }
         let num_shards = if container_payload.len() >= 4 {
             u32::from_le_bytes(
                 container_payload
@@ -333,6 +341,11 @@ where
     /// - O(N/S) linear scan within shard (where S = number of shards)
     /// - SIMD-optimized hash comparison on supported platforms
     pub fn get(&self, key: &K) -> Result<Option<V>> {
+        // No shards: empty map, or a map stored as a single blob (no `map` attribute).
+        if self.node.child_count() == 0 {
+            return Ok(self.load()?.remove(key));
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
@@ -443,13 +456,24 @@ where
 impl<'a, K, V> ParcodeMapPromise<'a, K, V>
 where
     K: Hash + Eq + DeserializeOwned + Send + Sync + 'static,
-    V: ParcodeItem + Send + Sync + ParcodeLazyRef<'a> + 'a,
+    V: ParcodeItem + DeserializeOwned + Send + Sync + ParcodeLazyRef<'a> + 'a,
 {
     /// Performs a lazy lookup for a single key.
     ///
     /// This returns a Lazy Mirror of the value, allowing access to its local fields
     /// without loading its heavy dependencies.
     pub fn get_lazy(&self, key: &K) -> Result<Option<V::Lazy>> {
+        // No shards: empty map, or a map stored as a single blob, which has no lazy values.
+        if self.node.child_count() == 0 {
+            return if self.load()?.contains_key(key) {
+                Err(crate::ParcodeError::Format(
+                    "Map is not sharded: use get() or mark the field #[parcode(map)]".into(),
+                ))
+            } else {
+                Ok(None)
+            };
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
-- 
2.43.0


From e5ef34a7e83e51ca8475f07bb67a1bdbc72119ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 03/19] fix: read #[parcode(map)] values that have chunkable
 fields

Such values are written shallowly (local fields in the shard, remote fields
as children of the shard) but were read back as plain serde values, giving
errors or garbage for load(), ParcodeMapPromise::load() and get(). They are
now read like vector items, through ParcodeItem.
---
 src/reader.rs | 53 ++++++++++++++++++++++++++++++++++++++++++++++-----
 src/rt.rs     | 25 +++++++++++++-----------
 2 files changed, 62 insertions(+), 16 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7db8244..b7a4a8d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -498,6 +498,34 @@ impl_primitive_parcode_item!(
     u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, String
 );
 
+// Collections stored inline (map values, vector items) have no chunks of their own.
+macro_rules! impl_inline_parcode_item {
+    () => {
+        fn read_from_shard(
+            reader: &mut std::io::Cursor<&[u8]>,
+            _children: &mut std::vec::IntoIter<ChunkNode<'_>>,
+        ) -> Result<Self> {
+            bincode::serde::decode_from_std_read(reader, bincode::config::standard())
+                .map_err(|e| ParcodeError::Serialization(e.to_string()))
+        }
+    };
+}
+
+impl<T> ParcodeItem for Vec<T>
+where
+    T: DeserializeOwned + Send + Sync + 'static,
+{
+    impl_inline_parcode_item!();
+}
+
+impl<K, V> ParcodeItem for HashMap<K, V>
+where
+    K: DeserializeOwned + Eq + Hash + Send + Sync + 'static,
+    V: DeserializeOwned + Send + Sync + 'static,
+{
+    impl_inline_parcode_item!();
+}
+
 macro_rules! impl_primitive_parcode_native {
     ($($t:ty),*) => {
         $(
@@ -527,7 +555,7 @@ where
 impl<K, V> ParcodeNative for HashMap<K, V>
 where
     K: DeserializeOwned + Eq + Hash + Send + Sync,
-    V: DeserializeOwned + Send + Sync,
+    V: ParcodeItem + DeserializeOwned,
 {
     fn from_node(node: &ChunkNode<'_>) -> Result<Self> {
         // Standard HashMap reconstruction logic (same as before)
@@ -548,6 +576,7 @@ where
             if payload.len() < 8 {
                 continue;
             }
+            let mut value_children = shard.children()?.into_iter();
 
             let count = u32::from_le_bytes(
                 payload
@@ -571,10 +600,7 @@ where
                 let data_slice = payload
                     .get(data_start + offset..)
                     .ok_or_else(|| ParcodeError::Format("Data slice out of bounds".into()))?;
-                let (k, v) =
-                    bincode::serde::decode_from_slice(data_slice, bincode::config::standard())
-                        .map_err(|e| ParcodeError::Serialization(e.to_string()))?
-                        .0;
+                let (k, v) = read_map_entry(data_slice, &mut value_children)?;
                 map.insert(k, v);
             }
         }
@@ -582,6 +608,23 @@ where
     }
 }
 
+/// Reads one `(K, V)` entry of a map shard: the key with serde, the value from its local
+/// fields in `data` and its remote fields in `children`.
+pub(crate) fn read_map_entry<K, V>(
+    data: &[u8],
+    children: &mut std::vec::IntoIter<ChunkNode<'_>>,
+) -> Result<(K, V)>
+where
+    K: DeserializeOwned,
+    V: ParcodeItem,
+{
+    let mut cursor = Cursor::new(data);
+    let key = bincode::serde::decode_from_std_read(&mut cursor, bincode::config::standard())
+        .map_err(|e| ParcodeError::Serialization(e.to_string()))?;
+    let value = V::read_from_shard(&mut cursor, children)?;
+    Ok((key, value))
+}
+
 /// Represents an open Parcode file mapped in memory.
 ///
 /// This handle allows:
diff --git a/src/rt.rs b/src/rt.rs
index ce57539..416d93d 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -4,7 +4,7 @@
 use crate::error::Result;
 use crate::format::ChildRef;
 use crate::graph::{JobConfig, SerializationJob};
-use crate::reader::{ChunkNode, ParcodeItem};
+use crate::reader::{ChunkNode, ParcodeItem, read_map_entry};
 use serde::de::DeserializeOwned;
 use std::borrow::Cow;
 use std::collections::HashMap;
@@ -229,7 +229,7 @@ pub struct ParcodeMapPromise<'a, K, V> {
 impl<'a, K, V> ParcodeMapPromise<'a, K, V>
 where
     K: Hash + Eq + DeserializeOwned,
-    V: DeserializeOwned,
+    V: ParcodeItem + DeserializeOwned,
 {
     /// Internal constructor.
     pub fn new(node: ChunkNode<'a>) -> Self {
@@ -281,6 +281,7 @@ where
             if payload.len() < 8 {
                 continue;
             }
+            let mut value_children = shard.children()?.into_iter();
 
             // Parse SOA header
             let count = u32::from_le_bytes(
@@ -316,10 +317,7 @@ where
                 })?;
 
                 // Deserialize (K, V) pair
-                let (k, v): (K, V) =
-                    bincode::serde::decode_from_slice(data_slice, bincode::config::standard())
-                        .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?
-                        .0;
+                let (k, v): (K, V) = read_map_entry(data_slice, &mut value_children)?;
 
                 map.insert(k, v);
             }
@@ -414,12 +412,17 @@ where
                     crate::ParcodeError::Format("Data slice out of bounds".into())
                 })?;
 
+                // The remote fields of the values are the children of the shard, in entry
+                // order; every value of the same type has the same number of them.
+                let mut value_children = shard.children()?.into_iter();
+                let children_per_value = value_children.len() / count;
+                if i > 0 && children_per_value > 0 {
+                    value_children.nth(i * children_per_value - 1);
+                }
+
                 // Deserialize (K, V)
-                // Use bincode::deserialize_from slice. Bincode knows when to stop.
                 let (stored_key, stored_val): (K, V) =
-                    bincode::serde::decode_from_slice(data_slice, bincode::config::standard())
-                        .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?
-                        .0;
+                    read_map_entry(data_slice, &mut value_children)?;
 
                 if &stored_key == key {
                     return Ok(Some(stored_val));
@@ -435,7 +438,7 @@ where
 impl<'a, K, V> ParcodeLazyRef<'a> for HashMap<K, V>
 where
     K: Hash + Eq + DeserializeOwned + Send + Sync + 'static,
-    V: DeserializeOwned + Send + Sync + 'static,
+    V: ParcodeItem + DeserializeOwned,
 {
     type Lazy = ParcodeMapPromise<'a, K, V>;
     fn create_lazy(node: ChunkNode<'a>) -> Result<Self::Lazy> {
-- 
2.43.0


From 22d1dbb5b2320aa9dbd5fbe1daccc9094a00cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 04/19] fix: parallel executor passes data through when the
 compressor is missing

compression(true) or a compression attribute naming an algorithm that is not
compiled in made parallel writes fail, while the serial executor and the
documentation fall back to storing the chunk uncompressed.
---
 src/executor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/executor.rs b/src/executor.rs
index 216d151..e9c077b 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -314,7 +314,12 @@ fn process_node<'scope, 'a, W>(
         config.compression_id
     };
 
-    let compressor = match ctx.registry.get(compression_id) {
+    // Fallback to None (ID 0) if requested algorithm unavailable
+    let compressor = match ctx
+        .registry
+        .get(compression_id)
+        .or_else(|_| ctx.registry.get(0))
+    {
         Ok(c) => c,
         Err(e) => {
             ctx.signal_error(e);
-- 
2.43.0


From 476a2046e7bef77041836cac0567d7b81533d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 05/19] fix: reject chunk references that overflow or are empty

A corrupt offset/length pair made the bounds check overflow or the meta byte
lookup underflow, which panics (or, unchecked, reads the wrong byte).
---
 src/reader.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b7a4a8d..f839cd1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -828,13 +828,17 @@ impl ParcodeFile {
     /// * `offset`: Absolute byte offset in the file.
     /// * `length`: Total length of the chunk including metadata.
     fn get_chunk(&self, offset: u64, length: u64) -> Result<ChunkNode<'_>> {
-        if offset + length > self.file_size {
-            return Err(ParcodeError::Format(format!(
-                "Chunk out of bounds: {} + {}",
-                offset, length
-            )));
-        }
-        let chunk_end = usize::try_from(offset + length)
+        // Every chunk has at least its meta byte.
+        let chunk_end = match offset.checked_add(length) {
+            Some(end) if end <= self.file_size && length > 0 => end,
+            _ => {
+                return Err(ParcodeError::Format(format!(
+                    "Chunk out of bounds: {} + {}",
+                    offset, length
+                )));
+            }
+        };
+        let chunk_end = usize::try_from(chunk_end)
             .map_err(|_| ParcodeError::Format("Chunk end exceeds address space".into()))?;
 
         let meta_byte = self
-- 
2.43.0


From 2013c396cbfcb02f51b777f9486f220e607b3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 06/19] fix: bound collection metadata read from a file before
 allocating

A corrupt RLE table or item count made readers expand billions of shard jobs
or abort on an impossible allocation instead of returning a format error.
---
 src/reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f839cd1..edfd83d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -374,7 +374,10 @@ pub trait ParcodeItem: Sized + Send + Sync + 'static {
             .map_err(|_| ParcodeError::Serialization("Vector length exceeds usize".into()))?;
 
         // Allocate uninit vec
-        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::with_capacity(count);
+        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::new();
+        uninit_vec
+            .try_reserve_exact(count)
+            .map_err(|e| ParcodeError::Format(format!("Cannot hold {count} items: {e}")))?;
         #[allow(unsafe_code)]
         unsafe {
             uninit_vec.set_len(count);
@@ -1006,6 +1009,9 @@ impl<'a> ChunkNode<'a> {
         for run in shard_runs {
             let items_per_shard = run.item_count as usize;
             for _ in 0..run.repeat {
+                if current_shard_idx >= self.child_count as usize {
+                    return Err(ParcodeError::Format("RLE table exceeds shard count".into()));
+                }
                 if current_global_idx.checked_add(items_per_shard).is_none() {
                     return Err(ParcodeError::Format("Integer overflow in RLE".into()));
                 }
@@ -1027,7 +1033,10 @@ impl<'a> ChunkNode<'a> {
         }
 
         // 4. Allocate Uninitialized Buffer
-        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::with_capacity(total_items);
+        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::new();
+        result_buffer
+            .try_reserve_exact(total_items)
+            .map_err(|e| ParcodeError::Format(format!("Cannot hold {total_items} items: {e}")))?;
         unsafe {
             result_buffer.set_len(total_items);
         }
-- 
2.43.0


From db75f682e3aa38e1b682d314cc4e3a282d233c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 07/19] fix: iterators over collections with empty shards or
 read errors

A shard of zero items underflowed the lazy iterator's counters and recursed
in the streaming one; after a read error both could yield errors for ever.
Empty shards are skipped and an error now ends the iteration.
---
 src/reader.rs | 63 +++++++++++++++++++++++++++------------------------
 src/rt.rs     | 29 +++++++++++++++++-------
 2 files changed, 55 insertions(+), 37 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index edfd83d..1ca692d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1335,38 +1335,43 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
             return None;
         }
 
-        // 1. Try to pull from current loaded shard
-        if let Some(item) = self.current_items_in_shard.next() {
-            self.current_global_idx += 1;
-            return Some(Ok(item));
-        }
+        loop {
+            // 1. Try to pull from current loaded shard
+            if let Some(item) = self.current_items_in_shard.next() {
+                self.current_global_idx += 1;
+                return Some(Ok(item));
+            }
 
-        // 2. Buffer empty? Load next shard
-        if self.current_shard_idx >= self.container.child_count as usize {
-            return Some(Err(ParcodeError::Internal(
-                "Iterator mismatch: runs out of shards".into(),
-            )));
-        }
+            // 2. Buffer empty? Load next shard
+            if self.current_shard_idx >= self.container.child_count as usize {
+                self.total_items = 0; // Nothing can follow an error.
+                return Some(Err(ParcodeError::Internal(
+                    "Iterator mismatch: runs out of shards".into(),
+                )));
+            }
 
-        // Load logic
-        let next_shard_res = self
-            .container
-            .get_child_by_index(self.current_shard_idx)
-            .and_then(|node| {
-                let payload = node.read_raw()?;
-                let mut cursor = std::io::Cursor::new(payload.as_ref());
-                let children = node.children()?;
-                let mut child_iter = children.into_iter();
-                T::read_slice_from_shard(&mut cursor, &mut child_iter)
-            });
-
-        match next_shard_res {
-            Ok(items) => {
-                self.current_items_in_shard = items.into_iter();
-                self.current_shard_idx += 1;
-                self.next()
+            // Load logic
+            let next_shard_res = self
+                .container
+                .get_child_by_index(self.current_shard_idx)
+                .and_then(|node| {
+                    let payload = node.read_raw()?;
+                    let mut cursor = std::io::Cursor::new(payload.as_ref());
+                    let children = node.children()?;
+                    let mut child_iter = children.into_iter();
+                    T::read_slice_from_shard(&mut cursor, &mut child_iter)
+                });
+
+            match next_shard_res {
+                Ok(items) => {
+                    self.current_items_in_shard = items.into_iter();
+                    self.current_shard_idx += 1;
+                }
+                Err(e) => {
+                    self.total_items = 0; // Nothing can follow an error.
+                    return Some(Err(e));
+                }
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
diff --git a/src/rt.rs b/src/rt.rs
index 416d93d..52d5f47 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -679,8 +679,8 @@ where
             return Ok(true);
         }
 
-        // Current shard finished. Load next.
-        if let Some(shard_node) = self.shards.next() {
+        // Current shard finished. Load next, skipping shards without items.
+        while let Some(shard_node) = self.shards.next() {
             // 1. Load Payload
             let payload = shard_node.read_raw()?;
 
@@ -699,10 +699,17 @@ where
             self.current_payload = Some(payload);
             self.current_children = children.into_iter();
 
-            Ok(true)
-        } else {
-            Ok(false) // No more shards
+            if len > 0 {
+                return Ok(true);
+            }
         }
+        Ok(false) // No more shards
+    }
+
+    /// Ends the iteration: nothing can follow an error.
+    fn stop(&mut self) {
+        self.shards = Vec::new().into_iter();
+        self.items_left_in_shard = 0;
     }
 }
 
@@ -717,7 +724,10 @@ where
         match self.ensure_shard_loaded() {
             Ok(true) => {}
             Ok(false) => return None, // End of iteration
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.stop();
+                return Some(Err(e));
+            }
         }
 
         // 2. Prepare Cursor at current position
@@ -736,12 +746,15 @@ where
         self.current_pos = cursor.position();
         self.items_left_in_shard -= 1;
         self.items_yielded += 1;
+        if result.is_err() {
+            self.stop();
+        }
 
         Some(result)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.total_items - self.items_yielded;
+        let remaining = self.total_items.saturating_sub(self.items_yielded);
         (remaining, Some(remaining))
     }
 }
@@ -751,7 +764,7 @@ where
     T: ParcodeLazyRef<'a>,
 {
     fn len(&self) -> usize {
-        self.total_items - self.items_yielded
+        self.total_items.saturating_sub(self.items_yielded)
     }
 }
 
-- 
2.43.0


From f36f801381ee43fe0299c5a78c70c720d28e6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 08/19] fix: do not allocate an impossible LZ4 size taken from
 a corrupt chunk

---
 src/compression.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compression.rs b/src/compression.rs
index d96d465..fc04d45 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -291,6 +291,15 @@ impl Compressor for Lz4Compressor {
     }
 
     fn decompress<'a>(&self, data: &'a [u8]) -> Result<Cow<'a, [u8]>> {
+        // An LZ4 block expands at most 255 times: do not trust (and allocate) more than that.
+        if let Some(size) = data.first_chunk::<4>().map(|b| u32::from_le_bytes(*b))
+            && u64::from(size) > 255 * data.len() as u64
+        {
+            return Err(ParcodeError::Compression(format!(
+                "Declared size {size} is impossible for {} compressed bytes",
+                data.len()
+            )));
+        }
         let vec = lz4_flex::decompress_size_prepended(data)
             .map_err(|e| ParcodeError::Compression(e.to_string()))?;
         Ok(Cow::Owned(vec))
-- 
2.43.0


From 93f4575642a270ebb0b722b288746c4d5e1acb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 09/19] fix: lookups in a corrupt map that declares zero shards
 return an error

---
 src/rt.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rt.rs b/src/rt.rs
index 52d5f47..bfdad5c 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -359,7 +359,10 @@ where
 
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
-        let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
+        let shard_idx = usize::try_from(target_hash)
+            .unwrap_or(0)
+            .checked_rem(num_shards as usize)
+            .ok_or_else(|| crate::ParcodeError::Format("Map declares no shards".into()))?;
 
         // 3. Load Shard
         let shard = self.node.get_child_by_index(shard_idx)?;
@@ -492,7 +495,10 @@ where
 
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
-        let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
+        let shard_idx = usize::try_from(target_hash)
+            .unwrap_or(0)
+            .checked_rem(num_shards as usize)
+            .ok_or_else(|| crate::ParcodeError::Format("Map declares no shards".into()))?;
 
         // 3. Load Shard
         let shard = self.node.get_child_by_index(shard_idx)?;
-- 
2.43.0


From 9efb0e815e5303c0f775931ad587f7fb52957e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 10/19] fix: overflow when the inspector sums shard counts

The sum runs over whatever bytes happen to parse as an RLE table, also in
well-formed files, and panicked in debug builds.
---
 src/inspector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 784af44..482188b 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -141,7 +141,7 @@ impl ParcodeInspector {
                     let distribution = format!(
                         "Vec<{}> items across {} logical shards",
                         total_items,
-                        runs.iter().map(|r| r.repeat).sum::<u32>()
+                        runs.iter().map(|r| u64::from(r.repeat)).sum::<u64>()
                     );
                     return ("Vec Container".to_string(), Some(distribution));
                 }
-- 
2.43.0


From 89f22f6f07ff5ed83ed7f37c77e6c6d9c2f8da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 11/19] fix: inspector terminates on files whose chunk
 references form cycles

---
 src/inspector.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 482188b..788934b 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -8,7 +8,7 @@
 //! - **Optimization:** Verifying that your `#[parcode(chunkable)]` and `#[parcode(map)]` attributes are working as intended.
 //! - **Debugging:** visualizing the dependency graph of your serialized data.
 
-use crate::error::Result;
+use crate::error::{ParcodeError, Result};
 use crate::reader::{ChunkNode, ParcodeFile};
 use serde::{Deserialize, Serialize};
 use std::path::Path;
@@ -49,6 +49,9 @@ pub struct ChunkInfo {
     pub children: Vec<Self>,
 }
 
+/// Deepest chunk nesting the inspector follows (it recurses once per level).
+const MAX_DEPTH: usize = 512;
+
 /// The Parcode Inspector tool.
 #[derive(Debug)]
 pub struct ParcodeInspector;
@@ -57,7 +60,8 @@ impl ParcodeInspector {
     /// Inspects an already open file.
     pub fn inspect_file(file: &ParcodeFile) -> Result<DebugReport> {
         let root = file.root_node()?;
-        let tree = Self::inspect_node(&root)?;
+        let mut unvisited = file.file_size();
+        let tree = Self::inspect_node(&root, &mut unvisited, 0)?;
 
         Ok(DebugReport {
             file_size: file.file_size(),
@@ -76,7 +80,16 @@ impl ParcodeInspector {
         Self::inspect_file(&file)
     }
 
-    fn inspect_node(node: &ChunkNode<'_>) -> Result<ChunkInfo> {
+    /// `unvisited` counts the bytes of the file not yet accounted for. No two chunks of a
+    /// well-formed file overlap, so it bounds the walk even if references form cycles.
+    fn inspect_node(node: &ChunkNode<'_>, unvisited: &mut u64, depth: usize) -> Result<ChunkInfo> {
+        if depth >= MAX_DEPTH {
+            return Err(ParcodeError::Format("Chunks nested too deeply".into()));
+        }
+        *unvisited = unvisited
+            .checked_sub(node.length())
+            .ok_or_else(|| ParcodeError::Format("Chunks overlap".into()))?;
+
         let raw_meta = node.meta();
         let algo_id = raw_meta.compression_method();
         let algo_name = match algo_id {
@@ -91,7 +104,7 @@ impl ParcodeInspector {
         if node.child_count() > 0 {
             let children = node.children()?;
             for child in children {
-                children_info.push(Self::inspect_node(&child)?);
+                children_info.push(Self::inspect_node(&child, unvisited, depth + 1)?);
             }
         }
 
-- 
2.43.0


From 21606a065171db3a4300aac03f7630b44f40d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 12/19] fix: drop the items decoded so far when loading a
 collection fails

They were written to uninitialized buffers that are freed without running
destructors, so every failed load leaked them.
---
 src/reader.rs | 100 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 92 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1ca692d..ca4305e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -215,7 +215,7 @@ use std::mem::{ManuallyDrop, MaybeUninit};
 use std::ops::Deref;
 use std::ptr;
 use std::slice;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 
 #[cfg(all(feature = "mmap", not(target_arch = "wasm32")))]
 use memmap2::Mmap;
@@ -407,7 +407,7 @@ pub trait ParcodeItem: Sized + Send + Sync + 'static {
     ///
     /// # Safety
     /// The implementation must ensure it does not write past the end of `destination`.
-    /// It returns the number of items actually written.
+    /// It returns the number of items actually written; on error it must leave none behind.
     fn read_into_slice(
         reader: &mut std::io::Cursor<&[u8]>,
         children: &mut std::vec::IntoIter<ChunkNode<'_>>,
@@ -430,15 +430,83 @@ pub trait ParcodeItem: Sized + Send + Sync + 'static {
         }
 
         // 3. Loop and Initialize
-        for slot in destination.iter_mut().take(count) {
-            let item = Self::read_from_shard(reader, children)?;
-            slot.write(item);
+        let mut filled = FilledPrefix::new(destination);
+        for _ in 0..count {
+            filled.push(Self::read_from_shard(reader, children)?);
         }
+        filled.keep();
 
         Ok(count)
     }
 }
 
+/// The initialized prefix of a buffer being filled: dropped unless it is kept.
+struct FilledPrefix<'b, T> {
+    buffer: &'b mut [MaybeUninit<T>],
+    len: usize,
+}
+
+impl<'b, T> FilledPrefix<'b, T> {
+    fn new(buffer: &'b mut [MaybeUninit<T>]) -> Self {
+        Self { buffer, len: 0 }
+    }
+
+    fn push(&mut self, item: T) {
+        if let Some(slot) = self.buffer.get_mut(self.len) {
+            slot.write(item);
+            self.len += 1;
+        }
+    }
+
+    fn keep(mut self) {
+        self.len = 0;
+    }
+}
+
+impl<T> Drop for FilledPrefix<'_, T> {
+    fn drop(&mut self) {
+        #[allow(unsafe_code)]
+        for slot in self.buffer.iter_mut().take(self.len) {
+            // SAFETY: `push` initialized the first `len` slots.
+            unsafe { slot.assume_init_drop() };
+        }
+    }
+}
+
+/// The shards of a collection already decoded into its buffer: their items are dropped
+/// unless all shards succeed.
+struct DecodedShards<T> {
+    buffer_base_addr: usize,
+    ranges: Mutex<Vec<(usize, usize)>>,
+    _marker: PhantomData<T>,
+}
+
+impl<T> DecodedShards<T> {
+    fn add(&self, start: usize, len: usize) {
+        let mut ranges = self.ranges.lock().unwrap_or_else(|p| p.into_inner());
+        ranges.push((start, len));
+    }
+
+    fn keep(&mut self) {
+        let ranges = self.ranges.get_mut().unwrap_or_else(|p| p.into_inner());
+        ranges.clear();
+    }
+}
+
+impl<T> Drop for DecodedShards<T> {
+    fn drop(&mut self) {
+        let ranges = self.ranges.get_mut().unwrap_or_else(|p| p.into_inner());
+        for &mut (start, len) in ranges {
+            let base = self.buffer_base_addr as *mut T;
+            // SAFETY: `start..start + len` was initialized by a shard that succeeded.
+            #[allow(unsafe_code)]
+            unsafe {
+                ptr::drop_in_place(ptr::slice_from_raw_parts_mut(base.add(start), len));
+            }
+        }
+    }
+}
+
 macro_rules! impl_primitive_parcode_item {
     ($($t:ty),*) => {
         $(
@@ -485,11 +553,13 @@ macro_rules! impl_primitive_parcode_item {
                     }
 
                     // Default Primitive Loop
-                    for slot in destination.iter_mut().take(count) {
+                    let mut filled = FilledPrefix::new(destination);
+                    for _ in 0..count {
                         let item: Self = bincode::serde::decode_from_std_read(reader, bincode::config::standard())
                              .map_err(|e| ParcodeError::Serialization(e.to_string()))?;
-                        slot.write(item);
+                        filled.push(item);
                     }
+                    filled.keep();
                     Ok(count)
                 }
             }
@@ -1046,6 +1116,11 @@ impl<'a> ChunkNode<'a> {
         // `MaybeUninit` is not implicitly Sync, but since each thread writes to disjoint regions,
         // it is sound.
         let buffer_base_addr = result_buffer.as_mut_ptr() as usize;
+        let mut decoded = DecodedShards::<T> {
+            buffer_base_addr,
+            ranges: Mutex::new(Vec::new()),
+            _marker: PhantomData,
+        };
 
         #[cfg(all(feature = "parallel", not(target_arch = "wasm32")))]
         {
@@ -1057,7 +1132,9 @@ impl<'a> ChunkNode<'a> {
                         start_idx,
                         expected_count,
                         buffer_base_addr,
-                    )
+                    )?;
+                    decoded.add(start_idx, expected_count);
+                    Ok(())
                 },
             )?;
         }
@@ -1072,8 +1149,10 @@ impl<'a> ChunkNode<'a> {
                     expected_count,
                     buffer_base_addr,
                 )?;
+                decoded.add(start_idx, expected_count);
             }
         }
+        decoded.keep();
 
         unsafe {
             let mut manual = ManuallyDrop::new(result_buffer);
@@ -1108,6 +1187,11 @@ impl<'a> ChunkNode<'a> {
         let items_read = T::read_into_slice(&mut cursor, &mut child_iter, dest_slice)?;
 
         if items_read != expected_count {
+            #[allow(unsafe_code)]
+            dest_slice
+                .iter_mut()
+                .take(items_read)
+                .for_each(|slot| unsafe { slot.assume_init_drop() });
             return Err(ParcodeError::Format(format!(
                 "Shard {} items mismatch: expected {}, got {}",
                 shard_idx, expected_count, items_read
-- 
2.43.0


From 6c1c2f4a8d815c7baa3cd52113af9fc4277e50ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 13/19] fix: write only the local fields of map values in map
 shards

MapShardJob meant to write values shallowly, but called serialize_shallow
through a double reference, which resolves to the blanket &T impl and writes
the whole value with serde, chunkable fields included. Reading such a value
field by field gave garbage unless all local fields were declared first.
---
 src/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index bfec878..a56ab90 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -108,7 +108,8 @@ where
             bincode::serde::encode_into_std_write(k, &mut cursor, bincode::config::standard())
                 .map_err(|e| ParcodeError::Serialization(e.to_string()))?;
 
-            v.serialize_shallow(&mut cursor)?;
+            // Called on V itself: through `&V` it would serialize the chunkable fields too.
+            V::serialize_shallow(v, &mut cursor)?;
         }
 
         // 4. Assemble final buffer with proper alignment
-- 
2.43.0


From e61300209a5eee750075d2f1ef7db996e94f2801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 14/19] fix: resolving an index in a corrupt run table does not
 overflow

---
 src/reader.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ca4305e..67a9311 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1332,18 +1332,17 @@ impl<'a> ChunkNode<'a> {
 
     /// Maps a global item index to a specific (`shard_index`, `internal_index`).
     fn resolve_rle_index(&self, global_index: usize, runs: &[ShardRun]) -> Result<(usize, usize)> {
-        let mut current_base = 0;
+        let mut remaining = global_index;
         let mut shard_base = 0;
 
         for run in runs {
             let count = run.item_count as usize;
-            let total_run = count * run.repeat as usize;
+            let total_run = count.saturating_mul(run.repeat as usize);
 
-            if global_index < current_base + total_run {
-                let offset = global_index - current_base;
-                return Ok((shard_base + (offset / count), offset % count));
+            if remaining < total_run {
+                return Ok((shard_base + (remaining / count), remaining % count));
             }
-            current_base += total_run;
+            remaining -= total_run;
             shard_base += run.repeat as usize;
         }
         Err(ParcodeError::Format("Index out of bounds".into()))
-- 
2.43.0


From a19a7d76324cd52a127815ad6fbd9446b7fd6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:57 +0000
Subject: [PATCH 15/19] fix: a compressed chunk whose data ends early is an
 error, not a shorter value

---
 src/compression.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index fc04d45..21adc73 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -292,9 +292,8 @@ impl Compressor for Lz4Compressor {
 
     fn decompress<'a>(&self, data: &'a [u8]) -> Result<Cow<'a, [u8]>> {
         // An LZ4 block expands at most 255 times: do not trust (and allocate) more than that.
-        if let Some(size) = data.first_chunk::<4>().map(|b| u32::from_le_bytes(*b))
-            && u64::from(size) > 255 * data.len() as u64
-        {
+        let size = data.first_chunk::<4>().map_or(0, |b| u32::from_le_bytes(*b));
+        if u64::from(size) > 255 * data.len() as u64 {
             return Err(ParcodeError::Compression(format!(
                 "Declared size {size} is impossible for {} compressed bytes",
                 data.len()
@@ -302,6 +301,13 @@ impl Compressor for Lz4Compressor {
         }
         let vec = lz4_flex::decompress_size_prepended(data)
             .map_err(|e| ParcodeError::Compression(e.to_string()))?;
+        // A block that ends early is not an error to lz4_flex, but part of the data is missing.
+        if vec.len() as u64 != u64::from(size) {
+            return Err(ParcodeError::Compression(format!(
+                "Declared size {size}, but {} bytes decompressed",
+                vec.len()
+            )));
+        }
         Ok(Cow::Owned(vec))
     }
 
-- 
2.43.0


From 548f96a9a2d89ad91d5c90cba9bb68af67719ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:40 +0000
Subject: [PATCH 16/19] fix: the inspector takes only complete, consistent
 headers for vector containers

---
 src/inspector.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 788934b..f1ca2d8 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -135,28 +135,34 @@ impl ParcodeInspector {
         if payload.len() >= 8 {
             #[derive(Deserialize)]
             struct ShardRun {
-                _item_count: u32,
+                item_count: u32,
                 repeat: u32,
             }
 
-            if let Some(slice) = payload.get(8..) {
-                // We attempt to decode. If it fails, it's not a Vec header.
-                if let Ok((runs, _)) = bincode::serde::decode_from_slice::<Vec<ShardRun>, _>(
+            if let Some((header, slice)) = payload.split_first_chunk::<8>() {
+                let total_items = u64::from_le_bytes(*header);
+                // We attempt to decode. If it fails, leaves bytes over or does not add up, it's
+                // not a Vec header but the local data of some other node.
+                if let Ok((runs, used)) = bincode::serde::decode_from_slice::<Vec<ShardRun>, _>(
                     slice,
                     bincode::config::standard(),
                 ) {
-                    let total_items = if let Some(header_bytes) = payload.get(0..8) {
-                        u64::from_le_bytes(header_bytes.try_into().unwrap_or([0; 8]))
-                    } else {
-                        0
-                    };
-
-                    let distribution = format!(
-                        "Vec<{}> items across {} logical shards",
-                        total_items,
-                        runs.iter().map(|r| u64::from(r.repeat)).sum::<u64>()
-                    );
-                    return ("Vec Container".to_string(), Some(distribution));
+                    let shards = runs.iter().map(|r| u64::from(r.repeat)).sum::<u64>();
+                    let items = runs
+                        .iter()
+                        .map(|r| u128::from(r.item_count) * u128::from(r.repeat))
+                        .sum::<u128>();
+
+                    if used == slice.len()
+                        && shards == u64::from(node.child_count())
+                        && items == u128::from(total_items)
+                    {
+                        let distribution = format!(
+                            "Vec<{}> items across {} logical shards",
+                            total_items, shards
+                        );
+                        return ("Vec Container".to_string(), Some(distribution));
+                    }
                 }
             }
         }
-- 
2.43.0


From 6da7a419a147c1e9d9db95f2150df8073c5f3874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 17/19] fix: first and last of a collection that cannot be read
 report the error instead of None

---
 src/reader.rs | 18 ++++++++++--------
 src/rt.rs     |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 67a9311..b6e92a5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1202,15 +1202,17 @@ impl<'a> ChunkNode<'a> {
 
     // --- COLLECTION UTILITIES ---
 
-    /// Returns the logical number of items in this container.
+    /// Returns the logical number of items in this container (0 if it cannot be read).
     pub fn len(&self) -> u64 {
-        if let Ok(payload) = self.read_raw()
-            && payload.len() >= 8
-            && let Some(bytes) = payload.get(0..8).and_then(|s| s.try_into().ok())
-        {
-            return u64::from_le_bytes(bytes);
-        }
-        0
+        self.try_len().unwrap_or(0)
+    }
+
+    /// Like [`len`](Self::len), but reports a payload that cannot be read.
+    pub(crate) fn try_len(&self) -> Result<u64> {
+        let payload = self.read_raw()?;
+        Ok(payload
+            .first_chunk::<8>()
+            .map_or(0, |bytes| u64::from_le_bytes(*bytes)))
     }
 
     /// Checks if the container is empty.
diff --git a/src/rt.rs b/src/rt.rs
index bfdad5c..2c90464 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -189,7 +189,7 @@ where
 
     /// Returns the first item as a lazy mirror, or None if empty.
     pub fn first(&self) -> Result<Option<T::Lazy>> {
-        if self.is_empty() {
+        if self.node.try_len()? == 0 {
             Ok(None)
         } else {
             Ok(Some(self.get_lazy(0)?))
@@ -198,7 +198,7 @@ where
 
     /// Returns the last item as a lazy mirror, or None if empty.
     pub fn last(&self) -> Result<Option<T::Lazy>> {
-        let len = self.len();
+        let len = usize::try_from(self.node.try_len()?).unwrap_or(usize::MAX);
         if len == 0 {
             Ok(None)
         } else {
-- 
2.43.0


From 1278c068e67fd4300aaef12b85823b493744623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 18/19] fix: let derived structs have fields named like the
 generated code's variables

A field called children, node, reader, child_iter, child_node or _marker made the
generated readers or the lazy mirror fail to compile.
---
 parcode-derive/src/lib.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/parcode-derive/src/lib.rs b/parcode-derive/src/lib.rs
index 1ab4485..9d4a7ad 100644
--- a/parcode-derive/src/lib.rs
+++ b/parcode-derive/src/lib.rs
@@ -6,7 +6,8 @@
 //! Compatible with `syn 2.0`.
 
 use proc_macro::TokenStream;
-use quote::quote;
+use proc_macro2::Span;
+use quote::{quote, quote_spanned};
 use syn::{Attribute, Data, DeriveInput, LitStr, parse_macro_input};
 
 /// Derives `ParcodeVisitor`, `SerializationJob`, `ParcodeNative` and `ParcodeLazyRef`.
@@ -251,6 +252,9 @@ fn generate_serialization_job(
     }
 }
 
+// The readers below bind every field to a local variable of the field's own name. Their own
+// variables are spanned `mixed_site`, so that no field name can capture them.
+
 // --- Generator: ParcodeNative (Same as before) ---
 fn generate_native_reader(
     name: &syn::Ident,
@@ -260,7 +264,7 @@ fn generate_native_reader(
     let read_locals = locals.iter().map(|f| {
         let fname = &f.ident;
         let fty = &f.ty;
-        quote! {
+        quote_spanned! { Span::mixed_site() =>
             let #fname: #fty = parcode::internal::bincode::serde::decode_from_std_read(
                 &mut reader, parcode::internal::bincode::config::standard()
             ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
@@ -270,7 +274,7 @@ fn generate_native_reader(
     let read_remotes = remotes.iter().map(|f| {
         let fname = &f.ident;
         let fty = &f.ty;
-        quote! {
+        quote_spanned! { Span::mixed_site() =>
             let child_node = child_iter.next().ok_or_else(|| parcode::ParcodeError::Format(format!("Missing child for '{}'", stringify!(#fname))))?;
             let #fname: #fty = parcode::reader::ParcodeNative::from_node(&child_node)?;
         }
@@ -284,7 +288,7 @@ fn generate_native_reader(
         field_names.push(&f.ident);
     }
 
-    quote! {
+    quote_spanned! { Span::mixed_site() =>
         impl parcode::reader::ParcodeNative for #name {
             fn from_node(node: &parcode::reader::ChunkNode<'_>) -> parcode::Result<Self> {
                 let payload = node.read_raw()?;
@@ -308,7 +312,7 @@ fn generate_parcode_item(
     let read_locals = locals.iter().map(|f| {
         let fname = &f.ident;
         let fty = &f.ty;
-        quote! {
+        quote_spanned! { Span::mixed_site() =>
             let #fname: #fty = parcode::internal::bincode::serde::decode_from_std_read(
                 reader, parcode::internal::bincode::config::standard()
             ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
@@ -318,7 +322,7 @@ fn generate_parcode_item(
     let read_remotes = remotes.iter().map(|f| {
         let fname = &f.ident;
         let fty = &f.ty;
-        quote! {
+        quote_spanned! { Span::mixed_site() =>
             let child_node = children.next().ok_or_else(|| parcode::ParcodeError::Format(format!("Missing child for '{}'", stringify!(#fname))))?;
             let #fname: #fty = parcode::reader::ParcodeNative::from_node(&child_node)?;
         }
@@ -332,7 +336,7 @@ fn generate_parcode_item(
         field_names.push(&f.ident);
     }
 
-    quote! {
+    quote_spanned! { Span::mixed_site() =>
         impl parcode::reader::ParcodeItem for #name {
             fn read_from_shard(
                 reader: &mut std::io::Cursor<&[u8]>,
@@ -373,7 +377,7 @@ fn generate_lazy_mirror(
         let read_locals = locals.iter().map(|f| {
             let n = &f.ident;
             let t = &f.ty;
-            quote! {
+            quote_spanned! { Span::mixed_site() =>
                 let #n: #t = parcode::internal::bincode::serde::decode_from_std_read(
                     &mut reader, parcode::internal::bincode::config::standard()
                 ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
@@ -383,7 +387,7 @@ fn generate_lazy_mirror(
         let assign_remotes = remotes.iter().map(|f| {
             let n = &f.ident;
             let t = &f.ty;
-            quote! {
+            quote_spanned! { Span::mixed_site() =>
                 let child_node = child_iter.next().ok_or_else(|| parcode::ParcodeError::Format(format!("Missing child node for field '{}'", stringify!(#n))))?;
                 let #n = <#t as parcode::rt::ParcodeLazyRef<'a>>::create_lazy(child_node)?;
             }
@@ -394,23 +398,23 @@ fn generate_lazy_mirror(
             .map(|f| &f.ident)
             .chain(remotes.iter().map(|f| &f.ident));
 
-        quote! {
+        quote_spanned! { Span::mixed_site() =>
             #(#read_locals)*
             #(#assign_remotes)*
 
             Ok(#lazy_name {
                 #(#field_names,)*
-                _marker: std::marker::PhantomData,
+                __parcode_marker: std::marker::PhantomData,
             })
         }
     };
 
-    quote! {
+    quote_spanned! { Span::mixed_site() =>
         #[derive(Debug)]
         #[allow(missing_docs)]
         pub struct #lazy_name<'a> {
             #(#lazy_fields_def,)*
-            _marker: std::marker::PhantomData<&'a ()>,
+            __parcode_marker: std::marker::PhantomData<&'a ()>,
         }
 
         impl<'a> parcode::rt::ParcodeLazyRef<'a> for #name {
-- 
2.43.0


From 7274358940a22da35133fb63583e312a2e5e3c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:47 +0000
Subject: [PATCH 19/19] fix: store vectors of references like vectors of what
 they refer to

References forwarded visit and create_job only: as items of a vector they
were written with all of their fields inline and without the chunks of their
remote fields, which no read of the vector accepts.
---
 src/visitor_impls.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/visitor_impls.rs b/src/visitor_impls.rs
index 02eb58a..82972c2 100644
--- a/src/visitor_impls.rs
+++ b/src/visitor_impls.rs
@@ -440,7 +440,7 @@ where
 
 impl<T> ParcodeVisitor for &T
 where
-    T: ParcodeVisitor,
+    T: ParcodeVisitor + Serialize,
 {
     fn visit<'a>(
         &'a self,
@@ -457,6 +457,33 @@ where
     ) -> Box<dyn SerializationJob<'a> + 'a> {
         (**self).create_job(config_override)
     }
+
+    // As items of a vector, references are stored the way what they refer to would be.
+
+    fn serialize_shallow<W: std::io::Write>(&self, writer: &mut W) -> Result<()> {
+        (**self).serialize_shallow(writer)
+    }
+
+    fn serialize_slice<W: std::io::Write>(slice: &[Self], writer: &mut W) -> Result<()> {
+        bincode::serde::encode_into_std_write(
+            slice.len() as u64,
+            writer,
+            bincode::config::standard(),
+        )
+        .map_err(|e| ParcodeError::Serialization(e.to_string()))?;
+        slice
+            .iter()
+            .try_for_each(|item| T::serialize_shallow(item, writer))
+    }
+
+    fn visit_inlined<'a>(
+        &'a self,
+        graph: &mut TaskGraph<'a>,
+        parent_id: ChunkId,
+        config_override: Option<JobConfig>,
+    ) {
+        (**self).visit_inlined(graph, parent_id, config_override);
+    }
 }
 
 /// PLACEHOLDER
-- 
2.43.0

