From 8e04155298653d35559caec8c949392fa120fafa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 01/18] fix: keep the last chunk in bytes_from_u32_slice when
 the chunk length divides the total

A remainder of zero dropped all the bits of the last chunk, so that elements
read back too short whenever plaintext_bits divides the element size.
---
 src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0d389d5..0e09e5d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -230,7 +230,11 @@ pub mod format {
     entry_bit_len: usize,
     total_bit_len: usize,
   ) -> Vec<u8> {
-    let remainder = total_bit_len % entry_bit_len;
+    // The last chunk is a full one if the chunk length divides the total
+    let remainder = match total_bit_len % entry_bit_len {
+      0 => entry_bit_len,
+      r => r,
+    };
     let mut bits = Vec::with_capacity(entry_bit_len * v.len());
     for i in 0..v.len() {
       // We extract either the full amount of bits, or the remainder from
-- 
2.43.0


From de43d7b1396d393e83a8243c3ec41c8980741cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 02/18] fix: do not fail index queries whose masked coordinate
 wraps

The masked coordinate is uniform modulo 2^32, so that adding the rounding
factor wraps with probability 2^-plaintext_bits. generate_query then failed
and burnt the query parameters; the arithmetic is modular, as it is for
keyword queries.
---
 src/api.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 4fc5465..6a159f4 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,9 +9,7 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{
-  ErrorOverflownAdd, ErrorQueryParamsReused, ResultBoxedError,
-};
+use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -284,12 +282,8 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
     lhs.clone_from(&self.lhs.clone());
-    let (result, check) = lhs[row_index].overflowing_add(query_indicator);
-    if !check {
-      lhs[row_index] = result;
-    } else {
-      return Err(Box::new(ErrorOverflownAdd {}));
-    }
+    // All arithmetic is modulo 2^32: the masked coordinate may well wrap
+    lhs[row_index] = lhs[row_index].wrapping_add(query_indicator);
     Ok(Query(lhs))
   }
 
-- 
2.43.0


From 4fee86f46de5c4fecdcbddef149152806074b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/18] fix: draw another seed when a keyword filter cannot be
 constructed

Some seeds (1 to 8 % of them) admit no filter. The construction tried the
same seed 100,000 times, and the keyword database then panicked.
---
 bff-modp/src/bfusep32.rs |  6 ++++--
 src/db/kv.rs             | 40 ++++++++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index e9351ab..1fad363 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -74,17 +74,19 @@ impl Filter<u64> for BinaryFuseP32 {
 
 impl BinaryFuseP32 {
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a slice), `data`, `ptxt_mod`
+    ///
+    /// Construction is a function of the `seed`: when it fails, it has to be tried with another one.
     pub fn from_slice(seed: [u8; 32], keys: &[[u64; 4]], data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
         if data.len() != keys.len() {
             return Err("The data should correspond to the number of keys");
         }
-        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 1)
     }
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
         let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 1)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 6badfc3..c0dc186 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -32,6 +32,9 @@ impl KeyValue {
   }
 }
 
+// The number of seeds to try before giving up on constructing the filters
+const MAX_FILTER_SEEDS: usize = 100;
+
 #[derive(Clone, Debug, Serialize, Deserialize)]
 struct StorageFilters {
   filters: Vec<BinaryFuseP32>,
@@ -49,20 +52,29 @@ impl StorageFilters {
   ) -> ResultBoxedError<StorageFilters> {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
     let mut seed = [0u8; 32];
-    OsRng.fill_bytes(&mut seed);
-    let filters: Vec<BinaryFuseP32> = (0..row_width)
-      .map(|i| {
-        let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
-        BinaryFuseP32::from_slice(
-          seed,
-          &keys,
-          &column,
-          i as u64,
-          2u64.pow(plaintext_bits as u32),
-        )
-        .unwrap()
-      })
-      .collect();
+    let mut attempts = 0;
+    // No filter can be constructed for some seeds: replace those
+    let filters = loop {
+      OsRng.fill_bytes(&mut seed);
+      let filters: Result<Vec<BinaryFuseP32>, &'static str> = (0..row_width)
+        .map(|i| {
+          let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
+          BinaryFuseP32::from_slice(
+            seed,
+            &keys,
+            &column,
+            i as u64,
+            2u64.pow(plaintext_bits as u32),
+          )
+        })
+        .collect();
+      attempts += 1;
+      match filters {
+        Ok(filters) => break filters,
+        Err(e) if attempts == MAX_FILTER_SEEDS => return Err(e.into()),
+        Err(_) => continue,
+      }
+    };
     Ok(StorageFilters {
       filters: filters.clone(),
       seed,
-- 
2.43.0


From 39e5486a3f972692249cfebcdc18340eee3df833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 04/18] fix: make the hash of a 256-bit key depend on the order
 of its words

The hashes of the words were summed, so that two keys with the same words in
a different order collided and one was answered with the data of the other.
---
 bff-modp/src/prelude/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/mod.rs b/bff-modp/src/prelude/mod.rs
index a524363..6834172 100644
--- a/bff-modp/src/prelude/mod.rs
+++ b/bff-modp/src/prelude/mod.rs
@@ -58,7 +58,7 @@ pub fn mix256<'a>(key: &[u64; 4], seed: &[u8]) -> u64 {
             }
             mixed
         })
-        .fold(0, |acc, r| acc.overflowing_add(r).0)
+        .fold(0, |acc, r| murmur3::mix64(acc.overflowing_add(r).0))
 }
 
 /// Computes a fingerprint.
-- 
2.43.0


From 92190f37caed67bda20eaf4647a384ecd313c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 05/18] fix: check the number of data items in
 BinaryFuseP32::from_vec

from_slice reports an error, from_vec panicked.
---
 bff-modp/src/bfusep32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index 1fad363..8faedba 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -85,8 +85,7 @@ impl BinaryFuseP32 {
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
-        let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 1)
+        Self::from_slice(seed, &keys, data, label, ptxt_mod)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
-- 
2.43.0


From 029a0d29786112caaeb11b7c64d0a51348b29856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 06/18] fix: compute modulo the plaintext modulus in
 BinaryFuseP32

The sums wrapped modulo 2^32 before they were reduced, which loses the data
for every modulus that does not divide 2^32, and a modulus of 2^32 itself
became a division by zero.
---
 bff-modp/src/bfusep32.rs       |  2 +-
 bff-modp/src/prelude/bfusep.rs | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index 8faedba..063d567 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -95,7 +95,7 @@ impl BinaryFuseP32 {
 
     /// Returns the `fingerprints`, of the filter, but modulo the plaintetx modulus
     pub fn get_fingerprints_mod(&self) -> Vec<u32> {
-        self.fingerprints.into_iter().map(|f| f % (self.ptxt_mod as u32)).collect()
+        self.fingerprints.into_iter().map(|f| (*f as u64 % self.ptxt_mod) as u32).collect()
     }
 
     /// Static function that retrieves the hash function evaluations for a given storage filter
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 0b85325..5efc482 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -206,12 +206,13 @@ macro_rules! bfusep_from_impl(
 		            h012[2] = index3;
 		            h012[3] = h012[0];
 		            h012[4] = h012[1];
-		        let entry =
-                (data % ($ptxt_mod as u32))
-                .wrapping_sub(fingerprints[h012[found + 1] as usize])
-                .wrapping_sub(fingerprints[h012[found + 2] as usize]) % ($ptxt_mod as u32);
-                let mask = (mix(hash, $label) % $ptxt_mod) as u32;
-                fingerprints[h012[found] as usize] = entry.wrapping_sub(mask) % ($ptxt_mod as u32);
+                // Everything to subtract is reduced first, to stay clear of wrapping modulo 2^32
+                let mask = mix(hash, $label) % $ptxt_mod;
+                let sum = fingerprints[h012[found + 1] as usize] as u64
+                    + fingerprints[h012[found + 2] as usize] as u64
+                    + mask;
+                fingerprints[h012[found] as usize] =
+                    ((*data as u64 % $ptxt_mod + $ptxt_mod - sum % $ptxt_mod) % $ptxt_mod) as u32;
             }
 
             Ok(Self {
@@ -242,9 +243,11 @@ macro_rules! bfusep_retrieve_impl(
             };
             let hash = mix256($key, &$self.seed);
             let (h0, h1, h2) = hash_of_hash(hash, $self.segment_length, $self.segment_length_mask, $self.segment_count_length);
-            let data = $self.fingerprints[h0 as usize].wrapping_add($self.fingerprints[h1 as usize]).wrapping_add($self.fingerprints[h2 as usize]);
-            let mask = (mix(hash, $label) % $self.ptxt_mod) as u32;
-            data.wrapping_add(mask) % ($self.ptxt_mod as u32)
+            let data = $self.fingerprints[h0 as usize] as u64
+                + $self.fingerprints[h1 as usize] as u64
+                + $self.fingerprints[h2 as usize] as u64;
+            let mask = mix(hash, $label) % $self.ptxt_mod;
+            ((data + mask) % $self.ptxt_mod) as u32
         }
     };
 );
-- 
2.43.0


From b5a850df1387fca3f4abbcf5fa1af4dfe126dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 07/18] fix: report an error for key sets too small for a Fuse
 filter

With fewer than about 90 keys the segments were empty and the construction
(or, for no keys at all, the lookup) indexed out of bounds.
---
 bff-modp/src/prelude/fuse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bff-modp/src/prelude/fuse.rs b/bff-modp/src/prelude/fuse.rs
index fcaf571..1a63114 100644
--- a/bff-modp/src/prelude/fuse.rs
+++ b/bff-modp/src/prelude/fuse.rs
@@ -90,6 +90,9 @@ macro_rules! fuse_from_impl(
             let capacity = (FUSE_OVERHEAD * num_keys as f64) as usize;
             let capacity = capacity / SLOTS * SLOTS;
             let segment_length = capacity / SLOTS;
+            if segment_length == 0 {
+                return Err("Failed to construct fuse filter.");
+            }
 
             #[allow(non_snake_case)]
             let mut H: Box<[HSet]> = make_block!(with capacity sets);
-- 
2.43.0


From d6b02502cbfb1aa1ed52bdb72205d77203d75fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 08/18] fix: write the whole parameters to file, so that they
 can be loaded

Only the seed and the right-hand side were written, under other names than
IndexParams::load expects, so that loading a written file always failed.
---
 src/db/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 0a76fbc..abac3f3 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -4,7 +4,6 @@ mod kv;
 use std::fs;
 
 use serde::{Deserialize, Serialize};
-use serde_json::json;
 
 use crate::errors::ResultBoxedError;
 use crate::utils::matrices::*;
@@ -48,12 +47,11 @@ pub trait BaseParams {
       .collect()
   }
   /// Writes the params struct as JSON to file
-  fn write_to_file(&self, path: &str) -> ResultBoxedError<()> {
-    let json = json!({
-      "lhs_seed": self.get_public_seed(),
-      "rhs": self.get_rhs(),
-    });
-    Ok(serde_json::to_writer(&fs::File::create(path)?, &json)?)
+  fn write_to_file(&self, path: &str) -> ResultBoxedError<()>
+  where
+    Self: Serialize,
+  {
+    Ok(serde_json::to_writer(&fs::File::create(path)?, self)?)
   }
   /// Computes s*(A*DB) using the RHS of the public parameters
   fn mult_right(&self, s: &[u32]) -> ResultBoxedError<Vec<u32>> {
-- 
2.43.0


From 3135201f62a2cb5b101a8c97cf224d997eff1dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 09/18] fix: report missing or malformed database files as
 errors

from_json_file returns a Result but panicked.
---
 src/api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 6a159f4..94d0209 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -34,8 +34,8 @@ impl Shard {
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
     let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let elements: Vec<String> = serde_json::from_str(&file_contents).unwrap();
+      fs::read_to_string(file_path)?.parse()?;
+    let elements: Vec<String> = serde_json::from_str(&file_contents)?;
     Shard::from_base64_strings(&elements, lwe_dim, m, elem_size, plaintext_bits)
   }
 
@@ -152,8 +152,8 @@ impl KVShard {
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
     let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents).unwrap();
+      fs::read_to_string(file_path)?.parse()?;
+    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents)?;
     let keys: Vec<String> = enc_kvs.iter().map(|e| e.key.clone()).collect();
     let values: Vec<String> = enc_kvs.iter().map(|e| e.value.clone()).collect();
     KVShard::from_base64_strings(
-- 
2.43.0


From 7858b53df3d1cd0740b39c3ccff2d7bad0dd1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 10/18] fix: refuse queries of the wrong length with an error

A client could crash the server with a query that is too short or too long.
---
 src/api.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/api.rs b/src/api.rs
index 94d0209..42ae426 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,7 +9,9 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
+use crate::errors::{
+  ErrorQueryParamsReused, ErrorUnexpectedInputSize, ResultBoxedError,
+};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -68,6 +70,7 @@ impl Shard {
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
     let q = q.as_slice();
+    check_query_len(q, self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q, i))
@@ -214,6 +217,7 @@ impl KVShard {
   /// Produces a serialized response (base64-encoded) to a serialized
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
+    check_query_len(q.as_slice(), self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q.as_slice(), i))
@@ -440,6 +444,21 @@ pub fn generate_kv_query_params(
   QueryParams::<KVDatabase, FilterParams>::new(cp, params)
 }
 
+/// Checks that a query vector has one coordinate per row of the DB matrix
+fn check_query_len(
+  q: &[u32],
+  height: usize,
+) -> Result<(), ErrorUnexpectedInputSize> {
+  if q.len() != height {
+    return Err(ErrorUnexpectedInputSize::new(format!(
+      "query length: {}, matrix height: {}",
+      q.len(),
+      height
+    )));
+  }
+  Ok(())
+}
+
 /// The `Query` struct holds the necessary information encoded in
 /// a client PIR query to the server DB for a particular `row_index`. It
 /// provides methods for parsing server responses.
-- 
2.43.0


From 4d2959ec0a70ff8accf8cf8a80c2a486374ed862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 11/18] fix: refuse to query a row outside of the database with
 an error

---
 src/api.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api.rs b/src/api.rs
index 42ae426..bd8dbc7 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -282,6 +282,13 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     if self.used {
       return Err(Box::new(ErrorQueryParamsReused {}));
     }
+    if row_index >= self.lhs.len() {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "row index: {}, number of rows: {}",
+        row_index,
+        self.lhs.len()
+      ))));
+    }
     self.used = true;
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
-- 
2.43.0


From 45a822d5f861b6a26e18eda632b7e9de634f2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 12/18] fix: report missing or too short database contents as
 errors

Fewer elements than rows, elements shorter than the element size and an empty
list of key-value pairs made the fallible constructors panic.
---
 src/db/index.rs | 19 +++++++++++++++++--
 src/db/kv.rs    | 17 +++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index e20a4c1..fd49eb3 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -176,10 +176,18 @@ fn construct_row(
   element: &str,
   plaintext_bits: usize,
   row_width: usize,
+  elem_size: usize,
 ) -> ResultBoxedError<Vec<u32>> {
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
+  if bits.len() < elem_size {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element bits: {}, configured element size: {}",
+      bits.len(),
+      elem_size
+    ))));
+  }
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
@@ -198,9 +206,16 @@ fn construct_rows(
   plaintext_bits: usize,
 ) -> ResultBoxedError<Vec<Vec<u32>>> {
   let row_width = IndexDatabase::get_row_width(elem_size, plaintext_bits);
+  if elements.len() < m {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "number of elements: {}, expected: {}",
+      elements.len(),
+      m
+    ))));
+  }
 
   let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {
-    construct_row(&elements[i], plaintext_bits, row_width)
+    construct_row(&elements[i], plaintext_bits, row_width, elem_size)
   });
 
   result.collect()
diff --git a/src/db/kv.rs b/src/db/kv.rs
index c0dc186..146a9be 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -6,7 +6,7 @@ use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
 
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -136,7 +136,13 @@ impl KVDatabase {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let row_width = kvs[0].value.len();
+    let row_width = KVDatabase::get_row_width(elem_size, plaintext_bits);
+    if kvs.is_empty() || kvs.iter().any(|kv| kv.value.len() < row_width) {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "expected at least one key-value pair, and {} chunks in every value",
+        row_width
+      ))));
+    }
     let filters = StorageFilters::from_kvs(kvs, row_width, plaintext_bits)?;
 
     Ok(Self {
@@ -263,6 +269,13 @@ fn construct_row(
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
+  if bits.len() < elem_size {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element bits: {}, configured element size: {}",
+      bits.len(),
+      elem_size
+    ))));
+  }
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
-- 
2.43.0


From d0563148174557dbcab38d9e6160c6e7d9baccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 13/18] fix: do not wrap around on a large exponent of two

In release builds an exponent from 32 became a database of no elements.
---
 pi-rs-cli-utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pi-rs-cli-utils/src/lib.rs b/pi-rs-cli-utils/src/lib.rs
index 8ac37cc..49791eb 100644
--- a/pi-rs-cli-utils/src/lib.rs
+++ b/pi-rs-cli-utils/src/lib.rs
@@ -92,7 +92,7 @@ pub fn parse_from_env() -> CLIFlags {
 
 pub fn parse_exp_to_usize(v: String) -> usize {
   let exp: u32 = v.parse().unwrap();
-  let res = 2_u32.pow(exp) as usize;
+  let res = 2_usize.checked_pow(exp).unwrap();
   res
 }
 
-- 
2.43.0


From 78e7dc1635ca1a941eff94b91b542c29024e2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 14/18] fix: generate database elements of the size that the
 Makefile configures

The Makefile passes DB_ELEMENT_SIZE_BITS, which was ignored: the elements
came out eight times too long.
---
 data/generate_db.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/data/generate_db.py b/data/generate_db.py
index f1aba8b..2c08dee 100644
--- a/data/generate_db.py
+++ b/data/generate_db.py
@@ -13,16 +13,21 @@ def get_all_ones(length):
 if __name__ == "__main__":
   all_ones = os.getenv("DB_ALL_ONES")
   number_of_entries_exp = os.getenv("DB_NUM_ENTRIES_EXP") or 16
-  element_size = os.getenv("DB_ELEMENT_SIZE_EXP") or 13
+  element_size_exp = os.getenv("DB_ELEMENT_SIZE_EXP") or 13
+  element_size_bits = os.getenv("DB_ELEMENT_SIZE_BITS")
+  if element_size_bits:
+    element_size = (int(element_size_bits) + 7) // 8
+  else:
+    element_size = pow(2, int(element_size_exp))
   v = int(number_of_entries_exp)
   num_entries = pow(2, v)
   out = []
   if all_ones == "0":
     for i in range(num_entries):
-      out.append(get_random(pow(2, int(element_size))))
+      out.append(get_random(element_size))
   else:
     for i in range(num_entries):
-      out.append(get_all_ones(pow(2, int(element_size))))
+      out.append(get_all_ones(element_size))
   file_name = os.getenv("DB_OUTPUT_PATH")
   if not file_name:
     file_name = "rand_db.json"
-- 
2.43.0


From 9a49ddf06b6025278d2197631e6dcd3718e38485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 15/18] fix: leave enough room in storage filters of every size

For a few ranges of sizes (up to 11521 pairs, for instance) rounding to whole
segments left so little room that more than 99 % of all seeds failed, and
building a keyword server reported an error about every second time.
---
 bff-modp/src/prelude/bfusep.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 5efc482..16d565a 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -44,6 +44,13 @@ macro_rules! bfusep_from_impl(
                         proposed - (arity - 1)
                     }
                 };
+                // Rounding to whole segments can leave so little room that hardly any seed
+                // works; such sizes take one more segment.
+                let segment_count = if size >= 1000 && size as f64 > 0.9 * (segment_count * segment_length) as f64 {
+                    segment_count + 1
+                } else {
+                    segment_count
+                };
                 let array_len: u32 = (segment_count + arity - 1) * segment_length;
                 (array_len as usize, segment_count)
             };
-- 
2.43.0


From 68abbc72f38cc4a61761b52b857b7140f05fe04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 16/18] fix: count any number of keys at one place of a binary
 fuse filter

---
 bff-modp/src/prelude/bfuse.rs  | 9 +++++----
 bff-modp/src/prelude/bfusep.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/bff-modp/src/prelude/bfuse.rs b/bff-modp/src/prelude/bfuse.rs
index a2f2430..49fedca 100644
--- a/bff-modp/src/prelude/bfuse.rs
+++ b/bff-modp/src/prelude/bfuse.rs
@@ -106,7 +106,8 @@ macro_rules! bfuse_from_impl(
             let mut seed = splitmix64(&mut rng);
             let capacity = fingerprints.len();
             let mut alone: Box<[u32]> = make_block!(with capacity sets);
-            let mut t2count: Box<[u8]> = make_block!(with capacity sets);
+            // Wide enough for any number of keys in one place: wrapped counts cannot be peeled
+            let mut t2count: Box<[u32]> = make_block!(with capacity sets);
             let mut t2hash: Box<[u64]> = make_block!(with capacity sets);
             let mut reverse_h: Box<[u8]> = make_block!(with size sets);
             let size_plus_1: usize = size + 1;
@@ -194,7 +195,7 @@ macro_rules! bfuse_from_impl(
                     let index = alone[qsize] as usize;
                     if (t2count[index] >> 2) == 1 {
                         let hash = t2hash[index];
-                        let found: u8 = t2count[index] & 3;
+                        let found: u8 = (t2count[index] & 3) as u8;
                         reverse_h[stack_size] = found;
                         reverse_order[stack_size] = hash;
                         stack_size += 1;
@@ -212,7 +213,7 @@ macro_rules! bfuse_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index1] -= 4;
-                        t2count[other_index1] ^= mod3(found + 1);
+                        t2count[other_index1] ^= mod3(found + 1) as u32;
                         t2hash[other_index1] ^= hash;
 
                         let other_index2 = h012[(found + 2) as usize] as usize;
@@ -221,7 +222,7 @@ macro_rules! bfuse_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index2] -= 4;
-                        t2count[other_index2] ^= mod3(found + 2);
+                        t2count[other_index2] ^= mod3(found + 2) as u32;
                         t2hash[other_index2] ^= hash;
                     }
                 }
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 16d565a..9630840 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -60,7 +60,8 @@ macro_rules! bfusep_from_impl(
 
             let capacity = fingerprints.len();
             let mut alone: Box<[u32]> = make_block!(with capacity sets);
-            let mut t2count: Box<[u8]> = make_block!(with capacity sets);
+            // Wide enough for any number of keys in one place: wrapped counts cannot be peeled
+            let mut t2count: Box<[u32]> = make_block!(with capacity sets);
             let mut t2hash: Box<[u64]> = make_block!(with capacity sets);
             let mut reverse_h: Box<[u8]> = make_block!(with size sets);
             let size_plus_1: usize = size + 1;
@@ -150,7 +151,7 @@ macro_rules! bfusep_from_impl(
                     let index = alone[qsize] as usize;
                     if (t2count[index] >> 2) == 1 {
                         let hash = t2hash[index];
-                        let found: u8 = t2count[index] & 3;
+                        let found: u8 = (t2count[index] & 3) as u8;
                         reverse_h[stack_size] = found;
                         reverse_order[stack_size] = hash;
                         stack_size += 1;
@@ -168,7 +169,7 @@ macro_rules! bfusep_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index1] -= 4;
-                        t2count[other_index1] ^= mod3(found + 1);
+                        t2count[other_index1] ^= mod3(found + 1) as u32;
                         t2hash[other_index1] ^= hash;
 
                         let other_index2 = h012[(found + 2) as usize] as usize;
@@ -177,7 +178,7 @@ macro_rules! bfusep_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index2] -= 4;
-                        t2count[other_index2] ^= mod3(found + 2);
+                        t2count[other_index2] ^= mod3(found + 2) as u32;
                         t2hash[other_index2] ^= hash;
                     }
                 }
-- 
2.43.0


From 4b647cd915546d0da332743922c2a19531071e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 17/18] fix: refuse a common matrix of another height with an
 error

---
 src/api.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/api.rs b/src/api.rs
index bd8dbc7..c5e6ce9 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -262,6 +262,7 @@ pub struct QueryParams<DB, EP> {
 impl QueryParams<IndexDatabase, EmptyAuxParams> {
   /// Generates `QueryParams` for a `Database` that is not KV
   fn new(cp: &CommonParams, params: &IndexParams) -> ResultBoxedError<Self> {
+    check_common_params(cp, params)?;
     let s = random_ternary_vector(params.get_dim());
     Ok(Self {
       lhs: cp.mult_left(&s)?,
@@ -337,6 +338,7 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
 impl QueryParams<KVDatabase, FilterParams> {
   /// Generates `QueryParams` for a `Database` that is KV
   fn new(cp: &CommonParams, params: &KVParams) -> ResultBoxedError<Self> {
+    check_common_params(cp, params)?;
     let s = random_ternary_vector(params.get_dim());
     Ok(Self {
       lhs: cp.mult_left(&s)?,
@@ -451,6 +453,22 @@ pub fn generate_kv_query_params(
   QueryParams::<KVDatabase, FilterParams>::new(cp, params)
 }
 
+/// Checks that the common matrix has one row per row of the DB matrix
+fn check_common_params<T: BaseParams>(
+  cp: &CommonParams,
+  params: &T,
+) -> Result<(), ErrorUnexpectedInputSize> {
+  let height = cp.as_matrix().len();
+  if height != params.get_total_records() {
+    return Err(ErrorUnexpectedInputSize::new(format!(
+      "common matrix height: {}, total records: {}",
+      height,
+      params.get_total_records()
+    )));
+  }
+  Ok(())
+}
+
 /// Checks that a query vector has one coordinate per row of the DB matrix
 fn check_query_len(
   q: &[u32],
-- 
2.43.0


From 544b60094c5d9f54ff9dcba4d8b7d5f270640dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 18/18] fix: refuse a keyword response that is too short with
 an error

---
 src/api.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/api.rs b/src/api.rs
index c5e6ce9..13903d5 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -387,9 +387,19 @@ impl QueryParams<KVDatabase, FilterParams> {
     }
     let fp = self.extra_params.as_ref().unwrap();
 
+    let row_width =
+      KVDatabase::get_row_width(self.elem_size, self.plaintext_bits);
+    if resp.0.len() < row_width {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "response length: {}, row width: {}",
+        resp.0.len(),
+        row_width
+      ))));
+    }
+
     // perform division and rounding
     Ok(
-      (0..KVDatabase::get_row_width(self.elem_size, self.plaintext_bits))
+      (0..row_width)
         .map(|i| {
           let left = resp.0[i];
           let right = self.rhs[i];
-- 
2.43.0

