From 3d1c4edc01e3b4910bee17615eb1106f3c78d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 01/12] fix: make unset_nth_bit turn the bit off

Both bitsets built a zero mask when unsetting, so the bit stayed set and the
returned previous value was always true.
---
 poppy/src/bitset/array.rs | 8 ++++++--
 poppy/src/bitset/vec.rs   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/poppy/src/bitset/array.rs b/poppy/src/bitset/array.rs
index c5313d4..49191c1 100644
--- a/poppy/src/bitset/array.rs
+++ b/poppy/src/bitset/array.rs
@@ -13,9 +13,13 @@ impl<const N: usize> BitSet<N> {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index b3e7615..9471b84 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -53,9 +53,13 @@ impl VecBitSet {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
-- 
2.43.0


From 67ffd78403b4cdbab0afb2face2e9bcc3e6a4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 02/12] fix: clear the index cache together with the buckets

A cleared filter kept its index cache bits, so it differed from a new filter
with the same parameters and its cache stopped rejecting lookups.
---
 poppy/src/bloom/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 39fc238..2f387bc 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -350,6 +350,7 @@ impl BloomFilter {
     /// Clears out the bloom filter
     #[inline(always)]
     pub fn clear(&mut self) {
+        self.index_cache.clear();
         self.buckets.iter_mut().for_each(|bucket| bucket.clear());
         self.count = 0;
     }
-- 
2.43.0


From 8be49206478c906557184af015a849a11fdc3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 03/12] fix: report errors of the last buffered write when
 saving

The BufWriter was flushed on drop, which ignores errors, so saving returned Ok
although up to a buffer of data had not been written.
---
 poppy/src/bloom/v1.rs | 2 ++
 poppy/src/bloom/v2.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 146b93a..b2af8c0 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -229,6 +229,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // errors are lost if we let the buffer be flushed on drop
+        w.flush()?;
         Ok(())
     }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 2f387bc..003b84c 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -275,6 +275,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // errors are lost if we let the buffer be flushed on drop
+        w.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 962e77e466b95d284f2641d6f492da4e4886376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 04/12] fix: treat a filter holding more than its capacity as
 full

Merging can push the element count above the capacity. Such a filter reported
not being full, and the version 2 filter accepted new entries without limit.
---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b2af8c0..ee5af97 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -368,7 +368,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     #[inline(always)]
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 003b84c..d000011 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -389,7 +389,7 @@ impl BloomFilter {
             .get_mut(ibucket as usize)
             .expect("ibucket out of bound");
 
-        let reached_cap = self.count == self.capacity;
+        let reached_cap = self.count >= self.capacity;
 
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
@@ -551,7 +551,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     /// this function estimates the number of common elements between two bloom filters
-- 
2.43.0


From 4c7e5f117924e26c80474e5388b986c993b9bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 05/12] fix: find entries inserted in a v1 filter without bits

With a false positive probability close or equal to one the computed bit size
is zero. Insertion succeeds on such a filter but lookup always failed.
---
 poppy/src/bloom/v1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index ee5af97..b343f0a 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -306,7 +306,9 @@ impl BloomFilter {
     #[inline(always)]
     pub fn contains_bytes<S: AsRef<[u8]>>(&self, value: S) -> bool {
         if self.bitset.is_empty() {
-            return false;
+            // a filter created without bits matches every entry, because
+            // inserting into it needs no bit
+            return self.capacity > 0 && self.bit_size == 0;
         }
         for index in self.fingerprint.fingerprint(value) {
             if !self.get_nth_bit(index) {
-- 
2.43.0


From 2e0c0b900edd93b321fe44e78673bfd30e91a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 06/12] fix: compute the size of v1 filters from words instead
 of bits

size_in_u64 returned the number of bits, making size_in_bytes 64 times too big.
---
 poppy/src/bloom/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b343f0a..ae04173 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -347,7 +347,7 @@ impl BloomFilter {
 
     #[inline(always)]
     pub fn size_in_u64(&self) -> usize {
-        self.bit_size as usize
+        f64::ceil(self.bit_size as f64 / 64.0) as usize
     }
 
     #[inline(always)]
-- 
2.43.0


From b9213c6de2704c2217386f2656b92a875d5152c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 07/12] fix: support an automatic number of jobs in check

check -j 0 divided by zero although 0 is documented as automatic.
---
 poppy/src/bin/poppy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index b3c0412..4ea9a8f 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -367,7 +367,7 @@ fn main() -> Result<(), anyhow::Error> {
                 let mut handles = vec![];
                 let files = o.inputs.clone();
 
-                let batches = files.chunks(max(files.len() / args.jobs, 1));
+                let batches = files.chunks(max(files.len() / optimal_jobs(args.jobs), 1));
 
                 for batch in batches {
                     let shared = Arc::clone(&bf);
-- 
2.43.0


From 468d4a34f0c105c0b8458087bc538fb145b63ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 08/12] fix: report read errors while counting dataset lines

Lines which could not be read were counted as entries, and a dataset that keeps
failing, a directory for instance, was counted forever.
---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 4ea9a8f..e732a7b 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -202,7 +202,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
             let mut count = 0usize;
             for f in batch {
                 let of = File::open(f)?;
-                count += io::BufReader::new(of).lines().count();
+                for line in io::BufReader::new(of).lines() {
+                    line?;
+                    count += 1;
+                }
             }
             Ok::<_, anyhow::Error>(count)
         }));
-- 
2.43.0


From 971554662249e61d3948e92e8f8e4d4d424eabac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:41 +0000
Subject: [PATCH 09/12] fix: make check --silent print nothing with --verify
 too

---
 poppy/src/bin/poppy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index e732a7b..e1d506c 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -351,7 +351,7 @@ fn main() -> Result<(), anyhow::Error> {
                         let ok = bf.contains_bytes(&line);
 
                         if o.verify {
-                            if !ok {
+                            if !ok && !o.silent {
                                 println!("{line}: NOK")
                             }
                             continue;
@@ -389,7 +389,7 @@ fn main() -> Result<(), anyhow::Error> {
                                 let ok = bf.contains_bytes(&line);
 
                                 if o.verify {
-                                    if !ok {
+                                    if !ok && !o.silent {
                                         println!("{line}: NOK")
                                     }
                                     continue;
-- 
2.43.0


From 3522a4528674728fd518ffb6813202f363cd5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:11 +0000
Subject: [PATCH 10/12] fix: load v1 filters with an untrusted bit size safely

The whole bit array was allocated from the size found in the header, so a
corrupted file could abort the process. A header with no bits but a non-zero
number of hashes made insertion divide by zero.
---
 poppy/src/bloom/v1.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index ae04173..6443751 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -181,10 +181,11 @@ impl BloomFilter {
                 r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
                 vec![]
             } else {
-                let mut bitset = vec![0; u64_size as usize];
+                // the size is not trusted so we don't allocate in advance
+                let mut bitset = vec![];
                 // reading the bloom filter
-                for i in bitset.iter_mut() {
-                    *i = read_le_u64(r)?;
+                for _ in 0..u64_size {
+                    bitset.push(read_le_u64(r)?);
                 }
                 bitset
             }
@@ -260,6 +261,11 @@ impl BloomFilter {
             return Err(Error::TooManyEntries);
         }
 
+        // without bits there is nothing to set, whatever the number of hashes
+        if self.bit_size == 0 {
+            return Ok(false);
+        }
+
         for index in self.fingerprint.fingerprint(value) {
             let iblock = index / 64;
             let ibit = index % 64;
-- 
2.43.0


From bf7142bc9e3620bf29b819c3f1571e8e58632170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:11 +0000
Subject: [PATCH 11/12] fix: load v2 filters with untrusted sizes safely

Index cache and buckets were allocated from the sizes found in the header, so a
corrupted file could abort the process. The size to skip in a partial read could
overflow, and using a filter without buckets divided by zero.
---
 poppy/src/bitset/vec.rs |  6 ++++++
 poppy/src/bloom/v2.rs   | 26 ++++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index 9471b84..6eb37c5 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -6,6 +6,12 @@ pub(crate) fn byte_cap_from_bit_cap(bit_cap: usize) -> usize {
     ((bit_cap as f64) / 8.0).ceil() as usize
 }
 
+impl From<Vec<u8>> for VecBitSet {
+    fn from(bytes: Vec<u8>) -> Self {
+        Self(bytes)
+    }
+}
+
 impl VecBitSet {
     /// Creates a new bitset with a given capacity
     pub fn with_bit_capacity(capacity: usize) -> Self {
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index d000011..66c606a 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -208,9 +208,13 @@ impl BloomFilter {
                 r.seek_relative(cache_byte_size as i64)?;
                 VecBitSet::with_bit_capacity(0)
             } else {
-                let mut ic = VecBitSet::with_bit_capacity(cache_bit_size as usize);
-                r.read_exact(ic.as_mut_slice())?;
-                ic
+                // the size is not trusted so we don't allocate in advance
+                let mut bytes = vec![];
+                r.take(cache_byte_size).read_to_end(&mut bytes)?;
+                if (bytes.len() as u64) < cache_byte_size {
+                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                }
+                VecBitSet::from(bytes)
             }
         };
 
@@ -219,13 +223,19 @@ impl BloomFilter {
 
         let buckets = {
             if partial {
-                r.seek_relative((n_buckets * core::mem::size_of::<Bucket>()) as i64)?;
+                let size = n_buckets
+                    .checked_mul(core::mem::size_of::<Bucket>())
+                    .and_then(|s| i64::try_from(s).ok())
+                    .ok_or(io::Error::from(io::ErrorKind::InvalidData))?;
+                r.seek_relative(size)?;
                 vec![]
             } else {
-                let mut buckets = vec![Bucket::new(); n_buckets];
+                let mut buckets = vec![];
                 // we read all the buckets as byte buffers
-                for bucket in buckets.iter_mut().take(n_buckets) {
+                for _ in 0..n_buckets {
+                    let mut bucket = Bucket::new();
                     r.read_exact(bucket.as_mut_slice())?;
+                    buckets.push(bucket);
                 }
                 buckets
             }
@@ -369,7 +379,7 @@ impl BloomFilter {
 
         it.set_count(self.n_hash_buck);
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.buckets.is_empty() {
             return Err(Error::TooManyEntries);
         }
 
@@ -460,7 +470,7 @@ impl BloomFilter {
 
         it.set_count(self.n_hash_buck);
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.buckets.is_empty() {
             return Ok(false);
         }
 
-- 
2.43.0


From b28d38c9aad6a5f7f98ac2a426ad865a730c94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 12/12] fix: use the whole input in bench when the size limit
 is 0

The limit was converted from usize::MAX megabytes, which overflows.
---
 poppy/src/bin/poppy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index e1d506c..6a6006f 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -418,7 +418,7 @@ fn main() -> Result<(), anyhow::Error> {
             let mut dataset_size = 0usize;
             let mut queries_per_seconds = vec![];
             let limit = match o.size_mb {
-                0 => ByteSize::from_mb(usize::MAX),
+                0 => ByteSize::from_bytes(usize::MAX),
                 _ => ByteSize::from_mb(o.size_mb),
             };
 
-- 
2.43.0

