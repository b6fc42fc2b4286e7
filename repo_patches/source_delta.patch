From 73f6f589a14617b68a4cad8055e36e50ffaceec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 1/9] fix: accept ICC profiles up to the documented 255 chunks

---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..de86b8f 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From d3087fe49fcdda8cb5dfe652bb5857c60263e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 2/9] fix: limit custom quantization values to the 8 bits that
 are written

---
 src/quantization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..37007cd 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,7 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From 6e3b5ae8031f09d9c35d0c5d729dfe6cd577b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 3/9] fix: never write an empty AC band when many progressive
 scans are requested

---
 src/encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index de86b8f..80e4c5e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -892,15 +892,15 @@ impl<W: JfifWrite> Encoder<W> {
         // Phase 2: AC scans
         let scans = scans as usize - 1;
 
-        let values_per_scan = 64 / scans;
+        let values_per_scan = 63 / scans;
 
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
+            let start = 1 + scan * values_per_scan;
             let end = if scan == scans - 1 {
                 // ensure last scan is always transfers the remaining coefficients
                 64
             } else {
-                (scan + 1) * values_per_scan
+                start + values_per_scan
             };
 
             for (i, component) in self.components.iter().enumerate() {
@@ -1090,15 +1090,15 @@ impl<W: JfifWrite> Encoder<W> {
                     if let Some(scans) = self.progressive_scans {
                         let scans = scans as usize - 1;
 
-                        let values_per_scan = 64 / scans;
+                        let values_per_scan = 63 / scans;
 
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
+                            let start = 1 + scan * values_per_scan;
                             let end = if scan == scans - 1 {
                                 // Due to rounding we might need to transfer more than values_per_scan values in the last scan
                                 64
                             } else {
-                                (scan + 1) * values_per_scan
+                                start + values_per_scan
                             };
 
                             debug_assert!(!blocks[i].is_empty());
-- 
2.43.0


From 6afd3d582298076d6930729a0e5e6603309dd4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 4/9] fix: use 16-bit rounding constants in the AVX2 forward
 DCT

PW_DESCALE_P2X filled 16-bit lanes with a 32-bit constant, so every second
lane was not rounded and the output differed from the portable transform.
---
 src/avx2/fdct.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..131ffd7 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -188,7 +188,15 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
+        _mm256_set_epi16(
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
-- 
2.43.0


From 403125490b55e705c9d8e1ecc34972c67d73aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 5/9] fix: restart DC prediction at restart markers when
 optimizing Huffman tables

The statistics pass ignored restart markers, so the tables could lack the DC
symbols that are emitted after a restart.
---
 src/encoder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 80e4c5e..b8ae80a 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1056,6 +1056,8 @@ impl<W: JfifWrite> Encoder<W> {
 
         let max_tables = self.components.len().min(2) as u8;
 
+        let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
+
         for table in 0..max_tables {
             let mut dc_freq = [0u32; 257];
             dc_freq[256] = 1;
@@ -1073,7 +1075,12 @@ impl<W: JfifWrite> Encoder<W> {
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    for (n, block) in blocks[i].iter().enumerate() {
+                        // DC prediction restarts after each restart marker
+                        if restart_interval > 0 && n % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 35bd6d6a4888d403bd783ec603d5058add29ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 6/9] fix: allow code sizes above 32 before limiting optimized
 Huffman codes

A frequency distribution close to the Fibonacci numbers over more than 32
symbols indexed past the end of the size table.
---
 src/huffman.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..b19fb5f 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,8 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // A code can be as long as the number of symbols minus one
+        let mut bits = [0u8; 257];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +168,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = 256;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +198,7 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        for i in 1..=256 {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From 19dad24a057fd1159eacf78b612cbc89a1108f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 7/9] fix: count Huffman symbols in 64 bits

The largest images have more than 2^32 coefficients per table, which
overflowed the counters.
---
 src/encoder.rs | 4 ++--
 src/huffman.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index b8ae80a..636da38 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1059,9 +1059,9 @@ impl<W: JfifWrite> Encoder<W> {
         let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
 
         for table in 0..max_tables {
-            let mut dc_freq = [0u32; 257];
+            let mut dc_freq = [0u64; 257];
             dc_freq[256] = 1;
-            let mut ac_freq = [0u32; 257];
+            let mut ac_freq = [0u64; 257];
             ac_freq[256] = 1;
 
             let mut had_ac = false;
diff --git a/src/huffman.rs b/src/huffman.rs
index b19fb5f..967d4ba 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -96,7 +96,7 @@ impl HuffmanTable {
 
     /// Generates an optimized huffman table as described in Section K.2
     #[allow(clippy::needless_range_loop)]
-    pub fn new_optimized(mut freq: [u32; 257]) -> HuffmanTable {
+    pub fn new_optimized(mut freq: [u64; 257]) -> HuffmanTable {
         let mut others = [-1i32; 257];
         let mut codesize = [0usize; 257];
 
@@ -104,7 +104,7 @@ impl HuffmanTable {
         // Figure K.1
         loop {
             let mut v1 = None;
-            let mut v1_min = u32::MAX;
+            let mut v1_min = u64::MAX;
 
             // Find the largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
@@ -120,7 +120,7 @@ impl HuffmanTable {
             };
 
             let mut v2 = None;
-            let mut v2_min = u32::MAX;
+            let mut v2_min = u64::MAX;
 
             // Find the next largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
-- 
2.43.0


From 4eb737d082baaf9daaa05d6a308d38e73dd9bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 8/9] fix: flush the writer before reporting success

Bytes still held by a buffered writer, such as the one created by new_file,
were written when it was dropped, where an error is lost.
---
 src/encoder.rs |  1 +
 src/writer.rs  | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/encoder.rs b/src/encoder.rs
index 636da38..e82217b 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -528,6 +528,7 @@ impl<W: JfifWrite> Encoder<W> {
         }
 
         self.writer.write_marker(Marker::EOI)?;
+        self.writer.flush()?;
 
         Ok(())
     }
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..e985464 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,14 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Passes on all buffered data. Called once after the last byte has been written.
+    /// # Errors
+    ///
+    /// Return an error if the data can't be written
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +53,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        (**self).flush()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +74,12 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    #[inline(always)]
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        self.flush()?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -94,6 +112,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(&value.to_be_bytes())
     }
 
+    pub fn flush(&mut self) -> Result<(), EncodingError> {
+        self.w.flush()
+    }
+
     pub fn finalize_bit_buffer(&mut self) -> Result<(), EncodingError> {
         self.write_bits(0x7F, 7)?;
         self.flush_bit_buffer()?;
-- 
2.43.0


From b1408f1e9679268014acfea4e396b2662df69a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 9/9] fix: quantize to the nearest multiple

The 15 bit reciprocal was off by up to one part in 700, so that large
coefficients were rounded to a multiple up to two thirds of a step away.
---
 src/quantization.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 37007cd..c2f2411 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -182,28 +182,18 @@ static DEFAULT_CHROMA_TABLES: [[u16; 64]; 9] = [
     ],
 ];
 
-const SHIFT: u32 = 2 * 8 - 1;
+const SHIFT: u32 = 19;
 
+/// Returns the rounded up reciprocal of an eighth of the divisor and the rounding offset
+///
+/// `((v + offset) / 8 * reciprocal) >> SHIFT` is the exact rounded quotient for all values produced by the fdct
 fn compute_reciprocal(divisor: u32) -> (i32, i32) {
-    if divisor <= 1 {
-        return (1, 0);
-    }
-
-    let mut reciprocals = (1 << SHIFT) / divisor;
-    let fractional = (1 << SHIFT) % divisor;
-
-    // Correction for rounding errors in division
-    let mut correction = divisor / 2;
+    let step = divisor / 8;
 
-    if fractional != 0 {
-        if fractional <= correction {
-            correction += 1;
-        } else {
-            reciprocals += 1;
-        }
-    }
+    let reciprocal = ((1u32 << SHIFT) + step - 1) / step;
+    let offset = divisor / 2;
 
-    (reciprocals as i32, correction as i32)
+    (reciprocal as i32, offset as i32)
 }
 
 pub struct QuantizationTable {
@@ -296,8 +286,8 @@ impl QuantizationTable {
 
         let abs_value = value.abs();
 
-        let mut product = (abs_value + corrections) * reciprocal;
-        product >>= SHIFT;
+        let eighth = (abs_value + corrections) as u32 / 8;
+        let mut product = ((eighth * reciprocal as u32) >> SHIFT) as i32;
 
         if value != abs_value {
             product *= -1;
-- 
2.43.0

