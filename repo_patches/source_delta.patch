From 9c6369f03ac3e6502bd560f127cc7f6951d724ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 01/12] fix: divide average-pool counts by the block area in
 floating point

Multiplying by the rounded reciprocal made a full block slightly less than 1
for some block dimensions (7, for instance), so approximate(7, 1.0) dropped full
blocks, and block_dimension * block_dimension overflowed u64 above 2^32.
---
 graphrox-rs/src/graph/standard.rs           | 4 ++--
 graphrox-rs/src/matrix/csr_square_matrix.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..70abd83 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,10 +467,10 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        let block_area = block_dimension as f64 * block_dimension as f64;
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
-        avg_pool_matrix.multiply_entries_by(block_multiplier);
+        avg_pool_matrix.divide_entries_by(block_area);
 
         avg_pool_matrix
     }
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..462ad2e 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -319,10 +319,10 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
 
 impl CsrSquareMatrix<f64> {
     #[inline]
-    pub(crate) fn multiply_entries_by(&mut self, multiplier: f64) {
+    pub(crate) fn divide_entries_by(&mut self, divisor: f64) {
         for row_table in self.edges_table.values_mut() {
             for entry in row_table.values_mut() {
-                *entry *= multiplier;
+                *entry /= divisor;
             }
         }
     }
-- 
2.43.0


From 41a4bbad5a96cb77f0c2d1f5e7b4a8b489588d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 02/12] fix: make set_entry overwrite a stored entry when the
 new value is zero

set_entry is documented to add or overwrite the entry; a zero left the old value
in place.
---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 graphrox-rs/src/matrix/csr_square_matrix.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 462ad2e..88f5178 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -366,6 +366,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From 8dd7b3ad956175b1d0912bba3ce535ef1db01a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 03/12] fix: drop an entry that increment_entry brings to zero

entry_count() is the number of non-zero entries and iteration yields non-zero
entries, but incrementing -1 left a stored zero that both reported.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 88f5178..a4c34b3 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -93,15 +93,22 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
         }
 
         let row_table = self.edges_table.entry(col).or_default();
-        let entry = row_table.entry(row);
+        match row_table.entry(row) {
+            Entry::Vacant(entry) => {
+                entry.insert(T::one());
+                self.entry_count += 1;
+            }
+            Entry::Occupied(mut entry) => {
+                let incremented = entry.get().add_one();
 
-        if let Entry::Vacant(_) = entry {
-            self.entry_count += 1;
+                if incremented == T::zero() {
+                    entry.remove();
+                    self.entry_count -= 1;
+                } else {
+                    entry.insert(incremented);
+                }
+            }
         }
-
-        entry
-            .and_modify(|e| *e = e.add_one())
-            .or_insert_with(T::one);
     }
 
     #[inline]
-- 
2.43.0


From c3288809676c98e7e22bf3279132909b564f4e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 04/12] fix: reject CompressedGraph bytes that repeat a matrix
 entry

The later entry replaced the earlier one, but both were counted, so the parsed
graph's edge count disagreed with its edges.
---
 graphrox-rs/src/graph/compressed.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..4119a61 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -362,6 +362,16 @@ impl TryFrom<&[u8]> for CompressedGraph {
                     ))
                 })?;
 
+            if compressed_graph_builder
+                .graph
+                .get_compressed_matrix_entry(col, row)
+                != 0
+            {
+                return Err(GraphRoxError::InvalidFormat(String::from(
+                    "CompressedGraph contains a duplicate entry",
+                )));
+            }
+
             compressed_graph_builder.add_compressed_matrix_entry(
                 entry,
                 col,
-- 
2.43.0


From 7901be73908f0a4a12e9d29cf6b22473cd7d3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 05/12] fix: reject undirected CompressedGraph bytes whose
 entries are not symmetric

Such bytes produced an undirected graph in which an edge existed in only one
direction and whose edge count changed when it was decompressed.
---
 graphrox-rs/src/graph/compressed.rs | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 4119a61..182b69b 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -386,10 +386,38 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let compressed_graph = unsafe { compressed_graph_builder.finish() };
+
+        if compressed_graph.is_undirected {
+            for (entry, col, row) in &compressed_graph.adjacency_matrix {
+                let mirrored_entry = compressed_graph.get_compressed_matrix_entry(row, col);
+
+                if mirrored_entry != transpose_compressed_entry(entry) {
+                    return Err(GraphRoxError::InvalidFormat(String::from(
+                        "CompressedGraph entries do not represent an undirected graph",
+                    )));
+                }
+            }
+        }
+
+        Ok(compressed_graph)
     }
 }
 
+fn transpose_compressed_entry(entry: u64) -> u64 {
+    let mut transposed = 0;
+
+    for bit in 0..64 {
+        if ((entry >> bit) & 1) == 1 {
+            let col = bit % COMPRESSION_BLOCK_DIMENSION;
+            let row = bit / COMPRESSION_BLOCK_DIMENSION;
+            transposed |= 1u64 << (col * COMPRESSION_BLOCK_DIMENSION + row);
+        }
+    }
+
+    transposed
+}
+
 fn read_u32_be(bytes: &[u8], offset: usize) -> Result<u32, GraphRoxError> {
     let end = offset
         .checked_add(std::mem::size_of::<u32>())
-- 
2.43.0


From 3472f72f4d170ba7f8d065fa0ec8354b86aaf85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 06/12] fix: apply the compression level to an 8x8 block of
 graphs under eight vertices

Such graphs were averaged over vertex_count^2 entries while the threshold stayed
compression_level / 64, so blocks with fewer edges than the level were kept.
---
 graphrox-rs/src/graph/standard.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 70abd83..a34c913 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -624,9 +624,14 @@ impl StandardGraph {
     pub fn compress(&self, compression_level: u8) -> CompressedGraph {
         let compression_level = util::clamp_compression_level(compression_level);
 
+        // find_avg_pool_matrix() clamps the block dimension to the vertex count, so a graph
+        // with fewer than eight vertices is averaged over fewer than 64 entries
+        let block_dimension = COMPRESSION_BLOCK_DIMENSION.min(self.vertex_count()) as f64;
+        let block_area = block_dimension * block_dimension;
+
         // Subract a very small number to ensure the floating-point imprecision errs on the
-        // side of being slightly less than the 1/64 cut-off
-        let threshold = compression_level as f64 / 64.0 - 0.00001;
+        // side of being slightly less than the cut-off
+        let threshold = compression_level as f64 / block_area - 0.00001;
 
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
-- 
2.43.0


From 125b77f7c1ff19680ca8236c8ec1e6c55cbc4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 07/12] fix: clamp approximation thresholds between zero and
 10^(-18)

approximate() documents that any threshold less than 10^(-18) is treated as
10^(-18); only those at or below zero were.
---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..d48d5cf 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From af63dd8b0895a0c9d1e1584d6d1cc94a4e199d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 08/12] fix: size matrix string cells from the formatted
 entries

Cells were sized from the truncated values, so negative fractions, entries that
round up to another digit, negative integers with decimals and floats beyond
i128 were written across their neighbours or past the buffer, an empty matrix
was padded to the width of T::max(), and zeros kept a decimal with no digits.
i128 also claimed to have a decimal.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 48 ++++++---------------
 graphrox-rs/src/util/mod.rs                 |  2 +-
 2 files changed, 15 insertions(+), 35 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index a4c34b3..a6d43b9 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -166,41 +166,26 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             return Ok(String::new());
         }
 
-        let mut highest = T::min();
-        let mut lowest = T::max();
-
-        let edge_table_values = self.edges_table.values();
-
-        if edge_table_values.len() == 0 {
-            highest = T::zero();
-        } else {
-            for row_table in edge_table_values {
-                for val in row_table.values() {
-                    if val.gt(&highest) {
-                        highest = *val;
-                    }
-
-                    if val.lt(&lowest) {
-                        lowest = *val;
-                    }
-                }
+        // The characters in front of the decimal (sign included), measured on the rounded
+        // entries. Digits past the 1074th of a float are all zeros and cannot round it.
+        let measured_digits = decimal_digits.min(u16::MAX as usize);
+        let mut integral_size = 1;
+
+        for row_table in self.edges_table.values() {
+            for val in row_table.values() {
+                let num = format!("{val:.measured_digits$}");
+                integral_size = integral_size.max(num.find('.').unwrap_or(num.len()));
             }
         }
 
-        let highest_integral_count = highest.integral_digit_count();
-        let lowest_integral_count = lowest.integral_digit_count();
-        let mut entry_size = if highest_integral_count > lowest_integral_count {
-            highest_integral_count
-        } else {
-            lowest_integral_count
-        };
+        let mut entry_size = integral_size;
 
-        if T::has_decimal() || decimal_digits > 0 {
+        if decimal_digits > 0 {
             entry_size += 1 + decimal_digits;
         }
 
         // One for the digit in front of the decimal
-        let smallest_entry_chars = 1 + if T::has_decimal() || decimal_digits > 0 {
+        let smallest_entry_chars = 1 + if decimal_digits > 0 {
             // One for the decimal, one for each decimal digit
             1 + decimal_digits
         } else {
@@ -287,13 +272,8 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + chars_per_entry * *col as usize;
 
                 let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let width = if lowest.lt(&T::zero()) {
-                        highest.integral_digit_count() + 1
-                    } else {
-                        highest.integral_digit_count()
-                    };
-
-                    let mut temp = format!("{number: >width$}.", number = value, width = width,);
+                    let mut temp =
+                        format!("{number: >width$}.", number = value, width = integral_size,);
 
                     for _ in 0..decimal_digits {
                         temp.push('0');
diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index d48d5cf..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From 3acbffbfcac7ee6835b78b74482aa09d1b53eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 09/12] fix: return NULL when a matrix string cannot be
 produced

gphrx_matrix_to_string() used ToString, which panics when Display fails (on a
matrix whose string does not fit in memory), and the panic aborts the caller.
---
 graphrox-c/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..7f9af54 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -6,6 +6,7 @@ use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
 use graphrox::{CompressedGraph, Graph, GraphRepresentation};
 
 use std::ffi;
+use std::fmt::Write;
 use std::ptr;
 use std::slice;
 
@@ -735,9 +736,13 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
-        Err(_) => ptr::null_mut(),
+    let mut string = String::new();
+    match write!(string, "{}", matrix)
+        .ok()
+        .and_then(|_| ffi::CString::new(string).ok())
+    {
+        Some(s) => s.into_raw(),
+        None => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From 61e842bf07aaa579b9f7e178d51249030ef12c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 10/12] fix: raise the intended ValueError for bytes that do
 not parse in Python

__name__ is a string; calling it raised a TypeError instead.
---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From 99ebc8e31a0769d974bf8eddc8759688800cae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 11/12] fix: raise IndexError for a negative index into an
 empty Python list

The index was reduced modulo the size, so an empty list raised ZeroDivisionError.
---
 graphrox-py/graphrox/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..b8996e3 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -475,7 +475,7 @@ class _GraphEdgeList:
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -531,7 +531,7 @@ class _GraphVertexList:
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -746,7 +746,7 @@ class _CsrSquareMatrixEntryList:
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
-- 
2.43.0


From f3e8b848655cf7def6806f04c59aae83ca6d6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 12/12] fix: write matrix text entries with any number of
 decimals

Precisions and widths above 65535 are out of range for format!, which panicked
for floating-point matrices, and the size of an entry overflowed for the
largest numbers of decimals.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 45 +++++++++++----------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index a6d43b9..ce27c17 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -168,12 +168,12 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
 
         // The characters in front of the decimal (sign included), measured on the rounded
         // entries. Digits past the 1074th of a float are all zeros and cannot round it.
-        let measured_digits = decimal_digits.min(u16::MAX as usize);
+        let formatted_digits = decimal_digits.min(u16::MAX as usize);
         let mut integral_size = 1;
 
         for row_table in self.edges_table.values() {
             for val in row_table.values() {
-                let num = format!("{val:.measured_digits$}");
+                let num = format!("{val:.formatted_digits$}");
                 integral_size = integral_size.max(num.find('.').unwrap_or(num.len()));
             }
         }
@@ -181,7 +181,13 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
         let mut entry_size = integral_size;
 
         if decimal_digits > 0 {
-            entry_size += 1 + decimal_digits;
+            // Two more for the comma and the space following the entry must fit as well
+            entry_size = decimal_digits
+                .checked_add(1 + entry_size)
+                .filter(|size| size.checked_add(2).is_some())
+                .ok_or_else(|| {
+                    GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"))
+                })?;
         }
 
         // One for the digit in front of the decimal
@@ -271,30 +277,25 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + EXTRA_CHARS_PER_ROW_AT_FRONT
                     + chars_per_entry * *col as usize;
 
-                let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let mut temp =
-                        format!("{number: >width$}.", number = value, width = integral_size,);
+                let mut num = format!("{value:.formatted_digits$}");
 
-                    for _ in 0..decimal_digits {
-                        temp.push('0');
-                    }
+                if !T::has_decimal() && decimal_digits > 0 {
+                    num.push('.');
+                }
 
-                    temp
-                } else {
-                    format!(
-                        "{number: >width$.decimals$}",
-                        number = value,
-                        width = entry_size,
-                        decimals = decimal_digits
-                    )
+                // Digits beyond those that were formatted are zeros
+                let trailing_zeros = match num.find('.') {
+                    Some(decimal_pos) => decimal_digits - (num.len() - decimal_pos - 1),
+                    None => 0,
                 };
 
-                let num = num.as_bytes();
+                let entry = &mut buffer[pos..pos + entry_size];
+                let num_start = entry_size - trailing_zeros - num.len();
+                let num_end = num_start + num.len();
 
-                for b in num {
-                    buffer[pos] = *b;
-                    pos += 1;
-                }
+                entry[..num_start].fill(b' ');
+                entry[num_start..num_end].copy_from_slice(num.as_bytes());
+                entry[num_end..].fill(b'0');
             }
         }
 
-- 
2.43.0

