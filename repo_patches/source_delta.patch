From 19127fac30aba6ce9050e492ff907c0f4f16074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 01/13] fix: set_entry with a zero value overwrites an existing
 matrix entry

---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 graphrox-rs/src/matrix/csr_square_matrix.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..644c748 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -366,6 +366,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From b9aabf06aba349c36599158043348a11d5e0e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 02/13] fix: average pooling no longer overflows when squaring
 large block dimensions

---
 graphrox-rs/src/graph/standard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..44319f3 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,7 +467,7 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        let block_multiplier = 1.0 / (block_dimension as f64 * block_dimension as f64);
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
         avg_pool_matrix.multiply_entries_by(block_multiplier);
-- 
2.43.0


From 91fad42a828e733c31b626a0abc729b8c109bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 03/13] fix: compression level counts entries per block for
 graphs smaller than one block

---
 graphrox-rs/src/graph/standard.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 44319f3..ce2bab8 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -626,7 +626,15 @@ impl StandardGraph {
 
         // Subract a very small number to ensure the floating-point imprecision errs on the
         // side of being slightly less than the 1/64 cut-off
-        let threshold = compression_level as f64 / 64.0 - 0.00001;
+        // (or the 1/n^2 cut-off for a graph too small to fill one block, because the average
+        // pooling matrix is then pooled over blocks of dimension n)
+        let block_dimension = if self.vertex_count() < COMPRESSION_BLOCK_DIMENSION {
+            self.vertex_count()
+        } else {
+            COMPRESSION_BLOCK_DIMENSION
+        };
+        let threshold =
+            compression_level as f64 / (block_dimension * block_dimension) as f64 - 0.00001;
 
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
-- 
2.43.0


From 6a1ee8fe63b32ab4336e9764c3ef075f438acf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 04/13] fix: approximation thresholds between 0 and 10^-18 are
 clamped as documented

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..d48d5cf 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From 5ca2fb8da93f55b5bf1a02c945991927f087a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 05/13] fix: add_vertex creates the vertex even when every
 listed edge is out of range

---
 graphrox-rs/src/graph/standard.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index ce2bab8..dedc06a 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -208,17 +208,13 @@ impl StandardGraph {
     /// assert_eq!(graph.vertex_count(), 101);
     /// ```
     pub fn add_vertex(&mut self, vertex_id: u64, to_vertexs: Option<&[u64]>) {
-        let added_edge = if let Some(to_vertexs) = to_vertexs {
+        if let Some(to_vertexs) = to_vertexs {
             for edge in to_vertexs {
                 self.add_edge(vertex_id, *edge);
             }
+        }
 
-            !to_vertexs.is_empty()
-        } else {
-            false
-        };
-
-        if !added_edge && vertex_id >= self.vertex_count() {
+        if vertex_id >= self.vertex_count() {
             // Don't add an edge, but increase the adjacency matrix dimension by adding
             // a zero entry
             self.adjacency_matrix.set_entry(0, vertex_id, 0);
-- 
2.43.0


From ee1500f8cfd47a679138801a8080e058e7fcd9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 06/13] fix: i128 is not a decimal type

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index d48d5cf..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From 058b6748c5662e1fbf48c33d2a05f3af38f11c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 07/13] fix: incrementing an entry of -1 leaves no stored zero
 behind

---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 644c748..2308341 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -99,9 +99,13 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             self.entry_count += 1;
         }
 
-        entry
+        let incremented = entry
             .and_modify(|e| *e = e.add_one())
             .or_insert_with(T::one);
+
+        if *incremented == T::zero() {
+            self.zero_entry(col, row);
+        }
     }
 
     #[inline]
-- 
2.43.0


From 9ef12b7005af1c61b82e542da189b113e9aa4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 08/13] fix: reject compressed graph bytes with duplicate
 matrix entries

---
 graphrox-rs/src/graph/compressed.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..ac9be04 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -376,7 +376,15 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let compressed_graph = unsafe { compressed_graph_builder.finish() };
+
+        if compressed_graph.adjacency_matrix.entry_count() != adjacency_matrix_entry_count {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "CompressedGraph contains duplicate entries",
+            )));
+        }
+
+        Ok(compressed_graph)
     }
 }
 
-- 
2.43.0


From bf18ca2563801a953f428c93d42d6693ce0d074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 09/13] fix: reject undirected compressed graph bytes whose
 entries are not symmetric

---
 graphrox-rs/src/graph/compressed.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index ac9be04..7263d96 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -384,6 +384,17 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
+        if compressed_graph.is_undirected {
+            for (entry, col, row) in &compressed_graph.adjacency_matrix {
+                let mirrored_entry = compressed_graph.adjacency_matrix.get_entry(row, col);
+                if mirrored_entry != transpose_compressed_entry(entry) {
+                    return Err(GraphRoxError::InvalidFormat(String::from(
+                        "CompressedGraph entries do not represent an undirected graph",
+                    )));
+                }
+            }
+        }
+
         Ok(compressed_graph)
     }
 }
@@ -462,6 +473,20 @@ fn validate_compressed_entry_bounds(
     Ok(())
 }
 
+fn transpose_compressed_entry(entry: u64) -> u64 {
+    let mut transposed_entry = 0u64;
+
+    for bit in 0..64 {
+        if ((entry >> bit) & 1) != 0 {
+            let transposed_bit = COMPRESSION_BLOCK_DIMENSION * (bit % COMPRESSION_BLOCK_DIMENSION)
+                + bit / COMPRESSION_BLOCK_DIMENSION;
+            transposed_entry |= 1 << transposed_bit;
+        }
+    }
+
+    transposed_entry
+}
+
 /// A tool for manually constructing `graphrox::CompressedGraph`s.
 ///
 /// **WARNING**: Use of `CompressedGraphBuilder` is discouraged because manually building a
-- 
2.43.0


From 7ecfe1518cf2c357701e7a430be7378242e94e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 10/13] fix: gphrx_matrix_to_string returns null instead of
 aborting on a matrix too large to print

---
 graphrox-c/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..51c547a 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -735,9 +735,14 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
-        Err(_) => ptr::null_mut(),
+    // to_string() panics if the string is too large to allocate. This has the same format
+    match matrix
+        .to_string_with_precision(2)
+        .ok()
+        .and_then(|s| ffi::CString::new(s).ok())
+    {
+        Some(s) => s.into_raw(),
+        None => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From 693a6bad08e1378c2c407b2e03a1bb81daa1afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 11/13] fix: size the columns of a matrix string by the text of
 its entries

The width was worked out from the number of integral digits of the highest and lowest
entries. It was too narrow when rounding adds a digit (9.96 with one digit), for negative
numbers above -1, for negative integers printed with decimals and for NaN, so that entries
overwrote the separators after them, ran past the end of the buffer or were not aligned; and
too wide for infinities and if the lowest integer was longer than what is printed.
Zeros of a floating-point matrix were printed as '0.' with no decimal digits, and more
decimal digits than the formatting macros accept, or than can be counted, panicked.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 104 +++++++++-----------
 1 file changed, 49 insertions(+), 55 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 2308341..092558c 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -115,6 +115,15 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
         }
     }
 
+    // The text of an entry, without the decimal and the zeros after it if it is an integer
+    fn format_entry(value: &T, decimal_digits: usize) -> String {
+        if T::has_decimal() {
+            format!("{:.*}", decimal_digits, value)
+        } else {
+            format!("{}", value)
+        }
+    }
+
     /// Generates a string representation of a `CsrSquareMatrix`. Each entry in the matrix
     /// string will have `decimal_digits` digits after the decimal. If `decimal_digits` is 0,
     /// entries will not have a decimal.
@@ -163,49 +172,44 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             return Ok(String::new());
         }
 
-        let mut highest = T::min();
-        let mut lowest = T::max();
-
-        let edge_table_values = self.edges_table.values();
-
-        if edge_table_values.len() == 0 {
-            highest = T::zero();
-        } else {
-            for row_table in edge_table_values {
-                for val in row_table.values() {
-                    if val.gt(&highest) {
-                        highest = *val;
-                    }
-
-                    if val.lt(&lowest) {
-                        lowest = *val;
-                    }
-                }
-            }
+        // Formatting a number with more digits than this panics
+        if T::has_decimal() && decimal_digits > u16::MAX as usize {
+            return Err(GraphRoxError::CapacityOverflow(String::from(
+                "Too many decimal digits",
+            )));
         }
 
-        let highest_integral_count = highest.integral_digit_count();
-        let lowest_integral_count = lowest.integral_digit_count();
-        let mut entry_size = if highest_integral_count > lowest_integral_count {
-            highest_integral_count
+        // One for the decimal, one for each decimal digit
+        let fraction_chars = if decimal_digits > 0 {
+            decimal_digits.saturating_add(1)
         } else {
-            lowest_integral_count
+            0
         };
 
-        if T::has_decimal() || decimal_digits > 0 {
-            entry_size += 1 + decimal_digits;
-        }
-
         // One for the digit in front of the decimal
-        let smallest_entry_chars = 1 + if T::has_decimal() || decimal_digits > 0 {
-            // One for the decimal, one for each decimal digit
-            1 + decimal_digits
-        } else {
-            0
-        };
+        let smallest_entry_chars = fraction_chars.saturating_add(1);
+
+        // The width of an entry cannot be told from its value (rounding may add a digit, the
+        // sign of a number above -1 takes a character, and some floats are not written as
+        // digits), so look for the longest text
+        let mut entry_size = smallest_entry_chars;
+
+        for row_table in self.edges_table.values() {
+            for val in row_table.values() {
+                let mut size = Self::format_entry(val, decimal_digits).len();
+
+                if !T::has_decimal() {
+                    size = size.saturating_add(fraction_chars);
+                }
+
+                if size > entry_size {
+                    entry_size = size;
+                }
+            }
+        }
 
         let entry_left_padding = entry_size - smallest_entry_chars;
-        let chars_per_entry = entry_size + 2;
+        let chars_per_entry = entry_size.saturating_add(2);
 
         let dimension = usize::try_from(self.dimension).map_err(|_| {
             GraphRoxError::CapacityOverflow(String::from(
@@ -283,30 +287,20 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + EXTRA_CHARS_PER_ROW_AT_FRONT
                     + chars_per_entry * *col as usize;
 
-                let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let width = if lowest.lt(&T::zero()) {
-                        highest.integral_digit_count() + 1
-                    } else {
-                        highest.integral_digit_count()
-                    };
-
-                    let mut temp = format!("{number: >width$}.", number = value, width = width,);
-
-                    for _ in 0..decimal_digits {
-                        temp.push('0');
-                    }
+                let num = Self::format_entry(value, decimal_digits);
+                let num = num.as_bytes();
 
-                    temp
+                // The zeros after the decimal of an integer are already in the buffer
+                let size = if T::has_decimal() {
+                    num.len()
                 } else {
-                    format!(
-                        "{number: >width$.decimals$}",
-                        number = value,
-                        width = entry_size,
-                        decimals = decimal_digits
-                    )
+                    num.len() + fraction_chars
                 };
 
-                let num = num.as_bytes();
+                for _ in size..entry_size {
+                    buffer[pos] = b' ';
+                    pos += 1;
+                }
 
                 for b in num {
                     buffer[pos] = *b;
-- 
2.43.0


From eff4c8ded2d795c5b4f884fa012d7b64b0d6b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:32 +0000
Subject: [PATCH 12/13] fix: raise ValueError, not TypeError, from the Python
 from_bytes on invalid bytes

---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From 55eb2ebb2d152a189a8bd48ccd06c2e58930632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:32 +0000
Subject: [PATCH 13/13] fix: raise IndexError for a negative index into an
 empty list of the Python module

---
 graphrox-py/graphrox/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..c124b68 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -475,7 +475,7 @@ class _GraphEdgeList:
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -531,7 +531,7 @@ class _GraphVertexList:
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -746,7 +746,7 @@ class _CsrSquareMatrixEntryList:
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
 
         if idx < 0:
-- 
2.43.0

