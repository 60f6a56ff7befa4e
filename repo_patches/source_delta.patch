From 79eb2ea12897139140e4dc75b26aeac8531ea749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 01/20] fix: overwrite existing matrix entries when set_entry
 is given a zero

---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 graphrox-rs/src/matrix/csr_square_matrix.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..644c748 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -366,6 +366,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From 5759fe913df3d737788166734ac00627ed2f40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 02/20] fix: do not keep a zero entry when increment_entry
 reaches zero

---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 644c748..6669aa8 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -99,9 +99,13 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             self.entry_count += 1;
         }
 
-        entry
+        let value = *entry
             .and_modify(|e| *e = e.add_one())
             .or_insert_with(T::one);
+
+        if value == T::zero() {
+            self.zero_entry(col, row);
+        }
     }
 
     #[inline]
-- 
2.43.0


From f89ea819e173778183a158fb8a3130afa641f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 03/20] fix: avoid overflow when squaring large block
 dimensions in average pooling

---
 graphrox-rs/src/graph/standard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..44319f3 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,7 +467,7 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        let block_multiplier = 1.0 / (block_dimension as f64 * block_dimension as f64);
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
         avg_pool_matrix.multiply_entries_by(block_multiplier);
-- 
2.43.0


From e139489b017db00ed1770120eca975596791e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 04/20] fix: average pool full blocks to exactly 1.0

---
 graphrox-rs/src/graph/standard.rs           | 4 ++--
 graphrox-rs/src/matrix/csr_square_matrix.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 44319f3..14acee4 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,10 +467,10 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension as f64 * block_dimension as f64);
+        let entries_per_block = block_dimension as f64 * block_dimension as f64;
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
-        avg_pool_matrix.multiply_entries_by(block_multiplier);
+        avg_pool_matrix.divide_entries_by(entries_per_block);
 
         avg_pool_matrix
     }
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 6669aa8..8c2c7f4 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -323,10 +323,10 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
 
 impl CsrSquareMatrix<f64> {
     #[inline]
-    pub(crate) fn multiply_entries_by(&mut self, multiplier: f64) {
+    pub(crate) fn divide_entries_by(&mut self, divisor: f64) {
         for row_table in self.edges_table.values_mut() {
             for entry in row_table.values_mut() {
-                *entry *= multiplier;
+                *entry /= divisor;
             }
         }
     }
-- 
2.43.0


From 77f03572642a7fe39de2398f7411e1078ff8e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 05/20] fix: clamp approximation thresholds below 10^-18 to
 10^-18

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..d48d5cf 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From afc489b4fde86d7e57b4133d01941b982de71855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 06/20] fix: size matrix string cells from the rendered entries

---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 106 ++++++--------------
 1 file changed, 30 insertions(+), 76 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 8c2c7f4..0ce0617 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -163,48 +163,31 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             return Ok(String::new());
         }
 
-        let mut highest = T::min();
-        let mut lowest = T::max();
-
-        let edge_table_values = self.edges_table.values();
-
-        if edge_table_values.len() == 0 {
-            highest = T::zero();
-        } else {
-            for row_table in edge_table_values {
-                for val in row_table.values() {
-                    if val.gt(&highest) {
-                        highest = *val;
-                    }
-
-                    if val.lt(&lowest) {
-                        lowest = *val;
-                    }
-                }
-            }
+        if decimal_digits > usize::from(u16::MAX) {
+            return Err(GraphRoxError::CapacityOverflow(String::from(
+                "Too many decimal digits in matrix string",
+            )));
         }
 
-        let highest_integral_count = highest.integral_digit_count();
-        let lowest_integral_count = lowest.integral_digit_count();
-        let mut entry_size = if highest_integral_count > lowest_integral_count {
-            highest_integral_count
-        } else {
-            lowest_integral_count
+        let format_entry = |value: T| {
+            if T::has_decimal() {
+                format!("{value:.decimal_digits$}")
+            } else if decimal_digits > 0 {
+                format!("{value}.{:0<decimal_digits$}", "")
+            } else {
+                value.to_string()
+            }
         };
 
-        if T::has_decimal() || decimal_digits > 0 {
-            entry_size += 1 + decimal_digits;
-        }
-
-        // One for the digit in front of the decimal
-        let smallest_entry_chars = 1 + if T::has_decimal() || decimal_digits > 0 {
-            // One for the decimal, one for each decimal digit
-            1 + decimal_digits
-        } else {
-            0
-        };
+        let zero = format_entry(T::zero());
+        let entry_size = self
+            .edges_table
+            .values()
+            .flat_map(|row_table| row_table.values())
+            .map(|value| format_entry(*value).len())
+            .fold(zero.len(), usize::max);
 
-        let entry_left_padding = entry_size - smallest_entry_chars;
+        let entry_left_padding = entry_size - zero.len();
         let chars_per_entry = entry_size + 2;
 
         let dimension = usize::try_from(self.dimension).map_err(|_| {
@@ -242,16 +225,11 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             pos += 1;
 
             for col in 0..self.dimension {
-                for char_pos in 0..entry_size {
-                    buffer[pos] = if char_pos < entry_left_padding {
-                        b' '
-                    } else if char_pos == entry_left_padding + 1 {
-                        b'.'
-                    } else {
-                        b'0'
-                    };
-                    pos += 1;
-                }
+                buffer[pos..pos + entry_left_padding].fill(b' ');
+                pos += entry_left_padding;
+
+                buffer[pos..pos + zero.len()].copy_from_slice(zero.as_bytes());
+                pos += zero.len();
 
                 if col != self.dimension - 1 {
                     buffer[pos] = b',';
@@ -283,35 +261,11 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + EXTRA_CHARS_PER_ROW_AT_FRONT
                     + chars_per_entry * *col as usize;
 
-                let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let width = if lowest.lt(&T::zero()) {
-                        highest.integral_digit_count() + 1
-                    } else {
-                        highest.integral_digit_count()
-                    };
-
-                    let mut temp = format!("{number: >width$}.", number = value, width = width,);
-
-                    for _ in 0..decimal_digits {
-                        temp.push('0');
-                    }
-
-                    temp
-                } else {
-                    format!(
-                        "{number: >width$.decimals$}",
-                        number = value,
-                        width = entry_size,
-                        decimals = decimal_digits
-                    )
-                };
-
-                let num = num.as_bytes();
-
-                for b in num {
-                    buffer[pos] = *b;
-                    pos += 1;
-                }
+                let num = format_entry(*value);
+                let num_pos = pos + entry_size - num.len();
+
+                buffer[pos..num_pos].fill(b' ');
+                buffer[num_pos..num_pos + num.len()].copy_from_slice(num.as_bytes());
             }
         }
 
-- 
2.43.0


From c17a7ba55047c94ef6aa9d4830c2661a004f744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 07/20] fix: treat i128 as an integer type when rendering
 matrices

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index d48d5cf..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From 433eb115371825cb28f982b1a53c9700f5c60aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 08/20] fix: return null instead of aborting when a C matrix
 string cannot be built

---
 graphrox-c/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..4717a54 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -735,9 +735,13 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
-        Err(_) => ptr::null_mut(),
+    match matrix
+        .to_string_with_precision(2)
+        .ok()
+        .and_then(|s| ffi::CString::new(s).ok())
+    {
+        Some(s) => s.into_raw(),
+        None => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From 34464d9ebde174d7b421a5f2c1fec2642fd089ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 09/20] fix: reject compressed graph bytes with duplicate
 entries

---
 graphrox-rs/src/graph/compressed.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..f9a4c1e 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -376,7 +376,15 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let graph = unsafe { compressed_graph_builder.finish() };
+
+        if graph.adjacency_matrix.entry_count() != adjacency_matrix_entry_count {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "CompressedGraph contains duplicate entries",
+            )));
+        }
+
+        Ok(graph)
     }
 }
 
-- 
2.43.0


From 39b058d9b8829e8b12efb1e639ad8503a0fac275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 10/20] fix: reject undirected compressed graph bytes that are
 not symmetric

---
 graphrox-rs/src/graph/compressed.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index f9a4c1e..d3fb534 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -384,6 +384,16 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
+        if graph.is_undirected {
+            for (entry, col, row) in &graph.adjacency_matrix {
+                if transpose_compressed_entry(entry) != graph.adjacency_matrix.get_entry(row, col) {
+                    return Err(GraphRoxError::InvalidFormat(String::from(
+                        "CompressedGraph entries do not represent an undirected graph",
+                    )));
+                }
+            }
+        }
+
         Ok(graph)
     }
 }
@@ -424,6 +434,16 @@ fn compressed_matrix_dimension(vertex_count: u64) -> u64 {
     dimension
 }
 
+fn transpose_compressed_entry(entry: u64) -> u64 {
+    let mut transposed = 0;
+    for bit in 0..64 {
+        let col = bit % COMPRESSION_BLOCK_DIMENSION;
+        let row = bit / COMPRESSION_BLOCK_DIMENSION;
+        transposed |= ((entry >> bit) & 1) << (col * COMPRESSION_BLOCK_DIMENSION + row);
+    }
+    transposed
+}
+
 fn validate_compressed_entry_bounds(
     entry: u64,
     col: u64,
-- 
2.43.0


From adb1a222a55674b0a2719b4e663e13933e96c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 11/20] fix: raise ValueError when Python from_bytes is given
 invalid bytes

---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From 7dd512e3217c9aa6dde3511ed688a2e853ccc095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 12/20] fix: raise IndexError for negative indices into empty
 Python lists

---
 graphrox-py/graphrox/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..c124b68 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -475,7 +475,7 @@ class _GraphEdgeList:
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -531,7 +531,7 @@ class _GraphVertexList:
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -746,7 +746,7 @@ class _CsrSquareMatrixEntryList:
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
 
         if idx < 0:
-- 
2.43.0


From 0ceaefeff195d4ee6f7cbe184a53c15327d301c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 13/20] fix: validate every edge in validate_graph

---
 scripts/generate_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/generate_graph.py b/scripts/generate_graph.py
index 817db0d..c87c12b 100644
--- a/scripts/generate_graph.py
+++ b/scripts/generate_graph.py
@@ -87,8 +87,8 @@ def validate_graph(text_file_path, gphrx_file_path):
         graph = gx.Graph.from_bytes(f.read())
 
     for id_pair in id_pairs:
-        if not graph.does_edge_exist(id_to_new_id_map[id0], id_to_new_id_map[id1]):
-            print('Missing edge ' + str(id0) + '-' + str(id1))
+        if not graph.does_edge_exist(id_to_new_id_map[id_pair[0]], id_to_new_id_map[id_pair[1]]):
+            print('Missing edge ' + str(id_pair[0]) + '-' + str(id_pair[1]))
 
             
 def compress_gphrx_file(threshold, gphrx_file_path, out_file_path):
-- 
2.43.0


From 9eb8ac99f02991bbf316dbc05cd505433d59cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 14/20] fix: keep edges to vertices that never appear as a
 source in text graphs

---
 scripts/generate_graph.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/scripts/generate_graph.py b/scripts/generate_graph.py
index c87c12b..f870df0 100644
--- a/scripts/generate_graph.py
+++ b/scripts/generate_graph.py
@@ -27,16 +27,13 @@ def graph_from_text_file(file_path, out_file_path):
 
             id_pairs.append((id0, id1))
 
-    id_pairs.sort()
-    id_max = id_pairs[-1][0]
+    node_ids = sorted({node_id for id_pair in id_pairs for node_id in id_pair})
+    id_max = node_ids[-1]
 
-    id_to_new_id_map = np.full(id_max + 2, -1, dtype=int)
+    id_to_new_id_map = np.full(id_max + 1, -1, dtype=int)
 
-    new_id = 0
-    for id_pair in id_pairs:
-        if id_to_new_id_map[id_pair[0]] == -1:
-            id_to_new_id_map[id_pair[0]] = new_id
-            new_id += 1
+    for new_id, node_id in enumerate(node_ids):
+        id_to_new_id_map[node_id] = new_id
 
     graph = gx.Graph(is_undirected=True)
 
@@ -72,16 +69,13 @@ def validate_graph(text_file_path, gphrx_file_path):
 
             id_pairs.append((id0, id1))
 
-    id_pairs.sort()
-    id_max = id_pairs[-1][0]
+    node_ids = sorted({node_id for id_pair in id_pairs for node_id in id_pair})
+    id_max = node_ids[-1]
 
     id_to_new_id_map = np.full(id_max + 1, -1, dtype=int)
 
-    new_id = 0
-    for id_pair in id_pairs:
-        if id_to_new_id_map[id_pair[0]] == -1:
-            id_to_new_id_map[id_pair[0]] = new_id
-            new_id += 1
+    for new_id, node_id in enumerate(node_ids):
+        id_to_new_id_map[node_id] = new_id
 
     with open(gphrx_file_path, 'rb') as f:
         graph = gx.Graph.from_bytes(f.read())
-- 
2.43.0


From f10d58a414cbac1f45b9cf8ff7128419753fec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 15/20] fix: compare block edge counts of graphs with fewer
 than 8 vertices to the compression level

Average pooling clamps the block dimension to the vertex count, so compress() compared the
density over n*n entries with level/64 and kept blocks with fewer edges than the level.
---
 graphrox-rs/src/graph/standard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 14acee4..9fc0196 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -624,9 +624,14 @@ impl StandardGraph {
     pub fn compress(&self, compression_level: u8) -> CompressedGraph {
         let compression_level = util::clamp_compression_level(compression_level);
 
+        // Average pooling limits the block dimension to the vertex count, so the only block of a
+        // graph with fewer than 8 vertices is averaged over fewer than 64 entries
+        let block_dimension = COMPRESSION_BLOCK_DIMENSION.min(self.vertex_count());
+        let entries_per_block = (block_dimension * block_dimension) as f64;
+
         // Subract a very small number to ensure the floating-point imprecision errs on the
         // side of being slightly less than the 1/64 cut-off
-        let threshold = compression_level as f64 / 64.0 - 0.00001;
+        let threshold = compression_level as f64 / entries_per_block - 0.00001;
 
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
-- 
2.43.0


From eab371baa2db9e915fc7f43001b6541bbcfc38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 16/20] fix: pass every byte of multi-byte-item buffers to the
 Python loaders

---
 graphrox-py/graphrox/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c124b68..5dd79d9 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -281,11 +281,12 @@ class Graph:
     @staticmethod
     def from_bytes(bytes_obj):
         """Constructs a `Graph` from the provided `bytes` object."""
-        bytes_arr = (ctypes.c_ubyte * (len(bytes_obj))).from_buffer(bytearray(bytes_obj))
+        buffer = bytearray(bytes_obj)
+        bytes_arr = (ctypes.c_ubyte * len(buffer)).from_buffer(buffer)
 
         error = ctypes.c_uint8()
         c_graph = _lib.gphrx_from_bytes(bytes_arr,
-                                        len(bytes_obj),
+                                        len(buffer),
                                         ctypes.byref(error))
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
@@ -596,11 +597,12 @@ class CompressedGraph:
     @staticmethod
     def from_bytes(bytes_obj):
         """Constructs a `CompressedGraph` from the provided `bytes` object."""
-        bytes_arr = (ctypes.c_ubyte * (len(bytes_obj))).from_buffer(bytearray(bytes_obj))
+        buffer = bytearray(bytes_obj)
+        bytes_arr = (ctypes.c_ubyte * len(buffer)).from_buffer(buffer)
 
         error = ctypes.c_uint8()
         c_graph = _lib.gphrx_compressed_graph_from_bytes(bytes_arr,
-                                                         len(bytes_obj),
+                                                         len(buffer),
                                                          ctypes.byref(error))
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
-- 
2.43.0


From 3b260f834723eda64c47e197df9ffe3e4842e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 17/20] fix: convert and validate text graphs that list no
 edges

---
 scripts/generate_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/generate_graph.py b/scripts/generate_graph.py
index f870df0..d8e58f4 100644
--- a/scripts/generate_graph.py
+++ b/scripts/generate_graph.py
@@ -28,7 +28,7 @@ def graph_from_text_file(file_path, out_file_path):
             id_pairs.append((id0, id1))
 
     node_ids = sorted({node_id for id_pair in id_pairs for node_id in id_pair})
-    id_max = node_ids[-1]
+    id_max = node_ids[-1] if node_ids else -1
 
     id_to_new_id_map = np.full(id_max + 1, -1, dtype=int)
 
@@ -70,7 +70,7 @@ def validate_graph(text_file_path, gphrx_file_path):
             id_pairs.append((id0, id1))
 
     node_ids = sorted({node_id for id_pair in id_pairs for node_id in id_pair})
-    id_max = node_ids[-1]
+    id_max = node_ids[-1] if node_ids else -1
 
     id_to_new_id_map = np.full(id_max + 1, -1, dtype=int)
 
-- 
2.43.0


From a125f07624b323bec2d2d21ad7269244b0da59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 18/20] fix: copying a Python object released its native memory
 twice

---
 graphrox-py/graphrox/__init__.py | 39 ++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 5dd79d9..0dbbbc4 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -296,6 +296,12 @@ class Graph:
 
         return Graph(_c_graph=c_graph)
 
+    def __copy__(self):
+        return self.duplicate()
+
+    def __deepcopy__(self, memo):
+        return self.duplicate()
+
     def duplicate(self):
         """Creates a deep copy of the `Graph`."""
         c_graph = _lib.gphrx_duplicate(self._graph)
@@ -475,6 +481,13 @@ class _GraphEdgeList:
     def __del__(self):
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
+    def __copy__(self):
+        # The list never changes, and its memory must only be released once
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
     def __getitem__(self, idx):
         if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
@@ -531,6 +544,13 @@ class _GraphVertexList:
     def __del__(self):
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
+    def __copy__(self):
+        # The list never changes, and its memory must only be released once
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
     def __getitem__(self, idx):
         if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
@@ -612,6 +632,12 @@ class CompressedGraph:
 
         return CompressedGraph(c_graph)
 
+    def __copy__(self):
+        return self.duplicate()
+
+    def __deepcopy__(self, memo):
+        return self.duplicate()
+
     def duplicate(self):
         """Creates a deep copy of the `CompressedGraph`."""
         c_graph = _lib.gphrx_compressed_graph_duplicate(self._graph)
@@ -695,6 +721,12 @@ class CsrSquareMatrix:
     def __str__(self):
         return self.to_string()
 
+    def __copy__(self):
+        return self.duplicate()
+
+    def __deepcopy__(self, memo):
+        return self.duplicate()
+
     def duplicate(self):
         """Creates a deep copy of the `CsrSquareMatrix`."""
         c_matrix = _lib.gphrx_matrix_duplicate(self._matrix)
@@ -747,6 +779,13 @@ class _CsrSquareMatrixEntryList:
     def __del__(self):
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
+    def __copy__(self):
+        # The list never changes, and its memory must only be released once
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
     def __getitem__(self, idx):
         if self._size == 0 or idx >= self._size:
             raise IndexError('list index out of range')
-- 
2.43.0


From 05f8415fef7d20092749a74a4ff15d52f3b49fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 19/20] fix: iterators over Python lists could not be iterated

---
 graphrox-py/graphrox/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 0dbbbc4..a39680d 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -520,6 +520,9 @@ class _GraphEdgeListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
@@ -583,6 +586,9 @@ class _GraphVertexListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
@@ -818,6 +824,9 @@ class _CsrSquareMatrixEntryListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
-- 
2.43.0


From aa49682bb29e5dca8d0c8265ff278096515ce868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 20/20] fix: convert and validate text graphs with large IDs

---
 scripts/generate_graph.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/scripts/generate_graph.py b/scripts/generate_graph.py
index d8e58f4..26efb05 100644
--- a/scripts/generate_graph.py
+++ b/scripts/generate_graph.py
@@ -1,4 +1,3 @@
-import numpy as np
 import sys
 
 import graphrox as gx
@@ -28,12 +27,7 @@ def graph_from_text_file(file_path, out_file_path):
             id_pairs.append((id0, id1))
 
     node_ids = sorted({node_id for id_pair in id_pairs for node_id in id_pair})
-    id_max = node_ids[-1] if node_ids else -1
-
-    id_to_new_id_map = np.full(id_max + 1, -1, dtype=int)
-
-    for new_id, node_id in enumerate(node_ids):
-        id_to_new_id_map[node_id] = new_id
+    id_to_new_id_map = {node_id: new_id for new_id, node_id in enumerate(node_ids)}
 
     graph = gx.Graph(is_undirected=True)
 
@@ -70,12 +64,7 @@ def validate_graph(text_file_path, gphrx_file_path):
             id_pairs.append((id0, id1))
 
     node_ids = sorted({node_id for id_pair in id_pairs for node_id in id_pair})
-    id_max = node_ids[-1] if node_ids else -1
-
-    id_to_new_id_map = np.full(id_max + 1, -1, dtype=int)
-
-    for new_id, node_id in enumerate(node_ids):
-        id_to_new_id_map[node_id] = new_id
+    id_to_new_id_map = {node_id: new_id for new_id, node_id in enumerate(node_ids)}
 
     with open(gphrx_file_path, 'rb') as f:
         graph = gx.Graph.from_bytes(f.read())
-- 
2.43.0

