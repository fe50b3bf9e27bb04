From e83c0f42e5369ac6a32c01387dcad2eb107a98a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 01/10] fix: arbitrary stride layouts report the stride they
 were created with

stride() returned the dense stride of the dimension, so blocks of blocks and
matrix products with block operands used wrong memory positions.
---
 src/layouts/arbitrary_stride_column_major.rs | 2 +-
 src/layouts/arbitrary_stride_row_major.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index 3f062a4..ac21da6 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -52,7 +52,7 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (1, self.dim.0)
+        self.stride
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e611a2d..e02b6fb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -51,7 +51,7 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (self.dim.1, 1)
+        self.stride
     }
 
     #[inline]
-- 
2.43.0


From 0b116b74f6a6d75a99ff8f5317865069758f45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 02/10] fix: ColumnVector::from_dimension accepts (n, 1) and
 rejects (1, n)

---
 src/layouts/column_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6b18f6d..6368b65 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -64,7 +64,7 @@ impl LayoutType for ColumnVector {
 impl BaseLayoutType for ColumnVector {
     fn from_dimension(dim: (IndexType, IndexType)) -> Self {
         assert_eq!(
-            dim.0, 1,
+            dim.1, 1,
             "Number of columns is {} but must be one for ColumnVector.",
             dim.1
         );
-- 
2.43.0


From 0c35bc73ba52623526e3d6c74c2074b314e65dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 03/10] fix: vector layouts convert a 1d index to an in-bounds
 (row, col) pair

---
 src/layouts/arbitrary_stride_column_vector.rs | 2 +-
 src/layouts/arbitrary_stride_row_vector.rs    | 2 +-
 src/layouts/column_vector.rs                  | 2 +-
 src/layouts/row_vector.rs                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index ab1251f..bd01119 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 86ccf21..70bab47 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideRowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6368b65..3254bde 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for ColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index cc4cfc3..f0f5241 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for RowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
-- 
2.43.0


From d20e87854ed050916c1f4aa6709cd7464e9e1d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 04/10] fix: a base matrix requires data for the farthest raw
 index of its layout

With gapped strides the element count can fit the container while the last
element lies beyond it, so checked access read and wrote out of bounds.
---
 src/base_matrix.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b993e47..b06e7b1 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -42,6 +42,13 @@ impl<
             data.number_of_elements(),
             layout.number_of_elements(),
         );
+        let nelems = layout.number_of_elements();
+        assert!(
+            nelems == 0 || layout.convert_1d_raw(nelems - 1) < data.number_of_elements(),
+            "Number of elements in data: {}. But last element of layout has raw index {})",
+            data.number_of_elements(),
+            layout.convert_1d_raw(nelems - 1),
+        );
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
             layout,
-- 
2.43.0


From 4f70ae51a44d317b0dd981afaf8cee0a93611305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 05/10] fix: sizes and strides that overflow the index type
 panic in every build

In optimised builds the element count or raw index wrapped around, so a matrix
much larger than its storage was accepted and accessed out of bounds.
---
 src/layouts/arbitrary_stride_column_major.rs  | 13 ++++++++++++-
 src/layouts/arbitrary_stride_column_vector.rs |  6 ++++++
 src/layouts/arbitrary_stride_row_major.rs     | 13 ++++++++++++-
 src/layouts/arbitrary_stride_row_vector.rs    |  6 ++++++
 src/layouts/column_major.rs                   |  5 ++++-
 src/layouts/row_major.rs                      |  5 ++++-
 src/layouts/upper_triangular.rs               |  6 +++++-
 7 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index ac21da6..f27b51e 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -17,6 +17,14 @@ pub struct ArbitraryStrideColumnMajor {
 
 impl ArbitraryStrideColumnMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        let last_row = dim.0.saturating_sub(1).checked_mul(stride.0);
+        let last_col = dim.1.saturating_sub(1).checked_mul(stride.1);
+        assert!(
+            matches!((last_row, last_col), (Some(r), Some(c)) if r.checked_add(c).is_some()),
+            "Raw indices overflow the index type for dim {:?} and stride {:?}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
@@ -57,7 +65,10 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of elements overflows the index type.")
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index bd01119..2362fb2 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -18,6 +18,12 @@ pub struct ArbitraryStrideColumnVector {
 
 impl ArbitraryStrideColumnVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert!(
+            dim.saturating_sub(1).checked_mul(stride).is_some(),
+            "Raw indices overflow the index type for dim {} and stride {}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e02b6fb..85c6d29 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -16,6 +16,14 @@ pub struct ArbitraryStrideRowMajor {
 
 impl ArbitraryStrideRowMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        let last_row = dim.0.saturating_sub(1).checked_mul(stride.0);
+        let last_col = dim.1.saturating_sub(1).checked_mul(stride.1);
+        assert!(
+            matches!((last_row, last_col), (Some(r), Some(c)) if r.checked_add(c).is_some()),
+            "Raw indices overflow the index type for dim {:?} and stride {:?}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
@@ -56,7 +64,10 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of elements overflows the index type.")
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 70bab47..acce1bf 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -18,6 +18,12 @@ pub struct ArbitraryStrideRowVector {
 
 impl ArbitraryStrideRowVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert!(
+            dim.saturating_sub(1).checked_mul(stride).is_some(),
+            "Raw indices overflow the index type for dim {} and stride {}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/column_major.rs b/src/layouts/column_major.rs
index 6c25ada..184a68b 100644
--- a/src/layouts/column_major.rs
+++ b/src/layouts/column_major.rs
@@ -53,7 +53,10 @@ impl LayoutType for ColumnMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of elements overflows the index type.")
     }
 
     #[inline]
diff --git a/src/layouts/row_major.rs b/src/layouts/row_major.rs
index e9a6289..0f33482 100644
--- a/src/layouts/row_major.rs
+++ b/src/layouts/row_major.rs
@@ -53,7 +53,10 @@ impl LayoutType for RowMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of elements overflows the index type.")
     }
 
     #[inline]
diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index 8850079..e661aff 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -64,7 +64,11 @@ impl LayoutType for UpperTriangular {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        (self.dim * (self.dim + 1)) / 2
+        self.dim
+            .checked_add(1)
+            .and_then(|next| self.dim.checked_mul(next))
+            .expect("Number of elements overflows the index type.")
+            / 2
     }
 
     #[inline]
-- 
2.43.0


From f1728369ec459f02e7f5e4d4278c21c08544a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 06/10] fix: blocks and splits check their bounds without
 overflow and may be empty

In optimised builds a corner or split point whose sum wraps around, a split
point outside the matrix and an empty block gave views of foreign memory.
---
 src/matrix/constructors.rs  | 12 ++++++--
 src/matrix/matrix_slices.rs | 57 ++++++++++++++++++++++++-------------
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index f99eb46..0ecb449 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -138,7 +138,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts_mut(ptr, nindices);
                 let data = SliceContainerMut::<'a, Item>::new(slice);
 
@@ -154,7 +158,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts(ptr, nindices);
                 let data = SliceContainer::<'a, Item>::new(slice);
 
diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 2405171..9d87f0f 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -7,6 +7,31 @@ use crate::layouts::*;
 use crate::traits::*;
 use crate::types::{HScalar, IndexType};
 
+/// Return the raw index of the first element of a block after checking that
+/// the block is contained in the matrix. For an empty block return 0.
+fn block_start<L: LayoutType>(
+    layout: &L,
+    top_left: (IndexType, IndexType),
+    dim: (IndexType, IndexType),
+) -> IndexType {
+    let mat_dim = layout.dim();
+    assert!(
+        (top_left.0 <= mat_dim.0)
+            && (dim.0 <= mat_dim.0 - top_left.0)
+            && (top_left.1 <= mat_dim.1)
+            && (dim.1 <= mat_dim.1 - top_left.1),
+        "Block with top left corner {:?} and dim {:?} out of bounds for matrix with dim {:?}",
+        top_left,
+        dim,
+        mat_dim
+    );
+    if dim.0 == 0 || dim.1 == 0 {
+        0
+    } else {
+        layout.convert_2d_raw(top_left.0, top_left.1)
+    }
+}
+
 macro_rules! block_matrix {
     ($Layout:ident, $StrideLayout:ident, $RS:ident, $CS:ident) => {
         impl<Item: HScalar, Data: DataContainer<Item = Item>>
@@ -21,14 +46,7 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrix<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                let start_index = block_start(self.layout(), top_left, dim);
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
                         self.get_pointer().add(start_index),
@@ -50,14 +68,7 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrixMut<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                let start_index = block_start(self.layout(), top_left, dim);
 
                 unsafe {
                     SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
@@ -96,6 +107,12 @@ macro_rules! subdivide_matrix {
                 SliceMatrixMut<'a, Item, $StrideLayout, Dynamic, Dynamic>,
             ) {
                 let dim = self.layout().dim();
+                assert!(
+                    (split_at.0 <= dim.0) && (split_at.1 <= dim.1),
+                    "Split point {:?} out of bounds for matrix with dim {:?}",
+                    split_at,
+                    dim
+                );
                 let stride = self.layout().stride();
                 let ptr = self.get_pointer_mut();
                 let dim0 = split_at;
@@ -108,10 +125,10 @@ macro_rules! subdivide_matrix {
                 let origin2 = (split_at.0, 0);
                 let origin3 = split_at;
 
-                let start0 = self.layout().convert_2d_raw(origin0.0, origin0.1) as isize;
-                let start1 = self.layout().convert_2d_raw(origin1.0, origin1.1) as isize;
-                let start2 = self.layout().convert_2d_raw(origin2.0, origin2.1) as isize;
-                let start3 = self.layout().convert_2d_raw(origin3.0, origin3.1) as isize;
+                let start0 = block_start(self.layout(), origin0, dim0) as isize;
+                let start1 = block_start(self.layout(), origin1, dim1) as isize;
+                let start2 = block_start(self.layout(), origin2, dim2) as isize;
+                let start3 = block_start(self.layout(), origin3, dim3) as isize;
 
                 let blocks = unsafe {
                     (
-- 
2.43.0


From 8758025e51176b7adce1b959e1ceec5a1f358bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 07/10] fix: views do not hold references to memory that
 sibling blocks use

The blocks of a split matrix are disjoint but the regions that they span are
not, so overlapping mutable references were live at the same time (undefined
behaviour reported by Miri under Stacked and Tree Borrows).
---
 src/data_container.rs      | 70 +++++++++++++++++++++++++++++++-------
 src/matrix/constructors.rs | 12 +++----
 2 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/src/data_container.rs b/src/data_container.rs
index f798a13..da384cb 100644
--- a/src/data_container.rs
+++ b/src/data_container.rs
@@ -9,6 +9,7 @@
 
 use crate::types::HScalar;
 use crate::types::IndexType;
+use std::marker::PhantomData;
 
 pub trait DataContainer {
     type Item: HScalar;
@@ -86,15 +87,31 @@ pub struct ArrayContainer<Item: HScalar, const N: usize> {
 }
 
 /// A container that takes a reference to a slice.
+///
+/// Only a pointer to the slice is stored. The elements of interleaved blocks of
+/// a matrix are disjoint, but the memory regions spanned by the blocks are not.
+/// Hence, a block must not hold a reference to the region that it spans.
 pub struct SliceContainer<'a, Item: HScalar> {
-    data: &'a [Item],
+    data: *const Item,
+    nelems: IndexType,
+    phantom: PhantomData<&'a [Item]>,
 }
 
 /// A container that takes a mutable reference to a slice.
+///
+/// As for [SliceContainer] only a pointer to the slice is stored.
 pub struct SliceContainerMut<'a, Item: HScalar> {
-    data: &'a mut [Item],
+    data: *mut Item,
+    nelems: IndexType,
+    phantom: PhantomData<&'a mut [Item]>,
 }
 
+// The containers represent a shared, respectively mutable, reference to a slice.
+unsafe impl<'a, Item: HScalar + Sync> Send for SliceContainer<'a, Item> {}
+unsafe impl<'a, Item: HScalar + Sync> Sync for SliceContainer<'a, Item> {}
+unsafe impl<'a, Item: HScalar + Send> Send for SliceContainerMut<'a, Item> {}
+unsafe impl<'a, Item: HScalar + Sync> Sync for SliceContainerMut<'a, Item> {}
+
 impl<Item: HScalar> VectorContainer<Item> {
     /// New vector container by specifying the number of elements.
     ///
@@ -123,14 +140,40 @@ impl<Item: HScalar, const N: usize> Default for ArrayContainer<Item, N> {
 impl<'a, Item: HScalar> SliceContainer<'a, Item> {
     /// New slice container from a reference.
     pub fn new(slice: &'a [Item]) -> SliceContainer<Item> {
-        SliceContainer::<Item> { data: slice }
+        unsafe { SliceContainer::<Item>::from_raw_parts(slice.as_ptr(), slice.len()) }
+    }
+
+    /// New slice container from a pointer and the number of elements.
+    ///
+    /// # Safety
+    /// The elements that are accessed through the container must be valid and
+    /// must not be mutated by others for the lifetime `'a`.
+    pub unsafe fn from_raw_parts(data: *const Item, nelems: IndexType) -> Self {
+        SliceContainer::<Item> {
+            data,
+            nelems,
+            phantom: PhantomData,
+        }
     }
 }
 
 impl<'a, Item: HScalar> SliceContainerMut<'a, Item> {
     /// New mutable slice container from mutable reference.
     pub fn new(slice: &'a mut [Item]) -> SliceContainerMut<Item> {
-        SliceContainerMut::<Item> { data: slice }
+        unsafe { SliceContainerMut::<Item>::from_raw_parts(slice.as_mut_ptr(), slice.len()) }
+    }
+
+    /// New mutable slice container from a pointer and the number of elements.
+    ///
+    /// # Safety
+    /// The elements that are accessed through the container must be valid and
+    /// must not be accessed by others for the lifetime `'a`.
+    pub unsafe fn from_raw_parts(data: *mut Item, nelems: IndexType) -> Self {
+        SliceContainerMut::<Item> {
+            data,
+            nelems,
+            phantom: PhantomData,
+        }
     }
 }
 
@@ -190,15 +233,16 @@ impl<'a, Item: HScalar> DataContainer for SliceContainer<'a, Item> {
     type Item = Item;
 
     unsafe fn get_unchecked(&self, index: IndexType) -> Self::Item {
-        *self.data.get_unchecked(index)
+        debug_assert!(index < self.nelems);
+        *self.data.add(index)
     }
 
     fn get_pointer(&self) -> *const Self::Item {
-        self.data.as_ptr()
+        self.data
     }
 
     fn number_of_elements(&self) -> IndexType {
-        self.data.len()
+        self.nelems
     }
 }
 
@@ -206,24 +250,26 @@ impl<'a, Item: HScalar> DataContainer for SliceContainerMut<'a, Item> {
     type Item = Item;
 
     unsafe fn get_unchecked(&self, index: IndexType) -> Self::Item {
-        *self.data.get_unchecked(index)
+        debug_assert!(index < self.nelems);
+        *self.data.add(index)
     }
 
     fn get_pointer(&self) -> *const Self::Item {
-        self.data.as_ptr()
+        self.data
     }
 
     fn number_of_elements(&self) -> IndexType {
-        self.data.len()
+        self.nelems
     }
 }
 
 impl<'a, Item: HScalar> DataContainerMut for SliceContainerMut<'a, Item> {
     unsafe fn get_unchecked_mut(&mut self, index: IndexType) -> &mut Self::Item {
-        self.data.get_unchecked_mut(index)
+        debug_assert!(index < self.nelems);
+        &mut *self.data.add(index)
     }
 
     fn get_pointer_mut(&mut self) -> *mut Self::Item {
-        self.data.as_mut_ptr()
+        self.data
     }
 }
diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index 0ecb449..87438c1 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -143,8 +143,7 @@ macro_rules! from_pointer_strided {
                 } else {
                     new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
                 };
-                let slice = std::slice::from_raw_parts_mut(ptr, nindices);
-                let data = SliceContainerMut::<'a, Item>::new(slice);
+                let data = SliceContainerMut::<'a, Item>::from_raw_parts(ptr, nindices);
 
                 SliceMatrixMut::<'a, Item, $L, $RS, $CS>::from_data(data, new_layout)
             }
@@ -163,8 +162,7 @@ macro_rules! from_pointer_strided {
                 } else {
                     new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
                 };
-                let slice = std::slice::from_raw_parts(ptr, nindices);
-                let data = SliceContainer::<'a, Item>::new(slice);
+                let data = SliceContainer::<'a, Item>::from_raw_parts(ptr, nindices);
 
                 SliceMatrix::<'a, Item, $L, $RS, $CS>::from_data(data, new_layout)
             }
@@ -179,8 +177,7 @@ macro_rules! from_pointer {
             pub unsafe fn from_pointer(ptr: *mut Item, dim: (IndexType, IndexType)) -> Self {
                 let new_layout = $L::new(dim);
                 let nindices = dim.0 * dim.1;
-                let slice = std::slice::from_raw_parts_mut(ptr, nindices);
-                let data = SliceContainerMut::<'a, Item>::new(slice);
+                let data = SliceContainerMut::<'a, Item>::from_raw_parts(ptr, nindices);
 
                 SliceMatrixMut::<'a, Item, $L, $RS, $CS>::from_data(data, new_layout)
             }
@@ -191,8 +188,7 @@ macro_rules! from_pointer {
             pub unsafe fn from_pointer(ptr: *const Item, dim: (IndexType, IndexType)) -> Self {
                 let new_layout = $L::new(dim);
                 let nindices = dim.0 * dim.1;
-                let slice = std::slice::from_raw_parts(ptr, nindices);
-                let data = SliceContainer::<'a, Item>::new(slice);
+                let data = SliceContainer::<'a, Item>::from_raw_parts(ptr, nindices);
 
                 SliceMatrix::<'a, Item, $L, $RS, $CS>::from_data(data, new_layout)
             }
-- 
2.43.0


From 1d9e129ce28c40450051b84fd294859f7069f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:44 +0000
Subject: [PATCH 08/10] fix: length of a row vector base matrix is the one of
 its layout

---
 src/base_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b06e7b1..1879ab0 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -156,7 +156,7 @@ macro_rules! vector_length {
             > BaseMatrix<Item, Data, $Layout, RS, CS>
         {
             pub fn length(&self) -> IndexType {
-                self.data.number_of_elements()
+                self.layout.dim().1
             }
         }
     };
-- 
2.43.0


From 47975809ecfd927a7f192a4677d69c298cf9b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:06 +0000
Subject: [PATCH 09/10] fix: containers are checked against the farthest
 element of any layout

---
 src/base_matrix.rs                            | 15 ++++++++-------
 src/layouts/arbitrary_stride_column_major.rs  |  6 ++++++
 src/layouts/arbitrary_stride_column_vector.rs |  6 ++++++
 src/layouts/arbitrary_stride_row_major.rs     |  6 ++++++
 src/layouts/arbitrary_stride_row_vector.rs    |  6 ++++++
 src/layouts/column_major.rs                   |  6 ++++++
 src/layouts/column_vector.rs                  |  6 ++++++
 src/layouts/row_major.rs                      |  6 ++++++
 src/layouts/row_vector.rs                     |  6 ++++++
 src/layouts/upper_triangular.rs               |  6 ++++++
 src/traits/layout.rs                          |  8 ++++++++
 11 files changed, 70 insertions(+), 7 deletions(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index 1879ab0..b2c6662 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -42,13 +42,14 @@ impl<
             data.number_of_elements(),
             layout.number_of_elements(),
         );
-        let nelems = layout.number_of_elements();
-        assert!(
-            nelems == 0 || layout.convert_1d_raw(nelems - 1) < data.number_of_elements(),
-            "Number of elements in data: {}. But last element of layout has raw index {})",
-            data.number_of_elements(),
-            layout.convert_1d_raw(nelems - 1),
-        );
+        if let Some(largest) = layout.largest_raw_index() {
+            assert!(
+                largest < data.number_of_elements(),
+                "Number of elements in data: {}. But largest raw index of layout is {})",
+                data.number_of_elements(),
+                largest,
+            );
+        }
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
             layout,
diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index f27b51e..db95577 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -75,6 +75,12 @@ impl LayoutType for ArbitraryStrideColumnMajor {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim())
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl StridedLayoutType for ArbitraryStrideColumnMajor {}
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index 2362fb2..3b11099 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -70,6 +70,12 @@ impl LayoutType for ArbitraryStrideColumnVector {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim().0)
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl StridedLayoutType for ArbitraryStrideColumnVector {}
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index 85c6d29..43f35eb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -74,6 +74,12 @@ impl LayoutType for ArbitraryStrideRowMajor {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim())
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl StridedLayoutType for ArbitraryStrideRowMajor {}
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index acce1bf..603c7ef 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -70,6 +70,12 @@ impl LayoutType for ArbitraryStrideRowVector {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim().1)
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl StridedLayoutType for ArbitraryStrideRowVector {}
diff --git a/src/layouts/column_major.rs b/src/layouts/column_major.rs
index 184a68b..23335c0 100644
--- a/src/layouts/column_major.rs
+++ b/src/layouts/column_major.rs
@@ -63,6 +63,12 @@ impl LayoutType for ColumnMajor {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim())
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl BaseLayoutType for ColumnMajor {
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 3254bde..73fdc95 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -59,6 +59,12 @@ impl LayoutType for ColumnVector {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim().0)
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl BaseLayoutType for ColumnVector {
diff --git a/src/layouts/row_major.rs b/src/layouts/row_major.rs
index 0f33482..fba34b3 100644
--- a/src/layouts/row_major.rs
+++ b/src/layouts/row_major.rs
@@ -63,6 +63,12 @@ impl LayoutType for RowMajor {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim())
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl BaseLayoutType for RowMajor {
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index f0f5241..bb53832 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -59,6 +59,12 @@ impl LayoutType for RowVector {
     fn index_layout(&self) -> Self::IndexLayout {
         Self::IndexLayout::new(self.dim().1)
     }
+
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
 }
 
 impl BaseLayoutType for RowVector {
diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index e661aff..ceb381d 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -62,6 +62,12 @@ impl LayoutType for UpperTriangular {
         Self::IndexLayout::new(self.dim)
     }
 
+    #[inline]
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        let last = self.number_of_elements().checked_sub(1)?;
+        Some(self.convert_1d_raw(last))
+    }
+
     #[inline]
     fn number_of_elements(&self) -> IndexType {
         self.dim
diff --git a/src/traits/layout.rs b/src/traits/layout.rs
index a59d192..6a090e2 100644
--- a/src/traits/layout.rs
+++ b/src/traits/layout.rs
@@ -131,6 +131,14 @@ pub trait LayoutType {
     /// Create a new index layout that is identical to the index layout of
     /// this layout.
     fn index_layout(&self) -> Self::IndexLayout;
+
+    /// Return the largest raw memory index of all elements, or `None` if there are no elements.
+    /// The default looks at every element. Layouts that know the element should override it.
+    fn largest_raw_index(&self) -> Option<IndexType> {
+        (0..self.number_of_elements())
+            .map(|index| self.convert_1d_raw(index))
+            .max()
+    }
 }
 
 /// This layout provides a method to return layout information.
-- 
2.43.0


From 1a279273f38c55896621ec6ddd77df4207b64ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:15 +0000
Subject: [PATCH 10/10] fix: a layout of another dimension than the size types
 of a matrix is refused

---
 src/base_matrix.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b2c6662..0b30fe1 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -36,6 +36,14 @@ impl<
     > BaseMatrix<Item, Data, L, RS, CS>
 {
     pub fn new(data: Data, layout: L) -> Self {
+        let dim = layout.dim();
+        assert!(
+            (RS::N == 0 || RS::N == dim.0) && (CS::N == 0 || CS::N == dim.1),
+            "Layout has dimension {:#?}. But the type has {} rows and {} columns (0 is dynamic)",
+            dim,
+            RS::N,
+            CS::N,
+        );
         assert!(
             layout.number_of_elements() <= data.number_of_elements(),
             "Number of elements in data: {}. But layout number of elements is {})",
-- 
2.43.0

