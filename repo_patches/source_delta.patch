From 4bc758a13c480af684d390ab420c1833fe318834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 01/28] fix: broadcast views are not contiguous or uniformly
 strided unless their elements are

---
 src/ndarray/iterator/collapse_contiguous.rs | 6 +++++-
 src/ndarray/slice.rs                        | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..7108dd1 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -82,7 +82,11 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
     }
 
     for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
+        // a zero stride is only skippable on a padded axis of length 1;
+        // on a longer (broadcast) axis it means that elements are repeated
+        let skippable = stride[i - 1] == 0 && shape[i - 1] == 1;
+
+        if !skippable && stride[i - 1] != shape[i] * stride[i] {
             return None;
         }
     }
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..aa4e8e9 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,7 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            if stride == 1 || (stride == 0 && shape.iter().product::<usize>() <= 1) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
-- 
2.43.0


From 30ff0008618f716916832bb27517fdb44cd91c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 02/28] fix: keep the capacity of the buffer when an owned
 array is consumed by a view operation

---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..b41ebc7 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From 18abf94296910cab9dfd668b719b9ec28aa81396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 03/28] fix: carry into the next axis when iterating over
 several axes

---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..4d09200 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] + 1 < self.shape[i] {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From ad78c494df2b5080010e7c9075418d40a2b7d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 04/28] fix: check [] indices against the shape along every
 axis

---
 src/ndarray/index_impl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..afce1a4 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -12,20 +12,20 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
             .map(|(idx, stride)| idx * stride)
             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
-        assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
+        assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
         let i: usize = index.iter().zip(self.stride.iter())
                             .map(|(idx, stride)| idx * stride)
                             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From f66c1f9d666fe3df26647e6508ea6bb2ff2674a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 05/28] fix: refuse slices that reach outside the array

---
 src/ndarray/slice.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index aa4e8e9..7081154 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -25,6 +25,13 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
     flags
 }
 
+/// Panics if `index` selects elements outside an axis with `axis_length` elements.
+fn check_index_bounds<S: Indexer>(index: &S, axis_length: usize) {
+    let first = index.index_of_first_element();
+    assert!(first <= axis_length && index.indexed_length(axis_length) <= axis_length - first,
+            "slice out of bounds for axis with length {}", axis_length);
+}
+
 fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
     // let mut len = 1;
     // for i in 0..ndims {
@@ -42,6 +49,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     pub fn slice_along<S: Indexer>(&'a self, axis: Axis, index: S) -> NdArray<'a, T>
     {
         let axis = axis.as_absolute(self.ndims());
+        check_index_bounds(&index, self.shape[axis]);
 
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
@@ -87,6 +95,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            check_index_bounds(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
                 let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
-- 
2.43.0


From a4644c255d14da954edc866133f2a201f73fbb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 06/28] fix: refuse fill, zero and indexed writes through
 readonly views

---
 src/ndarray/fill.rs       | 3 +++
 src/ndarray/index_impl.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..d75a1fc 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -16,6 +17,8 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        assert!(self.flags().contains(NdArrayFlags::Writeable), "tensor is readonly.");
+
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index afce1a4..9f05d1a 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
@@ -26,6 +27,7 @@ impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
                             .sum();
 
         assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From 6d93ae95ffb1601bcb3f447fddf503a167f39f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 07/28] fix: allow reshaping 0-dimensional arrays

---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From 080052ae9acd436ec59de1f89add2781f82ae6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 08/28] fix: back-propagate non-uniformly strided gradients
 through a reshape

---
 src/autograd/reshape_backwards.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..dc20abc 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -1,6 +1,6 @@
 use crate::gradient_function::{GradientFuncTrait, GradientFunction};
 use crate::util::to_vec::ToVec;
-use crate::{call_next_backward, FloatDataType, NdArray, Reshape, Tensor};
+use crate::{call_next_backward, FloatDataType, NdArray, Reshape, StridedMemory, Tensor};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -11,7 +11,10 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
+        // a gradient that isn't uniformly strided (e.g. a transposed view) cannot be reshaped in place
+        let grad = if grad.is_uniformly_strided() { grad.view() } else { grad.clone() };
+
+        call_next_backward!((&grad).reshape(&self.shape),
                             self.next_function);
     }
 }
-- 
2.43.0


From 800ee1c5b982fc56bc807f21293321f7871d6dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:02 +0000
Subject: [PATCH 09/28] fix: compound assignment through strided or overlapping
 views updates exactly the target's elements

---
 src/ndarray/assign_ops.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..c4216f6 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -7,6 +7,7 @@ use crate::ops::binary_ops::{BinaryOpBitAnd, BinaryOpBitOr, BinaryOpRem, BinaryO
 use crate::RawDataType;
 use crate::{NdArray, StridedMemory};
 use paste::paste;
+use std::ops::{Add, BitAnd, BitOr, Div, Mul, Rem, Shl, Shr, Sub};
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
 
@@ -25,22 +26,21 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
                     
-                    if rhs.shape() == self.shape() {
+                    let rhs = rhs.broadcast_to(&self.shape);
+
+                    if self.is_contiguous() && !self.is_view() {
                         unsafe {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
                                                              rhs.ptr(), &rhs.stride(),
                                                              self.mut_ptr(), self.shape());
                         }
                     }
-                    
-                    // right-hand term needs broadcasting
+
+                    // the kernels only write to contiguous memory, and a view might share its data with rhs
                     else {
-                        let rhs = rhs.broadcast_to(&self.shape);
-                        
-                        unsafe {
-                        <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
-                                                         rhs.ptr(), &rhs.stride(),
-                                                         self.mut_ptr(), self.shape());
+                        let result = (&*self).$method(&rhs);
+                        for (dst, val) in self.flatiter_ptr().zip(result.flatiter()) {
+                            unsafe { *dst = val; }
                         }
                     }
                 }
@@ -52,9 +52,19 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
 
-                    unsafe {
-                        <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
-                                                                     rhs, self.mut_ptr());
+                    if self.is_contiguous() {
+                        unsafe {
+                            <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
+                                                                         rhs, self.mut_ptr());
+                        }
+                    }
+
+                    // the kernels only write to contiguous memory
+                    else {
+                        let result = (&*self).$method(rhs);
+                        for (dst, val) in self.flatiter_ptr().zip(result.flatiter()) {
+                            unsafe { *dst = val; }
+                        }
                     }
                 }
             }
-- 
2.43.0


From ce5ab254a0d4b87d2e5065a2dd0650172348e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:35 +0000
Subject: [PATCH 10/28] fix: refuse ragged data at every nesting depth

---
 src/util/homogenous.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c92f67a 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -11,14 +11,25 @@ pub(crate) trait Homogenous {
 
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
+        // nested data must be homogenous before its shape is meaningful
+        if !self.iter().all(|v| v.check_homogenous()) {
+            return false;
+        }
+
         let first_shape = self[0].shape();
         self.iter().all(|v| v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        // nested data must be homogenous before its shape is meaningful
+        if !self.iter().all(|v| v.check_homogenous()) {
+            return false;
+        }
+
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.shape() == first_shape)
     }
 }
 
@@ -29,6 +40,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From ae23bba07f4faea2180097a203f6a0c89d559101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 11/28] fix: flatten arrays of vectors by their elements
 instead of their headers

---
 src/util/flatten.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..97ef5b5 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -4,10 +4,6 @@
 // [[[0]]] -> [0]
 
 use crate::recursive_trait_base_cases;
-use crate::util::shape::Shape;
-use std::fmt::Debug;
-
-use std::ptr::copy_nonoverlapping;
 
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
@@ -27,23 +23,11 @@ where
 impl<A, T, const N: usize> Flatten<A> for [T; N]
 where
     T: Flatten<A>,
-    [T; N]: Shape,
-    A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
-- 
2.43.0


From b1bd70ec8887366c1fbff4dc716da8295a2df5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:58 +0000
Subject: [PATCH 12/28] fix: accept vectors nested five levels deep

---
 src/util/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/nested.rs b/src/util/nested.rs
index fd2fc9e..fe03011 100644
--- a/src/util/nested.rs
+++ b/src/util/nested.rs
@@ -7,7 +7,7 @@ impl<T> Nested<2> for Vec<T> where T: Nested<1> {}
 impl<T> Nested<3> for Vec<T> where T: Nested<2> {}
 
 impl<T> Nested<4> for Vec<T> where T: Nested<3> {}
-impl<T> Nested<5> for Vec<T> where T: Nested<6> {}
+impl<T> Nested<5> for Vec<T> where T: Nested<4> {}
 
 impl<T> Nested<6> for Vec<T> where T: Nested<5> {}
 impl<T> Nested<7> for Vec<T> where T: Nested<6> {}
-- 
2.43.0


From 5443e837b456d9d560626a7bba66094dbb8221b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:09 +0000
Subject: [PATCH 13/28] fix: randint samples every integer in [low, high) with
 equal probability

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..bf0a461 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -107,7 +107,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let uniform = Uniform::new(low.to_float(), high.to_float());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).floor()).unwrap())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From 944fc6289897cf67c7beaafc71243fcfb98dae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:48 +0000
Subject: [PATCH 14/28] fix: compute range lengths in the element type's own
 precision

---
 src/util/dtype.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..862bb79 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -50,7 +50,7 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
     type AsFloatType: FloatDataType;
 
     fn to_float(&self) -> Self::AsFloatType {
-        self.to_f32().unwrap().into()
+        <Self::AsFloatType as NumCast>::from(*self).unwrap()
     }
 
     fn ceil(&self) -> Self {
@@ -71,7 +71,7 @@ impl NumericDataType for u16 {
 }
 
 impl NumericDataType for u32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for u64 {
@@ -95,7 +95,7 @@ impl NumericDataType for i16 {
 }
 
 impl NumericDataType for i32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for i64 {
-- 
2.43.0


From 8b28dc965f8f43c155d542095ddc8735bdc22c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 15/28] fix: linspace returns exactly the requested number of
 values

---
 src/common/constructors.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index edb1939..c0616e2 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -221,9 +221,9 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / (<T as NumCast>::from(num).unwrap() - T::one());
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
 
-        // from start to (stop + step) to make the range inclusive
-        Self::arange_with_step(start, stop + step, step)
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -257,6 +257,8 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / <T as NumCast>::from(num).unwrap();
-        Self::arange_with_step(start, stop, step)
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 }
-- 
2.43.0


From 8f1f478d60ed4ab0f5e041b2331603747a9e0fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:42 +0000
Subject: [PATCH 16/28] fix: computation history and extracted arrays never
 refer to the memory of a dropped view source

---
 src/tensor/methods.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..d165f8a 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -33,14 +33,20 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
     }
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
+    ///
+    /// The data of a view is copied because the pointer may outlive the source of the view.
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        if self.is_view() {
+            return Rc::new(self.detach());
+        }
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
     pub fn into_ndarray(self) -> NdArray<'static, T> {
         match Rc::try_unwrap(self.array) {
-            Ok(result) => { result }
+            Ok(result) if !result.is_view() => { result }
+            Ok(view) => { view.clone() }
             Err(rc) => { (*rc).clone() }
         }
     }
-- 
2.43.0


From 0205afa6886acaa7a5eba5d1131ca7525244c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:42 +0000
Subject: [PATCH 17/28] fix: consuming reshape of a shared, non-contiguous
 tensor keeps its elements

---
 src/tensor/reshape.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..3bae7d6 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -3,6 +3,7 @@ use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
 use crate::{AxisType, Reshape, StridedMemory, Tensor, TensorDataType};
 use crate::identity_backwards::IdentityBackwards;
+use std::rc::Rc;
 
 
 impl<'a, T: TensorDataType> Reshape<T> for &'a Tensor<'a, T> {
@@ -100,7 +101,12 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        // a copy is made in the layout described by `shape` and `stride`, see `into_ndarray()`
+        let result = match Rc::try_unwrap(self.array) {
+            Ok(array) if !array.is_view() => array.reshaped_view(shape, stride),
+            Ok(view) => (&view).reshaped_view(shape, stride).clone(),
+            Err(rc) => rc.as_ref().reshaped_view(shape, stride).clone(),
+        };
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From 47be0582aa0fd9bcd8005a56f81e955ec1b6727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:02 +0000
Subject: [PATCH 18/28] fix: a consumed view keeps the lifetime of its source

---
 src/ndarray/reshape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index b41ebc7..1c0aff6 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -53,8 +53,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     }
 }
 
-impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
-    type Output = NdArray<'static, T>;
+impl<'a, T: RawDataType> Reshape<T> for NdArray<'a, T> {
+    type Output = NdArray<'a, T>;
 
     unsafe fn reshaped_view(mut self, shape: Vec<usize>, stride: Vec<usize>) -> Self::Output {
         let flags = update_flags_with_contiguity(self.flags, &shape, &stride);
-- 
2.43.0


From 83d02c9acef55802f46d0b275baa1729d18530f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:13 +0000
Subject: [PATCH 19/28] fix: a data slice cannot outlive its array

---
 src/ndarray/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/methods.rs b/src/ndarray/methods.rs
index 4c8b941..4875f6d 100644
--- a/src/ndarray/methods.rs
+++ b/src/ndarray/methods.rs
@@ -38,7 +38,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     /// let data = ndarray.data_slice();
     /// assert_eq!(data, &[50, 60, -5, -10]);
     /// ```
-    pub fn data_slice(&self) -> &'a [T] {
+    pub fn data_slice(&self) -> &[T] {
         assert!(self.is_contiguous(), "cannot get data slice of non-contiguous tensor");
         unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
     }
-- 
2.43.0


From 5adb483f23a8f4cb9f2e4180569a9bd0a70c7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:51 +0000
Subject: [PATCH 20/28] fix: a flat iterator cannot outlive its array

---
 src/ndarray/iterator/flat_iterator.rs | 11 +++++++----
 src/ndarray/iterator/iterators.rs     |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ndarray/iterator/flat_iterator.rs b/src/ndarray/iterator/flat_iterator.rs
index e94ec40..e2a4eb3 100644
--- a/src/ndarray/iterator/flat_iterator.rs
+++ b/src/ndarray/iterator/flat_iterator.rs
@@ -1,20 +1,23 @@
 use crate::buffer_iterator::BufferIterator;
 use crate::dtype::RawDataType;
 use crate::NdArray;
+use std::marker::PhantomData;
 
-pub struct FlatIterator<T: RawDataType> {
+pub struct FlatIterator<'a, T: RawDataType> {
     buffer_iterator: BufferIterator<T>,
+    _marker: PhantomData<&'a T>,
 }
 
-impl<T: RawDataType> FlatIterator<T> {
-    pub(super) fn from(tensor: &NdArray<T>) -> Self {
+impl<'a, T: RawDataType> FlatIterator<'a, T> {
+    pub(super) fn from(tensor: &'a NdArray<T>) -> Self {
         Self {
             buffer_iterator: BufferIterator::from(tensor),
+            _marker: PhantomData,
         }
     }
 }
 
-impl<T: RawDataType> Iterator for FlatIterator<T> {
+impl<T: RawDataType> Iterator for FlatIterator<'_, T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
diff --git a/src/ndarray/iterator/iterators.rs b/src/ndarray/iterator/iterators.rs
index 10e7658..d1b8cad 100644
--- a/src/ndarray/iterator/iterators.rs
+++ b/src/ndarray/iterator/iterators.rs
@@ -6,7 +6,7 @@ use crate::axis::{AxesType, AxisType};
 use crate::buffer_iterator::BufferIterator;
 
 impl<T: RawDataType> NdArray<'_, T> {
-    pub fn flatiter(&self) -> FlatIterator<T> {
+    pub fn flatiter(&self) -> FlatIterator<'_, T> {
         FlatIterator::from(self)
     }
 
-- 
2.43.0


From 9e3fccd217441a2dea7ef87bc46fcdda187f6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 21/28] fix: minima and maxima of infinite elements

---
 src/ndarray/reduce.rs           |  6 +++---
 src/ops/reduce_max.rs           | 17 +++++++++++++++--
 src/ops/reduce_min.rs           | 17 +++++++++++++++--
 src/ops/reduce_min_magnitude.rs |  7 ++++---
 4 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/ndarray/reduce.rs b/src/ndarray/reduce.rs
index 5a5decf..c09c4cf 100644
--- a/src/ndarray/reduce.rs
+++ b/src/ndarray/reduce.rs
@@ -165,7 +165,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min, axes, T::max_value())
+        self.reduce_along(partial_min, axes, T::min_identity())
     }
 
     /// Computes the maximum of all elements in the array.
@@ -184,7 +184,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn max_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_max, axes, T::min_value())
+        self.reduce_along(partial_max, axes, T::max_identity())
     }
 
     /// Computes the minimum absolute value of all elements in the array.
@@ -203,7 +203,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_magnitude_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min_magnitude, axes, T::max_value())
+        self.reduce_along(partial_min_magnitude, axes, T::min_identity())
     }
 
     /// Computes the maximum absolute value of all elements in the array.
diff --git a/src/ops/reduce_max.rs b/src/ops/reduce_max.rs
index c4147b0..d1e08f0 100644
--- a/src/ops/reduce_max.rs
+++ b/src/ops/reduce_max.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_max;
 
 pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
+    /// The value which leaves every element unchanged when reduced with it.
+    fn max_identity() -> Self {
+        Self::min_value()
+    }
+
     /// Computes the max of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn max_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
 
         for _ in 0..count {
             output = partial_max(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_max(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMax for T {}
 
 impl ReduceMax for f32 {
+    fn max_identity() -> Self {
+        f32::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMax for f32 {
 }
 
 impl ReduceMax for f64 {
+    fn max_identity() -> Self {
+        f64::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min.rs b/src/ops/reduce_min.rs
index c30cdb4..74f1ec8 100644
--- a/src/ops/reduce_min.rs
+++ b/src/ops/reduce_min.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_min;
 
 pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
+    /// The value which leaves every element unchanged when reduced with it.
+    fn min_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
 
         for _ in 0..count {
             output = partial_min(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMin for T {}
 
 impl ReduceMin for f32 {
+    fn min_identity() -> Self {
+        f32::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMin for f32 {
 }
 
 impl ReduceMin for f64 {
+    fn min_identity() -> Self {
+        f64::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min_magnitude.rs b/src/ops/reduce_min_magnitude.rs
index 340069a..df5bea0 100644
--- a/src/ops/reduce_min_magnitude.rs
+++ b/src/ops/reduce_min_magnitude.rs
@@ -3,9 +3,10 @@ use crate::{IntegerDataType};
 use num::{Bounded};
 use crate::absolute::Absolute;
 use crate::iterator::collapse_contiguous::has_uniform_stride;
+use crate::ops::reduce_min::ReduceMin;
 use crate::util::partial_ord::{partial_min_magnitude};
 
-pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
+pub(crate) trait ReduceMinMagnitude: ReduceMin + Copy + Absolute + Bounded + PartialOrd {
     /// Computes the min magnitude of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -19,7 +20,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_magnitude_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
 
         for _ in 0..count {
             output = partial_min_magnitude(*ptr, output);
@@ -48,7 +49,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min_magnitude(*ptr.add(index), output);
         }
-- 
2.43.0


From bd4210d7306d754b41c340d7a09e4a91e62c16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:12 +0000
Subject: [PATCH 22/28] fix: results of identity operations do not expose or
 reset the gradient of their operand

---
 src/autograd/identity_backwards.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/autograd/identity_backwards.rs b/src/autograd/identity_backwards.rs
index 7f65f9b..cffad48 100644
--- a/src/autograd/identity_backwards.rs
+++ b/src/autograd/identity_backwards.rs
@@ -1,10 +1,25 @@
-use crate::gradient_function::GradientFunction;
-use crate::{FloatDataType, Tensor};
+use crate::gradient_function::{GradientFuncTrait, GradientFunction};
+use crate::{call_next_backward, FloatDataType, NdArray, Tensor};
+use std::cell::RefCell;
+use std::rc::Rc;
 
-pub(crate) struct IdentityBackwards {}
+/// Backwards function for operations that pass the gradient on unchanged.
+///
+/// This is a node of its own so that the result doesn't expose the gradient of a leaf as its own.
+pub(crate) struct IdentityBackwards<T: FloatDataType> {
+    next_function: GradientFunction<T>,
+}
+
+impl<T: FloatDataType> GradientFuncTrait<T> for IdentityBackwards<T> {
+    fn backward(&mut self, grad: &NdArray<T>) {
+        call_next_backward!(grad, self.next_function);
+    }
+}
 
-impl IdentityBackwards {
-    pub(crate) fn new<T: FloatDataType>(tensor: &Tensor<T>) -> GradientFunction<T> {
-        tensor.grad_fn()
+impl<T: FloatDataType> IdentityBackwards<T> {
+    pub(crate) fn new(tensor: &Tensor<T>) -> GradientFunction<T> {
+        Rc::new(RefCell::new(Self {
+            next_function: tensor.grad_fn(),
+        }))
     }
 }
-- 
2.43.0


From 5d0d9efa6b519da763fe0e6569d1f0182e8144de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 23/28] fix: einsum of scalar operands without labels

---
 src/linalg/einsum.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..8af8666 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -397,6 +397,12 @@ where
         permute_array(&mut strides[0..*iter_ndims], &best_axis_ordering);
         permute_array(iter_shape, &best_axis_ordering);
     }
+
+    // without any labels, all operands are scalars: iterate over a single dummy axis
+    if *iter_ndims == 0 {
+        iter_shape.push(1);
+        *iter_ndims = 1;
+    }
 }
 
 
-- 
2.43.0


From 9f1c82f8c7ded8ce52d2b3b5b0d6ba6616ab8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:50 +0000
Subject: [PATCH 24/28] fix: refuse einsum subscripts that do not match the
 number of operands

---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 8af8666..036676e 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -313,6 +313,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum needs one subscripts string per operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0


From 8a337d93b1d285f17f2444960c28034d49a75b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:07 +0000
Subject: [PATCH 25/28] fix: a broadcast axis in front of a padded axis is not
 uniformly strided

---
 src/ndarray/iterator/collapse_contiguous.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index 7108dd1..d343d10 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -81,12 +81,12 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
         return Some(0);
     }
 
-    for i in 1..ndims {
-        // a zero stride is only skippable on a padded axis of length 1;
-        // on a longer (broadcast) axis it means that elements are repeated
-        let skippable = stride[i - 1] == 0 && shape[i - 1] == 1;
+    // leading axes of length 1 with a zero stride are padding and can be skipped;
+    // on a longer (broadcast) axis a zero stride means that elements are repeated
+    let padding = (0..ndims - 1).take_while(|&i| stride[i] == 0 && shape[i] == 1).count();
 
-        if !skippable && stride[i - 1] != shape[i] * stride[i] {
+    for i in padding + 1..ndims {
+        if stride[i - 1] != shape[i] * stride[i] {
             return None;
         }
     }
-- 
2.43.0


From 8a87c5384e0960178080275996786136fb326575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:37 +0000
Subject: [PATCH 26/28] fix: back-propagate a gradient that is a view into an
 accumulator of the same pass

---
 src/tensor/autograd.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd.rs b/src/tensor/autograd.rs
index 06ac769..3a154d2 100644
--- a/src/tensor/autograd.rs
+++ b/src/tensor/autograd.rs
@@ -153,7 +153,13 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
         let gradient = gradient.as_ref();
         assert_eq!(gradient.shape(), self.shape());
 
-        self.grad_fn.borrow_mut().backward(gradient);
+        if gradient.is_view() {
+            // it may be a view into a gradient that this pass accumulates into
+            let gradient: NdArray<T> = gradient.clone();
+            self.grad_fn.borrow_mut().backward(&gradient);
+        } else {
+            self.grad_fn.borrow_mut().backward(gradient);
+        }
     }
 
     /// Computes the gradient of the `self` with respect to its leaf tensors.
-- 
2.43.0


From 2baa7da75f242dba3c782d530fb75ea9e4aec047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:48 +0000
Subject: [PATCH 27/28] fix: rand never returns 1

---
 src/common/random.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index bf0a461..2b50184 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -47,16 +47,8 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
     where
         T: FloatDataType
     {
-        let mut rng = thread_rng();
-        let shape = shape.to_vec();
-        let n = shape.iter().product();
-
-        let uniform = Uniform::new(0.0, 1.0);
-        let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
-            .collect();
-
-        unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
+        // sampled in T itself: rounding an f64 sample to f32 could yield 1
+        Self::uniform(shape, T::zero(), T::one())
     }
 
     /// Samples an `NdArray` with the specified shape
-- 
2.43.0


From 5e6542fd3a03af5a60f63d39795f1f871cd4385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:49 +0000
Subject: [PATCH 28/28] fix: randint samples in the element type itself, so
 large bounds are exact

---
 src/common/random.rs | 6 +++---
 src/util/dtype.rs    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 2b50184..ea37ad1 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,6 +1,6 @@
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
-use num::{Float, NumCast};
+use num::NumCast;
 use rand::distributions::{Distribution, Uniform};
 use rand::thread_rng;
 use rand_distr::Normal;
@@ -97,9 +97,9 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(low.to_float(), high.to_float());
+        let uniform = Uniform::new(low, high);
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).floor()).unwrap())
+            .map(|_| uniform.sample(&mut rng).floor())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 862bb79..cb8b558 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -45,7 +45,7 @@ impl RawDataType for bool {}
 pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
 + Sum + Product + SubAssign + Sub<Output=Self> + Div<Output=Self> + MulAdd<Output=Self> + DotProduct
 + ReduceSum + ReduceProduct + ReduceMin + ReduceMax + ReduceMinMagnitude + ReduceMaxMagnitude
-+ BinaryOpAdd + BinaryOpSub + BinaryOpMul
++ BinaryOpAdd + BinaryOpSub + BinaryOpMul + SampleUniform
 {
     type AsFloatType: FloatDataType;
 
-- 
2.43.0

