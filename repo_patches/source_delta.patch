From 89d7ff8e1de1d265cdf789987deb7d3c389bc0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 001/138] fix: canonicalize binary VarBinArray to a BinaryView
 instead of failing to cast to Utf8View

---
 vortex-array/src/array/varbin/flatten.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbin/flatten.rs b/vortex-array/src/array/varbin/flatten.rs
index ebd27da..15cb22f 100644
--- a/vortex-array/src/array/varbin/flatten.rs
+++ b/vortex-array/src/array/varbin/flatten.rs
@@ -1,4 +1,5 @@
 use arrow_schema::DataType;
+use vortex_dtype::DType;
 use vortex_error::VortexResult;
 
 use crate::array::varbin::arrow::varbin_to_arrow;
@@ -11,7 +12,11 @@ impl IntoCanonical for VarBinArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let nullable = self.dtype().is_nullable();
         let array_ref = varbin_to_arrow(&self)?;
-        let casted = arrow_cast::cast(array_ref.as_ref(), &DataType::Utf8View)?;
+        let view_type = match self.dtype() {
+            DType::Binary(_) => DataType::BinaryView,
+            _ => DataType::Utf8View,
+        };
+        let casted = arrow_cast::cast(array_ref.as_ref(), &view_type)?;
 
         VarBinViewArray::try_from(Array::from_arrow(casted, nullable)).map(Canonical::VarBinView)
     }
-- 
2.43.0


From 08a7c9275a32fd63b2bd9c5c1e37b8ffbe8ba5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 002/138] fix: sparse arrays honour the fill value and patch
 validity when canonicalizing and computing validity

---
 vortex-array/src/array/sparse/flatten.rs | 59 +++++++++++++-----------
 vortex-array/src/array/sparse/mod.rs     | 36 ++++++---------
 2 files changed, 45 insertions(+), 50 deletions(-)

diff --git a/vortex-array/src/array/sparse/flatten.rs b/vortex-array/src/array/sparse/flatten.rs
index 17049c1..3be0bec 100644
--- a/vortex-array/src/array/sparse/flatten.rs
+++ b/vortex-array/src/array/sparse/flatten.rs
@@ -1,4 +1,4 @@
-use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, MutableBuffer};
+use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder};
 use itertools::Itertools;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType};
 use vortex_error::{VortexError, VortexResult};
@@ -8,25 +8,17 @@ use crate::array::primitive::PrimitiveArray;
 use crate::array::sparse::SparseArray;
 use crate::array::BoolArray;
 use crate::validity::Validity;
-use crate::{ArrayDType, Canonical, IntoArrayVariant, IntoCanonical};
+use crate::{ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
 
 impl IntoCanonical for SparseArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         // Resolve our indices into a vector of usize applying the offset
         let indices = self.resolved_indices();
-
-        let validity_buffer =
-            BooleanBufferBuilder::new_from_buffer(MutableBuffer::new_null(self.len()), self.len());
+        let validity = sparse_validity(&self, &indices)?;
 
         if matches!(self.dtype(), DType::Bool(_)) {
             let values = self.values().into_bool()?.boolean_buffer();
-            canonicalize_sparse_bools(
-                values,
-                &indices,
-                self.len(),
-                self.fill_value(),
-                validity_buffer,
-            )
+            canonicalize_sparse_bools(values, &indices, self.len(), self.fill_value(), validity)
         } else {
             let values = self.values().into_primitive()?;
             match_each_native_ptype!(values.ptype(), |$P| {
@@ -35,19 +27,39 @@ impl IntoCanonical for SparseArray {
                     &indices,
                     self.len(),
                     self.fill_value(),
-                    validity_buffer
+                    validity
                 )
             })
         }
     }
 }
 
+/// Positions without a patch take the validity of the fill value, all others that of their patch.
+fn sparse_validity(array: &SparseArray, indices: &[usize]) -> VortexResult<Validity> {
+    if !array.dtype().is_nullable() {
+        return Ok(Validity::NonNullable);
+    }
+
+    let patches_validity = array
+        .values()
+        .with_dyn(|a| a.logical_validity())
+        .into_array()
+        .into_bool()?
+        .boolean_buffer();
+    let mut validity = BooleanBufferBuilder::new(array.len());
+    validity.append_n(array.len(), !array.fill_value().is_null());
+    for (i, idx) in indices.iter().enumerate() {
+        validity.set_bit(*idx, patches_validity.value(i));
+    }
+    Ok(Validity::from(validity.finish()))
+}
+
 fn canonicalize_sparse_bools(
     values: BooleanBuffer,
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity_buffer: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let fill_bool: bool = if fill_value.is_null() {
         bool::default()
@@ -57,13 +69,9 @@ fn canonicalize_sparse_bools(
     let mut flat_bools = vec![fill_bool; len];
     for (i, idx) in indices.iter().enumerate() {
         flat_bools[*idx] = values.value(i);
-        validity_buffer.set_bit(*idx, true);
     }
 
-    let validity = Validity::from(validity_buffer.finish());
-    let bool_values = BoolArray::from_vec(flat_bools, validity);
-
-    Ok(Canonical::Bool(bool_values))
+    Ok(Canonical::Bool(BoolArray::from_vec(flat_bools, validity)))
 }
 
 fn canonicalize_sparse_primitives<
@@ -73,7 +81,7 @@ fn canonicalize_sparse_primitives<
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let primitive_fill = if fill_value.is_null() {
         T::default()
@@ -84,16 +92,11 @@ fn canonicalize_sparse_primitives<
 
     for (v, idx) in values.iter().zip_eq(indices) {
         result[*idx] = *v;
-        validity.set_bit(*idx, true);
     }
 
-    let validity = validity.finish();
-    let array = if fill_value.is_null() {
-        PrimitiveArray::from_vec(result, Validity::from(validity))
-    } else {
-        PrimitiveArray::from(result)
-    };
-    Ok(Canonical::Primitive(array))
+    Ok(Canonical::Primitive(PrimitiveArray::from_vec(
+        result, validity,
+    )))
 }
 
 #[cfg(test)]
diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 33ca689..760d81f 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -5,7 +5,6 @@ use vortex_dtype::{match_each_integer_ptype, DType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 use vortex_scalar::{Scalar, ScalarValue};
 
-use crate::array::constant::ConstantArray;
 use crate::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use crate::compute::unary::scalar_at;
 use crate::compute::{search_sorted, SearchResult, SearchSortedSide};
@@ -191,28 +190,21 @@ impl ArrayValidity for SparseArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        let validity = if self.fill_value().is_null() {
-            // If we have a null fill value, then the result is a Sparse array with a fill_value
-            // of true, and patch values of false.
-            Self::try_new_with_offset(
-                self.indices(),
-                ConstantArray::new(true, self.indices().len()).into_array(),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
-        } else {
-            // If the fill_value is non-null, then the validity is based on the validity of the
-            // existing values.
-            Self::try_new_with_offset(
-                self.indices(),
-                self.values()
-                    .with_dyn(|a| a.logical_validity().into_array()),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
+        if !self.dtype().is_nullable() {
+            return LogicalValidity::AllValid(self.len());
         }
+
+        // Positions without a patch take the validity of the fill value, all others that of
+        // their patch.
+        let validity = Self::try_new_with_offset(
+            self.indices(),
+            self.values()
+                .with_dyn(|a| a.logical_validity())
+                .into_array(),
+            self.len(),
+            self.indices_offset(),
+            (!self.fill_value().is_null()).into(),
+        )
         .vortex_expect("Error determining logical validity for sparse array");
         LogicalValidity::Array(validity.into_array())
     }
-- 
2.43.0


From 441d2b2e5d74a6eaabaf0b14826f5a4378894726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 003/138] fix: DeltaArray keeps its validity when slicing,
 serializing and encoding nullable arrays

---
 encodings/fastlanes/src/delta/compress.rs | 12 +++++++++---
 encodings/fastlanes/src/delta/mod.rs      |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index b7b5e44..3a9f69f 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -103,13 +103,19 @@ pub fn delta_decompress(array: DeltaArray) -> VortexResult<PrimitiveArray> {
     let decoded = match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
         PrimitiveArray::from_vec(
             decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice()),
-            array.validity()
+            Validity::NonNullable
         )
     });
 
-    decoded
+    // The validity only covers the logical range of the array, so attach it after slicing.
+    let sliced = decoded
         .slice(array.offset(), array.offset() + array.len())?
-        .into_primitive()
+        .into_primitive()?;
+    Ok(PrimitiveArray::new(
+        sliced.buffer().clone(),
+        sliced.ptype(),
+        array.validity(),
+    ))
 }
 
 fn decompress_primitive<T: NativePType + Delta + Transpose + WrappingAdd>(
diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ef07764..ffcc4ef 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -73,7 +73,7 @@ impl DeltaArray {
         Self::try_from_delta_compress_parts(
             bases.into_array(),
             deltas.into_array(),
-            Validity::NonNullable,
+            array.validity(),
         )
     }
 
@@ -238,7 +238,8 @@ impl ArrayValidity for DeltaArray {
 impl AcceptArrayVisitor for DeltaArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
         visitor.visit_child("bases", &self.bases())?;
-        visitor.visit_child("deltas", &self.deltas())
+        visitor.visit_child("deltas", &self.deltas())?;
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 058f6986178de34ad30036a4dff9787813e5d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 004/138] fix: ALP preserves the sign of negative zero

---
 encodings/alp/src/alp/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/encodings/alp/src/alp/mod.rs b/encodings/alp/src/alp/mod.rs
index c86cce8..0cb5629 100644
--- a/encodings/alp/src/alp/mod.rs
+++ b/encodings/alp/src/alp/mod.rs
@@ -4,6 +4,7 @@ use std::mem::size_of;
 use itertools::Itertools;
 use num_traits::{CheckedSub, Float, PrimInt, ToPrimitive};
 use serde::{Deserialize, Serialize};
+use vortex_dtype::NativePType;
 
 mod array;
 mod compress;
@@ -33,7 +34,7 @@ mod private {
     impl Sealed for f64 {}
 }
 
-pub trait ALPFloat: private::Sealed + Float + Display + 'static {
+pub trait ALPFloat: private::Sealed + Float + NativePType + 'static {
     type ALPInt: PrimInt + Display + ToPrimitive;
 
     const FRACTIONAL_BITS: u8;
@@ -143,7 +144,8 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     fn encode_single(value: Self, exponents: Exponents) -> Result<Self::ALPInt, Self> {
         let encoded = unsafe { Self::encode_single_unchecked(value, exponents) };
         let decoded = Self::decode_single(encoded, exponents);
-        if decoded == value {
+        // bitwise comparison: -0.0 == 0.0, but only 0.0 decodes back to itself
+        if decoded.is_eq(value) {
             return Ok(encoded);
         }
         Err(value)
@@ -191,7 +193,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
     encoded_output.extend(chunk.iter().map(|v| {
         let encoded = unsafe { T::encode_single_unchecked(*v, exp) };
         let decoded = T::decode_single(encoded, exp);
-        let neq = (decoded != *v) as usize;
+        let neq = !decoded.is_eq(*v) as usize;
         chunk_patch_count += neq;
         encoded
     }));
@@ -213,7 +215,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
             // write() is only safe to call more than once because the values are primitive (i.e., Drop is a no-op)
             patch_indices_mut[chunk_patch_index].write(i as u64);
             patch_values_mut[chunk_patch_index].write(chunk[i - num_prev_encoded]);
-            chunk_patch_index += (decoded != chunk[i - num_prev_encoded]) as usize;
+            chunk_patch_index += !decoded.is_eq(chunk[i - num_prev_encoded]) as usize;
         }
         assert_eq!(chunk_patch_index, chunk_patch_count);
         unsafe {
-- 
2.43.0


From d6f4c49ac0edcbdd48218959a4a0ce607f149ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 005/138] fix: ALP-RD arrays canonicalize to their own
 nullability

---
 encodings/alp/src/alp_rd/array.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index f3d5611..ef69ab4 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -5,7 +5,7 @@ use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use vortex::array::{PrimitiveArray, SparseArray};
 use vortex::encoding::ids;
 use vortex::stats::{ArrayStatisticsCompute, StatsSet};
-use vortex::validity::{ArrayValidity, LogicalValidity};
+use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
 use vortex_dtype::{DType, Nullability, PType};
 use vortex_error::{vortex_bail, VortexExpect, VortexResult};
@@ -204,6 +204,12 @@ impl IntoCanonical for ALPRDArray {
             exc_u16 = PrimitiveArray::from(Vec::<u16>::new());
         }
 
+        let validity = if self.dtype().is_nullable() {
+            self.logical_validity().into_validity()
+        } else {
+            Validity::NonNullable
+        };
+
         let decoded_array = if self.is_f32() {
             PrimitiveArray::from_vec(
                 alp_rd_decode::<f32>(
@@ -214,7 +220,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         } else {
             PrimitiveArray::from_vec(
@@ -226,7 +232,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         };
 
-- 
2.43.0


From f2349a3e8b3f221618f5f8c0bb70a491fc6324e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 006/138] fix: run-end encoding keeps 0.0 and -0.0 in separate
 runs

---
 encodings/runend/src/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index d3d5883..21cd0fe 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -80,7 +80,8 @@ fn runend_encode_primitive<T: NativePType>(elements: &[T]) -> (Vec<u64>, Vec<T>)
     let mut last = elements[0];
     let mut end = 1;
     for &e in elements.iter().skip(1) {
-        if e != last {
+        // bitwise comparison: 0.0 and -0.0 are distinct values
+        if !e.is_eq(last) {
             ends.push(end);
             values.push(last);
         }
-- 
2.43.0


From 7bdfb0e9412951cfa9de9f1bcb6a6c4ffe500ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 007/138] fix: zero-length buffers read from IPC are aligned

---
 vortex-buffer/src/lib.rs           | 2 ++
 vortex-serde/src/message_reader.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index 856ee2c..e454a53 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -109,6 +109,8 @@ impl Buffer {
     pub fn into_arrow(self) -> ArrowBuffer {
         match self {
             Buffer::Arrow(a) => a,
+            // an empty vec is dangling, and not aligned for any type wider than a byte
+            Buffer::Bytes(b) if b.is_empty() => ArrowMutableBuffer::from_len_zeroed(0).into(),
             Buffer::Bytes(b) => ArrowBuffer::from_vec(Vec::<u8>::from(b)),
         }
     }
diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index f3737ad..5bc8114 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -293,7 +293,12 @@ impl ArrayBufferReader {
                         // Strip off any padding from the previous buffer
                         bytes.advance(buffer.padding() as usize);
 
-                        Buffer::from(data_buffer)
+                        if data_buffer.is_empty() {
+                            // empty bytes may point anywhere, without regard for alignment
+                            Buffer::from_len_zeroed(0)
+                        } else {
+                            Buffer::from(data_buffer)
+                        }
                     })
                     .collect::<Vec<_>>();
 
-- 
2.43.0


From 51d9e3695f11aab00f8008124ed9ddaa88325b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 008/138] fix: constant null arrays can be canonicalized

---
 vortex-array/src/array/constant/canonical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index cc33f17..bdd579a 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -7,7 +7,7 @@ use vortex_scalar::{BinaryScalar, BoolScalar, Utf8Scalar};
 
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
-use crate::array::{BinaryView, BoolArray, VarBinViewArray, VIEW_SIZE_BYTES};
+use crate::array::{BinaryView, BoolArray, NullArray, VarBinViewArray, VIEW_SIZE_BYTES};
 use crate::validity::Validity;
 use crate::{ArrayDType, Canonical, IntoArray, IntoCanonical};
 
@@ -15,6 +15,10 @@ impl IntoCanonical for ConstantArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let scalar = &self.owned_scalar();
 
+        if matches!(self.dtype(), DType::Null) {
+            return Ok(Canonical::Null(NullArray::new(self.len())));
+        }
+
         let validity = match self.dtype().nullability() {
             Nullability::NonNullable => Validity::NonNullable,
             Nullability::Nullable => match scalar.is_null() {
-- 
2.43.0


From 1861e62606129e7f37b531ee0cfe03d4a20c33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 009/138] fix: taking from a VarBinViewArray keeps its
 nullability

---
 vortex-array/src/array/varbinview/compute.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbinview/compute.rs b/vortex-array/src/array/varbinview/compute.rs
index 4c14f4a..2ab1190 100644
--- a/vortex-array/src/array/varbinview/compute.rs
+++ b/vortex-array/src/array/varbinview/compute.rs
@@ -71,8 +71,7 @@ impl TakeFn for VarBinViewArray {
         let indices_arrow = indices.clone().into_canonical()?.into_arrow()?;
 
         let take_arrow = arrow_select::take::take(&array_ref, &indices_arrow, None)?;
-        let nullable = take_arrow.is_nullable();
-        Ok(Array::from_arrow(take_arrow, nullable))
+        Ok(Array::from_arrow(take_arrow, self.dtype().is_nullable()))
     }
 }
 
-- 
2.43.0


From c5b6c6481070234952e9fdc27f599fd020f5f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 010/138] fix: RunEndBoolArray keeps validity in slice, take
 and scalar_at

---
 encodings/runend-bool/src/compute.rs | 30 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index d6a71b6..418b816 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -1,7 +1,7 @@
 use vortex::array::BoolArray;
 use vortex::compute::unary::ScalarAtFn;
 use vortex::compute::{slice, ArrayCompute, SliceFn, TakeFn};
-use vortex::{Array, IntoArray, IntoArrayVariant, ToArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -26,19 +26,22 @@ impl ArrayCompute for RunEndBoolArray {
 impl ScalarAtFn for RunEndBoolArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         let start = self.start();
-        Ok(Scalar::from(value_at_index(
-            self.find_physical_index(index)?,
-            start,
-        )))
+        Ok(Scalar::bool(
+            value_at_index(self.find_physical_index(index)?, start),
+            self.dtype().nullability(),
+        ))
     }
 
     fn scalar_at_unchecked(&self, index: usize) -> Scalar {
         let start = self.start();
-        Scalar::from(value_at_index(
-            self.find_physical_index(index)
-                .vortex_expect("Search must be implemented for the underlying index array"),
-            start,
-        ))
+        Scalar::bool(
+            value_at_index(
+                self.find_physical_index(index)
+                    .vortex_expect("Search must be implemented for the underlying index array"),
+                start,
+            ),
+            self.dtype().nullability(),
+        )
     }
 }
 
@@ -59,11 +62,12 @@ impl TakeFn for RunEndBoolArray {
                 .collect::<VortexResult<Vec<_>>>()?
         });
         let start = self.start();
-        Ok(BoolArray::from(
+        Ok(BoolArray::from_vec(
             physical_indices
                 .iter()
                 .map(|&it| value_at_index(it, start))
                 .collect::<Vec<_>>(),
+            self.validity().take(indices)?,
         )
         .to_array())
     }
@@ -77,9 +81,9 @@ impl SliceFn for RunEndBoolArray {
         Ok(Self::with_offset_and_size(
             slice(self.ends(), slice_begin, slice_end + 1)?,
             value_at_index(slice_begin, self.start()),
-            self.validity().slice(slice_begin, slice_end + 1)?,
+            self.validity().slice(start, stop)?,
             stop - start,
-            start,
+            start + self.offset(),
         )?
         .into_array())
     }
-- 
2.43.0


From fbb3b840e7f0212d00293f6045dee5b0d31ef919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 011/138] fix: searching a sparse array takes a non-null fill
 value into account

---
 vortex-array/src/array/sparse/compute/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index c875c22..e518384 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -6,8 +6,8 @@ use crate::array::sparse::SparseArray;
 use crate::array::PrimitiveArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use crate::compute::{
-    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSortedFn, SearchSortedSide,
-    SliceFn, TakeFn,
+    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
+    SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::{Array, IntoArray, IntoArrayVariant};
 
@@ -54,6 +54,15 @@ impl ScalarAtFn for SparseArray {
 
 impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if !self.fill_value().is_null() {
+            // The fill value takes part in the order, so we can't only look at the patches
+            return Ok(SearchSorted::search_sorted(self.as_ref(), value, side));
+        }
+
+        if self.indices().is_empty() {
+            return Ok(SearchResult::NotFound(0));
+        }
+
         search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
             let sidx = sr.to_offsets_index(self.metadata().indices_len);
             let index: usize = scalar_at(self.indices(), sidx)?.as_ref().try_into()?;
-- 
2.43.0


From 59b5708caa3e33ea16b52b8915550cf9bc51a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 012/138] fix: FSST handles empty strings that point nowhere

---
 encodings/fsst/src/compress.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/encodings/fsst/src/compress.rs b/encodings/fsst/src/compress.rs
index 4f19755..bef33dc 100644
--- a/encodings/fsst/src/compress.rs
+++ b/encodings/fsst/src/compress.rs
@@ -72,6 +72,9 @@ where
     for string in iter {
         match string {
             None => {}
+            // There is nothing to learn from empty strings, and fsst computes the address 8 bytes
+            // before their end, which overflows for a dangling pointer.
+            Some([]) => {}
             Some(b) => lines.push(b),
         }
     }
@@ -99,6 +102,10 @@ where
                 builder.push_null();
                 uncompressed_lengths.push(0);
             }
+            Some([]) => {
+                uncompressed_lengths.push(0);
+                builder.push_value([]);
+            }
             Some(s) => {
                 uncompressed_lengths.push(s.len() as i32);
 
-- 
2.43.0


From b1840d7c872d4af11ff2aabf1782a6c50a3e1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 013/138] fix: empty slices at the end of a run-end array

---
 encodings/runend/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/runend/src/array.rs b/encodings/runend/src/array.rs
index 25c8922..de766b3 100644
--- a/encodings/runend/src/array.rs
+++ b/encodings/runend/src/array.rs
@@ -59,7 +59,7 @@ impl RunEndArray {
             );
         }
 
-        if offset != 0 && !ends.is_empty() {
+        if offset != 0 && length != 0 && !ends.is_empty() {
             let first_run_end: usize = scalar_at(&ends, 0)?.as_ref().try_into()?;
             if first_run_end <= offset {
                 vortex_bail!("First run end {first_run_end} must be bigger than offset {offset}");
-- 
2.43.0


From 9d6c9e5c675972616ce2c2cb4aed137fae818891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 014/138] fix: StructArray visits its validity child

---
 vortex-array/src/array/struct_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index cf31fbb..3613d27 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -185,7 +185,7 @@ impl AcceptArrayVisitor for StructArray {
                 .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.nfields()))?;
             visitor.visit_child(&format!("\"{}\"", name), &child)?;
         }
-        Ok(())
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 71a46aca1cc4ade3a112f3ae69dc2361321ecfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 015/138] fix: empty slices of RoaringIntArray

---
 encodings/roaring/src/integer/compute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encodings/roaring/src/integer/compute.rs b/encodings/roaring/src/integer/compute.rs
index 84df832..a0f595a 100644
--- a/encodings/roaring/src/integer/compute.rs
+++ b/encodings/roaring/src/integer/compute.rs
@@ -41,6 +41,10 @@ impl ScalarAtFn for RoaringIntArray {
 
 impl SliceFn for RoaringIntArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Self::try_new(Bitmap::new(), self.ptype()).map(IntoArray::into_array);
+        }
+
         let mut bitmap = self.owned_bitmap();
         let start = bitmap
             .select(start as u32)
-- 
2.43.0


From 9cb526df713512b7d70c19b0689a9e3d0b31cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 016/138] fix: BoolArray index and slice iterators start at the
 array's bit offset

---
 vortex-array/src/array/bool/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/bool/mod.rs b/vortex-array/src/array/bool/mod.rs
index ea3c2c2..1965a43 100644
--- a/vortex-array/src/array/bool/mod.rs
+++ b/vortex-array/src/array/bool/mod.rs
@@ -97,11 +97,19 @@ impl ArrayVariants for BoolArray {
 
 impl BoolArrayTrait for BoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        Box::new(BitIndexIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitIndexIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        Box::new(BitSliceIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitSliceIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 }
 
-- 
2.43.0


From c7be43e62c43123976eb3960a7411bfba18fed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 017/138] fix: f16 scalars can be read from unsigned integers
 of any width

---
 vortex-scalar/src/pvalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 997d1c5..3595efe 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -225,7 +225,11 @@ impl TryFrom<PValue> for f16 {
     fn try_from(value: PValue) -> Result<Self, Self::Error> {
         // We serialize f16 as u16.
         match value {
+            // ...and the deserializer may hand us that u16 as an unsigned integer of any width.
+            PValue::U8(u) => Some(Self::from_bits(u as u16)),
             PValue::U16(u) => Some(Self::from_bits(u)),
+            PValue::U32(u) => u16::try_from(u).ok().map(Self::from_bits),
+            PValue::U64(u) => u16::try_from(u).ok().map(Self::from_bits),
             PValue::F16(u) => Some(u),
             PValue::F32(f) => <Self as NumCast>::from(f),
             PValue::F64(f) => <Self as NumCast>::from(f),
-- 
2.43.0


From ccd94273a4712ae0ff3c422aaf9dec4bba70423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 018/138] fix: binary scalar values are serialized as bytes

---
 vortex-scalar/src/serde/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index d31d715..cf94371 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -16,7 +16,7 @@ impl Serialize for ScalarValue {
             Self::Null => ().serialize(serializer),
             Self::Bool(b) => b.serialize(serializer),
             Self::Primitive(p) => p.serialize(serializer),
-            Self::Buffer(buffer) => buffer.as_ref().serialize(serializer),
+            Self::Buffer(buffer) => serializer.serialize_bytes(buffer.as_slice()),
             Self::BufferString(buffer) => buffer.as_str().serialize(serializer),
             Self::List(l) => l.serialize(serializer),
         }
-- 
2.43.0


From 1a798906a3113fa817c70736811eb69f0145e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 019/138] fix: primitive scalar values are cast to the width of
 their dtype on read

---
 vortex-array/src/array/sparse/mod.rs   |  2 ++
 vortex-scalar/src/lib.rs               |  1 +
 vortex-scalar/src/serde/flatbuffers.rs |  2 +-
 vortex-scalar/src/value.rs             | 31 +++++++++++++++++++++++++-
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 760d81f..c5ae367 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -53,6 +53,8 @@ impl SparseArray {
         if !matches!(indices.dtype(), &DType::IDX) {
             vortex_bail!("Cannot use {} as indices", indices.dtype());
         }
+        // A deserialized fill value may not have the width of the values
+        let fill_value = Scalar::new(values.dtype().clone(), fill_value).into_value();
         if !fill_value.is_instance_of(values.dtype()) {
             vortex_bail!(
                 "fill value, {:?}, should be instance of values dtype, {}",
diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index f535cc1..702c6af 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -42,6 +42,7 @@ pub struct Scalar {
 
 impl Scalar {
     pub fn new(dtype: DType, value: ScalarValue) -> Self {
+        let value = value.cast_on_read(&dtype);
         Self { dtype, value }
     }
 
diff --git a/vortex-scalar/src/serde/flatbuffers.rs b/vortex-scalar/src/serde/flatbuffers.rs
index 2fc80db..c81b216 100644
--- a/vortex-scalar/src/serde/flatbuffers.rs
+++ b/vortex-scalar/src/serde/flatbuffers.rs
@@ -17,7 +17,7 @@ impl TryFrom<fb::Scalar<'_>> for Scalar {
         let reader = flexbuffers::Reader::get_root(value.value().flex().bytes())?;
         let value = ScalarValue::deserialize(reader)?;
 
-        Ok(Self { dtype, value })
+        Ok(Self::new(dtype, value))
     }
 }
 
diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index 89cbcfb..7666850 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -3,7 +3,7 @@ use std::sync::Arc;
 
 use half::f16;
 use vortex_buffer::{Buffer, BufferString};
-use vortex_dtype::DType;
+use vortex_dtype::{match_each_native_ptype, DType};
 use vortex_error::{vortex_err, VortexResult};
 
 use crate::pvalue::PValue;
@@ -94,6 +94,35 @@ impl ScalarValue {
         }
     }
 
+    /// Cast primitive values to the width that the dtype asks for, since they may have been
+    /// deserialized as any other width. Values that don't fit the dtype are left as they are.
+    pub(crate) fn cast_on_read(self, dtype: &DType) -> Self {
+        match (self, dtype) {
+            (ScalarValue::Primitive(pvalue), DType::Primitive(ptype, _))
+                if !pvalue.is_instance_of(ptype) =>
+            {
+                match_each_native_ptype!(*ptype, |$T| {
+                    ScalarValue::Primitive(
+                        <$T>::try_from(pvalue).map(PValue::from).unwrap_or(pvalue),
+                    )
+                })
+            }
+            (ScalarValue::List(values), DType::List(element_dtype, _)) => {
+                let values = values.iter().map(|v| v.clone().cast_on_read(element_dtype));
+                ScalarValue::List(values.collect())
+            }
+            (ScalarValue::List(values), DType::Struct(struct_dtype, _)) => {
+                let dtypes = struct_dtype.dtypes();
+                let values = values.iter().enumerate().map(|(i, v)| match dtypes.get(i) {
+                    Some(dtype) => v.clone().cast_on_read(dtype),
+                    None => v.clone(),
+                });
+                ScalarValue::List(values.collect())
+            }
+            (value, _) => value,
+        }
+    }
+
     pub fn as_bool(&self) -> VortexResult<Option<bool>> {
         match self {
             Self::Null => Ok(None),
-- 
2.43.0


From d7a3f3e3023a4560915a787567e71eedda9df552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 020/138] fix: taking from a ByteBoolArray keeps its
 nullability and accepts encoded indices

---
 encodings/bytebool/src/compute.rs | 54 +++++++++----------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index bbdc421..130084e 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -2,7 +2,7 @@ use num_traits::AsPrimitive;
 use vortex::compute::unary::{FillForwardFn, ScalarAtFn};
 use vortex::compute::{ArrayCompute, SliceFn, TakeFn};
 use vortex::validity::{ArrayValidity, Validity};
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::{match_each_integer_ptype, Nullability};
 use vortex_error::{vortex_err, VortexResult};
 use vortex_scalar::Scalar;
@@ -49,46 +49,22 @@ impl SliceFn for ByteBoolArray {
 
 impl TakeFn for ByteBoolArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
-        let validity = self.validity();
-        let indices = indices.clone().as_primitive();
+        let validity = self.validity().take(indices)?;
+        let indices = indices.clone().into_primitive()?;
         let bools = self.maybe_null_slice();
 
-        let arr = match validity {
-            Validity::AllValid | Validity::NonNullable => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx: usize = idx.as_();
-                        bools[idx]
-                    })
-                    .collect::<Vec<_>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-            Validity::AllInvalid => Self::from(vec![None; indices.len()]).into_array(),
-
-            Validity::Array(_) => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx = idx.as_();
-                        if validity.is_valid(idx) {
-                            Some(bools[idx])
-                        } else {
-                            None
-                        }
-                    })
-                    .collect::<Vec<Option<_>>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-        };
-
-        Ok(arr)
+        let taken = match_each_integer_ptype!(indices.ptype(), |$I| {
+            indices
+                .maybe_null_slice::<$I>()
+                .iter()
+                .map(|&idx| {
+                    let idx: usize = idx.as_();
+                    bools[idx]
+                })
+                .collect::<Vec<_>>()
+        });
+
+        Ok(Self::try_from_vec(taken, validity)?.into_array())
     }
 }
 
-- 
2.43.0


From 45231b11f8bfa6bd57b07e70d98765c8050d457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 021/138] fix: every boolean encoding can iterate its set
 indices and slices

---
 encodings/bytebool/src/array.rs            | 20 +++++++++++++++++---
 encodings/roaring/src/boolean/mod.rs       | 21 ++++++++++++++++++---
 encodings/runend-bool/src/array.rs         | 19 ++++++++++++++++---
 vortex-array/src/array/chunked/variants.rs | 20 ++++++++++++++++----
 vortex-array/src/array/sparse/variants.rs  | 18 +++++++++++++++---
 5 files changed, 82 insertions(+), 16 deletions(-)

diff --git a/encodings/bytebool/src/array.rs b/encodings/bytebool/src/array.rs
index bd7fa87..80dfb67 100644
--- a/encodings/bytebool/src/array.rs
+++ b/encodings/bytebool/src/array.rs
@@ -9,7 +9,9 @@ use vortex::encoding::ids;
 use vortex::stats::StatsSet;
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity, ValidityMetadata};
 use vortex::variants::{ArrayVariants, BoolArrayTrait};
-use vortex::{impl_encoding, ArrayTrait, Canonical, IntoCanonical, TypedArray};
+use vortex::{
+    impl_encoding, ArrayTrait, Canonical, IntoArray, IntoArrayVariant, IntoCanonical, TypedArray,
+};
 use vortex_buffer::Buffer;
 use vortex_dtype::DType;
 use vortex_error::{VortexExpect as _, VortexResult};
@@ -91,11 +93,23 @@ impl ArrayVariants for ByteBoolArray {
 
 impl BoolArrayTrait for ByteBoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let indices = bools.boolean_buffer().set_indices().collect::<Vec<_>>();
+        Box::new(indices.into_iter())
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let slices = bools.boolean_buffer().set_slices().collect::<Vec<_>>();
+        Box::new(slices.into_iter())
     }
 }
 
diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index b2de436..3ec8b74 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -12,7 +12,10 @@ use vortex::encoding::ids;
 use vortex::stats::{Stat, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, BoolArrayTrait};
-use vortex::{impl_encoding, Array, ArrayTrait, Canonical, IntoArray, IntoCanonical, TypedArray};
+use vortex::{
+    impl_encoding, Array, ArrayTrait, Canonical, IntoArray, IntoArrayVariant, IntoCanonical,
+    TypedArray,
+};
 use vortex_buffer::Buffer;
 use vortex_dtype::DType;
 use vortex_dtype::Nullability::NonNullable;
@@ -96,11 +99,23 @@ impl ArrayVariants for RoaringBoolArray {
 
 impl BoolArrayTrait for RoaringBoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let indices = bools.boolean_buffer().set_indices().collect::<Vec<_>>();
+        Box::new(indices.into_iter())
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let slices = bools.boolean_buffer().set_slices().collect::<Vec<_>>();
+        Box::new(slices.into_iter())
     }
 }
 
diff --git a/encodings/runend-bool/src/array.rs b/encodings/runend-bool/src/array.rs
index 03c9b23..f7e8a65 100644
--- a/encodings/runend-bool/src/array.rs
+++ b/encodings/runend-bool/src/array.rs
@@ -9,7 +9,8 @@ use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity, ValidityMetadata};
 use vortex::variants::{ArrayVariants, BoolArrayTrait};
 use vortex::{
-    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArrayVariant, IntoCanonical,
+    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
+    IntoCanonical,
 };
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
@@ -116,11 +117,23 @@ impl RunEndBoolArray {
 
 impl BoolArrayTrait for RunEndBoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let indices = bools.boolean_buffer().set_indices().collect::<Vec<_>>();
+        Box::new(indices.into_iter())
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let slices = bools.boolean_buffer().set_slices().collect::<Vec<_>>();
+        Box::new(slices.into_iter())
     }
 }
 
diff --git a/vortex-array/src/array/chunked/variants.rs b/vortex-array/src/array/chunked/variants.rs
index d5a3eb1..778808d 100644
--- a/vortex-array/src/array/chunked/variants.rs
+++ b/vortex-array/src/array/chunked/variants.rs
@@ -1,13 +1,13 @@
 use vortex_dtype::field::Field;
 use vortex_dtype::DType;
-use vortex_error::{vortex_err, vortex_panic, VortexResult};
+use vortex_error::{vortex_err, vortex_panic, VortexExpect, VortexResult};
 
 use crate::array::chunked::ChunkedArray;
 use crate::variants::{
     ArrayVariants, BinaryArrayTrait, BoolArrayTrait, ExtensionArrayTrait, ListArrayTrait,
     NullArrayTrait, PrimitiveArrayTrait, StructArrayTrait, Utf8ArrayTrait,
 };
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 /// Chunked arrays support all DTypes
 impl ArrayVariants for ChunkedArray {
@@ -48,11 +48,23 @@ impl NullArrayTrait for ChunkedArray {}
 
 impl BoolArrayTrait for ChunkedArray {
     fn maybe_null_indices_iter(&self) -> Box<dyn Iterator<Item = usize>> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let indices = bools.boolean_buffer().set_indices().collect::<Vec<_>>();
+        Box::new(indices.into_iter())
     }
 
     fn maybe_null_slices_iter(&self) -> Box<dyn Iterator<Item = (usize, usize)>> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let slices = bools.boolean_buffer().set_slices().collect::<Vec<_>>();
+        Box::new(slices.into_iter())
     }
 }
 
diff --git a/vortex-array/src/array/sparse/variants.rs b/vortex-array/src/array/sparse/variants.rs
index 68db18e..c73f286 100644
--- a/vortex-array/src/array/sparse/variants.rs
+++ b/vortex-array/src/array/sparse/variants.rs
@@ -8,7 +8,7 @@ use crate::variants::{
     ArrayVariants, BinaryArrayTrait, BoolArrayTrait, ExtensionArrayTrait, ListArrayTrait,
     NullArrayTrait, PrimitiveArrayTrait, StructArrayTrait, Utf8ArrayTrait,
 };
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 /// Sparse arrays support all DTypes
 impl ArrayVariants for SparseArray {
@@ -49,11 +49,23 @@ impl NullArrayTrait for SparseArray {}
 
 impl BoolArrayTrait for SparseArray {
     fn maybe_null_indices_iter(&self) -> Box<dyn Iterator<Item = usize>> {
-        Box::new(self.resolved_indices().into_iter())
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let indices = bools.boolean_buffer().set_indices().collect::<Vec<_>>();
+        Box::new(indices.into_iter())
     }
 
     fn maybe_null_slices_iter(&self) -> Box<dyn Iterator<Item = (usize, usize)>> {
-        todo!()
+        let bools = self
+            .clone()
+            .into_array()
+            .into_bool()
+            .vortex_expect("Failed to canonicalize boolean array");
+        let slices = bools.boolean_buffer().set_slices().collect::<Vec<_>>();
+        Box::new(slices.into_iter())
     }
 }
 
-- 
2.43.0


From 190ea549bb80553a0f22d614b60b1490af9726ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 022/138] fix: ChunkedArray take, filter and slice with empty
 selections and encoded or narrow indices

---
 vortex-array/src/array/chunked/compute/filter.rs |  4 ++--
 vortex-array/src/array/chunked/compute/slice.rs  |  4 ++++
 vortex-array/src/array/chunked/compute/take.rs   | 14 ++++++++++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/array/chunked/compute/filter.rs b/vortex-array/src/array/chunked/compute/filter.rs
index 55058ed..e129387 100644
--- a/vortex-array/src/array/chunked/compute/filter.rs
+++ b/vortex-array/src/array/chunked/compute/filter.rs
@@ -2,7 +2,7 @@ use arrow_buffer::BooleanBufferBuilder;
 use vortex_error::{VortexExpect, VortexResult};
 
 use crate::array::{BoolArray, ChunkedArray, PrimitiveArray};
-use crate::compute::{filter, take, FilterFn, SearchSorted, SearchSortedSide};
+use crate::compute::{filter, slice, take, FilterFn, SearchSorted, SearchSortedSide};
 use crate::{Array, ArrayDType, IntoArray, IntoCanonical};
 
 // This is modeled after the constant with the equivalent name in arrow-rs.
@@ -20,7 +20,7 @@ impl FilterFn for ChunkedArray {
                 Ok(self.clone().into_array())
             } else if selected == 0 {
                 // Fast path 2: empty array after filter.
-                Ok(ChunkedArray::try_new(vec![], self.dtype().clone())?.into_array())
+                slice(self, 0, 0)
             } else {
                 // General path: perform filtering.
                 //
diff --git a/vortex-array/src/array/chunked/compute/slice.rs b/vortex-array/src/array/chunked/compute/slice.rs
index 3faa414..eb6ab36 100644
--- a/vortex-array/src/array/chunked/compute/slice.rs
+++ b/vortex-array/src/array/chunked/compute/slice.rs
@@ -6,6 +6,10 @@ use crate::{Array, ArrayDType, IntoArray};
 
 impl SliceFn for ChunkedArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if self.nchunks() == 0 {
+            return Ok(self.clone().into_array());
+        }
+
         let (offset_chunk, offset_in_first_chunk) = self.find_chunk_idx(start);
         let (length_chunk, length_in_last_chunk) = self.find_chunk_idx(stop);
 
diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index e7f91a6..49f093c 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -12,6 +12,10 @@ use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 impl TakeFn for ChunkedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
         // Fast path for strict sorted indices.
+        if indices.is_empty() {
+            return slice(self, 0, 0);
+        }
+
         if indices
             .statistics()
             .compute_is_strict_sorted()
@@ -24,7 +28,8 @@ impl TakeFn for ChunkedArray {
             return take_strict_sorted(self, indices);
         }
 
-        let indices = try_cast(indices, PType::U64.into())?.into_primitive()?;
+        let indices = indices.clone().into_primitive()?;
+        let indices = try_cast(&indices, PType::U64.into())?.into_primitive()?;
 
         // While the chunk idx remains the same, accumulate a list of chunk indices.
         let mut chunks = Vec::new();
@@ -57,6 +62,7 @@ impl TakeFn for ChunkedArray {
 
 /// When the indices are non-null and strict-sorted, we can do better
 fn take_strict_sorted(chunked: &ChunkedArray, indices: &Array) -> VortexResult<Array> {
+    let indices = &indices.clone().into_primitive()?.into_array();
     let mut indices_by_chunk = vec![None; chunked.nchunks()];
 
     // Track our position in the indices array
@@ -69,7 +75,11 @@ fn take_strict_sorted(chunked: &ChunkedArray, indices: &Array) -> VortexResult<A
         // Find the end of this chunk, and locate that position in the indices array.
         let chunk_begin = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx)?)?;
         let chunk_end = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx + 1)?)?;
-        let chunk_end_pos = search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index();
+        // If the end doesn't fit the type of the indices, then all of them are below it.
+        let chunk_end_pos = match Scalar::from(chunk_end).cast(indices.dtype()) {
+            Ok(chunk_end) => search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index(),
+            Err(_) => indices.len(),
+        };
 
         // Now we can say the slice of indices belonging to this chunk is [pos, chunk_end_pos)
         let chunk_indices = slice(indices, pos, chunk_end_pos)?;
-- 
2.43.0


From bcc8150772e8a49c9141a1db769d7ce94f315e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 023/138] fix: filtering keeps extension dtypes

---
 vortex-array/src/array/extension/compute.rs | 12 +++++++++++-
 vortex-array/src/compute/filter.rs          | 12 ++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/extension/compute.rs b/vortex-array/src/array/extension/compute.rs
index 97c9710..f618e0a 100644
--- a/vortex-array/src/array/extension/compute.rs
+++ b/vortex-array/src/array/extension/compute.rs
@@ -5,7 +5,7 @@ use crate::array::extension::ExtensionArray;
 use crate::array::ConstantArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, CastFn, ScalarAtFn};
 use crate::compute::{
-    compare, slice, take, ArrayCompute, MaybeCompareFn, Operator, SliceFn, TakeFn,
+    compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
 use crate::variants::ExtensionArrayTrait;
 use crate::{Array, ArrayDType, IntoArray};
@@ -22,6 +22,10 @@ impl ArrayCompute for ExtensionArray {
         MaybeCompareFn::maybe_compare(self, other, operator)
     }
 
+    fn filter(&self) -> Option<&dyn FilterFn> {
+        Some(self)
+    }
+
     fn scalar_at(&self) -> Option<&dyn ScalarAtFn> {
         Some(self)
     }
@@ -82,6 +86,12 @@ impl SliceFn for ExtensionArray {
     }
 }
 
+impl FilterFn for ExtensionArray {
+    fn filter(&self, predicate: &Array) -> VortexResult<Array> {
+        Ok(Self::new(self.ext_dtype().clone(), filter(self.storage(), predicate)?).into_array())
+    }
+}
+
 impl TakeFn for ExtensionArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
         Ok(Self::new(self.ext_dtype().clone(), take(self.storage(), indices)?).into_array())
diff --git a/vortex-array/src/compute/filter.rs b/vortex-array/src/compute/filter.rs
index a322fb1..c60caf0 100644
--- a/vortex-array/src/compute/filter.rs
+++ b/vortex-array/src/compute/filter.rs
@@ -42,8 +42,16 @@ pub fn filter(array: impl AsRef<Array>, predicate: impl AsRef<Array>) -> VortexR
         if let Some(filter_fn) = a.filter() {
             filter_fn.filter(predicate)
         } else {
-            // Fallback: implement using Arrow kernels.
-            let array_ref = array.clone().into_canonical()?.into_arrow()?;
+            // Fallback: use the canonical array's own implementation, which (unlike Arrow) knows
+            // all of our DTypes, or else implement using Arrow kernels.
+            let canonical = Array::from(array.clone().into_canonical()?);
+            if let Some(filtered) =
+                canonical.with_dyn(|c| c.filter().map(|filter_fn| filter_fn.filter(predicate)))
+            {
+                return filtered;
+            }
+
+            let array_ref = canonical.into_canonical()?.into_arrow()?;
             let predicate_ref = predicate.clone().into_canonical()?.into_arrow()?;
             let filtered =
                 arrow_select::filter::filter(array_ref.as_ref(), predicate_ref.as_boolean())?;
-- 
2.43.0


From 63c1d974a8b4e8ac6fc4b7121985df821702d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 024/138] fix: searching for a u64 compares in the array's own
 dtype

---
 vortex-array/src/array/constant/compute.rs   | 4 ++--
 vortex-array/src/array/sparse/compute/mod.rs | 5 +++--
 vortex-array/src/compute/search_sorted.rs    | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 2785363..964ef64 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -89,8 +89,8 @@ impl FilterFn for ConstantArray {
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
         match self
-            .scalar_value()
-            .partial_cmp(value.value())
+            .owned_scalar()
+            .partial_cmp(&value.cast(self.dtype())?)
             .unwrap_or(Ordering::Less)
         {
             Ordering::Greater => Ok(SearchResult::NotFound(0)),
diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index e518384..090343d 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -9,7 +9,7 @@ use crate::compute::{
     search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
     SearchSortedSide, SliceFn, TakeFn,
 };
-use crate::{Array, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 mod slice;
 mod take;
@@ -56,7 +56,8 @@ impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
         if !self.fill_value().is_null() {
             // The fill value takes part in the order, so we can't only look at the patches
-            return Ok(SearchSorted::search_sorted(self.as_ref(), value, side));
+            let value = value.cast(self.dtype())?;
+            return Ok(SearchSorted::search_sorted(self.as_ref(), &value, side));
         }
 
         if self.indices().is_empty() {
diff --git a/vortex-array/src/compute/search_sorted.rs b/vortex-array/src/compute/search_sorted.rs
index e9082c9..e0a1657 100644
--- a/vortex-array/src/compute/search_sorted.rs
+++ b/vortex-array/src/compute/search_sorted.rs
@@ -167,7 +167,7 @@ pub fn search_sorted_u64(
         if let Some(search_sorted) = a.search_sorted() {
             search_sorted.search_sorted_u64(target, side)
         } else if a.scalar_at().is_some() {
-            let scalar = Scalar::primitive(target, array.dtype().nullability());
+            let scalar = Scalar::from(target).cast(array.dtype())?;
             Ok(array.search_sorted(&scalar, side))
         } else {
             vortex_bail!(
-- 
2.43.0


From b2abebcd33dd9fb9daae2264fad80b3188cc7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 025/138] fix: bulk searches of a BitPackedArray look at its
 patches and don't truncate the target

---
 .../src/bitpacking/compute/search_sorted.rs   | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index a1091b3..84ab180 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -43,17 +43,10 @@ impl SearchSortedFn for BitPackedArray {
         sides: &[SearchSortedSide],
     ) -> VortexResult<Vec<SearchResult>> {
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
-            let searcher = BitPackedSearch::<'_, $P>::new(self);
-
             values
                 .iter()
                 .zip(sides.iter().copied())
-                .map(|(value, side)| {
-                    // Unwrap to native value
-                    let unwrapped_value: $P = value.cast(self.dtype())?.try_into()?;
-
-                    Ok(searcher.search_sorted(&unwrapped_value, side))
-                })
+                .map(|(value, side)| search_sorted_typed::<$P>(self, value, side))
                 .try_collect()
         })
     }
@@ -63,20 +56,12 @@ impl SearchSortedFn for BitPackedArray {
         values: &[u64],
         sides: &[SearchSortedSide],
     ) -> VortexResult<Vec<SearchResult>> {
-        match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
-            let searcher = BitPackedSearch::<'_, $P>::new(self);
-
-            values
-                .iter()
-                .copied()
-                .zip(sides.iter().copied())
-                .map(|(value, side)| {
-                    // NOTE: truncating cast
-                    let cast_value: $P = value as $P;
-                    Ok(searcher.search_sorted(&cast_value, side))
-                })
-                .try_collect()
-        })
+        values
+            .iter()
+            .copied()
+            .zip(sides.iter().copied())
+            .map(|(value, side)| self.search_sorted_u64(value, side))
+            .try_collect()
     }
 }
 
-- 
2.43.0


From 491780656303860b7270b724a8e6c494e6a20eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 026/138] fix: arrays of 0.0 and -0.0 are not constant

---
 vortex-array/src/array/primitive/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index ac7aadf..d5eae99 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -207,7 +207,7 @@ impl<T: PStatsType> StatsAccumulator<T> {
     }
 
     pub fn finish(self) -> StatsSet {
-        let is_constant = (self.min == self.max && self.null_count == 0 && self.nan_count == 0)
+        let is_constant = (self.min.is_eq(self.max) && self.null_count == 0 && self.nan_count == 0)
             || self.null_count == self.len;
 
         StatsSet::from(HashMap::from([
-- 
2.43.0


From 5ed59aee067b01b36f655bf51137b548d9f23145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 027/138] fix: filtering a struct without fields by an encoded
 mask

---
 vortex-array/src/array/struct_/compute.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/array/struct_/compute.rs b/vortex-array/src/array/struct_/compute.rs
index 679c833..283c6e6 100644
--- a/vortex-array/src/array/struct_/compute.rs
+++ b/vortex-array/src/array/struct_/compute.rs
@@ -5,9 +5,8 @@ use vortex_scalar::Scalar;
 use crate::array::struct_::StructArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use crate::compute::{filter, slice, take, ArrayCompute, FilterFn, SliceFn, TakeFn};
-use crate::stats::ArrayStatistics;
 use crate::variants::StructArrayTrait;
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl ArrayCompute for StructArray {
     fn filter(&self) -> Option<&dyn FilterFn> {
@@ -83,11 +82,14 @@ impl FilterFn for StructArray {
             .children()
             .map(|field| filter(&field, predicate))
             .try_collect()?;
-        let length = fields
-            .first()
-            .map(|a| a.len())
-            .or_else(|| predicate.statistics().compute_true_count())
-            .unwrap_or_default();
+        let length = match fields.first() {
+            Some(a) => a.len(),
+            None => predicate
+                .clone()
+                .into_bool()?
+                .boolean_buffer()
+                .count_set_bits(),
+        };
 
         Self::try_new(
             self.names().clone(),
-- 
2.43.0


From 8a2ecbdecb937b262d66704b0cafb9eb19cfa4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 028/138] fix: taking from a VarBinArray with narrow offsets

---
 vortex-array/src/array/varbin/compute/take.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbin/compute/take.rs b/vortex-array/src/array/varbin/compute/take.rs
index 63e9a29..f15d6b6 100644
--- a/vortex-array/src/array/varbin/compute/take.rs
+++ b/vortex-array/src/array/varbin/compute/take.rs
@@ -1,16 +1,21 @@
 use arrow_buffer::NullBuffer;
-use vortex_dtype::{match_each_integer_ptype, DType, NativePType};
+use vortex_dtype::{match_each_integer_ptype, DType, NativePType, PType};
 use vortex_error::{vortex_err, vortex_panic, VortexResult};
 
 use crate::array::varbin::builder::VarBinBuilder;
 use crate::array::varbin::VarBinArray;
+use crate::compute::unary::try_cast;
 use crate::compute::TakeFn;
 use crate::validity::Validity;
 use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl TakeFn for VarBinArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
-        let offsets = self.offsets().into_primitive()?;
+        let mut offsets = self.offsets().into_primitive()?;
+        if offsets.ptype().byte_width() < PType::I32.byte_width() {
+            // Taking can repeat values, so the result may need wider offsets
+            offsets = try_cast(&offsets, PType::I32.into())?.into_primitive()?;
+        }
         let data = self.bytes().into_primitive()?;
         let indices = indices.clone().into_primitive()?;
         match_each_integer_ptype!(offsets.ptype(), |$O| {
-- 
2.43.0


From 9e64d52d4cc150d980ef375c6f60f4f982aca655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 029/138] fix: taking more than 64 values per block from a
 BitPackedArray applies its patches

---
 .../fastlanes/src/bitpacking/compute/take.rs  | 102 +++---------------
 1 file changed, 16 insertions(+), 86 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/take.rs b/encodings/fastlanes/src/bitpacking/compute/take.rs
index 95ab8cb..6c32083 100644
--- a/encodings/fastlanes/src/bitpacking/compute/take.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/take.rs
@@ -1,9 +1,7 @@
-use std::cmp::min;
-
 use fastlanes::BitPacking;
 use itertools::Itertools;
 use vortex::array::{PrimitiveArray, SparseArray};
-use vortex::compute::{slice, take, TakeFn};
+use vortex::compute::{take, TakeFn};
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
 use vortex_dtype::{
     match_each_integer_ptype, match_each_unsigned_integer_ptype, NativePType, PType,
@@ -16,7 +14,6 @@ use crate::{unpack_single_primitive, BitPackedArray};
 // all 1024 elements takes ~8.8x as long as unpacking a single element on an M2 Macbook Air.
 // see https://github.com/spiraldb/vortex/pull/190#issue-2223752833
 const UNPACK_CHUNK_THRESHOLD: usize = 8;
-const BULK_PATCH_THRESHOLD: usize = 64;
 
 impl TakeFn for BitPackedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
@@ -71,9 +68,7 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     let mut output = Vec::with_capacity(indices.len());
     let mut unpacked = [T::zero(); 1024];
 
-    let mut batch_count = 0_usize;
     for (chunk, offsets) in chunked_indices {
-        batch_count += 1;
         let chunk_size = 128 * bit_width / size_of::<T>();
         let packed_chunk = &packed[chunk * chunk_size..][..chunk_size];
 
@@ -118,96 +113,31 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     }
 
     if let Some(ref patches) = patches {
-        patch_for_take_primitive::<T, I>(patches, indices, offset, batch_count, &mut output)?;
+        patch_for_take_primitive::<T>(patches, indices, &mut output)?;
     }
 
     Ok(output)
 }
 
-fn patch_for_take_primitive<T: NativePType, I: NativePType>(
+fn patch_for_take_primitive<T: NativePType>(
     patches: &SparseArray,
     indices: &PrimitiveArray,
-    offset: usize,
-    batch_count: usize,
     output: &mut [T],
 ) -> VortexResult<()> {
-    #[inline]
-    fn inner_patch<T: NativePType>(
-        patches: &SparseArray,
-        indices: &PrimitiveArray,
-        output: &mut [T],
-    ) -> VortexResult<()> {
-        let taken_patches = take(patches.as_ref(), indices.as_ref())?;
-        let taken_patches = SparseArray::try_from(taken_patches)?;
-
-        let base_index = output.len() - indices.len();
-        let output_patches = taken_patches
-            .values()
-            .into_primitive()?
-            .reinterpret_cast(T::PTYPE);
-        taken_patches
-            .resolved_indices()
-            .iter()
-            .map(|idx| base_index + *idx)
-            .zip_eq(output_patches.maybe_null_slice::<T>())
-            .for_each(|(idx, val)| {
-                output[idx] = *val;
-            });
-
-        Ok(())
-    }
-
-    // if we have a small number of relatively large batches, we gain by slicing and then patching inside the loop
-    // if we have a large number of relatively small batches, the overhead isn't worth it, and we're better off with a bulk patch
-    // roughly, if we have an average of less than 64 elements per batch, we prefer bulk patching
-    let prefer_bulk_patch = batch_count * BULK_PATCH_THRESHOLD > indices.len();
-    if prefer_bulk_patch {
-        return inner_patch(patches, indices, output);
-    }
-
-    let min_index = patches.min_index().unwrap_or_default();
-    let max_index = patches.max_index().unwrap_or_default();
-
-    // Group indices into 1024-element chunks and relativise them to the beginning of each chunk
-    let chunked_indices = &indices
-        .maybe_null_slice::<I>()
+    let taken_patches = take(patches.as_ref(), indices.as_ref())?;
+    let taken_patches = SparseArray::try_from(taken_patches)?;
+
+    let output_patches = taken_patches
+        .values()
+        .into_primitive()?
+        .reinterpret_cast(T::PTYPE);
+    taken_patches
+        .resolved_indices()
         .iter()
-        .map(|i| {
-            i.to_usize()
-                .vortex_expect("index must be expressible as usize")
-                + offset
-        })
-        .filter(|i| *i >= min_index && *i <= max_index) // short-circuit
-        .chunk_by(|idx| idx / 1024);
-
-    for (chunk, offsets) in chunked_indices {
-        // NOTE: we need to subtract the array offset before slicing into the patches.
-        // This is because BitPackedArray is rounded to block boundaries, but patches
-        // is sliced exactly.
-        let patches_start = if chunk == 0 {
-            0
-        } else {
-            (chunk * 1024) - offset
-        };
-        let patches_end = min((chunk + 1) * 1024 - offset, patches.len());
-        let patches_slice = slice(patches.as_ref(), patches_start, patches_end)?;
-        let patches_slice = SparseArray::try_from(patches_slice)?;
-        if patches_slice.is_empty() {
-            continue;
-        }
-
-        let min_index = patches_slice.min_index().unwrap_or_default();
-        let max_index = patches_slice.max_index().unwrap_or_default();
-        let offsets = offsets
-            .map(|i| (i % 1024) as u16)
-            .filter(|i| *i as usize >= min_index && *i as usize <= max_index)
-            .collect_vec();
-        if offsets.is_empty() {
-            continue;
-        }
-
-        inner_patch(&patches_slice, &PrimitiveArray::from(offsets), output)?;
-    }
+        .zip_eq(output_patches.maybe_null_slice::<T>())
+        .for_each(|(idx, val)| {
+            output[*idx] = *val;
+        });
 
     Ok(())
 }
-- 
2.43.0


From bea73b85708da577fb9bae7cf41e900de3c16ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 030/138] fix: decoding null date time parts doesn't overflow

---
 encodings/datetime-parts/src/compute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encodings/datetime-parts/src/compute.rs b/encodings/datetime-parts/src/compute.rs
index 5e57800..8174c70 100644
--- a/encodings/datetime-parts/src/compute.rs
+++ b/encodings/datetime-parts/src/compute.rs
@@ -123,7 +123,12 @@ pub fn decode_to_temporal(array: &DateTimePartsArray) -> VortexResult<TemporalAr
         .iter()
         .zip_eq(seconds_buf.maybe_null_slice::<i64>().iter())
         .zip_eq(subsecond_buf.maybe_null_slice::<i64>().iter())
-        .map(|((d, s), ss)| d * 86_400 * divisor + s * divisor + ss)
+        // The parts of a null timestamp can be anything, so don't panic if they overflow.
+        .map(|((d, s), ss)| {
+            d.wrapping_mul(86_400 * divisor)
+                .wrapping_add(s.wrapping_mul(divisor))
+                .wrapping_add(*ss)
+        })
         .collect::<Vec<_>>();
 
     Ok(TemporalArray::new_timestamp(
-- 
2.43.0


From e89798b91d39ae22edf615d74964e725fdc2a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 031/138] fix: searching an empty ConstantArray finds nothing

---
 vortex-array/src/array/constant/compute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 964ef64..28cff99 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -88,6 +88,10 @@ impl FilterFn for ConstantArray {
 
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.is_empty() {
+            return Ok(SearchResult::NotFound(0));
+        }
+
         match self
             .owned_scalar()
             .partial_cmp(&value.cast(self.dtype())?)
-- 
2.43.0


From 0a6a258045d32bbf9975a32cad5a83a6b3259717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 032/138] fix: searching a frame-of-reference array for a value
 between representable ones

---
 encodings/fastlanes/src/for/compute.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/encodings/fastlanes/src/for/compute.rs b/encodings/fastlanes/src/for/compute.rs
index 62411b8..3a7f621 100644
--- a/encodings/fastlanes/src/for/compute.rs
+++ b/encodings/fastlanes/src/for/compute.rs
@@ -138,19 +138,16 @@ where
     // We first determine whether the value can be represented in the compressed array. For any value that is not
     // representable, it is by definition NotFound. For NotFound values, the correct insertion index is by definition
     // the same regardless of which side we search on.
-    // However, to correctly handle repeated values in the array, we need to search left on the next *representable*
-    // value (i.e., increment the translated value by 1).
+    // However, to correctly handle repeated values in the array, we need to search for the end of the values that
+    // are equal to the closest smaller *representable* value.
     let representable = decoded_value == primitive_value;
-    let (side, target) = if representable {
-        (side, encoded_value)
+    let side = if representable {
+        side
     } else {
-        (
-            SearchSortedSide::Left,
-            encoded_value.wrapping_add(&T::one()),
-        )
+        SearchSortedSide::Right
     };
 
-    let target_scalar = Scalar::primitive(target, value.dtype().nullability())
+    let target_scalar = Scalar::primitive(encoded_value, value.dtype().nullability())
         .reinterpret_cast(array.ptype().to_unsigned());
     let search_result = search_sorted(&array.encoded(), target_scalar, side)?;
     Ok(
-- 
2.43.0


From 35cdc3893a59d7d631829111276f96f7eba488ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 033/138] fix: null patches of a sparse array are sorted last
 by searches

---
 vortex-array/src/array/sparse/compute/mod.rs | 36 +++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index 090343d..dec8dbb 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -64,22 +64,26 @@ impl SearchSortedFn for SparseArray {
             return Ok(SearchResult::NotFound(0));
         }
 
-        search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
-            let sidx = sr.to_offsets_index(self.metadata().indices_len);
-            let index: usize = scalar_at(self.indices(), sidx)?.as_ref().try_into()?;
-            Ok(match sr {
-                SearchResult::Found(i) => SearchResult::Found(
-                    if i == self.metadata().indices_len {
-                        index + 1
-                    } else {
-                        index
-                    } - self.indices_offset(),
-                ),
-                SearchResult::NotFound(i) => SearchResult::NotFound(
-                    if i == 0 { index } else { index + 1 } - self.indices_offset(),
-                ),
-            })
-        })
+        let patch_index = |patch: usize| -> VortexResult<usize> {
+            let index: usize = scalar_at(self.indices(), patch)?.as_ref().try_into()?;
+            Ok(index - self.indices_offset())
+        };
+        Ok(
+            match (search_sorted(&self.values(), value.clone(), side)?, side) {
+                (SearchResult::Found(i), SearchSortedSide::Left) => {
+                    SearchResult::Found(patch_index(i)?)
+                }
+                (SearchResult::Found(i), SearchSortedSide::Right) => {
+                    SearchResult::Found(patch_index(i - 1)? + 1)
+                }
+                // There are no values when the first patch is null, as nulls are sorted last
+                (SearchResult::NotFound(0), _) if scalar_at(self.values(), 0)?.is_null() => {
+                    SearchResult::NotFound(0)
+                }
+                (SearchResult::NotFound(0), _) => SearchResult::NotFound(patch_index(0)?),
+                (SearchResult::NotFound(i), _) => SearchResult::NotFound(patch_index(i - 1)? + 1),
+            },
+        )
     }
 }
 
-- 
2.43.0


From 2f1989b1e4b9cdafcee35f4a1ee407e01d66c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 034/138] fix: searching for a too large u64 gives the end of
 the values, not of the nulls

---
 .../src/bitpacking/compute/search_sorted.rs   | 24 +++++++++----------
 .../array/primitive/compute/search_sorted.rs  | 13 ++++++----
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index 84ab180..01d01bc 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -31,8 +31,8 @@ impl SearchSortedFn for BitPackedArray {
                 search_sorted_native(self, pvalue, side)
             } else {
                 // provided u64 is too large to fit in the provided PType, value must be off
-                // the right end of the array.
-                Ok(SearchResult::NotFound(self.len()))
+                // the right end of the array's values, which the nulls follow.
+                Ok(SearchResult::NotFound(first_null_index(self)))
             }
         })
     }
@@ -104,6 +104,15 @@ where
     }
 }
 
+/// In sorted order, nulls come after all the non-null values.
+fn first_null_index(array: &BitPackedArray) -> usize {
+    match array.validity() {
+        Validity::NonNullable | Validity::AllValid => array.len(),
+        Validity::AllInvalid => 0,
+        Validity::Array(varray) => varray.with_dyn(|a| a.as_bool_array_unchecked().true_count()),
+    }
+}
+
 /// This wrapper exists, so that you can't invoke SearchSorted::search_sorted directly on BitPackedArray as it omits searching patches
 #[derive(Debug)]
 struct BitPackedSearch<'a, T> {
@@ -126,16 +135,7 @@ impl<'a, T: BitPacking + NativePType> BitPackedSearch<'a, T> {
                     .min_index()
             })
             .unwrap_or_else(|| array.len());
-        let first_null_idx = match array.validity() {
-            Validity::NonNullable | Validity::AllValid => array.len(),
-            Validity::AllInvalid => 0,
-            Validity::Array(varray) => {
-                // In sorted order, nulls come after all the non-null values.
-                varray.with_dyn(|a| a.as_bool_array_unchecked().true_count())
-            }
-        };
-
-        let first_invalid_idx = cmp::min(min_patch_offset, first_null_idx);
+        let first_invalid_idx = cmp::min(min_patch_offset, first_null_index(array));
 
         Self {
             packed_maybe_null_slice: array.packed_slice::<T>(),
diff --git a/vortex-array/src/array/primitive/compute/search_sorted.rs b/vortex-array/src/array/primitive/compute/search_sorted.rs
index 5bd2ed1..acb1697 100644
--- a/vortex-array/src/array/primitive/compute/search_sorted.rs
+++ b/vortex-array/src/array/primitive/compute/search_sorted.rs
@@ -7,8 +7,8 @@ use vortex_scalar::Scalar;
 
 use crate::array::primitive::PrimitiveArray;
 use crate::compute::{IndexOrd, Len, SearchResult, SearchSorted, SearchSortedFn, SearchSortedSide};
-use crate::validity::Validity;
-use crate::ArrayDType;
+use crate::validity::{LogicalValidity, Validity};
+use crate::{ArrayDType, IntoArrayVariant};
 
 impl SearchSortedFn for PrimitiveArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
@@ -44,8 +44,13 @@ impl SearchSortedFn for PrimitiveArray {
                 }
             } else {
                 // provided u64 is too large to fit in the provided PType, value must be off
-                // the right end of the array.
-                Ok(SearchResult::NotFound(self.len()))
+                // the right end of the array's values, which the nulls follow.
+                let valid_count = match self.validity().to_logical(self.len()) {
+                    LogicalValidity::AllValid(len) => len,
+                    LogicalValidity::AllInvalid(_) => 0,
+                    LogicalValidity::Array(a) => a.into_bool()?.boolean_buffer().count_set_bits(),
+                };
+                Ok(SearchResult::NotFound(valid_count))
             }
         })
     }
-- 
2.43.0


From 16bf9198c571586132d37b6b68fe9e86a148789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 035/138] fix: roaring integer bit widths are counted for the
 array's type

---
 encodings/roaring/src/integer/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/encodings/roaring/src/integer/mod.rs b/encodings/roaring/src/integer/mod.rs
index f504c24..aa4066c 100644
--- a/encodings/roaring/src/integer/mod.rs
+++ b/encodings/roaring/src/integer/mod.rs
@@ -11,8 +11,8 @@ use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, PrimitiveArrayTrait};
 use vortex::{
-    impl_encoding, Array, ArrayDType as _, ArrayTrait, Canonical, IntoArray, IntoCanonical,
-    TypedArray,
+    impl_encoding, Array, ArrayDType as _, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
+    IntoCanonical, TypedArray,
 };
 use vortex_buffer::Buffer;
 use vortex_dtype::Nullability::NonNullable;
@@ -135,8 +135,7 @@ impl ArrayStatisticsCompute for RoaringIntArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         // possibly faster to write an accumulator over the iterator, though not necessarily
         if stat == Stat::TrailingZeroFreq || stat == Stat::BitWidthFreq || stat == Stat::RunCount {
-            let primitive =
-                PrimitiveArray::from_vec(self.owned_bitmap().to_vec(), Validity::NonNullable);
+            let primitive = self.clone().into_primitive()?;
             primitive.statistics().compute(stat);
             Ok(primitive.statistics().to_set())
         } else {
-- 
2.43.0


From 55bcaad0f858f3f19958f5280d270b38863adf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 036/138] fix: roaring bool stats of arrays ending in false

---
 encodings/roaring/src/boolean/stats.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/encodings/roaring/src/boolean/stats.rs b/encodings/roaring/src/boolean/stats.rs
index 5f62f20..490ada2 100644
--- a/encodings/roaring/src/boolean/stats.rs
+++ b/encodings/roaring/src/boolean/stats.rs
@@ -33,12 +33,14 @@ impl ArrayStatisticsCompute for BitmapStats {
         let bitset_slice = self.0.as_slice();
         let whole_chunks = self.1 / 64;
         let last_chunk_len = self.1 % 64;
-        let fist_bool = bitset_slice[0] & 1 == 1;
+        // The bitset is only as long as it takes to hold the last true value
+        let chunk = |i: usize| bitset_slice.get(i).copied().unwrap_or_default();
+        let fist_bool = chunk(0) & 1 == 1;
         let mut stats = RoaringBoolStatsAccumulator::new(fist_bool);
-        for bits64 in bitset_slice[0..whole_chunks].iter() {
-            stats.next(*bits64);
+        for i in 0..whole_chunks {
+            stats.next(chunk(i));
         }
-        stats.next_up_to_length(bitset_slice[whole_chunks], last_chunk_len);
+        stats.next_up_to_length(chunk(whole_chunks), last_chunk_len);
         Ok(stats.finish(self.2))
     }
 }
-- 
2.43.0


From b3ff23e7fede00cc32108871f818c3648db35058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 037/138] fix: comparing FSST with a constant uses the codes of
 the array's symbols

---
 encodings/fsst/src/compute.rs | 56 +++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index e2793bd..4ffeb84 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -1,4 +1,6 @@
-use fsst::Symbol;
+use std::collections::HashSet;
+
+use fsst::{Symbol, ESCAPE_CODE};
 use vortex::array::{varbin_scalar, ConstantArray};
 use vortex::compute::unary::{scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
@@ -6,7 +8,7 @@ use vortex::compute::{
 };
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_buffer::Buffer;
-use vortex_dtype::DType;
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_err, VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -60,21 +62,62 @@ fn compare_fsst_constant(
     let symbol_lens = left.symbol_lengths().into_primitive()?;
     let symbol_lens_u8 = symbol_lens.maybe_null_slice::<u8>();
 
+    let symbol_bytes = symbols_u64
+        .iter()
+        .zip(symbol_lens_u8)
+        .map(|(symbol, len)| symbol.to_le_bytes()[..*len as usize].to_vec())
+        .collect::<Vec<_>>();
+    if symbol_bytes.iter().collect::<HashSet<_>>().len() != symbol_bytes.len() {
+        // The same string may be compressed in different ways, so codes can't be compared.
+        return compare(
+            left.clone().into_varbinview()?,
+            right,
+            if equal { Operator::Eq } else { Operator::NotEq },
+        );
+    }
+
     let mut compressor = fsst::CompressorBuilder::new();
     for (symbol, symbol_len) in symbols_u64.iter().zip(symbol_lens_u8.iter()) {
         compressor.insert(Symbol::from_slice(&symbol.to_le_bytes()), *symbol_len as _);
     }
     let compressor = compressor.build();
 
+    // Building the compressor may number the symbols differently than the array does.
+    let decompressor = compressor.decompressor();
+    let codes = (0..compressor.symbol_table().len())
+        .map(|rebuilt| {
+            let bytes = decompressor.decompress(&[rebuilt as u8]);
+            symbol_bytes
+                .iter()
+                .position(|symbol| symbol == &bytes)
+                .map(|code| code as u8)
+                .ok_or_else(|| vortex_err!("Rebuilt symbol table has an unknown symbol"))
+        })
+        .collect::<VortexResult<Vec<u8>>>()?;
+    let compress = |value: &[u8]| {
+        let mut compressed = compressor.compress(value);
+        let mut idx = 0;
+        while idx < compressed.len() {
+            if compressed[idx] == ESCAPE_CODE {
+                // followed by a literal byte
+                idx += 1;
+            } else {
+                compressed[idx] = codes[compressed[idx] as usize];
+            }
+            idx += 1;
+        }
+        Buffer::from(compressed)
+    };
+
     let encoded_scalar = match left.dtype() {
         DType::Utf8(_) => right
             .scalar_value()
             .as_buffer_string()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_bytes()))),
+            .map(|scalar| compress(scalar.as_bytes())),
         DType::Binary(_) => right
             .scalar_value()
             .as_buffer()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_slice()))),
+            .map(|scalar| compress(scalar.as_slice())),
 
         _ => unreachable!("FSSTArray can only have string or binary data type"),
     };
@@ -82,7 +125,10 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(right.clone().into_array())
+            Ok(
+                ConstantArray::new(Scalar::null(DType::Bool(Nullability::Nullable)), left.len())
+                    .into_array(),
+            )
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From 7dd014dff4e0bf2fd85c1fdeaed1eb543ad3a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 038/138] fix: ALP comparison with a constant

---
 encodings/alp/src/alp/compute.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index efea9b0..89a016f 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -1,11 +1,11 @@
-use vortex::array::{BoolArray, ConstantArray};
+use vortex::array::ConstantArray;
 use vortex::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
     compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
 use vortex::stats::{ArrayStatistics, Stat};
-use vortex::validity::Validity;
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{VortexExpect, VortexResult};
 use vortex_scalar::{PValue, Scalar};
 
@@ -109,9 +109,10 @@ impl MaybeCompareFn for ALPArray {
             match pvalue {
                 Some(PValue::F32(f)) => Some(alp_scalar_compare(self, f, operator)),
                 Some(PValue::F64(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(_) | None => Some(Ok(BoolArray::from_vec(
-                    vec![false; self.len()],
-                    Validity::AllValid,
+                // Comparing with null is null
+                Some(_) | None => Some(Ok(ConstantArray::new(
+                    Scalar::null(DType::Bool(Nullability::Nullable)),
+                    self.len(),
                 )
                 .into_array())),
             }
@@ -129,19 +130,15 @@ fn alp_scalar_compare<F: ALPFloat + Into<Scalar>>(
 where
     F::ALPInt: Into<Scalar>,
 {
-    let encoded = F::encode_single(value, alp.exponents());
-    match encoded {
-        Ok(encoded) => {
+    match F::encode_single(value, alp.exponents()) {
+        // The encoded integers are ordered as the floats they stand for
+        Ok(encoded) if alp.patches().is_none() => {
             let s = ConstantArray::new(encoded, alp.len());
             compare(alp.encoded(), s.as_ref(), operator)
         }
-        Err(exception) => {
-            if let Some(patches) = alp.patches().as_ref() {
-                let s = ConstantArray::new(exception, alp.len());
-                compare(patches, s.as_ref(), operator)
-            } else {
-                Ok(BoolArray::from_vec(vec![false; alp.len()], Validity::AllValid).into_array())
-            }
+        _ => {
+            let s = ConstantArray::new(value, alp.len());
+            compare(alp.clone().into_primitive()?.as_ref(), s.as_ref(), operator)
         }
     }
 }
@@ -149,8 +146,7 @@ where
 #[cfg(test)]
 mod tests {
     use vortex::array::PrimitiveArray;
-    use vortex::IntoArrayVariant;
-    use vortex_dtype::{DType, Nullability, PType};
+    use vortex_dtype::PType;
 
     use super::*;
     use crate::alp_encode;
-- 
2.43.0


From c249b5f59850ae7cf028bcd52a256fdeeb3264f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 039/138] fix: combining validities of any encoding

---
 vortex-array/src/validity.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 5389a5d..47416a6 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -198,11 +198,8 @@ impl Validity {
             | (Validity::AllValid, Validity::AllValid) => Validity::AllValid,
             // Here we actually have to do some work
             (Validity::Array(lhs), Validity::Array(rhs)) => {
-                let lhs = BoolArray::try_from(lhs)?;
-                let rhs = BoolArray::try_from(rhs)?;
-
-                let lhs = lhs.boolean_buffer();
-                let rhs = rhs.boolean_buffer();
+                let lhs = lhs.clone().into_bool()?.boolean_buffer();
+                let rhs = rhs.clone().into_bool()?.boolean_buffer();
 
                 Validity::from(lhs.bitand(&rhs))
             }
-- 
2.43.0


From 28ce4088715642bd9218bfb3dea49d73b02b0c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 040/138] fix: comparing large VarBin arrays with a constant

---
 vortex-array/src/array/varbin/arrow.rs        | 57 +++++++++++++------
 .../src/array/varbin/compute/compare.rs       |  2 +-
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/vortex-array/src/array/varbin/arrow.rs b/vortex-array/src/array/varbin/arrow.rs
index 5f3e8b3..95b2ca9 100644
--- a/vortex-array/src/array/varbin/arrow.rs
+++ b/vortex-array/src/array/varbin/arrow.rs
@@ -1,6 +1,9 @@
 use std::sync::Arc;
 
-use arrow_array::{ArrayRef, BinaryArray, Datum, LargeBinaryArray, LargeStringArray, StringArray};
+use arrow_array::{
+    Array, ArrayRef, BinaryArray, Datum, LargeBinaryArray, LargeStringArray, StringArray,
+};
+use arrow_schema::DataType;
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
@@ -84,23 +87,43 @@ pub(crate) fn varbin_to_arrow(varbin_array: &VarBinArray) -> VortexResult<ArrayR
     })
 }
 
-/// Create a [`Datum`] from a Utf8 or Binary scalar.
-pub(crate) fn varbin_datum(scalar: Scalar) -> VortexResult<Arc<dyn Datum>> {
+/// Create a [`Datum`] of the given Arrow type from a Utf8 or Binary scalar.
+pub(crate) fn varbin_datum(scalar: Scalar, data_type: &DataType) -> VortexResult<Arc<dyn Datum>> {
+    fn datum<A: Array + 'static, T>(
+        value: Option<T>,
+        new_scalar: fn(T) -> arrow_array::Scalar<A>,
+        new_null: fn(usize) -> A,
+    ) -> Arc<dyn Datum> {
+        Arc::new(
+            value
+                .map(new_scalar)
+                .unwrap_or_else(|| arrow_array::Scalar::new(new_null(1))),
+        )
+    }
+
     match scalar.dtype() {
-        DType::Utf8(_) => Ok(Arc::new(
-            scalar
-                .value()
-                .as_buffer_string()?
-                .map(StringArray::new_scalar)
-                .unwrap_or_else(|| arrow_array::Scalar::new(StringArray::new_null(1))),
-        )),
-        DType::Binary(_) => Ok(Arc::new(
-            scalar
-                .value()
-                .as_buffer()?
-                .map(BinaryArray::new_scalar)
-                .unwrap_or_else(|| arrow_array::Scalar::new(BinaryArray::new_null(1))),
-        )),
+        DType::Utf8(_) => {
+            let value = scalar.value().as_buffer_string()?;
+            Ok(match data_type {
+                DataType::LargeUtf8 => datum(
+                    value,
+                    LargeStringArray::new_scalar,
+                    LargeStringArray::new_null,
+                ),
+                _ => datum(value, StringArray::new_scalar, StringArray::new_null),
+            })
+        }
+        DType::Binary(_) => {
+            let value = scalar.value().as_buffer()?;
+            Ok(match data_type {
+                DataType::LargeBinary => datum(
+                    value,
+                    LargeBinaryArray::new_scalar,
+                    LargeBinaryArray::new_null,
+                ),
+                _ => datum(value, BinaryArray::new_scalar, BinaryArray::new_null),
+            })
+        }
 
         other => vortex_bail!("Expected Utf8 or Binary scalar, found {other}"),
     }
diff --git a/vortex-array/src/array/varbin/compute/compare.rs b/vortex-array/src/array/varbin/compute/compare.rs
index 5a4ad5a..6dbf52b 100644
--- a/vortex-array/src/array/varbin/compute/compare.rs
+++ b/vortex-array/src/array/varbin/compute/compare.rs
@@ -30,7 +30,7 @@ fn compare_constant(
 ) -> VortexResult<Array> {
     // Compare using the arrow kernels directly.
     let arrow_lhs = varbin_to_arrow(lhs)?;
-    let constant = varbin_datum(rhs.owned_scalar())?;
+    let constant = varbin_datum(rhs.owned_scalar(), arrow_lhs.data_type())?;
 
     match arrow_lhs.data_type() {
         DataType::Binary => {
-- 
2.43.0


From 12ee8bcd876e74ff3e235766c50a5e9ec488c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 041/138] fix: floats are compared by the total order whatever
 the encoding

---
 .../src/array/primitive/compute/compare.rs      | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/compare.rs b/vortex-array/src/array/primitive/compute/compare.rs
index 694dbe3..2c1cf4e 100644
--- a/vortex-array/src/array/primitive/compute/compare.rs
+++ b/vortex-array/src/array/primitive/compute/compare.rs
@@ -17,7 +17,7 @@ impl MaybeCompareFn for PrimitiveArray {
 
         if let Ok(primitive) = PrimitiveArray::try_from(other) {
             let match_mask = match_each_native_ptype!(self.ptype(), |$T| {
-                apply_predicate(self.maybe_null_slice::<$T>(), primitive.maybe_null_slice::<$T>(), operator.to_fn::<$T>())
+                apply_predicate(self.maybe_null_slice::<$T>(), primitive.maybe_null_slice::<$T>(), total_order_fn::<$T>(operator))
             });
 
             let validity = self
@@ -58,7 +58,7 @@ fn primitive_value_compare<T: NativePType>(
     value: T,
     op: Operator,
 ) -> BooleanBuffer {
-    let op_fn = op.to_fn::<T>();
+    let op_fn = total_order_fn::<T>(op);
     let slice = this.maybe_null_slice::<T>();
 
     BooleanBuffer::collect_bool(this.len(), |idx| {
@@ -66,6 +66,19 @@ fn primitive_value_compare<T: NativePType>(
     })
 }
 
+/// Compares by the total order, the one scalars and the Arrow kernels use: unlike by the order of
+/// IEEE 754, NaN equals itself and -0.0 is less than 0.0.
+fn total_order_fn<T: NativePType>(operator: Operator) -> fn(T, T) -> bool {
+    match operator {
+        Operator::Eq => |l, r| l.is_eq(r),
+        Operator::NotEq => |l, r| !l.is_eq(r),
+        Operator::Gt => |l, r| l.compare(r).is_gt(),
+        Operator::Gte => |l, r| l.compare(r).is_ge(),
+        Operator::Lt => |l, r| l.compare(r).is_lt(),
+        Operator::Lte => |l, r| l.compare(r).is_le(),
+    }
+}
+
 fn apply_predicate<T: NativePType, F: Fn(T, T) -> bool>(
     lhs: &[T],
     rhs: &[T],
-- 
2.43.0


From e15a0e7736a530735df6a6bd1a959ff46bb77b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 042/138] fix: comparisons with null, of empty arrays, and of
 extension arrays with constants

---
 vortex-array/src/compute/compare.rs | 42 ++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index c2736c3..99d9d92 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -1,14 +1,17 @@
 use core::fmt;
+use std::cmp::Ordering;
 use std::fmt::{Display, Formatter};
 
+use arrow_buffer::BooleanBuffer;
 use arrow_ord::cmp;
 use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::array::Constant;
+use crate::array::{BoolArray, Constant, ConstantArray, Extension};
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, ArrayDef, IntoCanonical};
+use crate::validity::Validity;
+use crate::{Array, ArrayDType, ArrayDef, IntoArray, IntoArrayVariant, IntoCanonical};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, PartialOrd)]
 pub enum Operator {
@@ -95,10 +98,34 @@ pub fn compare(
         vortex_bail!("Compare operations only support arrays of the same type");
     }
 
+    if left.is_empty() {
+        return Ok(
+            BoolArray::try_new(BooleanBuffer::new_unset(0), Validity::AllValid)?.into_array(),
+        );
+    }
+
+    // Comparing with null is null
+    if is_constant_null(left) || is_constant_null(right) {
+        return Ok(ConstantArray::new(
+            Scalar::null(DType::Bool(Nullability::Nullable)),
+            left.len(),
+        )
+        .into_array());
+    }
+
     if left.is_encoding(Constant::ID) && !right.is_encoding(Constant::ID) {
         return compare(right, left, operator.swap());
     }
 
+    // Encodings of extension types don't know how to compare with a constant, but their storage does
+    if matches!(left.dtype(), DType::Extension(..))
+        && !left.is_encoding(Extension::ID)
+        && !left.is_encoding(Constant::ID)
+        && right.is_encoding(Constant::ID)
+    {
+        return compare(left.clone().into_extension()?, right, operator);
+    }
+
     if let Some(selection) = left.with_dyn(|lhs| lhs.compare(right, operator)) {
         return selection;
     }
@@ -123,13 +150,20 @@ pub fn compare(
     Ok(Array::from_arrow(&array, true))
 }
 
+/// Whether all the values of the array are known to be null, without decoding it.
+fn is_constant_null(array: &Array) -> bool {
+    matches!(array.dtype(), DType::Null)
+        || ConstantArray::try_from(array).is_ok_and(|c| c.scalar_value().is_null())
+}
+
 pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
     if lhs.is_null() | rhs.is_null() {
         Scalar::null(DType::Bool(Nullability::Nullable))
     } else {
         let b = match operator {
-            Operator::Eq => lhs == rhs,
-            Operator::NotEq => lhs != rhs,
+            // unlike ==, this doesn't compare the nullability of the types
+            Operator::Eq => lhs.partial_cmp(rhs) == Some(Ordering::Equal),
+            Operator::NotEq => lhs.partial_cmp(rhs) != Some(Ordering::Equal),
             Operator::Gt => lhs > rhs,
             Operator::Gte => lhs >= rhs,
             Operator::Lt => lhs < rhs,
-- 
2.43.0


From 4ea3d93dd8ecbfb91965e5e432cdc5e3b89e1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 043/138] fix: boolean operations of constants with any
 encoding

---
 vortex-array/src/array/constant/compute.rs | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 28cff99..65722e6 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use vortex_dtype::Nullability;
-use vortex_error::{vortex_bail, vortex_err, VortexExpect, VortexResult};
+use vortex_error::{vortex_err, VortexExpect, VortexResult};
 use vortex_scalar::Scalar;
 
 use crate::array::constant::ConstantArray;
@@ -11,7 +11,7 @@ use crate::compute::{
     SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::stats::{ArrayStatistics, Stat};
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl ArrayCompute for ConstantArray {
     fn compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
@@ -129,7 +129,11 @@ impl AndFn for ConstantArray {
             self,
             array,
             |(l, r)| l & r,
-            |other, this| other.with_dyn(|other| other.and().map(|other| other.and(this))),
+            |other, this| {
+                other
+                    .with_dyn(|other| other.and().map(|other| other.and(this)))
+                    .unwrap_or_else(|| AndFn::and(&other.clone().into_bool()?, this))
+            },
         )
     }
 }
@@ -140,7 +144,11 @@ impl OrFn for ConstantArray {
             self,
             array,
             |(l, r)| l | r,
-            |other, this| other.with_dyn(|other| other.or().map(|other| other.or(this))),
+            |other, this| {
+                other
+                    .with_dyn(|other| other.or().map(|other| other.or(this)))
+                    .unwrap_or_else(|| OrFn::or(&other.clone().into_bool()?, this))
+            },
         )
     }
 }
@@ -149,10 +157,10 @@ fn constant_array_bool_impl(
     constant_array: &ConstantArray,
     other: &Array,
     bool_op: impl Fn((bool, bool)) -> bool,
-    fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
+    fallback_fn: impl Fn(&Array, &Array) -> VortexResult<Array>,
 ) -> VortexResult<Array> {
-    // If the right side is constant
-    if other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    // If the right side is constant, and has a value to be
+    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
@@ -163,11 +171,8 @@ fn constant_array_bool_impl(
 
         Ok(ConstantArray::new(scalar, constant_array.len()).into_array())
     } else {
-        // try and use a the rhs specialized implementation if it exists
-        match fallback_fn(other, constant_array.as_ref()) {
-            Some(r) => r,
-            None => vortex_bail!("Operation is not supported"),
-        }
+        // use the rhs specialized implementation if it exists, or the one of its canonical form
+        fallback_fn(other, constant_array.as_ref())
     }
 }
 
-- 
2.43.0


From 566ce45d346cfccec0c6ee59f3db28beb1277378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 044/138] fix: casting doesn't fail because of what nulls store

---
 vortex-array/src/array/primitive/compute/cast.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/cast.rs b/vortex-array/src/array/primitive/compute/cast.rs
index 7db3ed3..251607e 100644
--- a/vortex-array/src/array/primitive/compute/cast.rs
+++ b/vortex-array/src/array/primitive/compute/cast.rs
@@ -3,7 +3,7 @@ use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::array::primitive::PrimitiveArray;
 use crate::compute::unary::CastFn;
-use crate::validity::Validity;
+use crate::validity::{ArrayValidity, Validity};
 use crate::{Array, ArrayDType, IntoArray};
 
 impl CastFn for PrimitiveArray {
@@ -46,15 +46,20 @@ impl CastFn for PrimitiveArray {
 }
 
 fn cast<T: NativePType>(array: &PrimitiveArray) -> VortexResult<Vec<T>> {
+    let nulls = array.logical_validity().to_null_buffer()?;
+    let is_valid = |idx: usize| nulls.as_ref().map_or(true, |nulls| nulls.is_valid(idx));
+
     match_each_native_ptype!(array.ptype(), |$E| {
         array
             .maybe_null_slice::<$E>()
             .iter()
+            .enumerate()
             // TODO(ngates): allow configurable checked/unchecked casting
-            .map(|&v| {
-                T::from(v).ok_or_else(|| {
-                    vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)
-                })
+            .map(|(idx, &v)| match T::from(v) {
+                Some(cast) => Ok(cast),
+                // whatever is stored in place of a null need not fit
+                None if !is_valid(idx) => Ok(T::default()),
+                None => Err(vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)),
             })
             .collect()
     })
-- 
2.43.0


From c938ef943b7c539bdcc7f1a1de63a3263370ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 045/138] fix: subtracting a scalar keeps validity

---
 vortex-array/src/array/primitive/compute/subtract_scalar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/subtract_scalar.rs b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
index 2524089..c5027a5 100644
--- a/vortex-array/src/array/primitive/compute/subtract_scalar.rs
+++ b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
@@ -38,7 +38,7 @@ impl SubtractScalarFn for PrimitiveArray {
                 let sub_vec : Vec<$T> = self.maybe_null_slice::<$T>()
                 .iter()
                 .map(|&v| v - to_subtract).collect_vec();
-                PrimitiveArray::from(sub_vec)
+                PrimitiveArray::from_vec(sub_vec, self.validity())
             })
         };
         Ok(result.into_array())
@@ -63,12 +63,13 @@ fn subtract_scalar_integer<T: NativePType + WrappingSub>(
             .collect_vec();
         PrimitiveArray::from_vec(sub_vec, subtract_from.validity())
     } else {
-        PrimitiveArray::from(
+        PrimitiveArray::from_vec(
             subtract_from
                 .maybe_null_slice::<T>()
                 .iter()
                 .map(|&v| v - to_subtract)
                 .collect_vec(),
+            subtract_from.validity(),
         )
     };
     Ok(subtraction_result)
-- 
2.43.0


From cab344a1702e25fa9216b0790377a8004df87b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 046/138] fix: count all-null values in the bit width and
 trailing zero frequencies

---
 vortex-array/src/stats/statsset.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 71bf16e..0675ca9 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -46,15 +46,14 @@ impl StatsSet {
                 stats.insert(Stat::TrueCount, 0.into());
             }
             DType::Primitive(ptype, _) => {
-                ptype.byte_width();
-                stats.insert(
-                    Stat::BitWidthFreq,
-                    vec![0_u64; ptype.byte_width() * 8 + 1].into(),
-                );
-                stats.insert(
-                    Stat::TrailingZeroFreq,
-                    vec![ptype.byte_width() * 8; ptype.byte_width() * 8 + 1].into(),
-                );
+                // Every null counts as zero: no significant bits, and all of them trailing zeros.
+                let bit_width = ptype.byte_width() * 8;
+                let mut bit_width_freq = vec![0_u64; bit_width + 1];
+                bit_width_freq[0] = len as u64;
+                stats.insert(Stat::BitWidthFreq, bit_width_freq.into());
+                let mut trailing_zero_freq = vec![0_u64; bit_width + 1];
+                trailing_zero_freq[bit_width] = len as u64;
+                stats.insert(Stat::TrailingZeroFreq, trailing_zero_freq.into());
             }
             _ => {}
         }
-- 
2.43.0


From a51185da024179568269198babcf2b9cf61eae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 047/138] fix: merge the statistics of arrays without valid
 values

---
 vortex-array/src/stats/statsset.rs | 35 ++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 0675ca9..d8d26ce 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -117,10 +117,13 @@ impl StatsSet {
     /// result set. For example, if we know the minimums of two arrays, the minimum of their union
     /// is the minimum-of-minimums, but if we only know the minimum of one of the two arrays, we
     /// do not know the minimum of their union.
+    ///
+    /// A null bound belongs to an array without any valid value, the bound of the union is then
+    /// the one of the other array.
     fn merge_ordered<F: Fn(&Scalar, &Scalar) -> bool>(&mut self, stat: Stat, other: &Self, cmp: F) {
         if let Entry::Occupied(mut e) = self.values.entry(stat) {
             if let Some(ov) = other.get(stat) {
-                if cmp(ov, e.get()) {
+                if e.get().is_null() || (!ov.is_null() && cmp(ov, e.get())) {
                     e.insert(ov.clone());
                 }
             } else {
@@ -130,13 +133,23 @@ impl StatsSet {
     }
 
     fn merge_is_constant(&mut self, other: &Self) {
-        if let Some(is_constant) = self.get_as(Stat::IsConstant) {
-            if let Some(other_is_constant) = other.get_as(Stat::IsConstant) {
-                if is_constant && other_is_constant && self.get(Stat::Min) == other.get(Stat::Min) {
-                    return;
-                }
+        match (
+            self.get_as::<bool>(Stat::IsConstant),
+            other.get_as::<bool>(Stat::IsConstant),
+        ) {
+            (Some(false), _) | (None, _) => {}
+            (Some(true), Some(false)) => {
+                self.values.insert(Stat::IsConstant, false.into());
+            }
+            (Some(true), Some(true))
+                if self.get(Stat::Min).is_some() && other.get(Stat::Min).is_some() =>
+            {
+                let is_constant = self.get(Stat::Min) == other.get(Stat::Min);
+                self.values.insert(Stat::IsConstant, is_constant.into());
+            }
+            _ => {
+                self.values.remove(&Stat::IsConstant);
             }
-            self.values.insert(Stat::IsConstant, false.into());
         }
     }
 
@@ -156,11 +169,15 @@ impl StatsSet {
     ) {
         if let Some(is_sorted) = self.get_as(stat) {
             if let Some(other_is_sorted) = other.get_as(stat) {
-                if !(self.get(Stat::Max).is_some() && other.get(Stat::Min).is_some()) {
+                let (max, other_min) = (self.get(Stat::Max), other.get(Stat::Min));
+                if !(max.is_some() && other_min.is_some()) {
                     self.values.remove(&stat);
                 } else if is_sorted
                     && other_is_sorted
-                    && cmp(self.get(Stat::Max), other.get(Stat::Min))
+                    // A side without any valid value has no order to violate
+                    && (max.is_some_and(|m| m.is_null())
+                        || other_min.is_some_and(|m| m.is_null())
+                        || cmp(max, other_min))
                 {
                     return;
                 } else {
-- 
2.43.0


From 9c95f4ba1639a03a9ec587a67f42ca997889f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 048/138] fix: do not count nulls as false in the minimum of a
 bool array

---
 vortex-array/src/array/bool/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/bool/stats.rs b/vortex-array/src/array/bool/stats.rs
index 4c49264..ce3f3b4 100644
--- a/vortex-array/src/array/bool/stats.rs
+++ b/vortex-array/src/array/bool/stats.rs
@@ -119,7 +119,10 @@ impl BoolStatsAccumulator {
 
     pub fn finish(self) -> StatsSet {
         StatsSet::from(HashMap::from([
-            (Stat::Min, (self.true_count == self.len).into()),
+            (
+                Stat::Min,
+                (self.true_count == self.len - self.null_count).into(),
+            ),
             (Stat::Max, (self.true_count > 0).into()),
             (
                 Stat::IsConstant,
-- 
2.43.0


From 58f76b8d65912e07e81872dca324fcf0b86b4e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 049/138] fix: leave empty chunks out of the statistics of a
 chunked array

---
 vortex-array/src/array/chunked/stats.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-array/src/array/chunked/stats.rs b/vortex-array/src/array/chunked/stats.rs
index a93df8e..8e5e077 100644
--- a/vortex-array/src/array/chunked/stats.rs
+++ b/vortex-array/src/array/chunked/stats.rs
@@ -7,6 +7,8 @@ impl ArrayStatisticsCompute for ChunkedArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         Ok(self
             .chunks()
+            // Empty chunks have no statistics, and no effect on those of the whole
+            .filter(|c| !c.is_empty())
             .map(|c| {
                 let s = c.statistics();
                 // HACK(robert): This will compute all stats, but we could just compute one
-- 
2.43.0


From 4a0493c03ded7cb24a02a00229985f82907cf38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 050/138] fix: take the validity of a DictArray from its values

---
 encodings/dict/src/array.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/encodings/dict/src/array.rs b/encodings/dict/src/array.rs
index 598aa96..7a41244 100644
--- a/encodings/dict/src/array.rs
+++ b/encodings/dict/src/array.rs
@@ -1,19 +1,14 @@
 use std::fmt::{Debug, Display};
 
-use arrow_buffer::BooleanBuffer;
 use serde::{Deserialize, Serialize};
 use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
-use vortex::array::BoolArray;
 use vortex::compute::take;
 use vortex::compute::unary::scalar_at;
 use vortex::encoding::ids;
 use vortex::stats::StatsSet;
 use vortex::validity::{ArrayValidity, LogicalValidity};
-use vortex::{
-    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
-    IntoCanonical,
-};
-use vortex_dtype::{match_each_integer_ptype, DType, PType};
+use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
+use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 
 impl_encoding!("vortex.dict", ids::DICT, Dict);
@@ -85,22 +80,18 @@ impl ArrayValidity for DictArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        if self.dtype().is_nullable() {
-            let primitive_codes = self
-                .codes()
-                .into_primitive()
-                .vortex_expect("Failed to convert DictArray codes to primitive array");
-            match_each_integer_ptype!(primitive_codes.ptype(), |$P| {
-                let is_valid = primitive_codes
-                    .maybe_null_slice::<$P>();
-                let is_valid_buffer = BooleanBuffer::collect_bool(is_valid.len(), |idx| {
-                    is_valid[idx] != 0
-                });
-                LogicalValidity::Array(BoolArray::from(is_valid_buffer).into_array())
-            })
-        } else {
-            LogicalValidity::AllValid(self.len())
+        let values_validity = self.values().with_dyn(|a| a.logical_validity());
+        if values_validity.all_valid() {
+            return LogicalValidity::AllValid(self.len());
+        }
+        if values_validity.all_invalid() {
+            return LogicalValidity::AllInvalid(self.len());
         }
+        values_validity
+            .into_validity()
+            .take(&self.codes())
+            .vortex_expect("Failed to take the validity of DictArray values by its codes")
+            .to_logical(self.len())
     }
 }
 
-- 
2.43.0


From 68bff4f711e0a76c117e572af37ca7015df4149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 051/138] fix: compute sortedness and null count of a DictArray
 from values and codes

---
 encodings/dict/src/stats.rs | 52 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index c153898..620e92f 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
+use vortex::validity::{ArrayValidity, LogicalValidity};
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
@@ -22,25 +23,42 @@ impl ArrayStatisticsCompute for DictArray {
         if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
             stats.insert(Stat::IsConstant, is_constant);
         }
-        if let Some(null_count) = self.codes().statistics().compute(Stat::NullCount) {
-            stats.insert(Stat::NullCount, null_count);
-        }
-
-        // if dictionary is sorted
-        if self
-            .values()
-            .statistics()
-            .compute_is_sorted()
-            .unwrap_or(false)
-        {
-            if let Some(codes_are_sorted) = self.codes().statistics().compute(Stat::IsSorted) {
-                stats.insert(Stat::IsSorted, codes_are_sorted);
+        match self.logical_validity() {
+            LogicalValidity::AllValid(_) => {
+                stats.insert(Stat::NullCount, 0.into());
+            }
+            LogicalValidity::AllInvalid(len) => {
+                stats.insert(Stat::NullCount, len.into());
             }
+            LogicalValidity::Array(a) => {
+                if let Some(true_count) = a.statistics().compute_true_count() {
+                    stats.insert(Stat::NullCount, (a.len() - true_count).into());
+                }
+            }
+        }
 
-            if let Some(codes_are_strict_sorted) =
-                self.codes().statistics().compute(Stat::IsStrictSorted)
-            {
-                stats.insert(Stat::IsStrictSorted, codes_are_strict_sorted);
+        // The order of the codes is that of the values only if the dictionary itself is in order.
+        // It says nothing about what is out of order if a value is repeated or null.
+        for stat in [Stat::IsSorted, Stat::IsStrictSorted] {
+            let values_sorted = self.values().statistics().compute_as::<bool>(stat);
+            let codes_sorted = self.codes().statistics().compute_as::<bool>(stat);
+            match (values_sorted, codes_sorted) {
+                (Some(true), Some(true)) => {
+                    stats.insert(stat, true.into());
+                }
+                (_, Some(false)) => {
+                    let values_strict_sorted = self
+                        .values()
+                        .statistics()
+                        .compute_is_strict_sorted()
+                        .unwrap_or(false);
+                    if values_strict_sorted
+                        && self.values().with_dyn(|a| a.logical_validity()).all_valid()
+                    {
+                        stats.insert(stat, false.into());
+                    }
+                }
+                _ => {}
             }
         }
 
-- 
2.43.0


From 67647974a8cfa68cd330cb381ec8990216752838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 052/138] fix: compress sliced sparse arrays with their offset
 and the values like the values

---
 vortex-array/src/array/sparse/mod.rs                 | 3 ++-
 vortex-sampling-compressor/src/compressors/sparse.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index c5ae367..1fa337c 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -43,7 +43,8 @@ impl SparseArray {
         Self::try_new_with_offset(indices, values, len, 0, fill_value)
     }
 
-    pub(crate) fn try_new_with_offset(
+    /// Create a sparse array whose indices are relative to `indices_offset`.
+    pub fn try_new_with_offset(
         indices: Array,
         values: Array,
         len: usize,
diff --git a/vortex-sampling-compressor/src/compressors/sparse.rs b/vortex-sampling-compressor/src/compressors/sparse.rs
index be84c2d..c327db9 100644
--- a/vortex-sampling-compressor/src/compressors/sparse.rs
+++ b/vortex-sampling-compressor/src/compressors/sparse.rs
@@ -37,13 +37,14 @@ impl EncodingCompressor for SparseCompressor {
         )?;
         let values = ctx.named("values").compress(
             &sparse_array.values(),
-            like.as_ref().and_then(|l| l.child(0)),
+            like.as_ref().and_then(|l| l.child(1)),
         )?;
         Ok(CompressedArray::new(
-            SparseArray::try_new(
+            SparseArray::try_new_with_offset(
                 indices.array,
                 values.array,
                 sparse_array.len(),
+                sparse_array.indices_offset(),
                 sparse_array.fill_value().clone(),
             )?
             .into_array(),
-- 
2.43.0


From 931a70ec73aad9ee6c86560e204c234a2dcad9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 053/138] fix: compute DictArray statistics over the values its
 codes refer to

---
 encodings/dict/src/stats.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index 620e92f..01c61bf 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 
+use vortex::array::BoolArray;
+use vortex::compute::filter;
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity};
+use vortex::{Array, IntoArrayVariant};
+use vortex_dtype::match_each_integer_ptype;
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
@@ -14,10 +18,12 @@ impl ArrayStatisticsCompute for DictArray {
         if let Some(rc) = self.codes().statistics().compute(Stat::RunCount) {
             stats.insert(Stat::RunCount, rc);
         }
-        if let Some(min) = self.values().statistics().compute(Stat::Min) {
+        // Dictionaries can hold values that no code refers to, e.g. after a slice.
+        let values = referenced_values(self)?;
+        if let Some(min) = values.statistics().compute(Stat::Min) {
             stats.insert(Stat::Min, min);
         }
-        if let Some(max) = self.values().statistics().compute(Stat::Max) {
+        if let Some(max) = values.statistics().compute(Stat::Max) {
             stats.insert(Stat::Max, max);
         }
         if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
@@ -40,7 +46,7 @@ impl ArrayStatisticsCompute for DictArray {
         // The order of the codes is that of the values only if the dictionary itself is in order.
         // It says nothing about what is out of order if a value is repeated or null.
         for stat in [Stat::IsSorted, Stat::IsStrictSorted] {
-            let values_sorted = self.values().statistics().compute_as::<bool>(stat);
+            let values_sorted = values.statistics().compute_as::<bool>(stat);
             let codes_sorted = self.codes().statistics().compute_as::<bool>(stat);
             match (values_sorted, codes_sorted) {
                 (Some(true), Some(true)) => {
@@ -52,8 +58,7 @@ impl ArrayStatisticsCompute for DictArray {
                         .statistics()
                         .compute_is_strict_sorted()
                         .unwrap_or(false);
-                    if values_strict_sorted
-                        && self.values().with_dyn(|a| a.logical_validity()).all_valid()
+                    if values_strict_sorted && values.with_dyn(|a| a.logical_validity()).all_valid()
                     {
                         stats.insert(stat, false.into());
                     }
@@ -65,3 +70,17 @@ impl ArrayStatisticsCompute for DictArray {
         Ok(StatsSet::from(stats))
     }
 }
+
+fn referenced_values(array: &DictArray) -> VortexResult<Array> {
+    let codes = array.codes().into_primitive()?;
+    let mut referenced = vec![false; array.values().len()];
+    match_each_integer_ptype!(codes.ptype(), |$P| {
+        for code in codes.maybe_null_slice::<$P>() {
+            referenced[*code as usize] = true;
+        }
+    });
+    if referenced.iter().all(|r| *r) {
+        return Ok(array.values());
+    }
+    filter(array.values(), BoolArray::from(referenced))
+}
-- 
2.43.0


From 77f69ac10b1768af001491973a8038c1eeb963af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 054/138] fix: return scalars of the dtype of the array

---
 vortex-array/src/compute/unary/scalar_at.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/unary/scalar_at.rs b/vortex-array/src/compute/unary/scalar_at.rs
index c25ebf3..a7fa2e0 100644
--- a/vortex-array/src/compute/unary/scalar_at.rs
+++ b/vortex-array/src/compute/unary/scalar_at.rs
@@ -19,11 +19,17 @@ pub fn scalar_at(array: impl AsRef<Array>, index: usize) -> VortexResult<Scalar>
         return Ok(Scalar::null(array.dtype().clone()));
     }
 
-    array.with_dyn(|a| {
+    let scalar = array.with_dyn(|a| {
         a.scalar_at()
             .map(|t| t.scalar_at(index))
             .unwrap_or_else(|| Err(vortex_err!(NotImplemented: "scalar_at", array.encoding().id())))
-    })
+    })?;
+
+    // Encodings that delegate to their children can return the nullability of the child.
+    if scalar.dtype() != array.dtype() && scalar.dtype().eq_ignore_nullability(array.dtype()) {
+        return Ok(Scalar::new(array.dtype().clone(), scalar.into_value()));
+    }
+    Ok(scalar)
 }
 
 /// Returns a [`Scalar`] value without checking for validity or array bounds. Might panic *OR* return an invalid value if used incorrectly.
-- 
2.43.0


From 9c1c96383fad7fc00f09bbd1f44873c348f15981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 055/138] fix: take rows by indices of any integer type and
 encoding, and by none

---
 vortex-array/src/stream/take_rows.rs         | 29 +++++++++++++-------
 vortex-serde/src/chunked_reader/take_rows.rs | 12 +++++++-
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index 2562b53..9e8a514 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -3,11 +3,11 @@ use std::task::{Context, Poll};
 
 use futures_util::{ready, Stream};
 use pin_project::pin_project;
-use vortex_dtype::match_each_integer_ptype;
+use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::compute::unary::subtract_scalar;
+use crate::compute::unary::{subtract_scalar, try_cast};
 use crate::compute::{search_sorted, slice, take, SearchSortedSide};
 use crate::stats::{ArrayStatistics, Stat};
 use crate::stream::ArrayStream;
@@ -23,7 +23,15 @@ pub struct TakeRows<R: ArrayStream> {
 
 impl<R: ArrayStream> TakeRows<R> {
     pub fn try_new(reader: R, indices: Array) -> VortexResult<Self> {
+        let mut indices = indices;
         if !indices.is_empty() {
+            if !indices.dtype().is_int() {
+                vortex_bail!("Indices must be integers")
+            }
+
+            // Not all encodings know the statistics below.
+            indices = indices.into_primitive()?.into_array();
+
             if !indices.statistics().compute_is_sorted().unwrap_or(false) {
                 vortex_bail!("Indices must be sorted to take from IPC stream")
             }
@@ -37,10 +45,6 @@ impl<R: ArrayStream> TakeRows<R> {
                 vortex_bail!("Indices must not contain nulls")
             }
 
-            if !indices.dtype().is_int() {
-                vortex_bail!("Indices must be integers")
-            }
-
             if indices.dtype().is_signed_int()
                 && indices
                     .statistics()
@@ -50,6 +54,12 @@ impl<R: ArrayStream> TakeRows<R> {
             {
                 vortex_bail!("Indices must be positive")
             }
+
+            // Row offsets don't necessarily fit the type of the indices.
+            indices = try_cast(
+                &indices,
+                &DType::Primitive(PType::U64, indices.dtype().nullability()),
+            )?;
         }
 
         Ok(Self {
@@ -88,10 +98,9 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
 
             // TODO(ngates): this is probably too heavy to run on the event loop. We should spawn
             //  onto a worker pool.
-            let indices_for_batch = slice(this.indices, left, right)?.into_primitive()?;
-            let shifted_arr = match_each_integer_ptype!(indices_for_batch.ptype(), |$T| {
-                subtract_scalar(&indices_for_batch.into_array(), &Scalar::from(curr_offset as $T))?
-            });
+            let indices_for_batch = slice(this.indices, left, right)?;
+            let shifted_arr =
+                subtract_scalar(&indices_for_batch, &Scalar::from(curr_offset as u64))?;
             return Poll::Ready(take(&batch, &shifted_arr).map(Some).transpose());
         }
 
diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index eafc887..a7578bb 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -10,7 +10,7 @@ use vortex::compute::{search_sorted, slice, take, SearchSortedSide};
 use vortex::stats::ArrayStatistics;
 use vortex::stream::{ArrayStream, ArrayStreamExt};
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
-use vortex_dtype::PType;
+use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
 use vortex_scalar::Scalar;
 
@@ -20,6 +20,16 @@ use crate::stream_reader::StreamArrayReader;
 
 impl<R: VortexReadAt> ChunkedArrayReader<R> {
     pub async fn take_rows(&mut self, indices: &Array) -> VortexResult<Array> {
+        if indices.is_empty() {
+            return Ok(ChunkedArray::try_new(vec![], (*self.dtype).clone())?.into_array());
+        }
+
+        // Row offsets don't necessarily fit the type of the indices.
+        let indices = &try_cast(
+            indices.clone().into_primitive()?.as_ref(),
+            &DType::Primitive(PType::U64, indices.dtype().nullability()),
+        )?;
+
         // Figure out if the row indices are sorted / unique. If not, we need to sort them.
         if indices
             .statistics()
-- 
2.43.0


From 4ef3cd9ecab4c55d9cdc6741dd0e894f3cbcfc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 056/138] fix: finish a message reader over a stream without
 messages

---
 vortex-serde/src/message_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index 5bc8114..9ccf1ce 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -30,7 +30,7 @@ impl<R: VortexRead> MessageReader<R> {
             prev_message: BytesMut::new(),
             finished: false,
         };
-        reader.load_next_message().await?;
+        reader.finished = !reader.load_next_message().await?;
         Ok(reader)
     }
 
-- 
2.43.0


From e039af000be531f2f2e5627070eacc05bc73190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 057/138] fix: write the postscript at its fixed size even when
 an offset is zero

---
 vortex-serde/src/layouts/write/footer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-serde/src/layouts/write/footer.rs b/vortex-serde/src/layouts/write/footer.rs
index 6f214fc..8550dcc 100644
--- a/vortex-serde/src/layouts/write/footer.rs
+++ b/vortex-serde/src/layouts/write/footer.rs
@@ -55,6 +55,8 @@ impl WriteFlatBuffer for Postscript {
         &self,
         fbb: &mut FlatBufferBuilder<'fb>,
     ) -> WIPOffset<Self::Target<'fb>> {
+        // The postscript has a fixed size: write its offsets even when they equal their default
+        fbb.force_defaults(true);
         fb::Postscript::create(
             fbb,
             &fb::PostscriptArgs {
-- 
2.43.0


From 18cfdaf9eef9e80aed8d25f0f8bb0c9030933b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 058/138] fix: write a layout for every column of a file
 without batches

---
 vortex-serde/src/layouts/write/writer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 9b44245..39a86df 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -52,7 +52,14 @@ impl<W: VortexWrite> LayoutWriter<W> {
         mut array_stream: S,
     ) -> VortexResult<Self> {
         match self.dtype {
-            None => self.dtype = Some(array_stream.dtype().clone()),
+            None => {
+                // Every column gets a layout, even if the stream turns out to hold no batches
+                if let DType::Struct(st, _) = array_stream.dtype() {
+                    self.column_chunks
+                        .resize_with(st.names().len(), || BatchOffsets::new(vec![0], vec![]));
+                }
+                self.dtype = Some(array_stream.dtype().clone())
+            }
             Some(ref sd) => {
                 if sd != array_stream.dtype() {
                     vortex_bail!(
-- 
2.43.0


From ec809b41aa8cecb886724a13abff9087179bfec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 059/138] fix: keep filtering after a batch none of whose rows
 are selected

---
 vortex-serde/src/layouts/read/filtering.rs | 2 +-
 vortex-serde/src/layouts/read/stream.rs    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vortex-serde/src/layouts/read/filtering.rs b/vortex-serde/src/layouts/read/filtering.rs
index 9f9d7d3..796c7e7 100644
--- a/vortex-serde/src/layouts/read/filtering.rs
+++ b/vortex-serde/src/layouts/read/filtering.rs
@@ -31,7 +31,7 @@ impl RowFilter {
             .vortex_expect("must have at least one predicate")
             .evaluate(target)?;
         for expr in filter_iter {
-            if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+            if mask.statistics().compute_true_count() == Some(0) {
                 return Ok(ConstantArray::new(false, target.len()).into_array());
             }
 
diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bcbe449..dddcaa1 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -141,8 +141,8 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
                     let mut batch = arr.clone();
 
                     if let Some(mask) = self.cached_mask.take() {
-                        if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
-                            self.state = StreamingState::Init;
+                        if mask.statistics().compute_true_count() == Some(0) {
+                            self.state = StreamingState::FilterInit;
                             continue;
                         }
 
-- 
2.43.0


From 804cc25d5898f6b0153ae7efede8449fd68952db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 060/138] fix: evaluate row filters that refer to columns by
 position

---
 vortex-serde/src/layouts/read/builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index e82030e..cf0a7a7 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,6 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
+use vortex_dtype::field::Field;
 use vortex_error::VortexResult;
 use vortex_schema::projection::Projection;
 
@@ -81,7 +82,14 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             .row_filter
             .as_ref()
             .map(|f| f.references().into_iter().cloned().collect::<Vec<_>>())
-            .map(Projection::from);
+            .map(|fields| {
+                // Projecting moves the columns, positions only keep their meaning in the full schema
+                if fields.iter().any(|f| matches!(f, Field::Index(_))) {
+                    Projection::All
+                } else {
+                    Projection::from(fields)
+                }
+            });
 
         let projected_dtype = match read_projection {
             Projection::All => footer.dtype()?,
-- 
2.43.0


From c73304129aeba418417f5efb6e437971d05d04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 061/138] fix: re-read the footer when it is larger than the
 initial read, reject malformed offsets

---
 vortex-serde/src/layouts/read/footer.rs | 33 ++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 6fc1341..993fd1c 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -142,11 +142,12 @@ impl LayoutDescriptorReader {
         read: &R,
         file_size: u64,
     ) -> VortexResult<LayoutDescriptor> {
-        if file_size < EOF_SIZE as u64 {
+        let min_size = FOOTER_POSTSCRIPT_SIZE + EOF_SIZE;
+        if file_size < min_size as u64 {
             vortex_bail!(
                 "Malformed vortex file, size {} must be at least {}",
                 file_size,
-                EOF_SIZE,
+                min_size,
             )
         }
 
@@ -177,11 +178,31 @@ impl LayoutDescriptorReader {
 
         let ps = root::<footer::Postscript>(&buf[eof_loc - FOOTER_POSTSCRIPT_SIZE..eof_loc])?;
 
+        let schema_offset = ps.schema_offset();
+        let footer_offset = ps.footer_offset();
+        let footer_end = read_offset + (eof_loc - FOOTER_POSTSCRIPT_SIZE) as u64;
+        if schema_offset > footer_offset || footer_offset > footer_end {
+            vortex_bail!("Malformed file, schema at {schema_offset} and footer at {footer_offset} must be in order before {footer_end}")
+        }
+
+        let (initial_read, initial_read_offset) = if schema_offset < read_offset {
+            // The schema and footer are larger than what has been read so far
+            let read_size = (file_size - schema_offset) as usize;
+            let mut buf = BytesMut::with_capacity(read_size);
+            unsafe { buf.set_len(read_size) }
+            (
+                read.read_at_into(schema_offset, buf).await?.freeze(),
+                schema_offset,
+            )
+        } else {
+            (buf.freeze(), read_offset)
+        };
+
         Ok(LayoutDescriptor {
-            schema_offset: ps.schema_offset(),
-            footer_offset: ps.footer_offset(),
-            initial_read: buf.freeze(),
-            initial_read_offset: read_offset,
+            schema_offset,
+            footer_offset,
+            initial_read,
+            initial_read_offset,
             layout_serde: self.layout_serde.clone(),
         })
     }
-- 
2.43.0


From 9bab98e0300f9eb8b00a0c82079c7d5a3889fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 062/138] fix: report projections out of range as errors

---
 vortex-dtype/src/serde/flatbuffers/project.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vortex-dtype/src/serde/flatbuffers/project.rs b/vortex-dtype/src/serde/flatbuffers/project.rs
index d577271..cc314e8 100644
--- a/vortex-dtype/src/serde/flatbuffers/project.rs
+++ b/vortex-dtype/src/serde/flatbuffers/project.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use vortex_error::{vortex_err, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::field::Field;
 use crate::{flatbuffers as fb, DType, StructDType};
@@ -19,7 +19,13 @@ pub fn resolve_field<'a, 'b: 'a>(fb: fb::Struct_<'b>, field: &'a Field) -> Vorte
                 .position(|name| name == n)
                 .ok_or_else(|| vortex_err!("Unknown field name {n}"))
         }
-        Field::Index(i) => Ok(*i),
+        Field::Index(i) => {
+            let len = fb.dtypes().map_or(0, |dtypes| dtypes.len());
+            if *i >= len {
+                vortex_bail!("Field index {i} is out of range for a struct of {len} fields")
+            }
+            Ok(*i)
+        }
     }
 }
 
-- 
2.43.0


From 5a614990a9cafa8f8563ffc5afd96cbd137b7b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 063/138] fix: keep the time zone and the length of empty
 structs when converting to Arrow

---
 vortex-array/src/canonical.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index a434f04..673d26e 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -203,6 +203,14 @@ fn struct_to_arrow(struct_array: StructArray) -> VortexResult<ArrayRef> {
 
     let nulls = struct_array.logical_validity().to_null_buffer()?;
 
+    if field_arrays.is_empty() {
+        // Without fields Arrow has nothing to infer the length from
+        return Ok(Arc::new(ArrowStructArray::new_empty_fields(
+            struct_array.len(),
+            nulls,
+        )));
+    }
+
     Ok(Arc::new(ArrowStructArray::try_new(
         arrow_fields,
         field_arrays,
@@ -270,13 +278,22 @@ fn temporal_to_arrow(temporal_array: TemporalArray) -> VortexResult<ArrayRef> {
                 temporal_array.ext_dtype().id()
             ),
         },
-        TemporalMetadata::Timestamp(time_unit, _) => {
+        TemporalMetadata::Timestamp(time_unit, tz) => {
+            let tz = tz.as_deref();
             let (scalars, nulls) = extract_temporal_values!(&temporal_array.temporal_values(), i64);
             match time_unit {
-                TimeUnit::Ns => Arc::new(TimestampNanosecondArray::new(scalars, nulls)),
-                TimeUnit::Us => Arc::new(TimestampMicrosecondArray::new(scalars, nulls)),
-                TimeUnit::Ms => Arc::new(TimestampMillisecondArray::new(scalars, nulls)),
-                TimeUnit::S => Arc::new(TimestampSecondArray::new(scalars, nulls)),
+                TimeUnit::Ns => {
+                    Arc::new(TimestampNanosecondArray::new(scalars, nulls).with_timezone_opt(tz))
+                }
+                TimeUnit::Us => {
+                    Arc::new(TimestampMicrosecondArray::new(scalars, nulls).with_timezone_opt(tz))
+                }
+                TimeUnit::Ms => {
+                    Arc::new(TimestampMillisecondArray::new(scalars, nulls).with_timezone_opt(tz))
+                }
+                TimeUnit::S => {
+                    Arc::new(TimestampSecondArray::new(scalars, nulls).with_timezone_opt(tz))
+                }
                 _ => vortex_bail!(
                     "Invalid TimeUnit {time_unit} for {}",
                     temporal_array.ext_dtype().id()
-- 
2.43.0


From 6f81bde24dfe6d410e346734c9ea296d79aaee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 064/138] fix: keep the time zone when converting from Arrow,
 accept null buffers without unmasked nulls

---
 vortex-array/src/arrow/array.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 9d6af74..2271f37 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -12,14 +12,14 @@ use arrow_array::types::{
     TimestampMillisecondType, TimestampNanosecondType, TimestampSecondType, UInt16Type, UInt32Type,
     UInt64Type, UInt8Type,
 };
-use arrow_array::{BinaryViewArray, GenericByteViewArray, StringViewArray};
+use arrow_array::{make_array, BinaryViewArray, GenericByteViewArray, StringViewArray};
 use arrow_buffer::buffer::{NullBuffer, OffsetBuffer};
 use arrow_buffer::{ArrowNativeType, Buffer, ScalarBuffer};
 use arrow_schema::{DataType, TimeUnit as ArrowTimeUnit};
 use itertools::Itertools;
 use vortex_datetime_dtype::TimeUnit;
 use vortex_dtype::{DType, NativePType, PType};
-use vortex_error::{vortex_panic, VortexExpect as _};
+use vortex_error::{vortex_panic, VortexError, VortexExpect as _};
 
 use crate::array::{
     BoolArray, NullArray, PrimitiveArray, StructArray, TemporalArray, VarBinArray, VarBinViewArray,
@@ -85,9 +85,9 @@ where
             return arr.into();
         }
 
-        match T::DATA_TYPE {
+        match value.data_type().clone() {
             DataType::Timestamp(time_unit, tz) => {
-                let tz = tz.clone().map(|s| s.to_string());
+                let tz = tz.map(|s| s.to_string());
                 TemporalArray::new_timestamp(arr.into(), time_unit.into(), tz).into()
             }
             DataType::Time32(time_unit) => {
@@ -169,7 +169,19 @@ impl FromArrowArray<&ArrowStructArray> for Array {
                 .columns()
                 .iter()
                 .zip(value.fields())
-                .map(|(c, field)| Self::from_arrow(c.clone(), field.is_nullable()))
+                .map(|(c, field)| {
+                    if !field.is_nullable() && c.null_count() > 0 {
+                        // Nulls of a non-nullable field are all masked by nulls of the struct
+                        let unmasked = c.to_data().into_builder().nulls(None);
+                        let unmasked = unmasked
+                            .build()
+                            .map_err(VortexError::from)
+                            .vortex_expect("Failed to drop masked nulls of Arrow StructArray");
+                        Self::from_arrow(make_array(unmasked), false)
+                    } else {
+                        Self::from_arrow(c.clone(), field.is_nullable())
+                    }
+                })
                 .collect(),
             value.len(),
             nulls(value.nulls(), nullable),
@@ -198,7 +210,7 @@ fn nulls(nulls: Option<&NullBuffer>, nullable: bool) -> Validity {
             })
             .unwrap_or_else(|| Validity::AllValid)
     } else {
-        assert!(nulls.is_none());
+        assert_eq!(nulls.map_or(0, |nulls| nulls.null_count()), 0);
         Validity::NonNullable
     }
 }
-- 
2.43.0


From f3d21aec68e77728cba83da05e4406f9d05fc043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 065/138] fix: reject null struct rows when converting to a
 RecordBatch instead of panicking

---
 vortex-array/src/arrow/recordbatch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/arrow/recordbatch.rs b/vortex-array/src/arrow/recordbatch.rs
index 286e68e..00ab4fe 100644
--- a/vortex-array/src/arrow/recordbatch.rs
+++ b/vortex-array/src/arrow/recordbatch.rs
@@ -1,7 +1,7 @@
 use arrow_array::cast::as_struct_array;
-use arrow_array::RecordBatch;
+use arrow_array::{Array as _, RecordBatch};
 use itertools::Itertools;
-use vortex_error::{vortex_err, VortexError, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexError, VortexResult};
 
 use crate::array::StructArray;
 use crate::arrow::FromArrowArray;
@@ -51,6 +51,9 @@ impl TryFrom<StructArray> for RecordBatch {
     fn try_from(value: StructArray) -> VortexResult<Self> {
         let array_ref = value.into_canonical()?.into_arrow()?;
         let struct_array = as_struct_array(array_ref.as_ref());
+        if struct_array.null_count() > 0 {
+            vortex_bail!("RecordBatch cannot represent null rows of a Vortex StructArray")
+        }
         Ok(Self::from(struct_array))
     }
 }
-- 
2.43.0


From 645f5039463bf096ff6d214110660d8e96f1f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 066/138] fix: compare Identity expressions without recursing
 forever

---
 vortex-expr/src/identity.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vortex-expr/src/identity.rs b/vortex-expr/src/identity.rs
index 8a28483..82d82b6 100644
--- a/vortex-expr/src/identity.rs
+++ b/vortex-expr/src/identity.rs
@@ -20,9 +20,6 @@ impl VortexExpr for Identity {
 
 impl PartialEq<dyn Any> for Identity {
     fn eq(&self, other: &dyn Any) -> bool {
-        unbox_any(other)
-            .downcast_ref::<Self>()
-            .map(|x| x == other)
-            .unwrap_or(false)
+        unbox_any(other).downcast_ref::<Self>().is_some()
     }
 }
-- 
2.43.0


From c63c412fe0b8bbd08d0932003ce2e7ecadafe2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 067/138] fix: read the rows of an empty projection

---
 vortex-serde/src/layouts/read/batch.rs          |  9 ++++++++-
 vortex-serde/src/layouts/read/layouts/column.rs | 11 +++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/batch.rs b/vortex-serde/src/layouts/read/batch.rs
index ed50cdb..201dfaa 100644
--- a/vortex-serde/src/layouts/read/batch.rs
+++ b/vortex-serde/src/layouts/read/batch.rs
@@ -2,6 +2,7 @@ use std::mem;
 use std::sync::Arc;
 
 use vortex::array::StructArray;
+use vortex::validity::Validity;
 use vortex::{Array, IntoArray};
 use vortex_error::{vortex_err, VortexResult};
 
@@ -15,6 +16,7 @@ pub struct BatchReader {
 }
 
 impl BatchReader {
+    /// Children past the ones that have a name only determine the number of rows
     pub fn new(names: Arc<[Arc<str>]>, children: Vec<Box<dyn LayoutReader>>) -> Self {
         let arrays = vec![None; children.len()];
         Self {
@@ -55,8 +57,13 @@ impl BatchReader {
                 .enumerate()
                 .map(|(i, a)| a.ok_or_else(|| vortex_err!("Missing child array at index {}", i)))
                 .collect::<VortexResult<Vec<_>>>()?;
+            let len = child_arrays
+                .first()
+                .map(Array::len)
+                .ok_or_else(|| vortex_err!("Can't read a batch without any columns"))?;
+            let fields = child_arrays.into_iter().take(self.names.len()).collect();
             Ok(Some(ReadResult::Batch(
-                StructArray::from_fields(&self.names.iter().zip(child_arrays).collect::<Vec<_>>())?
+                StructArray::try_new(self.names.clone(), fields, len, Validity::NonNullable)?
                     .into_array(),
             )))
         } else {
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index 2a0f39f..b0a14e4 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -129,6 +129,17 @@ impl LayoutReader for ColumnLayout {
                     .zip_eq(s.dtypes().iter())
                     .map(|(index, dtype)| self.read_child(index, fb_children, dtype.clone()))
                     .collect::<VortexResult<Vec<_>>>()?,
+                Projection::Flat(proj) if proj.is_empty() && !fb_children.is_empty() => {
+                    // No column is asked for, the first one still tells how many rows there are
+                    let DType::Struct(all, _) = self.message_cache.dtype().value()? else {
+                        vortex_bail!("DType was not a struct")
+                    };
+                    let dtype = all
+                        .dtypes()
+                        .first()
+                        .ok_or_else(|| vortex_err!("Missing dtype of the first column"))?;
+                    vec![self.read_child(0, fb_children, dtype.clone())?]
+                }
                 Projection::Flat(proj) => proj
                     .iter()
                     .map(|f| result_lazy_dtype.resolve_field(f))
-- 
2.43.0


From 1708aaa6a1ce8d11c5e62deb95158224baec2c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 068/138] fix: tell apart the messages of more than 65536
 chunks

---
 vortex-serde/src/layouts/read/layouts/chunked.rs      | 2 +-
 vortex-serde/src/layouts/read/layouts/column.rs       | 2 +-
 vortex-serde/src/layouts/read/layouts/inline_dtype.rs | 2 +-
 vortex-serde/src/layouts/read/mod.rs                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vortex-serde/src/layouts/read/layouts/chunked.rs b/vortex-serde/src/layouts/read/layouts/chunked.rs
index 47ecc3e..fd5ba26 100644
--- a/vortex-serde/src/layouts/read/layouts/chunked.rs
+++ b/vortex-serde/src/layouts/read/layouts/chunked.rs
@@ -102,7 +102,7 @@ impl LayoutReader for ChunkedLayout {
                         c._tab.loc(),
                         self.scan.clone(),
                         self.message_cache
-                            .relative(i as u16, self.message_cache.dtype().clone()),
+                            .relative(i as u32, self.message_cache.dtype().clone()),
                     )
                 })
                 .collect::<VortexResult<VecDeque<_>>>()?;
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index b0a14e4..4b70908 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -95,7 +95,7 @@ impl ColumnLayout {
             layout._tab.loc(),
             child_scan,
             self.message_cache.relative(
-                idx as u16,
+                idx as u32,
                 Arc::new(LazyDeserializedDType::from_dtype(dtype)),
             ),
         )
diff --git a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
index ee969b6..1dafdc3 100644
--- a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
+++ b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
@@ -128,7 +128,7 @@ impl LayoutReader for InlineDTypeLayout {
                             layout._tab.loc(),
                             self.scan.clone(),
                             self.message_cache
-                                .relative(1u16, Arc::new(LazyDeserializedDType::from_dtype(d))),
+                                .relative(1, Arc::new(LazyDeserializedDType::from_dtype(d))),
                         )?,
                     );
                     self.read_next()
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index 9d93505..e715aaf 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -43,7 +43,7 @@ pub struct Scan {
 }
 
 /// Unique identifier for a message within a layout
-pub type LayoutPartId = u16;
+pub type LayoutPartId = u32;
 pub type MessageId = Vec<LayoutPartId>;
 pub type Message = (MessageId, ByteRange);
 
-- 
2.43.0


From c90996837923042761449cd40726fcfc2e6a55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 069/138] fix: do not claim strictly sorted offsets, drop
 masked nulls of nested structs

---
 vortex-array/src/arrow/array.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 2271f37..3736f3a 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -19,7 +19,7 @@ use arrow_schema::{DataType, TimeUnit as ArrowTimeUnit};
 use itertools::Itertools;
 use vortex_datetime_dtype::TimeUnit;
 use vortex_dtype::{DType, NativePType, PType};
-use vortex_error::{vortex_panic, VortexError, VortexExpect as _};
+use vortex_error::{vortex_panic, VortexExpect as _};
 
 use crate::array::{
     BoolArray, NullArray, PrimitiveArray, StructArray, TemporalArray, VarBinArray, VarBinViewArray,
@@ -63,9 +63,6 @@ where
             Validity::NonNullable,
         );
         primitive.statistics().set(Stat::IsSorted, true.into());
-        primitive
-            .statistics()
-            .set(Stat::IsStrictSorted, true.into());
         primitive.into_array()
     }
 }
@@ -171,12 +168,11 @@ impl FromArrowArray<&ArrowStructArray> for Array {
                 .zip(value.fields())
                 .map(|(c, field)| {
                     if !field.is_nullable() && c.null_count() > 0 {
-                        // Nulls of a non-nullable field are all masked by nulls of the struct
+                        // Nulls of a non-nullable field are all masked by nulls of a parent
                         let unmasked = c.to_data().into_builder().nulls(None);
-                        let unmasked = unmasked
-                            .build()
-                            .map_err(VortexError::from)
-                            .vortex_expect("Failed to drop masked nulls of Arrow StructArray");
+                        // SAFETY: the data is that of an array, values under nulls included. It is
+                        // not validated as nulls of its own children may be masked by the dropped.
+                        let unmasked = unsafe { unmasked.build_unchecked() };
                         Self::from_arrow(make_array(unmasked), false)
                     } else {
                         Self::from_arrow(c.clone(), field.is_nullable())
-- 
2.43.0


From 96fec6a5f920152ec8ef47e2ea22bcb3b2330263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 070/138] fix: keep the time zone of scalars converted to
 Arrow, report unsupported ones as errors

---
 vortex-scalar/src/arrow.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/vortex-scalar/src/arrow.rs b/vortex-scalar/src/arrow.rs
index 9a02462..6f0c7ee 100644
--- a/vortex-scalar/src/arrow.rs
+++ b/vortex-scalar/src/arrow.rs
@@ -16,6 +16,14 @@ macro_rules! value_to_arrow_scalar {
     };
 }
 
+macro_rules! timestamp_to_arrow_scalar {
+    ($V:expr, $TZ:expr, $AR:ty) => {
+        Ok(std::sync::Arc::new(arrow_array::Scalar::new(
+            <$AR>::from(vec![$V]).with_timezone_opt($TZ),
+        )))
+    };
+}
+
 impl TryFrom<&Scalar> for Arc<dyn Datum> {
     type Error = VortexError;
 
@@ -61,10 +69,10 @@ impl TryFrom<&Scalar> for Arc<dyn Datum> {
                 value_to_arrow_scalar!(value.value.as_buffer()?, BinaryViewArray)
             }
             DType::Struct(..) => {
-                todo!("struct scalar conversion")
+                vortex_bail!("Unsupported struct scalar conversion")
             }
             DType::List(..) => {
-                todo!("list scalar conversion")
+                vortex_bail!("Unsupported list scalar conversion")
             }
             DType::Extension(ext, _) => {
                 if is_temporal_ext_type(ext.id()) {
@@ -101,21 +109,25 @@ impl TryFrom<&Scalar> for Arc<dyn Datum> {
                             }
                             _ => vortex_bail!("Unsupported TimeUnit {u} for {}", ext.id()),
                         },
-                        TemporalMetadata::Timestamp(u, _) => match u {
-                            TimeUnit::Ns => value_to_arrow_scalar!(
+                        TemporalMetadata::Timestamp(u, tz) => match u {
+                            TimeUnit::Ns => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampNanosecondArray
                             ),
-                            TimeUnit::Us => value_to_arrow_scalar!(
+                            TimeUnit::Us => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampMicrosecondArray
                             ),
-                            TimeUnit::Ms => value_to_arrow_scalar!(
+                            TimeUnit::Ms => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampMillisecondArray
                             ),
-                            TimeUnit::S => value_to_arrow_scalar!(
+                            TimeUnit::S => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampSecondArray
                             ),
                             TimeUnit::D => {
@@ -125,7 +137,7 @@ impl TryFrom<&Scalar> for Arc<dyn Datum> {
                     };
                 }
 
-                todo!("Non temporal extension scalar conversion")
+                vortex_bail!("Unsupported extension scalar conversion: {}", ext.id())
             }
         }
     }
-- 
2.43.0


From 7a80cd33745282dda29c4980e59fb0d1a5ef7ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 071/138] fix: align the views of canonicalized null constants

---
 vortex-array/src/array/constant/canonical.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index bdd579a..4a22a40 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -7,7 +7,7 @@ use vortex_scalar::{BinaryScalar, BoolScalar, Utf8Scalar};
 
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
-use crate::array::{BinaryView, BoolArray, NullArray, VarBinViewArray, VIEW_SIZE_BYTES};
+use crate::array::{BinaryView, BoolArray, NullArray, VarBinViewArray};
 use crate::validity::Validity;
 use crate::{ArrayDType, Canonical, IntoArray, IntoCanonical};
 
@@ -74,10 +74,13 @@ fn canonical_byte_view(
 ) -> VortexResult<VarBinViewArray> {
     match scalar_bytes {
         None => {
-            let views = ConstantArray::new(0u8, len * VIEW_SIZE_BYTES);
+            // Arrow requires views to be aligned, even those of an empty array
+            let mut views = BufferBuilder::<u128>::new(len);
+            views.append_n(len, 0);
 
             VarBinViewArray::try_new(
-                views.into_array(),
+                PrimitiveArray::new(views.finish().into(), PType::U8, Validity::NonNullable)
+                    .into_array(),
                 Vec::new(),
                 dtype.clone(),
                 Validity::AllInvalid,
-- 
2.43.0


From c5fbc1e8474991396ea5d8decddf9aa7e0dcaab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 072/138] fix: field_info rejects the index one past the last
 field

---
 vortex-dtype/src/dtype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-dtype/src/dtype.rs b/vortex-dtype/src/dtype.rs
index b2b16e6..8374d50 100644
--- a/vortex-dtype/src/dtype.rs
+++ b/vortex-dtype/src/dtype.rs
@@ -182,7 +182,7 @@ impl StructDType {
                 .ok_or_else(|| vortex_err!("Unknown field: {}", name))?,
             Field::Index(index) => *index,
         };
-        if index > self.names.len() {
+        if index >= self.names.len() {
             vortex_bail!("field index out of bounds: {}", index)
         }
         Ok(FieldInfo {
-- 
2.43.0


From bfb75ad3f1c639ffba561cc9ced0d3463d404832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:22 +0000
Subject: [PATCH 073/138] fix: report decimal types in protobuf as an error

---
 vortex-dtype/src/serde/proto.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-dtype/src/serde/proto.rs b/vortex-dtype/src/serde/proto.rs
index 6ffa8ae..878da2d 100644
--- a/vortex-dtype/src/serde/proto.rs
+++ b/vortex-dtype/src/serde/proto.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use vortex_error::{vortex_err, VortexError, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexError, VortexResult};
 
 use crate::field::{Field, FieldPath};
 use crate::proto::dtype as pb;
@@ -20,7 +20,7 @@ impl TryFrom<&pb::DType> for DType {
             DtypeType::Null(_) => Ok(Self::Null),
             DtypeType::Bool(b) => Ok(Self::Bool(b.nullable.into())),
             DtypeType::Primitive(p) => Ok(Self::Primitive(p.r#type().into(), p.nullable.into())),
-            DtypeType::Decimal(_) => todo!("Not Implemented"),
+            DtypeType::Decimal(_) => vortex_bail!(InvalidSerde: "Decimal types are not supported"),
             DtypeType::Utf8(u) => Ok(Self::Utf8(u.nullable.into())),
             DtypeType::Binary(b) => Ok(Self::Binary(b.nullable.into())),
             DtypeType::Struct(s) => Ok(Self::Struct(
-- 
2.43.0


From a5c2180844e88202675eb673c1bf93c1dca222bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 074/138] fix: reject serialized structs whose names and types
 do not match

---
 vortex-dtype/src/serde/flatbuffers/mod.rs     |  9 ++++++--
 vortex-dtype/src/serde/flatbuffers/project.rs | 21 ++++++++++++-------
 vortex-dtype/src/serde/proto.rs               |  3 +++
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/vortex-dtype/src/serde/flatbuffers/mod.rs b/vortex-dtype/src/serde/flatbuffers/mod.rs
index 3b5d28b..10f7589 100644
--- a/vortex-dtype/src/serde/flatbuffers/mod.rs
+++ b/vortex-dtype/src/serde/flatbuffers/mod.rs
@@ -5,7 +5,9 @@ use itertools::Itertools;
 use vortex_error::{vortex_bail, vortex_err, VortexError, VortexResult};
 use vortex_flatbuffers::{FlatBufferRoot, WriteFlatBuffer};
 
-use crate::{flatbuffers as fb, DType, ExtDType, ExtID, ExtMetadata, PType, StructDType};
+use crate::{
+    flatbuffers as fb, DType, ExtDType, ExtID, ExtMetadata, FieldNames, PType, StructDType,
+};
 
 mod project;
 pub use project::*;
@@ -59,7 +61,7 @@ impl TryFrom<fb::DType<'_>> for DType {
                 let fb_struct = fb
                     .type__as_struct_()
                     .ok_or_else(|| vortex_err!("failed to parse struct from flatbuffer"))?;
-                let names = fb_struct
+                let names: FieldNames = fb_struct
                     .names()
                     .ok_or_else(|| vortex_err!("failed to parse struct names from flatbuffer"))?
                     .iter()
@@ -72,6 +74,9 @@ impl TryFrom<fb::DType<'_>> for DType {
                     .iter()
                     .map(Self::try_from)
                     .collect::<VortexResult<Vec<_>>>()?;
+                if names.len() != dtypes.len() {
+                    vortex_bail!(InvalidSerde: "Struct with {} names and {} types", names.len(), dtypes.len());
+                }
                 Ok(Self::Struct(
                     StructDType::new(names, dtypes),
                     fb_struct.nullable().into(),
diff --git a/vortex-dtype/src/serde/flatbuffers/project.rs b/vortex-dtype/src/serde/flatbuffers/project.rs
index cc314e8..b7b5692 100644
--- a/vortex-dtype/src/serde/flatbuffers/project.rs
+++ b/vortex-dtype/src/serde/flatbuffers/project.rs
@@ -54,15 +54,20 @@ pub fn deserialize_and_project(
 }
 
 fn read_field(fb_struct: fb::Struct_, idx: usize) -> VortexResult<(Arc<str>, DType)> {
-    let name = fb_struct
+    let names = fb_struct
         .names()
-        .ok_or_else(|| vortex_err!("Missing field names"))?
-        .get(idx);
-    let fb_dtype = fb_struct
+        .ok_or_else(|| vortex_err!("Missing field names"))?;
+    let fb_dtypes = fb_struct
         .dtypes()
-        .ok_or_else(|| vortex_err!("Missing field dtypes"))?
-        .get(idx);
-    let dtype = DType::try_from(fb_dtype)?;
+        .ok_or_else(|| vortex_err!("Missing field dtypes"))?;
+    if idx >= names.len() || idx >= fb_dtypes.len() {
+        vortex_bail!(
+            "Field {idx} of a struct with {} names and {} types",
+            names.len(),
+            fb_dtypes.len()
+        );
+    }
+    let dtype = DType::try_from(fb_dtypes.get(idx))?;
 
-    Ok((name.into(), dtype))
+    Ok((names.get(idx).into(), dtype))
 }
diff --git a/vortex-dtype/src/serde/proto.rs b/vortex-dtype/src/serde/proto.rs
index 878da2d..d81163e 100644
--- a/vortex-dtype/src/serde/proto.rs
+++ b/vortex-dtype/src/serde/proto.rs
@@ -23,6 +23,9 @@ impl TryFrom<&pb::DType> for DType {
             DtypeType::Decimal(_) => vortex_bail!(InvalidSerde: "Decimal types are not supported"),
             DtypeType::Utf8(u) => Ok(Self::Utf8(u.nullable.into())),
             DtypeType::Binary(b) => Ok(Self::Binary(b.nullable.into())),
+            DtypeType::Struct(s) if s.names.len() != s.dtypes.len() => vortex_bail!(
+                InvalidSerde: "Struct with {} names and {} types", s.names.len(), s.dtypes.len()
+            ),
             DtypeType::Struct(s) => Ok(Self::Struct(
                 StructDType::new(
                     s.names.iter().map(|s| s.as_str().into()).collect(),
-- 
2.43.0


From cee89c329d27ee89821edfee39e70c7fccad1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 075/138] fix: report truncated temporal metadata as an error

---
 vortex-datetime-dtype/src/temporal.rs | 30 +++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/vortex-datetime-dtype/src/temporal.rs b/vortex-datetime-dtype/src/temporal.rs
index 696322b..fc73f7b 100644
--- a/vortex-datetime-dtype/src/temporal.rs
+++ b/vortex-datetime-dtype/src/temporal.rs
@@ -118,32 +118,40 @@ impl TryFrom<&ExtDType> for TemporalMetadata {
     }
 }
 
+fn decode_time_unit(ext_meta: &ExtMetadata) -> VortexResult<TimeUnit> {
+    let tag = *ext_meta
+        .as_ref()
+        .first()
+        .ok_or_else(|| vortex_err!("temporal metadata is missing the unit tag"))?;
+    TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))
+}
+
 fn decode_date_metadata(ext_meta: &ExtMetadata) -> VortexResult<TemporalMetadata> {
-    let tag = ext_meta.as_ref()[0];
-    let time_unit =
-        TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))?;
+    let time_unit = decode_time_unit(ext_meta)?;
     Ok(TemporalMetadata::Date(time_unit))
 }
 
 fn decode_time_metadata(ext_meta: &ExtMetadata) -> VortexResult<TemporalMetadata> {
-    let tag = ext_meta.as_ref()[0];
-    let time_unit =
-        TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))?;
+    let time_unit = decode_time_unit(ext_meta)?;
     Ok(TemporalMetadata::Time(time_unit))
 }
 
 fn decode_timestamp_metadata(ext_meta: &ExtMetadata) -> VortexResult<TemporalMetadata> {
-    let tag = ext_meta.as_ref()[0];
-    let time_unit =
-        TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))?;
-    let tz_len_bytes = &ext_meta.as_ref()[1..3];
+    let time_unit = decode_time_unit(ext_meta)?;
+    let tz_len_bytes = ext_meta
+        .as_ref()
+        .get(1..3)
+        .ok_or_else(|| vortex_err!("timestamp metadata is missing the time zone length"))?;
     let tz_len = u16::from_le_bytes(tz_len_bytes.try_into()?);
     if tz_len == 0 {
         return Ok(TemporalMetadata::Timestamp(time_unit, None));
     }
 
     // Attempt to load from len-prefixed bytes
-    let tz_bytes = &ext_meta.as_ref()[3..(3 + (tz_len as usize))];
+    let tz_bytes = ext_meta
+        .as_ref()
+        .get(3..(3 + (tz_len as usize)))
+        .ok_or_else(|| vortex_err!("timestamp metadata is missing part of the time zone"))?;
     let tz = String::from_utf8_lossy(tz_bytes).to_string();
     Ok(TemporalMetadata::Timestamp(time_unit, Some(tz)))
 }
-- 
2.43.0


From 6b22875bf828b0f478843c172bea6f193113dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 076/138] fix: read scalars of every width from protobuf

---
 vortex-scalar/src/serde/proto.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vortex-scalar/src/serde/proto.rs b/vortex-scalar/src/serde/proto.rs
index 8d9661f..4491b0c 100644
--- a/vortex-scalar/src/serde/proto.rs
+++ b/vortex-scalar/src/serde/proto.rs
@@ -106,7 +106,7 @@ impl TryFrom<&pb::Scalar> for Scalar {
                 .ok_or_else(|| vortex_err!(InvalidSerde: "Scalar missing value"))?,
         )?;
 
-        Ok(Self { dtype, value })
+        Ok(Self::new(dtype, value))
     }
 }
 
@@ -132,8 +132,8 @@ fn deserialize_scalar_value(dtype: &DType, value: &pb::ScalarValue) -> VortexRes
 
                 Ok(ScalarValue::Primitive(PValue::F16(f16_value)))
             }
-            DType::Primitive(PType::U32, _) => Ok(ScalarValue::Primitive(PValue::U32(*v))),
-            _ => vortex_bail!("invalid dtype for f32 value {}", dtype),
+            // Narrower unsigned integers are written as u32 as well, see cast_on_read
+            _ => Ok(ScalarValue::Primitive(PValue::U32(*v))),
         },
         Kind::Uint64Value(v) => Ok(ScalarValue::Primitive(PValue::U64(*v))),
         Kind::FloatValue(v) => Ok(ScalarValue::Primitive(PValue::F32(*v))),
-- 
2.43.0


From a436709987d6bf003f49d73d3ffa49bf13101dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 077/138] fix: cast deserialized scalars to the width of their
 dtype

---
 vortex-scalar/src/lib.rs         |  2 +-
 vortex-scalar/src/serde/serde.rs | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index 702c6af..43ead6d 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -34,7 +34,7 @@ use vortex_error::{vortex_bail, VortexResult};
 
 /// A single logical item, composed of both a [`ScalarValue`] and a logical [`DType`].
 #[derive(Debug, Clone)]
-#[cfg_attr(feature = "serde", derive(::serde::Serialize, ::serde::Deserialize))]
+#[cfg_attr(feature = "serde", derive(::serde::Serialize))]
 pub struct Scalar {
     pub(crate) dtype: DType,
     pub(crate) value: ScalarValue,
diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index cf94371..1b01aab 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -3,9 +3,30 @@ use std::fmt::Formatter;
 use serde::de::{Error, SeqAccess, Visitor};
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use vortex_buffer::BufferString;
+use vortex_dtype::DType;
 
 use crate::pvalue::PValue;
 use crate::value::ScalarValue;
+use crate::Scalar;
+
+/// Values may come back at another width than the one their dtype asks for, so a deserialized
+/// scalar has to go through [`Scalar::new`].
+impl<'de> Deserialize<'de> for Scalar {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(rename = "Scalar")]
+        struct ScalarParts {
+            dtype: DType,
+            value: ScalarValue,
+        }
+
+        let ScalarParts { dtype, value } = ScalarParts::deserialize(deserializer)?;
+        Ok(Scalar::new(dtype, value))
+    }
+}
 
 impl Serialize for ScalarValue {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
-- 
2.43.0


From 589713a490e6ffa60fee25d37814721437e33736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 078/138] fix: print every scalar without panicking

---
 vortex-scalar/src/display.rs | 45 ++++++++++++++++++++----------------
 vortex-scalar/src/value.rs   | 16 ++++++-------
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/vortex-scalar/src/display.rs b/vortex-scalar/src/display.rs
index b9dced5..9497646 100644
--- a/vortex-scalar/src/display.rs
+++ b/vortex-scalar/src/display.rs
@@ -6,9 +6,10 @@ use vortex_dtype::DType;
 
 use crate::binary::BinaryScalar;
 use crate::extension::ExtScalar;
+use crate::list::ListScalar;
 use crate::struct_::StructScalar;
 use crate::utf8::Utf8Scalar;
-use crate::{PValue, Scalar, ScalarValue};
+use crate::Scalar;
 
 impl Display for Scalar {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
@@ -58,28 +59,32 @@ impl Display for Scalar {
                     write!(f, "}}")
                 }
             }
-            DType::List(..) => todo!(),
-            DType::Extension(dtype, _) if is_temporal_ext_type(dtype.id()) => {
-                let metadata = TemporalMetadata::try_from(dtype).map_err(|_| std::fmt::Error)?;
-                match ExtScalar::try_from(self)
+            DType::List(..) => {
+                let v = ListScalar::try_from(self).map_err(|_| std::fmt::Error)?;
+
+                if self.is_null() {
+                    write!(f, "null")
+                } else {
+                    write!(f, "[{}]", v.elements().format(","))
+                }
+            }
+            DType::Extension(dtype, _) => {
+                let value = ExtScalar::try_from(self)
                     .map_err(|_| std::fmt::Error)?
-                    .value()
-                {
-                    ScalarValue::Null => write!(f, "null"),
-                    ScalarValue::Primitive(PValue::I32(v)) => {
-                        write!(
-                            f,
-                            "{}",
-                            metadata.to_jiff(*v as i64).map_err(|_| std::fmt::Error)?
-                        )
-                    }
-                    ScalarValue::Primitive(PValue::I64(v)) => {
-                        write!(f, "{}", metadata.to_jiff(*v).map_err(|_| std::fmt::Error)?)
-                    }
-                    _ => Err(std::fmt::Error),
+                    .value();
+                let temporal = is_temporal_ext_type(dtype.id())
+                    .then(|| {
+                        let metadata = TemporalMetadata::try_from(dtype).ok()?;
+                        let v = i64::try_from(value.as_pvalue().ok()??).ok()?;
+                        metadata.to_jiff(v).ok()
+                    })
+                    .flatten();
+                match temporal {
+                    Some(v) => write!(f, "{}", v),
+                    // Not a calendar value, or one that is out of its range.
+                    None => Display::fmt(value, f),
                 }
             }
-            DType::Extension(..) => todo!(),
         }
     }
 }
diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index 7666850..5df1128 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -2,6 +2,7 @@ use std::fmt::{Display, Write};
 use std::sync::Arc;
 
 use half::f16;
+use itertools::Itertools;
 use vortex_buffer::{Buffer, BufferString};
 use vortex_dtype::{match_each_native_ptype, DType};
 use vortex_error::{vortex_err, VortexResult};
@@ -52,18 +53,17 @@ impl Display for ScalarValue {
                 }
             }
             ScalarValue::BufferString(bufstr) => {
-                if bufstr.len() > 10 {
-                    write!(
-                        f,
-                        "{}..{}",
-                        &bufstr.as_str()[0..5],
-                        &bufstr.as_str()[bufstr.len() - 5..bufstr.len()],
-                    )
+                let str = bufstr.as_str();
+                if str.chars().count() > 10 {
+                    // Cut between characters, they may be several bytes long.
+                    let head = str.char_indices().nth(5).map_or(str.len(), |(i, _)| i);
+                    let tail = str.char_indices().nth_back(4).map_or(0, |(i, _)| i);
+                    write!(f, "{}..{}", &str[..head], &str[tail..])
                 } else {
                     write!(f, "{}", bufstr.as_str())
                 }
             }
-            ScalarValue::List(_) => todo!(),
+            ScalarValue::List(values) => write!(f, "[{}]", values.iter().format(",")),
             ScalarValue::Null => write!(f, "null"),
         }
     }
-- 
2.43.0


From e8cf782ba8b0d7eff152d81684f1b750d732fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 079/138] fix: null scalars cast to nulls of any nullable type

---
 vortex-scalar/src/lib.rs       | 4 ++++
 vortex-scalar/src/primitive.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index 43ead6d..702a277 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -94,6 +94,10 @@ impl Scalar {
             });
         }
 
+        if self.is_null() {
+            return Ok(Self::null(dtype.clone()));
+        }
+
         match dtype {
             DType::Null => vortex_bail!("Can't cast non-null to null"),
             DType::Bool(_) => BoolScalar::try_from(self).and_then(|s| s.cast(dtype)),
diff --git a/vortex-scalar/src/primitive.rs b/vortex-scalar/src/primitive.rs
index b7add0d..687096a 100644
--- a/vortex-scalar/src/primitive.rs
+++ b/vortex-scalar/src/primitive.rs
@@ -65,6 +65,12 @@ impl<'a> PrimitiveScalar<'a> {
 
     pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
         let ptype = PType::try_from(dtype)?;
+        if self.pvalue.is_none() {
+            if !dtype.is_nullable() {
+                vortex_bail!("Can't cast null scalar to non-nullable type")
+            }
+            return Ok(Scalar::null(dtype.clone()));
+        }
         match_each_native_ptype!(ptype, |$Q| {
             match_each_native_ptype!(self.ptype(), |$T| {
                 Ok(Scalar::primitive::<$Q>(
-- 
2.43.0


From d96e3c7f216417b6c139e7ffb46b443c9b356941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 080/138] fix: report unsupported scalar casts as errors

---
 vortex-scalar/src/binary.rs    | 4 ++--
 vortex-scalar/src/extension.rs | 4 ++--
 vortex-scalar/src/list.rs      | 4 ++--
 vortex-scalar/src/utf8.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vortex-scalar/src/binary.rs b/vortex-scalar/src/binary.rs
index 10a6ee2..7ba29f0 100644
--- a/vortex-scalar/src/binary.rs
+++ b/vortex-scalar/src/binary.rs
@@ -20,8 +20,8 @@ impl<'a> BinaryScalar<'a> {
         self.value.as_ref().cloned()
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        vortex_bail!("Can't cast {} scalar to {}", self.dtype, dtype)
     }
 }
 
diff --git a/vortex-scalar/src/extension.rs b/vortex-scalar/src/extension.rs
index e345693..f7d0e9a 100644
--- a/vortex-scalar/src/extension.rs
+++ b/vortex-scalar/src/extension.rs
@@ -30,8 +30,8 @@ impl<'a> ExtScalar<'a> {
         self.value
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        vortex_bail!("Can't cast {} scalar to {}", self.dtype, dtype)
     }
 }
 
diff --git a/vortex-scalar/src/list.rs b/vortex-scalar/src/list.rs
index 196bf87..e05a7ec 100644
--- a/vortex-scalar/src/list.rs
+++ b/vortex-scalar/src/list.rs
@@ -61,8 +61,8 @@ impl<'a> ListScalar<'a> {
             })
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        vortex_bail!("Can't cast {} scalar to {}", self.dtype, dtype)
     }
 }
 
diff --git a/vortex-scalar/src/utf8.rs b/vortex-scalar/src/utf8.rs
index cf74c43..88a935f 100644
--- a/vortex-scalar/src/utf8.rs
+++ b/vortex-scalar/src/utf8.rs
@@ -21,8 +21,8 @@ impl<'a> Utf8Scalar<'a> {
         self.value.as_ref().cloned()
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        vortex_bail!("Can't cast {} scalar to {}", self.dtype, dtype)
     }
 }
 
-- 
2.43.0


From 1db9f74cec57070f59ca72818158d9915a8f5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 081/138] fix: scalar equality agrees with the scalar order

---
 vortex-scalar/src/pvalue.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 3595efe..5e6f166 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -8,7 +8,7 @@ use vortex_dtype::half::f16;
 use vortex_dtype::{NativePType, PType};
 use vortex_error::{vortex_err, VortexError};
 
-#[derive(Debug, Clone, Copy, PartialEq)]
+#[derive(Debug, Clone, Copy)]
 pub enum PValue {
     U8(u8),
     U16(u16),
@@ -23,6 +23,13 @@ pub enum PValue {
     F64(f64),
 }
 
+/// Equality is that of the total order of [`PartialOrd`]: NaNs equal themselves, and -0.0 is not 0.0.
+impl PartialEq for PValue {
+    fn eq(&self, other: &Self) -> bool {
+        self.partial_cmp(other) == Some(Ordering::Equal)
+    }
+}
+
 impl PartialOrd for PValue {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match (self, other) {
-- 
2.43.0


From 724b96dc854334f9ef2b226d31ec7a8aad012685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 082/138] fix: temporal scalars of any stored width convert to
 DataFusion

---
 vortex-scalar/src/datafusion.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/vortex-scalar/src/datafusion.rs b/vortex-scalar/src/datafusion.rs
index 806c190..789cdff 100644
--- a/vortex-scalar/src/datafusion.rs
+++ b/vortex-scalar/src/datafusion.rs
@@ -71,39 +71,41 @@ impl TryFrom<Scalar> for ScalarValue {
                     return Ok(match metadata {
                         TemporalMetadata::Time(u) => match u {
                             TimeUnit::Ns => {
-                                ScalarValue::Time64Nanosecond(pv.and_then(|p| p.as_i64()))
+                                ScalarValue::Time64Nanosecond(pv.map(i64::try_from).transpose()?)
                             }
                             TimeUnit::Us => {
-                                ScalarValue::Time64Microsecond(pv.and_then(|p| p.as_i64()))
+                                ScalarValue::Time64Microsecond(pv.map(i64::try_from).transpose()?)
                             }
                             TimeUnit::Ms => {
-                                ScalarValue::Time32Millisecond(pv.and_then(|p| p.as_i32()))
+                                ScalarValue::Time32Millisecond(pv.map(i32::try_from).transpose()?)
+                            }
+                            TimeUnit::S => {
+                                ScalarValue::Time32Second(pv.map(i32::try_from).transpose()?)
                             }
-                            TimeUnit::S => ScalarValue::Time32Second(pv.and_then(|p| p.as_i32())),
                             TimeUnit::D => {
                                 unreachable!("Unsupported TimeUnit {u} for {}", ext.id())
                             }
                         },
                         TemporalMetadata::Date(u) => match u {
-                            TimeUnit::Ms => ScalarValue::Date64(pv.and_then(|p| p.as_i64())),
-                            TimeUnit::D => ScalarValue::Date32(pv.and_then(|p| p.as_i32())),
+                            TimeUnit::Ms => ScalarValue::Date64(pv.map(i64::try_from).transpose()?),
+                            TimeUnit::D => ScalarValue::Date32(pv.map(i32::try_from).transpose()?),
                             _ => unreachable!("Unsupported TimeUnit {u} for {}", ext.id()),
                         },
                         TemporalMetadata::Timestamp(u, tz) => match u {
                             TimeUnit::Ns => ScalarValue::TimestampNanosecond(
-                                pv.and_then(|p| p.as_i64()),
+                                pv.map(i64::try_from).transpose()?,
                                 tz.map(|t| t.into()),
                             ),
                             TimeUnit::Us => ScalarValue::TimestampMicrosecond(
-                                pv.and_then(|p| p.as_i64()),
+                                pv.map(i64::try_from).transpose()?,
                                 tz.map(|t| t.into()),
                             ),
                             TimeUnit::Ms => ScalarValue::TimestampMillisecond(
-                                pv.and_then(|p| p.as_i64()),
+                                pv.map(i64::try_from).transpose()?,
                                 tz.map(|t| t.into()),
                             ),
                             TimeUnit::S => ScalarValue::TimestampSecond(
-                                pv.and_then(|p| p.as_i64()),
+                                pv.map(i64::try_from).transpose()?,
                                 tz.map(|t| t.into()),
                             ),
                             TimeUnit::D => {
-- 
2.43.0


From 60862dc720efe39ca872b50fc11c3c040128fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 083/138] fix: report scalars without a DataFusion equivalent
 as errors

---
 vortex-scalar/src/datafusion.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vortex-scalar/src/datafusion.rs b/vortex-scalar/src/datafusion.rs
index 789cdff..796bb85 100644
--- a/vortex-scalar/src/datafusion.rs
+++ b/vortex-scalar/src/datafusion.rs
@@ -4,7 +4,7 @@ use vortex_buffer::Buffer;
 use vortex_datetime_dtype::arrow::make_temporal_ext_dtype;
 use vortex_datetime_dtype::{is_temporal_ext_type, TemporalMetadata, TimeUnit};
 use vortex_dtype::{DType, Nullability, PType};
-use vortex_error::VortexError;
+use vortex_error::{vortex_bail, VortexError};
 
 use crate::{PValue, Scalar};
 
@@ -59,10 +59,10 @@ impl TryFrom<Scalar> for ScalarValue {
                     .map(|b| b.into_vec().unwrap_or_else(|buf| buf.as_slice().to_vec())),
             ),
             DType::Struct(..) => {
-                todo!("struct scalar conversion")
+                vortex_bail!("Struct scalars have no DataFusion equivalent yet")
             }
             DType::List(..) => {
-                todo!("list scalar conversion")
+                vortex_bail!("List scalars have no DataFusion equivalent yet")
             }
             DType::Extension(ext, _) => {
                 if is_temporal_ext_type(ext.id()) {
@@ -83,13 +83,13 @@ impl TryFrom<Scalar> for ScalarValue {
                                 ScalarValue::Time32Second(pv.map(i32::try_from).transpose()?)
                             }
                             TimeUnit::D => {
-                                unreachable!("Unsupported TimeUnit {u} for {}", ext.id())
+                                vortex_bail!("Unsupported TimeUnit {u} for {}", ext.id())
                             }
                         },
                         TemporalMetadata::Date(u) => match u {
                             TimeUnit::Ms => ScalarValue::Date64(pv.map(i64::try_from).transpose()?),
                             TimeUnit::D => ScalarValue::Date32(pv.map(i32::try_from).transpose()?),
-                            _ => unreachable!("Unsupported TimeUnit {u} for {}", ext.id()),
+                            _ => vortex_bail!("Unsupported TimeUnit {u} for {}", ext.id()),
                         },
                         TemporalMetadata::Timestamp(u, tz) => match u {
                             TimeUnit::Ns => ScalarValue::TimestampNanosecond(
@@ -109,13 +109,13 @@ impl TryFrom<Scalar> for ScalarValue {
                                 tz.map(|t| t.into()),
                             ),
                             TimeUnit::D => {
-                                unreachable!("Unsupported TimeUnit {u} for {}", ext.id())
+                                vortex_bail!("Unsupported TimeUnit {u} for {}", ext.id())
                             }
                         },
                     });
                 }
 
-                todo!("Non temporal extension scalar conversion")
+                vortex_bail!("Extension type {} has no DataFusion equivalent", ext.id())
             }
         })
     }
-- 
2.43.0


From 544bf29c8a58c4aa63f009f5c146e13dd85a2395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 084/138] fix: keep the type of null scalars from DataFusion

---
 vortex-scalar/src/datafusion.rs | 78 +++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/vortex-scalar/src/datafusion.rs b/vortex-scalar/src/datafusion.rs
index 796bb85..f23d864 100644
--- a/vortex-scalar/src/datafusion.rs
+++ b/vortex-scalar/src/datafusion.rs
@@ -124,52 +124,82 @@ impl TryFrom<Scalar> for ScalarValue {
 impl From<ScalarValue> for Scalar {
     fn from(value: ScalarValue) -> Scalar {
         match value {
-            ScalarValue::Null => Some(Scalar::null(DType::Null)),
-            ScalarValue::Boolean(b) => b.map(Scalar::from),
-            ScalarValue::Float16(f) => f.map(Scalar::from),
-            ScalarValue::Float32(f) => f.map(Scalar::from),
-            ScalarValue::Float64(f) => f.map(Scalar::from),
-            ScalarValue::Int8(i) => i.map(Scalar::from),
-            ScalarValue::Int16(i) => i.map(Scalar::from),
-            ScalarValue::Int32(i) => i.map(Scalar::from),
-            ScalarValue::Int64(i) => i.map(Scalar::from),
-            ScalarValue::UInt8(i) => i.map(Scalar::from),
-            ScalarValue::UInt16(i) => i.map(Scalar::from),
-            ScalarValue::UInt32(i) => i.map(Scalar::from),
-            ScalarValue::UInt64(i) => i.map(Scalar::from),
+            ScalarValue::Null => Scalar::null(DType::Null),
+            ScalarValue::Boolean(b) => or_null(b.map(Scalar::from), DType::Bool),
+            ScalarValue::Float16(f) => {
+                or_null(f.map(Scalar::from), |n| DType::Primitive(PType::F16, n))
+            }
+            ScalarValue::Float32(f) => {
+                or_null(f.map(Scalar::from), |n| DType::Primitive(PType::F32, n))
+            }
+            ScalarValue::Float64(f) => {
+                or_null(f.map(Scalar::from), |n| DType::Primitive(PType::F64, n))
+            }
+            ScalarValue::Int8(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::I8, n))
+            }
+            ScalarValue::Int16(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::I16, n))
+            }
+            ScalarValue::Int32(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::I32, n))
+            }
+            ScalarValue::Int64(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::I64, n))
+            }
+            ScalarValue::UInt8(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::U8, n))
+            }
+            ScalarValue::UInt16(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::U16, n))
+            }
+            ScalarValue::UInt32(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::U32, n))
+            }
+            ScalarValue::UInt64(i) => {
+                or_null(i.map(Scalar::from), |n| DType::Primitive(PType::U64, n))
+            }
             ScalarValue::Utf8(s) | ScalarValue::Utf8View(s) | ScalarValue::LargeUtf8(s) => {
-                s.as_ref().map(|s| Scalar::from(s.as_str()))
+                or_null(s.as_ref().map(|s| Scalar::from(s.as_str())), DType::Utf8)
             }
             ScalarValue::Binary(b)
             | ScalarValue::BinaryView(b)
             | ScalarValue::LargeBinary(b)
-            | ScalarValue::FixedSizeBinary(_, b) => b
-                .as_ref()
-                .map(|b| Scalar::binary(Buffer::from(b.clone()), Nullability::Nullable)),
+            | ScalarValue::FixedSizeBinary(_, b) => or_null(
+                b.as_ref()
+                    .map(|b| Scalar::binary(Buffer::from(b.clone()), Nullability::Nullable)),
+                DType::Binary,
+            ),
             ScalarValue::Date32(v)
             | ScalarValue::Time32Second(v)
-            | ScalarValue::Time32Millisecond(v) => v.map(|i| {
+            | ScalarValue::Time32Millisecond(v) => {
                 let ext_dtype = make_temporal_ext_dtype(&value.data_type());
                 Scalar::new(
                     DType::Extension(ext_dtype, Nullability::Nullable),
-                    crate::ScalarValue::Primitive(PValue::I32(i)),
+                    v.map(PValue::I32)
+                        .map_or(crate::ScalarValue::Null, crate::ScalarValue::Primitive),
                 )
-            }),
+            }
             ScalarValue::Date64(v)
             | ScalarValue::Time64Microsecond(v)
             | ScalarValue::Time64Nanosecond(v)
             | ScalarValue::TimestampSecond(v, _)
             | ScalarValue::TimestampMillisecond(v, _)
             | ScalarValue::TimestampMicrosecond(v, _)
-            | ScalarValue::TimestampNanosecond(v, _) => v.map(|i| {
+            | ScalarValue::TimestampNanosecond(v, _) => {
                 let ext_dtype = make_temporal_ext_dtype(&value.data_type());
                 Scalar::new(
                     DType::Extension(ext_dtype, Nullability::Nullable),
-                    crate::ScalarValue::Primitive(PValue::I64(i)),
+                    v.map(PValue::I64)
+                        .map_or(crate::ScalarValue::Null, crate::ScalarValue::Primitive),
                 )
-            }),
+            }
             _ => unimplemented!("Can't convert {value:?} value to a Vortex scalar"),
         }
-        .unwrap_or_else(|| Scalar::null(DType::Null))
     }
 }
+
+/// The scalar, or a null of the type it would have had.
+fn or_null(scalar: Option<Scalar>, dtype: impl FnOnce(Nullability) -> DType) -> Scalar {
+    scalar.unwrap_or_else(|| Scalar::null(dtype(Nullability::Nullable)))
+}
-- 
2.43.0


From 669942a2eb593d73740570cd0eacc162a01dbbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 085/138] fix: reading a primitive scalar as another type is an
 error

---
 vortex-scalar/src/primitive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/primitive.rs b/vortex-scalar/src/primitive.rs
index 687096a..d64fe5d 100644
--- a/vortex-scalar/src/primitive.rs
+++ b/vortex-scalar/src/primitive.rs
@@ -137,7 +137,11 @@ macro_rules! primitive_scalar {
             type Error = VortexError;
 
             fn try_from(value: &Scalar) -> Result<Self, Self::Error> {
-                PrimitiveScalar::try_from(value)?
+                let scalar = PrimitiveScalar::try_from(value)?;
+                if scalar.ptype() != <$T>::PTYPE {
+                    vortex_bail!("Can't read {} scalar as {}", scalar.ptype(), <$T>::PTYPE)
+                }
+                scalar
                     .typed_value::<$T>()
                     .ok_or_else(|| vortex_err!("Can't extract present value from null scalar"))
             }
-- 
2.43.0


From 853989a1041b89f53c3ed052126ca6ab4c232b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 086/138] fix: and/or of constant arrays without rows end

---
 vortex-array/src/array/constant/compute.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 65722e6..71d69e6 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -159,8 +159,15 @@ fn constant_array_bool_impl(
     bool_op: impl Fn((bool, bool)) -> bool,
     fallback_fn: impl Fn(&Array, &Array) -> VortexResult<Array>,
 ) -> VortexResult<Array> {
-    // If the right side is constant, and has a value to be
-    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    // No rows, no values: nothing to compute, and nothing to read the other value from
+    if other.is_empty() {
+        return Ok(
+            ConstantArray::new(Scalar::null(constant_array.dtype().as_nullable()), 0).into_array(),
+        );
+    }
+
+    // If the right side is constant
+    if other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
-- 
2.43.0


From 0fb64fa7f88696906a1aded42e94f9e764eff320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 087/138] fix: rows where the filter is null are not selected
 in memory tables

---
 vortex-datafusion/src/plans.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vortex-datafusion/src/plans.rs b/vortex-datafusion/src/plans.rs
index 92097dd..f130e10 100644
--- a/vortex-datafusion/src/plans.rs
+++ b/vortex-datafusion/src/plans.rs
@@ -8,7 +8,7 @@ use std::task::{Context, Poll};
 
 use arrow_array::cast::AsArray;
 use arrow_array::types::UInt64Type;
-use arrow_array::{ArrayRef, RecordBatch, RecordBatchOptions, UInt64Array};
+use arrow_array::{Array as _, ArrayRef, RecordBatch, RecordBatchOptions, UInt64Array};
 use arrow_schema::{DataType, Schema, SchemaRef};
 use datafusion_common::{DataFusionError, Result as DFResult};
 use datafusion_execution::{RecordBatchStream, SendableRecordBatchStream, TaskContext};
@@ -169,12 +169,14 @@ impl Stream for RowIndicesStream {
             .into_canonical()?
             .into_arrow()?;
 
-        // Convert the `selection` BooleanArray into a UInt64Array of indices.
-        let selection_indices = selection
-            .as_boolean()
-            .values()
-            .set_indices()
-            .map(|idx| idx as u64);
+        // Convert the `selection` BooleanArray into a UInt64Array of indices: a row is selected
+        // where the filter is true, and not where it is null.
+        let selection = selection.as_boolean();
+        let selected = match selection.nulls() {
+            Some(nulls) => selection.values() & nulls.inner(),
+            None => selection.values().clone(),
+        };
+        let selection_indices = selected.set_indices().map(|idx| idx as u64);
 
         let indices = Arc::new(UInt64Array::from_iter_values(selection_indices)) as ArrayRef;
         let indices_batch = RecordBatch::try_new(ROW_SELECTOR_SCHEMA_REF.clone(), vec![indices])?;
-- 
2.43.0


From 0020608b8ccbcd7a445a51f081d07a2b23366c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 088/138] fix: iterating ALP arrays yields the exceptions

---
 encodings/alp/src/alp/array.rs | 46 ++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/encodings/alp/src/alp/array.rs b/encodings/alp/src/alp/array.rs
index 45d77d7..505f64e 100644
--- a/encodings/alp/src/alp/array.rs
+++ b/encodings/alp/src/alp/array.rs
@@ -9,7 +9,10 @@ use vortex::iter::{Accessor, AccessorRef};
 use vortex::stats::ArrayStatisticsCompute;
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, PrimitiveArrayTrait};
-use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoCanonical};
+use vortex::{
+    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
+    IntoCanonical,
+};
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 
@@ -205,20 +208,25 @@ impl<F: ALPFloat> Accessor<F> for ALPAccessor<F> {
     }
 }
 
+/// Accessor of a child array, which is decoded if its encoding doesn't have accessors.
+fn decoded_accessor<T>(
+    array: Array,
+    accessor: impl Fn(&dyn PrimitiveArrayTrait) -> Option<AccessorRef<T>>,
+) -> Option<AccessorRef<T>> {
+    array
+        .with_dyn(|a| a.as_primitive_array().and_then(&accessor))
+        .or_else(|| accessor(&array.into_primitive().ok()?))
+}
+
 impl PrimitiveArrayTrait for ALPArray {
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         match self.dtype() {
             DType::Primitive(PType::F32, _) => {
-                let patches = self
-                    .patches()
-                    .and_then(|p| p.with_dyn(|a| a.as_primitive_array_unchecked().f32_accessor()));
-
-                let encoded = self
-                    .encoded()
-                    .with_dyn(|a| a.as_primitive_array_unchecked().i32_accessor())
-                    .vortex_expect(
-                        "Failed to get underlying encoded i32 array for ALP-encoded f32 array",
-                    );
+                let patches = match self.patches() {
+                    None => None,
+                    Some(p) => Some(decoded_accessor(p, |a| a.f32_accessor())?),
+                };
+                let encoded = decoded_accessor(self.encoded(), |a| a.i32_accessor())?;
 
                 Some(Arc::new(ALPAccessor::new(
                     encoded,
@@ -234,16 +242,12 @@ impl PrimitiveArrayTrait for ALPArray {
     fn f64_accessor(&self) -> Option<AccessorRef<f64>> {
         match self.dtype() {
             DType::Primitive(PType::F64, _) => {
-                let patches = self
-                    .patches()
-                    .and_then(|p| p.with_dyn(|a| a.as_primitive_array_unchecked().f64_accessor()));
-
-                let encoded = self
-                    .encoded()
-                    .with_dyn(|a| a.as_primitive_array_unchecked().i64_accessor())
-                    .vortex_expect(
-                        "Failed to get underlying encoded i64 array for ALP-encoded f64 array",
-                    );
+                let patches = match self.patches() {
+                    None => None,
+                    Some(p) => Some(decoded_accessor(p, |a| a.f64_accessor())?),
+                };
+                let encoded = decoded_accessor(self.encoded(), |a| a.i64_accessor())?;
+
                 Some(Arc::new(ALPAccessor::new(
                     encoded,
                     patches,
-- 
2.43.0


From 934cb0c58c1cdeef063c7a256acdbc6fef8d69af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 089/138] fix: vectorized iterators know how many batches are
 left

---
 vortex-array/src/iter/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/iter/mod.rs b/vortex-array/src/iter/mod.rs
index e4f7b70..bcb77ef 100644
--- a/vortex-array/src/iter/mod.rs
+++ b/vortex-array/src/iter/mod.rs
@@ -210,10 +210,8 @@ impl<T: Copy> Iterator for VectorizedArrayIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (
-            self.len - self.current_idx,
-            Some(self.len - self.current_idx),
-        )
+        let batches = (self.len - self.current_idx).div_ceil(ITER_BATCH_SIZE);
+        (batches, Some(batches))
     }
 }
 
-- 
2.43.0


From d74fbbd7576b4df5f61cfedabd27a5b11e1da9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 090/138] fix: nulls are not counted as true

---
 vortex-array/src/variants.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/variants.rs b/vortex-array/src/variants.rs
index 8730dbd..9320661 100644
--- a/vortex-array/src/variants.rs
+++ b/vortex-array/src/variants.rs
@@ -11,6 +11,7 @@ use vortex_error::{vortex_panic, VortexExpect as _, VortexResult};
 
 use crate::array::BoolArray;
 use crate::iter::{AccessorRef, VectorizedArrayIter};
+use crate::validity::LogicalValidity;
 use crate::{Array, ArrayTrait, IntoArray, IntoArrayVariant};
 
 pub trait ArrayVariants {
@@ -99,10 +100,18 @@ pub trait BoolArrayTrait: ArrayTrait {
         BoolArray::try_new(bool_array.boolean_buffer().not(), validity).map(|a| a.into_array())
     }
 
+    /// The number of elements that are true, nulls are not.
     fn true_count(&self) -> usize {
         self.statistics()
             .compute_true_count()
-            .unwrap_or_else(|| self.maybe_null_indices_iter().count())
+            .unwrap_or_else(|| match self.logical_validity() {
+                LogicalValidity::AllValid(_) => self.maybe_null_indices_iter().count(),
+                LogicalValidity::AllInvalid(_) => 0,
+                LogicalValidity::Array(_) => self
+                    .maybe_null_indices_iter()
+                    .filter(|idx| self.is_valid(*idx))
+                    .count(),
+            })
     }
 
     /// An iterator over the sorted indices of set values in the underlying boolean array
-- 
2.43.0


From e7bd2939a3a1de3443c1f871950f330f5a63c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 091/138] fix: projecting a struct on a field that does not
 exist is an error

---
 vortex-array/src/array/struct_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index 3613d27..7bdff1c 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -122,11 +122,11 @@ impl StructArray {
                 Field::Index(i) => *i,
             };
 
-            names.push(self.names()[idx].clone());
             children.push(
                 self.field(idx)
                     .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.dtypes().len()))?,
             );
+            names.push(self.names()[idx].clone());
         }
 
         StructArray::try_new(
-- 
2.43.0


From 0060ed618101ed2ed96c972ff09c1e46560e3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 092/138] fix: iterating null constants does not panic

---
 vortex-array/src/array/constant/variants.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 81e3a59..465fca1 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -90,7 +90,7 @@ impl BoolArrayTrait for ConstantArray {
 
 impl<T> Accessor<T> for ConstantArray
 where
-    T: Clone,
+    T: Clone + Default,
     T: TryFrom<ScalarValue, Error = VortexError>,
 {
     fn array_len(&self) -> usize {
@@ -102,6 +102,10 @@ where
     }
 
     fn value_unchecked(&self, _index: usize) -> T {
+        // There is no value behind nulls, but batches span them.
+        if self.scalar_value().is_null() {
+            return T::default();
+        }
         T::try_from(self.scalar_value().clone()).vortex_expect("Failed to convert scalar to value")
     }
 
-- 
2.43.0


From 681703748c9e605db37203368bb4482b3673a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 093/138] fix: storage of constant boolean extensions is
 boolean

---
 vortex-array/src/array/constant/variants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 465fca1..445f941 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -221,7 +221,7 @@ impl ExtensionArrayTrait for ConstantArray {
         // FIXME(ngates): there's not enough information to get the storage array.
         let n = self.dtype().nullability();
         let storage_dtype = match scalar_ext.value() {
-            ScalarValue::Bool(_) => DType::Binary(n),
+            ScalarValue::Bool(_) => DType::Bool(n),
             ScalarValue::Primitive(pvalue) => DType::Primitive(pvalue.ptype(), n),
             ScalarValue::Buffer(_) => DType::Binary(n),
             ScalarValue::BufferString(_) => DType::Utf8(n),
-- 
2.43.0


From 279f1231b1217df6b243b249ea56b715c627b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 094/138] fix: storage of datetime parts has the type of the
 storage

---
 encodings/datetime-parts/src/array.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/encodings/datetime-parts/src/array.rs b/encodings/datetime-parts/src/array.rs
index a1aa461..00ab44b 100644
--- a/encodings/datetime-parts/src/array.rs
+++ b/encodings/datetime-parts/src/array.rs
@@ -2,15 +2,13 @@ use std::fmt::{Debug, Display};
 
 use serde::{Deserialize, Serialize};
 use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
-use vortex::array::StructArray;
-use vortex::compute::unary::try_cast;
 use vortex::encoding::ids;
 use vortex::stats::{ArrayStatisticsCompute, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, ExtensionArrayTrait};
-use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoCanonical};
+use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
 use vortex_dtype::{DType, PType};
-use vortex_error::{vortex_bail, VortexExpect as _, VortexResult, VortexUnwrap};
+use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 
 use crate::compute::decode_to_temporal;
 
@@ -120,17 +118,10 @@ impl ArrayVariants for DateTimePartsArray {
 
 impl ExtensionArrayTrait for DateTimePartsArray {
     fn storage_array(&self) -> Array {
-        // FIXME(ngates): this needs to be a tuple array so we can implement Compare
-        // we don't want to write validity twice, so we pull it up to the top
-        let days = try_cast(self.days(), &self.days().dtype().as_nonnullable()).vortex_unwrap();
-        StructArray::try_new(
-            vec!["days".into(), "seconds".into(), "subseconds".into()].into(),
-            [days, self.seconds(), self.subsecond()].into(),
-            self.len(),
-            self.validity(),
-        )
-        .vortex_expect("Failed to create struct array")
-        .into_array()
+        // The parts are not the storage of the extension type, their sum is.
+        decode_to_temporal(self)
+            .vortex_expect("Failed to decode DateTimePartsArray")
+            .temporal_values()
     }
 }
 
-- 
2.43.0


From a0b1bfd1a736a460636b60f5ba4a73258359ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 095/138] fix: binary functions work on operands of any
 encoding

---
 vortex-array/src/array/primitive/mod.rs |  14 +++-
 vortex-array/src/elementwise.rs         | 103 ++++++++----------------
 2 files changed, 43 insertions(+), 74 deletions(-)

diff --git a/vortex-array/src/array/primitive/mod.rs b/vortex-array/src/array/primitive/mod.rs
index 298260a..0147daa 100644
--- a/vortex-array/src/array/primitive/mod.rs
+++ b/vortex-array/src/array/primitive/mod.rs
@@ -9,6 +9,7 @@ use itertools::Itertools;
 use num_traits::AsPrimitive;
 use serde::{Deserialize, Serialize};
 use vortex_buffer::Buffer;
+use vortex_dtype::half::f16;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexError, VortexExpect as _, VortexResult};
 
@@ -249,6 +250,10 @@ macro_rules! primitive_accessor_ref {
 }
 
 impl PrimitiveArrayTrait for PrimitiveArray {
+    fn f16_accessor(&self) -> Option<AccessorRef<f16>> {
+        primitive_accessor_ref!(self, F16)
+    }
+
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         primitive_accessor_ref!(self, F32)
     }
@@ -402,9 +407,12 @@ impl BinaryFn for PrimitiveArray {
         // Safety: we are going to apply the fn to every element and store it so the full length will be utilized
         unsafe { output.set_len(self.len()) };
 
-        let validity = self
-            .validity()
-            .and(rhs.with_dyn(|a| a.logical_validity().into_validity()))?;
+        let rhs_validity = if rhs.dtype().is_nullable() {
+            rhs.with_dyn(|a| a.logical_validity().into_validity())
+        } else {
+            Validity::NonNullable
+        };
+        let validity = self.validity().and(rhs_validity)?;
 
         let mut idx_offset = 0;
         let rhs_iter = dyn_cast_array_iter::<U>(&rhs);
diff --git a/vortex-array/src/elementwise.rs b/vortex-array/src/elementwise.rs
index 2e6c344..b27bd2d 100644
--- a/vortex-array/src/elementwise.rs
+++ b/vortex-array/src/elementwise.rs
@@ -1,8 +1,9 @@
 use vortex_dtype::{NativePType, PType};
-use vortex_error::VortexResult;
+use vortex_error::{VortexExpect as _, VortexResult};
 
-use crate::iter::Batch;
-use crate::{Array, ArrayDType};
+use crate::iter::{Batch, VectorizedArrayIter};
+use crate::variants::PrimitiveArrayTrait;
+use crate::{Array, IntoArrayVariant};
 
 pub trait BinaryFn {
     fn binary<I: NativePType, U: NativePType, O: NativePType, F: Fn(I, U) -> O>(
@@ -19,74 +20,34 @@ pub trait UnaryFn {
     ) -> VortexResult<Array>;
 }
 
-#[allow(clippy::unwrap_used)]
+/// Iterator over the batches of a primitive array, which is decoded if its encoding doesn't have accessors.
 pub fn dyn_cast_array_iter<N: NativePType>(array: &Array) -> Box<dyn Iterator<Item = Batch<N>>> {
-    match PType::try_from(array.dtype()).unwrap() {
-        PType::U8 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().u8_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::U16 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().u16_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::U32 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().u32_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::U64 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().u64_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::I8 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().i8_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::I16 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().i16_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::I32 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().i32_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::I64 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().i64_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::F16 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().u64_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::F32 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().f32_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
-        PType::F64 => Box::new(
-            array
-                .with_dyn(|a| a.as_primitive_array_unchecked().f64_iter())
-                .unwrap()
-                .map(|b| b.as_::<N>()),
-        ),
+    array
+        .with_dyn(|a| a.as_primitive_array().and_then(cast_iter))
+        .or_else(|| cast_iter(&array.clone().into_primitive().ok()?))
+        .vortex_expect("Expected a primitive array")
+}
+
+fn cast_iter<N: NativePType>(
+    array: &dyn PrimitiveArrayTrait,
+) -> Option<Box<dyn Iterator<Item = Batch<N>>>> {
+    fn cast<T: Copy + 'static, N: NativePType>(
+        iter: VectorizedArrayIter<T>,
+    ) -> Box<dyn Iterator<Item = Batch<N>>> {
+        Box::new(iter.map(|b| b.as_::<N>()))
+    }
+
+    match PType::try_from(array.dtype()).ok()? {
+        PType::U8 => array.u8_iter().map(cast),
+        PType::U16 => array.u16_iter().map(cast),
+        PType::U32 => array.u32_iter().map(cast),
+        PType::U64 => array.u64_iter().map(cast),
+        PType::I8 => array.i8_iter().map(cast),
+        PType::I16 => array.i16_iter().map(cast),
+        PType::I32 => array.i32_iter().map(cast),
+        PType::I64 => array.i64_iter().map(cast),
+        PType::F16 => array.f16_iter().map(cast),
+        PType::F32 => array.f32_iter().map(cast),
+        PType::F64 => array.f64_iter().map(cast),
     }
 }
-- 
2.43.0


From 8bb17c2e1efdb6cc2db1142d5ed1ec21f0b82700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 096/138] fix: stream cut inside a message length is not a
 clean end

---
 vortex-serde/src/message_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index 9ccf1ce..63b61c2 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -36,7 +36,8 @@ impl<R: VortexRead> MessageReader<R> {
 
     async fn load_next_message(&mut self) -> VortexResult<bool> {
         let mut buffer = std::mem::take(&mut self.message);
-        buffer.resize(FLATBUFFER_SIZE_LENGTH, 0);
+        // The stream may end cleanly only before the first byte of a message.
+        buffer.resize(1, 0);
         let mut buffer = match self.read.read_into(buffer).await {
             Ok(b) => b,
             Err(e) => {
@@ -46,6 +47,10 @@ impl<R: VortexRead> MessageReader<R> {
                 };
             }
         };
+        let mut length = buffer.split_off(1);
+        length.resize(FLATBUFFER_SIZE_LENGTH - 1, 0);
+        let length = self.read.read_into(length).await?;
+        buffer.extend_from_slice(&length);
 
         let len = buffer.get_u32_le();
         if len == u32::MAX {
-- 
2.43.0


From dcea6cf20a589dee5ad53fb89d1a0e7f21f399bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 097/138] fix: file with schema and footer too close together
 is malformed

---
 vortex-serde/src/layouts/read/footer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 993fd1c..d67f0ae 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -181,7 +181,11 @@ impl LayoutDescriptorReader {
         let schema_offset = ps.schema_offset();
         let footer_offset = ps.footer_offset();
         let footer_end = read_offset + (eof_loc - FOOTER_POSTSCRIPT_SIZE) as u64;
-        if schema_offset > footer_offset || footer_offset > footer_end {
+        // Both the schema and the footer start with their length.
+        let min_length = FLATBUFFER_SIZE_LENGTH as u64;
+        if footer_offset.saturating_sub(schema_offset) < min_length
+            || footer_end.saturating_sub(footer_offset) < min_length
+        {
             vortex_bail!("Malformed file, schema at {schema_offset} and footer at {footer_offset} must be in order before {footer_end}")
         }
 
-- 
2.43.0


From bdf3d8c6e9329049c68a2cab5c75634adc36ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 098/138] fix: number of column layouts has to match the schema

---
 vortex-serde/src/layouts/read/layouts/column.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index 4b70908..56c0d02 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -123,6 +123,15 @@ impl LayoutReader for ColumnLayout {
                 .flatbuffer()
                 .children()
                 .ok_or_else(|| vortex_err!("Missing children"))?;
+            if let DType::Struct(all, _) = self.message_cache.dtype().value()? {
+                if all.dtypes().len() != fb_children.len() {
+                    vortex_bail!(
+                        "Layout has {} columns, schema has {}",
+                        fb_children.len(),
+                        all.dtypes().len()
+                    )
+                }
+            }
 
             let child_layouts = match &self.scan.projection {
                 Projection::All => (0..fb_children.len())
-- 
2.43.0


From d30afb5bec5aa96868e9e1d4f68344cfac176295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 099/138] fix: reading far behind the end of bytes is an error

---
 vortex-serde/src/io/read.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/vortex-serde/src/io/read.rs b/vortex-serde/src/io/read.rs
index d8abd03..40514bc 100644
--- a/vortex-serde/src/io/read.rs
+++ b/vortex-serde/src/io/read.rs
@@ -102,14 +102,16 @@ impl VortexReadAt for Vec<u8> {
 
 impl VortexReadAt for [u8] {
     async fn read_at_into(&self, pos: u64, mut buffer: BytesMut) -> io::Result<BytesMut> {
-        if buffer.len() + pos as usize > self.len() {
+        if buffer.len() as u64 > (self.len() as u64).saturating_sub(pos) {
             Err(io::Error::new(
                 io::ErrorKind::UnexpectedEof,
                 vortex_err!("unexpected eof"),
             ))
         } else {
             let buffer_len = buffer.len();
-            buffer.copy_from_slice(&self[pos as usize..][..buffer_len]);
+            if buffer_len > 0 {
+                buffer.copy_from_slice(&self[pos as usize..][..buffer_len]);
+            }
             Ok(buffer)
         }
     }
@@ -121,17 +123,19 @@ impl VortexReadAt for [u8] {
 
 impl VortexReadAt for Buffer {
     async fn read_at_into(&self, pos: u64, mut buffer: BytesMut) -> io::Result<BytesMut> {
-        if buffer.len() + pos as usize > self.len() {
+        if buffer.len() as u64 > (self.len() as u64).saturating_sub(pos) {
             Err(io::Error::new(
                 io::ErrorKind::UnexpectedEof,
                 vortex_err!("unexpected eof"),
             ))
         } else {
             let buffer_len = buffer.len();
-            buffer.copy_from_slice(
-                self.slice(pos as usize..pos as usize + buffer_len)
-                    .as_slice(),
-            );
+            if buffer_len > 0 {
+                buffer.copy_from_slice(
+                    self.slice(pos as usize..pos as usize + buffer_len)
+                        .as_slice(),
+                );
+            }
             Ok(buffer)
         }
     }
-- 
2.43.0


From 319295b54825e046b8876d282a5ba18e619c62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 100/138] fix: reading behind the end of an object is an error

---
 vortex-serde/src/io/object_store.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/io/object_store.rs b/vortex-serde/src/io/object_store.rs
index 13782a8..9a694be 100644
--- a/vortex-serde/src/io/object_store.rs
+++ b/vortex-serde/src/io/object_store.rs
@@ -70,10 +70,17 @@ impl ObjectStoreReadAt {
 impl VortexReadAt for ObjectStoreReadAt {
     async fn read_at_into(&self, pos: u64, mut buffer: BytesMut) -> io::Result<BytesMut> {
         let start_range = pos as usize;
+        let end_range = start_range
+            .checked_add(buffer.len())
+            .ok_or_else(|| io::Error::from(io::ErrorKind::UnexpectedEof))?;
         let bytes = self
             .object_store
-            .get_range(&self.location, start_range..(start_range + buffer.len()))
+            .get_range(&self.location, start_range..end_range)
             .await?;
+        if bytes.len() != buffer.len() {
+            // The store cuts ranges off at the end of the object
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         buffer.as_mut().copy_from_slice(bytes.as_ref());
         Ok(buffer)
     }
-- 
2.43.0


From 614c2bd695d1bada83dd964992bd1dc6a5e834e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 101/138] fix: disjunctions that may be null are not pushed
 down

---
 vortex-datafusion/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/vortex-datafusion/src/lib.rs b/vortex-datafusion/src/lib.rs
index e731766..aa09475 100644
--- a/vortex-datafusion/src/lib.rs
+++ b/vortex-datafusion/src/lib.rs
@@ -158,6 +158,14 @@ impl SessionContextExt for SessionContext {
 
 fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     match expr {
+        // Vortex disjunctions are null when either side is null, but in SQL `true OR null` is true.
+        Expr::BinaryExpr(expr)
+            if expr.op == Operator::Or
+                && (can_be_null(expr.left.as_ref(), schema)
+                    || can_be_null(expr.right.as_ref(), schema)) =>
+        {
+            false
+        }
         Expr::BinaryExpr(expr)
             if expr.op.is_logic_operator() || SUPPORTED_BINARY_OPS.contains(&expr.op) =>
         {
@@ -173,6 +181,19 @@ fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     }
 }
 
+fn can_be_null(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        Expr::BinaryExpr(expr) => {
+            can_be_null(expr.left.as_ref(), schema) || can_be_null(expr.right.as_ref(), schema)
+        }
+        Expr::Column(col) => schema
+            .column_with_name(col.name())
+            .map_or(true, |(_, field)| field.is_nullable()),
+        Expr::Literal(lit) => lit.is_null(),
+        _ => true,
+    }
+}
+
 /// Physical plan node for scans against an in-memory, possibly chunked Vortex Array.
 #[derive(Clone)]
 struct VortexScanExec {
-- 
2.43.0


From bfd97d152f120fd06c8eb2894d66e022cb699d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:08 +0000
Subject: [PATCH 102/138] fix: not-equal and boolean literals of expressions in
 Python

---
 pyvortex/src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvortex/src/expr.rs b/pyvortex/src/expr.rs
index 5b5abe1..4986d1e 100644
--- a/pyvortex/src/expr.rs
+++ b/pyvortex/src/expr.rs
@@ -128,6 +128,9 @@ fn coerce_expr<'py>(value: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyExpr>> {
         Ok(value.clone())
     } else if let Ok(value) = value.downcast::<PyNone>() {
         scalar(DType::Null, value)
+    } else if let Ok(value) = value.downcast::<PyBool>() {
+        // bool is a subclass of int
+        scalar(DType::Bool(nonnull), value)
     } else if let Ok(value) = value.downcast::<PyLong>() {
         scalar(DType::Primitive(PType::I64, nonnull), value)
     } else if let Ok(value) = value.downcast::<PyFloat>() {
@@ -138,7 +141,7 @@ fn coerce_expr<'py>(value: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyExpr>> {
         scalar(DType::Binary(nonnull), value)
     } else {
         Err(PyValueError::new_err(format!(
-            "expected None, int, float, str, or bytes but found: {}",
+            "expected None, bool, int, float, str, or bytes but found: {}",
             value
         )))
     }
@@ -157,7 +160,7 @@ impl PyExpr {
         py_binary_opeartor(self_, Operator::Eq, coerce_expr(right)?)
     }
 
-    fn __neq__<'py>(
+    fn __ne__<'py>(
         self_: PyRef<'py, Self>,
         right: &Bound<'py, PyAny>,
     ) -> PyResult<Bound<'py, PyExpr>> {
-- 
2.43.0


From e32790c5b44596222483afefb006111541c0f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 103/138] fix: empty list of no type in Python

---
 pyvortex/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvortex/src/encode.rs b/pyvortex/src/encode.rs
index 028ba95..c8ec1a2 100644
--- a/pyvortex/src/encode.rs
+++ b/pyvortex/src/encode.rs
@@ -24,7 +24,8 @@ pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
 
     if obj.is_instance(&pa_array)? {
         let arrow_array = ArrowArrayData::from_pyarrow_bound(obj).map(make_array)?;
-        let is_nullable = arrow_array.is_nullable();
+        // An empty array of nulls is of the null type, but has no nulls.
+        let is_nullable = arrow_array.is_nullable() || arrow_array.data_type() == &DataType::Null;
         let enc_array = Array::from_arrow(arrow_array, is_nullable);
         Bound::new(obj.py(), PyArray::new(enc_array))
     } else if obj.is_instance(&chunked_array)? {
-- 
2.43.0


From bc2a7c218ffa16addc5da408996764a9344f5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 104/138] fix: chunked arrays with nulls in Python

---
 pyvortex/src/encode.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyvortex/src/encode.rs b/pyvortex/src/encode.rs
index c8ec1a2..418cdff 100644
--- a/pyvortex/src/encode.rs
+++ b/pyvortex/src/encode.rs
@@ -30,18 +30,20 @@ pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
         Bound::new(obj.py(), PyArray::new(enc_array))
     } else if obj.is_instance(&chunked_array)? {
         let chunks: Vec<Bound<PyAny>> = obj.getattr("chunks")?.extract()?;
-        let encoded_chunks = chunks
+        let arrow_chunks = chunks
             .iter()
-            .map(|a| {
-                ArrowArrayData::from_pyarrow_bound(a)
-                    .map(make_array)
-                    .map(|a| Array::from_arrow(a, false))
-            })
+            .map(|a| ArrowArrayData::from_pyarrow_bound(a).map(make_array))
             .collect::<PyResult<Vec<_>>>()?;
-        let dtype: DType = obj
+        let data_type = obj
             .getattr("type")
-            .and_then(|v| DataType::from_pyarrow_bound(&v))
-            .map(|dt| DType::from_arrow(&Field::new("_", dt, false)))?;
+            .and_then(|v| DataType::from_pyarrow_bound(&v))?;
+        let is_nullable =
+            data_type == DataType::Null || arrow_chunks.iter().any(|a| a.is_nullable());
+        let encoded_chunks = arrow_chunks
+            .into_iter()
+            .map(|a| Array::from_arrow(a, is_nullable))
+            .collect::<Vec<_>>();
+        let dtype = DType::from_arrow(&Field::new("_", data_type, is_nullable));
         Bound::new(
             obj.py(),
             PyArray::new(
-- 
2.43.0


From 27b9beb1cf6c42195d31319e8b947024c457cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 105/138] fix: taking rows of a dataset with a filter in Python

---
 pyvortex/python/vortex/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvortex/python/vortex/dataset.py b/pyvortex/python/vortex/dataset.py
index d64d7d8..c6be951 100644
--- a/pyvortex/python/vortex/dataset.py
+++ b/pyvortex/python/vortex/dataset.py
@@ -132,6 +132,8 @@ class VortexDataset(pyarrow.dataset.Dataset):
         use_threads: bool | None = None,
         memory_pool: pa.MemoryPool = None,
     ) -> pa.Table:
+        if filter is not None:
+            filter = arrow_to_vortex_expr(filter, self.schema)
         return self._dataset.to_array(columns, batch_size, filter).take(encoding.array(indices)).to_arrow_table()
 
     def to_record_batch_reader(
-- 
2.43.0


From e4da515e04e31ac4ae5ebe341e7035c4bf89d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 106/138] fix: head of a dataset shorter than asked for in
 Python

---
 pyvortex/python/vortex/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvortex/python/vortex/dataset.py b/pyvortex/python/vortex/dataset.py
index c6be951..50554a1 100644
--- a/pyvortex/python/vortex/dataset.py
+++ b/pyvortex/python/vortex/dataset.py
@@ -68,7 +68,8 @@ class VortexDataset(pyarrow.dataset.Dataset):
         del memory_pool
         if filter is not None:
             filter = arrow_to_vortex_expr(filter, self.schema)
-        return self._dataset.to_array(columns, batch_size, filter).slice(0, num_rows).to_arrow_table()
+        array = self._dataset.to_array(columns, batch_size, filter)
+        return array.slice(0, min(num_rows, len(array))).to_arrow_table()
 
     def join(
         self,
-- 
2.43.0


From 04e759ba947c4b0d023a08fb499f0ab869ee6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 107/138] fix: schema of a scanner in Python

---
 pyvortex/python/vortex/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvortex/python/vortex/dataset.py b/pyvortex/python/vortex/dataset.py
index 50554a1..854ee12 100644
--- a/pyvortex/python/vortex/dataset.py
+++ b/pyvortex/python/vortex/dataset.py
@@ -244,7 +244,7 @@ class VortexScanner(pa.dataset.Scanner):
 
     @property
     def schema(self):
-        return self._datset.schema
+        return self._dataset.schema
 
     def count_rows(self):
         return self._dataset.count_rows(
-- 
2.43.0


From e3bd641126be14f6af9cbe3dbeae07844486b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 108/138] fix: do not print filters

---
 pyvortex/python/vortex/substrait.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyvortex/python/vortex/substrait.py b/pyvortex/python/vortex/substrait.py
index c8d8f42..e2eeac4 100644
--- a/pyvortex/python/vortex/substrait.py
+++ b/pyvortex/python/vortex/substrait.py
@@ -209,7 +209,6 @@ def expression(substrait_object, functions: list[Callable[..., expr.Expr]], sche
 
 
 def expression_reference(substrait_object, functions: list[Callable[..., expr.Expr]], schema: NamedStruct) -> expr.Expr:
-    print(substrait_object)
     # https://github.com/substrait-io/substrait/blob/main/proto/substrait/extended_expression.proto#L16
     match substrait_object.WhichOneof("expr_type"):
         case "expression":
-- 
2.43.0


From 394f000ab69627a66db759f6b45105e34d6c1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:06 +0000
Subject: [PATCH 109/138] fix: arrays of no chunks in Python

---
 pyvortex/src/array.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyvortex/src/array.rs b/pyvortex/src/array.rs
index 3daf16e..ee26214 100644
--- a/pyvortex/src/array.rs
+++ b/pyvortex/src/array.rs
@@ -4,6 +4,7 @@ use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use pyo3::types::{IntoPyDict, PyInt, PyList};
 use vortex::array::ChunkedArray;
+use vortex::arrow::infer_data_type;
 use vortex::compute::unary::{fill_forward, scalar_at};
 use vortex::compute::{compare, slice, take, Operator};
 use vortex::{Array, ArrayDType, IntoCanonical};
@@ -129,10 +130,11 @@ impl PyArray {
                         .map_err(PyVortexError::map_err)
                 })
                 .collect::<PyResult<Vec<ArrayRef>>>()?;
-            if chunks.is_empty() {
-                return Err(PyValueError::new_err("No chunks in array"));
-            }
-            let pa_data_type = chunks[0].data_type().clone().to_pyarrow(py)?;
+            let data_type = match chunks.first() {
+                Some(chunk) => chunk.data_type().clone(),
+                None => infer_data_type(vortex.dtype()).map_err(PyVortexError::map_err)?,
+            };
+            let pa_data_type = data_type.to_pyarrow(py)?;
             let chunks: PyResult<Vec<PyObject>> = chunks
                 .iter()
                 .map(|arrow_array| arrow_array.into_data().to_pyarrow(py))
-- 
2.43.0


From 2703a966c4755507204efa13eacdb730f1c16233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:06 +0000
Subject: [PATCH 110/138] fix: literals of lists in Python

---
 pyvortex/src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvortex/src/expr.rs b/pyvortex/src/expr.rs
index 4986d1e..a23eeda 100644
--- a/pyvortex/src/expr.rs
+++ b/pyvortex/src/expr.rs
@@ -288,10 +288,10 @@ pub fn scalar_value(dtype: DType, value: &Bound<'_, PyAny>) -> PyResult<ScalarVa
         DType::Binary(_) => Ok(ScalarValue::Buffer(value.extract::<&[u8]>()?.into())),
         DType::Struct(..) => todo!(),
         DType::List(element_type, _) => {
-            let list = value.downcast::<PyList>();
+            let list = value.downcast::<PyList>()?;
             let values: Vec<ScalarValue> = list
                 .iter()
-                .map(|element| scalar_value(element_type.as_ref().clone(), element))
+                .map(|element| scalar_value(element_type.as_ref().clone(), &element))
                 .collect::<PyResult<Vec<ScalarValue>>>()?;
             Ok(ScalarValue::List(Arc::from(values.into_boxed_slice())))
         }
-- 
2.43.0


From 14c2c510e66d3b27d0ab8594df0ae7c076ef7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 111/138] fix: literals of structs and extensions are an error
 in Python

---
 pyvortex/src/expr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvortex/src/expr.rs b/pyvortex/src/expr.rs
index a23eeda..b498f84 100644
--- a/pyvortex/src/expr.rs
+++ b/pyvortex/src/expr.rs
@@ -256,7 +256,7 @@ pub fn scalar<'py>(dtype: DType, value: &Bound<'py, PyAny>) -> PyResult<Bound<'p
 }
 
 pub fn scalar_value(dtype: DType, value: &Bound<'_, PyAny>) -> PyResult<ScalarValue> {
-    match dtype {
+    match &dtype {
         DType::Null => {
             value.downcast::<PyNone>()?;
             Ok(ScalarValue::Null)
@@ -286,7 +286,10 @@ pub fn scalar_value(dtype: DType, value: &Bound<'_, PyAny>) -> PyResult<ScalarVa
         }
         DType::Utf8(_) => Ok(ScalarValue::BufferString(value.extract::<String>()?.into())),
         DType::Binary(_) => Ok(ScalarValue::Buffer(value.extract::<&[u8]>()?.into())),
-        DType::Struct(..) => todo!(),
+        DType::Struct(..) | DType::Extension(..) => Err(PyValueError::new_err(format!(
+            "literals of type {} are not supported",
+            dtype
+        ))),
         DType::List(element_type, _) => {
             let list = value.downcast::<PyList>()?;
             let values: Vec<ScalarValue> = list
@@ -295,6 +298,5 @@ pub fn scalar_value(dtype: DType, value: &Bound<'_, PyAny>) -> PyResult<ScalarVa
                 .collect::<PyResult<Vec<ScalarValue>>>()?;
             Ok(ScalarValue::List(Arc::from(values.into_boxed_slice())))
         }
-        DType::Extension(..) => todo!(),
     }
 }
-- 
2.43.0


From 2822832e88907545b97b1fcabaf465008fb6c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 112/138] fix: sliced struct arrays in Python

---
 pyvortex/src/encode.rs | 55 +++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/pyvortex/src/encode.rs b/pyvortex/src/encode.rs
index 418cdff..7a9a9f5 100644
--- a/pyvortex/src/encode.rs
+++ b/pyvortex/src/encode.rs
@@ -1,8 +1,9 @@
-use arrow::array::{make_array, ArrayData as ArrowArrayData};
-use arrow::datatypes::{DataType, Field};
-use arrow::ffi_stream::ArrowArrayStreamReader;
+use std::sync::Arc;
+
+use arrow::array::{make_array, ArrayData as ArrowArrayData, ArrayRef as ArrowArrayRef};
+use arrow::datatypes::{DataType, Field, Schema};
 use arrow::pyarrow::FromPyArrow;
-use arrow::record_batch::RecordBatchReader;
+use arrow::record_batch::{RecordBatch, RecordBatchOptions};
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use vortex::array::ChunkedArray;
@@ -14,6 +15,28 @@ use vortex_error::VortexError;
 use crate::array::PyArray;
 use crate::error::PyVortexError;
 
+/// Slice data from Python, in which the fields of a sliced struct have yet to be sliced.
+fn slice_data(data: ArrowArrayData, offset: usize, length: usize) -> ArrowArrayData {
+    if !matches!(data.data_type(), DataType::Struct(_)) {
+        return data.slice(offset, length);
+    }
+    let fields = data
+        .child_data()
+        .iter()
+        .map(|field| slice_data(field.clone(), data.offset() + offset, length))
+        .collect();
+    let nulls = data.nulls().map(|nulls| nulls.slice(offset, length));
+    let builder = data.into_builder().offset(0).len(length);
+    // SAFETY: the data is that of an array, and its fields are sliced to its rows.
+    unsafe { builder.nulls(nulls).child_data(fields).build_unchecked() }
+}
+
+fn arrow_array(obj: &Bound<PyAny>) -> PyResult<ArrowArrayRef> {
+    let data = ArrowArrayData::from_pyarrow_bound(obj)?;
+    let length = data.len();
+    Ok(make_array(slice_data(data, 0, length)))
+}
+
 // Private, ergo not documented.
 #[pyfunction]
 pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
@@ -23,7 +46,7 @@ pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
     let table = pa.getattr("Table")?;
 
     if obj.is_instance(&pa_array)? {
-        let arrow_array = ArrowArrayData::from_pyarrow_bound(obj).map(make_array)?;
+        let arrow_array = arrow_array(obj)?;
         // An empty array of nulls is of the null type, but has no nulls.
         let is_nullable = arrow_array.is_nullable() || arrow_array.data_type() == &DataType::Null;
         let enc_array = Array::from_arrow(arrow_array, is_nullable);
@@ -32,7 +55,7 @@ pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
         let chunks: Vec<Bound<PyAny>> = obj.getattr("chunks")?.extract()?;
         let arrow_chunks = chunks
             .iter()
-            .map(|a| ArrowArrayData::from_pyarrow_bound(a).map(make_array))
+            .map(arrow_array)
             .collect::<PyResult<Vec<_>>>()?;
         let data_type = obj
             .getattr("type")
@@ -53,12 +76,20 @@ pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
             ),
         )
     } else if obj.is_instance(&table)? {
-        let array_stream = ArrowArrayStreamReader::from_pyarrow_bound(obj)?;
-        let dtype = DType::from_arrow(array_stream.schema());
-        let chunks = array_stream
-            .into_iter()
-            .map(|b| b.map_err(VortexError::ArrowError))
-            .map(|b| b.and_then(Array::try_from).map_err(PyVortexError::map_err))
+        let schema = Arc::new(Schema::from_pyarrow_bound(&obj.getattr("schema")?)?);
+        let dtype = DType::from_arrow(schema.clone());
+        let batches: Vec<Bound<PyAny>> = obj.call_method0("to_batches")?.extract()?;
+        let chunks = batches
+            .iter()
+            .map(|batch| {
+                let columns: Vec<Bound<PyAny>> = batch.getattr("columns")?.extract()?;
+                let columns = columns.iter().map(arrow_array).collect::<PyResult<_>>()?;
+                let rows = RecordBatchOptions::new().with_row_count(Some(batch.len()?));
+                RecordBatch::try_new_with_options(schema.clone(), columns, &rows)
+                    .map_err(VortexError::ArrowError)
+                    .and_then(Array::try_from)
+                    .map_err(PyVortexError::map_err)
+            })
             .collect::<PyResult<Vec<_>>>()?;
         Bound::new(
             obj.py(),
-- 
2.43.0


From 7e10ae95b9de52547ac857ca59c75810433289af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 113/138] fix: flush a finished file

---
 vortex-serde/src/layouts/write/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 39a86df..3a18db2 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -191,6 +191,8 @@ impl<W: VortexWrite> LayoutWriter<W> {
         eof[0..2].copy_from_slice(&VERSION.to_le_bytes());
         eof[4..8].copy_from_slice(&MAGIC_BYTES);
         w.write_all(eof).await?;
+        // Writers may hold back what they are given, and report errors, until they are flushed
+        w.flush().await?;
         Ok(w)
     }
 }
-- 
2.43.0


From c130bcfc85735dab2ff356a1f894c7bae33d898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:59 +0000
Subject: [PATCH 114/138] fix: check the type of validity arrays

---
 vortex-array/src/validity.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 47416a6..de232be 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -81,6 +81,9 @@ impl Validity {
                         length
                     )
                 }
+                if a.dtype() != &Self::DTYPE {
+                    vortex_bail!(MismatchedTypes: "non-nullable bool validity", a.dtype());
+                }
                 Ok(ValidityMetadata::Array)
             }
         }
-- 
2.43.0


From 700d3d2ce1b85568bab5cd4f59e60e265f63ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:59 +0000
Subject: [PATCH 115/138] fix: refuse sparse arrays with indices before their
 offset

---
 vortex-array/src/array/sparse/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 1fa337c..e9aa4ad 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -74,7 +74,12 @@ impl SparseArray {
         if !indices.is_empty() {
             let last_index = usize::try_from(&scalar_at(&indices, indices.len() - 1)?)?;
 
-            if last_index - indices_offset >= len {
+            let first_index = usize::try_from(&scalar_at(&indices, 0)?)?;
+
+            if first_index < indices_offset {
+                vortex_bail!("The first index {first_index} is before offset {indices_offset}");
+            }
+            if last_index < indices_offset || last_index - indices_offset >= len {
                 vortex_bail!("Array length was set to {len} but the last index is {last_index}");
             }
         }
-- 
2.43.0


From 5661c4ffb0ab40d5310f9fff2a8150fdc7b0e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:59 +0000
Subject: [PATCH 116/138] fix: check the ends of a run end bool array before
 reading them

---
 encodings/runend-bool/src/array.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encodings/runend-bool/src/array.rs b/encodings/runend-bool/src/array.rs
index f7e8a65..2f3bbdf 100644
--- a/encodings/runend-bool/src/array.rs
+++ b/encodings/runend-bool/src/array.rs
@@ -36,6 +36,15 @@ impl Display for RunEndBoolMetadata {
 
 impl RunEndBoolArray {
     pub fn try_new(ends: Array, start: bool, validity: Validity) -> VortexResult<Self> {
+        if ends.is_empty() {
+            vortex_bail!("Ends array must have at least one element");
+        }
+        if !ends.dtype().is_unsigned_int() || ends.dtype().is_nullable() {
+            vortex_bail!(
+                "Ends array must be an unsigned integer type, got {}",
+                ends.dtype()
+            );
+        }
         let length: usize = scalar_at(&ends, ends.len() - 1)?.as_ref().try_into()?;
         Self::with_offset_and_size(ends, start, validity, length, 0)
     }
-- 
2.43.0


From c3b7ae84545ac610a03e937c135f9f06c51993df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 117/138] fix: check the number of values and slice empty run
 end arrays

---
 encodings/runend/src/array.rs   | 11 +++++++++++
 encodings/runend/src/compute.rs |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/encodings/runend/src/array.rs b/encodings/runend/src/array.rs
index de766b3..3b891ec 100644
--- a/encodings/runend/src/array.rs
+++ b/encodings/runend/src/array.rs
@@ -36,6 +36,9 @@ impl Display for RunEndMetadata {
 
 impl RunEndArray {
     pub fn try_new(ends: Array, values: Array, validity: Validity) -> VortexResult<Self> {
+        if !ends.dtype().is_unsigned_int() || ends.dtype().is_nullable() {
+            vortex_bail!(MismatchedTypes: "non-nullable unsigned int", ends.dtype());
+        }
         let length = if ends.is_empty() {
             0
         } else {
@@ -51,6 +54,14 @@ impl RunEndArray {
         offset: usize,
         length: usize,
     ) -> VortexResult<Self> {
+        if ends.len() != values.len() {
+            vortex_bail!(
+                "Mismatched number of run ends {} and values {}",
+                ends.len(),
+                values.len()
+            );
+        }
+
         if values.dtype().nullability() != validity.nullability() {
             vortex_bail!(
                 "invalid validity {:?} for dtype {}",
diff --git a/encodings/runend/src/compute.rs b/encodings/runend/src/compute.rs
index e4b8ccf..20485ec 100644
--- a/encodings/runend/src/compute.rs
+++ b/encodings/runend/src/compute.rs
@@ -96,6 +96,10 @@ impl TakeFn for RunEndArray {
 
 impl SliceFn for RunEndArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if self.ends().is_empty() {
+            return Ok(self.clone().into_array());
+        }
+
         let slice_begin = self.find_physical_index(start)?;
         let slice_end = self.find_physical_index(stop)?;
 
-- 
2.43.0


From 5935bc820fb47045557b48aee24c0d40d198c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 118/138] fix: refuse varbin arrays without offsets

---
 vortex-array/src/array/varbin/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbin/mod.rs b/vortex-array/src/array/varbin/mod.rs
index df8ed51..f2ec0b0 100644
--- a/vortex-array/src/array/varbin/mod.rs
+++ b/vortex-array/src/array/varbin/mod.rs
@@ -65,10 +65,13 @@ impl VarBinArray {
             vortex_bail!("incorrect validity {:?}", validity);
         }
 
+        if offsets.is_empty() {
+            vortex_bail!("offsets must have at least one element");
+        }
         let length = offsets.len() - 1;
 
         let metadata = VarBinMetadata {
-            validity: validity.to_metadata(offsets.len() - 1)?,
+            validity: validity.to_metadata(length)?,
             offsets_ptype,
             bytes_len: bytes.len(),
         };
-- 
2.43.0


From a0d5697880da15b0f0bfc948e85ad66cbf70c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 119/138] fix: refuse views which are not a multiple of their
 size

---
 vortex-array/src/array/varbinview/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vortex-array/src/array/varbinview/mod.rs b/vortex-array/src/array/varbinview/mod.rs
index 54889e2..65cb4de 100644
--- a/vortex-array/src/array/varbinview/mod.rs
+++ b/vortex-array/src/array/varbinview/mod.rs
@@ -238,6 +238,13 @@ impl VarBinViewArray {
             vortex_bail!("incorrect validity {:?}", validity);
         }
 
+        if views.len() % VIEW_SIZE_BYTES != 0 {
+            vortex_bail!(
+                "views must be a multiple of {} bytes, got {}",
+                VIEW_SIZE_BYTES,
+                views.len()
+            );
+        }
         let num_views = views.len() / VIEW_SIZE_BYTES;
         let buffer_lens: Vec<u32> = buffers
             .iter()
-- 
2.43.0


From 7cd4d183a53fa64c07d322acbd3a139e56748dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 120/138] fix: refuse roaring bitmaps with bits beyond the
 length

---
 encodings/roaring/src/boolean/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index 3ec8b74..1873b4a 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -40,6 +40,8 @@ impl RoaringBoolArray {
     pub fn try_new(bitmap: Bitmap, length: usize) -> VortexResult<Self> {
         if length < bitmap.cardinality() as usize {
             vortex_bail!("RoaringBoolArray length is less than bitmap cardinality")
+        } else if bitmap.maximum().is_some_and(|m| m as usize >= length) {
+            vortex_bail!("RoaringBoolArray bitmap has bits beyond length {}", length)
         } else {
             let roaring_stats = bitmap.statistics();
             let stats = StatsSet::from(HashMap::from([
-- 
2.43.0


From 49e9d6cd5d6e78a5773e9352a30944154c7b355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 121/138] fix: check the parts of ALP-RD arrays

---
 encodings/alp/src/alp_rd/array.rs | 36 ++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index ef69ab4..2892511 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -38,9 +38,11 @@ impl ALPRDArray {
         right_bit_width: u8,
         left_parts_exceptions: Option<Array>,
     ) -> VortexResult<Self> {
-        if !dtype.is_float() {
-            vortex_bail!("ALPRDArray given invalid DType ({dtype})");
-        }
+        let right_parts_ptype = match PType::try_from(&dtype) {
+            Ok(PType::F32) => PType::U32,
+            Ok(PType::F64) => PType::U64,
+            _ => vortex_bail!("ALPRDArray given invalid DType ({dtype})"),
+        };
 
         let len = left_parts.len();
         if right_parts.len() != len {
@@ -69,8 +71,11 @@ impl ALPRDArray {
         if right_parts.dtype().is_nullable() {
             vortex_bail!("right_parts dtype must be non-nullable");
         }
-        if !right_parts.dtype().is_unsigned_int() || right_parts.dtype().is_nullable() {
-            vortex_bail!(MismatchedTypes: "non-nullable uint", right_parts.dtype());
+        if right_parts.dtype() != &DType::from(right_parts_ptype) {
+            vortex_bail!(MismatchedTypes: right_parts_ptype, right_parts.dtype());
+        }
+        if right_bit_width as usize >= right_parts_ptype.bit_width() {
+            vortex_bail!("right_bit_width {right_bit_width} is too big for {dtype}");
         }
 
         let mut children = vec![left_parts, right_parts];
@@ -81,10 +86,31 @@ impl ALPRDArray {
             if exceptions.encoding().id().code() != ids::SPARSE {
                 vortex_bail!("left_parts_exceptions must be SparseArray encoded");
             }
+            if exceptions.len() != len {
+                vortex_bail!(
+                    "left_parts (len {}) and left_parts_exceptions (len {}) must be of same length",
+                    len,
+                    exceptions.len()
+                );
+            }
+            if exceptions.dtype() != &DType::Primitive(left_parts_ptype, Nullability::Nullable) {
+                vortex_bail!(
+                    "left_parts_exceptions dtype {} must be nullable {}",
+                    exceptions.dtype(),
+                    left_parts_ptype
+                );
+            }
             children.push(exceptions);
         }
 
         let mut dict = [0u16; 8];
+        if left_parts_dict.as_ref().len() > dict.len() {
+            vortex_bail!(
+                "left_parts_dict has {} entries, at most {} are supported",
+                left_parts_dict.as_ref().len(),
+                dict.len()
+            );
+        }
         for (idx, v) in left_parts_dict.as_ref().iter().enumerate() {
             dict[idx] = *v;
         }
-- 
2.43.0


From 15934ae99381cc2f5468727a39cb6288f4106afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 122/138] fix: check the parts of delta arrays

---
 encodings/fastlanes/src/delta/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ffcc4ef..8506225 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -115,6 +115,17 @@ impl DeltaArray {
         }
 
         let dtype = bases.dtype().clone();
+        if !dtype.is_unsigned_int() {
+            vortex_bail!(MismatchedTypes: "unsigned int", dtype);
+        }
+        if dtype.nullability() != validity.nullability() {
+            vortex_bail!(
+                "DeltaArray: invalid validity {:?} for dtype {}",
+                validity,
+                dtype
+            );
+        }
+        let actual_bases_len = bases.len();
         let metadata = DeltaMetadata {
             validity: validity.to_metadata(logical_len)?,
             deltas_len: deltas.len() as u64,
@@ -134,10 +145,10 @@ impl DeltaArray {
             StatsSet::new(),
         )?;
 
-        if delta.bases().len() != delta.bases_len() {
+        if actual_bases_len != delta.bases_len() {
             vortex_bail!(
                 "DeltaArray: bases.len() ({}) != expected_bases_len ({}), based on len ({}) and lane count ({})",
-                delta.bases().len(),
+                actual_bases_len,
                 delta.bases_len(),
                 logical_len,
                 delta.lanes()
-- 
2.43.0


From d1966de5cc49a8d04267bb9984e3f906dd8954d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 123/138] fix: check bit width and patches of bit packed arrays

---
 encodings/fastlanes/src/bitpacking/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/mod.rs b/encodings/fastlanes/src/bitpacking/mod.rs
index a16b234..1d34a25 100644
--- a/encodings/fastlanes/src/bitpacking/mod.rs
+++ b/encodings/fastlanes/src/bitpacking/mod.rs
@@ -66,8 +66,8 @@ impl BitPackedArray {
             vortex_bail!(MismatchedTypes: "uint", &dtype);
         }
 
-        if bit_width > u64::BITS as u8 {
-            vortex_bail!("Unsupported bit width {}", bit_width);
+        if bit_width as usize > ptype.bit_width() {
+            vortex_bail!("Unsupported bit width {} for {}", bit_width, ptype);
         }
         if offset > 1023 {
             vortex_bail!(
@@ -97,6 +97,10 @@ impl BitPackedArray {
                 )
             }
 
+            if parray.dtype() != &dtype.as_nullable() {
+                vortex_bail!(MismatchedTypes: dtype.as_nullable(), parray.dtype());
+            }
+
             if SparseArray::try_from(parray)?.indices().is_empty() {
                 vortex_bail!("cannot construct BitPackedArray using patches without indices");
             }
-- 
2.43.0


From fcfbe6e414ce191341d095e38b7ece640a4d60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 124/138] fix: check the child and shift of frame of reference
 arrays

---
 encodings/fastlanes/src/for/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/encodings/fastlanes/src/for/mod.rs b/encodings/fastlanes/src/for/mod.rs
index a30d7a3..d62eb1d 100644
--- a/encodings/fastlanes/src/for/mod.rs
+++ b/encodings/fastlanes/src/for/mod.rs
@@ -35,6 +35,20 @@ impl FoRArray {
             vortex_bail!("Reference value cannot be null");
         }
 
+        let ptype = PType::try_from(reference.dtype())?;
+        if !ptype.is_int()
+            || child.dtype() != &DType::Primitive(ptype.to_unsigned(), child.dtype().nullability())
+        {
+            vortex_bail!(
+                "FoRArray: child dtype {} does not match reference dtype {}",
+                child.dtype(),
+                reference.dtype()
+            );
+        }
+        if shift as usize >= ptype.bit_width() {
+            vortex_bail!("FoRArray: shift {} is too big for {}", shift, ptype);
+        }
+
         let reference = reference.cast(
             &reference
                 .dtype()
-- 
2.43.0


From 7c1beb833ad99ffc3d6cf98b81d24ad96879f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 125/138] fix: check the exponents of ALP arrays

---
 encodings/alp/src/alp/array.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encodings/alp/src/alp/array.rs b/encodings/alp/src/alp/array.rs
index 505f64e..01fe9ff 100644
--- a/encodings/alp/src/alp/array.rs
+++ b/encodings/alp/src/alp/array.rs
@@ -44,6 +44,14 @@ impl ALPArray {
             d => vortex_bail!(MismatchedTypes: "int32 or int64", d),
         };
 
+        let max_exponent = match PType::try_from(&dtype)? {
+            PType::F32 => f32::F10.len(),
+            _ => f64::F10.len(),
+        };
+        if exponents.e as usize >= max_exponent || exponents.f as usize >= max_exponent {
+            vortex_bail!("Exponents {} out of range for {}", exponents, dtype);
+        }
+
         let length = encoded.len();
         if let Some(parray) = patches.as_ref() {
             if parray.len() != length {
-- 
2.43.0


From 5cfa688fafd4352c4de6d5b7bf7a509872026375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 126/138] fix: check the type of FSST arrays and read lengths
 of any integer type

---
 encodings/fsst/src/array.rs     | 12 ++++++++++++
 encodings/fsst/src/canonical.rs | 11 +++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/encodings/fsst/src/array.rs b/encodings/fsst/src/array.rs
index c7c36a8..c40d540 100644
--- a/encodings/fsst/src/array.rs
+++ b/encodings/fsst/src/array.rs
@@ -47,6 +47,18 @@ impl FSSTArray {
         codes: Array,
         uncompressed_lengths: Array,
     ) -> VortexResult<Self> {
+        if !matches!(dtype, DType::Utf8(_) | DType::Binary(_)) {
+            vortex_bail!(MismatchedTypes: "utf8 or binary", dtype);
+        }
+
+        if dtype.nullability() != codes.dtype().nullability() {
+            vortex_bail!(
+                "FSSTArray dtype nullability ({}) must match codes dtype nullability ({})",
+                dtype,
+                codes.dtype()
+            );
+        }
+
         // Check: symbols must be a u64 array
         if symbols.dtype() != &SYMBOLS_DTYPE {
             vortex_bail!(InvalidArgument: "symbols array must be of type u64")
diff --git a/encodings/fsst/src/canonical.rs b/encodings/fsst/src/canonical.rs
index 6dd9138..df9fc9b 100644
--- a/encodings/fsst/src/canonical.rs
+++ b/encodings/fsst/src/canonical.rs
@@ -1,5 +1,7 @@
 use vortex::array::{PrimitiveArray, VarBinArray};
+use vortex::compute::unary::try_cast;
 use vortex::{ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
+use vortex_dtype::PType;
 use vortex_error::VortexResult;
 
 use crate::FSSTArray;
@@ -30,10 +32,11 @@ impl IntoCanonical for FSSTArray {
             let mut offset = 0;
             offsets.push(offset);
 
-            let uncompressed_lens_array = self
-                .uncompressed_lengths()
-                .into_canonical()?
-                .into_primitive()?;
+            let uncompressed_lens_array = try_cast(
+                self.uncompressed_lengths().into_primitive()?,
+                PType::I32.into(),
+            )?
+            .into_primitive()?;
             let uncompressed_lens_slice = uncompressed_lens_array.maybe_null_slice::<i32>();
 
             for len in uncompressed_lens_slice.iter() {
-- 
2.43.0


From 612a4362663fbd97856ca4df4ad6472b8f5caa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 127/138] fix: check the type of date time parts and read parts
 of any integer type

---
 encodings/datetime-parts/src/array.rs   |  9 ++++++++
 encodings/datetime-parts/src/compute.rs | 28 ++++++++++++++++++-------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/encodings/datetime-parts/src/array.rs b/encodings/datetime-parts/src/array.rs
index 00ab44b..1e6d859 100644
--- a/encodings/datetime-parts/src/array.rs
+++ b/encodings/datetime-parts/src/array.rs
@@ -7,6 +7,7 @@ use vortex::stats::{ArrayStatisticsCompute, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, ExtensionArrayTrait};
 use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
+use vortex_datetime_dtype::TemporalMetadata;
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 
@@ -36,6 +37,14 @@ impl DateTimePartsArray {
         seconds: Array,
         subsecond: Array,
     ) -> VortexResult<Self> {
+        match &dtype {
+            DType::Extension(ext, _)
+                if matches!(
+                    TemporalMetadata::try_from(ext),
+                    Ok(TemporalMetadata::Timestamp(..))
+                ) => {}
+            _ => vortex_bail!(MismatchedTypes: "timestamp", dtype),
+        }
         if !days.dtype().is_int() || (dtype.is_nullable() != days.dtype().is_nullable()) {
             vortex_bail!(
                 "Expected integer with nullability {}, got {}",
diff --git a/encodings/datetime-parts/src/compute.rs b/encodings/datetime-parts/src/compute.rs
index 8174c70..e4b8e6b 100644
--- a/encodings/datetime-parts/src/compute.rs
+++ b/encodings/datetime-parts/src/compute.rs
@@ -1,11 +1,11 @@
 use itertools::Itertools as _;
 use vortex::array::{PrimitiveArray, TemporalArray};
-use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::compute::unary::{scalar_at, try_cast, ScalarAtFn};
 use vortex::compute::{slice, take, ArrayCompute, SliceFn, TakeFn};
 use vortex::validity::ArrayValidity;
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_datetime_dtype::{TemporalMetadata, TimeUnit};
-use vortex_dtype::{DType, PType};
+use vortex_dtype::{DType, Nullability, PType};
 use vortex_error::{vortex_bail, VortexResult, VortexUnwrap as _};
 use vortex_scalar::Scalar;
 
@@ -77,9 +77,14 @@ impl ScalarAtFn for DateTimePartsArray {
             TimeUnit::D => vortex_bail!("Invalid time unit D"),
         };
 
-        let days: i64 = scalar_at(self.days(), index)?.try_into()?;
-        let seconds: i64 = scalar_at(self.seconds(), index)?.try_into()?;
-        let subseconds: i64 = scalar_at(self.subsecond(), index)?.try_into()?;
+        let part = |part: Array| -> VortexResult<i64> {
+            scalar_at(part, index)?
+                .cast(&DType::Primitive(PType::I64, Nullability::Nullable))?
+                .try_into()
+        };
+        let days = part(self.days())?;
+        let seconds = part(self.seconds())?;
+        let subseconds = part(self.subsecond())?;
 
         let scalar = days * 86_400 * divisor + seconds * divisor + subseconds;
 
@@ -94,6 +99,13 @@ impl ScalarAtFn for DateTimePartsArray {
     }
 }
 
+/// Decode a part, which may have any integer type.
+fn into_i64(part: Array) -> VortexResult<PrimitiveArray> {
+    let part = part.into_primitive()?;
+    let dtype = DType::Primitive(PType::I64, part.dtype().nullability());
+    try_cast(part, &dtype)?.into_primitive()
+}
+
 /// Decode an [Array] into a [TemporalArray].
 ///
 /// Enforces that the passed array is actually a [DateTimePartsArray] with proper metadata.
@@ -114,9 +126,9 @@ pub fn decode_to_temporal(array: &DateTimePartsArray) -> VortexResult<TemporalAr
         TimeUnit::D => vortex_bail!(InvalidArgument: "cannot decode into TimeUnit::D"),
     };
 
-    let days_buf = array.days().into_primitive()?;
-    let seconds_buf = array.seconds().into_primitive()?;
-    let subsecond_buf = array.subsecond().into_primitive()?;
+    let days_buf = into_i64(array.days())?;
+    let seconds_buf = into_i64(array.seconds())?;
+    let subsecond_buf = into_i64(array.subsecond())?;
 
     let values = days_buf
         .maybe_null_slice::<i64>()
-- 
2.43.0


From f44c1364c0c6ca5625c77977541cd1fb9f3dbbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 128/138] fix: roaring encoders refuse nulls and values out of
 order

---
 encodings/roaring/src/boolean/compress.rs | 7 ++++++-
 encodings/roaring/src/integer/compress.rs | 9 +++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/encodings/roaring/src/boolean/compress.rs b/encodings/roaring/src/boolean/compress.rs
index 6a93f21..521715a 100644
--- a/encodings/roaring/src/boolean/compress.rs
+++ b/encodings/roaring/src/boolean/compress.rs
@@ -1,10 +1,15 @@
 use croaring::Bitmap;
 use vortex::array::BoolArray;
-use vortex_error::VortexResult;
+use vortex::ArrayDType;
+use vortex_error::{vortex_bail, VortexResult};
 
 use crate::RoaringBoolArray;
 
 pub fn roaring_bool_encode(bool_array: BoolArray) -> VortexResult<RoaringBoolArray> {
+    if bool_array.dtype().is_nullable() {
+        vortex_bail!("RoaringBool can not hold nulls")
+    }
+
     let mut bitmap = Bitmap::new();
     bitmap.extend(bool_array.boolean_buffer().set_indices().map(|i| i as u32));
     bitmap.run_optimize();
diff --git a/encodings/roaring/src/integer/compress.rs b/encodings/roaring/src/integer/compress.rs
index 47faea2..7038419 100644
--- a/encodings/roaring/src/integer/compress.rs
+++ b/encodings/roaring/src/integer/compress.rs
@@ -1,12 +1,17 @@
 use croaring::Bitmap;
 use num_traits::NumCast;
 use vortex::array::PrimitiveArray;
+use vortex::ArrayDType;
 use vortex_dtype::{NativePType, PType};
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::RoaringIntArray;
 
 pub fn roaring_int_encode(parray: PrimitiveArray) -> VortexResult<RoaringIntArray> {
+    if parray.dtype().is_nullable() {
+        vortex_bail!("RoaringInt can not hold nulls")
+    }
+
     match parray.ptype() {
         PType::U8 => roaring_encode_primitive::<u8>(parray.maybe_null_slice()),
         PType::U16 => roaring_encode_primitive::<u16>(parray.maybe_null_slice()),
@@ -19,6 +24,10 @@ pub fn roaring_int_encode(parray: PrimitiveArray) -> VortexResult<RoaringIntArra
 fn roaring_encode_primitive<T: NumCast + NativePType>(
     values: &[T],
 ) -> VortexResult<RoaringIntArray> {
+    if values.windows(2).any(|w| w[0] >= w[1]) {
+        vortex_bail!("RoaringInt can only hold values in strictly ascending order")
+    }
+
     let mut bitmap = Bitmap::new();
     bitmap.extend(
         values
-- 
2.43.0


From 1db45b34c750a8ec2e3333f470ce17fea8ca21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 129/138] fix: logical validity of any boolean array

---
 vortex-array/src/validity.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index de232be..e92a53c 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -6,9 +6,7 @@ use std::ops::BitAnd;
 use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, NullBuffer};
 use serde::{Deserialize, Serialize};
 use vortex_dtype::{DType, Nullability};
-use vortex_error::{
-    vortex_bail, vortex_err, vortex_panic, VortexError, VortexExpect as _, VortexResult,
-};
+use vortex_error::{vortex_bail, vortex_panic, VortexError, VortexExpect as _, VortexResult};
 
 use crate::array::BoolArray;
 use crate::compute::unary::scalar_at_unchecked;
@@ -327,10 +325,11 @@ impl LogicalValidity {
             vortex_bail!("Expected a non-nullable boolean array");
         }
 
-        let true_count = array
-            .statistics()
-            .compute_true_count()
-            .ok_or_else(|| vortex_err!("Failed to compute true count from validity array"))?;
+        // Not every encoding computes statistics, and there are none of an empty array
+        let true_count = match array.statistics().compute_true_count() {
+            Some(true_count) => true_count,
+            None => array.clone().into_bool()?.boolean_buffer().count_set_bits(),
+        };
         if true_count == array.len() {
             return Ok(Self::AllValid(array.len()));
         } else if true_count == 0 {
-- 
2.43.0


From 187ecc87dd7f092bb9716f48fa13b26c7077aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 130/138] fix: delta encoding signed integers is an error

---
 encodings/fastlanes/src/delta/compress.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index 3a9f69f..98c1286 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -7,11 +7,18 @@ use vortex::compute::SliceFn;
 use vortex::validity::Validity;
 use vortex::IntoArrayVariant;
 use vortex_dtype::{match_each_unsigned_integer_ptype, NativePType, Nullability};
-use vortex_error::VortexResult;
+use vortex_error::{vortex_bail, VortexResult};
 
 use crate::DeltaArray;
 
 pub fn delta_compress(array: &PrimitiveArray) -> VortexResult<(PrimitiveArray, PrimitiveArray)> {
+    if !array.ptype().is_unsigned_int() {
+        vortex_bail!(
+            "Delta can only encode unsigned integers, got {}",
+            array.ptype()
+        )
+    }
+
     // Fill forward nulls
     let filled = fill_forward(array.as_ref())?.into_primitive()?;
 
-- 
2.43.0


From c71e833950b1c59d2e9c22a42558b6d599c72d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 131/138] fix: inverting a nullable constant keeps its type

---
 vortex-array/src/array/constant/variants.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 445f941..310a297 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -57,7 +57,11 @@ impl BoolArrayTrait for ConstantArray {
         let value = self.scalar_value().as_bool()?;
         match value {
             None => Ok(self.clone().into_array()),
-            Some(b) => Ok(ConstantArray::new(!b, self.len()).into_array()),
+            Some(b) => Ok(ConstantArray::new(
+                Scalar::bool(!b, self.dtype().nullability()),
+                self.len(),
+            )
+            .into_array()),
         }
     }
 
-- 
2.43.0


From b65f344bff56c74c5859964441124ee1a2042abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 132/138] fix: filters on columns after a struct column use the
 right column

---
 pyvortex/python/vortex/substrait.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyvortex/python/vortex/substrait.py b/pyvortex/python/vortex/substrait.py
index e2eeac4..6a06d79 100644
--- a/pyvortex/python/vortex/substrait.py
+++ b/pyvortex/python/vortex/substrait.py
@@ -84,14 +84,31 @@ def field_reference(substrait_object, schema: NamedStruct) -> expr.Expr:
             segments = reference_segment(substrait_object.direct_reference)
             if len(segments) == 0 or len(segments) > 1:
                 raise NotImplementedError
-            arrow_field_name = schema.names[segments[0]]
-            return expr.column(arrow_field_name)
+            return expr.column(top_level_names(schema)[segments[0]])
         case "masked_reference":
             raise NotImplementedError
         case reference_type:
             raise ValueError(f"unknown reference_type {reference_type}")
 
 
+def top_level_names(schema: NamedStruct) -> list[str]:
+    # NB: The names are listed depth-first, those of the fields of a struct follow the one of the struct.
+    #
+    # https://github.com/substrait-io/substrait/blob/main/proto/substrait/type.proto#L260
+    names = []
+    position = 0
+    for field_type in schema.struct.types:
+        names.append(schema.names[position])
+        position += 1 + nested_name_count(field_type)
+    return names
+
+
+def nested_name_count(substrait_type) -> int:
+    if substrait_type.WhichOneof("kind") != "struct":
+        return 0
+    return sum(1 + nested_name_count(field_type) for field_type in substrait_type.struct.types)
+
+
 def reference_segment(substrait_object) -> list[int]:
     # NB: The field ids are returned in reverse order i.e. [deepest, next_deepest, ..., top_level]
     #
-- 
2.43.0


From 4a6ccf5dd0f616bab4010c428368cb9589e142e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 133/138] fix: refuse negation in pyarrow filters

---
 pyvortex/python/vortex/substrait.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvortex/python/vortex/substrait.py b/pyvortex/python/vortex/substrait.py
index 6a06d79..9accf32 100644
--- a/pyvortex/python/vortex/substrait.py
+++ b/pyvortex/python/vortex/substrait.py
@@ -169,7 +169,8 @@ def extension_function(
                 case "xor":
                     return operator.__xor__
                 case "not":
-                    return operator.__not__
+                    # NB: operator.__not__ yields a Python bool, not an expression.
+                    raise NotImplementedError
                 case name:
                     raise NotImplementedError(f"Function name {name} not supported")
         case "https://github.com/substrait-io/substrait/blob/main/extensions/functions_comparison.yaml":
-- 
2.43.0


From b89a58a6a0cc932cb65d09dc3fee204040a9eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:45 +0000
Subject: [PATCH 134/138] fix: the roaring compressor leaves integers alone
 whose maximum is not known

---
 vortex-sampling-compressor/src/compressors/roaring_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-sampling-compressor/src/compressors/roaring_int.rs b/vortex-sampling-compressor/src/compressors/roaring_int.rs
index 7f8b1d5..ee09b77 100644
--- a/vortex-sampling-compressor/src/compressors/roaring_int.rs
+++ b/vortex-sampling-compressor/src/compressors/roaring_int.rs
@@ -36,7 +36,8 @@ impl EncodingCompressor for RoaringIntCompressor {
             return None;
         }
 
-        if array.statistics().compute_max().unwrap_or(0) > u32::MAX as usize {
+        // Not every encoding knows its maximum
+        if array.statistics().compute_max::<usize>()? > u32::MAX as usize {
             return None;
         }
 
-- 
2.43.0


From 535f76a4e96d9f16378877af0cd69bcc814492c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:29 +0000
Subject: [PATCH 135/138] fix: refuse to take positions that an array does not
 have

---
 vortex-array/src/compute/take.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/compute/take.rs b/vortex-array/src/compute/take.rs
index c7fa05f..e85b7a8 100644
--- a/vortex-array/src/compute/take.rs
+++ b/vortex-array/src/compute/take.rs
@@ -1,7 +1,9 @@
 use log::info;
+use num_traits::ToPrimitive;
+use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
-use crate::{Array, ArrayDType as _, IntoCanonical as _};
+use crate::{Array, ArrayDType as _, IntoArrayVariant as _, IntoCanonical as _};
 
 pub trait TakeFn {
     fn take(&self, indices: &Array) -> VortexResult<Array>;
@@ -18,6 +20,8 @@ pub fn take(array: impl AsRef<Array>, indices: impl AsRef<Array>) -> VortexResul
         );
     }
 
+    check_bounds(indices, array.len())?;
+
     array.with_dyn(|a| {
         if let Some(take) = a.take() {
             return take.take(indices);
@@ -32,3 +36,19 @@ pub fn take(array: impl AsRef<Array>, indices: impl AsRef<Array>) -> VortexResul
         })
     })
 }
+
+/// Check that all indices are positions within an array of the given length.
+fn check_bounds(indices: &Array, len: usize) -> VortexResult<()> {
+    let indices = indices.clone().into_primitive()?;
+    let out_of_bounds = match_each_integer_ptype!(indices.ptype(), |$I| {
+        indices
+            .maybe_null_slice::<$I>()
+            .iter()
+            .find(|i| !i.to_usize().is_some_and(|i| i < len))
+            .map(|i| i.to_string())
+    });
+    match out_of_bounds {
+        None => Ok(()),
+        Some(i) => vortex_bail!(InvalidArgument: "Index {} out of bounds from 0 to {}", i, len),
+    }
+}
-- 
2.43.0


From a05394b062b119abaa5949581e7bb7fe60aeadf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:10 +0000
Subject: [PATCH 136/138] fix: taking rows beyond the end of a stream is an
 error

---
 vortex-array/src/stream/take_rows.rs         | 14 ++++++++++++--
 vortex-serde/src/chunked_reader/take_rows.rs |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index 9e8a514..0601638 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -4,10 +4,10 @@ use std::task::{Context, Poll};
 use futures_util::{ready, Stream};
 use pin_project::pin_project;
 use vortex_dtype::{DType, PType};
-use vortex_error::{vortex_bail, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::compute::unary::{subtract_scalar, try_cast};
+use crate::compute::unary::{scalar_at, subtract_scalar, try_cast};
 use crate::compute::{search_sorted, slice, take, SearchSortedSide};
 use crate::stats::{ArrayStatistics, Stat};
 use crate::stream::ArrayStream;
@@ -104,6 +104,16 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
             return Poll::Ready(take(&batch, &shifted_arr).map(Some).transpose());
         }
 
+        let last = u64::try_from(&scalar_at(&*this.indices, this.indices.len() - 1)?)?;
+        let num_rows = *this.row_offset;
+        if last >= num_rows as u64 {
+            // There is nothing left to take after the error.
+            *this.indices = slice(&*this.indices, 0, 0)?;
+            return Poll::Ready(Some(Err(vortex_err!(
+                InvalidArgument: "Index {} out of bounds from 0 to {}", last, num_rows
+            ))));
+        }
+
         Poll::Ready(None)
     }
 }
diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index a7578bb..3bdbd67 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -138,7 +138,7 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
         let indices_start =
             search_sorted(indices, row_range.start, SearchSortedSide::Left)?.to_index();
         let indices_stop =
-            search_sorted(indices, row_range.end, SearchSortedSide::Right)?.to_index();
+            search_sorted(indices, row_range.end, SearchSortedSide::Left)?.to_index();
         let relative_indices = slice(indices, indices_start, indices_stop)?;
         let row_start_scalar = Scalar::from(row_range.start).cast(relative_indices.dtype())?;
         let relative_indices = subtract_scalar(&relative_indices, &row_start_scalar)?;
-- 
2.43.0


From f8ca82bf1cbfbb62aff3f1b060362fe3a5f7c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:23 +0000
Subject: [PATCH 137/138] fix: a scan ends with its first error

---
 vortex-serde/src/layouts/read/stream.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index dddcaa1..dcc990b 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -89,6 +89,17 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
     type Item = VortexResult<Array>;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        let next = ready!(self.poll_batch(cx));
+        // Whatever failed would fail again, or leave out rows
+        if let Some(Err(_)) = next {
+            self.state = StreamingState::Error;
+        }
+        Poll::Ready(next)
+    }
+}
+
+impl<R: VortexReadAt + Unpin + Send + 'static> LayoutBatchStream<R> {
+    fn poll_batch(&mut self, cx: &mut Context<'_>) -> Poll<Option<VortexResult<Array>>> {
         loop {
             match &mut self.state {
                 StreamingState::Init => {
@@ -185,9 +196,7 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
             }
         }
     }
-}
 
-impl<R: VortexReadAt + Unpin + Send + 'static> LayoutBatchStream<R> {
     pub async fn read_all(self) -> VortexResult<Array> {
         let dtype = self.schema().clone().into();
         let vecs: Vec<Array> = self.try_collect().await?;
-- 
2.43.0


From d47f2cc4b2252c7ae3366d14760bfe2bbc930073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:01 +0000
Subject: [PATCH 138/138] fix: arrays without rows report no minimum and
 maximum

---
 encodings/roaring/src/boolean/mod.rs   | 15 +++++++++------
 vortex-array/src/array/constant/mod.rs | 11 +++++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index 1873b4a..e0ff270 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -44,12 +44,7 @@ impl RoaringBoolArray {
             vortex_bail!("RoaringBoolArray bitmap has bits beyond length {}", length)
         } else {
             let roaring_stats = bitmap.statistics();
-            let stats = StatsSet::from(HashMap::from([
-                (
-                    Stat::Min,
-                    (roaring_stats.cardinality == length as u64).into(),
-                ),
-                (Stat::Max, (roaring_stats.cardinality > 0).into()),
+            let mut stats = StatsSet::from(HashMap::from([
                 (
                     Stat::IsConstant,
                     (roaring_stats.cardinality == length as u64 || roaring_stats.cardinality == 0)
@@ -57,6 +52,14 @@ impl RoaringBoolArray {
                 ),
                 (Stat::TrueCount, roaring_stats.cardinality.into()),
             ]));
+            // Without any row there is neither a minimum nor a maximum
+            if length > 0 {
+                stats.set(
+                    Stat::Min,
+                    (roaring_stats.cardinality == length as u64).into(),
+                );
+                stats.set(Stat::Max, (roaring_stats.cardinality > 0).into());
+            }
 
             Ok(Self {
                 typed: TypedArray::try_from_parts(
diff --git a/vortex-array/src/array/constant/mod.rs b/vortex-array/src/array/constant/mod.rs
index 4adb816..48ff1ce 100644
--- a/vortex-array/src/array/constant/mod.rs
+++ b/vortex-array/src/array/constant/mod.rs
@@ -41,13 +41,16 @@ impl ConstantArray {
         let scalar = scalar.into();
         // TODO(aduffy): add stats for bools, ideally there should be a
         //  StatsSet::constant(Scalar) constructor that does this for us, like StatsSet::nulls.
-        let stats = StatsSet::from(HashMap::from([
-            (Stat::Max, scalar.clone()),
-            (Stat::Min, scalar.clone()),
+        let mut stats = StatsSet::from(HashMap::from([
             (Stat::IsConstant, true.into()),
             (Stat::IsSorted, true.into()),
-            (Stat::RunCount, 1.into()),
         ]));
+        // Without any row the scalar is not among the values
+        if length > 0 {
+            stats.set(Stat::Max, scalar.clone());
+            stats.set(Stat::Min, scalar.clone());
+            stats.set(Stat::RunCount, 1.into());
+        }
 
         Self::try_from_parts(
             scalar.dtype().clone(),
-- 
2.43.0

