From 55d176a91b5da0fdfbe292d192700fe96ca76042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 01/61] fix: VectorBuffer::from_iter must not treat the
 size_hint upper bound as the number of points

---
 pasture-core/src/containers/point_buffer.rs | 45 ++++++---------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..053a1ec 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -851,38 +851,19 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
-        if let Some(known_length) = maybe_known_length {
-            let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
-            let storage = vec![0; num_bytes];
-            let mut buffer = Self {
-                point_layout,
-                storage,
-                length: known_length,
-            };
-            // Overwrite the preallocated memory of the buffer with the points in the iterator:
-            iter.enumerate().for_each(|(index, point)| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we created `buffer` from `T::layout()`, so we know the layouts match
-                unsafe {
-                    buffer.set_point(index, point_bytes);
-                }
-            });
-            buffer
-        } else {
-            let mut buffer = Self {
-                point_layout,
-                storage: Default::default(),
-                length: 0,
-            };
-            iter.for_each(|point| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we know that `buffer` has the same layout as `T`
-                unsafe {
-                    buffer.push_points(point_bytes);
-                }
-            });
-            buffer
+        // `size_hint` only gives bounds on the number of points, so it may only be used for preallocating memory
+        let (min_length, _) = iter.size_hint();
+        let num_bytes = min_length * point_layout.size_of_point_entry() as usize;
+        let mut storage = Vec::with_capacity(num_bytes);
+        let mut length = 0;
+        iter.for_each(|point| {
+            storage.extend_from_slice(bytemuck::bytes_of(&point));
+            length += 1;
+        });
+        Self {
+            point_layout,
+            storage,
+            length,
         }
     }
 }
-- 
2.43.0


From f24be731f9e30665c993b0258d6414c5ebbb22bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 02/61] fix: appending points of an empty PointLayout must
 count them and must not divide by zero

---
 pasture-core/src/containers/point_buffer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 053a1ec..d7f0da7 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -772,6 +772,10 @@ where
         unsafe {
             self.push_points(other.get_point_range_ref(0..other.len()));
         }
+        // Points of an empty `PointLayout` have no bytes, so `push_points` can't know how many points there are
+        if self.point_layout.size_of_point_entry() == 0 {
+            self.length += other.len();
+        }
     }
 
     fn append_columnar<'b, B: ColumnarBuffer<'b>>(&mut self, other: &'_ B) {
@@ -1259,6 +1263,10 @@ where
 {
     unsafe fn push_points(&mut self, point_bytes: &[u8]) {
         let point_size = self.point_layout.size_of_point_entry() as usize;
+        if point_size == 0 {
+            assert_eq!(0, point_bytes.len());
+            return;
+        }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
         for attribute in self.point_layout.attributes() {
@@ -1296,6 +1304,10 @@ where
         unsafe {
             self.push_points(other.get_point_range_ref(0..other.len()));
         }
+        // Points of an empty `PointLayout` have no bytes, so `push_points` can't know how many points there are
+        if self.point_layout.size_of_point_entry() == 0 {
+            self.length += other.len();
+        }
     }
 
     fn append_columnar<'b, B: ColumnarBuffer<'b>>(&mut self, other: &'_ B) {
-- 
2.43.0


From 9ab988d91366f1f5aeab0f2ac5edbd5cc644da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 03/61] fix: mutable buffer slices must check indices against
 the length of the slice

---
 pasture-core/src/containers/slice.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..9ea10ac 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,18 +219,11 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
-        local_index + self.point_range.start
+        get_and_check_global_point_index(local_index, &self.point_range)
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
-        if local_range.start >= local_range.end {
-            // Doesn't matter what range we return, as long as it is empty
-            self.point_range.end..self.point_range.end
-        } else {
-            (local_range.start + self.point_range.start)..(local_range.end + self.point_range.start)
-        }
+        get_and_check_global_point_range(local_range, &self.point_range)
     }
 }
 
-- 
2.43.0


From 57555f190820a471af8f729ad5f22a231b698db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 04/61] fix: slicing a buffer slice must accept ranges that end
 at the end of the slice

---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 9ea10ac..25c21cc 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -417,8 +417,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -437,8 +437,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From 14cbeda8246c8bf6d71e9080fc4e489b0b91654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 05/61] fix: point and attribute iterators must stay exhausted
 after nth() beyond the end

---
 pasture-core/src/containers/attribute_iterators.rs | 12 ++++++------
 pasture-core/src/containers/point_iterators.rs     | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..8729d9a 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -36,7 +36,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.buffer.len() {
+        if self.current_index >= self.buffer.len() {
             None
         } else {
             let mut attribute = T::zeroed();
@@ -55,7 +55,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -87,7 +87,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.attribute_data.len() {
+        if self.current_index >= self.attribute_data.len() {
             None
         } else {
             let ret = &self.attribute_data[self.current_index];
@@ -97,7 +97,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -129,7 +129,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.attribute_data.len() {
+        if self.current_index >= self.attribute_data.len() {
             None
         } else {
             unsafe {
@@ -141,7 +141,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..20c9fef 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -30,7 +30,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.buffer.len() {
+        if self.current_index >= self.buffer.len() {
             None
         } else {
             let mut point = T::zeroed();
@@ -42,7 +42,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -70,7 +70,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.point_data.len() {
+        if self.current_index >= self.point_data.len() {
             None
         } else {
             let point = &self.point_data[self.current_index];
@@ -80,7 +80,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -111,7 +111,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.point_data.len() {
+        if self.current_index >= self.point_data.len() {
             None
         } else {
             unsafe {
@@ -123,7 +123,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From 2a2283d3c4cbf2421f16942f3d4f2c9514610a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 06/61] fix: iterating over and sorting empty buffers must not
 panic

---
 .../src/containers/attribute_iterators.rs        | 16 ++++++++++++++--
 pasture-core/src/containers/buffer_views.rs      |  4 ++++
 pasture-core/src/containers/point_iterators.rs   | 16 ++++++++++++++--
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index 8729d9a..4ce0727 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -76,8 +76,14 @@ impl<'a, T: PrimitiveType> AttributeIteratorByRef<'a, T> {
         'b: 'a,
     {
         let attribute_memory = buffer.get_attribute_range_ref(attribute, 0..buffer.len());
+        // The memory of an empty buffer is not necessarily aligned for `T`
+        let attribute_data: &[T] = if attribute_memory.is_empty() {
+            &[]
+        } else {
+            bytemuck::cast_slice(attribute_memory)
+        };
         Self {
-            attribute_data: bytemuck::cast_slice(attribute_memory),
+            attribute_data,
             current_index: 0,
         }
     }
@@ -118,8 +124,14 @@ impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
         'b: 'a,
     {
         let attribute_memory = buffer.get_attribute_range_mut(attribute, 0..buffer.len());
+        // The memory of an empty buffer is not necessarily aligned for `T`
+        let attribute_data: &mut [T] = if attribute_memory.is_empty() {
+            &mut []
+        } else {
+            bytemuck::cast_slice_mut(attribute_memory)
+        };
         Self {
-            attribute_data: bytemuck::cast_slice_mut(attribute_memory),
+            attribute_data,
             current_index: 0,
         }
     }
diff --git a/pasture-core/src/containers/buffer_views.rs b/pasture-core/src/containers/buffer_views.rs
index b44ed20..dd91407 100644
--- a/pasture-core/src/containers/buffer_views.rs
+++ b/pasture-core/src/containers/buffer_views.rs
@@ -235,6 +235,10 @@ impl<'a, 'b, B: InterleavedBufferMut<'a>, T: PointType> PointViewMut<'a, 'b, B,
 
     /// Sorts the point buffer using the given `comparator` function
     pub fn sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, comparator: F) {
+        if self.buffer.is_empty() {
+            // The memory of an empty buffer is not necessarily aligned for `T`
+            return;
+        }
         let typed_points: &mut [T] =
             bytemuck::cast_slice_mut(self.buffer.get_point_range_mut(0..self.buffer.len()));
         typed_points.sort_by(comparator);
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index 20c9fef..fcc152b 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -59,8 +59,14 @@ where
 {
     fn from(value: &'a B) -> Self {
         let points_memory = value.get_point_range_ref(0..value.len());
+        // The memory of an empty buffer is not necessarily aligned for `T`
+        let point_data: &[T] = if points_memory.is_empty() {
+            &[]
+        } else {
+            bytemuck::cast_slice(points_memory)
+        };
         Self {
-            point_data: bytemuck::cast_slice(points_memory),
+            point_data,
             current_index: 0,
         }
     }
@@ -99,8 +105,14 @@ where
 {
     fn from(value: &'a mut B) -> Self {
         let memory_for_all_points = value.get_point_range_mut(0..value.len());
+        // The memory of an empty buffer is not necessarily aligned for `T`
+        let point_data: &mut [T] = if memory_for_all_points.is_empty() {
+            &mut []
+        } else {
+            bytemuck::cast_slice_mut(memory_for_all_points)
+        };
         Self {
-            point_data: bytemuck::cast_slice_mut(memory_for_all_points),
+            point_data,
             current_index: 0,
             _phantom: Default::default(),
         }
-- 
2.43.0


From b451656435c5c75b679d06ffb474f85d597a408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 07/61] fix: HashMapBufferAttributePusher::done must reject
 attributes that were pushed more than once

---
 pasture-core/src/containers/point_buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index d7f0da7..6de03b1 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -936,12 +936,12 @@ impl<'a> HashMapBufferAttributePusher<'a> {
             return;
         }
 
-        // Check that all attributes are complete! We don't have to check the exact size of the vectors,
-        // as this is checked in `push_attribute_range`, it is sufficient to verify that no vector is empty
+        // Check that all attributes are complete! `push_attribute_range` might have been called never, or more than
+        // once for an attribute, so we have to check the exact size of the data
         assert!(self
             .attributes_storage
-            .values()
-            .all(|vector| !vector.is_empty()));
+            .iter()
+            .all(|(attribute, data)| data.len() == num_new_points * attribute.size() as usize));
 
         for (attribute, mut data) in self.attributes_storage {
             // Can safely unwrap, because self.attributes_storage was initialized from the `PointLayout` of the buffer!
-- 
2.43.0


From 927833823dc739619d84782ddba9e70dc13d3e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 08/61] fix: layouts built with FieldAlignment::Packed(N) must
 have the alignment and size of a repr(packed(N)) type

---
 pasture-core/src/layout/point_layout.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 97bd11a..c32732f 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -826,9 +826,13 @@ impl PointLayout {
                 current_max_alignment,
                 point_attribute.datatype().min_alignment(),
             ),
-            FieldAlignment::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, current_max_alignment)
-            }
+            FieldAlignment::Packed(max_alignment) => std::cmp::min(
+                max_alignment,
+                std::cmp::max(
+                    current_max_alignment,
+                    point_attribute.datatype().min_alignment(),
+                ),
+            ),
         };
 
         self.attributes
-- 
2.43.0


From 1976f539add5c158370ddd1c7a3d5e225961d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 09/61] fix: add_attribute must not overlap attributes that are
 stored out of memory order

---
 pasture-core/src/layout/point_layout.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index c32732f..40ca14b 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1012,14 +1012,13 @@ impl PointLayout {
     /// Returns the offset of the next field that could be added to this `PointLayout`, without any alignment
     /// requirements
     fn packed_offset_of_next_field(&self) -> u64 {
-        if self.attributes.is_empty() {
-            0
-        } else {
-            // If there are previous attributes, the offset to this attribute is equal to the offset
-            // to the previous attribute plus the previous attribute's size
-            let last_attribute = self.attributes.last().unwrap();
-            last_attribute.offset() + last_attribute.size()
-        }
+        // The attributes are not necessarily stored in order of their offsets (see `from_members_and_alignment`), so
+        // the next field has to come after the attribute that ends last
+        self.attributes
+            .iter()
+            .map(|attribute| attribute.offset() + attribute.size())
+            .max()
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From d8917847fa697cae0e60d6525e42f080061915dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 10/61] fix: RawPointConverter must copy attributes whose
 datatypes are equal

---
 .../src/layout/conversion/attribute_conversion.rs   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..934cbf6 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -74,10 +74,15 @@ impl RawPointConverter {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
-                let conversion_fn = get_converter_for_attributes(
-                    from_attribute.attribute_definition(),
-                    to_attribute.attribute_definition(),
-                );
+                // Attributes with equal datatypes need no conversion, but their values still have to be copied
+                let conversion_fn = if from_attribute.datatype() == to_attribute.datatype() {
+                    Some(convert_unit as AttributeConversionFn)
+                } else {
+                    get_converter_for_attributes(
+                        from_attribute.attribute_definition(),
+                        to_attribute.attribute_definition(),
+                    )
+                };
                 conversion_fn.map(|conversion_fn| {
                     RawAttributeConverter::new(
                         conversion_fn,
-- 
2.43.0


From d7af8706402b3980467a2182bbcae158bd2d53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 11/61] fix: derive(PointType) must consider all repr
 attributes of a type

---
 pasture-derive/src/layout.rs | 82 +++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index d33a1f1..80aa085 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -98,47 +98,53 @@ pub(crate) fn get_struct_member_layout(
     struct_attributes: &[Attribute],
     data_struct: &DataStruct,
 ) -> Result<StructMemberLayout> {
-    // Do we have a #[repr(...)] attribute?
-    let maybe_repr_attribute = struct_attributes.iter().find(|a| is_repr_attribute(a));
-    if maybe_repr_attribute.is_none() {
-        //return Ok(StructMemberLayout::Rust);
-        return Err(Error::new_spanned(data_struct.struct_token, "derive(PointType) is only valid for structs that are either #[repr(C)] or #[repr(packed)]"));
-    }
-
-    let repr_attribute = maybe_repr_attribute.unwrap();
-    let attribute_as_meta = repr_attribute.parse_meta()?;
-
-    match &attribute_as_meta {
-        syn::Meta::List(list) => {
-            // There are several possible arguments for #[repr] on structs:
-            // - C
-            // - transparent (on single-value structs)
-            // - packed
-            // - packed(N)
-            // - align(N)
-            // Several combinations of those are possible! So first we look for either
-            // the 'C' or 'packed'/'packed(N)' arguments
+    // Do we have #[repr(...)] attributes? There might be more than one, in which case all their arguments apply
+    let repr_attributes = struct_attributes
+        .iter()
+        .filter(|a| is_repr_attribute(a))
+        .collect::<Vec<_>>();
+    let first_repr_attribute = match repr_attributes.first() {
+        Some(attribute) => *attribute,
+        //None => return Ok(StructMemberLayout::Rust),
+        None => return Err(Error::new_spanned(data_struct.struct_token, "derive(PointType) is only valid for structs that are either #[repr(C)] or #[repr(packed)]")),
+    };
 
-            let maybe_packed = list.nested.iter().find(|arg| arg_is_packed(arg));
-            if let Some(packed_arg) = maybe_packed {
-                let packing = get_packing_from_arg(packed_arg)?;
-                return Ok(StructMemberLayout::Packed(packing));
+    let mut repr_args = vec![];
+    for repr_attribute in repr_attributes.iter() {
+        match repr_attribute.parse_meta()? {
+            syn::Meta::List(list) => repr_args.extend(list.nested),
+            _ => {
+                return Err(Error::new_spanned(
+                    repr_attribute,
+                    "Could not parse repr attribute",
+                ))
             }
+        }
+    }
 
-            let maybe_repr_c = list.nested.iter().find(|arg| arg_is_c(arg));
-            if maybe_repr_c.is_some() {
-                return Ok(StructMemberLayout::C);
-            }
+    // There are several possible arguments for #[repr] on structs:
+    // - C
+    // - transparent (on single-value structs)
+    // - packed
+    // - packed(N)
+    // - align(N)
+    // Several combinations of those are possible! So first we look for either
+    // the 'C' or 'packed'/'packed(N)' arguments
 
-            //Ok(StructMemberLayout::Rust)
-            Err(Error::new_spanned(
-                repr_attribute,
-                "Unrecongized repr attribute",
-            ))
-        }
-        _ => Err(Error::new_spanned(
-            repr_attribute,
-            "Could not parse repr attribute",
-        )),
+    let maybe_packed = repr_args.iter().find(|arg| arg_is_packed(arg));
+    if let Some(packed_arg) = maybe_packed {
+        let packing = get_packing_from_arg(packed_arg)?;
+        return Ok(StructMemberLayout::Packed(packing));
     }
+
+    let maybe_repr_c = repr_args.iter().find(|arg| arg_is_c(arg));
+    if maybe_repr_c.is_some() {
+        return Ok(StructMemberLayout::C);
+    }
+
+    //Ok(StructMemberLayout::Rust)
+    Err(Error::new_spanned(
+        first_repr_attribute,
+        "Unrecongized repr attribute",
+    ))
 }
-- 
2.43.0


From c9bdc241abccbf39d930abfd4c18a11d42317a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 12/61] fix: align_to must not overflow for values whose
 aligned value is representable

---
 pasture-core/src/math/arithmetic.rs | 30 +++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/math/arithmetic.rs b/pasture-core/src/math/arithmetic.rs
index 1017a43..6a93898 100644
--- a/pasture-core/src/math/arithmetic.rs
+++ b/pasture-core/src/math/arithmetic.rs
@@ -15,7 +15,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -25,7 +28,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -35,7 +41,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -45,7 +54,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -55,7 +67,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -65,7 +80,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 1353a65c773df3bdf8ac8dad9e957167a4083f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 13/61] fix: convex hulls must recognize points on a line
 exactly

---
 pasture-algorithms/src/convexhull.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 01f2390..a80de7b 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -146,10 +146,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                 first.b = pointid;
             } else {
                 let ac: Vector3<f64> = point - first_a;
-                let ab_norm = ab.normalize();
-                let ac_ab_projected_length = ac.dot(&ab_norm);
-                if f64::abs(ac_ab_projected_length) == ac.magnitude() {
-                    if ac_ab_projected_length >= 0.0 {
+                if ab.cross(&ac) == Vector3::zeros() {
+                    if ac.dot(&ab) >= 0.0 {
                         if ac.magnitude_squared() > ab_mag_sqr {
                             first.b = pointid;
                         }
-- 
2.43.0


From e7f5e7e0dfce0fdc529e75ef12f4a20a0b6a9e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 14/61] fix: convex hulls of points in a plane must not contain
 degenerate triangles or miss corners

---
 pasture-algorithms/src/convexhull.rs | 294 +++++++--------------------
 1 file changed, 72 insertions(+), 222 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index a80de7b..d1f5a2d 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -1,7 +1,7 @@
 use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::{layout::attributes::POSITION_3D, nalgebra::Vector3};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
 use std::hash::{Hash, Hasher};
 use std::usize;
 
@@ -171,7 +171,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
     } else {
         let mut outer_edges = HashSet::new();
         let mut inner_edges = HashSet::new();
-        let mut planar_triangles = Vec::new();
+        let mut planar_triangle_count = 0;
 
         triangles.retain(|tri| {
             let tri_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(tri.a);
@@ -183,7 +183,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                 add_edge_to_outer_or_inner_edges(tri.c, tri.a, &mut outer_edges, &mut inner_edges);
                 return false;
             } else if dot == 0.0 {
-                planar_triangles.push(*tri);
+                planar_triangle_count += 1;
             }
             true
         });
@@ -199,234 +199,84 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                     normal: calc_normal(edge_a, edge_b, point),
                 });
             }
-        } else {
-            // Find all edges of the triangle of which the edge-normal is facing the point.
-            let mut edges_facing_point = Vec::new();
-            let mut edge_triangle_id = Vec::new();
-            let position_view = buffer.view_attribute(&POSITION_3D);
-            for (i, pt) in planar_triangles.iter().enumerate() {
-                let planar_a = position_view.at(pt.a);
-                let planar_b = position_view.at(pt.b);
-                let planar_c = position_view.at(pt.c);
-                let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
-                if dist_ab >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.a, b: pt.b });
-                    edge_triangle_id.push(i);
-                }
-                let dist_bc = dist_point_to_edge(point, planar_b, planar_c, pt.normal);
-                if dist_bc >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.b, b: pt.c });
-                    edge_triangle_id.push(i);
-                }
-                let dist_ca = dist_point_to_edge(point, planar_c, planar_a, pt.normal);
-                if dist_ca >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.c, b: pt.a });
-                    edge_triangle_id.push(i);
-                }
-                if dist_ab < 0.0 && dist_bc < 0.0 && dist_ca < 0.0 {
-                    edges_facing_point.clear();
-                    break;
-                }
-            }
+        } else if planar_triangle_count == triangles.len() {
+            // All points so far lie in one plane: rebuild the two sides of the planar hull.
+            *triangles = create_planar_hull(buffer, pointid, triangles);
+        }
+        // Otherwise the point lies inside of the hull or on its surface.
+    }
+}
 
-            // Remove all edges occluded by other edges.
-            let mut edge_triangle_normals = Vec::new();
-            for i in (0..edges_facing_point.len()).rev() {
-                let edg = edges_facing_point[i];
-                let edg_a: Vector3<f64> = position_view.at(edg.a);
-                let edg_b: Vector3<f64> = position_view.at(edg.b);
-                let dist_edg_a_p = (edg_a - point).magnitude_squared();
-                let dist_edg_b_p = (edg_b - point).magnitude_squared();
-                let dist_edg_p = dist_point_to_line_segment(point, edg_a, edg_b);
-                let edg_triangle_normal: Vector3<f64> =
-                    planar_triangles[edge_triangle_id[i]].normal;
-                let mut remove = false;
-                for other_edge_id in 0..edges_facing_point.len() {
-                    if other_edge_id != i {
-                        let other_edg_triangle_normal =
-                            planar_triangles[edge_triangle_id[other_edge_id]].normal;
-                        if edg_triangle_normal.dot(&other_edg_triangle_normal) > 0.0 {
-                            let other_edg = edges_facing_point[other_edge_id];
-                            let other_edg_a: Vector3<f64> = position_view.at(other_edg.a);
-                            let other_edg_b: Vector3<f64> = position_view.at(other_edg.b);
-                            let point_other_edg_a = other_edg_a - point;
-                            let point_other_edg_b = other_edg_b - point;
-                            let point_other_edg_a_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_a);
-                            let point_other_edg_b_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_b);
-                            let edg_a_other_edg_a = edg_a - other_edg_a;
-                            let edg_a_other_edg_b = edg_a - other_edg_b;
-                            let edg_b_other_edg_a = edg_b - other_edg_a;
-                            let edg_b_other_edg_b = edg_b - other_edg_b;
-                            let ea_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_a_other_edg_a);
-                            let eb_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_b_other_edg_a);
-                            let ea_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_a_other_edg_b);
-                            let eb_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_b_other_edg_b);
-                            if ea_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_a_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if eb_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_b_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if (ea_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0)
-                                || (eb_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0)
-                            {
-                                let dist_other_edg_p =
-                                    dist_point_to_line_segment(point, other_edg_a, other_edg_b);
-                                if dist_edg_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                        }
-                    }
-                }
-                if remove {
-                    edges_facing_point.remove(i);
-                    edge_triangle_id.remove(i);
-                } else {
-                    edge_triangle_normals.insert(0, -edg_triangle_normal);
-                }
-            }
+/// Creates both sides of the hull of points that all lie in the same plane.
+/// `pointid`: index of the point that is added to the hull
+/// `triangles`: the current hull, which covers both sides of a polygon
+fn create_planar_hull<'a, T: BorrowedBuffer<'a>>(
+    buffer: &'a T,
+    pointid: usize,
+    triangles: &[Triangle],
+) -> Vec<Triangle> {
+    let normal = triangles[0].normal;
+    let mut vertices: Vec<usize> = triangles.iter().flat_map(|t| [t.a, t.b, t.c]).collect();
+    vertices.sort_unstable();
+    vertices.dedup();
+    vertices.push(pointid);
+
+    let position_view = buffer.view_attribute::<Vector3<f64>>(&POSITION_3D);
+    let position = |id: usize| position_view.at(id);
+    // The lexicographically smallest vertex is always a corner of the polygon
+    let mut start = vertices[0];
+    for v in vertices.iter().copied() {
+        if position(v).as_slice() < position(start).as_slice() {
+            start = v;
+        }
+    }
 
-            // Remove all triangles with vertices that are contained in two edges facing point
-            let edgenum = edges_facing_point.len();
-            if edgenum > 2 {
-                let mut edges_to_remove = HashSet::new();
-                let mut vertices_on_one_edge_start = HashMap::new();
-                let mut vertices_on_one_edge_end = HashMap::new();
-                let mut vertices_on_two_edges = HashMap::new();
-                for facing_edge in edges_facing_point.iter() {
-                    let res_a = vertices_on_one_edge_start
-                        .insert(facing_edge.a, (facing_edge.b, *facing_edge));
-                    if let Some(res_a) = res_a {
-                        if res_a.0 != facing_edge.b {
-                            vertices_on_one_edge_start.remove(&facing_edge.a);
-                            vertices_on_two_edges.insert(facing_edge.a, (res_a.1, *facing_edge));
-                        }
-                    }
-                    let res_b = vertices_on_one_edge_end
-                        .insert(facing_edge.b, (facing_edge.a, *facing_edge));
-                    if let Some(res_b) = res_b {
-                        if res_b.0 != facing_edge.a {
-                            vertices_on_one_edge_end.remove(&facing_edge.b);
-                            vertices_on_two_edges.insert(facing_edge.b, (res_b.1, *facing_edge));
-                        }
-                    }
-                }
-                let mut triangles_to_remove = Vec::new();
-                for t_id in 0..triangles.len() {
-                    let tri = triangles.get(t_id).unwrap();
-                    let res_a = vertices_on_two_edges.get(&tri.a);
-                    let res_b = vertices_on_two_edges.get(&tri.b);
-                    let res_c = vertices_on_two_edges.get(&tri.c);
-                    let a_on_two_edges = res_a.is_some();
-                    let b_on_two_edges = res_b.is_some();
-                    let c_on_two_edges = res_c.is_some();
-                    if a_on_two_edges || b_on_two_edges || c_on_two_edges {
-                        triangles_to_remove.push(t_id);
-                        if c_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if b_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if a_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                    }
-                }
-                for t_id_remove in triangles_to_remove.iter().rev() {
-                    triangles.remove(*t_id_remove);
-                }
-                for efp in (0..edges_facing_point.len()).rev() {
-                    if edges_to_remove.contains(edges_facing_point.get(efp).unwrap()) {
-                        edges_facing_point.remove(efp);
-                        edge_triangle_normals.remove(efp);
+    // Wrap the polygon counterclockwise with respect to `normal`
+    let mut corners = vec![start];
+    while corners.len() <= vertices.len() {
+        let current = position(*corners.last().unwrap());
+        let mut next: Option<usize> = None;
+        for v in vertices.iter().copied() {
+            let to_v = position(v) - current;
+            if to_v == Vector3::zeros() {
+                continue;
+            }
+            next = match next {
+                None => Some(v),
+                Some(n) => {
+                    let to_n = position(n) - current;
+                    let side = normal.dot(&to_n.cross(&to_v));
+                    if side < 0.0
+                        || (side == 0.0 && to_v.magnitude_squared() > to_n.magnitude_squared())
+                    {
+                        Some(v)
+                    } else {
+                        Some(n)
                     }
                 }
-            }
-
-            for i in 0..edges_facing_point.len() {
-                let edg = edges_facing_point[i];
-                triangles.push(Triangle {
-                    a: edg.a,
-                    b: edg.b,
-                    c: pointid,
-                    normal: edge_triangle_normals[i],
-                });
-            }
+            };
+        }
+        match next {
+            Some(n) if n != start => corners.push(n),
+            _ => break,
         }
     }
-}
-
-/// Calculates the distance of a point to an edge of a triangle. Assumes the point to be in the same plane as the triangle.
-/// `point`: the point that lies in the same plane as the edge
-/// `edge_a`: first vertex of the edge
-/// `edge_b`: second vertex of the edge
-/// 'triangle_normal': the normal of the triangle the edge belongs to
-fn dist_point_to_edge(
-    point: Vector3<f64>,
-    edge_a: Vector3<f64>,
-    edge_b: Vector3<f64>,
-    triangle_normal: Vector3<f64>,
-) -> f64 {
-    let pa = edge_a - point;
-    let edge_ab: Vector3<f64> = edge_b - edge_a;
-    let edge_ab_normal = triangle_normal.cross(&edge_ab);
-    edge_ab_normal.dot(&pa)
-}
 
-/// Calculates the distance of a point to a line segment.
-/// `point`: the point that lies in the same plane as the edge
-/// `line_a`: first vertex of the line segment
-/// `line_b`: second vertex of the line segment
-fn dist_point_to_line_segment(
-    point: Vector3<f64>,
-    segment_a: Vector3<f64>,
-    segment_b: Vector3<f64>,
-) -> f64 {
-    let ab: Vector3<f64> = segment_b - segment_a;
-    let ap: Vector3<f64> = point - segment_a;
-
-    if ap.dot(&ab) <= 0.0 {
-        return ap.magnitude();
+    if corners.len() < 3 {
+        return triangles.to_vec();
     }
-
-    let bp = point - segment_b;
-    if bp.dot(&ab) >= 0.0 {
-        return bp.magnitude();
+    let mut hull = Vec::new();
+    for i in 1..corners.len() - 1 {
+        let (a, b, c) = (corners[0], corners[i], corners[i + 1]);
+        hull.push(Triangle { a, b, c, normal });
+        hull.push(Triangle {
+            a,
+            b: c,
+            c: b,
+            normal: -normal,
+        });
     }
-
-    ab.cross(&ap).magnitude() / ab.magnitude()
+    hull
 }
 
 /// Adds the given edge to the set of outer edges. If the given edge is already contained in the set of outer edges it is removed and added to the set of inner edges.
-- 
2.43.0


From 4edd3a9abbd89a1f2603488bc04f0a2e52dc57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 15/61] fix: convex hulls must support positions of other
 datatypes and empty buffers

---
 pasture-algorithms/src/convexhull.rs | 50 ++++++++++++++--------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index d1f5a2d..ab57455 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -69,8 +69,7 @@ pub fn convex_hull_as_points<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<us
             points.insert(tri.b);
             points.insert(tri.c);
         }
-    } else {
-        let tri = triangles[0];
+    } else if let Some(tri) = triangles.first() {
         points.insert(tri.a);
         points.insert(tri.b);
         if tri.c != 0 {
@@ -93,25 +92,26 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
         }
     };
 
-    let mut pointid: usize = 0;
-    if position_attribute.datatype() == POSITION_3D.datatype() {
-        for point in buffer.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+    let positions: Vec<Vector3<f64>> = if position_attribute.datatype() == POSITION_3D.datatype() {
+        buffer
+            .view_attribute::<Vector3<f64>>(&POSITION_3D)
+            .into_iter()
+            .collect()
     } else {
-        for point in buffer
+        buffer
             .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
             .expect("Can't convert POSITION_3D attribute")
-        {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+            .into_iter()
+            .collect()
     };
+    for pointid in 0..positions.len() {
+        iteration(&positions, pointid, positions[pointid], &mut triangles);
+    }
     triangles
 }
 
 /// Performs a single iteration of the cunvex hull algorithm.
+/// `positions`: the positions of all points within the buffer
 /// `pointid`: current index within the buffer
 /// `point`: current point to be checked against the convex hull, possibly extends the convex hull
 /// `triangles`: the set of triangles forming the convex hull
@@ -120,8 +120,8 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
 /// If the point lies outside of the current convex hull the hull has to be extended to include the current point.
 /// If 'triangles' contain only one entry: no full triangle has been found yet. In case of linearily dependant points no second triangle is added.
 /// If all 'triangles' are in a plane with 'point' a special triangulation procedure is needed to prevent a degenerated triangle mesh.
-fn iteration<'a, T: BorrowedBuffer<'a>>(
-    buffer: &'a T,
+fn iteration(
+    positions: &[Vector3<f64>],
     pointid: usize,
     point: Vector3<f64>,
     triangles: &mut Vec<Triangle>,
@@ -138,8 +138,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         if pointid == 1 {
             first.b = pointid;
         } else {
-            let first_a = buffer.view_attribute(&POSITION_3D).at(first.a);
-            let first_b = buffer.view_attribute(&POSITION_3D).at(first.b);
+            let first_a = positions[first.a];
+            let first_b = positions[first.b];
             let ab: Vector3<f64> = first_b - first_a;
             let ab_mag_sqr = ab.magnitude_squared();
             if ab_mag_sqr == 0.0 {
@@ -174,7 +174,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         let mut planar_triangle_count = 0;
 
         triangles.retain(|tri| {
-            let tri_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(tri.a);
+            let tri_a: Vector3<f64> = positions[tri.a];
             let pa: Vector3<f64> = tri_a - point;
             let dot = pa.dot(&tri.normal);
             if dot < 0.0 {
@@ -190,8 +190,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
 
         if !outer_edges.is_empty() || !inner_edges.is_empty() {
             for edge in outer_edges.iter() {
-                let edge_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.a);
-                let edge_b: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.b);
+                let edge_a: Vector3<f64> = positions[edge.a];
+                let edge_b: Vector3<f64> = positions[edge.b];
                 triangles.push(Triangle {
                     a: edge.a,
                     b: edge.b,
@@ -201,17 +201,18 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             }
         } else if planar_triangle_count == triangles.len() {
             // All points so far lie in one plane: rebuild the two sides of the planar hull.
-            *triangles = create_planar_hull(buffer, pointid, triangles);
+            *triangles = create_planar_hull(positions, pointid, triangles);
         }
         // Otherwise the point lies inside of the hull or on its surface.
     }
 }
 
 /// Creates both sides of the hull of points that all lie in the same plane.
+/// `positions`: the positions of all points within the buffer
 /// `pointid`: index of the point that is added to the hull
 /// `triangles`: the current hull, which covers both sides of a polygon
-fn create_planar_hull<'a, T: BorrowedBuffer<'a>>(
-    buffer: &'a T,
+fn create_planar_hull(
+    positions: &[Vector3<f64>],
     pointid: usize,
     triangles: &[Triangle],
 ) -> Vec<Triangle> {
@@ -221,8 +222,7 @@ fn create_planar_hull<'a, T: BorrowedBuffer<'a>>(
     vertices.dedup();
     vertices.push(pointid);
 
-    let position_view = buffer.view_attribute::<Vector3<f64>>(&POSITION_3D);
-    let position = |id: usize| position_view.at(id);
+    let position = |id: usize| positions[id];
     // The lexicographically smallest vertex is always a corner of the polygon
     let mut start = vertices[0];
     for v in vertices.iter().copied() {
-- 
2.43.0


From 31b4fe0439753105a4148c8ed623af1ff86914f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 16/61] fix: the voxel grid filter must compute the maximum of
 negative values

---
 pasture-algorithms/src/voxel_grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..dd6a6af 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -169,7 +169,7 @@ fn centroid_max_pool<'a, T: BorrowedBuffer<'a>>(
     attribute_definition: &PointAttributeDefinition,
     point_type: PointAttributeDataType,
 ) -> f64 {
-    let mut curr_max = 0.0;
+    let mut curr_max = f64::NEG_INFINITY;
     let mut value;
     for p in &v.points {
         match point_type {
-- 
2.43.0


From 6eddd9276ec1393f3e95cfec24f1a96cf1c14e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 17/61] fix: the voxel grid filter must not round point IDs

---
 pasture-algorithms/src/voxel_grid.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index dd6a6af..2e221b6 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -659,8 +659,9 @@ fn set_all_attributes<'a, PB: BorrowedBuffer<'a>>(
         } else if a.name() == attributes::POINT_ID.name()
             && a.datatype() == attributes::POINT_ID.datatype()
         {
-            let max =
-                centroid_max_pool::<PB>(v, buffer, &attributes::POINT_ID, a.datatype()) as u64;
+            // IDs can be larger than the integers that `f64` can represent
+            let point_ids = buffer.view_attribute::<u64>(&attributes::POINT_ID);
+            let max = v.points.iter().map(|p| point_ids.at(*p)).max().unwrap();
             let m_slice = bytemuck::bytes_of(&max);
             centroid
                 .set_raw_attribute(&attributes::POINT_ID, m_slice)
-- 
2.43.0


From 21f7bf5e4c14701b2b2f554799dcb499ce35d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 18/61] fix: the voxel grid filter must accept empty buffers

---
 pasture-algorithms/src/voxel_grid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 2e221b6..b48c3ff 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -119,7 +119,11 @@ pub fn voxelgrid_filter<'a, 'b, PB: BorrowedBuffer<'a>, PBW: OwningBuffer<'b>>(
     }
 
     // get the bounding box of the pointcloud
-    let aabb = calculate_bounds(buffer).unwrap();
+    let aabb = match calculate_bounds(buffer) {
+        Some(aabb) => aabb,
+        // There is nothing to filter in an empty buffer
+        None => return,
+    };
 
     // create arrays with all markers of one axis
     let (markers_x, markers_y, markers_z) =
-- 
2.43.0


From 8f8d6631f6dd53727b86903af3bf1341bb49dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 19/61] fix: normal estimation must solve the scaled covariance
 matrix and shift its diagonal

---
 pasture-algorithms/src/normal_estimation.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 3bf9f89..9314541 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -436,15 +436,14 @@ fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
         covariance_matrix_scaled[index] = value / scale;
     }
 
-    let eigen_values = solve_polynomial(covariance_matrix);
+    let eigen_values = solve_polynomial(&covariance_matrix_scaled);
     // undo scale for smallest eigen vector
     let eigen_value = eigen_values[0] * scale;
 
     // subtract the smallest eigen value from the diagonal of the matrix
-    covariance_matrix_scaled
-        .diagonal()
-        .iter_mut()
-        .for_each(|x| *x -= eigen_values[0]);
+    for i in 0..3 {
+        covariance_matrix_scaled[(i, i)] -= eigen_values[0];
+    }
 
     let eigen_vector = get_largest_eigen_vector(&covariance_matrix_scaled);
     (eigen_value, eigen_vector)
-- 
2.43.0


From bf70fd19c9ed8daa8ff69ac7e16aab2394f2ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 20/61] fix: transformed bounds must contain all transformed
 corners

---
 pasture-algorithms/src/reprojection.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 8496ed4..865eea0 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -49,14 +49,22 @@ impl Projection {
     pub fn transform_bounds(&self, bounds: &AABB<f64>) -> AABB<f64> {
         let transformed_min =
             self.transform(Vector3::new(bounds.min().x, bounds.min().y, bounds.min().z));
-        let transformed_max =
-            self.transform(Vector3::new(bounds.max().x, bounds.max().y, bounds.max().z));
 
-        let bounds: AABB<f64> = AABB::from_min_max_unchecked(
+        let mut transformed_bounds: AABB<f64> = AABB::from_min_max_unchecked(
             Point3::from(transformed_min),
             Point3::from(transformed_min),
         );
-        AABB::extend_with_point(&bounds, &Point3::from(transformed_max))
+        // A transformation can swap or rotate axes, so all corners have to be taken into account
+        for x in [bounds.min().x, bounds.max().x] {
+            for y in [bounds.min().y, bounds.max().y] {
+                for z in [bounds.min().z, bounds.max().z] {
+                    let corner = self.transform(Vector3::new(x, y, z));
+                    transformed_bounds =
+                        AABB::extend_with_point(&transformed_bounds, &Point3::from(corner));
+                }
+            }
+        }
+        transformed_bounds
     }
 }
 
-- 
2.43.0


From 770edc7eb92c01a434b8c5aa967ee6dedb04d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 21/61] fix: creating a Projection between invalid reference
 systems must fail

---
 pasture-algorithms/src/reprojection.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 865eea0..65041e5 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -1,6 +1,6 @@
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::math::AABB;
 use pasture_core::nalgebra::{Point3, Vector3};
@@ -27,6 +27,15 @@ impl Projection {
                 std::ptr::null_mut(),
             );
 
+            if projection.is_null() {
+                proj_sys::proj_context_destroy(proj_context);
+                return Err(anyhow!(
+                    "Can't create a projection from {} to {}",
+                    source_crs,
+                    target_crs
+                ));
+            }
+
             Ok(Self {
                 proj_context,
                 projection,
-- 
2.43.0


From 78f74ccc376b776d5aff79fd43e8d85857c15438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 22/61] fix: normal estimation must use the k nearest neighbors
 of each point

---
 pasture-algorithms/src/normal_estimation.rs | 47 ++++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 9314541..60f3b52 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -103,18 +103,18 @@ where
     // iterate over all points in the point cloud and and calculate the k nearest neighbors with the constructed kd tree
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
         let r: &[f64; 3] = point.as_ref();
-        let nearest_points = cloud_as_kd_tree.nearests(r, k_nn);
+        let mut nearest_points = Vec::with_capacity(k_nn.min(point_cloud.len()));
+        find_nearest_points(cloud_as_kd_tree.items(), r, 0, k_nn, &mut nearest_points);
 
         // stores the k nearest neighbors in a PointStorage
         let mut k_nn_buffer =
             HashMapBuffer::with_capacity(nearest_points.len(), point_cloud.point_layout().clone());
         k_nn_buffer.resize(nearest_points.len());
 
-        for (index, point) in nearest_points.iter().enumerate() {
-            k_nn_buffer.view_attribute_mut(&POSITION_3D).set_at(
-                index,
-                Vector3::new(point.item[0], point.item[1], point.item[2]),
-            );
+        for (index, (_, point)) in nearest_points.iter().enumerate() {
+            k_nn_buffer
+                .view_attribute_mut(&POSITION_3D)
+                .set_at(index, Vector3::new(point[0], point[1], point[2]));
         }
 
         // coordinates of the surface normal and curvature
@@ -127,6 +127,41 @@ where
     points_with_normals_curvature
 }
 
+/// finds the k nearest neighbors of `query` in the items of a kd tree, sorted by their squared distance.
+/// `KdTree::nearests` can't be used for this as it skips subtrees even if it found less than k neighbors so far.
+fn find_nearest_points<'t>(
+    items: &'t [[f64; 3]],
+    query: &[f64; 3],
+    axis: usize,
+    k_nn: usize,
+    nearest_points: &mut Vec<(f64, &'t [f64; 3])>,
+) {
+    if items.is_empty() {
+        return;
+    }
+    let mid = items.len() / 2;
+    let item = &items[mid];
+    let distance = (0..3).map(|i| (query[i] - item[i]).powi(2)).sum::<f64>();
+    let position = nearest_points.partition_point(|(other, _)| *other <= distance);
+    if position < k_nn {
+        nearest_points.truncate(k_nn - 1);
+        nearest_points.insert(position, (distance, item));
+    }
+
+    let (near, far) = if query[axis] < item[axis] {
+        (&items[..mid], &items[mid + 1..])
+    } else {
+        (&items[mid + 1..], &items[..mid])
+    };
+    let next_axis = (axis + 1) % 3;
+    find_nearest_points(near, query, next_axis, k_nn, nearest_points);
+    // the other subtree can only be skipped if k neighbors have been found that are all closer
+    let axis_distance = (query[axis] - item[axis]).powi(2);
+    if nearest_points.len() < k_nn || axis_distance < nearest_points[k_nn - 1].0 {
+        find_nearest_points(far, query, next_axis, k_nn, nearest_points);
+    }
+}
+
 /// checks whether a given point cloud has points with coordinates that are Not a Number
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-- 
2.43.0


From b94ef9d9e8a9614ddbbf1966155817adc6af221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 23/61] fix: write the CLASSIFICATION and USER_DATA columns of
 ASCII files from their attributes

---
 pasture-io/src/ascii/raw_writer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 4e8da8c..281bc2e 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -124,15 +124,14 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
                         }
                         PointDataType::Classification => {
                             let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
+                                point.get_attribute::<u64>(&attributes::CLASSIFICATION)?;
                             self.writer
                                 .write_all(classification.to_string().as_bytes())?;
                         }
                         PointDataType::UserData => {
-                            let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
-                            self.writer
-                                .write_all(classification.to_string().as_bytes())?;
+                            let user_data =
+                                point.get_attribute::<u64>(&attributes::USER_DATA)?;
+                            self.writer.write_all(user_data.to_string().as_bytes())?;
                         }
                         PointDataType::ColorR => {
                             let color =
-- 
2.43.0


From bf502d2f279fd74be4b94033678b0b80a67fc4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 24/61] fix: keep trailing zeros of ASCII numbers that are
 written without decimals

---
 pasture-io/src/ascii/raw_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 281bc2e..ff52852 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -209,6 +209,10 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
 }
 
 fn trim_unnecessary_tailing_zeros(slice: &str) -> &str {
+    if !slice.contains('.') {
+        // without decimals all zeros are significant
+        return slice;
+    }
     let start = 0;
     let mut end = slice.len();
     while slice[start..end].ends_with('0') && !slice[start..end].ends_with(".0") {
-- 
2.43.0


From 7a5b751e248df7e188211f456abf4ea03965f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 25/61] fix: export AsciiFormat so that delimiter and precision
 of an AsciiWriter can be set

---
 pasture-io/src/ascii/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/ascii/mod.rs b/pasture-io/src/ascii/mod.rs
index 0e5e047..dfe7ed9 100644
--- a/pasture-io/src/ascii/mod.rs
+++ b/pasture-io/src/ascii/mod.rs
@@ -11,7 +11,8 @@ mod raw_reader;
 pub(crate) use self::raw_reader::*;
 
 mod raw_writer;
-pub(crate) use self::raw_writer::*;
+pub(crate) use self::raw_writer::RawAsciiWriter;
+pub use self::raw_writer::{AsciiFormat, PointWriterFormatting};
 
 mod ascii_format_util;
 pub(crate) use self::ascii_format_util::*;
-- 
2.43.0


From b4828740142c930cd02c2bcb9b15ca38abd77b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 26/61] fix: write all padding bytes of 3D Tiles table headers
 on short writes

---
 pasture-io/src/ascii/raw_reader.rs | 42 ++++++++++++++++++++++++++----
 pasture-io/src/tiles3d/common.rs   |  2 +-
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index a7fdf0c..532dbbe 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -3,7 +3,9 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use itertools::{EitherOrBoth::*, Itertools};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::layout::attributes;
+use pasture_core::layout::conversion::{get_converter_for_attributes, RawPointConverter};
 use pasture_core::layout::PointAttributeDefinition;
+use pasture_core::layout::PointAttributeMember;
 use pasture_core::layout::PointLayout;
 use pasture_core::meta::Metadata;
 use std::collections::HashSet;
@@ -66,6 +68,21 @@ impl<T: Read + BufRead> RawAsciiReader<T> {
         PointLayout::from_attributes(&Vec::from_iter(hashset))
     }
 
+    /// Can the given attribute be stored in points with the `target_layout`?
+    fn can_convert(attribute: &PointAttributeMember, target_layout: &PointLayout) -> bool {
+        match target_layout.get_attribute_by_name(attribute.name()) {
+            Some(target) => {
+                target.datatype() == attribute.datatype()
+                    || get_converter_for_attributes(
+                        attribute.attribute_definition(),
+                        target.attribute_definition(),
+                    )
+                    .is_some()
+            }
+            None => true,
+        }
+    }
+
     fn parse_point(
         point: &mut UntypedPointBuffer,
         line: &str,
@@ -299,20 +316,35 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
     where
         'a: 'b,
     {
-        let layout = point_buffer.point_layout().clone();
-        let mut temp_point = UntypedPointBuffer::new(&layout);
+        let target_layout = point_buffer.point_layout().clone();
+        if let Some(attribute) = self
+            .point_layout
+            .attributes()
+            .find(|attribute| !Self::can_convert(attribute, &target_layout))
+        {
+            bail!(
+                "Attribute {} cannot be converted to the datatype in the PointLayout of the buffer",
+                attribute.attribute_definition()
+            );
+        }
+        let converter = RawPointConverter::from_to(&self.point_layout, &target_layout);
+        let mut temp_point = UntypedPointBuffer::new(&self.point_layout);
+        let mut target_point = vec![0; target_layout.size_of_point_entry() as usize];
+        let mut points_read = 0;
         //read line by line
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
             let line = line?;
             //parse the line in an untypedpoint
             Self::parse_point(&mut temp_point, &line, &self.delimiter, &self.parse_layout)
                 .with_context(|| format!("ReadError in line {}.", index))?;
-            //put it in the buffer
+            //convert it to the layout of the buffer and put it in the buffer
             unsafe {
-                point_buffer.set_point(index, temp_point.get_buffer());
+                converter.convert(temp_point.get_buffer(), &mut target_point);
+                point_buffer.set_point(index, &target_point);
             }
+            points_read += 1;
         }
-        Ok(count)
+        Ok(points_read)
     }
 
     fn get_default_point_layout(&self) -> &PointLayout {
diff --git a/pasture-io/src/tiles3d/common.rs b/pasture-io/src/tiles3d/common.rs
index 3a885c1..462b927 100644
--- a/pasture-io/src/tiles3d/common.rs
+++ b/pasture-io/src/tiles3d/common.rs
@@ -46,7 +46,7 @@ pub fn write_json_header<W: Write>(
 
     if num_padding_bytes > 0 {
         writer
-            .write(&vec![0x20; num_padding_bytes])
+            .write_all(&vec![0x20; num_padding_bytes])
             .context("Could not write padding bytes of JSON header to writer")?;
     }
 
-- 
2.43.0


From 403d8d4d6456bdb3c728f83a9a9b6de7481ae162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 27/61] fix: write the complete tables of a .pnts file on short
 writes

---
 pasture-io/src/tiles3d/pnts_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 18bdfd9..cb2ed7b 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -214,11 +214,11 @@ impl<W: Write + Seek> PntsWriter<W> {
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
-            .write(feature_table_blob.as_slice())
+            .write_all(feature_table_blob.as_slice())
             .context("Error while writing FeatureTable header")?;
         self.write_feature_table_body()?;
         self.writer
-            .write(batch_table_blob.as_slice())
+            .write_all(batch_table_blob.as_slice())
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
-- 
2.43.0


From a66cc0b90d5d9e9d942d75df4799ba3facee1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 28/61] fix: PntsWriter keeps points that are written after a
 flush and flushes its writer

---
 pasture-io/src/tiles3d/pnts_writer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index cb2ed7b..2fe2519 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -2,7 +2,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, Seek, Write},
+    io::{Cursor, Seek, SeekFrom, Write},
 };
 
 use anyhow::{Context, Result};
@@ -71,6 +71,8 @@ pub struct PntsWriter<W: Write + Seek> {
     cached_points: HashMapBuffer,
     attribute_converters: HashMap<String, Option<AttributeConversionFn>>,
     rtc_center: Option<Vector3<f64>>,
+    /// Position of the file in `writer`, known after the first flush
+    start_of_file: Option<u64>,
     requires_flush: bool,
 }
 
@@ -90,6 +92,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             cached_points: cache,
             attribute_converters,
             rtc_center: None,
+            start_of_file: None,
             requires_flush: true,
         }
     }
@@ -99,6 +102,7 @@ impl<W: Write + Seek> PntsWriter<W> {
     /// **does not automatically translate points relative to this center!** This has to be done prior to calling `write`!
     pub fn set_rtc_center(&mut self, rtc_center: Vector3<f64>) {
         self.rtc_center = Some(rtc_center);
+        self.requires_flush = true;
     }
 
     /// Makes the given `PointLayout` compatible with the supported point semantics of the 3D Tiles .pnts format. Doing
@@ -211,6 +215,14 @@ impl<W: Write + Seek> PntsWriter<W> {
                 .expect("Size of BatchTable binary body exceeds maximum size of 4GiB!"),
         );
 
+        // The file is replaced as a whole if it was flushed before
+        match self.start_of_file {
+            Some(position) => {
+                self.writer.seek(SeekFrom::Start(position))?;
+            }
+            None => self.start_of_file = Some(self.writer.stream_position()?),
+        }
+
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
@@ -222,6 +234,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
+        self.writer.flush().context("Error while flushing writer")?;
         self.requires_flush = false;
 
         Ok(())
@@ -337,6 +350,7 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
         if points.point_layout() != &self.expected_layout {
             panic!("PointLayout of buffer does not match the PointLayout that this PntsReader was constructed with! Make sure that you only pass PointBuffers with the same layout as the one you used to create this PntsWriter!");
         }
+        self.requires_flush = true;
 
         if points.point_layout() == self.cached_points.point_layout() {
             self.cached_points.append(points);
-- 
2.43.0


From c941f0ca2ec4c62eae46c8cd5e653db1a98131ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 29/61] fix: reading behind the last point of a .pnts file
 reads no points

---
 pasture-io/src/tiles3d/pnts_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index c81ca47..3a3b117 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -302,7 +302,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         let remaining_points = self.metadata.points_length() - self.current_point_index;
         let num_to_read = usize::min(remaining_points, count);
         if num_to_read == 0 {
-            bail!("No points remaining in PNTS file")
+            return Ok(0);
         }
 
         let target_layout = point_buffer.point_layout().clone();
-- 
2.43.0


From 1971f9e438c3551c834673bb4da21a02067befa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 30/61] fix: apply RTC_CENTER only to the points that were read
 from the .pnts file

---
 pasture-io/src/tiles3d/pnts_reader.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index 3a3b117..71f59b9 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -244,9 +244,11 @@ impl<R: BufRead + Seek> PntsReader<R> {
         ))
     }
 
+    /// Adds the `RTC_CENTER` to the positions of the first `num_points` points in `point_buffer`
     fn apply_rtc_center_offset<'a, 'b, B: BorrowedMutBuffer<'a>>(
         &self,
         point_buffer: &'b mut B,
+        num_points: usize,
     ) -> Result<()>
     where
         'a: 'b,
@@ -264,7 +266,10 @@ impl<R: BufRead + Seek> PntsReader<R> {
             match position_attribute.datatype() {
                 PointAttributeDataType::Vec3f32 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f32>| -> Vector3<f32> {
+                    |index, position: Vector3<f32>| -> Vector3<f32> {
+                        if index >= num_points {
+                            return position;
+                        }
                         Vector3::new(
                             (position.x as f64 + rtc_center.x) as f32,
                             (position.y as f64 + rtc_center.y) as f32,
@@ -274,7 +279,12 @@ impl<R: BufRead + Seek> PntsReader<R> {
                 ),
                 PointAttributeDataType::Vec3f64 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f64>| -> Vector3<f64> { position + rtc_center },
+                    |index, position: Vector3<f64>| -> Vector3<f64> {
+                        if index >= num_points {
+                            return position;
+                        }
+                        position + rtc_center
+                    },
                 ),
                 other => bail!("Unsupported datatype {other} for POSITION_3D attribute"),
             }
@@ -358,7 +368,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         self.current_point_index += num_to_read;
 
         if let PntsReadPositionsMode::Absolute = self.read_positions_mode {
-            self.apply_rtc_center_offset(point_buffer)
+            self.apply_rtc_center_offset(point_buffer, num_to_read)
                 .context("Failed to apply RTC_CENTER offset")?;
         }
 
-- 
2.43.0


From 0e12fee8b85296b92c0a01e6f6dcdf4d7d770a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 31/61] fix: seeking far behind the end of a .pnts file stops
 at the last point

---
 pasture-io/src/tiles3d/pnts_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index 71f59b9..a4dc5a1 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -390,11 +390,11 @@ impl<R: BufRead + Seek> SeekToPoint for PntsReader<R> {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(offset) => {
                 let max_point_as_i64: i64 = self.metadata.points_length().try_into()?;
-                (max_point_as_i64 + offset).try_into()?
+                max_point_as_i64.saturating_add(offset).try_into()?
             }
             SeekFrom::Current(offset) => {
                 let cur_point_asi64: i64 = self.current_point_index.try_into()?;
-                (cur_point_asi64 + offset).try_into()?
+                cur_point_asi64.saturating_add(offset).try_into()?
             }
         };
         let new_point_idx_clamped = clamp(new_point_idx, 0, self.metadata.points_length() as u64);
-- 
2.43.0


From cacc2da1d99e4405f77ff87cf03a037b999f1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 32/61] fix: round positions to the nearest LAS coordinate when
 writing LAS files

---
 pasture-io/src/las/write_helpers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/write_helpers.rs b/pasture-io/src/las/write_helpers.rs
index ecb420b..18b930b 100644
--- a/pasture-io/src/las/write_helpers.rs
+++ b/pasture-io/src/las/write_helpers.rs
@@ -12,9 +12,9 @@ pub(crate) fn write_position_as_las_position<T: Write>(
     las_header: &las::raw::Header,
     mut writer: T,
 ) -> Result<()> {
-    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
     writer.write_i32::<LittleEndian>(local_x)?;
     writer.write_i32::<LittleEndian>(local_y)?;
     writer.write_i32::<LittleEndian>(local_z)?;
-- 
2.43.0


From 00ca616fd3d1e7d4350a2f7d6ce258a404ff2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 33/61] fix: write the padding after the VLRs of a LAS file

---
 pasture-io/src/las/raw_writers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 1d580b2..5d12b65 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -136,6 +136,9 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             let raw_vlr = vlr.clone().into_raw(false)?;
             raw_vlr.write_to(&mut write)?;
         }
+        if !header.vlr_padding().is_empty() {
+            write.write_all(header.vlr_padding())?;
+        }
 
         let point_start_index = write.stream_position()?;
         assert_eq!(point_start_index, raw_header.offset_to_point_data as u64);
-- 
2.43.0


From c60b49e9db5781da8a71655725db37777aa1ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 34/61] fix: count the points by return of points that are
 written from a custom layout

---
 pasture-io/src/las/raw_writers.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 5d12b65..6422d95 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -469,9 +469,13 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 self.writer
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -492,7 +496,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
@@ -1006,9 +1010,13 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 las_point_write
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -1029,7 +1037,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
-- 
2.43.0


From a585ab4496ae03f2c2bdedb61e58e98c1bd50484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 35/61] fix: store the start of the extended VLRs in the header
 of LAS and LAZ files

---
 pasture-io/src/las/raw_writers.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 6422d95..f247a96 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -65,6 +65,15 @@ fn update_point_counts_in_las_header(
         });
 }
 
+/// Update the start of the extended VLRs in the given `las_header`. They are written behind the point records
+fn update_start_of_evlrs_in_las_header(start_of_evlrs: u64, las_header: &mut las::raw::Header) {
+    if let Some(evlr) = las_header.evlr.as_mut() {
+        if evlr.number_of_evlrs > 0 {
+            evlr.start_of_first_evlr = start_of_evlrs;
+        }
+    }
+}
+
 /// Do final checkup of the LAS header
 fn finalize_las_header(las_header: &mut las::raw::Header) {
     // Set the legacy point counts field, if desired. The LAS standard states that the legacy number of point records field
@@ -606,6 +615,7 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
         }
 
         let current_index = self.writer.stream_position()?;
+        update_start_of_evlrs_in_las_header(current_index, &mut self.current_header);
         self.write_header()?;
         self.write_evlrs()?;
         self.writer.seek(SeekFrom::Start(current_index))?;
@@ -1158,6 +1168,8 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
     fn do_flush(&mut self) -> Result<()> {
         self.writer.done()?;
+        let start_of_evlrs = self.writer.get_mut().stream_position()?;
+        update_start_of_evlrs_in_las_header(start_of_evlrs, &mut self.current_header);
         self.write_evlrs()?;
         self.write_header()
     }
-- 
2.43.0


From 6b9669ac5e954122a4ef6eb07cb5366f5162d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 36/61] fix: undescribed extra bytes are as long as the extra
 bytes that no VLR describes

---
 pasture-io/src/las/las_layout.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 439008f..b2eea4a 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -168,13 +168,20 @@ pub fn point_layout_from_las_metadata(
         base_layout.add_attribute(extra_byte_attribute, FieldAlignment::Packed(1));
     }
 
-    let num_undescribed_bytes = format.extra_bytes as usize - num_described_bytes;
+    let num_undescribed_bytes = (format.extra_bytes as usize)
+        .checked_sub(num_described_bytes)
+        .ok_or_else(|| {
+            anyhow!(
+                "Extra Bytes VLR describes {num_described_bytes} bytes, but the point records have only {} extra bytes",
+                format.extra_bytes
+            )
+        })?;
     if num_undescribed_bytes > 0 {
         // Add a PointAttributeDefinition describing a raw byte array for all undescribed extra bytes
         base_layout.add_attribute(
             PointAttributeDefinition::custom(
                 Cow::Borrowed("UndescribedExtraBytes"),
-                PointAttributeDataType::ByteArray(num_described_bytes as u64),
+                PointAttributeDataType::ByteArray(num_undescribed_bytes as u64),
             ),
             FieldAlignment::Packed(1),
         );
-- 
2.43.0


From de26e30cebe49d5607dc52bca09dfeb258ef9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 37/61] fix: write only the points of the last chunk to LAZ
 files from a custom layout

---
 pasture-io/src/las/raw_writers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index f247a96..f6eb31e 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1125,7 +1125,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
             las_point_buffer = las_point_write.into_inner();
             self.writer.compress_many(
-                &las_point_buffer[0..num_points_in_chunk
+                &las_point_buffer[0..points_in_cur_chunk
                     * self.current_header.point_data_record_length as usize],
             )?;
 
-- 
2.43.0


From 751b16f5388d02cdbfd62ca11e787ce2c3a9c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 38/61] fix: reading LAZ points in a custom layout accepts
 buffers that are longer than the points

---
 pasture-io/src/las/raw_readers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_readers.rs b/pasture-io/src/las/raw_readers.rs
index 2b611c4..2024697 100644
--- a/pasture-io/src/las/raw_readers.rs
+++ b/pasture-io/src/las/raw_readers.rs
@@ -567,7 +567,12 @@ impl<'a, T: Read + Seek + Send + 'a> RawLAZReader<'a, T> {
             self.metadata.raw_las_header().expect("Missing LAS header"),
         )
         .context("Unsupported conversion")?;
-        converter.convert_into(&convert_buffer, point_buffer);
+        converter.convert_into_range(
+            &convert_buffer,
+            0..num_points_to_read,
+            point_buffer,
+            0..num_points_to_read,
+        );
 
         Ok(num_points_to_read)
     }
-- 
2.43.0


From 281da386d298bf49c01049be84a93b4d78094e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 39/61] fix: keep the VLRs, EVLRs and the VLR padding of the
 header in LAZ files

---
 pasture-io/src/las/raw_writers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index f6eb31e..14caadb 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -685,6 +685,9 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         };
 
         let mut header_builder = Builder::new(raw_header)?;
+        header_builder.vlrs = header.vlrs().clone();
+        header_builder.vlr_padding = header.vlr_padding().clone();
+        header_builder.evlrs = header.evlrs().clone();
         header_builder.vlrs.push(laz_vlr);
         let header_with_laz_vlr = header_builder.into_header()?;
         header_with_laz_vlr
-- 
2.43.0


From d15897e6c179416cc2af43f6a3aad3aed80d7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 40/61] fix: floating point minimum, maximum and no-data value
 of extra bytes are for floating point types

---
 pasture-io/src/las/las_metadata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index f53bfa8..f1f8532 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -434,7 +434,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn min_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -465,7 +465,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn max_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -496,7 +496,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn no_data_value_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
-- 
2.43.0


From acfcd06f8898ec74c7633c04798e6f292e368e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 41/61] fix: show the no-data value of extra bytes without a
 known type

---
 pasture-io/src/las/las_metadata.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index f1f8532..2483fda 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -559,7 +559,10 @@ impl Display for ExtraBytesEntry {
                 self.no_data_value_as_unsigned().unwrap()
             ))
         } else {
-            Some(format!("No-data value (raw bytes): {:#?}", self.min_value))
+            Some(format!(
+                "No-data value (raw bytes): {:#?}",
+                self.no_data_value
+            ))
         };
         let helper_array = [scale_str, offset_str, min_str, max_str, no_value_str];
         let combined_strings = helper_array
-- 
2.43.0


From 87624ba7c1599ebfc02454ab78ea642e32b7eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 42/61] fix: an Extra Bytes VLR does not have to be aligned in
 memory

---
 pasture-io/src/las/las_metadata.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 2483fda..5a77c41 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -714,10 +714,13 @@ impl TryFrom<&'_ Vlr> for ExtraBytesVlr {
             bail!("VLR data size ({} bytes) is not a multiple of the size of an EXTRA_BYTES entry ({} bytes)", value.data.len(), RAW_EXTRA_BYTES_ENTRY_SIZE);
         }
 
-        let raw_entries: &[RawExtraBytesEntry] = bytemuck::cast_slice(&value.data);
-        let entries = raw_entries
-            .iter()
-            .map(|raw_entry| raw_entry.try_into())
+        // The data of a VLR is not necessarily aligned to `RawExtraBytesEntry`
+        let entries = value
+            .data
+            .chunks_exact(RAW_EXTRA_BYTES_ENTRY_SIZE)
+            .map(|raw_entry| {
+                (&bytemuck::pod_read_unaligned::<RawExtraBytesEntry>(raw_entry)).try_into()
+            })
             .collect::<Result<_, _>>()?;
 
         Ok(Self { entries })
-- 
2.43.0


From fe96d5c8989ed926096487ce08040424041200ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 43/61] fix: descriptions of the Classification Lookup VLR end
 at the null terminator

---
 pasture-io/src/las/las_metadata.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 5a77c41..8819ce4 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -130,9 +130,15 @@ impl TryFrom<&Vlr> for ClassificationLookup {
             entries: array_init::array_init(|_| Default::default()),
         };
         for (index, raw_entry) in data_as_raw_entries.iter().enumerate().take(256) {
+            let description_length = raw_entry
+                .description
+                .iter()
+                .position(|c| *c == 0)
+                .unwrap_or(raw_entry.description.len());
             ret.entries[index] = ClassificationLookupEntry {
                 classification: raw_entry.class_number,
-                description: String::from_utf8_lossy(&raw_entry.description).into_owned(),
+                description: String::from_utf8_lossy(&raw_entry.description[..description_length])
+                    .into_owned(),
             };
         }
         Ok(ret)
-- 
2.43.0


From 06f75ed66b109a1362813ddd494d97f8ad18b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 44/61] fix: the best matching LAS point format is always a LAS
 point format

---
 pasture-io/src/las/las_layout.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index b2eea4a..3576b69 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -235,6 +235,18 @@ pub fn las_point_format_from_point_layout(point_layout: &PointLayout) -> Format
         format.is_extended = true;
     }
 
+    // Not all combinations exist as LAS point formats: All extended formats and all formats with waveforms
+    // have GPS times, and NIR exists only together with colors
+    if format.has_nir {
+        format.has_color = true;
+    }
+    if format.is_extended && format.has_waveform && format.has_color {
+        format.has_nir = true;
+    }
+    if format.is_extended || format.has_waveform {
+        format.has_gps_time = true;
+    }
+
     format
 }
 
-- 
2.43.0


From cbf41191f8eee3d4d940b1e53df10cb099cd0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 45/61] fix: recognize the .laz extension in upper case

---
 pasture-io/src/las/las_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 8819ce4..8719188 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -67,7 +67,7 @@ pub fn pasture_bounds_to_las_bounds(bounds: &AABB<f64>) -> Bounds {
 pub fn path_is_compressed_las_file<P: AsRef<Path>>(path: P) -> Result<bool> {
     path.as_ref()
         .extension()
-        .map(|extension| extension == "laz")
+        .map(|extension| extension.eq_ignore_ascii_case("laz"))
         .ok_or(anyhow!(
             "Could not determine file extension of file {}",
             path.as_ref().display()
-- 
2.43.0


From 8455a8a59ca2f396a26f2845af1f5b925de1708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 46/61] fix: read_all_into appends the points to the buffer

---
 pasture-io/src/base/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/base/mod.rs b/pasture-io/src/base/mod.rs
index 31f8716..b2bdf55 100644
--- a/pasture-io/src/base/mod.rs
+++ b/pasture-io/src/base/mod.rs
@@ -2,6 +2,7 @@ use anyhow::{Context, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::containers::MakeBufferFromLayout;
 use pasture_core::containers::OwningBuffer;
+use pasture_core::containers::VectorBuffer;
 
 mod reader;
 use std::path::Path;
@@ -49,7 +50,12 @@ pub fn read_all_into<'a, B: OwningBuffer<'a>, P: AsRef<Path>>(
         "Could not determine number of points in point cloud file {}",
         path.as_ref().display()
     ))?;
-    reader.read_into(buffer, num_points)
+    let mut new_points = VectorBuffer::new_from_layout(buffer.point_layout().clone());
+    new_points.resize(num_points);
+    let num_points_read = reader.read_into(&mut new_points, num_points)?;
+    new_points.resize(num_points_read);
+    buffer.append(&new_points);
+    Ok(num_points_read)
 }
 
 /// Writes all points in the given `buffer` into the file at `path`
-- 
2.43.0


From 240a2d3cef2d6f86324ec71e275482f2ed0c575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 47/61] fix: write the extra bytes of LAS point records

---
 pasture-io/src/las/raw_writers.rs | 89 +++++++++++++++++++++++++++++--
 1 file changed, 86 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 14caadb..d7cc4d5 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1,14 +1,19 @@
 use std::{
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, SeekFrom},
+    io::{Cursor, Read, SeekFrom},
 };
 
 use anyhow::{anyhow, Context, Result};
 use byteorder::{LittleEndian, NativeEndian, ReadBytesExt, WriteBytesExt};
 use las_rs::{point::Format, Builder, Vlr};
 use laz::{LasZipCompressor, LazItemRecordBuilder, LazVlr};
-use pasture_core::{containers::BorrowedBuffer, layout::PointLayout, nalgebra::Vector3};
+use pasture_core::{
+    containers::BorrowedBuffer,
+    layout::conversion::{get_converter_for_attributes, AttributeConversionFn},
+    layout::PointLayout,
+    nalgebra::Vector3,
+};
 
 use crate::base::PointWriter;
 
@@ -20,7 +25,7 @@ use super::{
     get_scan_angle_rank_reader, get_scan_direction_flag_reader, get_scanner_channel_reader,
     get_user_data_reader, get_wave_packet_descriptor_index_reader, get_waveform_data_offset_reader,
     get_waveform_packet_size_reader, get_waveform_parameters_reader, map_laz_err,
-    point_layout_from_las_metadata, write_las_bit_attributes, write_position_as_las_position,
+    point_layout_from_las_metadata, point_layout_from_las_point_format, write_las_bit_attributes, write_position_as_las_position,
     BitAttributes, BitAttributesExtended, BitAttributesRegular,
 };
 
@@ -74,6 +79,58 @@ fn update_start_of_evlrs_in_las_header(start_of_evlrs: u64, las_header: &mut las
     }
 }
 
+/// A single extra bytes attribute of a point in a custom `PointLayout`
+struct ExtraBytesAttribute {
+    /// Offset of the attribute in the source point
+    source_offset: usize,
+    source_size: usize,
+    /// Offset of the attribute in the extra bytes of the LAS point record
+    target_offset: usize,
+    target_size: usize,
+    /// Conversion from the datatype of the source, `None` if no conversion is required
+    converter: Option<AttributeConversionFn>,
+}
+
+/// Collects the extra bytes attributes of `las_layout` that exist in `source_layout`. `las_layout` is the default
+/// layout for writing points of the given `format`, in which the extra bytes are the last attributes
+fn get_extra_bytes_attributes(
+    source_layout: &PointLayout,
+    las_layout: &PointLayout,
+    format: &Format,
+) -> Result<Vec<ExtraBytesAttribute>> {
+    let base_layout = point_layout_from_las_point_format(format, false)?;
+    let mut target_offset = 0;
+    let mut attributes = vec![];
+    for target in las_layout
+        .attributes()
+        .skip(base_layout.attributes().count())
+    {
+        let target_size = target.size() as usize;
+        if let Some(source) = source_layout.get_attribute_by_name(target.name()) {
+            let same_datatype = source.datatype() == target.datatype();
+            let converter = if same_datatype {
+                None
+            } else {
+                get_converter_for_attributes(
+                    source.attribute_definition(),
+                    target.attribute_definition(),
+                )
+            };
+            if same_datatype || converter.is_some() {
+                attributes.push(ExtraBytesAttribute {
+                    source_offset: source.offset() as usize,
+                    source_size: source.size() as usize,
+                    target_offset,
+                    target_size,
+                    converter,
+                });
+            }
+        }
+        target_offset += target_size;
+    }
+    Ok(attributes)
+}
+
 /// Do final checkup of the LAS header
 fn finalize_las_header(las_header: &mut las::raw::Header) {
     // Set the legacy point counts field, if desired. The LAS standard states that the legacy number of point records field
@@ -210,6 +267,8 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
         let mut chunk_buffer: Vec<u8> = vec![0; num_points_in_chunk * size_of_single_point];
 
         let source_format = Format::new(self.current_header.point_data_record_format)?;
+        let num_extra_bytes = self.current_header.point_data_record_length - source_format.len();
+        let mut extra_bytes: Vec<u8> = vec![0; num_extra_bytes as usize];
 
         let mut points_by_return: HashMap<u8, u64> = HashMap::new();
         let max_return_number = if self.current_header.large_file.is_some() {
@@ -340,6 +399,9 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(py)?;
                     self.writer.write_f32::<LittleEndian>(pz)?;
                 }
+
+                point_read.read_exact(&mut extra_bytes)?;
+                self.writer.write_all(&extra_bytes)?;
             }
 
             chunk_buffer = point_read.into_inner();
@@ -380,6 +442,15 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             points_by_return.insert(return_number, 0);
         }
 
+        // Extra bytes that do not exist in the source layout are zero
+        let num_extra_bytes = self.current_header.point_data_record_length - target_format.len();
+        let mut extra_bytes: Vec<u8> = vec![0; num_extra_bytes as usize];
+        let extra_bytes_attributes = get_extra_bytes_attributes(
+            points.point_layout(),
+            &self.default_layout,
+            &target_format,
+        )?;
+
         // TODO All the attribute readers return different types. Is there a way to still store them in a vec and iterate over them?
         // A generic 'convert N points from layout A to layout B' function would be nice
 
@@ -584,6 +655,18 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(params.y)?;
                     self.writer.write_f32::<LittleEndian>(params.z)?;
                 }
+
+                let point_bytes = &point_read.get_ref()[point_index * size_of_single_point..];
+                for attribute in &extra_bytes_attributes {
+                    let source = &point_bytes[attribute.source_offset..][..attribute.source_size];
+                    let target =
+                        &mut extra_bytes[attribute.target_offset..][..attribute.target_size];
+                    match attribute.converter {
+                        Some(converter) => unsafe { converter(source, target) },
+                        None => target.copy_from_slice(source),
+                    }
+                }
+                self.writer.write_all(&extra_bytes)?;
             }
 
             chunk_buffer = point_read.into_inner();
-- 
2.43.0


From ba0cf71bb5d9e5149a64490186566d7956754acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 48/61] fix: LAZ files with the header of another LAZ file have
 a single LASzip VLR

---
 pasture-io/src/las/raw_readers.rs | 2 +-
 pasture-io/src/las/raw_writers.rs | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/raw_readers.rs b/pasture-io/src/las/raw_readers.rs
index 2024697..b654766 100644
--- a/pasture-io/src/las/raw_readers.rs
+++ b/pasture-io/src/las/raw_readers.rs
@@ -22,7 +22,7 @@ use crate::base::{PointReader, SeekToPoint};
 use crate::las::{ATTRIBUTE_BASIC_FLAGS, ATTRIBUTE_EXTENDED_FLAGS};
 
 /// Is the given VLR the LASzip VLR? Function taken from the `las` crate because it is not exported there
-fn is_laszip_vlr(vlr: &Vlr) -> bool {
+pub(crate) fn is_laszip_vlr(vlr: &Vlr) -> bool {
     vlr.user_id == laz::LazVlr::USER_ID && vlr.record_id == laz::LazVlr::RECORD_ID
 }
 
diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index d7cc4d5..b6d60a1 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -24,7 +24,7 @@ use super::{
     get_position_reader, get_return_number_reader, get_return_point_waveform_location_reader,
     get_scan_angle_rank_reader, get_scan_direction_flag_reader, get_scanner_channel_reader,
     get_user_data_reader, get_wave_packet_descriptor_index_reader, get_waveform_data_offset_reader,
-    get_waveform_packet_size_reader, get_waveform_parameters_reader, map_laz_err,
+    get_waveform_packet_size_reader, get_waveform_parameters_reader, is_laszip_vlr, map_laz_err,
     point_layout_from_las_metadata, point_layout_from_las_point_format, write_las_bit_attributes, write_position_as_las_position,
     BitAttributes, BitAttributesExtended, BitAttributesRegular,
 };
@@ -768,7 +768,12 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         };
 
         let mut header_builder = Builder::new(raw_header)?;
-        header_builder.vlrs = header.vlrs().clone();
+        header_builder.vlrs = header
+            .vlrs()
+            .iter()
+            .filter(|vlr| !is_laszip_vlr(vlr))
+            .cloned()
+            .collect();
         header_builder.vlr_padding = header.vlr_padding().clone();
         header_builder.evlrs = header.evlrs().clone();
         header_builder.vlrs.push(laz_vlr);
-- 
2.43.0


From fd60acbaee934870ea3a91fd2bd9f8aa40e91824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 49/61] fix: mark the point records of LAZ files as compressed

---
 pasture-io/src/las/raw_writers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index b6d60a1..2642546 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -777,6 +777,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         header_builder.vlr_padding = header.vlr_padding().clone();
         header_builder.evlrs = header.evlrs().clone();
         header_builder.vlrs.push(laz_vlr);
+        header_builder.point_format.is_compressed = true;
         let header_with_laz_vlr = header_builder.into_header()?;
         header_with_laz_vlr
             .clone()
-- 
2.43.0


From ed8ccdbb7080233bcf0305420803ab55f179b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 50/61] fix: LAS files with the header of a LAZ file are not
 marked as compressed

---
 pasture-io/src/las/raw_writers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 2642546..e0b29fa 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -168,6 +168,12 @@ pub(crate) struct RawLASWriter<T: std::io::Write + std::io::Seek> {
 
 impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
     pub fn from_write_and_header(mut write: T, header: las::Header) -> Result<Self> {
+        // The header might come from a LAZ file, but the point records are written without compression
+        let mut header_builder = Builder::from(header);
+        header_builder.point_format.is_compressed = false;
+        header_builder.vlrs.retain(|vlr| !is_laszip_vlr(vlr));
+        let header = header_builder.into_header()?;
+
         let las_metadata = (&header).try_into().context("Could not parse LAS header")?;
         let default_layout = point_layout_from_las_metadata(&las_metadata, false)
             .context("Could not determine PointLayout from given LAS header")?;
-- 
2.43.0


From 30cb5e378107b7b89aaf3bcfa407e92733807de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 51/61] fix: the info tool reads into a buffer of the right
 size

---
 pasture-tools/src/bin/info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pasture-tools/src/bin/info.rs b/pasture-tools/src/bin/info.rs
index bd0c64b..156c1b4 100644
--- a/pasture-tools/src/bin/info.rs
+++ b/pasture-tools/src/bin/info.rs
@@ -122,6 +122,7 @@ fn analyze_file<R: PointReader + SeekToPoint>(reader: &mut R) -> Result<()> {
         buffer.clear();
 
         let num_points_in_chunk = std::cmp::min(chunk_size, total_points - (idx * chunk_size));
+        buffer.resize(num_points_in_chunk);
         reader.read_into(&mut buffer, num_points_in_chunk)?;
 
         minmax_chunk!(minmax_position, buffer, POSITION_3D, Vector3<f64>);
-- 
2.43.0


From 1f6da07d2eb6d0822496a5ba7e47b1c9b76d0e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 52/61] fix: the info tool handles attributes that have a
 different datatype in the file

---
 pasture-tools/src/bin/info.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pasture-tools/src/bin/info.rs b/pasture-tools/src/bin/info.rs
index 156c1b4..7f094ee 100644
--- a/pasture-tools/src/bin/info.rs
+++ b/pasture-tools/src/bin/info.rs
@@ -69,7 +69,18 @@ macro_rules! minmax_chunk {
             .point_layout()
             .has_attribute_with_name($attribute.name())
         {
-            let chunk_minmax: ($type, $type) = minmax_attribute(&$buffer, &$attribute).unwrap();
+            let chunk_minmax: ($type, $type) = if $buffer.point_layout().has_attribute(&$attribute)
+            {
+                minmax_attribute(&$buffer, &$attribute).unwrap()
+            } else {
+                // The file stores the attribute with a different datatype
+                $buffer
+                    .view_attribute_with_conversion::<$type>(&$attribute)?
+                    .into_iter()
+                    .map(|value| (value, value))
+                    .reduce(|a, b| (a.0.infimum(&b.0), a.1.supremum(&b.1)))
+                    .unwrap()
+            };
             match $minmax_tuple {
                 None => $minmax_tuple = Some(chunk_minmax),
                 Some((old_min, old_max)) => {
-- 
2.43.0


From ca539cf51b85d5f1aeed42d81e0978e712c923c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 53/61] fix: cut strings that are too long for a LAS field at a
 character boundary

---
 pasture-io/src/las/write_helpers.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pasture-io/src/las/write_helpers.rs b/pasture-io/src/las/write_helpers.rs
index 18b930b..c167fad 100644
--- a/pasture-io/src/las/write_helpers.rs
+++ b/pasture-io/src/las/write_helpers.rs
@@ -57,11 +57,10 @@ pub(crate) fn write_rust_string_into_las_ascii_array<const N: usize>(
     rust_str: &str,
     las_array: &mut [u8; N],
 ) {
-    if rust_str.as_bytes().len() >= N {
-        let dst_slice = &rust_str.as_bytes()[..N];
-        las_array.copy_from_slice(dst_slice);
-    } else {
-        let src_slice = &mut las_array[..rust_str.as_bytes().len()];
-        src_slice.copy_from_slice(rust_str.as_bytes());
+    // A `str` that is too long is cut at a character boundary, a partial character could not be parsed back
+    let mut length = rust_str.len().min(N);
+    while !rust_str.is_char_boundary(length) {
+        length -= 1;
     }
+    las_array[..length].copy_from_slice(&rust_str.as_bytes()[..length]);
 }
-- 
2.43.0


From c65f1feb7956df40353c059f0be23c30372b30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 54/61] fix: refuse Extra Bytes VLRs whose names clash instead
 of panicking when the file is opened

---
 pasture-io/src/las/las_layout.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 3576b69..bbca7f5 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -1,6 +1,6 @@
 use std::{borrow::Cow, collections::HashSet};
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use las::point::Format;
 use lazy_static::lazy_static;
 use pasture_core::{
@@ -165,6 +165,12 @@ pub fn point_layout_from_las_metadata(
     //      uses Vector3<i32>... So it might be worthwhile to change this once we have support for reading positions in
     //      Vector3<i32> using the LASReader
     for extra_byte_attribute in extra_byte_attributes {
+        if base_layout.has_attribute_with_name(extra_byte_attribute.name()) {
+            bail!(
+                "Extra Bytes VLR describes an attribute {}, which the point records already have",
+                extra_byte_attribute.name()
+            );
+        }
         base_layout.add_attribute(extra_byte_attribute, FieldAlignment::Packed(1));
     }
 
@@ -177,6 +183,9 @@ pub fn point_layout_from_las_metadata(
             )
         })?;
     if num_undescribed_bytes > 0 {
+        if base_layout.has_attribute_with_name("UndescribedExtraBytes") {
+            bail!("Extra Bytes VLR describes an attribute with the reserved name UndescribedExtraBytes");
+        }
         // Add a PointAttributeDefinition describing a raw byte array for all undescribed extra bytes
         base_layout.add_attribute(
             PointAttributeDefinition::custom(
-- 
2.43.0


From 3dce277d274130d4968986dc14f03d1c607eb61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 55/61] fix: derive(PointType) on repr(packed(N)) types without
 repr(C), whose fields may be reordered

---
 pasture-derive/src/layout.rs |  9 +++++++--
 pasture-derive/src/lib.rs    | 22 ++++++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index 80aa085..143fd1e 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -5,6 +5,8 @@ use syn::{NestedMeta, Result};
 pub(crate) enum StructMemberLayout {
     C,
     Packed(u64),
+    /// Packed without `C`: the compiler may reorder the fields
+    RustPacked(u64),
 }
 
 /// Is the given Attribute a #[repr(...)] attribute?
@@ -132,12 +134,15 @@ pub(crate) fn get_struct_member_layout(
     // the 'C' or 'packed'/'packed(N)' arguments
 
     let maybe_packed = repr_args.iter().find(|arg| arg_is_packed(arg));
+    let maybe_repr_c = repr_args.iter().find(|arg| arg_is_c(arg));
     if let Some(packed_arg) = maybe_packed {
         let packing = get_packing_from_arg(packed_arg)?;
-        return Ok(StructMemberLayout::Packed(packing));
+        return Ok(match maybe_repr_c {
+            Some(_) => StructMemberLayout::Packed(packing),
+            None => StructMemberLayout::RustPacked(packing),
+        });
     }
 
-    let maybe_repr_c = repr_args.iter().find(|arg| arg_is_c(arg));
     if maybe_repr_c.is_some() {
         return Ok(StructMemberLayout::C);
     }
diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 701e9fe..f7f8131 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -7,8 +7,8 @@ use proc_macro::TokenStream;
 use quote::quote;
 use syn::DeriveInput;
 use syn::{
-    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit,
-    NestedMeta, PathArguments, Result, Type, TypePath,
+    parse_macro_input, parse_quote, Attribute, Data, Error, Expr, Field, Fields, GenericArgument,
+    Ident, Lit, Member, NestedMeta, PathArguments, Result, Type, TypePath,
 };
 
 mod layout;
@@ -348,7 +348,7 @@ fn calculate_offsets_and_alignment(
     data: &Data,
     ident: &Ident,
     type_attributes: &[Attribute],
-) -> Result<(Vec<u64>, u64)> {
+) -> Result<(Vec<Expr>, u64)> {
     let struct_data = match data {
         Data::Struct(struct_data) => struct_data,
         _ => {
@@ -363,17 +363,27 @@ fn calculate_offsets_and_alignment(
     let mut current_offset = 0;
     let mut max_alignment = 1;
     let mut offsets = vec![];
-    for field in fields {
+    for (index, (field, member)) in fields.iter().zip(struct_data.fields.iter()).enumerate() {
         let min_alignment = match struct_layout {
             StructMemberLayout::C => field.primitive_type.min_alignment(),
-            StructMemberLayout::Packed(max_alignment) => {
+            StructMemberLayout::Packed(max_alignment)
+            | StructMemberLayout::RustPacked(max_alignment) => {
                 std::cmp::min(max_alignment, field.primitive_type.min_alignment())
             }
         };
         max_alignment = std::cmp::max(min_alignment, max_alignment);
 
         let aligned_offset = ((current_offset + min_alignment - 1) / min_alignment) * min_alignment;
-        offsets.push(aligned_offset);
+        offsets.push(match struct_layout {
+            StructMemberLayout::RustPacked(_) => {
+                let member = match &member.ident {
+                    Some(ident) => Member::Named(ident.clone()),
+                    None => Member::Unnamed(index.into()),
+                };
+                parse_quote! { std::mem::offset_of!(#ident, #member) as u64 }
+            }
+            _ => parse_quote! { #aligned_offset },
+        });
         current_offset = aligned_offset + field.primitive_type.size();
     }
 
-- 
2.43.0


From ece6fe38dc554db828200b8dae7d388d5308fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 56/61] fix: derived layouts of repr(align(N)) types have the
 alignment and size of the type

---
 pasture-derive/src/lib.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index f7f8131..5c873dc 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -343,12 +343,12 @@ fn field_parameters(data: &Data, ident: &Ident) -> Result<Vec<FieldLayoutDescrip
     }
 }
 
-fn calculate_offsets_and_alignment(
+fn calculate_offsets(
     fields: &[FieldLayoutDescription],
     data: &Data,
     ident: &Ident,
     type_attributes: &[Attribute],
-) -> Result<(Vec<Expr>, u64)> {
+) -> Result<Vec<Expr>> {
     let struct_data = match data {
         Data::Struct(struct_data) => struct_data,
         _ => {
@@ -361,7 +361,6 @@ fn calculate_offsets_and_alignment(
     let struct_layout = get_struct_member_layout(type_attributes, struct_data)?;
 
     let mut current_offset = 0;
-    let mut max_alignment = 1;
     let mut offsets = vec![];
     for (index, (field, member)) in fields.iter().zip(struct_data.fields.iter()).enumerate() {
         let min_alignment = match struct_layout {
@@ -371,7 +370,6 @@ fn calculate_offsets_and_alignment(
                 std::cmp::min(max_alignment, field.primitive_type.min_alignment())
             }
         };
-        max_alignment = std::cmp::max(min_alignment, max_alignment);
 
         let aligned_offset = ((current_offset + min_alignment - 1) / min_alignment) * min_alignment;
         offsets.push(match struct_layout {
@@ -387,7 +385,7 @@ fn calculate_offsets_and_alignment(
         current_offset = aligned_offset + field.primitive_type.size();
     }
 
-    Ok((offsets, max_alignment))
+    Ok(offsets)
 }
 
 /// Custom `derive` macro that implements the [`PointType`](pasture_core::layout::PointType) trait for the type that it is applied to.
@@ -455,13 +453,12 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             return why.to_compile_error().into();
         }
     };
-    let (offsets, type_alignment) =
-        match calculate_offsets_and_alignment(&fields, &input.data, name, input.attrs.as_slice()) {
-            Ok(inner) => inner,
-            Err(why) => {
-                return why.to_compile_error().into();
-            }
-        };
+    let offsets = match calculate_offsets(&fields, &input.data, name, input.attrs.as_slice()) {
+        Ok(inner) => inner,
+        Err(why) => {
+            return why.to_compile_error().into();
+        }
+    };
 
     let attribute_descriptions = fields.iter().zip(offsets.iter()).map(|(field, offset)| {
         let attribute_name = &field.attribute_name;
@@ -476,7 +473,7 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             fn layout() -> pasture_core::layout::PointLayout {
                 pasture_core::layout::PointLayout::from_members_and_alignment(&[
                     #(#attribute_descriptions ,)*
-                ], #type_alignment)
+                ], std::mem::align_of::<#name>() as u64)
             }
         }
     };
-- 
2.43.0


From e1045e7fb4e0549c0b7b02f9b967786d1ce50ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:16 +0000
Subject: [PATCH 57/61] fix: seeking far behind the end of LAS and LAZ files
 overflowed or was taken for a negative position

---
 pasture-io/src/las/raw_readers.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pasture-io/src/las/raw_readers.rs b/pasture-io/src/las/raw_readers.rs
index b654766..59b6ed1 100644
--- a/pasture-io/src/las/raw_readers.rs
+++ b/pasture-io/src/las/raw_readers.rs
@@ -1,4 +1,4 @@
-use std::convert::TryInto;
+use std::convert::{TryFrom, TryInto};
 use std::io::{Read, Seek, SeekFrom};
 
 use anyhow::{anyhow, bail, Context, Result};
@@ -394,9 +394,14 @@ impl<T: Read + Seek> PointReader for RawLASReader<T> {
 impl<T: Read + Seek> SeekToPoint for RawLASReader<T> {
     fn seek_point(&mut self, position: SeekFrom) -> Result<usize> {
         let new_position = match position {
-            SeekFrom::Start(from_start) => from_start as i64,
-            SeekFrom::End(from_end) => self.metadata.point_count() as i64 + from_end,
-            SeekFrom::Current(from_current) => self.current_point_index as i64 + from_current,
+            // Positions that do not fit in an `i64` are far behind the last point
+            SeekFrom::Start(from_start) => i64::try_from(from_start).unwrap_or(i64::MAX),
+            SeekFrom::End(from_end) => {
+                (self.metadata.point_count() as i64).saturating_add(from_end)
+            }
+            SeekFrom::Current(from_current) => {
+                (self.current_point_index as i64).saturating_add(from_current)
+            }
         };
         if new_position < 0 {
             panic!("RawLASReader::seek_point: It is an error to seek to a point position smaller than zero!");
@@ -620,9 +625,14 @@ impl<'a, T: Read + Seek + Send + 'a> PointReader for RawLAZReader<'a, T> {
 impl<'a, T: Read + Seek + Send + 'a> SeekToPoint for RawLAZReader<'a, T> {
     fn seek_point(&mut self, position: SeekFrom) -> Result<usize> {
         let new_position = match position {
-            SeekFrom::Start(from_start) => from_start as i64,
-            SeekFrom::End(from_end) => self.metadata.point_count() as i64 + from_end,
-            SeekFrom::Current(from_current) => self.current_point_index as i64 + from_current,
+            // Positions that do not fit in an `i64` are far behind the last point
+            SeekFrom::Start(from_start) => i64::try_from(from_start).unwrap_or(i64::MAX),
+            SeekFrom::End(from_end) => {
+                (self.metadata.point_count() as i64).saturating_add(from_end)
+            }
+            SeekFrom::Current(from_current) => {
+                (self.current_point_index as i64).saturating_add(from_current)
+            }
         };
         if new_position < 0 {
             panic!("RawLAZReader::seek_point: It is an error to seek to a point position smaller than zero!");
-- 
2.43.0


From bd1c07afc7a18c93dee811de3a95967e933ae14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:16 +0000
Subject: [PATCH 58/61] fix: flushing a pnts file again with a shorter feature
 table left stale bytes at its end

---
 pasture-io/src/tiles3d/pnts_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 2fe2519..468a841 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -73,6 +73,8 @@ pub struct PntsWriter<W: Write + Seek> {
     rtc_center: Option<Vector3<f64>>,
     /// Position of the file in `writer`, known after the first flush
     start_of_file: Option<u64>,
+    /// Size of the FeatureTable header in the file, known after the first flush
+    size_of_feature_table: usize,
     requires_flush: bool,
 }
 
@@ -93,6 +95,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             attribute_converters,
             rtc_center: None,
             start_of_file: None,
+            size_of_feature_table: 0,
             requires_flush: true,
         }
     }
@@ -173,6 +176,12 @@ impl<W: Write + Seek> PntsWriter<W> {
         )
         .context("Error serializing FeatureTable header")?;
 
+        // A file that was flushed before can't become shorter, so neither can its FeatureTable header
+        if feature_table_blob.len() < self.size_of_feature_table {
+            feature_table_blob.resize(self.size_of_feature_table, b' ');
+        }
+        self.size_of_feature_table = feature_table_blob.len();
+
         let feature_table_byte_size = feature_table_blob.len();
         let feature_table_body_byte_size = self.calc_feature_table_body_length();
         let feature_table_body_byte_size_aligned =
-- 
2.43.0


From 2c1408f00313efb47110f06398661d75befe247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:16 +0000
Subject: [PATCH 59/61] fix: pad the body of a pnts file relative to its start,
 not to the start of the output

---
 pasture-io/src/tiles3d/pnts_writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 468a841..70daa5c 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -341,8 +341,9 @@ impl<W: Write + Seek> PntsWriter<W> {
             }
         }
 
-        // Write padding bytes to ensure we are at an 8-byte boundary!
-        let current_write_position = self.writer.stream_position()?;
+        // Write padding bytes to ensure we are at an 8-byte boundary of the file!
+        let current_write_position =
+            self.writer.stream_position()? - self.start_of_file.unwrap_or(0);
         let next_8_byte_boundary = current_write_position.align_to(8);
         let num_padding_bytes = next_8_byte_boundary - current_write_position;
         if num_padding_bytes > 0 {
-- 
2.43.0


From 433881769892ab4bed9631b8cedae43cc88d826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:45 +0000
Subject: [PATCH 60/61] fix: bounds of positions that are all infinite on an
 axis start at infinity, not at the largest finite number

---
 pasture-algorithms/src/bounds.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-algorithms/src/bounds.rs b/pasture-algorithms/src/bounds.rs
index 5711a88..97755a0 100644
--- a/pasture-algorithms/src/bounds.rs
+++ b/pasture-algorithms/src/bounds.rs
@@ -28,8 +28,8 @@ pub fn calculate_bounds<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Option<AABB
 }
 
 fn calculate_bounds_from_default_positions<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> AABB<f64> {
-    let mut pos_min = Point3::new(f64::MAX, f64::MAX, f64::MAX);
-    let mut pos_max = Point3::new(f64::MIN, f64::MIN, f64::MIN);
+    let mut pos_min = Point3::new(f64::INFINITY, f64::INFINITY, f64::INFINITY);
+    let mut pos_max = Point3::new(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
     for pos in buffer.view_attribute::<Vector3<f64>>(&POSITION_3D) {
         if pos.x < pos_min.x {
             pos_min.x = pos.x;
@@ -56,8 +56,8 @@ fn calculate_bounds_from_default_positions<'a, T: BorrowedBuffer<'a>>(buffer: &'
 fn calculate_bounds_from_custom_positions<'a, T: BorrowedBuffer<'a>>(
     buffer: &'a T,
 ) -> Result<AABB<f64>> {
-    let mut pos_min = Point3::new(f64::MAX, f64::MAX, f64::MAX);
-    let mut pos_max = Point3::new(f64::MIN, f64::MIN, f64::MIN);
+    let mut pos_min = Point3::new(f64::INFINITY, f64::INFINITY, f64::INFINITY);
+    let mut pos_max = Point3::new(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
     let attribute_view = buffer
         .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
         .context("Can't convert POSITION_3D attribute to Vector3<f64>")?;
-- 
2.43.0


From 1b4c0faf17fde2bffca9374aea606ba50436e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:45 +0000
Subject: [PATCH 61/61] fix: collect an AABB from infinite coordinates without
 inventing a finite corner

---
 pasture-core/src/math/bounds.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/math/bounds.rs b/pasture-core/src/math/bounds.rs
index ca4805e..1c93d81 100644
--- a/pasture-core/src/math/bounds.rs
+++ b/pasture-core/src/math/bounds.rs
@@ -268,8 +268,8 @@ impl AABB<f64> {
 
 impl<U: Into<Point3<f64>>> FromIterator<U> for AABB<f64> {
     fn from_iter<V: IntoIterator<Item = U>>(iter: V) -> Self {
-        let mut min = Point3::new(f64::MAX, f64::MAX, f64::MAX);
-        let mut max = Point3::new(f64::MIN, f64::MIN, f64::MIN);
+        let mut min = Point3::new(f64::INFINITY, f64::INFINITY, f64::INFINITY);
+        let mut max = Point3::new(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
         for point in iter.into_iter() {
             let point: Point3<f64> = point.into();
             min.x = if min.x < point.x { min.x } else { point.x };
-- 
2.43.0

