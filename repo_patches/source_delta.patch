From d273ae18dc706772fb45c4a1ed4b5643bd0c34b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 01/68] fix: skipping past the end of a point or attribute
 iterator ends the iteration

nth() advanced the cursor past the length, and next() only compared for
equality: the by-value and by-reference iterators indexed out of bounds, and
the mutable ones handed out references beyond the slice.
---
 pasture-core/src/containers/attribute_iterators.rs | 12 ++++++------
 pasture-core/src/containers/point_iterators.rs     | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..8729d9a 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -36,7 +36,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.buffer.len() {
+        if self.current_index >= self.buffer.len() {
             None
         } else {
             let mut attribute = T::zeroed();
@@ -55,7 +55,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -87,7 +87,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.attribute_data.len() {
+        if self.current_index >= self.attribute_data.len() {
             None
         } else {
             let ret = &self.attribute_data[self.current_index];
@@ -97,7 +97,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -129,7 +129,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.attribute_data.len() {
+        if self.current_index >= self.attribute_data.len() {
             None
         } else {
             unsafe {
@@ -141,7 +141,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..20c9fef 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -30,7 +30,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.buffer.len() {
+        if self.current_index >= self.buffer.len() {
             None
         } else {
             let mut point = T::zeroed();
@@ -42,7 +42,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -70,7 +70,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.point_data.len() {
+        if self.current_index >= self.point_data.len() {
             None
         } else {
             let point = &self.point_data[self.current_index];
@@ -80,7 +80,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -111,7 +111,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.point_data.len() {
+        if self.current_index >= self.point_data.len() {
             None
         } else {
             unsafe {
@@ -123,7 +123,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From 712c373af79dfb53e877827bc50e74bce20c9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 02/68] fix: iterating over and sorting an empty buffer through
 typed references does not panic

The dangling pointer of an empty buffer is not aligned for most types, which
bytemuck::cast_slice refuses.
---
 pasture-core/src/containers/attribute_iterators.rs | 14 ++++++++++++--
 pasture-core/src/containers/buffer_views.rs        |  4 ++++
 pasture-core/src/containers/point_iterators.rs     | 14 ++++++++++++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index 8729d9a..d8b4073 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -77,7 +77,12 @@ impl<'a, T: PrimitiveType> AttributeIteratorByRef<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_ref(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice(attribute_memory),
+            // The memory of an empty buffer is not necessarily aligned for `T`
+            attribute_data: if attribute_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(attribute_memory)
+            },
             current_index: 0,
         }
     }
@@ -119,7 +124,12 @@ impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_mut(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice_mut(attribute_memory),
+            // The memory of an empty buffer is not necessarily aligned for `T`
+            attribute_data: if attribute_memory.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(attribute_memory)
+            },
             current_index: 0,
         }
     }
diff --git a/pasture-core/src/containers/buffer_views.rs b/pasture-core/src/containers/buffer_views.rs
index b44ed20..7e25fea 100644
--- a/pasture-core/src/containers/buffer_views.rs
+++ b/pasture-core/src/containers/buffer_views.rs
@@ -235,6 +235,10 @@ impl<'a, 'b, B: InterleavedBufferMut<'a>, T: PointType> PointViewMut<'a, 'b, B,
 
     /// Sorts the point buffer using the given `comparator` function
     pub fn sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, comparator: F) {
+        // The memory of an empty buffer is not necessarily aligned for `T`
+        if self.buffer.is_empty() {
+            return;
+        }
         let typed_points: &mut [T] =
             bytemuck::cast_slice_mut(self.buffer.get_point_range_mut(0..self.buffer.len()));
         typed_points.sort_by(comparator);
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index 20c9fef..cd4bda9 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -60,7 +60,12 @@ where
     fn from(value: &'a B) -> Self {
         let points_memory = value.get_point_range_ref(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice(points_memory),
+            // The memory of an empty buffer is not necessarily aligned for `T`
+            point_data: if points_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(points_memory)
+            },
             current_index: 0,
         }
     }
@@ -100,7 +105,12 @@ where
     fn from(value: &'a mut B) -> Self {
         let memory_for_all_points = value.get_point_range_mut(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice_mut(memory_for_all_points),
+            // The memory of an empty buffer is not necessarily aligned for `T`
+            point_data: if memory_for_all_points.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(memory_for_all_points)
+            },
             current_index: 0,
             _phantom: Default::default(),
         }
-- 
2.43.0


From 83d74d1cd5d7399408208a30b18bb6ccf3d4c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 03/68] fix: a mutable slice refuses points outside of its
 window

BufferSliceMut compared local indices with the global end of its range
instead of its length, so that a slice that does not start at 0 read and
wrote points behind it.
---
 pasture-core/src/containers/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..24683e0 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,12 +219,12 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
+        assert!(local_index < self.point_range.len());
         local_index + self.point_range.start
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
+        assert!(local_range.end <= self.point_range.len());
         if local_range.start >= local_range.end {
             // Doesn't matter what range we return, as long as it is empty
             self.point_range.end..self.point_range.end
-- 
2.43.0


From 617e159571fe9fd8eb84749ae664f169ae29f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 04/68] fix: slicing a slice accepts ranges up to its end

---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 24683e0..b664823 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -424,8 +424,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -444,8 +444,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From e2e095499f647f7acf4a6ce7450f352e745576ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 05/68] fix: pushing no points into a HashMapBuffer without
 attributes does not divide by zero

---
 pasture-core/src/containers/point_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..535f541 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1278,6 +1278,10 @@ where
 {
     unsafe fn push_points(&mut self, point_bytes: &[u8]) {
         let point_size = self.point_layout.size_of_point_entry() as usize;
+        if point_size == 0 {
+            assert_eq!(0, point_bytes.len());
+            return;
+        }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
         for attribute in self.point_layout.attributes() {
-- 
2.43.0


From 39e3fefb30b89310fc9518c38ee111a9e3bb2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 06/68] fix: RawPointConverter copies attributes that have the
 same datatype in both layouts

---
 pasture-core/src/layout/conversion/attribute_conversion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..a95e457 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -77,7 +77,9 @@ impl RawPointConverter {
                 let conversion_fn = get_converter_for_attributes(
                     from_attribute.attribute_definition(),
                     to_attribute.attribute_definition(),
-                );
+                )
+                // Equal attributes need no conversion, but their data still has to be copied
+                .or(Some(convert_unit));
                 conversion_fn.map(|conversion_fn| {
                     RawAttributeConverter::new(
                         conversion_fn,
-- 
2.43.0


From 3120e3a9f6654ced668f3b0d0691873e8ad33564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 07/68] fix: the alignment and size of a packed(N) point layout
 follow the repr(packed(N)) rules

The alignment of the record was always capped to the initial value 1, so that
the size of e.g. [POSITION_3D, INTENSITY] packed to 4 bytes was 26 instead of
28, and differed from the layout of the corresponding repr(C, packed(4)) struct.
---
 pasture-core/src/layout/point_layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 97bd11a..ce2b49b 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -826,8 +826,8 @@ impl PointLayout {
                 current_max_alignment,
                 point_attribute.datatype().min_alignment(),
             ),
-            FieldAlignment::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, current_max_alignment)
+            FieldAlignment::Packed(_) => {
+                std::cmp::max(current_max_alignment, alignment_requirement_of_field)
             }
         };
 
-- 
2.43.0


From 75289da21a8f5e10fec1f7c76a0082c90be290f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 08/68] fix: an attribute added to a layout with reordered
 members does not overlap the others

---
 pasture-core/src/layout/point_layout.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index ce2b49b..47f48a9 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1008,14 +1008,13 @@ impl PointLayout {
     /// Returns the offset of the next field that could be added to this `PointLayout`, without any alignment
     /// requirements
     fn packed_offset_of_next_field(&self) -> u64 {
-        if self.attributes.is_empty() {
-            0
-        } else {
-            // If there are previous attributes, the offset to this attribute is equal to the offset
-            // to the previous attribute plus the previous attribute's size
-            let last_attribute = self.attributes.last().unwrap();
-            last_attribute.offset() + last_attribute.size()
-        }
+        // The attributes are not necessarily sorted by offset, so the next free byte is behind the attribute that
+        // ends last in memory
+        self.attributes
+            .iter()
+            .map(|attribute| attribute.offset() + attribute.size())
+            .max()
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 72e33ce46b87faf2ebbde9c8b40a6f7c1b5d9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 09/68] fix: derive(PointType) takes all repr attributes of a
 struct into account

With #[repr(C)] #[repr(packed(2))] only the first one was looked at, and the
derived offsets were not those of the struct.
---
 pasture-derive/src/layout.rs | 76 +++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index d33a1f1..89d1498 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -98,47 +98,53 @@ pub(crate) fn get_struct_member_layout(
     struct_attributes: &[Attribute],
     data_struct: &DataStruct,
 ) -> Result<StructMemberLayout> {
-    // Do we have a #[repr(...)] attribute?
-    let maybe_repr_attribute = struct_attributes.iter().find(|a| is_repr_attribute(a));
-    if maybe_repr_attribute.is_none() {
+    // Do we have a #[repr(...)] attribute? The arguments can be spread over multiple attributes, `#[repr(C)] #[repr(packed)]`
+    // is the same as `#[repr(C, packed)]`
+    let repr_attributes = struct_attributes
+        .iter()
+        .filter(|a| is_repr_attribute(a))
+        .collect::<Vec<_>>();
+    if repr_attributes.is_empty() {
         //return Ok(StructMemberLayout::Rust);
         return Err(Error::new_spanned(data_struct.struct_token, "derive(PointType) is only valid for structs that are either #[repr(C)] or #[repr(packed)]"));
     }
 
-    let repr_attribute = maybe_repr_attribute.unwrap();
-    let attribute_as_meta = repr_attribute.parse_meta()?;
-
-    match &attribute_as_meta {
-        syn::Meta::List(list) => {
-            // There are several possible arguments for #[repr] on structs:
-            // - C
-            // - transparent (on single-value structs)
-            // - packed
-            // - packed(N)
-            // - align(N)
-            // Several combinations of those are possible! So first we look for either
-            // the 'C' or 'packed'/'packed(N)' arguments
-
-            let maybe_packed = list.nested.iter().find(|arg| arg_is_packed(arg));
-            if let Some(packed_arg) = maybe_packed {
-                let packing = get_packing_from_arg(packed_arg)?;
-                return Ok(StructMemberLayout::Packed(packing));
+    let mut repr_args = vec![];
+    for repr_attribute in &repr_attributes {
+        match repr_attribute.parse_meta()? {
+            syn::Meta::List(list) => repr_args.extend(list.nested),
+            _ => {
+                return Err(Error::new_spanned(
+                    repr_attribute,
+                    "Could not parse repr attribute",
+                ))
             }
+        }
+    }
 
-            let maybe_repr_c = list.nested.iter().find(|arg| arg_is_c(arg));
-            if maybe_repr_c.is_some() {
-                return Ok(StructMemberLayout::C);
-            }
+    // There are several possible arguments for #[repr] on structs:
+    // - C
+    // - transparent (on single-value structs)
+    // - packed
+    // - packed(N)
+    // - align(N)
+    // Several combinations of those are possible! So first we look for either
+    // the 'C' or 'packed'/'packed(N)' arguments
 
-            //Ok(StructMemberLayout::Rust)
-            Err(Error::new_spanned(
-                repr_attribute,
-                "Unrecongized repr attribute",
-            ))
-        }
-        _ => Err(Error::new_spanned(
-            repr_attribute,
-            "Could not parse repr attribute",
-        )),
+    let maybe_packed = repr_args.iter().find(|arg| arg_is_packed(arg));
+    if let Some(packed_arg) = maybe_packed {
+        let packing = get_packing_from_arg(packed_arg)?;
+        return Ok(StructMemberLayout::Packed(packing));
+    }
+
+    let maybe_repr_c = repr_args.iter().find(|arg| arg_is_c(arg));
+    if maybe_repr_c.is_some() {
+        return Ok(StructMemberLayout::C);
     }
+
+    //Ok(StructMemberLayout::Rust)
+    Err(Error::new_spanned(
+        repr_attributes[0],
+        "Unrecongized repr attribute",
+    ))
 }
-- 
2.43.0


From d96993b35cd3e61f2b2fd338005f4ad003c8a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 10/68] fix: a VectorBuffer collected from an iterator has
 exactly the points of the iterator

The upper bound of the size hint was taken as the number of points, so that
collecting e.g. a filtered iterator left zeroed points at the end.
---
 pasture-core/src/containers/point_buffer.rs | 45 ++++++---------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 535f541..51d04b7 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -851,39 +851,18 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
-        if let Some(known_length) = maybe_known_length {
-            let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
-            let storage = vec![0; num_bytes];
-            let mut buffer = Self {
-                point_layout,
-                storage,
-                length: known_length,
-            };
-            // Overwrite the preallocated memory of the buffer with the points in the iterator:
-            iter.enumerate().for_each(|(index, point)| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we created `buffer` from `T::layout()`, so we know the layouts match
-                unsafe {
-                    buffer.set_point(index, point_bytes);
-                }
-            });
-            buffer
-        } else {
-            let mut buffer = Self {
-                point_layout,
-                storage: Default::default(),
-                length: 0,
-            };
-            iter.for_each(|point| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we know that `buffer` has the same layout as `T`
-                unsafe {
-                    buffer.push_points(point_bytes);
-                }
-            });
-            buffer
-        }
+        // The upper bound of the size hint may be larger than the number of points that `iter` yields, e.g. for filtered
+        // iterators, so it does not determine the length of the buffer
+        let (min_length, _) = iter.size_hint();
+        let mut buffer = Self::with_capacity(min_length, point_layout);
+        iter.for_each(|point| {
+            let point_bytes = bytemuck::bytes_of(&point);
+            // Safe because we know that `buffer` has the same layout as `T`
+            unsafe {
+                buffer.push_points(point_bytes);
+            }
+        });
+        buffer
     }
 }
 
-- 
2.43.0


From 8e6d1df220edfdd85182e1df92221177ae689f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 11/68] fix: pushing the data of one attribute twice into a
 HashMapBuffer is refused

It left the attributes of the buffer with different numbers of values.
---
 pasture-core/src/containers/point_buffer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 51d04b7..aaadf64 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -897,6 +897,7 @@ impl<'a> HashMapBufferAttributePusher<'a> {
     ///
     /// If `attribute` is not part of the `PointLayout` of the underlying buffer.<br>
     /// If `T::data_type()` does not match `attribute.datatype()`.<br>
+    /// If data was already pushed for `attribute`.<br>
     /// If this is not the first call to `push_attribute_range`, and `data.len()` does not match the length of the
     /// data that was passed to the first invocation of `push_attribute_range`
     pub fn push_attribute_range<T: PrimitiveType>(
@@ -914,6 +915,11 @@ impl<'a> HashMapBufferAttributePusher<'a> {
         } else {
             self.num_new_points = Some(data.len());
         }
+        assert!(
+            storage.is_empty(),
+            "Data for attribute {} was already pushed",
+            attribute
+        );
         storage.extend_from_slice(bytemuck::cast_slice(data));
     }
 
-- 
2.43.0


From e00d52f7a1562cd1c5237c514d2d5d48ca10876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 12/68] fix: voxelgrid_filter of an empty point cloud yields no
 points instead of panicking

---
 pasture-algorithms/src/voxel_grid.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..f1911fd 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -118,6 +118,11 @@ pub fn voxelgrid_filter<'a, 'b, PB: BorrowedBuffer<'a>, PBW: OwningBuffer<'b>>(
         panic!("The PointBuffer does not have the attribute attributes::POSITION_3D which is needed for the creation of the voxel grid.");
     }
 
+    // a point cloud without points has no occupied voxels
+    if buffer.is_empty() {
+        return;
+    }
+
     // get the bounding box of the pointcloud
     let aabb = calculate_bounds(buffer).unwrap();
 
-- 
2.43.0


From d2411cb9087923420e9d1a0098f47f79dab7b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 13/68] fix: voxelgrid_filter refuses leaf sizes that are not
 positive instead of not terminating

---
 pasture-algorithms/src/voxel_grid.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index f1911fd..4646ef6 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -80,6 +80,10 @@ fn create_markers_for_axis(
 /// Currently only works for point_layouts which only contain the builtin-types.
 /// Writes results into `filtered_buffer`.
 ///
+/// # Panics
+///
+/// If `buffer` has no attribute `POSITION_3D`, or if one of the leaf sizes is not greater than zero.
+///
 /// # Examples
 /// ```
 /// # use pasture_algorithms::voxel_grid::voxelgrid_filter;
@@ -118,6 +122,11 @@ pub fn voxelgrid_filter<'a, 'b, PB: BorrowedBuffer<'a>, PBW: OwningBuffer<'b>>(
         panic!("The PointBuffer does not have the attribute attributes::POSITION_3D which is needed for the creation of the voxel grid.");
     }
 
+    // Without a positive leaf size, the markers would never reach the end of the bounding box
+    if !(leafsize_x > 0.0 && leafsize_y > 0.0 && leafsize_z > 0.0) {
+        panic!("The leaf sizes of the voxel grid must be greater than zero.");
+    }
+
     // a point cloud without points has no occupied voxels
     if buffer.is_empty() {
         return;
-- 
2.43.0


From de2493d1b071babf9398cfca715a929ae06a4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 14/68] fix: max-pooling in voxelgrid_filter handles negative
 values

---
 pasture-algorithms/src/voxel_grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 4646ef6..7b9a49d 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -183,7 +183,7 @@ fn centroid_max_pool<'a, T: BorrowedBuffer<'a>>(
     attribute_definition: &PointAttributeDefinition,
     point_type: PointAttributeDataType,
 ) -> f64 {
-    let mut curr_max = 0.0;
+    let mut curr_max = f64::NEG_INFINITY;
     let mut value;
     for p in &v.points {
         match point_type {
-- 
2.43.0


From e68e10c38c2fedbff67ba3d3ffece33a0266e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 15/68] fix: max-pooling of point IDs in voxelgrid_filter is
 exact

---
 pasture-algorithms/src/voxel_grid.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 7b9a49d..ef8577c 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -673,8 +673,9 @@ fn set_all_attributes<'a, PB: BorrowedBuffer<'a>>(
         } else if a.name() == attributes::POINT_ID.name()
             && a.datatype() == attributes::POINT_ID.datatype()
         {
-            let max =
-                centroid_max_pool::<PB>(v, buffer, &attributes::POINT_ID, a.datatype()) as u64;
+            // 64-bit IDs can't be represented exactly as f64, so max-pooling is done on the integer values
+            let point_ids = buffer.view_attribute::<u64>(&attributes::POINT_ID);
+            let max = v.points.iter().map(|p| point_ids.at(*p)).max().unwrap_or(0);
             let m_slice = bytemuck::bytes_of(&max);
             centroid
                 .set_raw_attribute(&attributes::POINT_ID, m_slice)
-- 
2.43.0


From b04c3c76c9aed7121226a9c03f622d35b9b9cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 16/68] fix: convex hull of a cloud that repeats its first
 points

Rounding of the projected length made a repeated point count as linearly
independent, which gave a triangle without normal as start of the hull.
---
 pasture-algorithms/src/convexhull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 01f2390..aa10eb2 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -148,7 +148,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                 let ac: Vector3<f64> = point - first_a;
                 let ab_norm = ab.normalize();
                 let ac_ab_projected_length = ac.dot(&ab_norm);
-                if f64::abs(ac_ab_projected_length) == ac.magnitude() {
+                if ab.cross(&ac).magnitude_squared() == 0.0 {
                     if ac_ab_projected_length >= 0.0 {
                         if ac.magnitude_squared() > ab_mag_sqr {
                             first.b = pointid;
-- 
2.43.0


From f2f1639cfe0dc85ec33ac1a8210d5a06203e087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 17/68] fix: convex hull of points in the plane of a hull face

Points inside of a face plane of a solid hull were added by the procedure for
flat hulls, and that procedure lost points and made degenerate triangles. It is
used for flat hulls only now, and rebuilds both sides from the border.
---
 pasture-algorithms/src/convexhull.rs | 247 +++++----------------------
 1 file changed, 44 insertions(+), 203 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index aa10eb2..a993620 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -1,7 +1,7 @@
 use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::{layout::attributes::POSITION_3D, nalgebra::Vector3};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
 use std::hash::{Hash, Hasher};
 use std::usize;
 
@@ -201,191 +201,56 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                     normal: calc_normal(edge_a, edge_b, point),
                 });
             }
-        } else {
-            // Find all edges of the triangle of which the edge-normal is facing the point.
-            let mut edges_facing_point = Vec::new();
-            let mut edge_triangle_id = Vec::new();
+        } else if planar_triangles.len() == triangles.len() {
+            // The convex hull is flat and `point` lies in its plane. Find the edges around the side that faces along
+            // `normal`. Seen from this side they run counter-clockwise.
             let position_view = buffer.view_attribute(&POSITION_3D);
-            for (i, pt) in planar_triangles.iter().enumerate() {
-                let planar_a = position_view.at(pt.a);
-                let planar_b = position_view.at(pt.b);
-                let planar_c = position_view.at(pt.c);
-                let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
-                if dist_ab >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.a, b: pt.b });
-                    edge_triangle_id.push(i);
-                }
-                let dist_bc = dist_point_to_edge(point, planar_b, planar_c, pt.normal);
-                if dist_bc >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.b, b: pt.c });
-                    edge_triangle_id.push(i);
-                }
-                let dist_ca = dist_point_to_edge(point, planar_c, planar_a, pt.normal);
-                if dist_ca >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.c, b: pt.a });
-                    edge_triangle_id.push(i);
-                }
-                if dist_ab < 0.0 && dist_bc < 0.0 && dist_ca < 0.0 {
-                    edges_facing_point.clear();
-                    break;
-                }
-            }
-
-            // Remove all edges occluded by other edges.
-            let mut edge_triangle_normals = Vec::new();
-            for i in (0..edges_facing_point.len()).rev() {
-                let edg = edges_facing_point[i];
-                let edg_a: Vector3<f64> = position_view.at(edg.a);
-                let edg_b: Vector3<f64> = position_view.at(edg.b);
-                let dist_edg_a_p = (edg_a - point).magnitude_squared();
-                let dist_edg_b_p = (edg_b - point).magnitude_squared();
-                let dist_edg_p = dist_point_to_line_segment(point, edg_a, edg_b);
-                let edg_triangle_normal: Vector3<f64> =
-                    planar_triangles[edge_triangle_id[i]].normal;
-                let mut remove = false;
-                for other_edge_id in 0..edges_facing_point.len() {
-                    if other_edge_id != i {
-                        let other_edg_triangle_normal =
-                            planar_triangles[edge_triangle_id[other_edge_id]].normal;
-                        if edg_triangle_normal.dot(&other_edg_triangle_normal) > 0.0 {
-                            let other_edg = edges_facing_point[other_edge_id];
-                            let other_edg_a: Vector3<f64> = position_view.at(other_edg.a);
-                            let other_edg_b: Vector3<f64> = position_view.at(other_edg.b);
-                            let point_other_edg_a = other_edg_a - point;
-                            let point_other_edg_b = other_edg_b - point;
-                            let point_other_edg_a_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_a);
-                            let point_other_edg_b_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_b);
-                            let edg_a_other_edg_a = edg_a - other_edg_a;
-                            let edg_a_other_edg_b = edg_a - other_edg_b;
-                            let edg_b_other_edg_a = edg_b - other_edg_a;
-                            let edg_b_other_edg_b = edg_b - other_edg_b;
-                            let ea_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_a_other_edg_a);
-                            let eb_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_b_other_edg_a);
-                            let ea_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_a_other_edg_b);
-                            let eb_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_b_other_edg_b);
-                            if ea_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_a_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if eb_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_b_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if (ea_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0)
-                                || (eb_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0)
-                            {
-                                let dist_other_edg_p =
-                                    dist_point_to_line_segment(point, other_edg_a, other_edg_b);
-                                if dist_edg_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                        }
+            let normal = planar_triangles[0].normal;
+            let mut border_edges = HashSet::new();
+            let mut diagonal_edges = HashSet::new();
+            for tri in planar_triangles.iter() {
+                if tri.normal.dot(&normal) > 0.0 {
+                    for (a, b) in [(tri.a, tri.b), (tri.b, tri.c), (tri.c, tri.a)] {
+                        add_edge_to_outer_or_inner_edges(
+                            a,
+                            b,
+                            &mut border_edges,
+                            &mut diagonal_edges,
+                        );
                     }
                 }
-                if remove {
-                    edges_facing_point.remove(i);
-                    edge_triangle_id.remove(i);
-                } else {
-                    edge_triangle_normals.insert(0, -edg_triangle_normal);
-                }
             }
 
-            // Remove all triangles with vertices that are contained in two edges facing point
-            let edgenum = edges_facing_point.len();
-            if edgenum > 2 {
-                let mut edges_to_remove = HashSet::new();
-                let mut vertices_on_one_edge_start = HashMap::new();
-                let mut vertices_on_one_edge_end = HashMap::new();
-                let mut vertices_on_two_edges = HashMap::new();
-                for facing_edge in edges_facing_point.iter() {
-                    let res_a = vertices_on_one_edge_start
-                        .insert(facing_edge.a, (facing_edge.b, *facing_edge));
-                    if let Some(res_a) = res_a {
-                        if res_a.0 != facing_edge.b {
-                            vertices_on_one_edge_start.remove(&facing_edge.a);
-                            vertices_on_two_edges.insert(facing_edge.a, (res_a.1, *facing_edge));
-                        }
-                    }
-                    let res_b = vertices_on_one_edge_end
-                        .insert(facing_edge.b, (facing_edge.a, *facing_edge));
-                    if let Some(res_b) = res_b {
-                        if res_b.0 != facing_edge.a {
-                            vertices_on_one_edge_end.remove(&facing_edge.b);
-                            vertices_on_two_edges.insert(facing_edge.b, (res_b.1, *facing_edge));
-                        }
-                    }
-                }
-                let mut triangles_to_remove = Vec::new();
-                for t_id in 0..triangles.len() {
-                    let tri = triangles.get(t_id).unwrap();
-                    let res_a = vertices_on_two_edges.get(&tri.a);
-                    let res_b = vertices_on_two_edges.get(&tri.b);
-                    let res_c = vertices_on_two_edges.get(&tri.c);
-                    let a_on_two_edges = res_a.is_some();
-                    let b_on_two_edges = res_b.is_some();
-                    let c_on_two_edges = res_c.is_some();
-                    if a_on_two_edges || b_on_two_edges || c_on_two_edges {
-                        triangles_to_remove.push(t_id);
-                        if c_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if b_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if a_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                    }
-                }
-                for t_id_remove in triangles_to_remove.iter().rev() {
-                    triangles.remove(*t_id_remove);
-                }
-                for efp in (0..edges_facing_point.len()).rev() {
-                    if edges_to_remove.contains(edges_facing_point.get(efp).unwrap()) {
-                        edges_facing_point.remove(efp);
-                        edge_triangle_normals.remove(efp);
-                    }
+            // Remove all edges that face the point or that would be a part of a longer edge to the point.
+            // Without an edge that faces the point it lies within the current convex hull.
+            let mut is_outside = false;
+            border_edges.retain(|edge| {
+                let edge_a = position_view.at(edge.a);
+                let edge_b = position_view.at(edge.b);
+                let dist = dist_point_to_edge(point, edge_a, edge_b, normal);
+                is_outside |= dist > 0.0;
+                dist < 0.0
+            });
+            if is_outside {
+                triangles.clear();
+                for edge in border_edges.iter() {
+                    let edge_a = position_view.at(edge.a);
+                    let edge_b = position_view.at(edge.b);
+                    let normal = calc_normal(edge_a, edge_b, point);
+                    triangles.push(Triangle {
+                        a: edge.a,
+                        b: edge.b,
+                        c: pointid,
+                        normal,
+                    });
+                    triangles.push(Triangle {
+                        a: edge.b,
+                        b: edge.a,
+                        c: pointid,
+                        normal: -normal,
+                    });
                 }
             }
-
-            for i in 0..edges_facing_point.len() {
-                let edg = edges_facing_point[i];
-                triangles.push(Triangle {
-                    a: edg.a,
-                    b: edg.b,
-                    c: pointid,
-                    normal: edge_triangle_normals[i],
-                });
-            }
         }
     }
 }
@@ -407,30 +272,6 @@ fn dist_point_to_edge(
     edge_ab_normal.dot(&pa)
 }
 
-/// Calculates the distance of a point to a line segment.
-/// `point`: the point that lies in the same plane as the edge
-/// `line_a`: first vertex of the line segment
-/// `line_b`: second vertex of the line segment
-fn dist_point_to_line_segment(
-    point: Vector3<f64>,
-    segment_a: Vector3<f64>,
-    segment_b: Vector3<f64>,
-) -> f64 {
-    let ab: Vector3<f64> = segment_b - segment_a;
-    let ap: Vector3<f64> = point - segment_a;
-
-    if ap.dot(&ab) <= 0.0 {
-        return ap.magnitude();
-    }
-
-    let bp = point - segment_b;
-    if bp.dot(&ab) >= 0.0 {
-        return bp.magnitude();
-    }
-
-    ab.cross(&ap).magnitude() / ab.magnitude()
-}
-
 /// Adds the given edge to the set of outer edges. If the given edge is already contained in the set of outer edges it is removed and added to the set of inner edges.
 /// `a`: first vertex of the edge
 /// `b`: second vertex of the edge
-- 
2.43.0


From 023d02aa5884820b609efbf03b31d3e53771ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 18/68] fix: the hull points of an empty cloud are empty
 instead of a panic

---
 pasture-algorithms/src/convexhull.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index a993620..1623af2 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -69,8 +69,7 @@ pub fn convex_hull_as_points<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<us
             points.insert(tri.b);
             points.insert(tri.c);
         }
-    } else {
-        let tri = triangles[0];
+    } else if let Some(tri) = triangles.first() {
         points.insert(tri.a);
         points.insert(tri.b);
         if tri.c != 0 {
-- 
2.43.0


From 92a97d5670a2b8e5dbece5f213099d2f2650a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 19/68] fix: convex hull of positions that are not Vec3f64

The converted positions were compared with an unconverted view, which panicked.
---
 pasture-algorithms/src/convexhull.rs | 53 +++++++++++++---------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 1623af2..43ce2a1 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -92,39 +92,35 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
         }
     };
 
-    let mut pointid: usize = 0;
-    if position_attribute.datatype() == POSITION_3D.datatype() {
-        for point in buffer.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+    let positions: Vec<Vector3<f64>> = if position_attribute.datatype() == POSITION_3D.datatype() {
+        buffer
+            .view_attribute::<Vector3<f64>>(&POSITION_3D)
+            .into_iter()
+            .collect()
     } else {
-        for point in buffer
+        buffer
             .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
             .expect("Can't convert POSITION_3D attribute")
-        {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+            .into_iter()
+            .collect()
     };
+    for pointid in 0..positions.len() {
+        iteration(&positions, pointid, &mut triangles);
+    }
     triangles
 }
 
 /// Performs a single iteration of the cunvex hull algorithm.
-/// `pointid`: current index within the buffer
-/// `point`: current point to be checked against the convex hull, possibly extends the convex hull
+/// `positions`: the positions of all points within the buffer
+/// `pointid`: index of the current point to be checked against the convex hull, possibly extends the convex hull
 /// `triangles`: the set of triangles forming the convex hull
 /// Each iteration receives a convex hull and checks it against the current point within the buffer.
 /// If the point lies within the current convex hull no changes have to be made.
 /// If the point lies outside of the current convex hull the hull has to be extended to include the current point.
 /// If 'triangles' contain only one entry: no full triangle has been found yet. In case of linearily dependant points no second triangle is added.
 /// If all 'triangles' are in a plane with 'point' a special triangulation procedure is needed to prevent a degenerated triangle mesh.
-fn iteration<'a, T: BorrowedBuffer<'a>>(
-    buffer: &'a T,
-    pointid: usize,
-    point: Vector3<f64>,
-    triangles: &mut Vec<Triangle>,
-) {
+fn iteration(positions: &[Vector3<f64>], pointid: usize, triangles: &mut Vec<Triangle>) {
+    let point = positions[pointid];
     if pointid == 0 {
         triangles.push(Triangle {
             a: 0,
@@ -137,8 +133,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         if pointid == 1 {
             first.b = pointid;
         } else {
-            let first_a = buffer.view_attribute(&POSITION_3D).at(first.a);
-            let first_b = buffer.view_attribute(&POSITION_3D).at(first.b);
+            let first_a = positions[first.a];
+            let first_b = positions[first.b];
             let ab: Vector3<f64> = first_b - first_a;
             let ab_mag_sqr = ab.magnitude_squared();
             if ab_mag_sqr == 0.0 {
@@ -175,7 +171,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         let mut planar_triangles = Vec::new();
 
         triangles.retain(|tri| {
-            let tri_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(tri.a);
+            let tri_a: Vector3<f64> = positions[tri.a];
             let pa: Vector3<f64> = tri_a - point;
             let dot = pa.dot(&tri.normal);
             if dot < 0.0 {
@@ -191,8 +187,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
 
         if !outer_edges.is_empty() || !inner_edges.is_empty() {
             for edge in outer_edges.iter() {
-                let edge_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.a);
-                let edge_b: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.b);
+                let edge_a: Vector3<f64> = positions[edge.a];
+                let edge_b: Vector3<f64> = positions[edge.b];
                 triangles.push(Triangle {
                     a: edge.a,
                     b: edge.b,
@@ -203,7 +199,6 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         } else if planar_triangles.len() == triangles.len() {
             // The convex hull is flat and `point` lies in its plane. Find the edges around the side that faces along
             // `normal`. Seen from this side they run counter-clockwise.
-            let position_view = buffer.view_attribute(&POSITION_3D);
             let normal = planar_triangles[0].normal;
             let mut border_edges = HashSet::new();
             let mut diagonal_edges = HashSet::new();
@@ -224,8 +219,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             // Without an edge that faces the point it lies within the current convex hull.
             let mut is_outside = false;
             border_edges.retain(|edge| {
-                let edge_a = position_view.at(edge.a);
-                let edge_b = position_view.at(edge.b);
+                let edge_a = positions[edge.a];
+                let edge_b = positions[edge.b];
                 let dist = dist_point_to_edge(point, edge_a, edge_b, normal);
                 is_outside |= dist > 0.0;
                 dist < 0.0
@@ -233,8 +228,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             if is_outside {
                 triangles.clear();
                 for edge in border_edges.iter() {
-                    let edge_a = position_view.at(edge.a);
-                    let edge_b = position_view.at(edge.b);
+                    let edge_a = positions[edge.a];
+                    let edge_b = positions[edge.b];
                     let normal = calc_normal(edge_a, edge_b, point);
                     triangles.push(Triangle {
                         a: edge.a,
-- 
2.43.0


From 3d459b557e670bfa1d9a224fc8d71dcdd101a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 20/68] fix: convex hull of a cloud that repeats a hull vertex

Rounding made a repeated vertex lie outside of its own triangles, which then were
replaced by triangles without area.
---
 pasture-algorithms/src/convexhull.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 43ce2a1..0f1a2e7 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -166,6 +166,14 @@ fn iteration(positions: &[Vector3<f64>], pointid: usize, triangles: &mut Vec<Tri
             }
         }
     } else {
+        // The position of a vertex is a part of the convex hull already. Rounding may place it outside of its own triangles
+        let is_vertex = |tri: &Triangle| {
+            positions[tri.a] == point || positions[tri.b] == point || positions[tri.c] == point
+        };
+        if triangles.iter().any(is_vertex) {
+            return;
+        }
+
         let mut outer_edges = HashSet::new();
         let mut inner_edges = HashSet::new();
         let mut planar_triangles = Vec::new();
-- 
2.43.0


From 63b3852a935f3572c502f1193cf8bde3a8f1cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 21/68] fix: normals point in the direction of least variance

The smallest eigen value was computed from the unscaled matrix, and subtracted
from a copy of the diagonal, so normals and curvatures were off unless all
points of the neighbourhood lay in a plane exactly.
---
 pasture-algorithms/src/normal_estimation.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 3bf9f89..5df434f 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -425,7 +425,10 @@ fn get_largest_eigen_vector(scaled_matrix: &DMatrix<f64>) -> Vector3<f64> {
 
 /// for a given 3x3 matrix the functions calculates the eigen vector of the smallest eigen value that can be found
 fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
-    let scale = covariance_matrix.abs().max();
+    let mut scale = covariance_matrix.abs().max();
+    if scale == 0.0 {
+        scale = 1.0;
+    }
     let mut covariance_matrix_scaled = DMatrix::<f64>::zeros(3, 3);
     for i in 0..covariance_matrix.len() {
         covariance_matrix_scaled[i] = covariance_matrix[i] / scale;
@@ -436,15 +439,14 @@ fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
         covariance_matrix_scaled[index] = value / scale;
     }
 
-    let eigen_values = solve_polynomial(covariance_matrix);
+    let eigen_values = solve_polynomial(&covariance_matrix_scaled);
     // undo scale for smallest eigen vector
     let eigen_value = eigen_values[0] * scale;
 
     // subtract the smallest eigen value from the diagonal of the matrix
-    covariance_matrix_scaled
-        .diagonal()
-        .iter_mut()
-        .for_each(|x| *x -= eigen_values[0]);
+    for i in 0..3 {
+        covariance_matrix_scaled[(i, i)] -= eigen_values[0];
+    }
 
     let eigen_vector = get_largest_eigen_vector(&covariance_matrix_scaled);
     (eigen_value, eigen_vector)
-- 
2.43.0


From aa9c3fb6dedcb3856000e12eb6669dffbbeb2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 22/68] fix: the centroid leaves out points with infinite
 coordinates

They were left out only if the cloud had a point that is not a number as well.
---
 pasture-algorithms/src/normal_estimation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 5df434f..6fd6580 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -127,10 +127,10 @@ where
     points_with_normals_curvature
 }
 
-/// checks whether a given point cloud has points with coordinates that are Not a Number
+/// checks whether all points of a given point cloud have finite coordinates
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-        if point.x.is_nan() || point.y.is_nan() || point.z.is_nan() {
+        if !is_finite(&point) {
             return false;
         }
     }
-- 
2.43.0


From b6be2076c5ed98ab76073e70354b53a81c0cb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 23/68] fix: normals are computed from the nearest neighbors
 for points with the same coordinates

KdTree::nearests overlooks neighbors if points are repeated or lie on an axis
parallel line, which gave other neighborhoods or a panic.
---
 pasture-algorithms/src/normal_estimation.rs | 41 ++++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 6fd6580..2c33269 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -103,7 +103,7 @@ where
     // iterate over all points in the point cloud and and calculate the k nearest neighbors with the constructed kd tree
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
         let r: &[f64; 3] = point.as_ref();
-        let nearest_points = cloud_as_kd_tree.nearests(r, k_nn);
+        let nearest_points = nearest_points(&cloud_as_kd_tree, r, k_nn);
 
         // stores the k nearest neighbors in a PointStorage
         let mut k_nn_buffer =
@@ -111,10 +111,9 @@ where
         k_nn_buffer.resize(nearest_points.len());
 
         for (index, point) in nearest_points.iter().enumerate() {
-            k_nn_buffer.view_attribute_mut(&POSITION_3D).set_at(
-                index,
-                Vector3::new(point.item[0], point.item[1], point.item[2]),
-            );
+            k_nn_buffer
+                .view_attribute_mut(&POSITION_3D)
+                .set_at(index, Vector3::new(point[0], point[1], point[2]));
         }
 
         // coordinates of the surface normal and curvature
@@ -127,6 +126,38 @@ where
     points_with_normals_curvature
 }
 
+/// returns the k nearest neighbors of a point.
+/// `KdTree::nearests` may overlook neighbors as long as it has found less than k, if the coordinates of points are the same.
+/// Its result only serves as an upper bound for the distance of the k nearest neighbors.
+fn nearest_points(points: &KdTree<[f64; 3]>, point: &[f64; 3], k_nn: usize) -> Vec<[f64; 3]> {
+    let candidates = points.nearests(point, k_nn);
+    let max_distance = match candidates.last() {
+        Some(last) if candidates.len() == k_nn => last.squared_distance.sqrt() * (1.0 + 1e-9),
+        _ => f64::INFINITY,
+    };
+    if max_distance.is_nan() || max_distance == 0.0 {
+        return candidates.into_iter().map(|near| *near.item).collect();
+    }
+
+    let squared_distance = |other: &[f64; 3]| -> f64 {
+        (0..3)
+            .map(|axis| (other[axis] - point[axis]) * (other[axis] - point[axis]))
+            .sum()
+    };
+    let mut neighbors: Vec<[f64; 3]> = if max_distance.is_finite() {
+        points
+            .within_radius(point, max_distance)
+            .into_iter()
+            .copied()
+            .collect()
+    } else {
+        points.iter().copied().collect()
+    };
+    neighbors.sort_by(|a, b| squared_distance(a).total_cmp(&squared_distance(b)));
+    neighbors.truncate(k_nn);
+    neighbors
+}
+
 /// checks whether all points of a given point cloud have finite coordinates
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-- 
2.43.0


From 74bf685be0570a51e4e032a15d908d22c97646ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 24/68] fix: a projection between unknown reference systems is
 refused

It was created without a transformation and left all positions as they were.
---
 pasture-algorithms/src/reprojection.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 8496ed4..f840c92 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -1,6 +1,6 @@
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::math::AABB;
 use pasture_core::nalgebra::{Point3, Vector3};
@@ -27,10 +27,16 @@ impl Projection {
                 std::ptr::null_mut(),
             );
 
-            Ok(Self {
+            let proj = Self {
                 proj_context,
                 projection,
-            })
+            };
+            if proj.projection.is_null() {
+                return Err(anyhow!(
+                    "No transformation from {source_crs} to {target_crs} found"
+                ));
+            }
+            Ok(proj)
         }
     }
 
-- 
2.43.0


From 7da7c87182eb29642e4fda225aeefe4b8d55caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 25/68] fix: write the classification and user data columns
 from their own attributes

---
 pasture-io/src/ascii/raw_writer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 4e8da8c..731a9ad 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -124,15 +124,13 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
                         }
                         PointDataType::Classification => {
                             let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
+                                point.get_attribute::<u64>(&attributes::CLASSIFICATION)?;
                             self.writer
                                 .write_all(classification.to_string().as_bytes())?;
                         }
                         PointDataType::UserData => {
-                            let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
-                            self.writer
-                                .write_all(classification.to_string().as_bytes())?;
+                            let user_data = point.get_attribute::<u64>(&attributes::USER_DATA)?;
+                            self.writer.write_all(user_data.to_string().as_bytes())?;
                         }
                         PointDataType::ColorR => {
                             let color =
-- 
2.43.0


From 05fda1d15bc048ad7fac60972cb944ad667f80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 26/68] fix: keep the zeros of coordinates written without
 decimals

---
 pasture-io/src/ascii/raw_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 731a9ad..1e4dda8 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -208,6 +208,10 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
 }
 
 fn trim_unnecessary_tailing_zeros(slice: &str) -> &str {
+    // Without a decimal point all zeros are significant
+    if !slice.contains('.') {
+        return slice;
+    }
     let start = 0;
     let mut end = slice.len();
     while slice[start..end].ends_with('0') && !slice[start..end].ends_with(".0") {
-- 
2.43.0


From 040c244b431656d53994537af9e9e8d1388a0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 27/68] fix: report the number of text lines that were read

---
 pasture-io/src/ascii/raw_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index a7fdf0c..c2b5c1c 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -301,6 +301,7 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
     {
         let layout = point_buffer.point_layout().clone();
         let mut temp_point = UntypedPointBuffer::new(&layout);
+        let mut num_read = 0;
         //read line by line
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
             let line = line?;
@@ -311,8 +312,9 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
             unsafe {
                 point_buffer.set_point(index, temp_point.get_buffer());
             }
+            num_read += 1;
         }
-        Ok(count)
+        Ok(num_read)
     }
 
     fn get_default_point_layout(&self) -> &PointLayout {
-- 
2.43.0


From 79f05944e0cc027f88219fe05455668d12f1b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 28/68] fix: write table headers and their padding completely

---
 pasture-io/src/tiles3d/common.rs      | 2 +-
 pasture-io/src/tiles3d/pnts_writer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/common.rs b/pasture-io/src/tiles3d/common.rs
index 3a885c1..462b927 100644
--- a/pasture-io/src/tiles3d/common.rs
+++ b/pasture-io/src/tiles3d/common.rs
@@ -46,7 +46,7 @@ pub fn write_json_header<W: Write>(
 
     if num_padding_bytes > 0 {
         writer
-            .write(&vec![0x20; num_padding_bytes])
+            .write_all(&vec![0x20; num_padding_bytes])
             .context("Could not write padding bytes of JSON header to writer")?;
     }
 
diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 18bdfd9..cb2ed7b 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -214,11 +214,11 @@ impl<W: Write + Seek> PntsWriter<W> {
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
-            .write(feature_table_blob.as_slice())
+            .write_all(feature_table_blob.as_slice())
             .context("Error while writing FeatureTable header")?;
         self.write_feature_table_body()?;
         self.writer
-            .write(batch_table_blob.as_slice())
+            .write_all(batch_table_blob.as_slice())
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
-- 
2.43.0


From b7bebbebb2354fdddbcf40f70bf5715966c3663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 29/68] fix: offset only the positions that were read by the
 center of a PNTS file

---
 pasture-io/src/tiles3d/pnts_reader.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index c81ca47..afb9c96 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -244,9 +244,11 @@ impl<R: BufRead + Seek> PntsReader<R> {
         ))
     }
 
+    /// Applies the `RTC_CENTER` offset to the first `num_points` points of the given buffer
     fn apply_rtc_center_offset<'a, 'b, B: BorrowedMutBuffer<'a>>(
         &self,
         point_buffer: &'b mut B,
+        num_points: usize,
     ) -> Result<()>
     where
         'a: 'b,
@@ -264,7 +266,10 @@ impl<R: BufRead + Seek> PntsReader<R> {
             match position_attribute.datatype() {
                 PointAttributeDataType::Vec3f32 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f32>| -> Vector3<f32> {
+                    |index, position: Vector3<f32>| -> Vector3<f32> {
+                        if index >= num_points {
+                            return position;
+                        }
                         Vector3::new(
                             (position.x as f64 + rtc_center.x) as f32,
                             (position.y as f64 + rtc_center.y) as f32,
@@ -274,7 +279,12 @@ impl<R: BufRead + Seek> PntsReader<R> {
                 ),
                 PointAttributeDataType::Vec3f64 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f64>| -> Vector3<f64> { position + rtc_center },
+                    |index, position: Vector3<f64>| -> Vector3<f64> {
+                        if index >= num_points {
+                            return position;
+                        }
+                        position + rtc_center
+                    },
                 ),
                 other => bail!("Unsupported datatype {other} for POSITION_3D attribute"),
             }
@@ -358,7 +368,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         self.current_point_index += num_to_read;
 
         if let PntsReadPositionsMode::Absolute = self.read_positions_mode {
-            self.apply_rtc_center_offset(point_buffer)
+            self.apply_rtc_center_offset(point_buffer, num_to_read)
                 .context("Failed to apply RTC_CENTER offset")?;
         }
 
-- 
2.43.0


From 2a56e5c07f7abc84e9822bc7eb70bf2d761402cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 30/68] fix: reading no points from a PNTS file is not an error

---
 pasture-io/src/tiles3d/pnts_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index afb9c96..f330043 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -312,7 +312,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         let remaining_points = self.metadata.points_length() - self.current_point_index;
         let num_to_read = usize::min(remaining_points, count);
         if num_to_read == 0 {
-            bail!("No points remaining in PNTS file")
+            return Ok(0);
         }
 
         let target_layout = point_buffer.point_layout().clone();
-- 
2.43.0


From 7d9c678241a399ab2b9332890fd9f1bfe046417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 31/68] fix: return an error if a PNTS attribute can't be
 converted for the target buffer

---
 pasture-io/src/tiles3d/pnts_reader.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index f330043..72aa5ea 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -316,6 +316,25 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         }
 
         let target_layout = point_buffer.point_layout().clone();
+        // Make sure that all conversions are possible before any data is read
+        for attribute in self.layout.attributes() {
+            if let Some(target_attribute) = target_layout.get_attribute_by_name(attribute.name()) {
+                if attribute.datatype() != target_attribute.datatype()
+                    && get_converter_for_attributes(
+                        attribute.attribute_definition(),
+                        target_attribute.attribute_definition(),
+                    )
+                    .is_none()
+                {
+                    bail!(
+                        "Can't convert attribute {} to {}",
+                        attribute.attribute_definition(),
+                        target_attribute.attribute_definition()
+                    );
+                }
+            }
+        }
+
         for attribute in self.layout.attributes() {
             // Try to read this attribute only if it exists in the target buffer's PointLayout
             if let Some(target_attribute) = target_layout.get_attribute_by_name(attribute.name()) {
-- 
2.43.0


From 331e1de316a37dbdbb04a0b03f02a54312d65859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 32/68] fix: points written to a PNTS file after a flush are
 flushed as well

---
 pasture-io/src/tiles3d/pnts_writer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index cb2ed7b..8424736 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -2,7 +2,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, Seek, Write},
+    io::{Cursor, Seek, SeekFrom, Write},
 };
 
 use anyhow::{Context, Result};
@@ -72,6 +72,8 @@ pub struct PntsWriter<W: Write + Seek> {
     attribute_converters: HashMap<String, Option<AttributeConversionFn>>,
     rtc_center: Option<Vector3<f64>>,
     requires_flush: bool,
+    /// Position in `writer` of the file header, known once the file was written for the first time
+    start_position: Option<u64>,
 }
 
 impl<W: Write + Seek> PntsWriter<W> {
@@ -91,6 +93,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             attribute_converters,
             rtc_center: None,
             requires_flush: true,
+            start_position: None,
         }
     }
 
@@ -211,6 +214,14 @@ impl<W: Write + Seek> PntsWriter<W> {
                 .expect("Size of BatchTable binary body exceeds maximum size of 4GiB!"),
         );
 
+        // Consecutive flushes write all points that were cached so far, so they replace the previous file
+        match self.start_position {
+            Some(start_position) => {
+                self.writer.seek(SeekFrom::Start(start_position))?;
+            }
+            None => self.start_position = Some(self.writer.stream_position()?),
+        }
+
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
@@ -338,6 +349,8 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
             panic!("PointLayout of buffer does not match the PointLayout that this PntsReader was constructed with! Make sure that you only pass PointBuffers with the same layout as the one you used to create this PntsWriter!");
         }
 
+        self.requires_flush = true;
+
         if points.point_layout() == self.cached_points.point_layout() {
             self.cached_points.append(points);
         } else {
-- 
2.43.0


From caeb618173be7c1c6da64900e1a9627ea656d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 33/68] fix: flushing a PNTS writer flushes the underlying
 writer

---
 pasture-io/src/tiles3d/pnts_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 8424736..e0f5fd0 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -233,6 +233,9 @@ impl<W: Write + Seek> PntsWriter<W> {
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
+        self.writer
+            .flush()
+            .context("Error while flushing writer of .pnts file")?;
         self.requires_flush = false;
 
         Ok(())
-- 
2.43.0


From 729d10e94a13db4e68b53d461942c1d1ddc5b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 34/68] fix: a point converter copies only attributes of equal
 datatype

---
 .../src/layout/conversion/attribute_conversion.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index a95e457..f7daa9d 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -74,12 +74,15 @@ impl RawPointConverter {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
-                let conversion_fn = get_converter_for_attributes(
-                    from_attribute.attribute_definition(),
-                    to_attribute.attribute_definition(),
-                )
-                // Equal attributes need no conversion, but their data still has to be copied
-                .or(Some(convert_unit));
+                let conversion_fn = if from_attribute.datatype() == to_attribute.datatype() {
+                    // Equal attributes need no conversion, but their data still has to be copied
+                    Some(convert_unit as AttributeConversionFn)
+                } else {
+                    get_converter_for_attributes(
+                        from_attribute.attribute_definition(),
+                        to_attribute.attribute_definition(),
+                    )
+                };
                 conversion_fn.map(|conversion_fn| {
                     RawAttributeConverter::new(
                         conversion_fn,
-- 
2.43.0


From 1d4203965ed78f54a925a60b84fa110d103eebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 35/68] fix: text columns are converted to the datatypes of the
 target buffer

---
 pasture-io/src/ascii/raw_reader.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index c2b5c1c..cbf191e 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -3,6 +3,7 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use itertools::{EitherOrBoth::*, Itertools};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::layout::attributes;
+use pasture_core::layout::conversion::{get_generic_converter, RawPointConverter};
 use pasture_core::layout::PointAttributeDefinition;
 use pasture_core::layout::PointLayout;
 use pasture_core::meta::Metadata;
@@ -300,7 +301,24 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
         'a: 'b,
     {
         let layout = point_buffer.point_layout().clone();
-        let mut temp_point = UntypedPointBuffer::new(&layout);
+        for attribute in self.point_layout.attributes() {
+            if let Some(target_attribute) = layout.get_attribute_by_name(attribute.name()) {
+                if attribute.datatype() != target_attribute.datatype()
+                    && get_generic_converter(attribute.datatype(), target_attribute.datatype())
+                        .is_none()
+                {
+                    bail!(
+                        "Can't convert attribute {} to {}",
+                        attribute.attribute_definition(),
+                        target_attribute.attribute_definition()
+                    );
+                }
+            }
+        }
+        // Lines are parsed with the default datatypes and then converted to the datatypes in the target buffer
+        let converter = RawPointConverter::from_to(&self.point_layout, &layout);
+        let mut temp_point = UntypedPointBuffer::new(&self.point_layout);
+        let mut target_point = vec![0; layout.size_of_point_entry() as usize];
         let mut num_read = 0;
         //read line by line
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
@@ -310,7 +328,8 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
                 .with_context(|| format!("ReadError in line {}.", index))?;
             //put it in the buffer
             unsafe {
-                point_buffer.set_point(index, temp_point.get_buffer());
+                converter.convert(temp_point.get_buffer(), &mut target_point);
+                point_buffer.set_point(index, &target_point);
             }
             num_read += 1;
         }
-- 
2.43.0


From 6d538b27666adee79868645990ba427023e3c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 36/68] fix: converters for impossible conversions are None
 instead of a panic

---
 .../src/layout/conversion/attribute_conversion.rs | 13 ++++++-------
 pasture-io/src/tiles3d/pnts_writer.rs             | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index f7daa9d..7efee2c 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -119,11 +119,12 @@ pub type AttributeConversionFn = unsafe fn(&[u8], &mut [u8]) -> ();
 /// Returns a conversion function for converting from `from_attribute` into `to_attribute`. Both attributes must have the
 /// same name but can have different datatypes. Conversion functions operate on raw byte buffers, where the first argument
 /// is a buffer that represents a single value of `from_attribute` and the second buffer is a single mutable value of
-/// `to_attribute`. If both attributes are equal, `None` is returned.
+/// `to_attribute`. If both attributes are equal, or if no conversion from `from_attribute` into `to_attribute` is possible,
+/// `None` is returned.
 ///
 /// # Panics
 ///
-/// If no conversion from `from_attribute` into `to_attribute` is possible
+/// If `from_attribute` and `to_attribute` have different names
 pub fn get_converter_for_attributes(
     from_attribute: &PointAttributeDefinition,
     to_attribute: &PointAttributeDefinition,
@@ -185,7 +186,8 @@ macro_rules! insert_vec3_converter_using_as {
 }
 
 /// Returns a generic converter that can convert between primitive types. These functions implement primitive type conversions
-/// as if using the `as` operator, using the [`num_traits::AsPrimitive`] trait
+/// as if using the `as` operator, using the [`num_traits::AsPrimitive`] trait. Returns `None` if there is no such conversion
+/// between `from_type` and `to_type`
 pub fn get_generic_converter(
     from_type: PointAttributeDataType,
     to_type: PointAttributeDataType,
@@ -269,10 +271,7 @@ pub fn get_generic_converter(
     }
 
     let key = (from_type, to_type);
-    let f = GENERIC_CONVERTERS
-        .get(&key)
-        .unwrap_or_else(|| panic!("Invalid conversion {} -> {}", from_type, to_type));
-    Some(*f)
+    GENERIC_CONVERTERS.get(&key).copied()
 }
 
 /// Unit conversion function (when from and to represent the same datatype)
diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index e0f5fd0..24ef59a 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -146,9 +146,18 @@ impl<W: Write + Seek> PntsWriter<W> {
                 } else {
                     conversion_fns.insert(
                         src_attribute.name().to_owned(),
-                        get_converter_for_attributes(
-                            src_attribute.attribute_definition(),
-                            dst_attribute.attribute_definition(),
+                        Some(
+                            get_converter_for_attributes(
+                                src_attribute.attribute_definition(),
+                                dst_attribute.attribute_definition(),
+                            )
+                            .unwrap_or_else(|| {
+                                panic!(
+                                    "Invalid conversion {} -> {}",
+                                    src_attribute.datatype(),
+                                    dst_attribute.datatype()
+                                )
+                            }),
                         ),
                     );
                 }
-- 
2.43.0


From 99dfbc3b29676215dcb286d1f5aad8f369972495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 37/68] fix: the traits that set delimiter and precision of
 text output can be named

---
 pasture-io/src/ascii/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pasture-io/src/ascii/mod.rs b/pasture-io/src/ascii/mod.rs
index 0e5e047..3b62634 100644
--- a/pasture-io/src/ascii/mod.rs
+++ b/pasture-io/src/ascii/mod.rs
@@ -12,6 +12,7 @@ pub(crate) use self::raw_reader::*;
 
 mod raw_writer;
 pub(crate) use self::raw_writer::*;
+pub use self::raw_writer::{AsciiFormat, PointWriterFormatting};
 
 mod ascii_format_util;
 pub(crate) use self::ascii_format_util::*;
-- 
2.43.0


From 61e40ebdde96790fb458f8ae0e07266f6b506503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 38/68] fix: the center of a pnts file is added only to
 positions that come from it

---
 pasture-io/src/tiles3d/pnts_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index 72aa5ea..7b1c1ed 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -253,6 +253,10 @@ impl<R: BufRead + Seek> PntsReader<R> {
     where
         'a: 'b,
     {
+        // Without positions in the file, the positions in the buffer come from somewhere else
+        if !self.layout.has_attribute_with_name(POSITION_3D.name()) {
+            return Ok(());
+        }
         let maybe_position = point_buffer
             .point_layout()
             .get_attribute_by_name(POSITION_3D.name());
-- 
2.43.0


From 37fe9f514d0a68d84a1c849580290cff861560c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 39/68] fix: seeking far past the ends of a pnts file does not
 overflow

---
 pasture-io/src/tiles3d/pnts_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index 7b1c1ed..4c0900a 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -413,11 +413,11 @@ impl<R: BufRead + Seek> SeekToPoint for PntsReader<R> {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(offset) => {
                 let max_point_as_i64: i64 = self.metadata.points_length().try_into()?;
-                (max_point_as_i64 + offset).try_into()?
+                max_point_as_i64.saturating_add(offset).try_into()?
             }
             SeekFrom::Current(offset) => {
                 let cur_point_asi64: i64 = self.current_point_index.try_into()?;
-                (cur_point_asi64 + offset).try_into()?
+                cur_point_asi64.saturating_add(offset).try_into()?
             }
         };
         let new_point_idx_clamped = clamp(new_point_idx, 0, self.metadata.points_length() as u64);
-- 
2.43.0


From 1e1929a2d774a5e62e303dcf5a5ec0455bbac8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 40/68] fix: the sections of a pnts file are aligned relative
 to its own start

---
 pasture-io/src/tiles3d/pnts_writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 24ef59a..cf1f277 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -342,8 +342,10 @@ impl<W: Write + Seek> PntsWriter<W> {
             }
         }
 
-        // Write padding bytes to ensure we are at an 8-byte boundary!
-        let current_write_position = self.writer.stream_position()?;
+        // Write padding bytes to ensure we are at an 8-byte boundary! Boundaries are relative to the start of the
+        // file, which does not have to be the start of the writer
+        let current_write_position =
+            self.writer.stream_position()? - self.start_position.unwrap_or(0);
         let next_8_byte_boundary = current_write_position.align_to(8);
         let num_padding_bytes = next_8_byte_boundary - current_write_position;
         if num_padding_bytes > 0 {
-- 
2.43.0


From 471c7f4ae66c2efb242d6367f7641c20ed6ef9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 41/68] fix: references from mutable iterators stay valid when
 the next is taken

---
 .../src/containers/attribute_iterators.rs     | 23 +++++------------
 .../src/containers/point_iterators.rs         | 25 +++++--------------
 2 files changed, 12 insertions(+), 36 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index d8b4073..0199192 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -110,8 +110,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
 /// Like [`AttributeIteratorByRef`], but returns attribute data by mutable reference, allowing mutation
 /// of the attribute data in-place. Can only be constructed from a buffer that implements [`ColumnarBufferMut`]
 pub struct AttributeIteratorByMut<'a, T: PrimitiveType> {
-    attribute_data: &'a mut [T],
-    current_index: usize,
+    attributes: std::slice::IterMut<'a, T>,
 }
 
 impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
@@ -125,12 +124,11 @@ impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
         let attribute_memory = buffer.get_attribute_range_mut(attribute, 0..buffer.len());
         Self {
             // The memory of an empty buffer is not necessarily aligned for `T`
-            attribute_data: if attribute_memory.is_empty() {
-                &mut []
+            attributes: if attribute_memory.is_empty() {
+                [].iter_mut()
             } else {
-                bytemuck::cast_slice_mut(attribute_memory)
+                bytemuck::cast_slice_mut(attribute_memory).iter_mut()
             },
-            current_index: 0,
         }
     }
 }
@@ -139,20 +137,11 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index >= self.attribute_data.len() {
-            None
-        } else {
-            unsafe {
-                let attribute_ptr = self.attribute_data.as_mut_ptr().add(self.current_index);
-                self.current_index += 1;
-                Some(&mut *attribute_ptr)
-            }
-        }
+        self.attributes.next()
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index = self.current_index.saturating_add(n);
-        self.next()
+        self.attributes.nth(n)
     }
 }
 
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index cd4bda9..7d0d36e 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -92,9 +92,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
 
 /// Iterator over strongly typed points by mutable borrow
 pub struct PointIteratorByMut<'a, T: PointType> {
-    point_data: &'a mut [T],
-    current_index: usize,
-    _phantom: PhantomData<T>,
+    points: std::slice::IterMut<'a, T>,
 }
 
 impl<'a, 'b, T: PointType, B: InterleavedBufferMut<'b>> From<&'a mut B>
@@ -106,13 +104,11 @@ where
         let memory_for_all_points = value.get_point_range_mut(0..value.len());
         Self {
             // The memory of an empty buffer is not necessarily aligned for `T`
-            point_data: if memory_for_all_points.is_empty() {
-                &mut []
+            points: if memory_for_all_points.is_empty() {
+                [].iter_mut()
             } else {
-                bytemuck::cast_slice_mut(memory_for_all_points)
+                bytemuck::cast_slice_mut(memory_for_all_points).iter_mut()
             },
-            current_index: 0,
-            _phantom: Default::default(),
         }
     }
 }
@@ -121,20 +117,11 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index >= self.point_data.len() {
-            None
-        } else {
-            unsafe {
-                let memory = self.point_data.as_mut_ptr().add(self.current_index);
-                self.current_index += 1;
-                Some(&mut *memory)
-            }
-        }
+        self.points.next()
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index = self.current_index.saturating_add(n);
-        self.next()
+        self.points.nth(n)
     }
 }
 
-- 
2.43.0


From 07d9ceb708e63daf13e65edb53a771c0aa8c824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 42/68] fix: ExternalMemoryBuffer::swap uses one pointer into
 the memory

---
 pasture-core/src/containers/point_buffer.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index aaadf64..8a65ddf 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1551,16 +1551,9 @@ where
         let size_of_point = self.point_layout.size_of_point_entry() as usize;
         // Is safe if neither `from_index` nor `to_index` is out of bounds, which is asserted
         unsafe {
-            let from_ptr = self
-                .external_memory
-                .as_mut()
-                .as_mut_ptr()
-                .add(from_index * size_of_point);
-            let to_ptr = self
-                .external_memory
-                .as_mut()
-                .as_mut_ptr()
-                .add(to_index * size_of_point);
+            let base_ptr = self.external_memory.as_mut().as_mut_ptr();
+            let from_ptr = base_ptr.add(from_index * size_of_point);
+            let to_ptr = base_ptr.add(to_index * size_of_point);
             std::ptr::swap_nonoverlapping(from_ptr, to_ptr, size_of_point);
         }
     }
-- 
2.43.0


From 3a26e4ff1533c3d3a17acad7d885685590d71774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 43/68] fix: the layout of LAS points with undescribed extra
 bytes has all of them

---
 pasture-io/src/las/las_layout.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 439008f..d63b28b 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -168,13 +168,21 @@ pub fn point_layout_from_las_metadata(
         base_layout.add_attribute(extra_byte_attribute, FieldAlignment::Packed(1));
     }
 
-    let num_undescribed_bytes = format.extra_bytes as usize - num_described_bytes;
+    let num_undescribed_bytes = (format.extra_bytes as usize)
+        .checked_sub(num_described_bytes)
+        .ok_or_else(|| {
+            anyhow!(
+                "The Extra Bytes VLR describes {} bytes, but the point format only has {} extra bytes",
+                num_described_bytes,
+                format.extra_bytes
+            )
+        })?;
     if num_undescribed_bytes > 0 {
         // Add a PointAttributeDefinition describing a raw byte array for all undescribed extra bytes
         base_layout.add_attribute(
             PointAttributeDefinition::custom(
                 Cow::Borrowed("UndescribedExtraBytes"),
-                PointAttributeDataType::ByteArray(num_described_bytes as u64),
+                PointAttributeDataType::ByteArray(num_undescribed_bytes as u64),
             ),
             FieldAlignment::Packed(1),
         );
-- 
2.43.0


From 7378c3935a9f5012a23d97960032ce22342dbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 44/68] fix: seeking before the first point of a LAS file is an
 error instead of a panic

---
 pasture-io/src/las/raw_readers.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pasture-io/src/las/raw_readers.rs b/pasture-io/src/las/raw_readers.rs
index 2b611c4..18cc56e 100644
--- a/pasture-io/src/las/raw_readers.rs
+++ b/pasture-io/src/las/raw_readers.rs
@@ -1,4 +1,4 @@
-use std::convert::TryInto;
+use std::convert::{TryFrom, TryInto};
 use std::io::{Read, Seek, SeekFrom};
 
 use anyhow::{anyhow, bail, Context, Result};
@@ -394,12 +394,16 @@ impl<T: Read + Seek> PointReader for RawLASReader<T> {
 impl<T: Read + Seek> SeekToPoint for RawLASReader<T> {
     fn seek_point(&mut self, position: SeekFrom) -> Result<usize> {
         let new_position = match position {
-            SeekFrom::Start(from_start) => from_start as i64,
-            SeekFrom::End(from_end) => self.metadata.point_count() as i64 + from_end,
-            SeekFrom::Current(from_current) => self.current_point_index as i64 + from_current,
+            SeekFrom::Start(from_start) => i64::try_from(from_start).unwrap_or(i64::MAX),
+            SeekFrom::End(from_end) => {
+                (self.metadata.point_count() as i64).saturating_add(from_end)
+            }
+            SeekFrom::Current(from_current) => {
+                (self.current_point_index as i64).saturating_add(from_current)
+            }
         };
         if new_position < 0 {
-            panic!("RawLASReader::seek_point: It is an error to seek to a point position smaller than zero!");
+            bail!("RawLASReader::seek_point: It is an error to seek to a point position smaller than zero!");
         }
         let clamped_position =
             std::cmp::min(self.metadata.point_count() as i64, new_position) as usize;
@@ -615,12 +619,16 @@ impl<'a, T: Read + Seek + Send + 'a> PointReader for RawLAZReader<'a, T> {
 impl<'a, T: Read + Seek + Send + 'a> SeekToPoint for RawLAZReader<'a, T> {
     fn seek_point(&mut self, position: SeekFrom) -> Result<usize> {
         let new_position = match position {
-            SeekFrom::Start(from_start) => from_start as i64,
-            SeekFrom::End(from_end) => self.metadata.point_count() as i64 + from_end,
-            SeekFrom::Current(from_current) => self.current_point_index as i64 + from_current,
+            SeekFrom::Start(from_start) => i64::try_from(from_start).unwrap_or(i64::MAX),
+            SeekFrom::End(from_end) => {
+                (self.metadata.point_count() as i64).saturating_add(from_end)
+            }
+            SeekFrom::Current(from_current) => {
+                (self.current_point_index as i64).saturating_add(from_current)
+            }
         };
         if new_position < 0 {
-            panic!("RawLAZReader::seek_point: It is an error to seek to a point position smaller than zero!");
+            bail!("RawLAZReader::seek_point: It is an error to seek to a point position smaller than zero!");
         }
         let clamped_position =
             std::cmp::min(self.metadata.point_count() as i64, new_position) as usize;
-- 
2.43.0


From 440ccb2e2312cfcce94d67b0fe91f5ffc09fa97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 45/68] fix: return an error if LAS points can't be converted
 to the layout of the target buffer

---
 pasture-io/src/las/raw_readers.rs | 58 ++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_readers.rs b/pasture-io/src/las/raw_readers.rs
index 18cc56e..77b8e93 100644
--- a/pasture-io/src/las/raw_readers.rs
+++ b/pasture-io/src/las/raw_readers.rs
@@ -10,7 +10,7 @@ use pasture_core::layout::attributes::{
     CLASSIFICATION_FLAGS, EDGE_OF_FLIGHT_LINE, NUMBER_OF_RETURNS, POSITION_3D, RETURN_NUMBER,
     SCANNER_CHANNEL, SCAN_DIRECTION_FLAG,
 };
-use pasture_core::layout::conversion::BufferLayoutConverter;
+use pasture_core::layout::conversion::{get_converter_for_attributes, BufferLayoutConverter};
 use pasture_core::layout::PointAttributeDataType;
 use pasture_core::nalgebra::Vector3;
 use pasture_core::{layout::PointLayout, meta::Metadata};
@@ -26,6 +26,60 @@ fn is_laszip_vlr(vlr: &Vlr) -> bool {
     vlr.user_id == laz::LazVlr::USER_ID && vlr.record_id == laz::LazVlr::RECORD_ID
 }
 
+/// Returns an error if there is an attribute in `target_layout` with a datatype to which its data in the LAS point
+/// records can't be converted
+fn ensure_las_attributes_are_convertible(
+    raw_las_layout: &PointLayout,
+    target_layout: &PointLayout,
+) -> Result<()> {
+    let has_basic_flags = raw_las_layout.has_attribute(&ATTRIBUTE_BASIC_FLAGS);
+    let (flags_datatype, attributes_in_flags): (_, &[_]) = if has_basic_flags {
+        (
+            ATTRIBUTE_BASIC_FLAGS.datatype(),
+            &[
+                RETURN_NUMBER,
+                NUMBER_OF_RETURNS,
+                SCAN_DIRECTION_FLAG,
+                EDGE_OF_FLIGHT_LINE,
+            ],
+        )
+    } else {
+        (
+            ATTRIBUTE_EXTENDED_FLAGS.datatype(),
+            &[
+                RETURN_NUMBER,
+                NUMBER_OF_RETURNS,
+                CLASSIFICATION_FLAGS,
+                SCANNER_CHANNEL,
+                SCAN_DIRECTION_FLAG,
+                EDGE_OF_FLIGHT_LINE,
+            ],
+        )
+    };
+    for target_attribute in target_layout.attributes() {
+        let target_definition = target_attribute.attribute_definition();
+        let is_in_flags = attributes_in_flags
+            .iter()
+            .any(|attribute| attribute.name() == target_definition.name());
+        let source_datatype = if is_in_flags {
+            Some(flags_datatype)
+        } else {
+            raw_las_layout
+                .get_attribute_by_name(target_definition.name())
+                .map(|attribute| attribute.datatype())
+        };
+        if let Some(source_datatype) = source_datatype {
+            let source_definition = target_definition.with_custom_datatype(source_datatype);
+            if source_datatype != target_definition.datatype()
+                && get_converter_for_attributes(&source_definition, target_definition).is_none()
+            {
+                bail!("No conversion from {source_definition} to {target_definition} possible");
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Returns a `BufferLayoutConverter` that performs a conversion from the given raw LAS `PointLayout` into
 /// the given `target_layout`
 fn get_default_las_converter<'a>(
@@ -33,6 +87,8 @@ fn get_default_las_converter<'a>(
     target_layout: &'a PointLayout,
     las_header: &Header,
 ) -> Result<BufferLayoutConverter<'a>> {
+    ensure_las_attributes_are_convertible(raw_las_layout, target_layout)?;
+
     let mut converter =
         BufferLayoutConverter::for_layouts_with_default(raw_las_layout, target_layout);
     // Add custom conversions depending on the target layout
-- 
2.43.0


From 740c4f18b32a86c00aa664ead57e95eeacaa9890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 46/68] fix: round positions to the nearest LAS coordinate
 instead of truncating them

---
 pasture-io/src/las/write_helpers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/write_helpers.rs b/pasture-io/src/las/write_helpers.rs
index ecb420b..18b930b 100644
--- a/pasture-io/src/las/write_helpers.rs
+++ b/pasture-io/src/las/write_helpers.rs
@@ -12,9 +12,9 @@ pub(crate) fn write_position_as_las_position<T: Write>(
     las_header: &las::raw::Header,
     mut writer: T,
 ) -> Result<()> {
-    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
     writer.write_i32::<LittleEndian>(local_x)?;
     writer.write_i32::<LittleEndian>(local_y)?;
     writer.write_i32::<LittleEndian>(local_z)?;
-- 
2.43.0


From 493c8dd403431aec77c29c18a9bcc3aef88f056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 47/68] fix: las_point_format_from_point_layout returns formats
 that exist

---
 pasture-io/src/las/las_layout.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index d63b28b..deb9d37 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -236,6 +236,17 @@ pub fn las_point_format_from_point_layout(point_layout: &PointLayout) -> Format
         format.is_extended = true;
     }
 
+    // Some attributes are only available together with others
+    if format.is_extended || format.has_waveform {
+        format.has_gps_time = true;
+    }
+    if format.has_nir {
+        format.has_color = true;
+    }
+    if format.is_extended && format.has_waveform && format.has_color {
+        format.has_nir = true;
+    }
+
     format
 }
 
-- 
2.43.0


From d6c7fcc4be656a9480ec8c80e6ef3060a2d8ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 48/68] fix: LAS writers count points by return for custom
 layouts

---
 pasture-io/src/las/raw_writers.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 1d580b2..90d139e 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -466,9 +466,13 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 self.writer
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -489,7 +493,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
@@ -1003,9 +1007,13 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 las_point_write
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -1026,7 +1034,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
-- 
2.43.0


From 57e05761cc907dbe087b3cc90057492c4c8d3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 49/68] fix: LAZ writer writes only the points of the last
 chunk of a custom layout

---
 pasture-io/src/las/raw_writers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 90d139e..3973701 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1112,7 +1112,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
             las_point_buffer = las_point_write.into_inner();
             self.writer.compress_many(
-                &las_point_buffer[0..num_points_in_chunk
+                &las_point_buffer[0..points_in_cur_chunk
                     * self.current_header.point_data_record_length as usize],
             )?;
 
-- 
2.43.0


From f42a88b095159739542b7c57a6e609cbd9107bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 50/68] fix: LAS writer writes extra bytes

---
 pasture-io/src/las/raw_writers.rs | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 3973701..f592879 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1,14 +1,20 @@
 use std::{
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, SeekFrom},
+    io::{Cursor, Read, SeekFrom},
 };
 
 use anyhow::{anyhow, Context, Result};
 use byteorder::{LittleEndian, NativeEndian, ReadBytesExt, WriteBytesExt};
 use las_rs::{point::Format, Builder, Vlr};
 use laz::{LasZipCompressor, LazItemRecordBuilder, LazVlr};
-use pasture_core::{containers::BorrowedBuffer, layout::PointLayout, nalgebra::Vector3};
+use pasture_core::{
+    containers::{
+        BorrowedBuffer, InterleavedBufferMut, MakeBufferFromLayout, OwningBuffer, VectorBuffer,
+    },
+    layout::{conversion::BufferLayoutConverter, PointLayout},
+    nalgebra::Vector3,
+};
 
 use crate::base::PointWriter;
 
@@ -98,6 +104,7 @@ pub(crate) struct RawLASWriter<T: std::io::Write + std::io::Seek> {
     evlrs: Vec<las::raw::Vlr>,
     _point_start_index: u64,
     requires_flush: bool,
+    has_extra_bytes: bool,
 }
 
 impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
@@ -151,6 +158,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 .collect::<Result<Vec<_>, _>>()?,
             _point_start_index: point_start_index,
             requires_flush: true,
+            has_extra_bytes: header.point_format().extra_bytes > 0,
         })
     }
 
@@ -198,6 +206,10 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
         let mut chunk_buffer: Vec<u8> = vec![0; num_points_in_chunk * size_of_single_point];
 
         let source_format = Format::new(self.current_header.point_data_record_format)?;
+        // Extra bytes come last in the default layout and have the same binary representation as in the LAS file
+        let num_extra_bytes =
+            self.current_header.point_data_record_length as usize - source_format.len() as usize;
+        let mut extra_bytes = vec![0; num_extra_bytes];
 
         let mut points_by_return: HashMap<u8, u64> = HashMap::new();
         let max_return_number = if self.current_header.large_file.is_some() {
@@ -328,6 +340,9 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(py)?;
                     self.writer.write_f32::<LittleEndian>(pz)?;
                 }
+
+                point_read.read_exact(&mut extra_bytes)?;
+                self.writer.write_all(&extra_bytes)?;
             }
 
             chunk_buffer = point_read.into_inner();
@@ -592,6 +607,21 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
     fn write<'a, B: BorrowedBuffer<'a>>(&mut self, points: &'a B) -> Result<()> {
         if *points.point_layout() == self.default_layout {
             self.write_points_default_layout(points)
+        } else if self.has_extra_bytes {
+            // Extra bytes can have arbitrary attributes, so convert to the default layout first
+            let default_layout = self.default_layout.clone();
+            let mut source_points = VectorBuffer::new_from_layout(points.point_layout().clone());
+            source_points.resize(points.len());
+            points.get_point_range(
+                0..points.len(),
+                source_points.get_point_range_mut(0..points.len()),
+            );
+            let converted_points = BufferLayoutConverter::for_layouts_with_default(
+                points.point_layout(),
+                &default_layout,
+            )
+            .convert::<VectorBuffer, _>(&source_points);
+            self.write_points_default_layout(&converted_points)
         } else {
             self.write_points_custom_layout(points)
         }
-- 
2.43.0


From 895bfcf653c5e76ff1e4d06eb0035a1306ba186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 51/68] fix: LAS writer writes the padding between VLRs and
 points

---
 pasture-io/src/las/raw_writers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index f592879..3927bdb 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -143,6 +143,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             let raw_vlr = vlr.clone().into_raw(false)?;
             raw_vlr.write_to(&mut write)?;
         }
+        write.write_all(header.vlr_padding())?;
 
         let point_start_index = write.stream_position()?;
         assert_eq!(point_start_index, raw_header.offset_to_point_data as u64);
-- 
2.43.0


From bdf0708bc084011c5aac2e50da0212c075a94ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 52/68] fix: LAZ writer keeps the VLRs and EVLRs of the header

---
 pasture-io/src/las/raw_writers.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 3927bdb..f5089b6 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -703,6 +703,16 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         };
 
         let mut header_builder = Builder::new(raw_header)?;
+        header_builder.vlrs = header
+            .vlrs()
+            .iter()
+            .filter(|vlr| {
+                !(vlr.user_id == laz::LazVlr::USER_ID && vlr.record_id == laz::LazVlr::RECORD_ID)
+            })
+            .cloned()
+            .collect();
+        header_builder.vlr_padding = header.vlr_padding().clone();
+        header_builder.evlrs = header.evlrs().clone();
         header_builder.vlrs.push(laz_vlr);
         let header_with_laz_vlr = header_builder.into_header()?;
         header_with_laz_vlr
-- 
2.43.0


From e734e1c8757f2b1a876c54f9fc8406ddee4a74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 53/68] fix: LAZ writer writes files with versions below 1.4

---
 pasture-io/src/las/raw_writers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index f5089b6..077d126 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -730,10 +730,14 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
         let laz_writer = LasZipCompressor::new(write, raw_laz_vlr).map_err(map_laz_err)?;
 
+        let mut current_header = header_with_laz_vlr.into_raw()?;
+        // Versions before 1.4 have no 'large_file' field, but pasture always counts the points in it
+        current_header.large_file = Some(Default::default());
+
         Ok(Self {
             writer: laz_writer,
             default_layout,
-            current_header: header_with_laz_vlr.into_raw()?,
+            current_header,
             evlrs: header
                 .evlrs()
                 .iter()
-- 
2.43.0


From b8320cadc4972e93ccc96d6102a10b035720a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 54/68] fix: LAS writers store where the EVLRs start

---
 pasture-io/src/las/raw_writers.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 077d126..9c7e8b3 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -634,6 +634,9 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
         }
 
         let current_index = self.writer.stream_position()?;
+        if let Some(evlr) = self.current_header.evlr.as_mut() {
+            evlr.start_of_first_evlr = current_index;
+        }
         self.write_header()?;
         self.write_evlrs()?;
         self.writer.seek(SeekFrom::Start(current_index))?;
@@ -1200,6 +1203,10 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
     fn do_flush(&mut self) -> Result<()> {
         self.writer.done()?;
+        let start_of_first_evlr = self.writer.get_mut().stream_position()?;
+        if let Some(evlr) = self.current_header.evlr.as_mut() {
+            evlr.start_of_first_evlr = start_of_first_evlr;
+        }
         self.write_evlrs()?;
         self.write_header()
     }
-- 
2.43.0


From e9ad9ab8ca502f044e8a1bf66059408fd3404cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 55/68] fix: LAS writers flush the output, LAZ writer only once

---
 pasture-io/src/las/raw_writers.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 9c7e8b3..5b58613 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -640,6 +640,7 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
         self.write_header()?;
         self.write_evlrs()?;
         self.writer.seek(SeekFrom::Start(current_index))?;
+        self.writer.flush()?;
 
         self.requires_flush = false;
 
@@ -746,7 +747,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 .iter()
                 .map(|evlr| evlr.clone().into_raw(true))
                 .collect::<Result<Vec<_>, _>>()?,
-            requires_flush: false,
+            requires_flush: true,
         })
     }
 
@@ -1202,13 +1203,22 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
     }
 
     fn do_flush(&mut self) -> Result<()> {
+        if !self.requires_flush {
+            return Ok(());
+        }
+
         self.writer.done()?;
         let start_of_first_evlr = self.writer.get_mut().stream_position()?;
         if let Some(evlr) = self.current_header.evlr.as_mut() {
             evlr.start_of_first_evlr = start_of_first_evlr;
         }
         self.write_evlrs()?;
-        self.write_header()
+        self.write_header()?;
+        self.writer.get_mut().flush()?;
+
+        self.requires_flush = false;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5b73248ded85112332de9cd2743f536783e66c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 56/68] fix: values of floating point extra bytes can be
 accessed and displayed

---
 pasture-io/src/las/las_metadata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index f53bfa8..f1f8532 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -434,7 +434,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn min_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -465,7 +465,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn max_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -496,7 +496,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn no_data_value_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
-- 
2.43.0


From d8f0e0d6d3381e2c1ddd0c0053dbb72be81fd10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 57/68] fix: display the no-data value of extra bytes instead
 of their minimum

---
 pasture-io/src/las/las_metadata.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index f1f8532..2483fda 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -559,7 +559,10 @@ impl Display for ExtraBytesEntry {
                 self.no_data_value_as_unsigned().unwrap()
             ))
         } else {
-            Some(format!("No-data value (raw bytes): {:#?}", self.min_value))
+            Some(format!(
+                "No-data value (raw bytes): {:#?}",
+                self.no_data_value
+            ))
         };
         let helper_array = [scale_str, offset_str, min_str, max_str, no_value_str];
         let combined_strings = helper_array
-- 
2.43.0


From 9239b52be8feb2b83bca93f7967836dad4a194ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 58/68] fix: parse unaligned and empty Extra Bytes VLRs without
 panic

---
 pasture-io/src/las/las_metadata.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 2483fda..83f47cf 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -714,10 +714,14 @@ impl TryFrom<&'_ Vlr> for ExtraBytesVlr {
             bail!("VLR data size ({} bytes) is not a multiple of the size of an EXTRA_BYTES entry ({} bytes)", value.data.len(), RAW_EXTRA_BYTES_ENTRY_SIZE);
         }
 
-        let raw_entries: &[RawExtraBytesEntry] = bytemuck::cast_slice(&value.data);
-        let entries = raw_entries
-            .iter()
-            .map(|raw_entry| raw_entry.try_into())
+        // The data of the VLR does not have to be aligned to `RawExtraBytesEntry`
+        let entries = value
+            .data
+            .chunks_exact(RAW_EXTRA_BYTES_ENTRY_SIZE)
+            .map(|bytes| {
+                let raw_entry: RawExtraBytesEntry = bytemuck::pod_read_unaligned(bytes);
+                (&raw_entry).try_into()
+            })
             .collect::<Result<_, _>>()?;
 
         Ok(Self { entries })
-- 
2.43.0


From a61b6a9347b6fd171a6ee443047b9fa4444e11a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 59/68] fix: classification descriptions end at the null
 terminator

---
 pasture-io/src/las/las_metadata.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 83f47cf..b6b3947 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -130,9 +130,15 @@ impl TryFrom<&Vlr> for ClassificationLookup {
             entries: array_init::array_init(|_| Default::default()),
         };
         for (index, raw_entry) in data_as_raw_entries.iter().enumerate().take(256) {
+            // The description is only null-terminated if it has less than 15 characters
+            let description = raw_entry
+                .description
+                .split(|byte| *byte == 0)
+                .next()
+                .unwrap_or_default();
             ret.entries[index] = ClassificationLookupEntry {
                 classification: raw_entry.class_number,
-                description: String::from_utf8_lossy(&raw_entry.description).into_owned(),
+                description: String::from_utf8_lossy(description).into_owned(),
             };
         }
         Ok(ret)
-- 
2.43.0


From d9216d9b53fc49facd30fd7d8fe87cb63c7a3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 60/68] fix: recognize the extension of LAZ files in any case

---
 pasture-io/src/las/las_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index b6b3947..a7fd192 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -67,7 +67,7 @@ pub fn pasture_bounds_to_las_bounds(bounds: &AABB<f64>) -> Bounds {
 pub fn path_is_compressed_las_file<P: AsRef<Path>>(path: P) -> Result<bool> {
     path.as_ref()
         .extension()
-        .map(|extension| extension == "laz")
+        .map(|extension| extension.eq_ignore_ascii_case("laz"))
         .ok_or(anyhow!(
             "Could not determine file extension of file {}",
             path.as_ref().display()
-- 
2.43.0


From d564be64deb6f3ed761aa0d9fb2b5896b7b4b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 61/68] fix: extra bytes with a name that is in use are an
 error instead of a panic

---
 pasture-io/src/las/las_layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index deb9d37..32fb49d 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -165,6 +165,12 @@ pub fn point_layout_from_las_metadata(
     //      uses Vector3<i32>... So it might be worthwhile to change this once we have support for reading positions in
     //      Vector3<i32> using the LASReader
     for extra_byte_attribute in extra_byte_attributes {
+        if base_layout.has_attribute_with_name(extra_byte_attribute.name()) {
+            return Err(anyhow!(
+                "The name {} of an entry in the Extra Bytes VLR is already in use",
+                extra_byte_attribute.name()
+            ));
+        }
         base_layout.add_attribute(extra_byte_attribute, FieldAlignment::Packed(1));
     }
 
-- 
2.43.0


From 190f8cb987efd63f5c319ded3d532b7b26e95044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 62/68] fix: read_all_into appends the points to the buffer

---
 pasture-io/src/base/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/base/mod.rs b/pasture-io/src/base/mod.rs
index 31f8716..f9e1d7a 100644
--- a/pasture-io/src/base/mod.rs
+++ b/pasture-io/src/base/mod.rs
@@ -2,6 +2,7 @@ use anyhow::{Context, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::containers::MakeBufferFromLayout;
 use pasture_core::containers::OwningBuffer;
+use pasture_core::containers::VectorBuffer;
 
 mod reader;
 use std::path::Path;
@@ -49,7 +50,13 @@ pub fn read_all_into<'a, B: OwningBuffer<'a>, P: AsRef<Path>>(
         "Could not determine number of points in point cloud file {}",
         path.as_ref().display()
     ))?;
-    reader.read_into(buffer, num_points)
+    // `read_into` overwrites existing points, so read into a temporary buffer and append its points
+    let mut new_points = VectorBuffer::new_from_layout(buffer.point_layout().clone());
+    new_points.resize(num_points);
+    let num_points_read = reader.read_into(&mut new_points, num_points)?;
+    new_points.resize(num_points_read);
+    buffer.append_interleaved(&new_points);
+    Ok(num_points_read)
 }
 
 /// Writes all points in the given `buffer` into the file at `path`
-- 
2.43.0


From 535451732d6d764cb9c0504c59d1afdb2b9cbc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 63/68] fix: info tool makes room for the points it analyzes

---
 pasture-tools/src/bin/info.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pasture-tools/src/bin/info.rs b/pasture-tools/src/bin/info.rs
index bd0c64b..492b7a0 100644
--- a/pasture-tools/src/bin/info.rs
+++ b/pasture-tools/src/bin/info.rs
@@ -119,9 +119,8 @@ fn analyze_file<R: PointReader + SeekToPoint>(reader: &mut R) -> Result<()> {
     // TODO Waveform data
 
     for idx in 0..num_chunks {
-        buffer.clear();
-
         let num_points_in_chunk = std::cmp::min(chunk_size, total_points - (idx * chunk_size));
+        buffer.resize(num_points_in_chunk);
         reader.read_into(&mut buffer, num_points_in_chunk)?;
 
         minmax_chunk!(minmax_position, buffer, POSITION_3D, Vector3<f64>);
-- 
2.43.0


From e254c5039834e4cf72eb69ec325c1c6221cf6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 64/68] fix: info tool analyzes attributes with other datatypes
 than the default

---
 pasture-tools/src/bin/info.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pasture-tools/src/bin/info.rs b/pasture-tools/src/bin/info.rs
index 492b7a0..41b3e6e 100644
--- a/pasture-tools/src/bin/info.rs
+++ b/pasture-tools/src/bin/info.rs
@@ -2,7 +2,6 @@ use std::{path::PathBuf, time::Instant};
 
 use anyhow::Result;
 use clap::{App, Arg};
-use pasture_algorithms::minmax::minmax_attribute;
 use pasture_core::{
     containers::{BorrowedBuffer, OwningBuffer, VectorBuffer},
     layout::attributes::NIR,
@@ -69,15 +68,14 @@ macro_rules! minmax_chunk {
             .point_layout()
             .has_attribute_with_name($attribute.name())
         {
-            let chunk_minmax: ($type, $type) = minmax_attribute(&$buffer, &$attribute).unwrap();
-            match $minmax_tuple {
-                None => $minmax_tuple = Some(chunk_minmax),
-                Some((old_min, old_max)) => {
-                    $minmax_tuple = Some((
-                        old_min.infimum(&chunk_minmax.0),
-                        old_max.supremum(&chunk_minmax.1),
-                    ));
-                }
+            // The attribute might have a different datatype in the file
+            for value in $buffer.view_attribute_with_conversion::<$type>(&$attribute)? {
+                $minmax_tuple = match $minmax_tuple {
+                    None => Some((value, value)),
+                    Some((old_min, old_max)) => {
+                        Some((value.infimum(&old_min), value.supremum(&old_max)))
+                    }
+                };
             }
         }
     };
-- 
2.43.0


From 7640200e748407df715c87dac15d274a46ad7f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:56 +0000
Subject: [PATCH 65/68] fix: derived layouts have the offsets and alignment of
 the compiler

repr(packed(N)) without C may reorder the members, and align(N) changes the alignment and size of the type: the layouts
that the macro calculated itself were wrong in both cases. The offsets and the alignment now come from the compiler.
---
 pasture-derive/src/layout.rs |  78 +++---------------------
 pasture-derive/src/lib.rs    | 115 ++++++++---------------------------
 2 files changed, 34 insertions(+), 159 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index 89d1498..cd62391 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -1,12 +1,6 @@
 use syn::{Attribute, DataStruct, Error};
 use syn::{NestedMeta, Result};
 
-#[derive(Debug)]
-pub(crate) enum StructMemberLayout {
-    C,
-    Packed(u64),
-}
-
 /// Is the given Attribute a #[repr(...)] attribute?
 fn is_repr_attribute(attribute: &Attribute) -> bool {
     attribute
@@ -43,61 +37,11 @@ fn arg_is_packed(arg: &NestedMeta) -> bool {
     }
 }
 
-fn get_packing_from_arg(arg: &NestedMeta) -> Result<u64> {
-    match arg {
-        NestedMeta::Meta(meta) => {
-            match meta {
-                syn::Meta::Path(_) => Ok(1),
-                syn::Meta::List(list) => {
-                    let packed_value = match list.nested.first() {
-                    Some(f) => f,
-                    None => return Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]. packed List attribute has no nested members")),
-                };
-
-                    match packed_value {
-                        NestedMeta::Meta(meta) => match meta {
-                            syn::Meta::Path(path) => {
-                                let val_str = path
-                                    .get_ident()
-                                    .map(|ident| ident.to_string())
-                                    .ok_or_else(|| {
-                                        Error::new_spanned(
-                                            arg,
-                                            "Expected #[repr(packed(N))]. Could not get ident",
-                                        )
-                                    })?;
-                                val_str.parse::<u64>().map_err(|_| {
-                                    Error::new_spanned(
-                                        arg,
-                                        "Expected #[repr(packed(N))]. Could not parse number",
-                                    )
-                                })
-                            }
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))]. Meta is no Path",
-                            )),
-                        },
-                        NestedMeta::Lit(literal) => match literal {
-                            syn::Lit::Int(int_literal) => Ok(int_literal.base10_parse::<u64>()?),
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))], but argument N is no integer literal",
-                            )),
-                        },
-                    }
-                }
-                _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-            }
-        }
-        _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-    }
-}
-
-pub(crate) fn get_struct_member_layout(
+/// Checks that the struct is `#[repr(C)]` and/or `#[repr(packed)]`
+pub(crate) fn check_struct_representation(
     struct_attributes: &[Attribute],
     data_struct: &DataStruct,
-) -> Result<StructMemberLayout> {
+) -> Result<()> {
     // Do we have a #[repr(...)] attribute? The arguments can be spread over multiple attributes, `#[repr(C)] #[repr(packed)]`
     // is the same as `#[repr(C, packed)]`
     let repr_attributes = struct_attributes
@@ -105,7 +49,6 @@ pub(crate) fn get_struct_member_layout(
         .filter(|a| is_repr_attribute(a))
         .collect::<Vec<_>>();
     if repr_attributes.is_empty() {
-        //return Ok(StructMemberLayout::Rust);
         return Err(Error::new_spanned(data_struct.struct_token, "derive(PointType) is only valid for structs that are either #[repr(C)] or #[repr(packed)]"));
     }
 
@@ -131,18 +74,13 @@ pub(crate) fn get_struct_member_layout(
     // Several combinations of those are possible! So first we look for either
     // the 'C' or 'packed'/'packed(N)' arguments
 
-    let maybe_packed = repr_args.iter().find(|arg| arg_is_packed(arg));
-    if let Some(packed_arg) = maybe_packed {
-        let packing = get_packing_from_arg(packed_arg)?;
-        return Ok(StructMemberLayout::Packed(packing));
-    }
-
-    let maybe_repr_c = repr_args.iter().find(|arg| arg_is_c(arg));
-    if maybe_repr_c.is_some() {
-        return Ok(StructMemberLayout::C);
+    if repr_args
+        .iter()
+        .any(|arg| arg_is_packed(arg) || arg_is_c(arg))
+    {
+        return Ok(());
     }
 
-    //Ok(StructMemberLayout::Rust)
     Err(Error::new_spanned(
         repr_attributes[0],
         "Unrecongized repr attribute",
diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 701e9fe..9322396 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -2,12 +2,12 @@ extern crate proc_macro;
 use std::collections::HashSet;
 
 //use anyhow::{anyhow, bail, Result};
-use layout::{get_struct_member_layout, StructMemberLayout};
+use layout::check_struct_representation;
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::DeriveInput;
 use syn::{
-    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit,
+    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit, Member,
     NestedMeta, PathArguments, Result, Type, TypePath,
 };
 
@@ -33,48 +33,6 @@ enum PasturePrimitiveType {
 }
 
 impl PasturePrimitiveType {
-    fn min_alignment(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 1,
-            PasturePrimitiveType::Vec3u16 => 2,
-            PasturePrimitiveType::Vec3f32 => 4,
-            PasturePrimitiveType::Vec3f64 => 8,
-            PasturePrimitiveType::Vec3i32 => 4,
-            &PasturePrimitiveType::Vec4u8 => 1,
-        }
-    }
-
-    fn size(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 3,
-            PasturePrimitiveType::Vec3u16 => 6,
-            PasturePrimitiveType::Vec3f32 => 12,
-            PasturePrimitiveType::Vec3f64 => 24,
-            PasturePrimitiveType::Vec3i32 => 12,
-            &PasturePrimitiveType::Vec4u8 => 4,
-        }
-    }
-
     fn as_token_stream(&self) -> quote::__private::TokenStream {
         match self {
             PasturePrimitiveType::U8 => quote! {pasture_core::layout::PointAttributeDataType::U8},
@@ -304,6 +262,7 @@ fn get_attribute_name_from_field(field: &Field) -> Result<String> {
 /// Describes a single field within a `PointType` struct. Contains the name of the field, the point attribute
 /// that the field maps to, as well as the primitive type of the field
 struct FieldLayoutDescription {
+    pub member: Member,
     pub attribute_name: String,
     pub primitive_type: PasturePrimitiveType,
 }
@@ -311,12 +270,17 @@ struct FieldLayoutDescription {
 fn get_field_layout_descriptions(fields: &Fields) -> Result<Vec<FieldLayoutDescription>> {
     fields
         .iter()
-        .map(|field| match field.ty {
+        .enumerate()
+        .map(|(index, field)| match field.ty {
             Type::Path(ref type_path) => {
                 let primitive_type = type_path_to_primitive_type(type_path)?;
                 let attribute_name = get_attribute_name_from_field(field)?;
 
                 Ok(FieldLayoutDescription {
+                    member: match &field.ident {
+                        Some(ident) => Member::Named(ident.clone()),
+                        None => Member::Unnamed(index.into()),
+                    },
                     attribute_name,
                     primitive_type,
                 })
@@ -343,41 +307,15 @@ fn field_parameters(data: &Data, ident: &Ident) -> Result<Vec<FieldLayoutDescrip
     }
 }
 
-fn calculate_offsets_and_alignment(
-    fields: &[FieldLayoutDescription],
-    data: &Data,
-    ident: &Ident,
-    type_attributes: &[Attribute],
-) -> Result<(Vec<u64>, u64)> {
-    let struct_data = match data {
-        Data::Struct(struct_data) => struct_data,
-        _ => {
-            return Err(Error::new_spanned(
-                ident,
-                "#[derive(PointType)] is only valid for structs",
-            ))
-        }
-    };
-    let struct_layout = get_struct_member_layout(type_attributes, struct_data)?;
-
-    let mut current_offset = 0;
-    let mut max_alignment = 1;
-    let mut offsets = vec![];
-    for field in fields {
-        let min_alignment = match struct_layout {
-            StructMemberLayout::C => field.primitive_type.min_alignment(),
-            StructMemberLayout::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, field.primitive_type.min_alignment())
-            }
-        };
-        max_alignment = std::cmp::max(min_alignment, max_alignment);
-
-        let aligned_offset = ((current_offset + min_alignment - 1) / min_alignment) * min_alignment;
-        offsets.push(aligned_offset);
-        current_offset = aligned_offset + field.primitive_type.size();
+/// Checks that the memory layout of the type is one that `derive(PointType)` is valid for
+fn check_struct_layout(data: &Data, ident: &Ident, type_attributes: &[Attribute]) -> Result<()> {
+    match data {
+        Data::Struct(struct_data) => check_struct_representation(type_attributes, struct_data),
+        _ => Err(Error::new_spanned(
+            ident,
+            "#[derive(PointType)] is only valid for structs",
+        )),
     }
-
-    Ok((offsets, max_alignment))
 }
 
 /// Custom `derive` macro that implements the [`PointType`](pasture_core::layout::PointType) trait for the type that it is applied to.
@@ -445,19 +383,18 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             return why.to_compile_error().into();
         }
     };
-    let (offsets, type_alignment) =
-        match calculate_offsets_and_alignment(&fields, &input.data, name, input.attrs.as_slice()) {
-            Ok(inner) => inner,
-            Err(why) => {
-                return why.to_compile_error().into();
-            }
-        };
+    if let Err(why) = check_struct_layout(&input.data, name, input.attrs.as_slice()) {
+        return why.to_compile_error().into();
+    }
 
-    let attribute_descriptions = fields.iter().zip(offsets.iter()).map(|(field, offset)| {
+    // Only the compiler knows where the members are in memory: `#[repr(packed(N))]` without `C` may reorder them, and
+    // `align(N)` changes the alignment and size of the type
+    let attribute_descriptions = fields.iter().map(|field| {
         let attribute_name = &field.attribute_name;
+        let member = &field.member;
         let primitive_type = &field.primitive_type.as_token_stream();
         quote! {
-            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(#offset)
+            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(std::mem::offset_of!(#name, #member) as u64)
         }
     });
 
@@ -466,7 +403,7 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             fn layout() -> pasture_core::layout::PointLayout {
                 pasture_core::layout::PointLayout::from_members_and_alignment(&[
                     #(#attribute_descriptions ,)*
-                ], #type_alignment)
+                ], std::mem::align_of::<#name>() as u64)
             }
         }
     };
-- 
2.43.0


From e6bff5a93dfdede9984b5e3e079fc8401f18b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 66/68] fix: fields of a derived point type may have other
 attributes, such as documentation

---
 pasture-derive/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 9322396..51eda7c 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -171,13 +171,19 @@ fn type_path_to_primitive_type(type_path: &TypePath) -> Result<PasturePrimitiveT
 }
 
 fn get_attribute_name_from_field(field: &Field) -> Result<String> {
-    if field.attrs.len() != 1 {
+    // Fields may have other attributes, such as documentation
+    let pasture_attributes = field
+        .attrs
+        .iter()
+        .filter(|attribute| attribute.path.is_ident("pasture"))
+        .collect::<Vec<_>>();
+    if pasture_attributes.len() != 1 {
         return Err(Error::new_spanned(
             field,
             "derive(PointType) requires exactly one #[pasture] attribute per member!",
         ));
     }
-    let pasture_attribute = &field.attrs[0];
+    let pasture_attribute = pasture_attributes[0];
     let meta = pasture_attribute.parse_meta()?;
     // TODO Better explanation of the builtin Pasture attributes in this error message!
     let malformed_field_error_msg = "#[pasture] attribute is malformed. Correct syntax is #[pasture(attribute = \"NAME\")] or #[pasture(BUILTIN_XXX)], where XXX matches any of the builtin attributes in Pasture.";
-- 
2.43.0


From fb787b3ccf45b76da8fd40829b45ad5d4ba6b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 67/68] fix: fields of a derived point type may name their
 vector type with a path

---
 pasture-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 51eda7c..b6d1bd0 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -94,7 +94,7 @@ fn get_primitive_type_for_non_ident_type(type_path: &TypePath) -> Result<Pasture
     let path_segment = type_path
         .path
         .segments
-        .first()
+        .last()
         .ok_or_else(|| Error::new_spanned(&type_path.path, "Invalid type"))?;
     if !valid_idents.contains(&path_segment.ident.to_string().as_str()) {
         return Err(Error::new_spanned(&path_segment.ident, "Invalid type"));
-- 
2.43.0


From f904897f5795ab87ac2e6b259465e40919459ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 68/68] fix: a pasture attribute with more than one entry is
 refused instead of reduced to its first

---
 pasture-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index b6d1bd0..c23fac7 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -193,6 +193,9 @@ fn get_attribute_name_from_field(field: &Field) -> Result<String> {
     // builtin attributes in Pasture (such as INTENSITY, POSITION_3D etc.)
     match &meta {
         syn::Meta::List(list) => {
+            if list.nested.len() > 1 {
+                return Err(Error::new_spanned(list, malformed_field_error_msg));
+            }
             let first_list_entry = list
                 .nested
                 .first()
-- 
2.43.0

