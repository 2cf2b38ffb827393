From ff0a6a9b4fbf10046e3bc1b6d9887d2f9c22d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 01/21] fix: return Truncated instead of panicking on a
 truncated varchar string

---
 runtime/src/message/util/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..6e8a6e5 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,8 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let end = size.checked_add(msg.into_inner().to_usize()).ok_or(Error::Truncated)?;
+        let subslice = slice.get(size..end).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From e40c40b65bfe7ab594c7171f57762f0bc953680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 02/21] fix: do not overflow when computing the size of an
 array from its length prefix

---
 runtime/src/message/util/array.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..2624f99 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match len.checked_mul(Item::SIZE) == Some(data.as_ref().len()) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,9 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE)
+            .and_then(|v| v.checked_add(control_size))
+            .ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
-- 
2.43.0


From 569465f2e3f94c31b76ab7c761b4325470770e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 03/21] fix: read and write the least significant bytes of
 unaligned big endian values

---
 runtime/src/codec/bytes.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..b3f0ace 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -82,9 +82,22 @@ impl ByteCodec for ByteCodecBE {
         T::read_bytes_be(buffer)
     }
 
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        //In big endian, the missing bytes are the first (most significant) bytes of the value.
+        let mut data = [0; 8];
+        data[size_of::<T>() - buffer.len()..size_of::<T>()].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data)
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        let mut data = [0; 8];
+        Self::write_aligned::<T>(&mut data, value);
+        buffer.copy_from_slice(&data[size_of::<T>() - buffer.len()..size_of::<T>()]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d3520fd2859bb7d025240bf8f161433c5d0c5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 04/21] fix: address the right bits in big endian and unaligned
 bit codecs

---
 runtime/src/codec/bits.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..218b61a 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -36,7 +36,7 @@ pub trait BitCodec {
     unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mut data = [0; 8];
         data[..buffer.len()].copy_from_slice(buffer);
-        Self::read_aligned::<T, BIT_OFFSET, BIT_SIZE>(&data)
+        T::from_usize(Self::read_aligned::<u64, BIT_OFFSET, BIT_SIZE>(&data) as usize)
     }
 
     fn read<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
@@ -52,7 +52,7 @@ pub trait BitCodec {
     unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mut data = [0; 8];
         data[..buffer.len()].copy_from_slice(buffer);
-        Self::write_aligned::<T, BIT_OFFSET, BIT_SIZE>(&mut data, value);
+        Self::write_aligned::<u64, BIT_OFFSET, BIT_SIZE>(&mut data, value.to_usize() as u64);
         let motherfuckingrust = buffer.len();
         buffer.copy_from_slice(&data[..motherfuckingrust]);
     }
@@ -90,15 +90,16 @@ impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mask: usize = (1 << BIT_SIZE) - 1;
         let value = T::read_bytes_be(buffer);
-        (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
+        (value >> T::from_usize(size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = (1 << BIT_SIZE) - 1;
-        let reset_mask = !(mask << BIT_OFFSET);
+        let shift = size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET;
+        let reset_mask = !(mask << shift);
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
-        let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
+        let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
 }
-- 
2.43.0


From e7f36f8e4ab07e46be877c12ef0d6f2eeffb833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 05/21] fix: give fields that straddle byte boundaries all the
 bytes they occupy

---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 22 +++++++++++++++-------
 compiler/src/gen/base/structure.rs |  4 ++--
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..b34264b 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnalignedStruct => "unaligned nested structure in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..adb3d45 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -126,18 +126,21 @@ pub struct Location {
 impl Location {
     fn from_model(bit_size: usize, bit_offset: usize) -> Self {
         let byte_offset = bit_offset / 8;
+        let bit_offset = bit_offset - byte_offset * 8;
         Self {
             byte_offset,
-            bit_offset: bit_offset - byte_offset * 8,
+            bit_offset,
             bit_size,
-            byte_size: if bit_size % 8 != 0 {
-                (bit_size / 8) + 1
-            } else {
-                bit_size / 8
-            }
+            //The field may straddle one more byte when it does not start on a byte boundary.
+            byte_size: (bit_offset + bit_size).div_ceil(8)
         }
     }
 
+    /// Returns true if this location starts and ends on a byte boundary.
+    pub fn is_byte_aligned(&self) -> bool {
+        self.bit_offset == 0 && self.bit_size % 8 == 0
+    }
+
     pub fn get_unsigned_integer_type(&self) -> FixedFieldType {
         FixedFieldType::from_model(StructFieldType::Unsigned { bits: self.bit_size }).unwrap()
     }
@@ -289,6 +292,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedStruct);
+                }
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
@@ -303,7 +309,7 @@ impl Field {
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
+                    if bit_size % 8 != 0 || (bit_size / array_len) % 8 != 0 || loc.bit_offset != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
@@ -313,6 +319,8 @@ impl Field {
                         ty,
                         loc
                     }), last_bit_offset + bit_size))
+                } else if loc.byte_size > 8 {
+                    Err(Error::UnsupportedBitSize(loc.bit_offset + loc.bit_size))
                 } else {
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..1a6df4e 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -52,7 +52,7 @@ fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if !v.loc.is_byte_aligned() {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
@@ -84,7 +84,7 @@ fn gen_field_setter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name_mut(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if !v.loc.is_byte_aligned() {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
-- 
2.43.0


From 59566fcba7396405e241a7fa47cc8774c8540f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 06/21] fix: reject unsupported bit sizes and array lengths
 instead of overflowing

---
 compiler/src/compiler/error.rs     |  2 ++
 compiler/src/compiler/structure.rs | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index b34264b..7d0363e 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,8 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        InvalidArrayLength(usize) => "invalid array length in structure ({})",
+        StructTooLarge => "structure is too large",
         UnalignedStruct => "unaligned nested structure in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index adb3d45..1088a21 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -192,7 +192,7 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
+                let raw_max: usize = usize::MAX >> (64 - bit_size);
                 let a = max / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
@@ -295,21 +295,29 @@ impl Field {
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedStruct);
                 }
+                let next_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::StructTooLarge)?;
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
                     loc: Location::from_model(r.bit_size, last_bit_offset)
-                }), last_bit_offset + r.bit_size))
+                }), next_bit_offset))
             },
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
-                let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
-                let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
-                bit_size *= array_len;
+                let item_bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                if item_bit_size < 1 || item_bit_size > 64 {
+                    return Err(Error::UnsupportedBitSize(item_bit_size));
+                }
+                let view = FieldView::from_model(proto, value.info.get_simple_type(), item_bit_size, value.view)?;
+                if array_len < 1 {
+                    return Err(Error::InvalidArrayLength(array_len));
+                }
+                let bit_size = item_bit_size.checked_mul(array_len).ok_or(Error::InvalidArrayLength(array_len))?;
+                let next_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::StructTooLarge)?;
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 || (bit_size / array_len) % 8 != 0 || loc.bit_offset != 0 {
+                    if bit_size % 8 != 0 || item_bit_size % 8 != 0 || loc.bit_offset != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
@@ -318,7 +326,7 @@ impl Field {
                         array_len,
                         ty,
                         loc
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 } else if loc.byte_size > 8 {
                     Err(Error::UnsupportedBitSize(loc.bit_offset + loc.bit_size))
                 } else {
@@ -328,7 +336,7 @@ impl Field {
                         ty,
                         loc,
                         view
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 }
             }
         }
-- 
2.43.0


From 5ffc9f8dc6e44648c914e6028fe13e1c60beab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 07/21] fix: reject arrays of structures in a structure rather
 than dropping the array length

---
 compiler/src/compiler/structure.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 1088a21..dff21bb 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -292,6 +292,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if value.array_len.unwrap_or(1) != 1 {
+                    return Err(Error::UnsupportedType(StructFieldType::Struct { item_type: r.name.clone() }));
+                }
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedStruct);
                 }
-- 
2.43.0


From 005d24d29e93b98aad6350aa970cd5d96d4589fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 08/21] fix: reject union discriminant paths which do not end
 on a fixed field

---
 compiler/src/compiler/union.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..632fc5e 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -108,21 +108,29 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut is_leaf = false;
         for sub in parts {
+            if is_leaf {
+                return Err(Error::InvalidUnionDiscriminant);
+            }
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => is_leaf = true,
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
         }
+        //The path must end on a fixed field.
+        if !is_leaf {
+            return Err(Error::InvalidUnionDiscriminant);
+        }
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-            leaf_index: index_list.last().map(|v| *v).unwrap(),
+            leaf_index: index_list.last().copied().ok_or(Error::InvalidUnionDiscriminant)?,
             index_list
         })
     }
-- 
2.43.0


From 66f53de3a4a47449ddebde3076f9614ba58c300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 09/21] fix: honour the endianness declared by a protocol

---
 compiler/src/compiler/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
-- 
2.43.0


From 63118eb75d8853dd44fe160a88fbc367dd7436bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 10/21] fix: decode enum views by variant instead of
 transmuting raw values

---
 compiler/src/gen/base/structure.rs              |  8 ++++++--
 compiler/src/gen/rust/structure.field.template  | 11 ++++++-----
 compiler/src/gen/swift/structure.field.template |  2 ++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 1a6df4e..5c0c7d4 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -111,8 +111,12 @@ fn gen_field_view_getter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
         FieldView::Float { a, b, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a", format!("{:?}", a)).var("b", format!("{:?}", b))
             .render("getters", &["view_float"]).unwrap(),
-        FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
-            .var_d("enum_largest", e.largest).render("getters", &["view_enum"]).unwrap(),
+        FieldView::Enum(e) => {
+            scope.var("view_type", type_path_by_name.get(&e.name));
+            let variants = e.variants.iter().map(|(k, v)| scope.clone().var("key", k).var_d("value", v)
+                .render("getters.view_enum", &["variant"]).unwrap()).join("");
+            scope.var("variants", variants).render("getters", &["view_enum"]).unwrap()
+        },
         FieldView::Transmute => {
             let field_type = U::get_field_type(field.ty);
             scope.var("view_type", field_type);
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..138e1e3 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,11 +30,12 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
+        match self.get_raw_{name}() {{
+{variants}
+#fragment push variant
+            {value} => Some({view_type}::{key}),
+#fragment pop
+            _ => None
         }}
     }}
 #fragment pop
diff --git a/compiler/src/gen/swift/structure.field.template b/compiler/src/gen/swift/structure.field.template
index 74fccbe..4429de0 100644
--- a/compiler/src/gen/swift/structure.field.template
+++ b/compiler/src/gen/swift/structure.field.template
@@ -33,6 +33,8 @@ extension {struct_name} where T: BP3DProto.Buffer {{
         let raw_value = self.raw_{name};
         return {view_type}(raw: raw_value);
     }}
+#fragment push variant
+#fragment pop
 #fragment pop
 #fragment push view_transmute
     public {name}: {view_type} {{
-- 
2.43.0


From af3afc9a3cf6e7cb9c7f721b3414a57c59011c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 11/21] fix: reject enum views on fields too small for the enum

---
 compiler/src/compiler/error.rs     | 1 +
 compiler/src/compiler/structure.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 7d0363e..3b3edb2 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -43,6 +43,7 @@ simple_error! {
         StructTooLarge => "structure is too large",
         UnalignedStruct => "unaligned nested structure in structure",
         SolverError => "failed to resolve imported type",
+        EnumTooLarge(String) => "not enough bits to store all the variants of enum '{}'",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index dff21bb..69c4d7b 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -186,6 +186,9 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let r = proto.enums_by_name.get(&name).ok_or_else(|| Error::UndefinedReference(name))?;
+                if r.largest > usize::MAX >> (64 - bit_size) {
+                    return Err(Error::EnumTooLarge(r.name.clone()));
+                }
                 Ok(FieldView::Enum(r.clone()))
             }
             Some(StructFieldView::FloatRange { min, max }) => {
-- 
2.43.0


From dacba8d3c5897cd10e64bb84fa5e8e5b1959fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 12/21] fix: check the discriminant when writing union cases
 without an item

---
 compiler/src/gen/rust/union.rs       | 12 +++++++-----
 compiler/src/gen/rust/union.template | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..02cd263 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -83,18 +83,20 @@ fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &T
     let generics = get_generics(u);
     let mut scope = template.scope();
     if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
+        let cases = u.cases.iter().map(|case| {
             let mut scope = template.scope();
             scope.var("name", &case.name).var_d("case", case.case);
             match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
+                None => scope.render("write_to.generics", &["case_none"]).unwrap(),
+                Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                    .render("write_to.generics", &["case"]).unwrap()
             }
         }).join("");
         scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
-        scope.render_to_var("write_to", &["none"], "fragment").unwrap();
+        let cases = u.cases.iter().map(|case| template.scope().var("name", &case.name).var_d("case", case.case)
+            .render("write_to.none", &["case"]).unwrap()).join("");
+        scope.var("cases", cases).render_to_var("write_to", &["none"], "fragment").unwrap();
     }
     scope.render("", &["write_to"]).unwrap()
 }
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..6871bf8 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,26 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
+#fragment push case_none
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+#fragment push case
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From 8199f075dcbe8fd24abf35fb7757fe2e2b5cacf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 13/21] fix: match negative union cases against the raw
 discriminant

---
 compiler/src/compiler/union.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 632fc5e..bb67a5c 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -40,15 +40,23 @@ pub struct UnionField {
 
 impl UnionField {
     pub fn from_model(proto: &Protocol, discriminant: &FixedField, value: crate::model::union::UnionField) -> Result<Self, Error> {
+        let max = usize::MAX >> (64 - discriminant.loc.bit_size);
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
-            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
+            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case.clone()))?,
             FieldView::Transmute | FieldView::SignedCast { .. } => {
-                let value: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?;
-                value as usize
+                let case: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?;
+                if case < 0 && !case as usize > max >> 1 {
+                    return Err(Error::InvalidUnionCase(value.case));
+                }
+                //Negative cases are matched against the raw (two's complement) discriminant.
+                if case < 0 { case as usize & max } else { case as usize }
             }
-            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?
+            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?
         };
+        if case > max {
+            return Err(Error::InvalidUnionCase(value.case));
+        }
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
         Ok(UnionField {
-- 
2.43.0


From 6a8683a056d0131d184e74e87f7434f7cdc636b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 14/21] fix: return an error when a length does not fit in its
 prefix

---
 runtime/src/message/interface.rs      | 1 +
 runtime/src/message/util/common.rs    | 8 ++++++++
 runtime/src/message/util/list_base.rs | 2 +-
 runtime/src/message/util/string.rs    | 3 ++-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/interface.rs b/runtime/src/message/interface.rs
index cf7c115..c965e4c 100644
--- a/runtime/src/message/interface.rs
+++ b/runtime/src/message/interface.rs
@@ -32,6 +32,7 @@ simple_error! {
     pub Error {
         InvalidUtf8 => "invalid UTF-8 string",
         Truncated => "truncated input",
+        LengthOverflow(usize) => "length does not fit in the length prefix ({})",
         InvalidUnionDiscriminant(usize) => "invalid union discriminant ({})",
         (impl From) Io(std::io::Error) => "io error: {}"
     }
diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index ed58874..4119829 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -30,6 +30,7 @@ use std::io::Write;
 use std::marker::PhantomData;
 use bytesutil::ReadBytes;
 use crate::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
+use crate::util::ToUsize;
 
 pub struct Optional<T>(PhantomData<T>);
 
@@ -137,6 +138,13 @@ impl<T: bytesutil::WriteTo> WriteTo for ValueBE<T> {
     }
 }
 
+pub(crate) fn write_length<T: WriteTo<Input: ToUsize + Sized>, W: Write>(len: usize, out: W) -> Result<(), Error> {
+    if T::Input::from_usize(len).to_usize() != len {
+        return Err(Error::LengthOverflow(len));
+    }
+    T::write_to(&T::Input::from_usize(len), out)
+}
+
 pub struct Buffer;
 
 impl<'a> FromSlice<'a> for Buffer {
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..d9fe0c1 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,7 +51,7 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-                T::write_to(&T::Input::from_usize(input.len), &mut out)?;
+                $crate::message::util::write_length::<T, _>(input.len, &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
             }
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 6e8a6e5..3e5c08c 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -29,6 +29,7 @@
 use std::io::Write;
 use std::marker::PhantomData;
 use crate::message::{Error, FromSlice, Message, WriteTo};
+use crate::message::util::write_length;
 use crate::util::ToUsize;
 
 pub struct NullTerminatedString;
@@ -75,7 +76,7 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-        T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
+        write_length::<T, _>(input.len(), &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
     }
-- 
2.43.0


From 1edd7f8d29f6f0a62d655700634757d6946d04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 15/21] fix: refuse to write null bytes inside null terminated
 strings

---
 runtime/src/message/interface.rs   | 1 +
 runtime/src/message/util/string.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/runtime/src/message/interface.rs b/runtime/src/message/interface.rs
index c965e4c..d94fbdc 100644
--- a/runtime/src/message/interface.rs
+++ b/runtime/src/message/interface.rs
@@ -32,6 +32,7 @@ simple_error! {
     pub Error {
         InvalidUtf8 => "invalid UTF-8 string",
         Truncated => "truncated input",
+        InteriorNull => "null byte in a null terminated string",
         LengthOverflow(usize) => "length does not fit in the length prefix ({})",
         InvalidUnionDiscriminant(usize) => "invalid union discriminant ({})",
         (impl From) Io(std::io::Error) => "io error: {}"
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3e5c08c..b847d22 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -51,6 +51,10 @@ impl WriteTo for NullTerminatedString {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if input.as_bytes().contains(&0x0) {
+            //The string would be read back cut at its first null byte.
+            return Err(Error::InteriorNull);
+        }
         out.write_all(input.as_bytes())?;
         out.write_all(&[0x0])?;
         Ok(())
-- 
2.43.0


From 20f387cf5dbe7673226930198400869e6bdc84f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 16/21] fix: map the raw values of a float range view onto the
 whole range

---
 compiler/src/compiler/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 69c4d7b..3133825 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -196,10 +196,10 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let raw_max: usize = usize::MAX >> (64 - bit_size);
-                let a = max / (raw_max as f64);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b * a_inv;
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
-- 
2.43.0


From 209f023a68d2bf00b95b9c4e5308e03741e3ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 17/21] fix: stop iterating over a list after an item failed to
 decode

---
 runtime/src/message/util/list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..061f8e1 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,11 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                //The next items cannot be located.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +100,11 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                //The next items cannot be located.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From 5febac762c40678f2b762b9006c4e38243bed6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 18/21] fix: keep the width and endianness of single field
 structures in messages

---
 compiler/src/compiler/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..897f057 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -133,7 +133,7 @@ impl Field {
                     Referenced::Struct(r) => {
                         if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
-                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size % 8 == 0).unwrap_or_default() {
+                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
                             Ok(Field {
                                 name: value.name,
@@ -145,7 +145,7 @@ impl Field {
                                     is_dyn_sized: false,
                                     is_element_dyn_sized: false
                                 },
-                                endianness: proto.endianness
+                                endianness: fixed.endianness
                             })
                         } else {
                             Ok(Field {
-- 
2.43.0


From 5650f8e8daba81383282142a3bb3e786590e29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 19/21] fix: do not let lists swallow the data following the
 message they are in

---
 compiler/src/compiler/message.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 897f057..aad1c7c 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -191,7 +191,7 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
-                        item_type.embedded.set(true);
+                        item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::List(ListField {
@@ -300,6 +300,21 @@ impl Message {
         self.embedded.get()
     }
 
+    /// Marks this message, and all the messages it contains, as followed by other data: its lists
+    /// cannot extend to the end of the input.
+    fn set_embedded(&self) {
+        self.embedded.set(true);
+        for field in &self.fields {
+            match &field.ty {
+                FieldType::Ref(Referenced::Message(v)) => v.set_embedded(),
+                FieldType::Union(v) => v.r.cases.iter().for_each(|v| if let Some(Referenced::Message(v)) = &v.item_type {
+                    v.set_embedded();
+                }),
+                _ => ()
+            }
+        }
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::message::Message) -> Result<Message, Error> {
         let mut fields = Vec::with_capacity(value.fields.len());
         let mut dyn_sized_elem_count = 0;
@@ -320,7 +335,8 @@ impl Message {
             }
             fields.push(field);
         }
-        Ok(Message {
+        let has_trailing_fields = fields.iter().rev().skip(1).any(|v| v.size.is_element_dyn_sized);
+        let message = Message {
             name: value.name,
             fields,
             size: SizeInfo {
@@ -328,6 +344,10 @@ impl Message {
                 is_element_dyn_sized: dyn_sized_elem_count > 0
             },
             embedded: Cell::new(false)
-        })
+        };
+        if has_trailing_fields {
+            message.set_embedded();
+        }
+        Ok(message)
     }
 }
-- 
2.43.0


From 189c76ec1a59ac43c777020848245f949a4217a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 20/21] hook: make the schema model public under cfg(kani) or
 cfg(bp3d_verif)

---
 compiler/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 108c209..ce5d2c0 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -26,7 +26,10 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+#[cfg(not(any(kani, bp3d_verif)))]
 mod model;
+#[cfg(any(kani, bp3d_verif))]
+pub mod model;
 pub mod compiler;
 pub mod gen;
 mod error;
-- 
2.43.0


From 7a926f20fe378c10122c3d4d50f37c1f7902dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:05 +0000
Subject: [PATCH 21/21] fix: accept the path of an imported structure as item
 of an array wrapper

---
 runtime/src/message/macros.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/runtime/src/message/macros.rs b/runtime/src/message/macros.rs
index 247157a..834dede 100644
--- a/runtime/src/message/macros.rs
+++ b/runtime/src/message/macros.rs
@@ -28,19 +28,26 @@
 
 #[macro_export]
 macro_rules! generate_array_wrapper {
-    ($name: ident, $inner: ident, $t: ty) => {
-        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $inner<&'a [u8]>>);
+    ($name: ident, $($inner: ident)::+, $t: ty) => {
+        $crate::generate_array_wrapper!(@item $name, [$($inner)::+], $t);
+    };
+    ($name: ident, $(::$inner: ident)+, $t: ty) => {
+        $crate::generate_array_wrapper!(@item $name, [$(::$inner)+], $t);
+    };
+    //The type of the items may be a path to another module or crate.
+    (@item $name: ident, [$($inner: tt)+], $t: ty) => {
+        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $($inner)+<&'a [u8]>>);
 
         impl<'a, B> $name<'a, B> {
             pub unsafe fn from_raw_parts(data: B, len: usize) -> $name<'a, B> {
-                Self($crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_raw_parts(data, len))
+                Self($crate::message::util::Array::<B, $t, $($inner)+<&'a [u8]>>::from_raw_parts(data, len))
             }
 
             pub fn new(data: B) -> $name<'a, B> {
                 unsafe { Self::from_raw_parts(data, 0) }
             }
 
-            pub fn from_array(inner: $crate::message::util::Array<B, $t, $inner<&'a [u8]>>) -> Self {
+            pub fn from_array(inner: $crate::message::util::Array<B, $t, $($inner)+<&'a [u8]>>) -> Self {
                 Self(inner)
             }
 
@@ -50,39 +57,39 @@ macro_rules! generate_array_wrapper {
         }
 
         impl<'a, B: std::io::Write> $name<'a, B> {
-            pub fn write_item(&mut self, item: &$inner<&[u8]>) -> $crate::message::Result<()> {
+            pub fn write_item(&mut self, item: &$($inner)+<&[u8]>) -> $crate::message::Result<()> {
                 self.0.write_item(item)
             }
 
-            pub fn write_items(&mut self, items: &[$inner<&[u8]>]) -> $crate::message::Result<()> {
+            pub fn write_items(&mut self, items: &[$($inner)+<&[u8]>]) -> $crate::message::Result<()> {
                 self.0.write_items(items)
             }
         }
 
         impl<'a, B: AsRef<[u8]>> $name<'a, B> {
-            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $inner<&[u8]>> {
+            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $($inner)+<&[u8]>> {
                 self.0.to_ref()
             }
 
             pub fn from_parts(data: B, len: usize) -> Option<Self> {
-                $crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_parts(data, len).map(Self)
+                $crate::message::util::Array::<B, $t, $($inner)+<&'a [u8]>>::from_parts(data, len).map(Self)
             }
 
-            pub fn get(&self, index: usize) -> $inner<&[u8]> {
+            pub fn get(&self, index: usize) -> $($inner)+<&[u8]> {
                 self.0.get(index)
             }
 
-            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $inner<&[u8]>> {
+            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $($inner)+<&[u8]>> {
                 self.0.iter()
             }
         }
 
         impl<'a, B: AsMut<[u8]>> $name<'a, B> {
-            pub fn get_mut(&mut self, index: usize) -> $inner<&mut [u8]> {
+            pub fn get_mut(&mut self, index: usize) -> $($inner)+<&mut [u8]> {
                 self.0.get_mut(index)
             }
 
-            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $inner<&mut [u8]>> {
+            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $($inner)+<&mut [u8]>> {
                 self.0.iter_mut()
             }
         }
-- 
2.43.0

