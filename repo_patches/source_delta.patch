From 5f697bd6b8496e2c3e6070fb6702a39713027074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 01/19] fix: put the root offset before the file identifier in
 Builder::finish

---
 crates/planus/src/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 4c111d7..46a371a 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -258,13 +258,14 @@ impl Builder {
         let root = root.prepare(self);
 
         if let Some(file_identifier) = file_identifier {
-            // TODO: how does alignment interact with file identifiers? Is the alignment with out without the header?
+            // The buffer is written from the back: the file identifier has to be
+            // written before the root offset to end up after it.
             let offset = self.prepare_write(
                 8,
                 <Offset<T> as Primitive>::ALIGNMENT_MASK.max(self.alignment_mask),
             ) as u32;
-            self.write(&(offset - 4 - root.offset).to_le_bytes());
             self.write(&file_identifier);
+            self.write(&(offset - root.offset).to_le_bytes());
         } else {
             let offset = self.prepare_write(
                 4,
-- 
2.43.0


From 0f81844b41a3b516d1109707298b49f6b22bed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 02/19] fix: align the elements of vectors written from arrays

---
 crates/planus/src/impls/array.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/planus/src/impls/array.rs b/crates/planus/src/impls/array.rs
index 49d3024..8522b95 100644
--- a/crates/planus/src/impls/array.rs
+++ b/crates/planus/src/impls/array.rs
@@ -1,6 +1,6 @@
 use core::mem::MaybeUninit;
 
-use crate::{builder::Builder, traits::*, Cursor, Offset, UnionVectorOffset};
+use crate::{builder::Builder, traits::*, Offset, UnionVectorOffset};
 
 impl<T, P, const N: usize> WriteAsOffset<[P]> for [T; N]
 where
@@ -16,22 +16,27 @@ where
         //       https://github.com/rust-lang/rust/issues/80908
         let tmp =
             unsafe { (&tmp as *const [MaybeUninit<T::Value>; N] as *const [T::Value; N]).read() };
+        // The elements have to be aligned, not the length in front of them, so the
+        // two are written separately.
+        // SAFETY: The inner closure always initializes the entire buffer, because it calls `write_values` with `N` values each of length `T::STRIDE`.
         unsafe {
             builder.write_with(
-                4 + T::STRIDE.checked_mul(self.len()).unwrap(),
-                P::ALIGNMENT_MASK.max(3),
+                T::STRIDE.checked_mul(self.len()).unwrap(),
+                P::ALIGNMENT_MASK.max(u32::ALIGNMENT_MASK),
                 |buffer_position, bytes| {
                     let bytes = bytes.as_mut_ptr();
 
-                    (self.len() as u32).write(
-                        Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
-                        buffer_position,
-                    );
-
-                    T::write_values(&tmp, bytes.add(4), buffer_position - 4);
+                    T::write_values(&tmp, bytes, buffer_position);
                 },
             )
         };
+        // SAFETY: The inner closure always initializes the entire buffer, because it calls `copy_from_slice` with an array of len 4
+        unsafe {
+            builder.write_with(4, 0, |_buffer_position, bytes| {
+                let len = (self.len() as u32).to_le_bytes().map(MaybeUninit::new);
+                bytes.copy_from_slice(&len);
+            });
+        }
         builder.current_offset()
     }
 }
-- 
2.43.0


From 77e30cc1f6d4f81c8565f30d6959f5dd64b73a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 03/19] fix: correct the debug assertion in UnionVector
 indexing

---
 crates/planus/src/union_vectors/union_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/union_vectors/union_vector.rs b/crates/planus/src/union_vectors/union_vector.rs
index 82749cd..e677306 100644
--- a/crates/planus/src/union_vectors/union_vector.rs
+++ b/crates/planus/src/union_vectors/union_vector.rs
@@ -420,7 +420,7 @@ impl<'buf, T: VectorReadUnion<'buf>> UnionVectorIndex<'buf, T> for usize {
     #[inline]
     unsafe fn get_unchecked(self, vector: UnionVector<'buf, T>) -> Self::Output {
         debug_assert!(self < vector.len);
-        debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.tags.len());
+        debug_assert!(vector.len <= vector.tags.len());
         debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.values.len());
         let tag = *vector.tags.buffer.get_unchecked(self);
         <T as VectorReadUnion>::from_buffer(vector.values, tag, 4 * self)
-- 
2.43.0


From b8309ccaf26dddecc203395604a9b58f0d587f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 04/19] fix: return an error for a union vector with only one
 of its two vectors

---
 crates/planus/src/table_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 981ca94..6da41df 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -163,7 +163,7 @@ impl<'buf> Table<'buf> {
             let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
             match (tags_offset, values_offset) {
                 (0, 0) => Ok(None),
-                (0, _) | (_, 0) => todo!(),
+                (0, _) | (_, 0) => Err(make_error(ErrorKind::InvalidOffset)),
                 (tags_offset, values_offset) => Ok(Some(
                     T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
                 )),
-- 
2.43.0


From 4014b65a155092e8310710443d8255be6344a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 05/19] fix: accept the escaped backslash in string literals

---
 crates/planus-lexer/src/text_lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/planus-lexer/src/text_lexer.rs b/crates/planus-lexer/src/text_lexer.rs
index 64eaa10..6939b7f 100644
--- a/crates/planus-lexer/src/text_lexer.rs
+++ b/crates/planus-lexer/src/text_lexer.rs
@@ -55,6 +55,7 @@ impl Text {
                     "\"" => out.push('"'),
                     "'" => out.push('\''),
                     "/" => out.push('/'),
+                    "\\" => out.push('\\'),
                     _ => {
                         error.get_or_insert(LexicalError::new("Invalid escape sequence", span));
                     }
-- 
2.43.0


From ed0f847b781446c17324f6d1579e97ac69ceac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 06/19] fix: read underscores in integer literals instead of
 dropping the literal

---
 .../src/intermediate_language/translation.rs  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 48d0049..a550287 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -322,17 +322,19 @@ impl<'a> Translator<'a> {
         }
         let base_t = T::from(base).unwrap();
         let mut result = T::from(0u8).unwrap();
+        let mut has_digits = false;
         for c in v {
             let cur = match c {
+                b'_' => continue,
                 b'0'..=b'9' => c - b'0',
                 b'a'..=b'f' if base == 16 => c - b'a' + 0xa,
                 b'A'..=b'F' if base == 16 => c - b'A' + 0xa,
                 _ => {
-                    // TODO error message
-                    // Can it even happen?
-                    return None;
+                    has_digits = false;
+                    break;
                 }
             };
+            has_digits = true;
 
             match result.checked_mul(&base_t).and_then(|v| {
                 if is_negative {
@@ -358,7 +360,16 @@ impl<'a> Translator<'a> {
             }
         }
 
-        Some(result)
+        if has_digits {
+            Some(result)
+        } else {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_PARSE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Invalid integer literal"),
+            );
+            None
+        }
     }
 
     fn translate_float(
-- 
2.43.0


From 560c7c4966712c243955c4b0f915115eea748c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 07/19] fix: keep the sign of float literals and report
 unsupported ones instead of panicking

---
 .../src/intermediate_language/translation.rs  | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index a550287..2826301 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -374,19 +374,31 @@ impl<'a> Translator<'a> {
 
     fn translate_float(
         &self,
-        _span: Span,
-        _is_negative: bool,
+        file_id: FileId,
+        span: Span,
+        is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
         use FloatLiteral::*;
 
-        // TODO error messages
         // TODO: hex parsing and other formats
-        Some(match type_ {
-            ast::FloatType::F32 => F32(v.parse().unwrap()),
-            ast::FloatType::F64 => F64(v.parse().unwrap()),
-        })
+        let mut v = v.replace('_', "");
+        if is_negative {
+            v.insert(0, '-');
+        }
+        let value = match type_ {
+            ast::FloatType::F32 => v.parse().ok().map(F32),
+            ast::FloatType::F64 => v.parse().ok().map(F64),
+        };
+        if value.is_none() {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_PARSE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Unsupported float literal"),
+            );
+        }
+        value
     }
 
     fn translate_literal(
@@ -450,7 +462,7 @@ impl<'a> Translator<'a> {
                 | LiteralKind::Integer { is_negative, value },
                 SimpleType(Float(type_)),
             ) => self
-                .translate_float(literal.span, *is_negative, value, type_)
+                .translate_float(current_file_id, literal.span, *is_negative, value, type_)
                 .map(Literal::Float),
             (LiteralKind::String(s), String) => Some(Literal::String(s.clone())),
             (LiteralKind::List(literals), Vector(type_)) => {
-- 
2.43.0


From a0930033dbd85769ed1f96bbee4815dde740b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 08/19] fix: generate valid Rust for infinite and NaN float
 defaults

---
 crates/planus-codegen/src/rust/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index bc91782..c5edd57 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -10,7 +10,9 @@ use eyre::Context;
 use heck::{ToSnakeCase, ToUpperCamelCase};
 use planus_types::{
     ast::{FloatType, IntegerType},
-    intermediate::{self, AbsolutePath, AssignMode, DeclarationIndex, Literal, TableFieldTagKind},
+    intermediate::{
+        self, AbsolutePath, AssignMode, DeclarationIndex, FloatLiteral, Literal, TableFieldTagKind,
+    },
 };
 
 use super::backend::{
@@ -860,10 +862,11 @@ impl Backend for RustBackend {
                 vtable_type = float_type(&typ).to_string();
                 match &field.assign_mode {
                     AssignMode::HasDefault(Literal::Float(lit)) => {
+                        let lit = float_literal(lit);
                         read_type = vtable_type.clone();
                         owned_type = vtable_type.clone();
                         create_trait = format!("WriteAsDefault<{owned_type}, {owned_type}>");
-                        impl_default_code = format!("{lit}").into();
+                        impl_default_code = lit.clone().into();
                         serialize_default = Some(format!("&{lit}").into());
                         deserialize_default = Some(impl_default_code.clone());
                     }
@@ -1045,6 +1048,23 @@ fn float_type(type_: &FloatType) -> &'static str {
     }
 }
 
+fn float_literal(literal: &FloatLiteral) -> String {
+    let (value, type_) = match literal {
+        FloatLiteral::F32(v) => (f64::from(*v), "f32"),
+        FloatLiteral::F64(v) => (*v, "f64"),
+    };
+    let name = if value.is_nan() {
+        "NAN"
+    } else if value == f64::INFINITY {
+        "INFINITY"
+    } else if value == f64::NEG_INFINITY {
+        "NEG_INFINITY"
+    } else {
+        return literal.to_string();
+    };
+    format!("::core::primitive::{type_}::{name}")
+}
+
 pub fn format_string(s: &str, max_width: Option<u64>) -> eyre::Result<String> {
     // Probe rustfmt up front so a missing binary yields a clear error.
     let version_status = Command::new("rustfmt")
-- 
2.43.0


From 7d394fb9c3103cde310359af86faec262913e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 09/19] fix: keep table fields aligned when one of them has a
 forced alignment

---
 .../src/intermediate_language/translation.rs           | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 2826301..042c54e 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1472,7 +1472,7 @@ impl<'a> Translator<'a> {
             if let DeclarationKind::Table(decl_kind) = &mut decl.kind {
                 for field in decl_kind.fields.values_mut() {
                     let mut tag_kind = TableFieldTagKind::None;
-                    let (value_size, mut alignment) = match &field.type_.kind {
+                    let (value_size, alignment) = match &field.type_.kind {
                         TypeKind::Table(_) | TypeKind::String => (4, 4),
                         TypeKind::Vector(inner) => {
                             if matches!(&inner.kind, TypeKind::Union(_)) {
@@ -1511,9 +1511,11 @@ impl<'a> Translator<'a> {
                     };
                     if let Some((forced_alignment, forced_alignment_span)) = field.forced_alignment
                     {
-                        if alignment <= forced_alignment {
-                            alignment = forced_alignment;
-                        } else {
+                        // The fields are written in order of their natural alignment and
+                        // without padding, so forcing the alignment cannot change the order
+                        // without misaligning the other fields
+                        max_alignment = max_alignment.max(forced_alignment);
+                        if alignment > forced_alignment {
                             self.ctx.emit_error(
                                 ErrorKind::MISC_SEMANTIC_ERROR,
                                 [
-- 
2.43.0


From 5ca8d77b800d8fc8f7ee2f11fcef76f50a401b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 10/19] fix: report enum variants whose implied value overflows
 instead of wrapping around

---
 .../src/intermediate_language/translation.rs  | 26 ++++++++++++-------
 crates/planus-types/src/intermediate.rs       | 14 ++++++++++
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 042c54e..85c1dc9 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1198,23 +1198,31 @@ impl<'a> Translator<'a> {
         }
 
         let mut variants: IndexMap<IntegerLiteral, EnumVariant> = IndexMap::new();
-        let mut next_value = IntegerLiteral::default_value_from_type(&decl.type_);
+        let mut next_value = Some(IntegerLiteral::default_value_from_type(&decl.type_));
         for (ident, variant) in decl.variants.iter() {
-            let mut value = next_value;
             let name = self.ctx.resolve_identifier(*ident);
-            if let Some(assignment) = &variant.value {
-                if let Some(v) = self.translate_integer(
+            let value = if let Some(assignment) = &variant.value {
+                let Some(value) = self.translate_integer(
                     current_file_id,
                     assignment.span,
                     assignment.is_negative,
                     &assignment.value,
                     &decl.type_,
-                ) {
-                    value = v;
-                } else {
+                ) else {
                     continue;
                 };
-            }
+                value
+            } else {
+                let Some(value) = next_value else {
+                    self.ctx.emit_error(
+                        ErrorKind::NUMERICAL_RANGE_ERROR,
+                        [Label::primary(current_file_id, variant.span)],
+                        Some("The value of this variant is out of range for the enum"),
+                    );
+                    continue;
+                };
+                value
+            };
             match variants.entry(value) {
                 Entry::Occupied(entry) => {
                     self.ctx.emit_error(
@@ -1238,7 +1246,7 @@ impl<'a> Translator<'a> {
                     });
                 }
             }
-            next_value = value.next();
+            next_value = value.checked_next();
         }
         Enum {
             variants,
diff --git a/crates/planus-types/src/intermediate.rs b/crates/planus-types/src/intermediate.rs
index c59eb5b..99f75e6 100644
--- a/crates/planus-types/src/intermediate.rs
+++ b/crates/planus-types/src/intermediate.rs
@@ -624,6 +624,20 @@ impl IntegerLiteral {
             Self::I64(n) => Self::I64(n.wrapping_add(1)),
         }
     }
+
+    #[must_use]
+    pub fn checked_next(&self) -> Option<Self> {
+        match self {
+            Self::U8(n) => n.checked_add(1).map(Self::U8),
+            Self::I8(n) => n.checked_add(1).map(Self::I8),
+            Self::U16(n) => n.checked_add(1).map(Self::U16),
+            Self::I16(n) => n.checked_add(1).map(Self::I16),
+            Self::U32(n) => n.checked_add(1).map(Self::U32),
+            Self::I32(n) => n.checked_add(1).map(Self::I32),
+            Self::U64(n) => n.checked_add(1).map(Self::U64),
+            Self::I64(n) => n.checked_add(1).map(Self::I64),
+        }
+    }
 }
 
 impl From<&crate::ast::BuiltinType> for TypeKind {
-- 
2.43.0


From 6e4d3ce6489c72a64f07b25f293e18d47c0ee276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 11/19] fix: do not crash on overlapping declarations followed
 by another kind of declaration

---
 .../src/intermediate_language/translation.rs                | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 85c1dc9..884e086 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -88,6 +88,7 @@ impl<'a> Translator<'a> {
             .extend(schema.docstrings.locations.iter().cloned());
         namespace.docstrings.default_docstring = default_docstring_for_namespace(&namespace_path);
 
+        let mut added_declarations = Vec::new();
         for decl in schema.type_declarations.values() {
             let name = self.ctx.resolve_identifier(decl.identifier.value);
             match self
@@ -112,10 +113,13 @@ impl<'a> Translator<'a> {
                         .declaration_ids
                         .insert(name, DeclarationIndex(entry.index()));
                     entry.insert(decl.clone());
+                    added_declarations.push(decl);
                 }
             }
         }
-        for decl in schema.type_declarations.values() {
+        // The descriptions are indexed like the declarations, so an overlapping declaration
+        // must not get one
+        for decl in added_declarations {
             self.descriptions.push(match &decl.kind {
                 ast::TypeDeclarationKind::Table(_) => TypeDescription::Table,
                 ast::TypeDeclarationKind::Struct(_) => TypeDescription::Struct {
-- 
2.43.0


From dd9f46c95adc625d2a102f2c01371088aedb42f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 12/19] fix: report huge field ids instead of overflowing

---
 .../src/intermediate_language/translation.rs          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 884e086..a354510 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -969,12 +969,13 @@ impl<'a> Translator<'a> {
         }
 
         if type_.kind.is_type_with_tag() {
-            *next_vtable_index = vtable_index + 2;
+            *next_vtable_index = vtable_index.saturating_add(2);
         } else {
-            *next_vtable_index = vtable_index + 1;
+            *next_vtable_index = vtable_index.saturating_add(1);
         }
 
-        *max_vtable_size = (*max_vtable_size).max(2 * *next_vtable_index + 4);
+        *max_vtable_size =
+            (*max_vtable_size).max(next_vtable_index.saturating_mul(2).saturating_add(4));
 
         let assign_mode = match (required, explicit_null, default_value) {
             (true, false, None) => AssignMode::Required,
@@ -1154,7 +1155,7 @@ impl<'a> Translator<'a> {
         for field in fields.values() {
             insert(field.vtable_index, field.span);
             if field.type_.kind.is_type_with_tag() {
-                insert(field.vtable_index + 1, field.span);
+                insert(field.vtable_index.saturating_add(1), field.span);
             }
         }
 
@@ -1178,7 +1179,7 @@ impl<'a> Translator<'a> {
                     );
                 }
             }
-            next_expected_id = key + 1;
+            next_expected_id = key.saturating_add(1);
         }
 
         Table {
-- 
2.43.0


From 72e6e5a624ffbd67aca6cc53f84c632488af95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 13/19] fix: label the slots of an inspected vtable with the
 fields they belong to

---
 crates/planus-buffer-inspection/src/children.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index f0f6d50..2a47f84 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 
-use planus_types::{ast::IntegerType, intermediate::TypeKind};
+use planus_types::ast::IntegerType;
 
 use crate::{
     object_info::DeclarationInfo, ArrayObject, BoolObject, ByteIndex, EnumObject, FloatObject,
@@ -70,18 +70,14 @@ impl<'a> Children<'a> for VTableObject {
                 1 => callback(Some(Cow::Borrowed("#table_size")), object),
                 n => {
                     let n = n - 2;
-                    if let Some((k, v)) = decl.fields.get_index(n) {
-                        if matches!(v.type_.kind, TypeKind::Union(_)) {
+                    if let Some((k, v, is_union_tag)) = decl.get_field_for_vtable_index(n as u32) {
+                        if is_union_tag {
                             callback(Some(Cow::Owned(format!("offset[union_tag[{k}]]"))), object)
+                        } else if v.type_.kind.is_type_with_tag() {
+                            callback(Some(Cow::Owned(format!("offset[union[{k}]]"))), object)
                         } else {
                             callback(Some(Cow::Owned(format!("offset[{k}]"))), object)
                         }
-                    } else if let Some((k, _v)) = decl
-                        .fields
-                        .get_index(n - 1)
-                        .filter(|(_k, v)| matches!(v.type_.kind, TypeKind::Union(_)))
-                    {
-                        callback(Some(Cow::Owned(format!("offset[union[{k}]]"))), object)
                     } else {
                         callback(Some(Cow::Owned(format!("offset[{n}]"))), object)
                     }
-- 
2.43.0


From fb20fd6c2ac89aadcc74435beb120f2181218eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 14/19] fix: skip fields unknown to the schema when inspecting
 a buffer

---
 crates/planus-buffer-inspection/src/children.rs | 8 ++++++--
 crates/planus-buffer-inspection/src/lib.rs      | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index 2a47f84..a8b2832 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -107,8 +107,12 @@ impl<'a> Children<'a> for TableObject {
             if offset == 0 {
                 continue;
             }
-            let (field_name, _field_decl, is_union_tag) =
-                decl.get_field_for_vtable_index(i as u32).unwrap();
+            // Fields added in a newer version of the schema
+            let Some((field_name, _field_decl, is_union_tag)) =
+                decl.get_field_for_vtable_index(i as u32)
+            else {
+                continue;
+            };
             let field_name = if is_union_tag {
                 Cow::Owned(format!("union_key[{field_name}]"))
             } else {
diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 92b1e9d..a8b9b76 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -491,8 +491,11 @@ impl TableObject {
         };
 
         let offset = self.offset + object_offset as u32;
-        let (_field_name, field_decl, is_union_tag) =
-            decl.get_field_for_vtable_index(field_index).unwrap();
+        let Some((_field_name, field_decl, is_union_tag)) =
+            decl.get_field_for_vtable_index(field_index)
+        else {
+            return Ok(None);
+        };
         let object = match field_decl.type_.kind {
             TypeKind::Table(declaration) => Object::Offset(OffsetObject {
                 offset,
-- 
2.43.0


From 79141488be39dcc96530712255cdc446d94a7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 15/19] fix: inspect a union tag of zero without underflow

---
 crates/planus-buffer-inspection/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index a8b9b76..d3c71e3 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -278,10 +278,10 @@ impl UnionTagObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl
-            .variants
-            .get_index(self.tag_value(buffer)? as usize - 1)
-        {
+        let Some(index) = (self.tag_value(buffer)? as usize).checked_sub(1) else {
+            return Ok(None);
+        };
+        if let Some((k, v)) = decl.variants.get_index(index) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
@@ -662,7 +662,10 @@ impl UnionObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl.variants.get_index(self.tag as usize - 1) {
+        let Some(index) = (self.tag as usize).checked_sub(1) else {
+            return Ok(None);
+        };
+        if let Some((k, v)) = decl.variants.get_index(index) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
-- 
2.43.0


From 55e3be8a65a00b40ad9702e363ecc0a85ee741f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 16/19] fix: follow the offset to a struct in an inspected
 union

---
 crates/planus-buffer-inspection/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index d3c71e3..4fa4b2b 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -219,6 +219,7 @@ pub struct OffsetObject<'a> {
 pub enum OffsetObjectKind<'a> {
     VTable(DeclarationIndex),
     Table(DeclarationIndex),
+    Struct(DeclarationIndex),
     Vector(&'a Type),
     UnionVectorTags {
         declaration: DeclarationIndex,
@@ -383,6 +384,10 @@ impl<'a> OffsetObject<'a> {
                 offset,
                 declaration,
             })),
+            OffsetObjectKind::Struct(declaration) => Ok(Object::Struct(StructObject {
+                offset,
+                declaration,
+            })),
             OffsetObjectKind::Vector(type_) => Ok(Object::Vector(VectorObject { offset, type_ })),
             OffsetObjectKind::UnionVector {
                 declaration,
@@ -416,6 +421,9 @@ impl<'a> OffsetObject<'a> {
             OffsetObjectKind::Table(index) => {
                 Cow::Owned(format!("&table {}", declarations.get_declaration(index).0))
             }
+            OffsetObjectKind::Struct(index) => {
+                Cow::Owned(format!("&struct {}", declarations.get_declaration(index).0))
+            }
             OffsetObjectKind::Vector(type_) => {
                 Cow::Owned(format!("&[{}]", declarations.format_type_kind(&type_.kind)))
             }
@@ -640,6 +648,9 @@ impl UnionObject {
                     TypeKind::Table(index) => OffsetObjectKind::Table(*index),
                     TypeKind::Vector(type_) => OffsetObjectKind::Vector(type_),
                     TypeKind::String => OffsetObjectKind::String,
+                    TypeKind::SimpleType(SimpleType::Struct(index)) => {
+                        OffsetObjectKind::Struct(*index)
+                    }
                     TypeKind::Array(_, _) | TypeKind::SimpleType(_) | TypeKind::Union(_) => {
                         panic!("Inconsistent declarations")
                     }
-- 
2.43.0


From 2142c6780495b760443868d6b551e353c6534102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 17/19] fix: keep the names of generated types distinct within
 a namespace

---
 crates/planus-codegen/src/backend.rs             |  2 +-
 crates/planus-codegen/src/backend_translation.rs | 12 ++++++------
 crates/planus-codegen/src/rust/mod.rs            |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/planus-codegen/src/backend.rs b/crates/planus-codegen/src/backend.rs
index b30dae7..becda27 100644
--- a/crates/planus-codegen/src/backend.rs
+++ b/crates/planus-codegen/src/backend.rs
@@ -21,7 +21,7 @@ pub struct NamespaceNames<'a, 'keywords> {
 
 pub struct DeclarationNames<'a, 'keywords> {
     pub _global_names: &'a mut Names<'keywords>,
-    pub _namespace_names: &'a mut Names<'keywords>,
+    pub namespace_names: &'a mut Names<'keywords>,
     pub declaration_names: &'a mut Names<'keywords>,
 }
 
diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index bd36a66..e2316d9 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -442,7 +442,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_table(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -456,7 +456,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_struct(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -470,7 +470,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_enum(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -484,7 +484,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_union(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -528,7 +528,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                                 &mut DeclarationTranslationContext {
                                     declaration_names: DeclarationNames {
                                         _global_names: global_names,
-                                        _namespace_names: namespace_names,
+                                        namespace_names,
                                         declaration_names,
                                     },
                                     translated_namespaces: &translated_namespaces,
@@ -557,7 +557,7 @@ pub fn run_backend<B: ?Sized + Backend>(
         let mut translation_context = DeclarationTranslationContext {
             declaration_names: DeclarationNames {
                 _global_names: global_names,
-                _namespace_names: namespace_names,
+                namespace_names,
                 declaration_names,
             },
             translated_namespaces: &translated_namespaces,
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index c5edd57..620004a 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -132,7 +132,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
     let name = path.to_upper_camel_case().into();
     declaration_names
-        .declaration_names
+        .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
         .into()
 }
-- 
2.43.0


From 08528c57f85837360f7575ee3b6e77e11a79102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 18/19] fix: keep the names of generated modules distinct
 within their parent

---
 crates/planus-codegen/src/backend_translation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index e2316d9..0a1d6cf 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -418,12 +418,17 @@ pub fn run_backend<B: ?Sized + Backend>(
     let translated_namespaces = declarations
         .namespaces
         .iter()
-        .zip(&mut namespace_names)
-        .map(|((namespace_name, namespace), namespace_names)| {
+        .map(|(namespace_name, namespace)| {
+            // A namespace is an item of its parent
+            let parent = match namespace_name.0.split_last() {
+                Some((_, parent)) => AbsolutePath(parent.to_vec()),
+                None => namespace_name.clone(),
+            };
+            let parent = declarations.namespaces.get_index_of(&parent).unwrap();
             backend.generate_namespace(
                 &mut NamespaceNames {
                     _global_names: global_names,
-                    namespace_names,
+                    namespace_names: &mut namespace_names[parent],
                 },
                 namespace_name,
                 namespace,
-- 
2.43.0


From 55e68d75565422636fa59ec4a9985b33c3724930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 19/19] fix: do not generate identifiers that start with a
 digit

---
 crates/planus-codegen/src/rust/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 620004a..3ffbdb5 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -121,8 +121,17 @@ pub struct RpcMethod {}
 
 const BINDING_KIND_TYPES: &str = "types";
 
+/// Case conversion drops leading underscores, which can leave a digit at the front.
+fn identifier(name: String) -> String {
+    if name.starts_with(|c: char| c.is_ascii_digit()) {
+        format!("_{name}")
+    } else {
+        name
+    }
+}
+
 fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>) -> String {
-    let name = path.to_snake_case().into();
+    let name = identifier(path.to_snake_case()).into();
     namespace_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -130,7 +139,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 }
 
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = identifier(path.to_upper_camel_case()).into();
     declaration_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -142,7 +151,7 @@ fn reserve_field_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_snake_case().into();
+    let name = identifier(path.to_snake_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -154,7 +163,7 @@ fn reserve_rust_enum_variant_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = identifier(path.to_upper_camel_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -380,7 +389,7 @@ impl Backend for RustBackend {
             "name",
             &mut translation_context.declaration_names,
         );
-        let mut name_with_as = format!("{field_name}_as").to_snake_case();
+        let mut name_with_as = identifier(format!("{field_name}_as").to_snake_case());
         if name_with_as == "as" {
             name_with_as = format!("{field_name}_as");
         }
-- 
2.43.0

