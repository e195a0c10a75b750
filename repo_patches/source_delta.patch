From a08ddc47261cfb180425447e9bd21c63df46898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 01/31] fix: choose between same-named dependencies
 deterministically in LibBuilder

---
 src/typelib/transpile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index 49268b0..c902267 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -52,7 +52,7 @@ pub trait BuilderParent: StrictParent<StreamWriter<Sink>> {
 #[derive(Debug)]
 pub struct LibBuilder {
     pub(super) lib_name: LibName,
-    pub(super) known_libs: HashMap<Dependency, Option<HashSet<SemId>>>,
+    pub(super) known_libs: BTreeMap<Dependency, Option<HashSet<SemId>>>,
     pub(super) extern_types: HashMap<LibName, BTreeMap<SemId, TypeName>>,
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
     sink: StreamWriter<Sink>,
-- 
2.43.0


From 51f7e54b397963d1a76c3d23f509f31981de8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 02/31] fix: check presence of the referenced type in
 SystemBuilder::finalize

---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From e890748988bd33ecb56b7b431dad9fd88de17ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 03/31] fix: return an error from SymbolicLib::compile for
 unresolvable type names

---
 src/typelib/symbolic.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..08b2a47 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,6 +274,15 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
+/// Finds a name used inside the type which is not present in the index.
+fn unresolved_name(ty: &Ty<TranspileRef>, index: &TypeIndex) -> Option<TypeName> {
+    ty.type_refs().find_map(|(r, _)| match r {
+        TranspileRef::Embedded(ty) => unresolved_name(ty, index),
+        TranspileRef::Named(name) if !index.contains_key(name) => Some(name.clone()),
+        TranspileRef::Named(_) | TranspileRef::Extern(_) => None,
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -313,7 +322,12 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                // The remaining types refer to unknown names or, circularly, to each other
+                let (name, within) = old_types.pop_first().expect("there are types left");
+                let unknown = unresolved_name(&within, &index).unwrap_or(name);
+                return Err(CompileError::UnknownType { unknown, within });
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
-- 
2.43.0


From 701b156c8b0c6609c96612f031c7d8ebaa2e171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 04/31] fix: check numeric values against the range of their
 primitive type

---
 src/value/typify.rs | 61 +++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 177505c..d18d890 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -25,6 +25,7 @@
 
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
+use amplify::num::{i1024, u1024};
 use amplify::Wrapper;
 use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
@@ -117,13 +118,26 @@ trait PrimitiveValue {
     fn is_large_unsigned(&self) -> bool;
     fn is_small_signed(&self) -> bool;
     fn is_large_signed(&self) -> bool;
+    fn bit_size(&self) -> usize;
+}
+
+/// Number of bits needed to represent an unsigned number.
+fn uint_bits(val: u64) -> usize { 64 - val.leading_zeros() as usize }
+
+/// Number of bits needed to represent a signed number, including the sign bit.
+fn int_bits(val: i64) -> usize {
+    let abs = if val < 0 { !val } else { val };
+    65 - abs.leading_zeros() as usize
 }
 
 impl PrimitiveValue for Primitive {
-    fn is_small_unsigned(&self) -> bool { self.into_code() <= 16 }
-    fn is_large_unsigned(&self) -> bool { self.into_code() > 16 && self.into_code() < 0x40 }
-    fn is_small_signed(&self) -> bool { self.into_code() >= 0x40 && self.into_code() <= 0x4f }
-    fn is_large_signed(&self) -> bool { self.into_code() > 0x4f && self.into_code() < 0x80 }
+    fn is_small_unsigned(&self) -> bool {
+        *self == Primitive::BYTE || (self.into_code() > 0 && self.into_code() <= 8)
+    }
+    fn is_large_unsigned(&self) -> bool { self.into_code() > 8 && self.into_code() < 0x40 }
+    fn is_small_signed(&self) -> bool { self.into_code() > 0x40 && self.into_code() <= 0x48 }
+    fn is_large_signed(&self) -> bool { self.into_code() > 0x48 && self.into_code() < 0x80 }
+    fn bit_size(&self) -> usize { self.byte_size() as usize * 8 }
 }
 
 impl SymbolicSys {
@@ -170,30 +184,39 @@ impl TypeSystem {
                 StrictVal::Unit
             }
 
-            (val @ StrictVal::Number(StrictNum::Uint(_)), Ty::Primitive(prim))
-                if prim.is_small_unsigned() =>
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_unsigned() && uint_bits(num) <= prim.bit_size() =>
+            {
+                StrictVal::Number(StrictNum::Uint(num))
+            }
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() && prim.bit_size() <= u1024::BITS as usize =>
             {
-                val
+                StrictVal::Number(StrictNum::BigUint(u1024::from(num)))
             }
-            (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
-                if prim.is_small_signed() && (val & 0x8000_0000_0000_0000) == 0 =>
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_signed() && uint_bits(num) < prim.bit_size() =>
             {
-                StrictVal::Number(StrictNum::Int(val as i64))
+                StrictVal::Number(StrictNum::Int(num as i64))
             }
-            (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
-                if prim.is_large_unsigned() =>
+            (StrictVal::Number(StrictNum::BigUint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned()
+                    && prim.bit_size() <= u1024::BITS as usize
+                    && num.bits_required() <= prim.bit_size() =>
             {
-                val
+                StrictVal::Number(StrictNum::BigUint(num))
             }
-            (val @ StrictVal::Number(StrictNum::Int(_)), Ty::Primitive(prim))
-                if prim.is_small_signed() =>
+            (StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim))
+                if prim.is_small_signed() && int_bits(num) <= prim.bit_size() =>
             {
-                val
+                StrictVal::Number(StrictNum::Int(num))
             }
-            (val @ StrictVal::Number(StrictNum::BigInt(_)), Ty::Primitive(prim))
-                if prim.is_large_signed() =>
+            (StrictVal::Number(StrictNum::BigInt(num)), Ty::Primitive(prim))
+                if prim.is_large_signed()
+                    && prim.bit_size() <= i1024::BITS as usize
+                    && num.bits_required() <= prim.bit_size() =>
             {
-                val
+                StrictVal::Number(StrictNum::BigInt(num))
             }
 
             // Collection bounds check:
-- 
2.43.0


From f23eb7b376f743372b05206278950ce7f5be619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:05 +0000
Subject: [PATCH 05/31] fix: require array values to have exactly the declared
 length

---
 src/value/typify.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index d18d890..25b5b52 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -221,19 +221,19 @@ impl TypeSystem {
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-                if id.is_byte() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::Array(id, len))
-                if id.is_unicode_char() && s.len() > *len as usize =>
+                if id.is_unicode_char() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::String(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::String(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::List(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
-- 
2.43.0


From 98103d275356c6e23f2877e0e1d05dbbde3dd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 06/31] fix: typify items of arrays

---
 src/value/typify.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 25b5b52..d85113d 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -266,7 +266,14 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
                 StrictVal::String(s)
             }
-            (val @ StrictVal::List(_), Ty::Array(_, _)) => val,
+            (StrictVal::List(s), Ty::Array(id, _)) => {
+                let mut new = Vec::with_capacity(s.len());
+                for item in s {
+                    let checked = self.typify(item, *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
+            }
 
             // RString
             (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
-- 
2.43.0


From 8d794ba5c723a13037d0d4f86107d47a9d054abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 07/31] fix: encode arrays of non-byte items

---
 src/value/encode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..96ac870 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -146,6 +146,12 @@ impl TypeSystem {
                 debug_assert_eq!(s.len(), *len as usize);
                 writer.write_all(s.as_bytes())?;
             }
+            (StrictVal::List(list), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(list.len(), *len as usize);
+                for val in list {
+                    self.strict_write_val(val, *sem_id, writer)?;
+                }
+            }
 
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
-- 
2.43.0


From 94adbef5d73f5f1abed2ed5ec5cd3981cfa8ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 08/31] fix: check strings against the character set of their
 type

---
 src/value/typify.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index d85113d..9221cef 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -153,6 +153,16 @@ impl TypeSystem {
         self.as_inner().iter().find(|(my_id, _)| **my_id == sem_id).map(|(_, ty)| ty)
     }
 
+    /// Checks that a type is a character enumeration having a variant for each of the characters.
+    fn has_chars(&self, sem_id: SemId, chars: &[u8]) -> bool {
+        match self.find(sem_id) {
+            Some(ty @ Ty::Enum(variants)) => {
+                ty.is_char_enum() && chars.iter().all(|ch| variants.has_tag(*ch))
+            }
+            _ => false,
+        }
+    }
+
     pub fn typify(&self, val: StrictVal, sem_id: SemId) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
         let ty = if sem_id == SemId::unit() {
@@ -263,7 +273,11 @@ impl TypeSystem {
             }
 
             (val @ StrictVal::Bytes(_), Ty::Array(id, _)) if id.is_byte() => val,
-            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
+            (StrictVal::String(s), Ty::Array(id, _))
+                if id.is_unicode_char()
+                    || (id.is_byte() && s.is_ascii())
+                    || self.has_chars(*id, s.as_bytes()) =>
+            {
                 StrictVal::String(s)
             }
             (StrictVal::List(s), Ty::Array(id, _)) => {
@@ -276,7 +290,25 @@ impl TypeSystem {
             }
 
             // RString
-            (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
+            (StrictVal::String(s), Ty::Tuple(fields))
+                if self.is_rstring(fields).map_err(|_| Error::TypeAbsent(spec.clone()))? =>
+            {
+                let (rest, sizing) = self
+                    .rstring_sizing(fields)
+                    .map_err(|_| Error::TypeAbsent(spec.clone()))?
+                    .expect("checked in match");
+                if !sizing.check(s.len()) {
+                    return Err(Error::OutOfBounds(spec, s.len(), sizing));
+                }
+                if s.is_empty()
+                    || !self.has_chars(fields[0], &s.as_bytes()[..1])
+                    || !self.has_chars(rest, &s.as_bytes()[1..])
+                {
+                    return Err(Error::TypeMismatch {
+                        value: StrictVal::String(s),
+                        expected: ty.clone(),
+                    });
+                }
                 /* Invalid: we need to preserve string structure
                 let first = fields.first().expect("checked length");
                 let rest = fields.last().expect("checked length");
@@ -294,7 +326,7 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::List(id, _)) if id.is_byte() => {
                 StrictVal::Bytes(Blob(s.into_bytes()))
             }
-            (StrictVal::String(s), Ty::List(_, _)) if s.is_ascii() => {
+            (StrictVal::String(s), Ty::List(id, _)) if self.has_chars(*id, s.as_bytes()) => {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
                 StrictVal::String(s)
             }
-- 
2.43.0


From 2e0fda58b275cdedf8598a4c49445ca7a773e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 09/31] fix: typify multi-byte unicode characters

---
 src/value/typify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 9221cef..f5c9774 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -267,7 +267,7 @@ impl TypeSystem {
             }
             // Unicode character
             (StrictVal::String(s), ty @ Ty::UnicodeChar)
-                if ty.is_unicode_char() && s.len() == 1 =>
+                if ty.is_unicode_char() && s.chars().count() == 1 =>
             {
                 StrictVal::String(s)
             }
-- 
2.43.0


From fa4d1f808009adbdfb9b05d4047b9d6c2390be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:09 +0000
Subject: [PATCH 10/31] fix: typify one-character strings as variants of
 character enumerations

---
 src/value/typify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index f5c9774..2ebf6e2 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -263,7 +263,8 @@ impl TypeSystem {
 
             // Ascii or other sub-byte character
             (StrictVal::String(s), Ty::Enum(en)) if s.len() == 1 && en.has_tag(s.as_bytes()[0]) => {
-                StrictVal::String(s)
+                let name = en.name_by_tag(s.as_bytes()[0]).expect("checked in match");
+                StrictVal::enumer(name.clone())
             }
             // Unicode character
             (StrictVal::String(s), ty @ Ty::UnicodeChar)
-- 
2.43.0


From 8388a47b18b7edd6feb4f4a2126e7914ff98294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 11/31] fix: check field counts of tuples given as lists and
 structures given as maps

---
 src/value/typify.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 2ebf6e2..1a2416e 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -410,7 +410,7 @@ impl TypeSystem {
             }
 
             // Field count check:
-            (StrictVal::Tuple(fields), Ty::Tuple(fields_req))
+            (StrictVal::Tuple(fields) | StrictVal::List(fields), Ty::Tuple(fields_req))
                 if fields.len() != fields_req.len() =>
             {
                 return Err(Error::FieldNumberMismatch {
@@ -429,6 +429,16 @@ impl TypeSystem {
                 });
             }
 
+            (StrictVal::Map(fields), Ty::Struct(fields_req))
+                if fields.len() != fields_req.len() =>
+            {
+                return Err(Error::FieldNumberMismatch {
+                    spec,
+                    expected: fields_req.len(),
+                    found: fields.len(),
+                });
+            }
+
             // Check specific field types:
             (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req)) => {
                 let mut new = Vec::with_capacity(s.len());
@@ -460,6 +470,9 @@ impl TypeSystem {
                         return Err(Error::ExtraField(fname));
                     };
                     let checked = self.typify(item, *field)?;
+                    if new.contains_key(&fname) {
+                        return Err(Error::RepeatedKeyValue(spec, StrictVal::str(fname)));
+                    }
                     new.insert(fname, checked.val);
                 }
                 StrictVal::Struct(new)
-- 
2.43.0


From e0732ec7429e783c29bf3e7cf3b9ee2b58d0bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:16 +0000
Subject: [PATCH 12/31] fix: typify the content of the none variant

---
 src/value/typify.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 1a2416e..79ce988 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -479,16 +479,20 @@ impl TypeSystem {
             }
 
             // Optional
-            (StrictVal::Unit, ty @ Ty::Union(_)) if ty.is_option() => {
+            (StrictVal::Unit, ty @ Ty::Union(fields)) if ty.is_option() => {
                 // this is `None`
-                StrictVal::union("none", ())
+                let content = *fields.ty_by_tag(0).expect("optional always have `None`");
+                let inner = self.typify(StrictVal::Unit, content)?.val;
+                StrictVal::union("none", inner)
             }
             (StrictVal::Tuple(mut tuple), ty @ Ty::Union(fields))
                 if ty.is_option() && tuple.len() == 2 =>
             {
                 let content = *fields.ty_by_tag(1).expect("optional always have `Some`");
                 if tuple[0] == StrictVal::String(s!("none")) && tuple[1] == StrictVal::Unit {
-                    StrictVal::union("none", StrictVal::Unit)
+                    let content = *fields.ty_by_tag(0).expect("optional always have `None`");
+                    let inner = self.typify(StrictVal::Unit, content)?.val;
+                    StrictVal::union("none", inner)
                 } else if tuple[0] == StrictVal::String(s!("some")) {
                     let inner = self.typify(tuple.pop().expect("two elements"), content)?.val;
                     StrictVal::union("some", inner)
-- 
2.43.0


From 6daeab5696c232d3d36c4f5ecf012d188922fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 13/31] fix: avoid overflow in restricted string bounds

---
 src/typesys/iter.rs     | 4 ++--
 src/typesys/type_sys.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 99fb6a9..f393c4a 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -181,8 +181,8 @@ impl Iterator for TypeTreeIter<'_> {
                             let first = self.sys.symbols.lookup(fields[0]);
                             let rest = self.sys.symbols.lookup(*rest);
                             let mut sizing = *sizing;
-                            sizing.min += 1;
-                            sizing.max += 1;
+                            sizing.min = sizing.min.saturating_add(1);
+                            sizing.max = sizing.max.saturating_add(1);
                             let _ = iter.next(); // skipping first char
                             let _ = iter.next(); // skipping nested list
                             nested.push(NestedCase::RStr(first.cloned(), rest.cloned(), sizing))
diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..c13193c 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
-- 
2.43.0


From 675d61cbe877a117273c1e76e98c85577bd511a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 14/31] fix: return an error when decoding unsupported types

---
 src/value/decode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..0a3b873 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -153,13 +153,16 @@ impl TypeSystem {
                     // Primitive::I128 => StrictVal::num(i128::strict_decode(&mut reader)?),
                     other => {
                         return Err(Error::NotImplemented(format!(
-                            "loading {other} into a typed value is not yet implemented"
+                            "loading primitive {:#04x} into a typed value is not yet implemented",
+                            other.into_code()
                         )));
                     }
                 }
             }
             Ty::UnicodeChar => {
-                todo!()
+                return Err(Error::NotImplemented(s!(
+                    "loading unicode character into a typed value is not yet implemented"
+                )));
             }
 
             // ASCII strings:
-- 
2.43.0


From c68560f8a02a7e4ed6b5231b50ca0a46dec4946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 15/31] fix: do not allocate memory by the length prefix in the
 data

---
 src/value/decode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 0a3b873..d770c1c 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -59,6 +59,9 @@ pub enum Error {
     NotEntirelyConsumed,
 }
 
+/// Maximum number of items for which the memory is reserved before they are read.
+const MAX_PREALLOC: usize = 0x100;
+
 impl SymbolicSys {
     pub fn strict_deserialize_type(
         &self,
@@ -88,7 +91,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
             list.push(item.val);
@@ -103,7 +106,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
-- 
2.43.0


From 2ac92d51cbb83b149cfeddc1bea4ce7859874908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 16/31] fix: decode unit type not present in the type system

---
 src/value/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index d770c1c..0a6b7f1 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -130,7 +130,11 @@ impl TypeSystem {
         mut d: &mut impl ReadRaw,
     ) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
-        let ty = self.find(sem_id).ok_or_else(|| Error::TypeAbsent(spec.clone()))?;
+        let ty = if sem_id == SemId::unit() {
+            &Ty::UNIT
+        } else {
+            self.find(sem_id).ok_or_else(|| Error::TypeAbsent(spec.clone()))?
+        };
 
         let mut reader = StrictReader::with(d);
 
-- 
2.43.0


From c35322f8e67c371ed534c67eccc2752401e552cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:51 +0000
Subject: [PATCH 17/31] fix: check decoded values against the constraints of
 their type

---
 src/value/decode.rs | 69 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 0a6b7f1..1c9a812 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -30,7 +30,9 @@ use amplify::confinement::{
     U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
-use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
+use encoding::{
+    DecodeError, Primitive, ReadRaw, Sizing, StreamReader, StrictDecode, StrictReader,
+};
 use indexmap::IndexMap;
 
 use crate::typesys::{SymbolicSys, TypeSymbol, UnknownType};
@@ -115,6 +117,69 @@ impl TypeSystem {
         Ok(list)
     }
 
+    /// Checks that a decoded value satisfies those constraints of the type which are not ensured by
+    /// the decoding itself: bounds, uniqueness of set values and map keys, and character sets.
+    fn check_decoded(&self, val: &StrictVal, ty: &Ty<SemId>) -> Result<(), Error> {
+        let check_size = |sizing: &Sizing, len: usize| {
+            if !sizing.check(len) {
+                return Err(Error::Decode(DecodeError::DataIntegrityError(format!(
+                    "collection has size {len} which is out of type required bounds {sizing}"
+                ))));
+            }
+            Ok(())
+        };
+        let check_chars = |ty: SemId, chars: &[u8]| {
+            let known = match self.find(ty) {
+                Some(Ty::Enum(variants)) => chars.iter().all(|ch| variants.has_tag(*ch)),
+                _ => false,
+            };
+            if !known {
+                return Err(Error::Decode(DecodeError::DataIntegrityError(format!(
+                    "string contains characters which are not a part of `{ty}`"
+                ))));
+            }
+            Ok(())
+        };
+        match (val, ty) {
+            (StrictVal::String(s), Ty::List(id, sizing)) => {
+                check_size(sizing, s.len())?;
+                if !id.is_unicode_char() {
+                    check_chars(*id, s.as_bytes())?;
+                }
+            }
+            (StrictVal::String(s), Ty::Tuple(fields)) => {
+                let Some((rest, sizing)) = self.rstring_sizing(fields)? else {
+                    return Ok(());
+                };
+                check_size(&sizing, s.len())?;
+                if let Some((first, other)) = s.as_bytes().split_first() {
+                    check_chars(fields[0], &[*first])?;
+                    check_chars(rest, other)?;
+                }
+            }
+            (StrictVal::Bytes(s), Ty::List(_, sizing)) => check_size(sizing, s.len())?,
+            (StrictVal::List(items), Ty::List(_, sizing)) => check_size(sizing, items.len())?,
+            (StrictVal::Set(items), Ty::Set(_, sizing)) => {
+                check_size(sizing, items.len())?;
+                for (no, item) in items.iter().enumerate() {
+                    if items[..no].contains(item) {
+                        return Err(DecodeError::RepeatedSetValue.into());
+                    }
+                }
+            }
+            (StrictVal::Map(items), Ty::Map(_, _, sizing)) => {
+                check_size(sizing, items.len())?;
+                for (no, (key, _)) in items.iter().enumerate() {
+                    if items[..no].iter().any(|(k, _)| k == key) {
+                        return Err(DecodeError::RepeatedMapValue.into());
+                    }
+                }
+            }
+            _ => {}
+        }
+        Ok(())
+    }
+
     pub fn strict_deserialize_type(&self, sem_id: SemId, data: &[u8]) -> Result<TypedVal, Error> {
         let mut cursor = StreamReader::cursor::<MAX32>(data);
         let ty = self.strict_read_type(sem_id, &mut cursor)?;
@@ -397,6 +462,8 @@ impl TypeSystem {
             }
         };
 
+        self.check_decoded(&val, ty)?;
+
         Ok(TypedVal {
             val,
             orig: TypeSymbol::unnamed(sem_id),
-- 
2.43.0


From f013a429cb00681d370c5c8ba5e63c9081f6ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 18/31] fix: keep depth and name of optional items in layouts

---
 src/typesys/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index f393c4a..21aa1ce 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -170,6 +170,7 @@ impl Iterator for TypeTreeIter<'_> {
             } else if ty.is_option() {
                 nested.push(NestedCase::Option);
                 let _ = iter.next(); // skipping none
+                dive = false;
                 ret = false;
             } else if let Ty::Tuple(fields) = ty {
                 if fields.len() == 2 {
@@ -240,7 +241,10 @@ impl Iterator for TypeTreeIter<'_> {
                 }
                 Some((id, item)) => {
                     self.sem_id = *id;
-                    if !matches!(self.nested.last(), Some(NestedCase::NewType(_))) {
+                    if !matches!(
+                        self.nested.last(),
+                        Some(NestedCase::NewType(_) | NestedCase::Option)
+                    ) {
                         self.item = item;
                     }
                     self.ty = self.sys.get(*id);
-- 
2.43.0


From 8c08352bd31ec27d0c1fddebd196803c770269aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 19/31] fix: report positions of tuple fields

---
 src/ast/ty.rs           | 2 +-
 src/layout/translate.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..3725b6c 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -330,7 +330,7 @@ impl<Ref: TypeRef> Ty<Ref> {
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-            Ty::Tuple(fields) if fields.len_u8() == pos => Some(ItemCase::UnnamedField(pos)),
+            Ty::Tuple(fields) if pos < fields.len_u8() => Some(ItemCase::UnnamedField(pos)),
             Ty::Array(_, _) if pos == 0 => Some(ItemCase::ArrayItem),
             Ty::List(_, _) if pos == 0 => Some(ItemCase::ListItem),
             Ty::Set(_, _) if pos == 0 => Some(ItemCase::SetItem),
diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..b5b80ac 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -47,7 +47,7 @@ impl TypeInfo {
             Some(ItemCase::UnnamedField(pos)) => {
                 if name.as_str() == "_" {
                     comment = fqn;
-                    ident!("{}", pos)
+                    ident!("_{}", pos)
                 } else {
                     name.into_ident()
                 }
-- 
2.43.0


From dfdf76b097342b2eb57596c733b5dcb9d40ff1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:19 +0000
Subject: [PATCH 20/31] fix: avoid overflow in iteration over type references

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From 603e99969f6e0dc40577ec98901976fb2cd71813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 21/31] fix: follow type paths step by step

---
 src/ast/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/path.rs b/src/ast/path.rs
index 3195b5c..37ce654 100644
--- a/src/ast/path.rs
+++ b/src/ast/path.rs
@@ -106,13 +106,13 @@ impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
 impl<Ref: TypeRef> Ty<Ref> {
     pub fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> {
         let mut ty = self;
-        let mut path = path.clone();
         let mut path_so_far = Path::new();
-        while let Some(step) = path.pop() {
-            let res = match (self, &step) {
+        for step in path {
+            let res = match (ty, step) {
                 (Ty::Struct(fields), Step::NamedField(name)) => fields.ty_by_name(name),
                 (Ty::Union(variants), Step::Variant(name)) => variants.ty_by_name(name),
                 (Ty::Struct(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
+                (Ty::Tuple(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
                 (Ty::Union(variants), Step::UnnamedField(tag)) => variants.ty_by_tag(*tag),
                 (Ty::Array(ty, _), Step::Index) => Some(ty),
                 (Ty::List(ty, _), Step::List) => Some(ty),
@@ -121,7 +121,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 (Ty::Map(_, ty, _), Step::MapValue) => Some(ty),
                 (_, _) => None,
             };
-            path_so_far.push(step).expect("confinement collection guarantees");
+            path_so_far.push(step.clone()).expect("confinement collection guarantees");
             ty = res
                 .and_then(|r| r.as_ty())
                 .ok_or_else(|| PathError::new(self, path_so_far.clone()))?
-- 
2.43.0


From 3913c38877dd1dec6894e560afc72de8d2b025ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 22/31] fix: follow value paths step by step

---
 src/value/path.rs | 48 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/value/path.rs b/src/value/path.rs
index 8ee3ea3..a3c5dd7 100644
--- a/src/value/path.rs
+++ b/src/value/path.rs
@@ -164,33 +164,27 @@ impl StrictVal {
         &self,
         path: impl IntoIterator<Item = &'p Step>,
     ) -> Result<&StrictVal, PathError> {
-        let mut iter = path.into_iter();
-        match (self, iter.next()) {
-            (val, None) => Ok(val),
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no)))
-                if *no as usize >= fields.len() =>
-            {
-                Err(PathError::FieldNoOutOfBounds(*no, fields.len()))
-            }
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no))) => Ok(&fields[*no as usize]),
-            (StrictVal::Struct(fields), Some(Step::NamedField(name))) => {
-                fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx)))
-                if *idx as usize >= items.len() =>
-            {
-                Err(PathError::CollectionIndexOutOfBounds(*idx, items.len()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx))) => {
-                Ok(&items[*idx as usize])
-            }
-            (StrictVal::Map(items), Some(Step::Key(idx))) => items
-                .iter()
-                .find(|(key, _)| idx.has_match(key))
-                .map(|(_, val)| val)
-                .ok_or(PathError::UnknownKey(idx.clone())),
-
-            (_, Some(step)) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
+        let mut val = self;
+        for step in path {
+            val = match (val, step) {
+                (StrictVal::Tuple(fields), Step::UnnamedField(no)) => fields
+                    .get(*no as usize)
+                    .ok_or(PathError::FieldNoOutOfBounds(*no, fields.len()))?,
+                (StrictVal::Struct(fields), Step::NamedField(name)) => {
+                    fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))?
+                }
+                (StrictVal::List(items) | StrictVal::Set(items), Step::Index(idx)) => items
+                    .get(*idx as usize)
+                    .ok_or(PathError::CollectionIndexOutOfBounds(*idx, items.len()))?,
+                (StrictVal::Map(items), Step::Key(idx)) => items
+                    .iter()
+                    .find(|(key, _)| idx.has_match(key))
+                    .map(|(_, val)| val)
+                    .ok_or(PathError::UnknownKey(idx.clone()))?,
+
+                (_, step) => return Err(PathError::TypeMismatch(step.clone(), val.clone())),
+            };
         }
+        Ok(val)
     }
 }
-- 
2.43.0


From 2be52279f59b8ba19bee09a711f4326e8c476e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 23/31] fix: display semver pre-release and build fragments in
 their places

---
 src/util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 64d32d5..57c765b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -174,11 +174,11 @@ impl Display for SemVer {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
 
-        if !self.build.is_empty() {
+        if !self.pre.is_empty() {
             f.write_str("-")?;
         }
-        let mut len = self.build.len();
-        for item in &self.build {
+        let mut len = self.pre.len();
+        for item in &self.pre {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
@@ -186,11 +186,11 @@ impl Display for SemVer {
             }
         }
 
-        if !self.pre.is_empty() {
+        if !self.build.is_empty() {
             f.write_str("+")?;
         }
-        let mut len = self.pre.len();
-        for item in &self.pre {
+        let mut len = self.build.len();
+        for item in &self.build {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
-- 
2.43.0


From 8a9ce70956c1864a1a3ebdf42c2bd760c92fac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 24/31] fix: refuse repeated variants in union definitions

---
 src/ast/encoding.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..f428fda 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -58,13 +58,13 @@ impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
         let mut inner = BTreeMap::new();
         for (tag, info) in read {
-            inner.insert(
-                Variant {
-                    name: info.name,
-                    tag,
-                },
-                info.ty,
-            );
+            let variant = Variant {
+                name: info.name,
+                tag,
+            };
+            if inner.insert(variant, info.ty).is_some() {
+                return Err(DecodeError::RepeatedMapValue);
+            }
         }
         UnionVariants::try_from(inner).map_err(DecodeError::from)
     }
-- 
2.43.0


From b01961c4eea20f84e0c65ee6a7348f5b69bacac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 25/31] fix: make equality of dependencies agree with their
 order and hash

---
 src/typelib/type_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typelib/type_lib.rs b/src/typelib/type_lib.rs
index 3741bd5..def0949 100644
--- a/src/typelib/type_lib.rs
+++ b/src/typelib/type_lib.rs
@@ -222,7 +222,7 @@ impl Hash for Dependency {
 }
 
 impl PartialEq for Dependency {
-    fn eq(&self, other: &Self) -> bool { self.id == other.id || self.name == other.name }
+    fn eq(&self, other: &Self) -> bool { self.id == other.id }
 }
 
 impl PartialOrd for Dependency {
-- 
2.43.0


From 25bc7a4920cab2d9b1b561fdf8b1d642a42a7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 26/31] fix: read large strings without reserving memory by
 their length prefix

---
 src/value/decode.rs | 62 +++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 1c9a812..4c4cf56 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -25,9 +25,8 @@
 
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
-    SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
-    U32 as MAX32,
+    MediumAscii, MediumBlob, MediumString, SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob,
+    TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
 use encoding::{
@@ -117,6 +116,17 @@ impl TypeSystem {
         Ok(list)
     }
 
+    /// Reads the bytes of a large string, using no more memory than needed for those present in the
+    /// data.
+    fn strict_read_bytes(len: u64, d: &mut impl ReadRaw) -> Result<Vec<u8>, Error> {
+        let mut reader = StrictReader::with(d);
+        let mut bytes = Vec::with_capacity(len.min(MAX_PREALLOC as u64) as usize);
+        for _ in 0..len {
+            bytes.push(u8::strict_decode(&mut reader)?);
+        }
+        Ok(bytes)
+    }
+
     /// Checks that a decoded value satisfies those constraints of the type which are not ensured by
     /// the decoding itself: bounds, uniqueness of set values and map keys, and character sets.
     fn check_decoded(&self, val: &StrictVal, ty: &Ty<SemId>) -> Result<(), Error> {
@@ -250,14 +260,19 @@ impl TypeSystem {
                     StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
+                    let len = if sizing.max <= u32::MAX as u64 {
+                        u32::strict_decode(&mut reader)? as u64
+                    } else {
+                        u64::strict_decode(&mut reader)?
+                    };
+                    let bytes = Self::strict_read_bytes(len, reader.unbox())?;
                     StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
+                        AsciiString::from_ascii(bytes)
+                            .map_err(|err| {
+                                DecodeError::DataIntegrityError(err.ascii_error().to_string())
+                            })?
+                            .to_string(),
                     )
                 }
             }
@@ -270,14 +285,19 @@ impl TypeSystem {
                     StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
+                    let len = if sizing.max <= u32::MAX as u64 {
+                        u32::strict_decode(&mut reader)? as u64
+                    } else {
+                        u64::strict_decode(&mut reader)?
+                    };
+                    let bytes = Self::strict_read_bytes(len, reader.unbox())?;
                     StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
+                        AsciiString::from_ascii(bytes)
+                            .map_err(|err| {
+                                DecodeError::DataIntegrityError(err.ascii_error().to_string())
+                            })?
+                            .to_string(),
                     )
                 }
             }
@@ -346,8 +366,8 @@ impl TypeSystem {
                 StrictVal::Bytes(Blob(string.release()))
             }
             Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
+                let len = u32::strict_decode(&mut reader)?;
+                StrictVal::Bytes(Blob(Self::strict_read_bytes(len as u64, reader.unbox())?))
             }
 
             // Unicode strings:
@@ -364,8 +384,12 @@ impl TypeSystem {
                 StrictVal::String(string.release())
             }
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
+                let len = u32::strict_decode(&mut reader)?;
+                let bytes = Self::strict_read_bytes(len as u64, reader.unbox())?;
+                StrictVal::String(
+                    String::from_utf8(bytes)
+                        .map_err(|err| DecodeError::DataIntegrityError(err.to_string()))?,
+                )
             }
 
             // Other lists:
-- 
2.43.0


From 6f61a84b821dad9a4367c05dac1439ad1e7729db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 27/31] fix: encode restricted strings given as tuples the way
 they are decoded

---
 src/value/encode.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 96ac870..e9a7ab6 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -153,6 +153,28 @@ impl TypeSystem {
                 }
             }
 
+            // Restricted strings given by their first character and the rest:
+            (StrictVal::Tuple(vals), Ty::Tuple(fields))
+                if self.is_rstring(fields).unwrap_or_default() =>
+            {
+                let (rest_id, sizing) =
+                    self.rstring_sizing(fields).expect("type absent").expect("checked above");
+                let mut chars = vec![];
+                self.strict_write_val(&vals[0], fields[0], &mut chars)?;
+                match &vals[1] {
+                    StrictVal::String(s) => chars.extend(s.as_bytes()),
+                    StrictVal::List(list) => {
+                        for val in list {
+                            self.strict_write_val(val, rest_id, &mut chars)?;
+                        }
+                    }
+                    val => panic!("bug in business logic of type system. Details:\n{val:#?}"),
+                }
+                let bytes_count = sizing.byte_size();
+                let le_bytes = &chars.len().to_le_bytes()[0..bytes_count];
+                writer.write_all(le_bytes)?;
+                writer.write_all(&chars)?;
+            }
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
                 for (val, sem_id) in vals.iter().zip(fields) {
-- 
2.43.0


From b998920d5619e84fc04b725c61c203d54b2f4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 28/31] fix: report the tag of a union variant and not its
 position in its item case

---
 src/ast/ty.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 3725b6c..9fd5263 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -324,9 +324,10 @@ impl<Ref: TypeRef> Ty<Ref> {
     }
     pub fn case_at(&self, pos: u8) -> Option<ItemCase> {
         match self {
-            Ty::Union(fields) => {
-                fields.name_by_pos(pos).map(|name| ItemCase::UnionVariant(pos, name.clone()))
-            }
+            Ty::Union(fields) => fields
+                .keys()
+                .nth(pos as usize)
+                .map(|variant| ItemCase::UnionVariant(variant.tag, variant.name.clone())),
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-- 
2.43.0


From 4c48239ecb95d6c1471b94824d64631f5e7acc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 29/31] fix: recognise only newtypes of a character set as a
 character set

---
 src/ast/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 9fd5263..9a6e3cb 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -196,8 +196,8 @@ impl<Ref: TypeRef> Ty<Ref> {
     pub fn map(key: Ref, val: Ref, sizing: Sizing) -> Self { Ty::Map(key, val, sizing) }
 
     pub fn is_char_enum(&self) -> bool {
-        if let Ty::Tuple(fields) = self {
-            fields.first().and_then(Ref::as_ty).map(Self::is_char_enum).unwrap_or_default()
+        if self.is_newtype() {
+            self.as_wrapped_ty().map(Self::is_char_enum).unwrap_or_default()
         } else if let Ty::Enum(variants) = self {
             variants.iter().all(|variant| (32..=127).contains(&variant.tag))
         } else {
-- 
2.43.0


From 3432486ed02e6288d465db4eb01e6241d06cf61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 30/31] fix: state all the dependencies of an armored library
 in a single header line

---
 src/typelib/serialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6871dd5..6906fbc 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -180,10 +180,10 @@ impl armor::StrictArmor for TypeLib {
 
         let mut headers = vec![ArmorHeader::new("Name", self.name.to_string())];
         if !self.dependencies.is_empty() {
-            headers.push(ArmorHeader::with(
-                "Dependencies",
-                self.dependencies.iter().map(Dependency::to_string),
-            ));
+            // Headers are parsed line by line, thus all dependencies must be in the same line
+            let dependencies =
+                self.dependencies.iter().map(Dependency::to_string).collect::<Vec<_>>();
+            headers.push(ArmorHeader::new("Dependencies", dependencies.join(", ")));
         }
         headers
     }
-- 
2.43.0


From b9d7081322025f40b22b003d79621535afb1f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 31/31] fix: return the error of an invalid library from its
 serialization as a source

---
 src/typelib/serialize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6906fbc..8bb961f 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -71,7 +71,10 @@ impl TypeLib {
                     self.name,
                     header.unwrap_or_default()
                 )?;
-                writeln!(file, "{}", self.to_symbolic().expect("invalid library data"))?;
+                let lib = self
+                    .to_symbolic()
+                    .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
+                writeln!(file, "{lib}")?;
             }
         }
 
-- 
2.43.0

