From 34514451f5e9c5210455057a27b7b18699d9b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 01/31] fix: do not overflow member iterators of types with 255
 members

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From c84d7d5da98fe8afe4f3008cebe5595a3dd305ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 02/31] fix: report item case for all tuple fields

---
 src/ast/ty.rs           | 2 +-
 src/layout/translate.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..3725b6c 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -330,7 +330,7 @@ impl<Ref: TypeRef> Ty<Ref> {
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-            Ty::Tuple(fields) if fields.len_u8() == pos => Some(ItemCase::UnnamedField(pos)),
+            Ty::Tuple(fields) if pos < fields.len_u8() => Some(ItemCase::UnnamedField(pos)),
             Ty::Array(_, _) if pos == 0 => Some(ItemCase::ArrayItem),
             Ty::List(_, _) if pos == 0 => Some(ItemCase::ListItem),
             Ty::Set(_, _) if pos == 0 => Some(ItemCase::SetItem),
diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..b5b80ac 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -47,7 +47,7 @@ impl TypeInfo {
             Some(ItemCase::UnnamedField(pos)) => {
                 if name.as_str() == "_" {
                     comment = fqn;
-                    ident!("{}", pos)
+                    ident!("_{}", pos)
                 } else {
                     name.into_ident()
                 }
-- 
2.43.0


From d406e137b668ee001116bcf9de208351a58e5f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 03/31] fix: follow all steps of a type path in order

---
 src/ast/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/path.rs b/src/ast/path.rs
index 3195b5c..7b1fa2b 100644
--- a/src/ast/path.rs
+++ b/src/ast/path.rs
@@ -106,13 +106,13 @@ impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
 impl<Ref: TypeRef> Ty<Ref> {
     pub fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> {
         let mut ty = self;
-        let mut path = path.clone();
         let mut path_so_far = Path::new();
-        while let Some(step) = path.pop() {
-            let res = match (self, &step) {
+        for step in path {
+            let res = match (ty, step) {
                 (Ty::Struct(fields), Step::NamedField(name)) => fields.ty_by_name(name),
                 (Ty::Union(variants), Step::Variant(name)) => variants.ty_by_name(name),
                 (Ty::Struct(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
+                (Ty::Tuple(fields), Step::UnnamedField(pos)) => fields.ty_by_pos(*pos),
                 (Ty::Union(variants), Step::UnnamedField(tag)) => variants.ty_by_tag(*tag),
                 (Ty::Array(ty, _), Step::Index) => Some(ty),
                 (Ty::List(ty, _), Step::List) => Some(ty),
@@ -121,7 +121,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 (Ty::Map(_, ty, _), Step::MapValue) => Some(ty),
                 (_, _) => None,
             };
-            path_so_far.push(step).expect("confinement collection guarantees");
+            path_so_far.push(step.clone()).expect("confinement collection guarantees");
             ty = res
                 .and_then(|r| r.as_ty())
                 .ok_or_else(|| PathError::new(self, path_so_far.clone()))?
-- 
2.43.0


From 86267b4df5887b1c609b16cb7e7b929518eb0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 04/31] fix: report unknown and recursive types when compiling
 a symbolic library

---
 src/typelib/symbolic.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..6ca920f 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,6 +274,18 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
+/// Finds first name referenced by the type (including nested embedded types) which is not known.
+fn unresolved_name(
+    ty: &Ty<TranspileRef>,
+    known: &dyn Fn(&TypeName) -> bool,
+) -> Option<TypeName> {
+    ty.type_refs().find_map(|(subty, _)| match subty {
+        TranspileRef::Embedded(ty) => unresolved_name(ty, known),
+        TranspileRef::Named(name) if !known(name) => Some(name.clone()),
+        TranspileRef::Named(_) | TranspileRef::Extern(_) => None,
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -313,7 +325,19 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                // The remaining types can't be resolved: they refer to types absent in the library
+                // or recursively to each other
+                let unresolved = |known: &dyn Fn(&TypeName) -> bool| {
+                    old_types
+                        .values()
+                        .find_map(|ty| unresolved_name(ty, known).map(|name| (name, ty.clone())))
+                };
+                let (unknown, within) = unresolved(&|name| names.contains(name))
+                    .or_else(|| unresolved(&|name| index.contains_key(name)))
+                    .expect("unresolved type without unresolved references");
+                return Err(CompileError::UnknownType { unknown, within });
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
-- 
2.43.0


From 07fc58720e8aaa2bfcaf0b477dfb4a2d8c305f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 05/31] fix: report too many types when compiling a symbolic
 library

---
 src/typelib/symbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 6ca920f..ffa8c68 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -356,7 +356,7 @@ impl SymbolicLib {
             }
         }
 
-        let types = TypeMap::from_checked(new_types);
+        let types = TypeMap::try_from(new_types).map_err(|_| CompileError::TooManyTypes)?;
         let dependencies = Confined::from_checked(used_dependencies);
 
         Ok(TypeLib {
-- 
2.43.0


From 46ca233960f66d0894de30f654d7ce873b60add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 06/31] fix: make armor of libraries with multiple dependencies
 parsable

---
 src/typelib/serialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6871dd5..ef14660 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -180,10 +180,10 @@ impl armor::StrictArmor for TypeLib {
 
         let mut headers = vec![ArmorHeader::new("Name", self.name.to_string())];
         if !self.dependencies.is_empty() {
-            headers.push(ArmorHeader::with(
-                "Dependencies",
-                self.dependencies.iter().map(Dependency::to_string),
-            ));
+            // Multi-line headers are not supported by the armor parser
+            let dependencies =
+                self.dependencies.iter().map(Dependency::to_string).collect::<Vec<_>>().join(", ");
+            headers.push(ArmorHeader::new("Dependencies", dependencies));
         }
         headers
     }
-- 
2.43.0


From 7cdd1c4a402f7bbd140cad03e8b20856e7108e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 07/31] fix: print mnemonics of actual semantic ids in library
 source

---
 src/typelib/serialize.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index ef14660..20eb7b0 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -132,9 +132,17 @@ impl Display for SymbolicLib {
         }
         writeln!(f)?;
         let width = f.width().unwrap_or(17);
+        // Symbolic types refer to the other types of the library by their names, thus semantic ids
+        // are known only after the library is compiled
+        let lib = self.clone().compile().ok();
         for (name, ty) in self.types() {
             if !f.alternate() {
-                let mnemo = ty.sem_id_named(name).to_baid64_mnemonic();
+                let mnemo = lib
+                    .as_ref()
+                    .and_then(|lib| lib.types.get(name))
+                    .map(|ty| ty.sem_id_named(name))
+                    .unwrap_or_else(|| ty.sem_id_named(name))
+                    .to_baid64_mnemonic();
                 writeln!(f, "@mnemonic({mnemo})")?;
             }
             write!(f, "data {name:0$} : ", width)?;
-- 
2.43.0


From 12e0d01184f8baa868c3054aa0cb61bf5be4a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 08/31] fix: reject unions with repeated variant names when
 decoding

---
 src/ast/encoding.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..311f898 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -56,8 +56,11 @@ impl<Ref: TypeRef> StrictEncode for UnionVariants<Ref> {
 impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
-        let mut inner = BTreeMap::new();
+        let mut inner = BTreeMap::<Variant, Ref>::new();
         for (tag, info) in read {
+            if inner.keys().any(|variant| variant.name == info.name) {
+                return Err(DecodeError::RepeatedMapValue);
+            }
             inner.insert(
                 Variant {
                     name: info.name,
-- 
2.43.0


From fafa0ad7b46a912765f708c5cf73c1691a4fce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 09/31] fix: detect absent inner types when finalizing a type
 system

---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From b05a043ce7cbaae8e2581328cadd60bc521a24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 10/31] fix: keep all names of types defined identically in
 multiple libraries

---
 src/typesys/symbols.rs   | 8 +++++++-
 src/typesys/translate.rs | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/typesys/symbols.rs b/src/typesys/symbols.rs
index c931e79..4b2e817 100644
--- a/src/typesys/symbols.rs
+++ b/src/typesys/symbols.rs
@@ -124,13 +124,19 @@ impl SymbolicSys {
     pub(crate) fn with(
         libs: impl IntoIterator<Item = Dependency>,
         types: BTreeMap<SemId, SymTy>,
+        symbols: impl IntoIterator<Item = TypeSymbol>,
     ) -> Result<Self, translate::Error> {
         let mut sys = TypeSystem::new();
         let mut sym = Symbols::with(libs)?;
 
         for (sem_id, info) in types {
             sys.insert_unchecked(sem_id, info.ty)?;
-            sym.update_unchecked(sem_id, info.orig)?;
+            if info.orig.is_none() {
+                sym.update_unchecked(sem_id, None)?;
+            }
+        }
+        for symbol in symbols {
+            sym.update_unchecked(symbol.id, symbol.fqn)?;
         }
 
         Ok(Self {
diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index e5b6cce..a994592 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -93,6 +93,8 @@ pub struct SystemBuilder {
     pending_deps: BTreeSet<Dependency>,
     imported_deps: BTreeSet<Dependency>,
     types: BTreeMap<SemId, SymTy>,
+    /// Names of the types, including those defined identically by multiple libraries
+    symbols: BTreeSet<TypeSymbol>,
 }
 
 impl SystemBuilder {
@@ -108,6 +110,7 @@ impl SystemBuilder {
         for (ty_name, ty) in lib.types {
             let id = ty.sem_id_named(&ty_name);
             let ty = ty.translate(&mut self, &())?;
+            self.symbols.insert(TypeSymbol::named(id, lib.name.clone(), ty_name.clone()));
             let info = SymTy::named(lib.name.clone(), ty_name.clone(), ty);
             self.types.insert(id, info);
         }
@@ -136,7 +139,7 @@ impl SystemBuilder {
             return Err(errors);
         }
 
-        SymbolicSys::with(self.imported_deps, self.types).map_err(|err| vec![err])
+        SymbolicSys::with(self.imported_deps, self.types, self.symbols).map_err(|err| vec![err])
     }
 
     #[allow(clippy::multiple_bound_locations)]
-- 
2.43.0


From a9f3d467e89c40abea5585980baf357653a06cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 11/31] fix: keep item information and depth of optional values
 in type trees

---
 src/typesys/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 99fb6a9..f4ee34f 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -170,6 +170,7 @@ impl Iterator for TypeTreeIter<'_> {
             } else if ty.is_option() {
                 nested.push(NestedCase::Option);
                 let _ = iter.next(); // skipping none
+                dive = false;
                 ret = false;
             } else if let Ty::Tuple(fields) = ty {
                 if fields.len() == 2 {
@@ -240,7 +241,10 @@ impl Iterator for TypeTreeIter<'_> {
                 }
                 Some((id, item)) => {
                     self.sem_id = *id;
-                    if !matches!(self.nested.last(), Some(NestedCase::NewType(_))) {
+                    if !matches!(
+                        self.nested.last(),
+                        Some(NestedCase::NewType(_) | NestedCase::Option)
+                    ) {
                         self.item = item;
                     }
                     self.ty = self.sys.get(*id);
-- 
2.43.0


From 019b63ae56ad77adc6c36923ede1a88461a37820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 12/31] fix: do not overflow sizing of restricted strings

---
 src/typesys/iter.rs     | 4 ++--
 src/typesys/type_sys.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index f4ee34f..21aa1ce 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -182,8 +182,8 @@ impl Iterator for TypeTreeIter<'_> {
                             let first = self.sys.symbols.lookup(fields[0]);
                             let rest = self.sys.symbols.lookup(*rest);
                             let mut sizing = *sizing;
-                            sizing.min += 1;
-                            sizing.max += 1;
+                            sizing.min = sizing.min.saturating_add(1);
+                            sizing.max = sizing.max.saturating_add(1);
                             let _ = iter.next(); // skipping first char
                             let _ = iter.next(); // skipping nested list
                             nested.push(NestedCase::RStr(first.cloned(), rest.cloned(), sizing))
diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..c13193c 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
-- 
2.43.0


From ed368c014995abb8170c14c57fc7e08eb0372855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 13/31] fix: report tags of union variants in type layouts

---
 src/ast/ty.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 3725b6c..9fd5263 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -324,9 +324,10 @@ impl<Ref: TypeRef> Ty<Ref> {
     }
     pub fn case_at(&self, pos: u8) -> Option<ItemCase> {
         match self {
-            Ty::Union(fields) => {
-                fields.name_by_pos(pos).map(|name| ItemCase::UnionVariant(pos, name.clone()))
-            }
+            Ty::Union(fields) => fields
+                .keys()
+                .nth(pos as usize)
+                .map(|variant| ItemCase::UnionVariant(variant.tag, variant.name.clone())),
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-- 
2.43.0


From 21d18eea1459045e585d5c58765bf7fafe3bbe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 14/31] fix: accept numbers according to the class and range of
 their type

---
 src/value/typify.rs | 65 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 177505c..8adfe06 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -25,6 +25,7 @@
 
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
+use amplify::num::{i1024, u1024};
 use amplify::Wrapper;
 use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
@@ -117,13 +118,27 @@ trait PrimitiveValue {
     fn is_large_unsigned(&self) -> bool;
     fn is_small_signed(&self) -> bool;
     fn is_large_signed(&self) -> bool;
+    /// Checks that a number given by its little-endian bytes fits into the size of the primitive.
+    fn fits_le_bytes(&self, le_bytes: &[u8], signed: bool) -> bool;
 }
 
 impl PrimitiveValue for Primitive {
-    fn is_small_unsigned(&self) -> bool { self.into_code() <= 16 }
-    fn is_large_unsigned(&self) -> bool { self.into_code() > 16 && self.into_code() < 0x40 }
-    fn is_small_signed(&self) -> bool { self.into_code() >= 0x40 && self.into_code() <= 0x4f }
-    fn is_large_signed(&self) -> bool { self.into_code() > 0x4f && self.into_code() < 0x80 }
+    fn is_small_unsigned(&self) -> bool {
+        *self == Primitive::BYTE || (0x01..=0x08).contains(&self.into_code())
+    }
+    fn is_large_unsigned(&self) -> bool { (0x09..=0x3f).contains(&self.into_code()) }
+    fn is_small_signed(&self) -> bool { (0x41..=0x48).contains(&self.into_code()) }
+    fn is_large_signed(&self) -> bool { (0x49..=0x7f).contains(&self.into_code()) }
+
+    fn fits_le_bytes(&self, le_bytes: &[u8], signed: bool) -> bool {
+        let size = self.byte_size() as usize;
+        if size == 0 || size > le_bytes.len() {
+            return false;
+        }
+        let negative = signed && le_bytes[size - 1] & 0x80 != 0;
+        let fill = if negative { 0xff } else { 0x00 };
+        le_bytes[size..].iter().all(|byte| *byte == fill)
+    }
 }
 
 impl SymbolicSys {
@@ -170,31 +185,51 @@ impl TypeSystem {
                 StrictVal::Unit
             }
 
-            (val @ StrictVal::Number(StrictNum::Uint(_)), Ty::Primitive(prim))
-                if prim.is_small_unsigned() =>
+            (val @ StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_unsigned() && prim.fits_le_bytes(&num.to_le_bytes(), false) =>
             {
                 val
             }
-            (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
-                if prim.is_small_signed() && (val & 0x8000_0000_0000_0000) == 0 =>
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_signed()
+                    && (num & 0x8000_0000_0000_0000) == 0
+                    && prim.fits_le_bytes(&num.to_le_bytes(), true) =>
             {
-                StrictVal::Number(StrictNum::Int(val as i64))
+                StrictVal::Number(StrictNum::Int(num as i64))
             }
-            (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
-                if prim.is_large_unsigned() =>
+            (val @ StrictVal::Number(StrictNum::BigUint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() && prim.fits_le_bytes(&num.to_le_bytes(), false) =>
             {
                 val
             }
-            (val @ StrictVal::Number(StrictNum::Int(_)), Ty::Primitive(prim))
-                if prim.is_small_signed() =>
+            (val @ StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim))
+                if prim.is_small_signed() && prim.fits_le_bytes(&num.to_le_bytes(), true) =>
             {
                 val
             }
-            (val @ StrictVal::Number(StrictNum::BigInt(_)), Ty::Primitive(prim))
-                if prim.is_large_signed() =>
+            (val @ StrictVal::Number(StrictNum::BigInt(num)), Ty::Primitive(prim))
+                if prim.is_large_signed() && prim.fits_le_bytes(&num.to_le_bytes(), true) =>
             {
                 val
             }
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() =>
+            {
+                let num = StrictNum::BigUint(u1024::from(num));
+                return self.typify(StrictVal::Number(num), sem_id);
+            }
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_large_signed() =>
+            {
+                let num = StrictNum::BigInt(i1024::from(num));
+                return self.typify(StrictVal::Number(num), sem_id);
+            }
+            (StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim))
+                if prim.is_large_signed() =>
+            {
+                let num = StrictNum::BigInt(i1024::from(num));
+                return self.typify(StrictVal::Number(num), sem_id);
+            }
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-- 
2.43.0


From 10f3b13c8b0078f01cfe2fb547b8f7b0f52b7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 15/31] fix: check the length and the items of arrays, and
 write arrays of any type

---
 src/value/encode.rs |  7 +++++++
 src/value/typify.rs | 34 ++++++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..58e3308 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -147,6 +147,13 @@ impl TypeSystem {
                 writer.write_all(s.as_bytes())?;
             }
 
+            (StrictVal::List(list), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(list.len(), *len as usize);
+                for val in list {
+                    self.strict_write_val(val, *sem_id, writer)?;
+                }
+            }
+
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
                 for (val, sem_id) in vals.iter().zip(fields) {
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 8adfe06..287ed13 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -233,19 +233,22 @@ impl TypeSystem {
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-                if id.is_byte() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::Array(id, len))
-                if id.is_unicode_char() && s.len() > *len as usize =>
+                if !id.is_byte() && s.chars().count() != *len as usize =>
             {
-                return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
+                let count = s.chars().count();
+                return Err(Error::OutOfBounds(spec, count, Sizing::fixed(*len as u64)));
             }
-            (StrictVal::String(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::String(s), Ty::Array(id, len))
+                if id.is_byte() && s.len() != *len as usize =>
+            {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::List(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
@@ -275,10 +278,25 @@ impl TypeSystem {
             }
 
             (val @ StrictVal::Bytes(_), Ty::Array(id, _)) if id.is_byte() => val,
-            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
-                StrictVal::String(s)
+            (StrictVal::String(s), Ty::Array(id, _)) if id.is_byte() && s.is_ascii() => {
+                StrictVal::Bytes(Blob(s.into_bytes()))
+            }
+            (StrictVal::String(s), Ty::Array(id, _)) if !id.is_byte() => {
+                let mut new = Vec::with_capacity(s.len());
+                for ch in s.chars() {
+                    let checked = self.typify(StrictVal::String(ch.to_string()), *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
+            }
+            (StrictVal::List(s), Ty::Array(id, _)) => {
+                let mut new = Vec::with_capacity(s.len());
+                for item in s {
+                    let checked = self.typify(item, *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
             }
-            (val @ StrictVal::List(_), Ty::Array(_, _)) => val,
 
             // RString
             (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
-- 
2.43.0


From 0395af78d6f00230386c7f74d2f28da29fd42581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 16/31] fix: check characters and bounds of strings when they
 are typified

---
 src/value/typify.rs | 107 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 81 insertions(+), 26 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 287ed13..a9c3d64 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -23,7 +23,7 @@
 
 //! Checks strict values against provied strict type specification.
 
-use amplify::ascii::{AsAsciiStrError, AsciiString};
+use amplify::ascii::AsAsciiStrError;
 use amplify::confinement::NonEmptyOrdSet;
 use amplify::num::{i1024, u1024};
 use amplify::Wrapper;
@@ -31,7 +31,7 @@ use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
 
 use super::{Blob, StrictVal};
-use crate::ast::EnumVariants;
+use crate::ast::{EnumVariants, UnnamedFields};
 use crate::typesys::{SymbolicSys, TypeFqn, TypeSymbol};
 use crate::value::{EnumTag, StrictNum};
 use crate::{SemId, Ty, TypeRef, TypeSystem};
@@ -154,6 +154,27 @@ impl TypeSystem {
         self.as_inner().iter().find(|(my_id, _)| **my_id == sem_id).map(|(_, ty)| ty)
     }
 
+    fn is_rstring_type(&self, fields: &UnnamedFields<SemId>) -> bool {
+        self.is_rstring(fields).unwrap_or_default()
+    }
+
+    /// Typifies a single character of a string.
+    fn typify_char(&self, ch: char, sem_id: SemId) -> Result<StrictVal, Error> {
+        let ty = self.find(sem_id).ok_or_else(|| Error::TypeAbsent(TypeSpec::from(sem_id)))?;
+        let mismatch = || Error::TypeMismatch {
+            value: StrictVal::String(ch.to_string()),
+            expected: ty.clone(),
+        };
+        match ty {
+            Ty::UnicodeChar => Ok(StrictVal::String(ch.to_string())),
+            Ty::Enum(variants) if ch.is_ascii() => {
+                variants.name_by_tag(ch as u8).map(|name| StrictVal::enumer(name.clone()))
+                    .ok_or_else(mismatch)
+            }
+            _ => Err(mismatch()),
+        }
+    }
+
     pub fn typify(&self, val: StrictVal, sem_id: SemId) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
         let ty = if sem_id == SemId::unit() {
@@ -251,6 +272,25 @@ impl TypeSystem {
             (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
+            // The size of unicode strings is given in bytes and not in characters
+            (StrictVal::List(items), Ty::List(id, sizing)) if id.is_unicode_char() => {
+                let mut new = String::with_capacity(items.len());
+                for item in items {
+                    match self.typify(item, *id)?.val {
+                        StrictVal::String(ch) => new.push_str(&ch),
+                        value => {
+                            return Err(Error::TypeMismatch {
+                                value,
+                                expected: Ty::UNICODE,
+                            });
+                        }
+                    }
+                }
+                if !sizing.check(new.len()) {
+                    return Err(Error::OutOfBounds(spec, new.len(), *sizing));
+                }
+                StrictVal::String(new)
+            }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
@@ -266,14 +306,8 @@ impl TypeSystem {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
 
-            // Ascii or other sub-byte character
-            (StrictVal::String(s), Ty::Enum(en)) if s.len() == 1 && en.has_tag(s.as_bytes()[0]) => {
-                StrictVal::String(s)
-            }
             // Unicode character
-            (StrictVal::String(s), ty @ Ty::UnicodeChar)
-                if ty.is_unicode_char() && s.len() == 1 =>
-            {
+            (StrictVal::String(s), Ty::UnicodeChar) if s.chars().count() == 1 => {
                 StrictVal::String(s)
             }
 
@@ -284,8 +318,7 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::Array(id, _)) if !id.is_byte() => {
                 let mut new = Vec::with_capacity(s.len());
                 for ch in s.chars() {
-                    let checked = self.typify(StrictVal::String(ch.to_string()), *id)?;
-                    new.push(checked.val);
+                    new.push(self.typify_char(ch, *id)?);
                 }
                 StrictVal::List(new)
             }
@@ -299,17 +332,29 @@ impl TypeSystem {
             }
 
             // RString
-            (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
-                /* Invalid: we need to preserve string structure
-                let first = fields.first().expect("checked length");
-                let rest = fields.last().expect("checked length");
-                let first =
-                    self.typify(StrictVal::Enum(EnumTag::Ord(s.as_bytes()[0] as u8)), *first)?;
-                let rest = self.typify(StrictVal::String(s[1..].to_owned()), *rest)?;
-                StrictVal::Tuple(vec![first.val, rest.val])
-                 */
+            (StrictVal::String(s), Ty::Tuple(fields)) if self.is_rstring_type(fields) => {
+                let (rest, sizing) = self
+                    .rstring_sizing(fields)
+                    .ok()
+                    .flatten()
+                    .ok_or_else(|| Error::TypeAbsent(spec.clone()))?;
+                if !sizing.check(s.len()) {
+                    return Err(Error::OutOfBounds(spec, s.len(), sizing));
+                }
+                for (no, ch) in s.chars().enumerate() {
+                    self.typify_char(ch, if no == 0 { fields[0] } else { rest })?;
+                }
+                // We need to preserve string structure
                 StrictVal::String(s)
             }
+            (val @ (StrictVal::Tuple(_) | StrictVal::List(_)), Ty::Tuple(fields))
+                if self.is_rstring_type(fields) =>
+            {
+                return Err(Error::TypeMismatch {
+                    value: val,
+                    expected: ty.clone(),
+                });
+            }
 
             // Collection items type checks:
             (val @ StrictVal::Bytes(_), Ty::List(id, _)) if id.is_byte() => val,
@@ -317,8 +362,12 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::List(id, _)) if id.is_byte() => {
                 StrictVal::Bytes(Blob(s.into_bytes()))
             }
-            (StrictVal::String(s), Ty::List(_, _)) if s.is_ascii() => {
-                AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
+            (StrictVal::String(s), Ty::List(id, _))
+                if matches!(self.find(*id), Some(Ty::Enum(_))) =>
+            {
+                for ch in s.chars() {
+                    self.typify_char(ch, *id)?;
+                }
                 StrictVal::String(s)
             }
             (StrictVal::List(s), Ty::List(id, _)) => {
@@ -365,11 +414,17 @@ impl TypeSystem {
                 }
             }
             (StrictVal::String(s), Ty::Enum(variants)) => {
-                if let Ok(vname) = VariantName::try_from(s.clone()) {
-                    if !variants.has_name(&vname) {
-                        return Err(Error::EnumTagInvalid(vname.into(), variants.clone()));
-                    }
+                let vname = VariantName::try_from(s.clone()).ok();
+                // Ascii or other sub-byte character
+                let symbol = Some(s.as_bytes())
+                    .filter(|bytes| bytes.len() == 1)
+                    .and_then(|bytes| variants.name_by_tag(bytes[0]));
+                if let Some(vname) = vname.clone().filter(|vname| variants.has_name(vname)) {
                     StrictVal::enumer(vname)
+                } else if let Some(vname) = symbol {
+                    StrictVal::enumer(vname.clone())
+                } else if let Some(vname) = vname {
+                    return Err(Error::EnumTagInvalid(vname.into(), variants.clone()));
                 } else {
                     return Err(Error::TypeMismatch {
                         value: StrictVal::String(s),
-- 
2.43.0


From caf06c85a19898533e2fc783de245394cb657f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 17/31] fix: require all fields when a tuple is given as a list
 or a structure as a map

---
 src/value/typify.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index a9c3d64..7546324 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -455,7 +455,7 @@ impl TypeSystem {
             }
 
             // Field count check:
-            (StrictVal::Tuple(fields), Ty::Tuple(fields_req))
+            (StrictVal::Tuple(fields) | StrictVal::List(fields), Ty::Tuple(fields_req))
                 if fields.len() != fields_req.len() =>
             {
                 return Err(Error::FieldNumberMismatch {
@@ -474,6 +474,16 @@ impl TypeSystem {
                 });
             }
 
+            (StrictVal::Map(fields), Ty::Struct(fields_req))
+                if fields.len() != fields_req.len() =>
+            {
+                return Err(Error::FieldNumberMismatch {
+                    spec,
+                    expected: fields_req.len(),
+                    found: fields.len(),
+                });
+            }
+
             // Check specific field types:
             (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req)) => {
                 let mut new = Vec::with_capacity(s.len());
@@ -505,6 +515,10 @@ impl TypeSystem {
                         return Err(Error::ExtraField(fname));
                     };
                     let checked = self.typify(item, *field)?;
+                    if new.contains_key(&fname) {
+                        let fname = StrictVal::String(fname.to_string());
+                        return Err(Error::RepeatedKeyValue(spec, fname));
+                    }
                     new.insert(fname, checked.val);
                 }
                 StrictVal::Struct(new)
-- 
2.43.0


From e1f6de4a4944c9bcc36e564474cb83d9a68d22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 18/31] fix: check the content of absent optional values

---
 src/value/typify.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 7546324..99e059b 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -525,16 +525,20 @@ impl TypeSystem {
             }
 
             // Optional
-            (StrictVal::Unit, ty @ Ty::Union(_)) if ty.is_option() => {
+            (StrictVal::Unit, ty @ Ty::Union(fields)) if ty.is_option() => {
                 // this is `None`
-                StrictVal::union("none", ())
+                let content = *fields.ty_by_tag(0).expect("optional always have `None`");
+                let inner = self.typify(StrictVal::Unit, content)?.val;
+                StrictVal::union("none", inner)
             }
             (StrictVal::Tuple(mut tuple), ty @ Ty::Union(fields))
                 if ty.is_option() && tuple.len() == 2 =>
             {
                 let content = *fields.ty_by_tag(1).expect("optional always have `Some`");
                 if tuple[0] == StrictVal::String(s!("none")) && tuple[1] == StrictVal::Unit {
-                    StrictVal::union("none", StrictVal::Unit)
+                    let content = *fields.ty_by_tag(0).expect("optional always have `None`");
+                    let inner = self.typify(StrictVal::Unit, content)?.val;
+                    StrictVal::union("none", inner)
                 } else if tuple[0] == StrictVal::String(s!("some")) {
                     let inner = self.typify(tuple.pop().expect("two elements"), content)?.val;
                     StrictVal::union("some", inner)
-- 
2.43.0


From be4fdfa627d85d50a0d29b098b6e1998e2284fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 19/31] fix: detect repeated set items and map keys whichever
 way they are represented

---
 src/value/encode.rs |  2 +-
 src/value/typify.rs | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 58e3308..8d28bda 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -88,7 +88,7 @@ impl TypeSystem {
         self.strict_write_val(&typed.val, typed.orig.id, writer)
     }
 
-    fn strict_write_val(
+    pub(super) fn strict_write_val(
         &self,
         val: &StrictVal,
         sem_id: SemId,
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 99e059b..6b296ba 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -23,6 +23,8 @@
 
 //! Checks strict values against provied strict type specification.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::AsAsciiStrError;
 use amplify::confinement::NonEmptyOrdSet;
 use amplify::num::{i1024, u1024};
@@ -158,6 +160,14 @@ impl TypeSystem {
         self.is_rstring(fields).unwrap_or_default()
     }
 
+    /// Encodes a typified item of a collection. The same item may have different representations,
+    /// but it always has a single encoding.
+    pub(super) fn encode_item(&self, val: &StrictVal, sem_id: SemId) -> Vec<u8> {
+        let mut encoded = vec![];
+        self.strict_write_val(val, sem_id, &mut encoded).expect("in-memory writing doesn't fail");
+        encoded
+    }
+
     /// Typifies a single character of a string.
     fn typify_char(&self, ch: char, sem_id: SemId) -> Result<StrictVal, Error> {
         let ty = self.find(sem_id).ok_or_else(|| Error::TypeAbsent(TypeSpec::from(sem_id)))?;
@@ -380,9 +390,10 @@ impl TypeSystem {
             }
             (StrictVal::Set(s), Ty::Set(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
+                let mut encoded = BTreeSet::new();
                 for item in s {
                     let checked = self.typify(item, *id)?;
-                    if new.contains(&checked.val) {
+                    if !encoded.insert(self.encode_item(&checked.val, *id)) {
                         return Err(Error::RepeatedSetValue(spec, checked.val));
                     }
                     new.push(checked.val);
@@ -391,10 +402,11 @@ impl TypeSystem {
             }
             (StrictVal::Map(s), Ty::Map(key_id, id, _)) => {
                 let mut new = Vec::<(StrictVal, StrictVal)>::with_capacity(s.len());
+                let mut encoded = BTreeSet::new();
                 for (key, item) in s {
                     let checked_key = self.typify(key, *key_id)?;
                     let checked_val = self.typify(item, *id)?;
-                    if new.iter().any(|(k, _)| k == &checked_key.val) {
+                    if !encoded.insert(self.encode_item(&checked_key.val, *key_id)) {
                         return Err(Error::RepeatedKeyValue(spec, checked_key.val));
                     }
                     new.push((checked_key.val, checked_val.val));
-- 
2.43.0


From e162d7480c9eac87467ccb220c3725fdb694de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 20/31] fix: read unicode characters

---
 src/value/decode.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..ac12ae5 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -159,7 +159,18 @@ impl TypeSystem {
                 }
             }
             Ty::UnicodeChar => {
-                todo!()
+                let first = u8::strict_decode(&mut reader)?;
+                let len = match first {
+                    0xC2..=0xDF => 2,
+                    0xE0..=0xEF => 3,
+                    0xF0..=0xF4 => 4,
+                    _ => 1,
+                };
+                let mut utf8 = vec![first];
+                for _ in 1..len {
+                    utf8.push(u8::strict_decode(&mut reader)?);
+                }
+                StrictVal::String(String::from_utf8(utf8).map_err(DecodeError::from)?)
             }
 
             // ASCII strings:
-- 
2.43.0


From 3d738c2ad611e9748c443d588920a53fe14c77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 21/31] fix: do not reserve memory for the items which are not
 yet read

---
 src/value/decode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index ac12ae5..68311c3 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -38,6 +38,9 @@ use crate::typify::{TypeSpec, TypedVal};
 use crate::value::Blob;
 use crate::{SemId, StrictVal, Ty, TypeRef, TypeSystem};
 
+/// The length of a collection comes from the data and can't be trusted before its items are read.
+const MAX_PREALLOCATED: usize = 1024;
+
 #[derive(Clone, Eq, PartialEq, Debug, Display, Error, From)]
 #[display(doc_comments)]
 pub enum Error {
@@ -88,7 +91,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOCATED));
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
             list.push(item.val);
@@ -103,7 +106,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOCATED));
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
-- 
2.43.0


From c2e0ba8f63137e79b8751c92bed64a80e21f45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 22/31] fix: check bounds, characters and uniqueness of the
 items when collections are read

---
 src/value/decode.rs | 156 +++++++++++++++++++++++++++++++-------------
 1 file changed, 112 insertions(+), 44 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 68311c3..bb3fe42 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,14 +23,16 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
+    self, Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
     SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
     U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
-use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
+use encoding::{DecodeError, Primitive, ReadRaw, Sizing, StreamReader, StrictDecode, StrictReader};
 use indexmap::IndexMap;
 
 use crate::typesys::{SymbolicSys, TypeSymbol, UnknownType};
@@ -62,6 +64,25 @@ pub enum Error {
     NotEntirelyConsumed,
 }
 
+/// Checks the length given in the data against the bounds of the type.
+fn check_len(len: usize, sizing: &Sizing) -> Result<(), DecodeError> {
+    if (len as u64) < sizing.min {
+        return Err(confinement::Error::Undersize {
+            len,
+            min_len: usize::try_from(sizing.min).unwrap_or(usize::MAX),
+        }
+        .into());
+    }
+    if len as u64 > sizing.max {
+        return Err(confinement::Error::Oversize {
+            len,
+            max_len: usize::try_from(sizing.max).unwrap_or(usize::MAX),
+        }
+        .into());
+    }
+    Ok(())
+}
+
 impl SymbolicSys {
     pub fn strict_deserialize_type(
         &self,
@@ -89,11 +110,33 @@ impl TypeSystem {
         &self,
         len: usize,
         ty: SemId,
+        sizing: &Sizing,
+        d: &mut impl ReadRaw,
+    ) -> Result<Vec<StrictVal>, Error> {
+        check_len(len, sizing)?;
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOCATED));
+        for _ in 0..len {
+            let item = self.strict_read_type(ty, d)?;
+            list.push(item.val);
+        }
+        Ok(list)
+    }
+
+    fn strict_read_set(
+        &self,
+        len: usize,
+        ty: SemId,
+        sizing: &Sizing,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
+        check_len(len, sizing)?;
         let mut list = Vec::with_capacity(len.min(MAX_PREALLOCATED));
+        let mut encoded = BTreeSet::new();
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
+            if !encoded.insert(self.encode_item(&item.val, ty)) {
+                return Err(DecodeError::RepeatedSetValue.into());
+            }
             list.push(item.val);
         }
         Ok(list)
@@ -104,17 +147,33 @@ impl TypeSystem {
         len: usize,
         key_ty: SemId,
         ty: SemId,
+        sizing: &Sizing,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
+        check_len(len, sizing)?;
         let mut list = Vec::with_capacity(len.min(MAX_PREALLOCATED));
+        let mut encoded = BTreeSet::new();
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
+            if !encoded.insert(self.encode_item(&key.val, key_ty)) {
+                return Err(DecodeError::RepeatedMapValue.into());
+            }
             list.push((key.val, item.val));
         }
         Ok(list)
     }
 
+    /// Checks that a character belongs to the set of allowed characters.
+    fn check_char(&self, ch: char, ty: SemId) -> Result<(), Error> {
+        match self.find(ty) {
+            Some(Ty::Enum(variants)) if ch.is_ascii() && !variants.has_tag(ch as u8) => {
+                Err(DecodeError::EnumTagNotKnown(ty.to_string(), ch as u8).into())
+            }
+            _ => Ok(()),
+        }
+    }
+
     pub fn strict_deserialize_type(&self, sem_id: SemId, data: &[u8]) -> Result<TypedVal, Error> {
         let mut cursor = StreamReader::cursor::<MAX32>(data);
         let ty = self.strict_read_type(sem_id, &mut cursor)?;
@@ -183,42 +242,44 @@ impl TypeSystem {
                     .ok_or_else(|| Error::TypeAbsent(spec.clone()))?
                     .is_char_enum() =>
             {
-                if sizing.max <= u8::MAX as u64 {
-                    StrictVal::String(TinyAscii::strict_decode(&mut reader)?.to_string())
+                let s = if sizing.max <= u8::MAX as u64 {
+                    TinyAscii::strict_decode(&mut reader)?.to_string()
                 } else if sizing.max <= u16::MAX as u64 {
-                    StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
+                    SmallAscii::strict_decode(&mut reader)?.to_string()
                 } else if sizing.max <= u24::MAX.into_u64() {
-                    StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
+                    MediumAscii::strict_decode(&mut reader)?.to_string()
                 } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
+                    LargeAscii::strict_decode(&mut reader)?.to_string()
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(&mut reader)?
+                        .to_string()
+                };
+                check_len(s.len(), sizing)?;
+                for ch in s.chars() {
+                    self.check_char(ch, *sem_id)?;
                 }
+                StrictVal::String(s)
             }
             // Restricted strings:
             Ty::Tuple(fields) if self.is_rstring(fields)? => {
-                let (_, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
-                if sizing.max <= u8::MAX as u64 {
-                    StrictVal::String(TinyAscii::strict_decode(&mut reader)?.to_string())
+                let (rest, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
+                let s = if sizing.max <= u8::MAX as u64 {
+                    TinyAscii::strict_decode(&mut reader)?.to_string()
                 } else if sizing.max <= u16::MAX as u64 {
-                    StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
+                    SmallAscii::strict_decode(&mut reader)?.to_string()
                 } else if sizing.max <= u24::MAX.into_u64() {
-                    StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
+                    MediumAscii::strict_decode(&mut reader)?.to_string()
                 } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
+                    LargeAscii::strict_decode(&mut reader)?.to_string()
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(&mut reader)?
+                        .to_string()
+                };
+                check_len(s.len(), &sizing)?;
+                for (no, ch) in s.chars().enumerate() {
+                    self.check_char(ch, if no == 0 { fields[0] } else { rest })?;
                 }
+                StrictVal::String(s)
             }
 
             Ty::Enum(variants) => {
@@ -274,36 +335,44 @@ impl TypeSystem {
             // Byte strings:
             Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u8::MAX as u64 => {
                 let string = TinyBlob::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
             Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u16::MAX as u64 => {
                 let string = SmallBlob::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
             Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u24::MAX.into_u64() => {
                 let string = MediumBlob::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
             Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u32::MAX as u64 => {
                 let string = LargeBlob::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
 
             // Unicode strings:
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u8::MAX as u64 => {
                 let string = TinyString::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::String(string.release())
             }
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u16::MAX as u64 => {
                 let string = SmallString::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::String(string.release())
             }
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u24::MAX.into_u64() => {
                 let string = MediumString::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::String(string.release())
             }
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u32::MAX as u64 => {
                 let string = LargeString::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
                 StrictVal::String(string.release())
             }
 
@@ -311,92 +380,91 @@ impl TypeSystem {
             Ty::List(ty, sizing) if sizing.max <= u8::MAX as u64 => {
                 let len = u8::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_list(len as usize, *ty, sizing, d)?;
                 StrictVal::List(list)
             }
             Ty::List(ty, sizing) if sizing.max <= u16::MAX as u64 => {
                 let len = u16::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_list(len as usize, *ty, sizing, d)?;
                 StrictVal::List(list)
             }
             Ty::List(ty, sizing) if sizing.max <= u24::MAX.into_u64() => {
                 let len = u24::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len.into_usize(), *ty, d)?;
+                let list = self.strict_read_list(len.into_usize(), *ty, sizing, d)?;
                 StrictVal::List(list)
             }
             Ty::List(ty, sizing) if sizing.max <= u32::MAX as u64 => {
                 let len = u32::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_list(len as usize, *ty, sizing, d)?;
                 StrictVal::List(list)
             }
-            Ty::List(ty, _) => {
+            Ty::List(ty, sizing) => {
                 let len = u64::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_list(len as usize, *ty, sizing, d)?;
                 StrictVal::List(list)
             }
-            // TODO: Find a way to check for the uniqueness of the set values
             Ty::Set(ty, sizing) if sizing.max <= u8::MAX as u64 => {
                 let len = u8::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, sizing, d)?;
                 StrictVal::Set(list)
             }
             Ty::Set(ty, sizing) if sizing.max <= u16::MAX as u64 => {
                 let len = u16::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, sizing, d)?;
                 StrictVal::Set(list)
             }
             Ty::Set(ty, sizing) if sizing.max <= u24::MAX.into_u64() => {
                 let len = u24::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len.into_usize(), *ty, d)?;
+                let list = self.strict_read_set(len.into_usize(), *ty, sizing, d)?;
                 StrictVal::Set(list)
             }
             Ty::Set(ty, sizing) if sizing.max <= u32::MAX as u64 => {
                 let len = u32::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, sizing, d)?;
                 StrictVal::Set(list)
             }
-            Ty::Set(ty, _) => {
+            Ty::Set(ty, sizing) => {
                 let len = u64::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, sizing, d)?;
                 StrictVal::Set(list)
             }
             Ty::Map(key_id, id, sizing) if sizing.max <= u8::MAX as u64 => {
                 let len = u8::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
+                let list = self.strict_read_map(len as usize, *key_id, *id, sizing, d)?;
                 StrictVal::Map(list)
             }
             Ty::Map(key_id, id, sizing) if sizing.max <= u16::MAX as u64 => {
                 let len = u16::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
+                let list = self.strict_read_map(len as usize, *key_id, *id, sizing, d)?;
                 StrictVal::Map(list)
             }
             Ty::Map(key_id, id, sizing) if sizing.max <= u24::MAX.into_u64() => {
                 let len = u24::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_map(len.into_usize(), *key_id, *id, d)?;
+                let list = self.strict_read_map(len.into_usize(), *key_id, *id, sizing, d)?;
                 StrictVal::Map(list)
             }
             Ty::Map(key_id, id, sizing) if sizing.max <= u32::MAX as u64 => {
                 let len = u32::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
+                let list = self.strict_read_map(len as usize, *key_id, *id, sizing, d)?;
                 StrictVal::Map(list)
             }
-            Ty::Map(key_id, id, _sizing) => {
+            Ty::Map(key_id, id, sizing) => {
                 let len = u64::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
+                let list = self.strict_read_map(len as usize, *key_id, *id, sizing, d)?;
                 StrictVal::Map(list)
             }
         };
-- 
2.43.0


From 85c6d1b70483ec23eb5bfa6a34a2ae7ca7387259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 23/31] fix: read byte and unicode strings with long length
 fields as such

---
 src/value/decode.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index bb3fe42..3e19d92 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -353,6 +353,12 @@ impl TypeSystem {
                 check_len(string.len(), sizing)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
+            Ty::List(ty, sizing) if ty.is_byte() => {
+                let string =
+                    Confined::<Vec<u8>, 0, { u64::MAX as usize }>::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
+                StrictVal::Bytes(Blob(string.release()))
+            }
 
             // Unicode strings:
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u8::MAX as u64 => {
@@ -375,6 +381,12 @@ impl TypeSystem {
                 check_len(string.len(), sizing)?;
                 StrictVal::String(string.release())
             }
+            Ty::List(ty, sizing) if ty.is_unicode_char() => {
+                let string =
+                    Confined::<String, 0, { u64::MAX as usize }>::strict_decode(&mut reader)?;
+                check_len(string.len(), sizing)?;
+                StrictVal::String(string.release())
+            }
 
             // Other lists:
             Ty::List(ty, sizing) if sizing.max <= u8::MAX as u64 => {
-- 
2.43.0


From 76959f58f586d59472e05c071f2d71556fb5973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 24/31] fix: follow all steps of a value path

---
 src/value/path.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/value/path.rs b/src/value/path.rs
index 8ee3ea3..5296db1 100644
--- a/src/value/path.rs
+++ b/src/value/path.rs
@@ -164,33 +164,37 @@ impl StrictVal {
         &self,
         path: impl IntoIterator<Item = &'p Step>,
     ) -> Result<&StrictVal, PathError> {
-        let mut iter = path.into_iter();
-        match (self, iter.next()) {
-            (val, None) => Ok(val),
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no)))
-                if *no as usize >= fields.len() =>
-            {
+        let mut me = self;
+        for step in path {
+            me = me.at_step(step)?;
+        }
+        Ok(me)
+    }
+
+    fn at_step(&self, step: &Step) -> Result<&StrictVal, PathError> {
+        match (self, step) {
+            (StrictVal::Tuple(fields), Step::UnnamedField(no)) if *no as usize >= fields.len() => {
                 Err(PathError::FieldNoOutOfBounds(*no, fields.len()))
             }
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no))) => Ok(&fields[*no as usize]),
-            (StrictVal::Struct(fields), Some(Step::NamedField(name))) => {
+            (StrictVal::Tuple(fields), Step::UnnamedField(no)) => Ok(&fields[*no as usize]),
+            (StrictVal::Struct(fields), Step::NamedField(name)) => {
                 fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))
             }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx)))
+            (StrictVal::List(items) | StrictVal::Set(items), Step::Index(idx))
                 if *idx as usize >= items.len() =>
             {
                 Err(PathError::CollectionIndexOutOfBounds(*idx, items.len()))
             }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx))) => {
+            (StrictVal::List(items) | StrictVal::Set(items), Step::Index(idx)) => {
                 Ok(&items[*idx as usize])
             }
-            (StrictVal::Map(items), Some(Step::Key(idx))) => items
+            (StrictVal::Map(items), Step::Key(idx)) => items
                 .iter()
                 .find(|(key, _)| idx.has_match(key))
                 .map(|(_, val)| val)
                 .ok_or(PathError::UnknownKey(idx.clone())),
 
-            (_, Some(step)) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
+            (_, step) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
         }
     }
 }
-- 
2.43.0


From aa9670b7c8c9653934380ab8c7f16ed6b3da1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:57 +0000
Subject: [PATCH 25/31] fix: convert non-negative TOML integers into unsigned
 numbers

---
 src/value/convert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value/convert.rs b/src/value/convert.rs
index 72d13d6..ada5c3b 100644
--- a/src/value/convert.rs
+++ b/src/value/convert.rs
@@ -75,7 +75,10 @@ impl From<toml::Value> for StrictVal {
         use toml::Value;
 
         match toml {
-            Value::Integer(no) => StrictVal::num(no),
+            Value::Integer(no) => match u64::try_from(no) {
+                Ok(no) => StrictVal::num(no),
+                Err(_) => StrictVal::num(no),
+            },
             Value::Float(_f) => todo!(),
             Value::Boolean(v) => StrictVal::bool(v),
             Value::String(s) => StrictVal::String(s),
-- 
2.43.0


From e47ee6d8feedadf1939287b9e0be75ad9809f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 26/31] fix: place pre-release and build parts of a version as
 semver defines

---
 src/util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 64d32d5..57c765b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -174,11 +174,11 @@ impl Display for SemVer {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
 
-        if !self.build.is_empty() {
+        if !self.pre.is_empty() {
             f.write_str("-")?;
         }
-        let mut len = self.build.len();
-        for item in &self.build {
+        let mut len = self.pre.len();
+        for item in &self.pre {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
@@ -186,11 +186,11 @@ impl Display for SemVer {
             }
         }
 
-        if !self.pre.is_empty() {
+        if !self.build.is_empty() {
             f.write_str("+")?;
         }
-        let mut len = self.pre.len();
-        for item in &self.pre {
+        let mut len = self.build.len();
+        for item in &self.build {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
-- 
2.43.0


From 47df6aed178717b48934894497ef8c055fb982d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 27/31] fix: display strings with quotes and composite map keys
 unambiguously

---
 src/value/ston.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/value/ston.rs b/src/value/ston.rs
index d4fd844..0dc593f 100644
--- a/src/value/ston.rs
+++ b/src/value/ston.rs
@@ -54,7 +54,9 @@ impl Display for StrictVal {
         match self {
             StrictVal::Unit => f.write_str("(,)"),
             StrictVal::Number(n) => Display::fmt(n, f),
-            StrictVal::String(s) => write!(f, r#""{s}""#),
+            StrictVal::String(s) => {
+                write!(f, r#""{}""#, s.replace('\\', "\\\\").replace('"', "\\\""))
+            }
             StrictVal::Bytes(blob) => write!(f, "0x{}", blob.to_hex()),
             StrictVal::Tuple(fields) => {
                 let mut iter = fields.iter();
@@ -146,7 +148,14 @@ impl Display for StrictVal {
                 let mut iter = items.iter();
                 f.write_str("{")?;
                 while let Some((fname, fval)) = iter.next() {
-                    write!(f, "{fname} -> ")?;
+                    if fname.needs_parenthesis() {
+                        f.write_str("(")?;
+                    }
+                    Display::fmt(fname, f)?;
+                    if fname.needs_parenthesis() {
+                        f.write_str(")")?;
+                    }
+                    f.write_str(" -> ")?;
                     if fval.needs_parenthesis() {
                         f.write_str("(")?;
                     }
-- 
2.43.0


From 07a5c8cad28d723369646822396d0158723d8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 28/31] fix: typify sets, maps and pairs which text formats do
 not distinguish from lists and unions

---
 src/value/typify.rs | 53 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 6b296ba..a93689b 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -143,6 +143,31 @@ impl PrimitiveValue for Primitive {
     }
 }
 
+impl EnumTag {
+    /// Value which text formats represent in the same way as the tag.
+    fn into_item(self) -> StrictVal {
+        match self {
+            EnumTag::Name(name) => StrictVal::String(name.to_string()),
+            EnumTag::Ord(ord) => StrictVal::num(ord),
+        }
+    }
+}
+
+impl StrictVal {
+    /// Takes apart a value which text formats represent as a pair.
+    fn into_pair(self) -> Result<(StrictVal, StrictVal), StrictVal> {
+        match self {
+            StrictVal::Union(tag, second) => Ok((tag.into_item(), *second)),
+            StrictVal::List(mut items) | StrictVal::Tuple(mut items) if items.len() == 2 => {
+                let second = items.pop().expect("two elements");
+                let first = items.pop().expect("two elements");
+                Ok((first, second))
+            }
+            value => Err(value),
+        }
+    }
+}
+
 impl SymbolicSys {
     pub fn typify(&self, val: StrictVal, spec: impl Into<TypeSpec>) -> Result<TypedVal, Error> {
         let spec = spec.into();
@@ -262,6 +287,34 @@ impl TypeSystem {
                 return self.typify(StrictVal::Number(num), sem_id);
             }
 
+            // Text formats do not distinguish sets and maps from lists, and pairs from unions:
+            (StrictVal::Union(tag, second), Ty::Array(..) | Ty::List(..) | Ty::Set(..)) => {
+                let pair = vec![tag.into_item(), *second];
+                return self.typify(StrictVal::List(pair), sem_id);
+            }
+            (StrictVal::Union(tag, second), Ty::Tuple(fields)) if fields.len() == 2 => {
+                let pair = vec![tag.into_item(), *second];
+                return self.typify(StrictVal::List(pair), sem_id);
+            }
+            (StrictVal::List(items), Ty::Set(..)) => {
+                return self.typify(StrictVal::Set(items), sem_id);
+            }
+            (StrictVal::List(items), Ty::Map(..)) => {
+                let mut map = Vec::with_capacity(items.len());
+                for item in items {
+                    match item.into_pair() {
+                        Ok(pair) => map.push(pair),
+                        Err(value) => {
+                            return Err(Error::TypeMismatch {
+                                value,
+                                expected: ty.clone(),
+                            });
+                        }
+                    }
+                }
+                return self.typify(StrictVal::Map(map), sem_id);
+            }
+
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
                 if id.is_byte() && s.len() != *len as usize =>
-- 
2.43.0


From 6c377ae93a7abc20fa8dd6176448d97c0a8d20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 29/31] fix: reject structures and enumerations with repeated
 names when decoding

---
 src/ast/encoding.rs | 30 +++++++++++++++++++++++++++---
 src/ast/ty.rs       |  4 ++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index 311f898..c44ff88 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -21,17 +21,18 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::io;
 
-use amplify::confinement::TinyOrdMap;
+use amplify::confinement::{NonEmptyOrdSet, NonEmptyVec, TinyOrdMap};
+use amplify::Wrapper;
 use encoding::VariantName;
 use strict_encoding::{
     DecodeError, StrictDecode, StrictDumb, StrictEncode, StrictType, TypedRead, TypedWrite,
     Variant, STRICT_TYPES_LIB,
 };
 
-use crate::ast::ty::UnionVariants;
+use crate::ast::ty::{EnumVariants, Field, NamedFields, UnionVariants};
 use crate::TypeRef;
 
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
@@ -72,3 +73,26 @@ impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
         UnionVariants::try_from(inner).map_err(DecodeError::from)
     }
 }
+
+impl StrictDecode for EnumVariants {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let inner = NonEmptyOrdSet::<Variant, { u8::MAX as usize }>::strict_decode(reader)?;
+        // The set is ordered by tags, and thus doesn't detect all of the repeated names
+        let mut names = BTreeSet::new();
+        if !inner.iter().all(|variant| names.insert(&variant.name)) {
+            return Err(DecodeError::RepeatedSetValue);
+        }
+        Ok(EnumVariants::from_inner(inner))
+    }
+}
+
+impl<Ref: TypeRef> StrictDecode for NamedFields<Ref> {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let inner = NonEmptyVec::<Field<Ref>, { u8::MAX as usize }>::strict_decode(reader)?;
+        let mut names = BTreeSet::new();
+        if !inner.iter().all(|field| names.insert(&field.name)) {
+            return Err(DecodeError::RepeatedMapValue);
+        }
+        Ok(NamedFields::from_inner(inner))
+    }
+}
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 9fd5263..a7a3456 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -365,7 +365,7 @@ where Ref: Display
 }
 
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = fields!("dumb" => Ref::strict_dumb()))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct NamedFields<Ref: TypeRef>(NonEmptyVec<Field<Ref>, { u8::MAX as usize }>);
@@ -641,7 +641,7 @@ where Ref: Display
 
 #[derive(Wrapper, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
 #[wrapper(Deref)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb"))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct EnumVariants(NonEmptyOrdSet<Variant, { u8::MAX as usize }>);
-- 
2.43.0


From 2f3c27e4e2118aac2a85449f49b1d8915bf3a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 30/31] fix: svtable macro refers to a missing constructor

---
 src/value/val.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/val.rs b/src/value/val.rs
index 92e06b9..c30eec5 100644
--- a/src/value/val.rs
+++ b/src/value/val.rs
@@ -169,7 +169,7 @@ macro_rules! svset {
 #[macro_export]
 macro_rules! svtable {
     ($val:expr) => {
-        $crate::StrictVal::table($val)
+        $crate::StrictVal::map($val)
     };
 }
 
-- 
2.43.0


From 8741f3cfd3735f122c3213cdb70f934b5ca33d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 31/31] fix: type systems larger than guaranteed are assembled

---
 src/typesys/symbols.rs  |  1 +
 src/typesys/type_sys.rs | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/typesys/symbols.rs b/src/typesys/symbols.rs
index 4b2e817..bc7769e 100644
--- a/src/typesys/symbols.rs
+++ b/src/typesys/symbols.rs
@@ -135,6 +135,7 @@ impl SymbolicSys {
                 sym.update_unchecked(sem_id, None)?;
             }
         }
+        sys.check_size()?;
         for symbol in symbols {
             sym.update_unchecked(symbol.id, symbol.fqn)?;
         }
diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index c13193c..be20937 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -28,7 +28,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::{self, Display, Formatter};
 use std::ops::Index;
 
-use amplify::confinement::{self, Confined, MediumOrdMap};
+use amplify::confinement::{self, Confined, MediumOrdMap, U24 as U24MAX};
 use amplify::num::u24;
 use encoding::{LibName, Sizing, StrictDeserialize, StrictSerialize, TypeName};
 use strict_encoding::STRICT_TYPES_LIB;
@@ -134,8 +134,26 @@ impl TypeSystem {
 
     pub fn get(&self, sem_id: SemId) -> Option<&Ty<SemId>> { self.0.get(&sem_id) }
 
+    /// Checks that the strict-serialized size is within the limit guaranteed by the type.
+    pub(super) fn check_size(&self) -> Result<(), confinement::Error> {
+        let len = self
+            .strict_serialized_len::<{ usize::MAX }>()
+            .expect("counting of bytes doesn't fail");
+        if len > U24MAX {
+            return Err(confinement::Error::Oversize {
+                len,
+                max_len: U24MAX,
+            });
+        }
+        Ok(())
+    }
+
     pub fn extend(&mut self, other: Self) -> Result<(), confinement::Error> {
-        self.0.extend(other.0)
+        let mut extended = self.clone();
+        extended.0.extend(other.0)?;
+        extended.check_size()?;
+        *self = extended;
+        Ok(())
     }
 
     pub fn extract(&self, ids: impl IntoIterator<Item = SemId>) -> Result<Self, UnknownType> {
-- 
2.43.0

