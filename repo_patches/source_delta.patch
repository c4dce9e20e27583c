From e50805c75e3fb6f579e29c8aa8a913d3de81dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 01/23] fix: skip a varint field of any length

Skipping went through `u8`, whose decoder overflows its shift on the third byte
of a longer varint; `bool` only looks for the end of the varint.
---
 steit/src/de/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..8a9e135 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -43,7 +43,7 @@ impl<R: io::Read> Reader<R> {
     pub fn skip_field(&mut self, wire_type: WireType) -> io::Result<()> {
         match wire_type {
             WireType::Varint => {
-                u8::deserialize(self)?;
+                bool::deserialize(self)?;
             }
 
             WireType::Sized => {
-- 
2.43.0


From b68761a0af7ad90081196ce9b569549e6e52248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 02/23] fix: report a truncated skipped field and do not
 allocate its claimed length

The claimed length was reserved up front, so a short input could request an
arbitrary amount of memory, and a payload cut short was accepted silently.
---
 steit/src/de/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 8a9e135..c034dbc 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -48,8 +48,14 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
-                self.by_ref().take(size).read_to_end(&mut buf)?;
+                let skipped = io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
+
+                if skipped < size {
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        "input ended within a skipped field",
+                    ));
+                }
             }
         }
 
-- 
2.43.0


From 67846ac80db06e8294b110d5ad043ebfedf2c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 03/23] fix: reject a varint that is too long for its type

Decoding more bytes than the type can hold shifted by at least its width, which
panics (or wraps the shift in release builds).
---
 steit/src/impls/varint.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..e2a979a 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -49,6 +49,13 @@ macro_rules! impl_unsigned_varint {
                     let mut offset = 0;
 
                     loop {
+                        if offset >= ::std::mem::size_of::<$type>() << 3 {
+                            return Err(::std::io::Error::new(
+                                ::std::io::ErrorKind::InvalidData,
+                                format!("varint is too long for `{}`", stringify!($type)),
+                            ));
+                        }
+
                         reader.read_exact(&mut buf)?;
                         value |= (buf[0] & 0x7f) as $type << offset;
 
-- 
2.43.0


From 8243224a869bb4fcde08c8dd9f252307490bdf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 04/23] fix: report a nested value that is shorter than its
 length prefix

---
 steit/src/de/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/de.rs b/steit/src/de/de.rs
index 80ef6a4..7fecebb 100644
--- a/steit/src/de/de.rs
+++ b/steit/src/de/de.rs
@@ -24,7 +24,19 @@ pub trait Deserialize: Default + HasWireType {
 
         match wire_type {
             WireType::Varint => self.merge(reader),
-            WireType::Sized => self.merge(&mut reader.nested()?),
+            WireType::Sized => {
+                let mut nested = reader.nested()?;
+                self.merge(&mut nested)?;
+
+                if nested.into_inner().limit() > 0 {
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        "input ended within a nested value",
+                    ));
+                }
+
+                Ok(())
+            }
         }
     }
 
-- 
2.43.0


From 30c88e6db5a1b19c2455cae417ffddce51664262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 05/23] fix: attach a value inserted into a map under its key

Like `List::push`, so that later changes to the value are logged under the map.
---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..d21dce6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From fd743d2d8d6e8dac85f4ca4ff1c02482db21813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 06/23] fix: do not log the removal of a key that is not in the
 map

Nothing changes, and replaying such an entry fails.
---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index d21dce6..4f8cb24 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From 7e962f2b50169c4076d9bf16747b28a0976d5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 07/23] fix: skip map entries of a different wire type

The wire type in the tag was ignored and the entry decoded as if it had the
type of the values.
---
 steit/src/types/map/map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 4f8cb24..0a0de60 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -190,10 +190,15 @@ impl<K: MapKey, V: State> Deserialize for Map<K, V> {
     fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
         while !reader.eof()? {
             let field_number = u32::deserialize(reader)?;
-            let (field_number, _) = wire_fmt::parse_tag(field_number)?;
+            let (field_number, wire_type) = wire_fmt::parse_tag(field_number)?;
             wire_fmt::validate_field_number(field_number)?;
             K::try_from_field_number(field_number)?;
 
+            if wire_type != V::WIRE_TYPE {
+                reader.skip_field(wire_type)?;
+                continue;
+            }
+
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.merge_nested(V::WIRE_TYPE, reader)?;
             } else {
-- 
2.43.0


From 56e12b241b73030abad87bb81dd135e90a62151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 08/23] fix: reject a replayed map key outside the range of the
 key type

As `merge` does; iterating over such a key panics.
---
 steit/src/types/map/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 0a0de60..6b0a1ae 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -240,6 +240,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From 34943a57ab6843a9d343b9aa281e0ff8afd623c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 09/23] fix: attach the item moved by `List::swap_remove` under
 its new index

The runtime of an enum item is that of its current variant, whose sibling is
another variant of the removed item and not another item of the list.
---
 steit/src/types/list.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..c62e5e0 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,8 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
-            swapped.set_runtime(runtime);
+            swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
         Some(removed)
-- 
2.43.0


From 12b6c021c3cd74b2bf36193929589e61b4c949c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 10/23] fix: forward `is_root` and `handle_update` of a boxed
 state

The defaults are wrong for enums, so a boxed root enum could not be replayed.
---
 steit/src/impls/box.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..177a7d4 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -47,6 +47,14 @@ impl<T: State> State for Box<T> {
         self.as_mut().set_runtime(runtime)
     }
 
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
+    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+        self.as_mut().handle_update(reader)
+    }
+
     fn handle(
         &mut self,
         path: impl Iterator<Item = u32>,
-- 
2.43.0


From e6b3d5da47057263d0ff5ec2982df1c58b70f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 11/23] fix: return the error of the final write of a generated
 file

Dropping a `BufWriter` ignores it.
---
 steit/src/gen/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steit/src/gen/generator.rs b/steit/src/gen/generator.rs
index 13072d0..1e2bcda 100644
--- a/steit/src/gen/generator.rs
+++ b/steit/src/gen/generator.rs
@@ -54,6 +54,7 @@ pub trait Generator {
             let mut writer = io::BufWriter::new(file);
 
             writer.write_all(source.as_bytes())?;
+            writer.flush()?;
             generated_names.push(name);
         }
 
-- 
2.43.0


From 9b95ebf51c26f728357155fdea34dc588ec787ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 12/23] fix: link the message of a boxed type

The link of the box carried the type of its content, which was thereby taken as
visited before the content's own links were followed.
---
 steit/src/impls/box.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 177a7d4..850d17d 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -74,11 +74,7 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 07d35aa28a2f7f44eece3362b66106a9bd3a9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 13/23] fix: attach a `Maybe` and its value under the path of
 its variant

Like every other state enum; its parent was taken for its own place in the tree.
---
 steit/src/types/maybe.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..3be6450 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -21,15 +21,18 @@ pub enum Maybe<T: State> {
 
 impl<T: State> Maybe<T> {
     pub fn some(runtime: Runtime, value: T) -> Self {
-        Maybe::Some {
+        let mut maybe = Maybe::Some {
             value,
             size_cache: SizeCache::new(),
-            runtime,
-        }
+            runtime: runtime.clone(),
+        };
+
+        maybe.set_runtime(runtime);
+        maybe
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Self::with_runtime(runtime)
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From 66d691b49552744ba1a6af3ead98516660d220ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 14/23] fix: generate a boxed primitive field as its content

Its C# type is that of the content, but it was given the wire type and the
methods of a state.
---
 steit/src/gen/generators/csharp.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..52fa884 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -139,7 +139,7 @@ impl Generator for CSharpGenerator {
 
         // Initiate nested states
         for field in &fields {
-            let init = match field.meta.ty {
+            let init = match unboxed(field.meta.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => Some(format!(
                     "new {}(this.Path.GetNested({}))",
@@ -245,7 +245,7 @@ impl Generator for CSharpGenerator {
 
         // Return wire types
         for field in r#struct.fields {
-            let wire_type = match field.ty {
+            let wire_type = match unboxed(field.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, wire_type)) => match wire_type {
                     WireType::Varint => "WireType.Varint".to_string(),
                     WireType::Sized => "WireType.Sized".to_string(),
@@ -274,7 +274,7 @@ impl Generator for CSharpGenerator {
 
         // Return nested states
         for field in &fields {
-            let nested = match field.meta.ty {
+            let nested = match unboxed(field.meta.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => {
                     Some(format!("this.{}", field.upper_camel_case_name))
@@ -300,7 +300,7 @@ impl Generator for CSharpGenerator {
 
         // Replace fields and notify event handlers
         for field in &fields {
-            match field.meta.ty {
+            match unboxed(field.meta.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => {
                     writer.writeln(format!(
                         "case {0}: this.{1} = this.MaybeNotify({0}, reader.Read{2}(), this.{1}, On{1}Update, shouldNotify); break;",
@@ -621,6 +621,17 @@ fn type_params(type_params: &'static [&'static str]) -> String {
     format!("<{}>", type_params.join(", "))
 }
 
+/// The type of a boxed field is that of its content, on the wire and in C# alike.
+fn unboxed(ty: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
+    match ty {
+        FieldTypeMeta::Type(TypeMeta::Ref(name, [inner])) if name.csharp == Some("Box") => {
+            unboxed(inner)
+        }
+
+        _ => ty,
+    }
+}
+
 fn field_type(ty: &'static FieldTypeMeta) -> String {
     match *ty {
         FieldTypeMeta::Type(ty) => match ty {
-- 
2.43.0


From 0765f0e413eba91d3db60574a8911f6abe7c98b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 15/23] fix: keep the value type of a map whose key type is not
 listed

The metadata of `Map` itself, used for aliases, only has the value type.
---
 steit/src/gen/generators/csharp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 52fa884..fc1ffd3 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -655,7 +655,7 @@ fn field_type(ty: &'static FieldTypeMeta) -> String {
                 }
 
                 // A hack to shadow the first type argument of `Map`
-                if &type_name == "StateMap" {
+                if &type_name == "StateMap" && type_args.len() > 1 {
                     type_args.remove(0);
                 }
 
-- 
2.43.0


From 3e1998e80720e1aaa0a8d6e8905803bf0dfd2d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 16/23] fix: decode signed integers whose zigzag form uses the
 top bit

The zigzag form was converted to the signed type before shifting it right,
so its top bit was taken for a sign: 64i8 was read back as -64, and every
value outside half of a type's range came back wrong.
---
 steit/src/impls/varint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index e2a979a..5b41bed 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -94,8 +94,8 @@ macro_rules! impl_signed_varint {
                 (value << 1) ^ (value >> ((std::mem::size_of::<$type>() << 3) - 1))
             }
 
-            fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+            fn decode(value: $unsigned_type) -> $type {
+                (value >> 1) as $type ^ -((value & 1) as $type)
             }
 
             fn compute_size(value: &$type) -> u32 {
@@ -118,7 +118,7 @@ macro_rules! impl_signed_varint {
                     &mut self,
                     reader: &mut $crate::de::Reader<impl ::std::io::Read>,
                 ) -> ::std::io::Result<()> {
-                    let encoded = <$unsigned_type>::deserialize(reader)? as $type;
+                    let encoded = <$unsigned_type>::deserialize(reader)?;
                     *self = decode(encoded);
                     Ok(())
                 }
-- 
2.43.0


From 41eed8eaee1116387f14a78f0f265fc3023f914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 17/23] fix: decode large signed integers in the C# reader

The same shift as in the Rust decoder: the top bit of the zigzag form of a
64-bit integer was taken for a sign.
---
 steit-csharp/src/Codec/Reader.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-csharp/src/Codec/Reader.cs b/steit-csharp/src/Codec/Reader.cs
index d068dab..2b0e87a 100644
--- a/steit-csharp/src/Codec/Reader.cs
+++ b/steit-csharp/src/Codec/Reader.cs
@@ -38,8 +38,8 @@ namespace Steit.Codec {
         }
 
         public static long ReadSignedVarint(this IReader reader) {
-            long value = (long) reader.ReadUnsignedVarint();
-            return (value >> 1) ^ -(value & 1);
+            ulong value = reader.ReadUnsignedVarint();
+            return (long) (value >> 1) ^ -(long) (value & 1);
         }
 
         public static Byte ReadByte(this IReader reader) { return (Byte) reader.ReadUnsignedVarint(); }
-- 
2.43.0


From d5d847b6172b597b8f41f77115bacf81666580f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 18/23] fix: attach the items collected into a list or map

---
 steit/src/types/list.rs    | 7 +++++--
 steit/src/types/map/map.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index c62e5e0..b3ce7b3 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -130,10 +130,13 @@ impl<T: State> ops::IndexMut<usize> for List<T> {
 
 impl<T: State> FromIterator<T> for List<T> {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        Self {
+        let mut list = Self {
             items: iter.into_iter().collect(),
             ..Default::default()
-        }
+        };
+
+        list.set_runtime(list.runtime.clone());
+        list
     }
 }
 
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 6b0a1ae..212c155 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -127,7 +127,7 @@ impl<K: MapKey, V: State> Default for Map<K, V> {
 
 impl<K: MapKey, V: State> FromIterator<(K, V)> for Map<K, V> {
     fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
-        Self {
+        let mut map = Self {
             entries: iter
                 .into_iter()
                 .map(|(key, value)| {
@@ -136,7 +136,10 @@ impl<K: MapKey, V: State> FromIterator<(K, V)> for Map<K, V> {
                 })
                 .collect(),
             ..Default::default()
-        }
+        };
+
+        map.set_runtime(map.runtime.clone());
+        map
     }
 }
 
-- 
2.43.0


From 7e38c0aaad31f14cc2396590825ed3bbde1158e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 19/23] fix: refuse map keys that cannot be encoded

---
 steit/src/types/map/map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 212c155..89767b8 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -60,6 +60,7 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        wire_fmt::validate_field_number(field_number).unwrap();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
@@ -132,6 +133,7 @@ impl<K: MapKey, V: State> FromIterator<(K, V)> for Map<K, V> {
                 .into_iter()
                 .map(|(key, value)| {
                     let key = key.as_field_number();
+                    wire_fmt::validate_field_number(key).unwrap();
                     (key, value)
                 })
                 .collect(),
-- 
2.43.0


From f28c34a2bae53c297138546d891a39b80c736fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 20/23] fix: generate factories of a generic enum's variants
 with its type parameters

---
 steit-csharp/src/Builtins/Maybe.cs | 4 ++--
 steit/src/gen/generators/csharp.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/steit-csharp/src/Builtins/Maybe.cs b/steit-csharp/src/Builtins/Maybe.cs
index ca38583..693a424 100644
--- a/steit-csharp/src/Builtins/Maybe.cs
+++ b/steit-csharp/src/Builtins/Maybe.cs
@@ -33,8 +33,8 @@ namespace Steit.Builtins {
             }
         }
 
-        public static Maybe NewNone(Path path = null) { return new Maybe(path, 0); }
-        public static Maybe NewSome(Path path = null) { return new Maybe(path, 1); }
+        public static Maybe<T> NewNone(Path path = null) { return new Maybe<T>(path, 0); }
+        public static Maybe<T> NewSome(Path path = null) { return new Maybe<T>(path, 1); }
 
         public static event EventHandler<VariantUpdateEventArgs<Maybe<T>>> OnUpdate;
 
diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index fc1ffd3..501f7d8 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -475,7 +475,7 @@ impl Generator for CSharpGenerator {
         for variant in &variants {
             writer.writeln(format!(
                 "public static {0} New{1}(Path path = null) {{ return new {0}(path, {2}); }}",
-                name, variant.upper_camel_case_name, variant.meta.tag,
+                type_name, variant.upper_camel_case_name, variant.meta.tag,
             ));
         }
 
-- 
2.43.0


From 5034d91dd140a690c1eec163e876e5a0a3a3b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 21/23] fix: comparing enum variants with fields named x and
 other_x mixed up their bindings

---
 steit-derive/src/derive/enum.rs   |  2 +-
 steit-derive/src/derive/field.rs  |  4 ++--
 steit-derive/src/derive/struct.rs | 18 +++++++++++++++++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index b56da2b..c41b35d 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -134,7 +134,7 @@ impl<'a> Enum<'a> {
             let qual = variant.qual();
 
             let destructure = r#struct.destructure();
-            let other_destructure = r#struct.destructure_prefixed(format_ident!("other"));
+            let other_destructure = r#struct.destructure_prefixed(r#struct.other());
             let eq = r#struct.eq();
 
             quote! {
diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f2f0bce..4dc0d5e 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -337,10 +337,10 @@ impl<'a> DeriveField<'a> {
         }
     }
 
-    pub fn eq(&self, is_variant: bool) -> Option<TokenStream> {
+    pub fn eq(&self, other: syn::Ident, is_variant: bool) -> Option<TokenStream> {
         if !self.attrs.no_eq_hash {
             let field = self.field(is_variant);
-            let other_field = self.field_other(format_ident!("other"), is_variant);
+            let other_field = self.field_other(other, is_variant);
 
             Some(quote! {
                 if #field != #other_field {
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index d7e6297..09b7991 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -237,9 +237,25 @@ impl<'a> Struct<'a> {
         )
     }
 
+    /// Names the other operand, or prefixes its bindings in a variant, where no binding of a field
+    /// of `self` can be shadowed.
+    pub fn other(&self) -> syn::Ident {
+        let mut other = "other".to_string();
+
+        if self.variant.is_some() {
+            while map_fields!(self, _.alias().to_string())
+                .any(|alias| alias.starts_with(&format!("{}_", other)))
+            {
+                other.insert(0, '_');
+            }
+        }
+
+        format_ident!("{}", other)
+    }
+
     pub fn eq(&self) -> TokenStream {
         let is_variant = self.variant.is_some();
-        let eqs = map_fields!(self, _.eq(is_variant));
+        let eqs = map_fields!(self, _.eq(self.other(), is_variant));
 
         quote! {
             #(#eqs)*
-- 
2.43.0


From 7281437f9ca00cd3bfc8f8fd04aa8f94e3fab609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 22/23] fix: C# client skipped text fields whose type is a type
 parameter

---
 steit-csharp/src/Builtins/Maybe.cs     | 2 +-
 steit-csharp/src/State/StateFactory.cs | 4 ++++
 steit/src/gen/generators/csharp.rs     | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/steit-csharp/src/Builtins/Maybe.cs b/steit-csharp/src/Builtins/Maybe.cs
index 693a424..819fc9f 100644
--- a/steit-csharp/src/Builtins/Maybe.cs
+++ b/steit-csharp/src/Builtins/Maybe.cs
@@ -166,7 +166,7 @@ namespace Steit.Builtins {
 
             public WireType? GetWireType(UInt32 tag) {
                 switch (tag) {
-                    case 0: return StateFactory.IsStateType(typeof(T)) ? WireType.Sized : WireType.Varint;
+                    case 0: return StateFactory.IsSizedType(typeof(T)) ? WireType.Sized : WireType.Varint;
                     default: return null;
                 }
             }
diff --git a/steit-csharp/src/State/StateFactory.cs b/steit-csharp/src/State/StateFactory.cs
index 64ebb8d..d2f4278 100644
--- a/steit-csharp/src/State/StateFactory.cs
+++ b/steit-csharp/src/State/StateFactory.cs
@@ -37,6 +37,10 @@ namespace Steit.State {
             return typeof(IState).IsAssignableFrom(type);
         }
 
+        public static bool IsSizedType(Type type) {
+            return IsStateType(type) || IsSized[type.FullName];
+        }
+
         public static void ValidateType(Type type) {
             if (!IsStateType(type) && !IsPrimitiveType(type)) {
                 throw new InvalidOperationException(String.Format("{0} is expected to be a primitive or an IState type.", type.FullName));
diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 501f7d8..be279e1 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -254,7 +254,7 @@ impl Generator for CSharpGenerator {
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => "WireType.Sized".to_string(),
 
                 FieldTypeMeta::TypeParam(type_param) => format!(
-                    "StateFactory.IsStateType(typeof({})) ? WireType.Sized : WireType.Varint",
+                    "StateFactory.IsSizedType(typeof({})) ? WireType.Sized : WireType.Varint",
                     type_param,
                 ),
             };
-- 
2.43.0


From b8cb70a9360420d1e7aee268d6be0d48e18085d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 23/23] fix: the local of the generated C# Deserialize could be
 a keyword or the name of a parameter

---
 steit-csharp/src/Builtins/Maybe.cs | 18 +++++++++---------
 steit-csharp/src/State/LogEntry.cs | 30 +++++++++++++++---------------
 steit/src/gen/generators/csharp.rs | 20 ++++++--------------
 steit/src/gen/str_util.rs          | 12 ------------
 4 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/steit-csharp/src/Builtins/Maybe.cs b/steit-csharp/src/Builtins/Maybe.cs
index 819fc9f..8cfba9c 100644
--- a/steit-csharp/src/Builtins/Maybe.cs
+++ b/steit-csharp/src/Builtins/Maybe.cs
@@ -43,9 +43,9 @@ namespace Steit.Builtins {
         }
 
         public static Maybe<T> Deserialize(IReader reader, Path path = null) {
-            var maybe = new Maybe<T>(path);
-            maybe.Replace(reader, shouldNotify: false);
-            return maybe;
+            var state = new Maybe<T>(path);
+            state.Replace(reader, shouldNotify: false);
+            return state;
         }
 
         public WireType? GetWireType(UInt32 tag) {
@@ -94,9 +94,9 @@ namespace Steit.Builtins {
             public static void ClearUpdateHandlers() { }
 
             internal static None Deserialize(IReader reader, Path path = null) {
-                var none = new None(path);
-                none.Replace(reader, shouldNotify: false);
-                return none;
+                var state = new None(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -159,9 +159,9 @@ namespace Steit.Builtins {
             }
 
             internal static Some Deserialize(IReader reader, Path path = null) {
-                var some = new Some(path);
-                some.Replace(reader, shouldNotify: false);
-                return some;
+                var state = new Some(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
diff --git a/steit-csharp/src/State/LogEntry.cs b/steit-csharp/src/State/LogEntry.cs
index 782278e..7616414 100644
--- a/steit-csharp/src/State/LogEntry.cs
+++ b/steit-csharp/src/State/LogEntry.cs
@@ -50,9 +50,9 @@ namespace Steit.State {
         }
 
         public static LogEntry Deserialize(IReader reader, Path path = null) {
-            var logEntry = new LogEntry(path);
-            logEntry.Replace(reader, shouldNotify: false);
-            return logEntry;
+            var state = new LogEntry(path);
+            state.Replace(reader, shouldNotify: false);
+            return state;
         }
 
         public WireType? GetWireType(UInt32 tag) {
@@ -119,9 +119,9 @@ namespace Steit.State {
             }
 
             internal static Update Deserialize(IReader reader, Path path = null) {
-                var update = new Update(path);
-                update.Replace(reader, shouldNotify: false);
-                return update;
+                var state = new Update(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -194,9 +194,9 @@ namespace Steit.State {
             }
 
             internal static ListPush Deserialize(IReader reader, Path path = null) {
-                var listPush = new ListPush(path);
-                listPush.Replace(reader, shouldNotify: false);
-                return listPush;
+                var state = new ListPush(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -265,9 +265,9 @@ namespace Steit.State {
             }
 
             internal static ListPop Deserialize(IReader reader, Path path = null) {
-                var listPop = new ListPop(path);
-                listPop.Replace(reader, shouldNotify: false);
-                return listPop;
+                var state = new ListPop(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -336,9 +336,9 @@ namespace Steit.State {
             }
 
             internal static MapRemove Deserialize(IReader reader, Path path = null) {
-                var mapRemove = new MapRemove(path);
-                mapRemove.Replace(reader, shouldNotify: false);
-                return mapRemove;
+                var state = new MapRemove(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index be279e1..58d07f4 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -75,7 +75,6 @@ impl Generator for CSharpGenerator {
         writer: &mut Writer,
     ) {
         let name = r#struct.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
 
         let type_name = if !is_variant {
             format!("{}{}", &name, type_params(r#struct.type_params))
@@ -231,12 +230,9 @@ impl Generator for CSharpGenerator {
                 "{} static {} Deserialize(IReader reader, Path path = null) {{",
                 variant_accessibility, type_name,
             ))
-            .indent_writeln(format!("var {} = new {}(path);", var_name, type_name))
-            .writeln(format!(
-                "{}.Replace(reader, shouldNotify: false);",
-                var_name
-            ))
-            .writeln(format!("return {};", var_name))
+            .indent_writeln(format!("var state = new {}(path);", type_name))
+            .writeln("state.Replace(reader, shouldNotify: false);")
+            .writeln("return state;")
             .outdent_writeln("}")
             .newline()
             .writeln("public WireType? GetWireType(UInt32 tag) {")
@@ -373,7 +369,6 @@ impl Generator for CSharpGenerator {
 
     fn gen_enum(&self, r#enum: &EnumMeta, setting: &Self::Setting, writer: &mut Writer) {
         let name = r#enum.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
         let type_name = format!("{}{}", &name, type_params(r#enum.type_params));
 
         let variants: Vec<_> = r#enum
@@ -496,12 +491,9 @@ impl Generator for CSharpGenerator {
                 "public static {} Deserialize(IReader reader, Path path = null) {{",
                 type_name,
             ))
-            .indent_writeln(format!("var {} = new {}(path);", var_name, type_name))
-            .writeln(format!(
-                "{}.Replace(reader, shouldNotify: false);",
-                var_name
-            ))
-            .writeln(format!("return {};", var_name))
+            .indent_writeln(format!("var state = new {}(path);", type_name))
+            .writeln("state.Replace(reader, shouldNotify: false);")
+            .writeln("return state;")
             .outdent_writeln("}")
             .newline()
             .writeln("public WireType? GetWireType(UInt32 tag) {")
diff --git a/steit/src/gen/str_util.rs b/steit/src/gen/str_util.rs
index d07273a..6600cea 100644
--- a/steit/src/gen/str_util.rs
+++ b/steit/src/gen/str_util.rs
@@ -1,15 +1,3 @@
-pub fn uncap_first_char(s: impl AsRef<str>) -> String {
-    let mut chars = s.as_ref().chars();
-    let mut out = String::new();
-
-    if let Some(c) = chars.next() {
-        out.extend(c.to_lowercase());
-    }
-
-    out.extend(chars);
-    out
-}
-
 pub fn to_camel_case(s: impl AsRef<str>, mut upper: bool) -> String {
     let mut out = String::new();
 
-- 
2.43.0

