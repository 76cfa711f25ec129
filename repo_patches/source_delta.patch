From 31846cb6a68b0226aeaeb52657423314331ce301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 01/64] fix: rust render: decode optional enum fields by their
 full path and repetition

An optional field of an enum defined in a group was decoded through the
bare enum name, and an optional array of enums through the type of one
item, so the generated code did not compile.
---
 cli/src/protocol/render/rust/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..f3aad76 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -97,7 +97,11 @@ impl RustRender {
         for field in &strct.fields {
             if field.optional {
                 if let Some(id) = field.ref_type_id {
-                    if let Some(enums) = store.get_enum(id) {
+                    if store.get_enum(id).is_some() {
+                        let mut kind = self.get_type_ref(field);
+                        if field.repeated {
+                            kind = format!("Vec::<{}>", kind);
+                        }
                         body = format!(
                             "{}{}if let Some(buf) = storage.get({}) {{\n",
                             body,
@@ -112,7 +116,7 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, enums.name, field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, kind, field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
-- 
2.43.0


From a7b57e0c68f4d411825fec75a6ea7ba894db1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 02/64] fix: rust render: accept enum values with an empty
 payload

An empty string, array or field-less struct as the value of an enum
variant has no payload bytes; the generated extract() refused it.
---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index f3aad76..45d6d5f 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -308,7 +308,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From 7c7ca2082aaaceed59242138cdb18b3228ee29de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 03/64] fix: rust storage: refuse truncated properties instead
 of panicking

The id, rank, size and body of a property were read without checking that
the bytes are there, so malformed incoming data panicked the receiver or
made it allocate the declared (arbitrary) size.
---
 .../render/rust/static/protocol.storage.rs       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..0311f4b 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -49,6 +49,9 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if buf.len() - pos < sizes::U16_LEN {
+            return Err("Buffer is too small to get property id".to_string());
+        }
         let id = cursor.get_u16_le();
         Ok((id, pos + sizes::U16_LEN))
     }
@@ -60,7 +63,13 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U8_LEN {
+            return Err("Buffer is too small to get rank of property size".to_string());
+        }
         let prop_body_len_rank = cursor.get_u8();
+        if cursor.remaining() < usize::from(prop_body_len_rank / 8) {
+            return Err("Buffer is too small to get property size".to_string());
+        }
         let prop_body_len_usize: usize;
         let prop_rank_len: usize = 1;
         let prop_size_len: usize;
@@ -101,6 +110,13 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
+        if prop_body_len_usize > cursor.remaining() {
+            return Err(format!(
+                "Property size is {} bytes, but only {} bytes are available",
+                prop_body_len_usize,
+                cursor.remaining()
+            ));
+        }
         let mut prop_body_buf = vec![0; prop_body_len_usize];
         prop_body_buf.copy_from_slice(
             &buf[(pos + prop_rank_len + prop_size_len)
-- 
2.43.0


From f00aa45a68f7e04182fab5e39a47dcd9a5330674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 04/64] fix: rust packing: do not overflow on the declared body
 size

A header declaring a body close to u64::MAX overflowed the addition of the
header size: a panic in debug builds, an out-of-range slice in release.
---
 cli/src/protocol/render/rust/static/protocol.packing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..e50ac2a 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -98,7 +98,7 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
 }
 
 pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
-    buf.len() >= header.len_usize + MSG_HEADER_LEN
+    buf.len() >= MSG_HEADER_LEN && buf.len() - MSG_HEADER_LEN >= header.len_usize
 }
 
 pub fn get_body_from_buffer(
@@ -106,8 +106,8 @@ pub fn get_body_from_buffer(
     header: &PackageHeader,
     uuid: Option<String>,
 ) -> Result<(Vec<u8>, Vec<u8>), String> {
-    if buf.len() < header.len_usize + MSG_HEADER_LEN {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len() - MSG_HEADER_LEN));
+    if !has_buffer_body(buf, header) {
+        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len().saturating_sub(MSG_HEADER_LEN)));
     }
     // Get body
     let mut body = vec![0; header.len_usize];
-- 
2.43.0


From f18391ca8990ce07953a2629cfd8465ff73469f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 05/64] fix: rust decode: do not overflow on the declared size
 of array items

An array item declaring a size close to u64::MAX overflowed the addition
of its prefix: a panic in debug builds, an out-of-range slice in release.
---
 cli/src/protocol/render/rust/static/protocol.decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..a0422b7 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -570,7 +570,7 @@ impl Decode<Vec<String>> for Vec<String> {
                     return Err(format!("To extract length of string (u32) value from array buffer should have length at least {} bytes, but length is {}", sizes::U32_LEN, buf.len()));
                 }
                 let item_len: u32 = cursor.get_u32_le();
-                if buffer.len() < sizes::U32_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U32_LEN) as u64) < u64::from(item_len) {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U32_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
-- 
2.43.0


From c764138bc5c7a4a7c83d08c5767714dd14ef7508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 06/64] fix: rust buffer: read the packages of a chunk in a
 loop

Buffer::chunk called itself once per package, so a chunk with many small
packages overflowed the stack of the receiver.
---
 .../render/rust/static/protocol.buffer.rs     | 47 ++++++++-----------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.buffer.rs b/cli/src/protocol/render/rust/static/protocol.buffer.rs
index 8e81a28..d81a234 100644
--- a/cli/src/protocol/render/rust/static/protocol.buffer.rs
+++ b/cli/src/protocol/render/rust/static/protocol.buffer.rs
@@ -61,37 +61,28 @@ where
     pub fn chunk(&mut self, buf: &Vec<u8>, uuid: Option<String>) -> Result<(), ReadError> {
         // Add data into buffer
         self.buffer.append(&mut buf.clone());
-        if !has_buffer_header(&self.buffer) {
-            return Ok(());
-        }
-        // Get header
-        let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Header(e));
-            }
-        };
-        if !has_buffer_body(&self.buffer, &header) {
-            return Ok(());
-        }
-        let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Parsing(e));
-            }
-        };
-        self.buffer = rest;
-        match Self::get_message(self, &header, &body) {
-            Ok(msg) => {
-                self.queue.push(IncomeMessage { header, msg });
-                if !self.buffer.is_empty() {
-                    self.chunk(&vec![], uuid)
-                } else {
-                    Ok(())
+        while has_buffer_header(&self.buffer) {
+            // Get header
+            let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
+                Ok(v) => v,
+                Err(e) => {
+                    return Err(ReadError::Header(e));
                 }
+            };
+            if !has_buffer_body(&self.buffer, &header) {
+                return Ok(());
             }
-            Err(e) => Err(e),
+            let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
+                Ok(v) => v,
+                Err(e) => {
+                    return Err(ReadError::Parsing(e));
+                }
+            };
+            self.buffer = rest;
+            let msg = Self::get_message(self, &header, &body)?;
+            self.queue.push(IncomeMessage { header, msg });
         }
+        Ok(())
     }
 
     #[allow(clippy::should_implement_trait)]
-- 
2.43.0


From 1cab133f955b5d237dc986b955526e6102f84841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 07/64] fix: rust storage: keep present but empty optional
 values apart from None

Some(""), Some(vec![]) and Some(struct without fields) were written with a
64-bit size of 0 and None with an 8-bit one, but both were read as None.
---
 cli/src/protocol/render/rust/mod.rs           |  9 ++++++--
 .../render/rust/static/protocol.decode.rs     |  6 +++++-
 .../render/rust/static/protocol.storage.rs    | 21 ++++++++++++++++---
 .../render/rust/static/protocol.uses.rs       |  2 +-
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 45d6d5f..988d3aa 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -103,12 +103,17 @@ impl RustRender {
                             kind = format!("Vec::<{}>", kind);
                         }
                         body = format!(
-                            "{}{}if let Some(buf) = storage.get({}) {{\n",
+                            "{}{}if storage.get({}).is_some() {{\n",
                             body,
                             self.spaces(level + 2),
                             field.id
                         );
-                        body = format!("{}{}if buf.is_empty() {{\n", body, self.spaces(level + 3));
+                        body = format!(
+                            "{}{}if storage.is_none({}) {{\n",
+                            body,
+                            self.spaces(level + 3),
+                            field.id
+                        );
                         body = format!(
                             "{}{}self.{} = None;\n",
                             body,
diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index a0422b7..f6e738a 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -642,8 +642,12 @@ where
     T: Decode<T>,
 {
     fn get_from_storage(source: Source, id: Option<u16>) -> Result<Option<T>, String> {
+        let none = match (&source, id) {
+            (Source::Storage(storage), Some(id)) => storage.is_none(id),
+            _ => false,
+        };
         if let Ok(buf) = Self::get_buf_from_source(source, id) {
-            if buf.is_empty() {
+            if none {
                 Ok(None)
             } else {
                 match T::get_from_storage(Source::Buffer(buf), id) {
diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 0311f4b..ca7d444 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -1,6 +1,6 @@
 use super::sizes;
 use bytes::Buf;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
 use std::io::Cursor;
 
@@ -8,12 +8,17 @@ use std::io::Cursor;
 #[derive(Debug, Clone)]
 pub struct Storage {
     map: HashMap<u16, Vec<u8>>,
+    // Properties without value (None): size of rank 8 equal to 0
+    nones: HashSet<u16>,
 }
 
 #[allow(dead_code)]
 impl Storage {
     pub fn from(map: HashMap<u16, Vec<u8>>) -> Self {
-        Storage { map }
+        Storage {
+            map,
+            nones: HashSet::new(),
+        }
     }
 
     pub fn new(buf: Vec<u8>) -> Result<Self, String> {
@@ -23,10 +28,16 @@ impl Storage {
         */
         let mut position: usize = 0;
         let mut map: HashMap<u16, Vec<u8>> = HashMap::new();
+        let mut nones: HashSet<u16> = HashSet::new();
         if !buf.is_empty() {
             loop {
                 match Storage::next(&buf, position) {
                     Ok((id, body, pos)) => {
+                        if body.is_empty() && buf[position + sizes::U16_LEN] == 8 {
+                            nones.insert(id);
+                        } else {
+                            nones.remove(&id);
+                        }
                         position = pos;
                         map.insert(id, body);
                         if pos == buf.len() {
@@ -39,7 +50,7 @@ impl Storage {
                 }
             }
         }
-        Ok(Storage { map })
+        Ok(Storage { map, nones })
     }
 
     fn id(buf: &[u8], pos: usize) -> Result<(u16, usize), String> {
@@ -141,4 +152,8 @@ impl Storage {
     pub fn get(&mut self, id: u16) -> Option<&Vec<u8>> {
         self.map.get(&id)
     }
+
+    pub fn is_none(&self, id: u16) -> bool {
+        self.nones.contains(&id)
+    }
 }
diff --git a/cli/src/protocol/render/rust/static/protocol.uses.rs b/cli/src/protocol/render/rust/static/protocol.uses.rs
index 074d2d2..93ca29a 100644
--- a/cli/src/protocol/render/rust/static/protocol.uses.rs
+++ b/cli/src/protocol/render/rust/static/protocol.uses.rs
@@ -5,6 +5,6 @@
 #![allow(dead_code)]
 use std::convert::TryFrom;
 use std::io::Cursor;
-use std::collections::{ HashMap };
+use std::collections::{ HashMap, HashSet };
 use bytes::{ Buf };
 use std::time::{ SystemTime, UNIX_EPOCH };
-- 
2.43.0


From eb463afec21bc1fdf30df428cfd831390a78e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 08/64] fix: typescript render: resolve validators of referred
 structs on use

The scheme of a struct called getValidator() of the structs it refers to
while its own class was being defined, and by the bare name for variants of
enums; a reference to a struct of a group threw when the module was loaded.
---
 cli/src/protocol/render/typescript/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index e052e23..fbd6d46 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1056,7 +1056,7 @@ impl TypescriptRender {
         if let Some(entity_id) = field.ref_type_id {
             if let Some(strct) = store.get_struct(entity_id) {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: {} }},",
+                    "{}\n{}{{ prop: '{}', types: {{ validate(value: any): Error | undefined {{ return {}.getValidator({}).validate(value); }} }}, optional: {} }},",
                     body,
                     self.spaces(level),
                     field.name,
@@ -1075,7 +1075,7 @@ impl TypescriptRender {
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
                         if let Some(strct) = store.get_struct(struct_id) {
-                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, strct.name, if variant.repeated { "true" } else { "false" });
+                            body = format!("{}\n{}{{ prop: '{}', types: {{ validate(value: any): Error | undefined {{ return {}.getValidator({}).validate(value); }} }}, optional: false }},", body, self.spaces(level + 1), variant.name, store.get_struct_path(strct.id).join("."), if variant.repeated { "true" } else { "false" });
                         } else {
                             stop!("Nested enums aren't supported.");
                         }
-- 
2.43.0


From 69b785d8b3ed77f3bdeab4c73e1ce7590b275bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 09/64] fix: typescript render: refer to enums and array items
 by their full path

A field of an enum defined in a group, and an array of structs defined in
a group, were rendered with the bare name of the type.
---
 cli/src/protocol/render/typescript/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index fbd6d46..b795203 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -416,14 +416,14 @@ impl TypescriptRender {
         body = format!("{}{}}});", body, self.spaces(level + 1));
         for field in &strct.fields {
             if let Some(ref_type_id) = field.ref_type_id {
-                if let Some(enums) = store.get_enum(ref_type_id) {
+                if store.get_enum(ref_type_id).is_some() {
                     // -------
                     body = format!(
                         "{}\n{}this._{} = new {}()",
                         body,
                         self.spaces(level + 1),
                         field.name,
-                        enums.name,
+                        store.get_enum_path(ref_type_id).join("."),
                     );
                     body = format!(
                         "{}\n{}{}this._{}.set(this.{});",
@@ -1159,7 +1159,7 @@ impl TypescriptRender {
                         store.get_struct_path(strct.id).join("."),
                         store.get_struct_path(strct.id).join(".")
                     );
-                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, strct.name, field.id, field.name, field.name);
+                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, store.get_struct_path(strct.id).join("."), field.id, field.name, field.name);
                     body = format!(
                         "{}\n{}if (arr{} instanceof Error) {{",
                         body,
@@ -1344,7 +1344,8 @@ impl TypescriptRender {
             };
             if let Some(strct) = store.get_struct(entity_id) {
                 if field.repeated {
-                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, strct.name, strct.name, strct.name, field.id, field.name);
+                    let path = store.get_struct_path(strct.id).join(".");
+                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, path, path, path, field.id, field.name);
                 } else {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
@@ -1430,8 +1431,12 @@ impl TypescriptRender {
                 if let Some(ref_type_id) = field.ref_type_id {
                     if store.get_struct(ref_type_id).is_some() {
                         store.get_struct_path(ref_type_id).join(".")
-                    } else if let Some(enums) = store.get_enum(ref_type_id) {
-                        format!("I{}", enums.name)
+                    } else if store.get_enum(ref_type_id).is_some() {
+                        let mut path = store.get_enum_path(ref_type_id);
+                        if let Some(name) = path.last_mut() {
+                            *name = format!("I{}", name);
+                        }
+                        path.join(".")
                     } else {
                         stop!(
                             "Fail to find a struct/enum id: {} for field {}",
-- 
2.43.0


From 3f346d8367e0b22461f5c90e0bd1db44a7b4e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 10/64] fix: typescript storage: read all 16 bits of a property
 id

Only the low byte was read, so properties with ids above 255 were lost or
taken for other ones.
---
 .../render/typescript/static/protocol.convertor.storage.ts      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index cc74a1e..2b81038 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -37,7 +37,7 @@ export class Storage {
 
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
-			return buffer.readUInt8(position);
+			return buffer.readUInt16LE(position);
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From 66d5ac6fb1571de2308a39716ec1ec7caa213e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 11/64] fix: typescript reader: skip packages which cannot be
 read

A package with another signature was reported but kept in the buffer, so
chunk() never returned; an unknown message id or a body which cannot be
parsed threw out of chunk() and left the package in the buffer.
---
 .../protocol/render/typescript/static/packing.ts   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/packing.ts b/cli/src/protocol/render/typescript/static/packing.ts
index a15edf5..a6e0ca4 100644
--- a/cli/src/protocol/render/typescript/static/packing.ts
+++ b/cli/src/protocol/render/typescript/static/packing.ts
@@ -77,17 +77,23 @@ export abstract class BufferReader<T> {
 				if (body instanceof Error) {
 					errors.push(body);
 				} else {
-					const msg = this.getMessage(header, body);
+					const msg: T | Error = (() => {
+						try {
+							return this.getMessage(header, body);
+						} catch (err) {
+							return err instanceof Error
+								? err
+								: new Error(`Unknown error: ${err}`);
+						}
+					})();
 					if (msg instanceof Error) {
 						errors.push(msg);
 					} else {
 						this._queue.push(msg);
 					}
 				}
-				this._buffer = this._buffer.slice(
-					MessageHeader.SIZE + header.len
-				);
 			}
+			this._buffer = this._buffer.slice(MessageHeader.SIZE + header.len);
 		} while (true);
 		return errors.length > 0 ? errors : undefined;
 	}
-- 
2.43.0


From 8c8d9e3985a79122613fa3f6d2ccd814fd1ee309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 12/64] fix: typescript strings: keep a leading U+FEFF

TextDecoder drops a byte order mark unless told otherwise, so a string
starting with U+FEFF came back without it.
---
 .../render/typescript/static/protocol.primitives.string.utf8.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
index f4f167d..4253f92 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
@@ -17,7 +17,7 @@ export class StrUTF8 extends Primitive<string> {
     }
 
     public static decode(bytes: ArrayBufferLike): string | Error {
-        const decoder = new TextDecoder();
+        const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
         return decoder.decode(bytes);
     }
 
-- 
2.43.0


From e39173d77301de881def85a428c0fb6333e87380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 13/64] fix: typescript decode: refuse truncated properties and
 array items

The body of a property or array item was cut to the bytes available, so a
truncated package was delivered as a valid message with other content.
---
 .../render/typescript/static/protocol.convertor.storage.ts | 7 +++++++
 .../render/typescript/static/protocol.convertor.ts         | 7 ++++++-
 .../static/protocol.primitives.array.string.utf8.ts        | 5 ++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index 2b81038..59cfcd9 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -105,6 +105,13 @@ export class Storage {
 					position += Primitives.u64.getSize();
 					break;
 			}
+			if (Number(length) > buffer.byteLength - position) {
+				return new Error(
+					`Property size is ${length} bytes, but only ${
+						buffer.byteLength - position
+					} bytes are available.`
+				);
+			}
 			const body = buffer.slice(position, position + Number(length));
 			position += Number(length);
 			return { id, body, position };
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
index a20a8d7..c13d91d 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
@@ -177,8 +177,13 @@ export abstract class Convertor<T> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(
+					`Invalid size marker of ${this.getSignature()}/${this.getId()} in an array`
+				);
+			}
 			const len = buffer.readBigUInt64LE(offset);
-			if (isNaN(Number(len)) || !isFinite(Number(len))) {
+			if (Number(len) > buffer.byteLength - offset - u64.getSize()) {
 				return new Error(
 					`Invalid length of ${this.getSignature()}/${this.getId()} in an array`
 				);
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
index 497bcc3..73b5ef2 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
@@ -61,8 +61,11 @@ export class ArrayStrUTF8 extends Primitive<string[]> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u32.getSize()) {
+				return new Error(`Invalid size marker of string in an array`);
+			}
 			const len = buffer.readUInt32LE(offset);
-			if (isNaN(len) || !isFinite(len)) {
+			if (len > buffer.byteLength - offset - u32.getSize()) {
 				return new Error(`Invalid length of string in an array`);
 			}
 			offset += u32.getSize();
-- 
2.43.0


From 9488857f8887f69d69054b212c0d41b134b650cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 14/64] fix: typescript storage: keep present but empty
 optional values apart from undefined

An empty string, array or struct without fields was written with a 64-bit
size of 0 and undefined with an 8-bit one, but both were read as undefined.
---
 cli/src/protocol/render/typescript/mod.rs         |  4 ++--
 .../static/protocol.convertor.storage.ts          | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index b795203..ab729b4 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1123,10 +1123,10 @@ impl TypescriptRender {
             );
             body = format!("{}\n{}}}", body, self.spaces(level));
             body = format!(
-                "{}\n{}if ({}Buf.byteLength === 0) {{",
+                "{}\n{}if (storage.isNone({})) {{",
                 body,
                 self.spaces(level),
-                field.name
+                field.id
             );
             body = format!(
                 "{}\n{}this.{} = undefined;",
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index 59cfcd9..731df11 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -6,11 +6,14 @@ import { ESize } from "./protocol.sizes";
 interface INext {
 	id: number;
 	body: ArrayBufferLike;
+	none: boolean;
 	position: number;
 }
 
 export class Storage {
 	private _fields: Map<number, ArrayBufferLike> = new Map();
+	// Properties without value (undefined): size of rank 8 equal to 0
+	private _nones: Set<number> = new Set();
 
 	public read(bytes: ArrayBufferLike): Error | undefined {
 		const buffer = Buffer.from(bytes);
@@ -28,6 +31,11 @@ export class Storage {
 			}
 			position = field.position;
 			this._fields.set(field.id, field.body);
+			if (field.none) {
+				this._nones.add(field.id);
+			} else {
+				this._nones.delete(field.id);
+			}
 		} while (true);
 	}
 
@@ -35,6 +43,10 @@ export class Storage {
 		return this._fields.get(id);
 	}
 
+	public isNone(id: number): boolean {
+		return this._nones.has(id);
+	}
+
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
 			return buffer.readUInt16LE(position);
@@ -114,7 +126,8 @@ export class Storage {
 			}
 			const body = buffer.slice(position, position + Number(length));
 			position += Number(length);
-			return { id, body, position };
+			const none = rank === ESize.u8 && Number(length) === 0;
+			return { id, body, none, position };
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From 71509342a396f5a50e3934c7ca0a4e56dcc0b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 15/64] fix: protocol parser: refuse a source which ends inside
 of a definition

---
 cli/src/protocol/parser.rs | 6 ++++++
 cli/src/protocol/store.rs  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..5a7baed 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,12 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.is_opened() || !is_in(&expectation, &EExpectation::StructDef) {
+                                errs.push(format!(
+                                    "Unexpecting end of file: {:?}",
+                                    expectation
+                                ));
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..1b2ac78 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -371,6 +371,10 @@ impl Store {
         self.c_field.is_some()
     }
 
+    pub fn is_opened(&self) -> bool {
+        self.c_group.is_some() || self.c_struct.is_some() || self.c_enum.is_some()
+    }
+
     pub fn open(&mut self) {
         if self.c_group.is_none() && self.c_struct.is_none() && self.c_enum.is_none() {
             stop!("No created struct or enum");
-- 
2.43.0


From 7a18791e5870e912428b108f98c18a6594ac1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 16/64] fix: protocol parser: refuse unpaired square brackets

---
 cli/src/protocol/parser.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 5a7baed..623d299 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -319,6 +319,7 @@ impl Parser {
     fn next(&mut self, content: String) -> Result<ENext, ENextErr> {
         let mut str: String = String::new();
         let mut pass: usize = 0;
+        let mut bracket: bool = false;
         let break_chars: Vec<char> = vec![
             chars::SEMICOLON,
             chars::OPEN,
@@ -342,6 +343,12 @@ impl Parser {
             if char.is_ascii_whitespace() && str.is_empty() {
                 continue;
             }
+            if bracket != (char == chars::CLOSE_SQ_BRACKET) {
+                return Err(ENextErr::NotSupported(format!(
+                    "found not supportable char: {}",
+                    char
+                )));
+            }
             let mut breakable: Option<char> = None;
             if break_chars.iter().any(|&c| c == char) {
                 breakable = Some(char);
@@ -363,20 +370,11 @@ impl Parser {
                         if !str.is_empty() {
                             breakable = Some(char);
                         } else {
+                            bracket = true;
                             continue;
                         }
                     }
-                    chars::CLOSE_SQ_BRACKET => {
-                        if let Some(c) = str.chars().next() {
-                            if c != '[' {
-                                return Err(ENextErr::NotSupported(format!(
-                                    "found not supportable char: {}",
-                                    char
-                                )));
-                            }
-                        }
-                        return Ok(ENext::Repeated(pass));
-                    }
+                    chars::CLOSE_SQ_BRACKET => return Ok(ENext::Repeated(pass)),
                     _ => {}
                 };
             }
-- 
2.43.0


From b9d087ee2117c1194de48c53df5d4c06233591ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 17/64] fix: protocol parser: accept whitespace between a
 simple enum item and its semicolon

---
 cli/src/protocol/parser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 623d299..5245bad 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -20,7 +20,7 @@ use types::PrimitiveTypes;
 
 #[derive(Debug, Clone)]
 enum ENext {
-    Word((String, usize, Option<char>)),
+    Word((String, usize)),
     OpenStruct(usize),
     CloseStruct(usize),
     Semicolon(usize),
@@ -85,8 +85,11 @@ impl Parser {
                 Ok(enext) => {
                     self.prev = Some(enext.clone());
                     let offset: usize = match enext {
-                        ENext::Word((word, offset, next_char)) => {
-                            let next_char: char = if let Some(c) = next_char { c } else { '.' };
+                        ENext::Word((word, offset)) => {
+                            let next_char: char = content[offset..]
+                                .chars()
+                                .find(|c| !c.is_ascii_whitespace())
+                                .unwrap_or('.');
                             if Entities::get_entity(&word).is_some()
                                 && (is_in(&expectation, &EExpectation::GroupDef)
                                     || is_in(&expectation, &EExpectation::StructDef)
@@ -379,7 +382,7 @@ impl Parser {
                 };
             }
             if char.is_ascii_whitespace() || breakable.is_some() {
-                return Ok(ENext::Word((str, pass - 1, breakable)));
+                return Ok(ENext::Word((str, pass - 1)));
             }
             let allowed: bool = allowed_chars.iter().any(|&c| c == char);
             if !char.is_ascii_alphanumeric() && !allowed {
@@ -393,7 +396,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass - 1)))
         }
     }
 
-- 
2.43.0


From 0765bb4320dff790a992cbd77e64f4ec7ad1630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 18/64] fix: protocol store: find types by a path through the
 group being parsed

---
 cli/src/protocol/store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b2ac78..29b59a6 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -229,6 +229,7 @@ impl Store {
             } else if let Some(group_ref) = self
                 .groups
                 .iter()
+                .chain(self.c_group.iter())
                 .find(|i| i.name == *type_str && i.parent == parent)
             {
                 results.push((String::from(type_str), group_ref.id));
-- 
2.43.0


From 1bc3a4c9abde7919ee5d54aabf67d1cedc929083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 19/64] fix: rust render: refer to top level types past groups
 with a type of the same name

---
 cli/src/protocol/enums.rs           |  5 +++
 cli/src/protocol/fields.rs          |  9 ++++++
 cli/src/protocol/render/rust/mod.rs | 47 +++++++++++------------------
 3 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/cli/src/protocol/enums.rs b/cli/src/protocol/enums.rs
index e756585..6d41895 100644
--- a/cli/src/protocol/enums.rs
+++ b/cli/src/protocol/enums.rs
@@ -8,6 +8,7 @@ pub struct EnumItem {
     pub ref_type_path: Vec<usize>,
     pub repeated: bool,
     pub type_path: Vec<String>,
+    pub root_distance: usize,
 }
 
 impl EnumItem {
@@ -28,6 +29,7 @@ impl EnumItem {
                 path
             } else if let Some(path) = store.find_by_path(0, &self.type_path) {
                 // Has been found in root group
+                self.root_distance = store.get_path_by_parent(own_group_id).len();
                 path
             } else {
                 stop!("Fail to find type: {}", self.type_path.join("."));
@@ -104,6 +106,7 @@ impl Enum {
                 ref_type_path: vec![],
                 repeated: false,
                 type_path: vec![],
+                root_distance: 0,
             });
         }
     }
@@ -128,6 +131,7 @@ impl Enum {
             ref_type_path: vec![],
             repeated: false,
             type_path: vec![],
+            root_distance: 0,
         });
         self.set_name(value.to_string());
     }
@@ -141,6 +145,7 @@ impl Enum {
                 ref_type_path: vec![],
                 repeated: false,
                 type_path: vec![],
+                root_distance: 0,
             });
         }
         if let Some(current) = self.current.as_mut() {
diff --git a/cli/src/protocol/fields.rs b/cli/src/protocol/fields.rs
index e99c12b..4e95c29 100644
--- a/cli/src/protocol/fields.rs
+++ b/cli/src/protocol/fields.rs
@@ -18,6 +18,7 @@ pub struct Field {
     pub repeated: bool,
     pub optional: bool,
     type_path: Vec<String>,
+    root_distance: usize,
 }
 
 impl Field {
@@ -33,6 +34,7 @@ impl Field {
             repeated: false,
             optional: false,
             type_path: vec![],
+            root_distance: 0,
         }
     }
 
@@ -57,6 +59,7 @@ impl Field {
             repeated: false,
             optional,
             type_path: vec![kind],
+            root_distance: 0,
         }
     }
 
@@ -92,6 +95,11 @@ impl Field {
         self.type_path.clone()
     }
 
+    /// Count of groups between the field and the top level, if its type is given from there
+    pub fn get_root_distance(&self) -> usize {
+        self.root_distance
+    }
+
     pub fn get_path(&self) -> Vec<String> {
         (self.type_path[0..self.type_path.len() - 1]).to_vec()
     }
@@ -109,6 +117,7 @@ impl Field {
                 path
             } else if let Some(path) = store.find_by_path(0, &self.type_path) {
                 // Has been found in root group
+                self.root_distance = store.get_path_by_parent(own_group_id).len();
                 path
             } else {
                 stop!("Fail to find type: {}", self.type_path.join("."));
diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 988d3aa..b9efd95 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -84,7 +84,7 @@ impl RustRender {
                 "{}{}{}\n",
                 body,
                 self.spaces(level + 3),
-                self.field_default(field, &mut store.clone(), level + 3)
+                self.field_default(field, &mut store.clone())
             );
         }
         body = format!("{}{}}}\n", body, self.spaces(level + 2));
@@ -476,40 +476,25 @@ impl RustRender {
             }
             .to_string();
         } else {
-            item.get_full_name()
+            format!(
+                "{}{}",
+                "super::".repeat(item.root_distance),
+                item.get_full_name()
+            )
         }
     }
 
-    fn entity_default(&self, entity_id: usize, store: &mut Store, level: u8) -> String {
-        if let Some(strct) = store.get_struct(entity_id) {
-            let path = if !strct.path.is_empty() {
-                format!("{}::", strct.path.join("::"))
-            } else {
-                String::new()
-            };
-            let mut body = format!("{}{} {{\n", path, strct.name);
-            for field in &strct.fields {
-                body = format!(
-                    "{}{}{}\n",
-                    body,
-                    self.spaces(level),
-                    self.field_default(field, &mut store.clone(), level)
-                );
-            }
-            format!("{}{}}}", body, self.spaces(level - 1))
-        } else if let Some(enums) = store.get_enum(entity_id) {
-            let path = if !enums.path.is_empty() {
-                format!("{}::", enums.path.join("::"))
-            } else {
-                String::new()
-            };
-            format!("{}{}::Defaults", path, enums.name)
+    fn entity_default(&self, entity_id: usize, field: &Field, store: &mut Store) -> String {
+        if store.get_struct(entity_id).is_some() {
+            format!("{}::defaults()", self.get_type_ref(field))
+        } else if store.get_enum(entity_id).is_some() {
+            format!("{}::Defaults", self.get_type_ref(field))
         } else {
             panic!("Fail to find a struct/enum id: {}", entity_id);
         }
     }
 
-    fn field_default(&self, field: &Field, store: &mut Store, level: u8) -> String {
+    fn field_default(&self, field: &Field, store: &mut Store) -> String {
         let mut body = format!("{}: ", field.name);
         if field.repeated && !field.optional {
             body = format!("{}vec![],", body);
@@ -521,7 +506,7 @@ impl RustRender {
             body = format!(
                 "{}{},",
                 body,
-                self.entity_default(struct_id, store, level + 1)
+                self.entity_default(struct_id, field, store)
             );
         }
         body
@@ -583,7 +568,11 @@ impl RustRender {
             "str" => String::from("String"),
             _ => {
                 if let Some(_ref_type_id) = field.ref_type_id {
-                    field.get_full_name().join("::")
+                    format!(
+                        "{}{}",
+                        "super::".repeat(field.get_root_distance()),
+                        field.get_full_name().join("::")
+                    )
                 } else {
                     panic!("Invalid type definition for field {}", field.name);
                 }
-- 
2.43.0


From af201153cd62e60db75b0bec6ec3c9733a56684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 20/64] fix: protocol parser: refuse an open square bracket at
 the end of a source

---
 cli/src/protocol/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 5245bad..557d244 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -393,7 +393,11 @@ impl Parser {
             }
             str.push(char);
         }
-        if str.is_empty() {
+        if bracket {
+            Err(ENextErr::NotSupported(String::from(
+                "square bracket isn't closed",
+            )))
+        } else if str.is_empty() {
             Ok(ENext::End())
         } else {
             Ok(ENext::Word((str, pass - 1)))
-- 
2.43.0


From 4e1e5d991686136280892c992104f66f19145dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 21/64] fix: rust producer: check the state of a consumer
 before every message of a chunk

---
 .../workflow/render/producer/rust/render_mod.rs  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..1ad9076 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -417,11 +417,7 @@ pub mod producer {
                 .await?;
                 return Ok(());
             } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
+                consumer.get_messages()
             }
         } else {
             responsing_err(
@@ -444,6 +440,10 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer was discredited by a previous message
+                return Ok(());
+            }
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
@@ -582,7 +582,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !has_key {
+                    } else if !consumer.get_identification().has_key() {
                         warn!(
                             target: logs::targets::PRODUCER,
                             "consumer {} tries to send data, but it doesn't have a key", uuid
@@ -597,7 +597,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !assigned
+                    } else if !consumer.get_identification().assigned()
                         && options.producer_indentification_strategy
                             != ProducerIdentificationStrategy::Ignore
                     {
-- 
2.43.0


From c130ddcfa9f553586c62d29785f2347a08379a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 22/64] fix: rust producer: a repeated connection event doesn't
 stop the producer

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 1ad9076..7aca3db 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -248,8 +248,17 @@ pub mod producer {
             target: logs::targets::PRODUCER,
             "new consumer connection: {}", uuid,
         );
-        if consumers.contains_key(&uuid) {
-            return Err(ProducerError::FailToAddConsumer(uuid));
+        if let Some(consumer) = consumers.get(&uuid) {
+            emitters::error::emit::<E, C>(
+                ProducerError::FailToAddConsumer(uuid),
+                Some(uuid),
+                context,
+                Some(consumer.get_identification()),
+                control,
+            )
+            .await
+            .map_err(ProducerError::EventEmitterError)?;
+            return Ok(());
         }
         let filter = identification::Filter::new(consumers);
         let consumer = Consumer::new(uuid, options, tx_ident_change);
-- 
2.43.0


From 051ffcca6af1141f8f731c768676493661b3dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 23/64] fix: rust producer: a failure to reach one consumer
 doesn't stop the producer

---
 .../render/producer/rust/render_mod.rs        | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 7aca3db..4b54a60 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -333,7 +333,12 @@ pub mod producer {
             return Ok(());
         }
         consumer.get_mut_identification().discredited();
-        control.disconnect(uuid).await?;
+        if let Err(err) = control.disconnect(uuid).await {
+            warn!(
+                target: logs::targets::PRODUCER,
+                "fail to disconnect consumer {}: {}", uuid, err
+            );
+        }
         Ok(())
     }
 
@@ -815,14 +820,25 @@ pub mod producer {
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-                            control
+                            if let Err(err) = control
                                 .send(
                                     (protocol::InternalServiceGroup::ConnectConfirmationBeacon {})
                                         .pack(0, Some(uuid.to_string()))
                                         .map_err(|e| ProducerError::Protocol(uuid, e))?,
                                     Some(uuid),
                                 )
-                                .await?;
+                                .await
+                            {
+                                emitters::error::emit::<E, C>(
+                                    err,
+                                    Some(uuid),
+                                    &mut context,
+                                    Some(consumer.get_identification()),
+                                    &control,
+                                )
+                                .await
+                                .map_err(ProducerError::EventEmitterError)?;
+                            }
                         } else {
                             emitters::error::emit::<E, C>(
                                 ProducerError::ConsumerError(format!(
-- 
2.43.0


From 4b58b425ff435d7f7bdcef85c983cfa3b89695c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 24/64] fix: rust consumer: a late answer to an abandoned call
 doesn't end the session

---
 .../render/consumer/rust/render_consumer.rs   | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..b1c0c7e 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,12 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
-                            sequence
-                        ))
-                    })?;
+                    if response.send(msg).is_err() {
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "nobody waits for a response any more; sequence: {}", sequence
+                        );
+                    }
                     true
                 } else {
                     false
@@ -472,11 +472,12 @@ where
                 if sequence >= u32::MAX - 1 {
                     sequence = 10;
                 }
-                tx_response.send(sequence).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Sequence",
-                    ))
-                })?;
+                if tx_response.send(sequence).is_err() {
+                    warn!(
+                        target: logs::targets::CONSUMER,
+                        "nobody waits for a sequence any more"
+                    );
+                }
             }
             Channel::Shutdown(tx_response) => {
                 tx_shutdown.send(tx_response).await.map_err(|_| {
@@ -616,9 +617,12 @@ where
                     }
                 },
                 Auth::GetUuid(tx_response) => {
-                    tx_response.send(uuid).map_err(|_| {
-                        ConsumerError::APIChannel(String::from("Fail to response on uuid request"))
-                    })?;
+                    if tx_response.send(uuid).is_err() {
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "nobody waits for an uuid any more"
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0


From be4b1f7a834f5f405e110960444fac8a43ecb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 25/64] fix: rust consumer: don't take a broadcast for the
 answer to the self-key

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index b1c0c7e..cbe3fc9 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -641,8 +641,8 @@ where
     let mut key = options.key.clone();
     let response = api
         .request(
-            0,
-            &key.pack(0, None)
+            1,
+            &key.pack(1, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -679,9 +679,9 @@ where
     };
     let response = api
         .request(
-            1,
+            2,
             &hash
-                .pack(1, None)
+                .pack(2, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0


From 276c9af7899ca13fddf4ad1475c862feeb5571ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 26/64] fix: rust consumer: a beacon without a confirmation
 ends with a timeout

---
 .../render/consumer/rust/render_controller.rs     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_controller.rs b/cli/src/workflow/render/consumer/rust/render_controller.rs
index bb21849..d62a4cc 100644
--- a/cli/src/workflow/render/consumer/rust/render_controller.rs
+++ b/cli/src/workflow/render/consumer/rust/render_controller.rs
@@ -40,15 +40,18 @@ impl<E: client::Error> Consumer<E> {
 ) -> Result<(), ConsumerError<E>> {
     let sequence = self.api.sequence().await?;
     let uuid = self.api.uuid_as_string().await?;
-    let message = self
+    let package = beacon
+        .pack(sequence, uuid)
+        .map_err(ConsumerError::Protocol)?;
+    let message = select! {
+        message = self
         .api
         .request(
             sequence,
-            &beacon
-                .pack(sequence, uuid)
-                .map_err(ConsumerError::Protocol)?,
-    )
-    .await?;
+            &package,
+        ) => message,
+        _ = sleep(Duration::from_millis(self.timeout)) => Err(ConsumerError::Timeout)
+    }?;
     match message {        
         protocol::AvailableMessages::InternalServiceGroup(protocol::InternalServiceGroup::AvailableMessages::BeaconConfirmation(msg)) =>
             if let Some(err) = msg.error {
-- 
2.43.0


From 2f45c5fd6de480ece5b8719c0a2e25363f0b94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 27/64] fix: rust consumer: a connection that ends during the
 handshake doesn't prevent reconnection

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index cbe3fc9..6f533f0 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -612,6 +612,10 @@ where
                             .map_err(|e| ConsumerError::APIChannel(e.to_string()))?;
                     }
                     Err(err) => {
+                        if cancel.is_cancelled() {
+                            // the connection has ended before the handshake was over
+                            break;
+                        }
                         shortcuts::emit_error::<E>(err.clone(), &tx_consumer_event).await;
                         return Err(err);
                     }
-- 
2.43.0


From 0619de362a7f7e3875180d0af7854a54e744e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 28/64] fix: workflow: a source that ends with a word doesn't
 hang the generator

---
 cli/src/workflow/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..5ce475a 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -281,7 +281,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From e4360f9b93e6eff11f46a4a5b5a70cbb16dbaf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 29/64] fix: workflow: not ASCII chars in comments don't shift
 a position of parsing

---
 cli/src/workflow/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 5ce475a..0234d74 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -209,7 +209,8 @@ impl Parser {
         let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            // offset is used to slice a string, and should be in bytes
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
-- 
2.43.0


From c8e945f1d7ba4446626b6c7fffb40c16787265e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 30/64] fix: workflow: refuse a declaration, which isn't closed
 by the end of file

---
 cli/src/workflow/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 0234d74..7740e46 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,11 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(
+                                    self.err("Unexpected end of file: not all declarations are closed")
+                                );
+                            }
                             break;
                         }
                         _ => 0,
-- 
2.43.0


From b45ff150d33a12fa9dcb6ec358f41060426961d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 31/64] fix: workflow: accept requests with names, which
 include underscore

---
 cli/src/workflow/request.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index e3ab5c7..01bb243 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -1,4 +1,4 @@
-use super::{Broadcast, ENext, EntityOut, EntityParser, Protocol};
+use super::{chars, Broadcast, ENext, EntityOut, EntityParser, Protocol};
 
 #[derive(Debug, PartialEq, Clone)]
 enum EExpectation {
@@ -244,7 +244,10 @@ impl Request {
 
 impl EntityParser for Request {
     fn open(word: String) -> Option<Self> {
-        if word.chars().all(char::is_alphanumeric) {
+        if word
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == chars::UNDERLINE)
+        {
             Some(Self::new(word))
         } else {
             None
-- 
2.43.0


From b0b706ef56929b3e34687cc892b6bc42d4c54f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 32/64] fix: workflow: refuse words and dots, which are out of
 place

---
 cli/src/workflow/beacon.rs  | 16 +++++++++-------
 cli/src/workflow/config.rs  | 14 ++++----------
 cli/src/workflow/event.rs   | 19 +++++++++----------
 cli/src/workflow/request.rs | 37 +++++++++++++++----------------------
 4 files changed, 37 insertions(+), 49 deletions(-)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index b16be9a..9fa3e26 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -127,6 +127,12 @@ impl EntityParser for Beacons {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word \"{}\" isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Broadcast(path_to_struct) => {
                         /* USECASES:
@@ -145,11 +151,8 @@ impl EntityParser for Beacons {
                             if path_to_struct.is_empty() { "" } else { "." },
                             word
                         ));
-                        self.expectation = vec![
-                            EExpectation::Word,
-                            EExpectation::PathDelimiter,
-                            EExpectation::Semicolon,
-                        ];
+                        self.expectation =
+                            vec![EExpectation::PathDelimiter, EExpectation::Semicolon];
                     }
                     _ => {
                         return Err(format!("Unexpected word {}", word));
@@ -227,8 +230,7 @@ impl EntityParser for Beacons {
                             }
                             */
                             self.pending = Pending::Broadcast(String::new());
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index ef76d9c..0f5313a 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -350,11 +350,8 @@ impl EntityParser for Config {
                                 if path_to_struct.is_empty() { "" } else { "." },
                                 word
                             ));
-                            self.expectation = vec![
-                                EExpectation::Word,
-                                EExpectation::PathDelimiter,
-                                EExpectation::Semicolon,
-                            ];
+                            self.expectation =
+                                vec![EExpectation::PathDelimiter, EExpectation::Semicolon];
                         }
                         Pending::SelfKey(path_to_struct) => {
                             self.pending = Pending::SelfKey(format!(
@@ -363,11 +360,8 @@ impl EntityParser for Config {
                                 if path_to_struct.is_empty() { "" } else { "." },
                                 word
                             ));
-                            self.expectation = vec![
-                                EExpectation::Word,
-                                EExpectation::PathDelimiter,
-                                EExpectation::Semicolon,
-                            ];
+                            self.expectation =
+                                vec![EExpectation::PathDelimiter, EExpectation::Semicolon];
                         }
                     };
                     self.prev = Some(prev);
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index a9bd4be..6c6af7b 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -37,11 +37,7 @@ impl Event {
         Self {
             reference: None,
             broadcasts: vec![],
-            expectation: vec![
-                EExpectation::Word,
-                EExpectation::PathDelimiter,
-                EExpectation::Open,
-            ],
+            expectation: vec![EExpectation::PathDelimiter, EExpectation::Open],
             pending: Pending::Reference(reference),
             closed: false,
         }
@@ -104,7 +100,7 @@ impl Event {
 
 impl EntityParser for Event {
     fn open(word: String) -> Option<Self> {
-        if word.starts_with(chars::AT) {
+        if word.starts_with(chars::AT) && word.len() > 1 {
             Some(Self::new(word[1..word.len()].to_owned()))
         } else {
             None
@@ -148,6 +144,12 @@ impl EntityParser for Event {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word \"{}\" isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Reference(path_to_struct) => {
                         /* USECASES:
@@ -164,7 +166,6 @@ impl EntityParser for Event {
                             word
                         ));
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Open,
                             EExpectation::Semicolon,
@@ -191,7 +192,6 @@ impl EntityParser for Event {
                         );
                         self.pending = Pending::Broadcast(broadcast);
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Semicolon,
                             EExpectation::Question,
@@ -315,8 +315,7 @@ impl EntityParser for Event {
                             }
                             */
                             self.pending = Pending::Broadcast(Broadcast::new(String::new(), false));
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 01bb243..e2586ed 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -129,11 +129,7 @@ impl Request {
             error: None,
             actions: vec![],
             broadcasts: vec![],
-            expectation: vec![
-                EExpectation::Word,
-                EExpectation::PathDelimiter,
-                EExpectation::Exclamation,
-            ],
+            expectation: vec![EExpectation::PathDelimiter, EExpectation::Exclamation],
             pending: Pending::Request(request),
             closed: false,
         }
@@ -306,8 +302,16 @@ impl EntityParser for Request {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word \"{}\" isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
-                    Pending::Nothing => {}
+                    Pending::Nothing => {
+                        return Err(format!("Unexpected word {}", word));
+                    }
                     Pending::Request(path_to_struct) => {
                         self.pending = Pending::Request(format!(
                             "{}{}{}",
@@ -316,7 +320,6 @@ impl EntityParser for Request {
                             word
                         ));
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Semicolon,
                             EExpectation::Exclamation,
@@ -330,11 +333,8 @@ impl EntityParser for Request {
                             if path_to_struct.is_empty() { "" } else { "." },
                             word
                         ));
-                        self.expectation = vec![
-                            EExpectation::Word,
-                            EExpectation::PathDelimiter,
-                            EExpectation::Open,
-                        ];
+                        self.expectation =
+                            vec![EExpectation::PathDelimiter, EExpectation::Open];
                     }
                     Pending::Action(mut action) => {
                         if action.response.is_none() && action.conclusion.is_none() {
@@ -356,7 +356,6 @@ impl EntityParser for Request {
                             );
                             self.expectation = vec![
                                 EExpectation::PathDelimiter,
-                                EExpectation::Word,
                                 EExpectation::Arrow,
                                 EExpectation::CloseBracket,
                             ];
@@ -377,7 +376,6 @@ impl EntityParser for Request {
                             );
                             self.expectation = vec![
                                 EExpectation::PathDelimiter,
-                                EExpectation::Word,
                                 EExpectation::CloseBracket,
                             ];
                         } else if action.response.is_some() && action.conclusion.is_some() {
@@ -395,7 +393,6 @@ impl EntityParser for Request {
                             );
                             self.expectation = vec![
                                 EExpectation::PathDelimiter,
-                                EExpectation::Word,
                                 EExpectation::Semicolon,
                                 EExpectation::Question,
                             ];
@@ -411,11 +408,8 @@ impl EntityParser for Request {
                             if path_to_struct.is_empty() { "" } else { "." },
                             word
                         ));
-                        self.expectation = vec![
-                            EExpectation::Word,
-                            EExpectation::PathDelimiter,
-                            EExpectation::Semicolon,
-                        ];
+                        self.expectation =
+                            vec![EExpectation::PathDelimiter, EExpectation::Semicolon];
                     }
                 };
                 Ok(offset)
@@ -676,8 +670,7 @@ impl EntityParser for Request {
                             }
                             */
                             self.pending = Pending::Broadcast(String::new());
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         Pending::Action(mut action) => {
-- 
2.43.0


From d12cd83fd95b1c62ac1146676f406053adc0028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 33/64] fix: workflow: configuration cannot be closed in the
 middle of its option

---
 cli/src/workflow/config.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index 0f5313a..bec4fc8 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -437,7 +437,14 @@ impl EntityParser for Config {
                 }
             }
             ENext::Close(offset) => {
-                if let Err(e) = self.close(protocol) {
+                if !matches!(self.pending, Pending::Nothing)
+                    || !is_in(&self.expectation, &EExpectation::Word)
+                {
+                    Err(format!(
+                        "Symbol CLOSE isn't expected. Expectation: {:?}",
+                        self.expectation
+                    ))
+                } else if let Err(e) = self.close(protocol) {
                     Err(e)
                 } else {
                     Ok(offset)
-- 
2.43.0


From 7fc81a9b0c0c298e26450e8b58797de564081daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 34/64] fix: workflow: refuse a request without an error before
 anything is written

---
 cli/src/workflow/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index e2586ed..d1efe5e 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -149,9 +149,9 @@ impl Request {
             if protocol.find_by_str_path(0, error).is_none() {
                 return Err(format!("Error {} isn't defined in protocol", error));
             }
-        } else if !self.actions.is_empty() {
+        } else {
             return Err(String::from(
-                "As soon as request has actions, error usecase should be defined.",
+                "For request error usecase should be defined.",
             ));
         }
         for broadcast in self.broadcasts.iter() {
-- 
2.43.0


From 43902d17d12698f847a25eee9e1817eed07ac2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 35/64] fix: workflow: refuse chars @ and & inside of
 declarations

---
 cli/src/workflow/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 7740e46..a9cc6ac 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -104,6 +104,13 @@ impl Parser {
                                     return Err(self.err(&format!("Unknown keyword {}", word)));
                                 }
                                 offset
+                            } else if word.contains(chars::AT) || word.contains(chars::AMPERSAND) {
+                                return Err(self.err(&format!(
+                                    "Chars {} and {} can be used only at the begging of declaration. Issue: {}",
+                                    chars::AMPERSAND,
+                                    chars::AT,
+                                    word
+                                )));
                             } else {
                                 0
                             }
-- 
2.43.0


From e11de59a9998982ec7e23e65751d7df016068b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 36/64] fix: workflow: conclusions of a request should be
 different names

---
 cli/src/workflow/request.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index d1efe5e..de6d00c 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -162,7 +162,17 @@ impl Request {
                 ));
             }
         }
-        for action in self.actions.iter() {
+        for (n, action) in self.actions.iter().enumerate() {
+            if action.conclusion.is_some()
+                && self.actions[..n]
+                    .iter()
+                    .any(|a| a.conclusion == action.conclusion)
+            {
+                return Err(format!(
+                    "Conclusion {} is defined multiple times",
+                    action.get_conclusion()?
+                ));
+            }
             if action.conclusion.is_none() && self.actions.len() != 1 {
                 return Err(String::from("In case request has a multiple response, should be defined conclusion for each response"));
             }
@@ -686,6 +696,12 @@ impl EntityParser for Request {
                                     (Deny      > Message.Denied);
                                 }
                                 */
+                                if action.current.contains(chars::DOT) {
+                                    return Err(format!(
+                                        "Conclusion should be a name, but not a path: {}",
+                                        action.current
+                                    ));
+                                }
                                 action.conclusion = Some(action.current);
                                 action.current = String::new();
                                 self.expectation = vec![EExpectation::Word];
-- 
2.43.0


From 999a4eba9b3c3dc51f1ff8d26b5b1d83b7b53401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 37/64] fix: cli: a failed generation ends with a failure
 status

---
 cli/src/arguments/args_option_files.rs | 5 +++++
 cli/src/main.rs                        | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index 51bcb01..d3f453d 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -370,6 +370,11 @@ impl CtrlArg for ArgsOptionFiles {
                 }
                 Err(errs) => Err(errs.join("\n")),
             }
+        } else if ctrls
+            .get(&EArgumentsNames::OptionHelp)
+            .map_or(false, |help| help.is_action_available())
+        {
+            Ok(())
         } else {
             Err(String::from("protocol file isn't defined"))
         }
diff --git a/cli/src/main.rs b/cli/src/main.rs
index 312214c..af90535 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -21,6 +21,7 @@ fn main() {
         std::process::exit(1);
     }
     if let Err(errors) = ctrl.actions() {
-        println!("{}", errors.join("\n"))
+        println!("{}", errors.join("\n"));
+        std::process::exit(1);
     }
 }
-- 
2.43.0


From 24d96fad9cf4c81694d652474959d1f27d147864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 38/64] fix: cli: an option without a value is an error

---
 cli/src/arguments/args_option_files.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index d3f453d..ca66cdf 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -148,6 +148,16 @@ impl ArgsOptionFiles {
         self.errs.push(err);
     }
 
+    fn get_option_value(&mut self, args: &[String], index: usize) -> Option<String> {
+        match args.get(index + 1) {
+            Some(value) if !value.starts_with('-') => Some(value.clone()),
+            _ => {
+                self.set_err(format!("Value of option {} isn't defined", args[index]));
+                None
+            }
+        }
+    }
+
     fn has_errs(&self) -> bool {
         !self.errs.is_empty()
     }
@@ -194,7 +204,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::SOURCE || arg == keys::SRC || arg == keys::S)
         {
-            if let Some(arg_str_src) = args.get(src_index + 1) {
+            if let Some(arg_str_src) = options.get_option_value(&args, src_index) {
                 options.set_src(Path::new(pwd).join(arg_str_src))
             }
         }
@@ -202,7 +212,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::WORKFLOW || arg == keys::WF)
         {
-            if let Some(arg_str_wf) = args.get(wf_index + 1) {
+            if let Some(arg_str_wf) = options.get_option_value(&args, wf_index) {
                 options.set_workflow(Path::new(pwd).join(arg_str_wf));
             }
         }
@@ -216,7 +226,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::DESTINATION_RS || arg == keys::DEST_RS || arg == keys::RS)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_option_value(&args, dest_index) {
                 options.set_dest_rs(Path::new(pwd).join(arg_str_dest), overwrite);
             }
         }
@@ -224,7 +234,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::DESTINATION_TS || arg == keys::DEST_TS || arg == keys::TS)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_option_value(&args, dest_index) {
                 options.set_dest_ts(Path::new(pwd).join(arg_str_dest), overwrite);
             }
         }
@@ -232,7 +242,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::CONSUMER_DEST || arg == keys::CD)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_option_value(&args, dest_index) {
                 options.set_dest_consumer(Path::new(pwd).join(arg_str_dest));
             }
         }
@@ -240,7 +250,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::PRODUCER_DEST || arg == keys::PD)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_option_value(&args, dest_index) {
                 options.set_dest_producer(Path::new(pwd).join(arg_str_dest));
             }
         }
@@ -248,7 +258,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::PUML || arg == keys::D)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_option_value(&args, dest_index) {
                 options.set_dest_uml(Path::new(pwd).join(arg_str_dest), overwrite);
             }
         }
-- 
2.43.0


From 6ae25fd7da902520664e6a79531486ef68c6ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 39/64] fix: cli: a destination isn't removed or replaced if
 rendering fails

---
 cli/src/arguments/args_option_files.rs | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index ca66cdf..d8e986b 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -10,7 +10,6 @@ use super::{
 use std::{
     collections::HashMap,
     fs,
-    fs::remove_file,
     path::{Path, PathBuf},
     time::Instant,
 };
@@ -344,37 +343,22 @@ impl CtrlArg for ArgsOptionFiles {
                             }
                         };
                     }
-                    if let Some(dest) = self.dest_rs.clone() {
+                    // typescript goes first: it doesn't support everything, what rust does
+                    if let Some(dest) = self.dest_ts.clone() {
                         if dest.exists() && !overwrite {
                             return Err(format!("File {:?} exists. Use key \"overwrite\" to overwrite file. -h to get more info", dest));
                         } else if dest.exists() {
                             println!("[INFO] {:?} will be overwritten", dest);
-                            if let Err(err) = remove_file(dest.clone()) {
-                                return Err(format!(
-                                    "Fail to remove file {:?} due error: {}",
-                                    dest, err
-                                ));
-                            } else {
-                                println!("[INFO] {:?} clean", dest);
-                            }
                         }
-                        RustRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
+                        TypescriptRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
                     }
-                    if let Some(dest) = self.dest_ts.clone() {
+                    if let Some(dest) = self.dest_rs.clone() {
                         if dest.exists() && !overwrite {
                             return Err(format!("File {:?} exists. Use key \"overwrite\" to overwrite file. -h to get more info", dest));
                         } else if dest.exists() {
                             println!("[INFO] {:?} will be overwritten", dest);
-                            if let Err(err) = remove_file(dest.clone()) {
-                                return Err(format!(
-                                    "Fail to remove file {:?} due error: {}",
-                                    dest, err
-                                ));
-                            } else {
-                                println!("[INFO] {:?} clean", dest);
-                            }
                         }
-                        TypescriptRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
+                        RustRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
                     }
                     Ok(())
                 }
-- 
2.43.0


From 9e1dde9f3b084c7c5a654d14f2294216e8e2a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 40/64] fix: puml: show broadcasts of a request with a single
 conclusion

---
 .../workflow/render/puml/render_request.rs    | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/cli/src/workflow/render/puml/render_request.rs b/cli/src/workflow/render/puml/render_request.rs
index 1edf2b6..e5e32a1 100644
--- a/cli/src/workflow/render/puml/render_request.rs
+++ b/cli/src/workflow/render/puml/render_request.rs
@@ -1,4 +1,4 @@
-use super::{helpers::render as tools, workflow::request::Request};
+use super::{helpers::render as tools, workflow::request::{Action, Request}};
 
 mod templates {
     pub const MODULE: &str = r#"group [[name]]
@@ -46,15 +46,6 @@ impl RenderRequest {
                 } else {
                     return Err(String::from("Action doesn't have bound response reference"));
                 };
-                let mut broadcasts: String = String::new();
-                for broadcast in &action.broadcast {
-                    broadcasts = format!(
-                        "{}\nProducer {} Consumers: {}",
-                        broadcasts,
-                        if broadcast.optional { "-->" } else { "->" },
-                        broadcast.reference,
-                    );
-                }
                 output = format!(
                     r#"{}
 == {} ==
@@ -62,12 +53,28 @@ impl RenderRequest {
                     output,
                     name,
                     reference,
-                    tools::inject_tabs(1, broadcasts),
+                    tools::inject_tabs(1, self.get_broadcasts(action)),
                 );
             }
         } else {
             output = format!("\nProducer -> Consumer: {}", request.get_response()?);
+            for action in &request.actions {
+                output = format!("{}{}", output, self.get_broadcasts(action));
+            }
         }
         Ok(output)
     }
+
+    fn get_broadcasts(&self, action: &Action) -> String {
+        let mut output: String = String::new();
+        for broadcast in &action.broadcast {
+            output = format!(
+                "{}\nProducer {} Consumers: {}",
+                output,
+                if broadcast.optional { "-->" } else { "->" },
+                broadcast.reference,
+            );
+        }
+        output
+    }
 }
-- 
2.43.0


From 1e2b330095ddfe71652ab57b92ea47e486d4896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 41/64] fix: rust producer: render broadcasts of a request with
 a single conclusion

---
 .../workflow/render/producer/rust/render_request_handler.rs  | 2 +-
 .../workflow/render/producer/rust/render_request_response.rs | 2 +-
 cli/src/workflow/request.rs                                  | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 8ecde49..78f5331 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -100,7 +100,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.with_conclusions() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
             output = output.replace("[[conclusions]]", &self.get_conclusions(request)?);
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..c7b0d52 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -58,7 +58,7 @@ impl Render {
             return Ok(());
         }
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.with_conclusions() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[broadcast_types]]", &self.get_broadcast_types(request)?);
             output = output.replace(
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index de6d00c..0607159 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -203,6 +203,11 @@ impl Request {
         Ok(())
     }
 
+    /// Producer makes a choice between conclusions, or sends broadcasts bound with a conclusion
+    pub fn with_conclusions(&self) -> bool {
+        self.actions.len() > 1 || self.actions.iter().any(|a| !a.broadcast.is_empty())
+    }
+
     pub fn get_request(&self) -> Result<String, String> {
         if let Some(request) = self.request.as_ref() {
             Ok(String::from(request))
-- 
2.43.0


From 00952909379d54ab7e1fc7ee8ed490ef319216ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 42/64] fix: typescript producer: render broadcasts of a
 request with a single conclusion

---
 .../render/producer/typescript/render_request_handler.rs        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 7820748..d887b10 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -175,7 +175,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.with_conclusions() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace(
                 "[[required_broadcasts]]",
-- 
2.43.0


From 43bb9b82e02722e74d0226a1e9b727ab4a56a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 43/64] fix: rust producer: conclusions of a request can share
 a broadcast

---
 .../producer/rust/render_request_response.rs  | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index c7b0d52..23ace6f 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -102,7 +102,7 @@ impl Render {
                     brodcast_output = format!(
                         "{}{},{}",
                         brodcast_output,
-                        self.get_broadcast_type_name(broadcast),
+                        self.get_broadcast_type_name(request, broadcast),
                         if pos == action.broadcast.len() - 1 {
                             ""
                         } else {
@@ -129,21 +129,27 @@ impl Render {
 
     fn get_broadcast_types(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
+        let mut declared: Vec<String> = vec![];
         for action in request.actions.iter() {
             if !action.broadcast.is_empty() {
                 for broadcast in action.broadcast.iter() {
+                    let name = self.get_broadcast_type_name(request, broadcast);
+                    if declared.contains(&name) {
+                        continue;
+                    }
+                    declared.push(name);
                     if broadcast.optional {
                         output = format!(
                             "{}type {} = Option<(Vec<Uuid>, protocol::{})>;\n",
                             output,
-                            self.get_broadcast_type_name(broadcast),
+                            self.get_broadcast_type_name(request, broadcast),
                             tools::into_rust_path(&broadcast.reference),
                         );
                     } else {
                         output = format!(
                             "{}type {} = (Vec<Uuid>, protocol::{});\n",
                             output,
-                            self.get_broadcast_type_name(broadcast),
+                            self.get_broadcast_type_name(request, broadcast),
                             tools::into_rust_path(&broadcast.reference),
                         );
                     }
@@ -153,8 +159,22 @@ impl Render {
         Ok(output)
     }
 
-    fn get_broadcast_type_name(&self, broadcast: &Broadcast) -> String {
-        format!("Broadcast{}", broadcast.reference.replace(".", ""))
+    fn get_broadcast_type_name(&self, request: &Request, broadcast: &Broadcast) -> String {
+        // the same broadcast can be optional for one conclusion and required for another one
+        let ambiguous = request
+            .actions
+            .iter()
+            .flat_map(|action| action.broadcast.iter())
+            .any(|b| b.reference == broadcast.reference && b.optional != broadcast.optional);
+        format!(
+            "{}Broadcast{}",
+            if ambiguous && broadcast.optional {
+                "Optional"
+            } else {
+                ""
+            },
+            broadcast.reference.replace(".", "")
+        )
     }
 
     fn get_dest_file(&self, base: &Path, request: &Request) -> Result<PathBuf, String> {
-- 
2.43.0


From 915fbb3bd8d551488e49f1f9870083a061a2ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 44/64] fix: workflow: refuse a broadcast, which is declared
 twice for an event

---
 cli/src/workflow/event.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index 6c6af7b..da47b33 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -285,6 +285,16 @@ impl EntityParser for Event {
                             if broadcast.reference.is_empty() {
                                 Err(String::from("Broadcast reference cannot be empty"))
                             } else {
+                                if self
+                                    .broadcasts
+                                    .iter()
+                                    .any(|b| b.reference == broadcast.reference)
+                                {
+                                    return Err(format!(
+                                        "Broadcast {} has been already added",
+                                        broadcast.reference
+                                    ));
+                                }
                                 self.broadcasts.push(broadcast);
                                 self.expectation = vec![EExpectation::Arrow, EExpectation::Close];
                                 self.pending = Pending::Nothing;
-- 
2.43.0


From 47d514a110843f6a7164be6828d367b60e792685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 45/64] fix: workflow: keys should be structs

---
 cli/src/workflow/config.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index bec4fc8..6bd081e 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -135,8 +135,8 @@ impl Config {
 
     fn close(&mut self, protocol: &mut Protocol) -> Result<(), String> {
         if let Some(self_key) = self.self_key.as_ref() {
-            if protocol.find_by_str_path(0, self_key).is_none() {
-                return Err(format!("Self key {} isn't defined in protocol", self_key));
+            if protocol.get_struct_by_str_path(0, self_key).is_none() {
+                return Err(format!("Self key {} isn't defined as a struct in protocol", self_key));
             }
             protocol.add_service_struct(
                 names::DEFAULT_SELF_KEY_RESPONSE_STRUCT.to_owned(),
@@ -173,9 +173,9 @@ impl Config {
             ));
         }
         if let Some(assigned_key) = self.assigned_key.as_ref() {
-            if protocol.find_by_str_path(0, assigned_key).is_none() {
+            if protocol.get_struct_by_str_path(0, assigned_key).is_none() {
                 return Err(format!(
-                    "Assigned key {} isn't defined in protocol",
+                    "Assigned key {} isn't defined as a struct in protocol",
                     assigned_key
                 ));
             }
-- 
2.43.0


From d15ee005a201021b85f24441fba18f648f38d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 46/64] fix: workflow: messages should be structs

---
 cli/src/workflow/beacon.rs  |  2 +-
 cli/src/workflow/event.rs   |  2 +-
 cli/src/workflow/request.rs | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index 9fa3e26..fe97ab6 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -35,7 +35,7 @@ impl Broadcast {
     }
 
     pub fn validate(&self, protocol: &Protocol) -> bool {
-        protocol.find_by_str_path(0, &self.reference).is_some()
+        protocol.get_struct_by_str_path(0, &self.reference).is_some()
     }
 }
 
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index da47b33..25ea9bd 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -65,7 +65,7 @@ impl Event {
             ));
         }
         for broadcast in self.broadcasts.iter() {
-            if protocol.find_by_str_path(0, &broadcast.reference).is_none() {
+            if protocol.get_struct_by_str_path(0, &broadcast.reference).is_none() {
                 return Err(format!(
                     "Broadcast object/struct {} isn't defined in protocol",
                     &broadcast.reference
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 0607159..1a59449 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -137,7 +137,7 @@ impl Request {
 
     fn close(&mut self, protocol: &Protocol) -> Result<(), String> {
         if let Some(request) = self.request.as_ref() {
-            if protocol.find_by_str_path(0, request).is_none() {
+            if protocol.get_struct_by_str_path(0, request).is_none() {
                 return Err(format!("Request {} isn't defined in protocol", request));
             }
         } else {
@@ -146,7 +146,7 @@ impl Request {
             ));
         }
         if let Some(error) = self.error.as_ref() {
-            if protocol.find_by_str_path(0, error).is_none() {
+            if protocol.get_struct_by_str_path(0, error).is_none() {
                 return Err(format!("Error {} isn't defined in protocol", error));
             }
         } else {
@@ -155,7 +155,7 @@ impl Request {
             ));
         }
         for broadcast in self.broadcasts.iter() {
-            if protocol.find_by_str_path(0, broadcast).is_none() {
+            if protocol.get_struct_by_str_path(0, broadcast).is_none() {
                 return Err(format!(
                     "Broadcast object/struct {} isn't defined in protocol",
                     broadcast
@@ -177,7 +177,7 @@ impl Request {
                 return Err(String::from("In case request has a multiple response, should be defined conclusion for each response"));
             }
             if let Some(response) = action.response.as_ref() {
-                if protocol.find_by_str_path(0, response).is_none() {
+                if protocol.get_struct_by_str_path(0, response).is_none() {
                     return Err(format!(
                         "Response object/struct {} isn't defined in protocol",
                         response
@@ -189,7 +189,7 @@ impl Request {
                 ));
             }
             for broadcast in action.broadcast.iter() {
-                if protocol.find_by_str_path(0, &broadcast.reference).is_none() {
+                if protocol.get_struct_by_str_path(0, &broadcast.reference).is_none() {
                     return Err(format!(
                         "Response broadcast object/struct {} isn't defined in protocol",
                         broadcast.reference
-- 
2.43.0


From 6838a4bb7a0a506a9817290503c4382640fe41e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 47/64] fix: typescript producer: conclusions of a request can
 share a broadcast

---
 .../typescript/render_request_handler.rs      | 75 ++++++++++++++-----
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index d887b10..0a046e2 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -77,11 +77,12 @@ export function handler(
 }"#;
     pub const BROADCAST_IMPL: &str = r#"[[name]](msg: Protocol.[[reference]]): Response {
     if (
-        self._response.getId() !==
-        Protocol.[[conclusion]].getId()
+        ![
+            [[conclusions_ids]]
+        ].includes(self._response.getId())
     ) {
         throw new Error(
-            `Message "Protocol.[[reference]]" can be used only with "Protocol.[[conclusion]]"`
+            `Message "Protocol.[[reference]]" can be used only with [[conclusions]]`
         );
     }
     if (
@@ -248,31 +249,67 @@ impl Render {
         Ok(output)
     }
 
-    fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
-        let mut output = String::new();
+    /// Broadcasts of request with responses, which are allow to use it. Same broadcast can be
+    /// bound with several conclusions.
+    fn get_broadcasts(&self, request: &Request) -> Result<Vec<(String, Vec<String>)>, String> {
+        let mut broadcasts: Vec<(String, Vec<String>)> = vec![];
         for action in request.actions.iter() {
+            let response = action.get_response()?;
             for broadcast in action.broadcast.iter() {
-                output = format!(
-                    "{}\n{}(msg: Protocol.{}): Response;",
-                    output,
-                    broadcast.reference.replace(".", ""),
-                    broadcast.reference,
-                );
+                match broadcasts
+                    .iter_mut()
+                    .find(|(reference, _)| *reference == broadcast.reference)
+                {
+                    Some((_, responses)) => {
+                        if !responses.contains(&response) {
+                            responses.push(response.clone());
+                        }
+                    }
+                    None => {
+                        broadcasts.push((broadcast.reference.clone(), vec![response.clone()]))
+                    }
+                }
             }
         }
+        Ok(broadcasts)
+    }
+
+    fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
+        let mut output = String::new();
+        for (reference, _) in self.get_broadcasts(request)?.iter() {
+            output = format!(
+                "{}\n{}(msg: Protocol.{}): Response;",
+                output,
+                reference.replace(".", ""),
+                reference,
+            );
+        }
         Ok(tools::inject_tabs(2, output))
     }
 
     fn get_methods_implementations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
-            for broadcast in action.broadcast.iter() {
-                let mut out = templates::BROADCAST_IMPL.to_owned();
-                out = out.replace("[[name]]", &broadcast.reference.replace(".", ""));
-                out = out.replace("[[reference]]", &broadcast.reference);
-                out = out.replace("[[conclusion]]", &action.get_response()?);
-                output = format!("{}\n{}", output, out,);
-            }
+        for (reference, responses) in self.get_broadcasts(request)?.iter() {
+            let mut out = templates::BROADCAST_IMPL.to_owned();
+            out = out.replace("[[name]]", &reference.replace(".", ""));
+            out = out.replace("[[reference]]", reference);
+            out = out.replace(
+                "[[conclusions_ids]]",
+                &responses
+                    .iter()
+                    .map(|response| format!("Protocol.{}.getId(),", response))
+                    .collect::<Vec<String>>()
+                    .join("\n            "),
+            );
+            out = out.replace(
+                "[[conclusions]]",
+                &responses
+                    .iter()
+                    .map(|response| format!("\"Protocol.{}\"", response))
+                    .collect::<Vec<String>>()
+                    .join(", "),
+            );
+            output = format!("{}\n{}", output, out,);
         }
         Ok(tools::inject_tabs(3, output))
     }
-- 
2.43.0


From 58c06e91d41ac96d9face20323fb09ade26582a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:33 +0000
Subject: [PATCH 48/64] fix: typescript producer: type of required broadcasts,
 when all of them are optional

---
 .../workflow/render/producer/typescript/render_event_emitter.rs | 2 +-
 .../render/producer/typescript/render_request_handler.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
index 46864be..f58327b 100644
--- a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
@@ -175,7 +175,7 @@ impl Render {
         Ok(tools::inject_tabs(
             1,
             format!(
-                r#"static REQUIRED = [{}
+                r#"static REQUIRED: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                 tools::inject_tabs(1, broadcasts),
             ),
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 0a046e2..189ef8a 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -223,7 +223,7 @@ impl Render {
                     broadcasts = format!("{}\nProtocol.{},", broadcasts, broadcast.reference);
                 }
                 output = format!(
-                    r#"{}{}static REQUIRED_{} = [{}
+                    r#"{}{}static REQUIRED_{}: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                     output,
                     "\n",
-- 
2.43.0


From c14ae07f0b580c5ca747bb0b1ff554d5d8d79cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 49/64] fix: typescript producer: strategy for consumers
 without assigned key was never applied

---
 .../render/producer/typescript/render_identification.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index adb72fd..c62c6be 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -62,7 +62,7 @@ export class Identification {
     }
 
     public assigned(): boolean {
-        if (this.assign === undefined) {
+        if (this._assigned === undefined) {
             switch (this._strategy) {
                 case ProducerIdentificationStrategy.Ignore:
                     return true;
-- 
2.43.0


From 6b23b2c10027e81baeb1703f3f3e7e1df9fa8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 50/64] fix: typescript producer: a consumer was served after
 the decision to disconnect it

---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1842f8d..50e165b 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -132,6 +132,10 @@ export class Producer {
     }
 
     public disconnect(uuid: string): Promise<void> {
+        const consumer = this._consumers.get(uuid);
+        if (consumer !== undefined) {
+            consumer.getIdentification().discredited();
+        }
         return this._server.disconnect(uuid);
     }
 
@@ -243,6 +247,10 @@ export class Producer {
             return this._receivingErr(error, event.uuid, consumer);
         }
         do {
+            if (consumer.getIdentification().isDiscredited()) {
+                // Consumer was disconnected because of a previous message
+                return;
+            }
             const message = consumer.message();
             if (message === undefined) {
                 return;
-- 
2.43.0


From 9b38f50e94c4054db48559a43eac2b08af00f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 51/64] fix: typescript producer: messages behind an unknown
 one waited for the next chunk of data

---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 50e165b..89f9bf2 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -449,7 +449,6 @@ export class Producer {
 					)}`
 				);
 			} catch (_) {}
-            break;
         } while (true);
     }
 
-- 
2.43.0


From 0b7f3b928f1571bf88b19401e500534e48e29bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 52/64] fix: typescript producer: connection was never
 confirmed, rust consumers wait for it

---
 .../workflow/render/producer/typescript/render_mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 89f9bf2..add90e5 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -186,6 +186,17 @@ export class Producer {
                 this
             )
         );
+        this.send(
+            uuid,
+            new Protocol.InternalServiceGroup.ConnectConfirmationBeacon({}).pack(
+                0,
+                uuid
+            )
+        ).catch((err: Error) => {
+            this._logger.err(
+                `fail to send connection confirmation to ${uuid}; error: ${err.message}`
+            );
+        });
     }
 
     private _onClientDisconnected(uuid: string) {
-- 
2.43.0


From dbd930997319bc8c50f40076604279e39c2ec45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 53/64] fix: typescript consumer: handshake was started before
 connection is confirmed by producer

---
 .../render/consumer/typescript/render_consumer.rs         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 0c42841..53d8084 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -216,6 +216,10 @@ export class Consumer {
 
     private _onClientConnected() {
         this._logger.debug(`Client is connected`);
+        this.connected.emit();
+    }
+
+    private _handshake() {
         this.assign(this._key).then((uuid: string) => {
             this._hash().then(() => {
                 this._logger.debug(`Protocol and workflow hashes has been accepted`);
@@ -226,7 +230,6 @@ export class Consumer {
         }).catch((err: Error) => {
             this._logger.err(`Default assign prodecure is failed: ${err.message}`);
         });
-        this.connected.emit();
     }
 
     private _onClientDisconnected() {
@@ -255,6 +258,9 @@ export class Consumer {
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
                 pending(msg.msg);
+            } else if (msg.msg.InternalServiceGroup?.ConnectConfirmationBeacon !== undefined) {
+                // Producer (rust) refuses any data before it has confirmed connection
+                this._handshake();
             }[[broadcasts_checking]]
             
         } while (true);
-- 
2.43.0


From c8be72084e130e17db8e37447a344cb4d64aa92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 54/64] fix: typescript consumer: incomplete data of a closed
 connection broke the next one

---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 53d8084..00d0faf 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -72,7 +72,7 @@ export class Consumer {
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
     private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
-    private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
+    private _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
     private _uuid: string | undefined;
@@ -235,6 +235,7 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._buffer = new Protocol.BufferReaderMessages();
         this.disconnected.emit();
     }
 
-- 
2.43.0


From 7665dd052d4a1619ea7f0e263fd462480e0f8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 55/64] fix: typescript consumer: request and beacon could not
 be sent again after a failed attempt

---
 .../workflow/render/consumer/typescript/render_beacon.rs   | 6 ++++++
 .../workflow/render/consumer/typescript/render_request.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_beacon.rs b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
index 9f476b9..272bf9c 100644
--- a/cli/src/workflow/render/consumer/typescript/render_beacon.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
@@ -56,6 +56,12 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
         return new Promise((resolve, reject) => {
             consumer
                 .request(this.pack(sequence), sequence)
+                .catch((err: Error) => {
+                    if (this._state === ERequestState.Pending) {
+                        this._state = ERequestState.Ready;
+                    }
+                    return Promise.reject(err);
+                })
                 .then((response: Protocol.IAvailableMessages) => {
                     switch (this._state) {
                         case ERequestState.Pending:
diff --git a/cli/src/workflow/render/consumer/typescript/render_request.rs b/cli/src/workflow/render/consumer/typescript/render_request.rs
index d25bf40..77e61f6 100644
--- a/cli/src/workflow/render/consumer/typescript/render_request.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_request.rs
@@ -43,7 +43,12 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
         const sequence: number = consumer.getSequence();
         this._state = ERequestState.Pending;
         return new Promise((resolve, reject) => {
-            consumer.request(this.pack(sequence), sequence).then((message: Protocol.IAvailableMessages) => {
+            consumer.request(this.pack(sequence), sequence).catch((err: Error) => {
+                if (this._state === ERequestState.Pending) {
+                    this._state = ERequestState.Ready;
+                }
+                return Promise.reject(err);
+            }).then((message: Protocol.IAvailableMessages) => {
                 switch (this._state) {
                     case ERequestState.Pending:
                         this._state = ERequestState.Ready;
-- 
2.43.0


From fd1b7c8bba201590aad00d7693e6530827420d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 56/64] fix: typescript consumer: requests without response
 were never finished as soon as connection is lost

---
 .../consumer/typescript/render_consumer.rs    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 00d0faf..c285afd 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -71,7 +71,10 @@ export class Consumer {
  
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
-    private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
+    private readonly _pending: Map<number, {
+        resolve: (response: Protocol.IAvailableMessages) => void,
+        reject: (error: Error) => void,
+    }> = new Map();
     private _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
@@ -146,6 +149,7 @@ export class Consumer {
 			const global = globals();
 			global[Consumer.GUID] = undefined;
 		}
+		this._rejectPending(`Consumer has been destroyed`);
 		return this._client.destroy();
 	}
 
@@ -160,8 +164,8 @@ export class Consumer {
         if (sequence === undefined) {
             return Promise.resolve({});
         }
-        return new Promise((resolve) => {
-            this._pending.set(sequence, resolve);
+        return new Promise((resolve, reject) => {
+            this._pending.set(sequence, { resolve, reject });
         });
     }
 
@@ -236,9 +240,16 @@ export class Consumer {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
         this._buffer = new Protocol.BufferReaderMessages();
+        this._rejectPending(`Client has been disconnected`);
         this.disconnected.emit();
     }
 
+    private _rejectPending(reason: string) {
+        const pending = Array.from(this._pending.values());
+        this._pending.clear();
+        pending.forEach((request) => request.reject(new Error(reason)));
+    }
+
     private _onClientError(error: Error) {
         this._logger.debug(`Client error: ${error.message}`);
         this.error.emit(new ExtError.ClientError(error.message));
@@ -258,7 +269,7 @@ export class Consumer {
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-                pending(msg.msg);
+                pending.resolve(msg.msg);
             } else if (msg.msg.InternalServiceGroup?.ConnectConfirmationBeacon !== undefined) {
                 // Producer (rust) refuses any data before it has confirmed connection
                 this._handshake();
-- 
2.43.0


From 0a5db3615d36a3c49a9a45734b39431dc93a302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 57/64] fix: generated TypeScript from() refused 64-bit
 integers beyond Number.MAX_SAFE_INTEGER

---
 .../render/typescript/static/protocol.primitives.i64.ts       | 4 ++--
 .../render/typescript/static/protocol.primitives.u64.ts       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
index 3c1935f..7f4ced3 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class i64 extends Primitive<bigint> {
-	public static MIN: number = -Number.MAX_SAFE_INTEGER;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt("-9223372036854775808");
+	public static MAX: bigint = BigInt("9223372036854775807");
 
 	public static getSignature(): string {
 		return "i64";
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
index ce763e0..2065b5a 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class u64 extends Primitive<bigint> {
-	public static MIN: number = 0;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt(0);
+	public static MAX: bigint = BigInt("18446744073709551615");
 
 	public static getSignature(): string {
 		return "u64";
-- 
2.43.0


From 69cd7cf3f9f8177f2ee1f1806a6c23f0755626b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:05 +0000
Subject: [PATCH 58/64] fix: manifest of a path with ".." was looked for in
 directories the path only passes through

---
 cli/src/workflow/render/consumer/rust/render_cargo.rs  | 10 ++++++++--
 .../render/consumer/typescript/render_package.rs       | 10 ++++++++--
 cli/src/workflow/render/producer/rust/render_cargo.rs  | 10 ++++++++--
 .../render/producer/typescript/render_package.rs       | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_cargo.rs b/cli/src/workflow/render/consumer/rust/render_cargo.rs
index 59d8c46..a3eab78 100644
--- a/cli/src/workflow/render/consumer/rust/render_cargo.rs
+++ b/cli/src/workflow/render/consumer/rust/render_cargo.rs
@@ -1,7 +1,7 @@
 use super::helpers;
 use std::{
     fs, include_str,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 use toml::{map::Map, Value};
 
@@ -72,7 +72,13 @@ impl Render {
     }
 
     fn get_target_file(&self, base: &Path) -> Result<PathBuf, String> {
-        let mut current = base.to_path_buf();
+        // "a/../b" isn't nested into "a"
+        let mut current = if base.components().any(|c| c == Component::ParentDir) {
+            fs::canonicalize(base)
+                .map_err(|e| format!("Fail access {}; error: {}", base.to_string_lossy(), e))?
+        } else {
+            base.to_path_buf()
+        };
         while let Some(parent) = current.parent() {
             let target = current.join("Cargo.toml");
             if target.exists() {
diff --git a/cli/src/workflow/render/consumer/typescript/render_package.rs b/cli/src/workflow/render/consumer/typescript/render_package.rs
index ecb07eb..525bdd5 100644
--- a/cli/src/workflow/render/consumer/typescript/render_package.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_package.rs
@@ -2,7 +2,7 @@ use super::helpers;
 use serde_json::{map::Map, Value};
 use std::{
     fs, include_str,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 pub struct Render {}
@@ -72,7 +72,13 @@ impl Render {
     }
 
     fn get_target_file(&self, base: &Path) -> Result<PathBuf, String> {
-        let mut current = base.to_path_buf();
+        // "a/../b" isn't nested into "a"
+        let mut current = if base.components().any(|c| c == Component::ParentDir) {
+            fs::canonicalize(base)
+                .map_err(|e| format!("Fail access {}; error: {}", base.to_string_lossy(), e))?
+        } else {
+            base.to_path_buf()
+        };
         while let Some(parent) = current.parent() {
             let target = current.join("package.json");
             if target.exists() {
diff --git a/cli/src/workflow/render/producer/rust/render_cargo.rs b/cli/src/workflow/render/producer/rust/render_cargo.rs
index 59d8c46..a3eab78 100644
--- a/cli/src/workflow/render/producer/rust/render_cargo.rs
+++ b/cli/src/workflow/render/producer/rust/render_cargo.rs
@@ -1,7 +1,7 @@
 use super::helpers;
 use std::{
     fs, include_str,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 use toml::{map::Map, Value};
 
@@ -72,7 +72,13 @@ impl Render {
     }
 
     fn get_target_file(&self, base: &Path) -> Result<PathBuf, String> {
-        let mut current = base.to_path_buf();
+        // "a/../b" isn't nested into "a"
+        let mut current = if base.components().any(|c| c == Component::ParentDir) {
+            fs::canonicalize(base)
+                .map_err(|e| format!("Fail access {}; error: {}", base.to_string_lossy(), e))?
+        } else {
+            base.to_path_buf()
+        };
         while let Some(parent) = current.parent() {
             let target = current.join("Cargo.toml");
             if target.exists() {
diff --git a/cli/src/workflow/render/producer/typescript/render_package.rs b/cli/src/workflow/render/producer/typescript/render_package.rs
index ecb07eb..525bdd5 100644
--- a/cli/src/workflow/render/producer/typescript/render_package.rs
+++ b/cli/src/workflow/render/producer/typescript/render_package.rs
@@ -2,7 +2,7 @@ use super::helpers;
 use serde_json::{map::Map, Value};
 use std::{
     fs, include_str,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 pub struct Render {}
@@ -72,7 +72,13 @@ impl Render {
     }
 
     fn get_target_file(&self, base: &Path) -> Result<PathBuf, String> {
-        let mut current = base.to_path_buf();
+        // "a/../b" isn't nested into "a"
+        let mut current = if base.components().any(|c| c == Component::ParentDir) {
+            fs::canonicalize(base)
+                .map_err(|e| format!("Fail access {}; error: {}", base.to_string_lossy(), e))?
+        } else {
+            base.to_path_buf()
+        };
         while let Some(parent) = current.parent() {
             let target = current.join("package.json");
             if target.exists() {
-- 
2.43.0


From b2b4440ffdeb6184018ed858778a7908ccd3a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:57 +0000
Subject: [PATCH 59/64] fix: generated TypeScript decode() was broken by fields
 named as its local variables or as keywords

---
 cli/src/protocol/render/typescript/mod.rs | 48 +++++++++++------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index ab729b4..850c07c 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1103,13 +1103,13 @@ impl TypescriptRender {
     fn get_field_decode_wrap(&self, field: &Field, store: &mut Store, level: u8) -> String {
         if field.optional {
             let mut body = format!(
-                "{}const {}Buf: ArrayBufferLike | undefined = storage.get({});",
+                "{}const buf${}: ArrayBufferLike | undefined = storage.get({});",
                 self.spaces(level),
                 field.name,
                 field.id
             );
             body = format!(
-                "{}\n{}if ({}Buf === undefined) {{",
+                "{}\n{}if (buf${} === undefined) {{",
                 body,
                 self.spaces(level),
                 field.name
@@ -1153,28 +1153,28 @@ impl TypescriptRender {
             if let Some(strct) = store.get_struct(entity_id) {
                 if field.repeated {
                     body = format!(
-                        "{}const arr{}Inst: {} = {}.defaults();",
+                        "{}const inst${}: {} = {}.defaults();",
                         self.spaces(level),
                         field.name,
                         store.get_struct_path(strct.id).join("."),
                         store.get_struct_path(strct.id).join(".")
                     );
-                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, store.get_struct_path(strct.id).join("."), field.id, field.name, field.name);
+                    body = format!("{}\n{}const arr${}: Array<any> | Error = this.getValue<{}[]>(storage, {}, inst${}.decodeSelfArray.bind(inst${}));", body, self.spaces(level), field.name, store.get_struct_path(strct.id).join("."), field.id, field.name, field.name);
                     body = format!(
-                        "{}\n{}if (arr{} instanceof Error) {{",
+                        "{}\n{}if (arr${} instanceof Error) {{",
                         body,
                         self.spaces(level),
                         field.name
                     );
                     body = format!(
-                        "{}\n{}return arr{};",
+                        "{}\n{}return arr${};",
                         body,
                         self.spaces(level + 1),
                         field.name
                     );
                     body = format!("{}\n{}}} else {{", body, self.spaces(level));
                     body = format!(
-                        "{}\n{}this.{} = arr{} as {}[];",
+                        "{}\n{}this.{} = arr${} as {}[];",
                         body,
                         self.spaces(level + 1),
                         field.name,
@@ -1184,21 +1184,21 @@ impl TypescriptRender {
                     body = format!("{}\n{}}}", body, self.spaces(level));
                 } else {
                     body = format!(
-                        "{}const {}: {} = {};",
+                        "{}const value${}: {} = {};",
                         self.spaces(level),
                         field.name,
                         field.get_full_name().join("."),
                         self.entity_default(entity_id, &mut store.clone(), level)
                     );
                     body = format!(
-                        "{}\n{}const {}Buf: ArrayBufferLike | undefined = storage.get({});",
+                        "{}\n{}const buf${}: ArrayBufferLike | undefined = storage.get({});",
                         body,
                         self.spaces(level),
                         field.name,
                         field.id
                     );
                     body = format!(
-                        "{}\n{}if ({}Buf === undefined) {{",
+                        "{}\n{}if (buf${} === undefined) {{",
                         body,
                         self.spaces(level),
                         field.name
@@ -1212,7 +1212,7 @@ impl TypescriptRender {
                     );
                     body = format!("{}\n{}}}", body, self.spaces(level));
                     body = format!(
-                        "{}\n{}const {}Err: Error | {} = {}.decode({}Buf);",
+                        "{}\n{}const err${}: Error | {} = value${}.decode(buf${});",
                         body,
                         self.spaces(level),
                         field.name,
@@ -1221,20 +1221,20 @@ impl TypescriptRender {
                         field.name
                     );
                     body = format!(
-                        "{}\n{}if ({}Err instanceof Error) {{",
+                        "{}\n{}if (err${} instanceof Error) {{",
                         body,
                         self.spaces(level),
                         field.name
                     );
                     body = format!(
-                        "{}\n{}return {}Err;",
+                        "{}\n{}return err${};",
                         body,
                         self.spaces(level + 1),
                         field.name
                     );
                     body = format!("{}\n{}}} else {{", body, self.spaces(level));
                     body = format!(
-                        "{}\n{}this.{} = {};",
+                        "{}\n{}this.{} = value${};",
                         body,
                         self.spaces(level + 1),
                         field.name,
@@ -1245,14 +1245,14 @@ impl TypescriptRender {
             } else if let Some(_enums) = store.get_enum(entity_id) {
                 body = format!("{}this.{} = {{}};", self.spaces(level), field.name);
                 body = format!(
-                    "{}\n{}const {}Buf: ArrayBufferLike | undefined = storage.get({});",
+                    "{}\n{}const buf${}: ArrayBufferLike | undefined = storage.get({});",
                     body,
                     self.spaces(level),
                     field.name,
                     field.id
                 );
                 body = format!(
-                    "{}\n{}if ({}Buf === undefined) {{",
+                    "{}\n{}if (buf${} === undefined) {{",
                     body,
                     self.spaces(level),
                     field.name
@@ -1265,13 +1265,13 @@ impl TypescriptRender {
                 );
                 body = format!("{}\n{}}}", body, self.spaces(level));
                 body = format!(
-                    "{}\n{}if ({}Buf.byteLength > 0) {{",
+                    "{}\n{}if (buf${}.byteLength > 0) {{",
                     body,
                     self.spaces(level),
                     field.name
                 );
                 body = format!(
-                    "{}\n{}const {}Err: Error | undefined = this._{}.decode({}Buf);",
+                    "{}\n{}const err${}: Error | undefined = this._{}.decode(buf${});",
                     body,
                     self.spaces(level + 1),
                     field.name,
@@ -1279,13 +1279,13 @@ impl TypescriptRender {
                     field.name
                 );
                 body = format!(
-                    "{}\n{}if ({}Err instanceof Error) {{",
+                    "{}\n{}if (err${} instanceof Error) {{",
                     body,
                     self.spaces(level + 1),
                     field.name
                 );
                 body = format!(
-                    "{}\n{}return {}Err;",
+                    "{}\n{}return err${};",
                     body,
                     self.spaces(level + 2),
                     field.name
@@ -1313,17 +1313,17 @@ impl TypescriptRender {
             if field.repeated {
                 type_str = format!("Array<{}>", type_str);
             }
-            body = format!("{}const {}: {} | Error = this.getValue<{}>(storage, {}, Protocol.Primitives.{}.decode);", self.spaces(level), field.name, type_str, type_str, field.id, primitive);
+            body = format!("{}const value${}: {} | Error = this.getValue<{}>(storage, {}, Protocol.Primitives.{}.decode);", self.spaces(level), field.name, type_str, type_str, field.id, primitive);
             body = format!(
-                "{}\n{}if ({} instanceof Error) {{",
+                "{}\n{}if (value${} instanceof Error) {{",
                 body,
                 self.spaces(level),
                 field.name
             );
-            body = format!("{}\n{}return {};", body, self.spaces(level + 1), field.name);
+            body = format!("{}\n{}return value${};", body, self.spaces(level + 1), field.name);
             body = format!("{}\n{}}} else {{", body, self.spaces(level));
             body = format!(
-                "{}\n{}this.{} = {};",
+                "{}\n{}this.{} = value${};",
                 body,
                 self.spaces(level + 1),
                 field.name,
-- 
2.43.0


From 100054ace25294e77dd101813246ed13709f1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:57 +0000
Subject: [PATCH 60/64] fix: generated Rust code wasn't compilable with fields
 and variants named as keywords

---
 cli/src/helpers/string.rs                     | 17 ++++++++++++++++
 cli/src/protocol/render/rust/mod.rs           | 20 +++++++++----------
 .../producer/rust/render_identification.rs    |  4 ++--
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/cli/src/helpers/string.rs b/cli/src/helpers/string.rs
index 011274a..182fa10 100644
--- a/cli/src/helpers/string.rs
+++ b/cli/src/helpers/string.rs
@@ -5,3 +5,20 @@ pub fn first_letter_lowercase(s: &str) -> String {
         Some(f) => f.to_lowercase().collect::<String>() + c.as_str(),
     }
 }
+
+const RUST_KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "do", "dyn",
+    "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop",
+    "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "static",
+    "struct", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual",
+    "where", "while", "yield",
+];
+
+/// Keywords of rust can be used as names in protocol
+pub fn rust_ident(name: &str) -> String {
+    if RUST_KEYWORDS.contains(&name) {
+        format!("r#{}", name)
+    } else {
+        name.to_owned()
+    }
+}
diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index b9efd95..63ea2bc 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -57,7 +57,7 @@ impl RustRender {
                 "{}\n{}{}",
                 body,
                 self.spaces(level + 1),
-                format!("pub {}: {},", field.name, self.get_declare_type_ref(field)),
+                format!("pub {}: {},", helpers::string::rust_ident(&field.name), self.get_declare_type_ref(field)),
             );
         }
         body = format!("{}\n{}}}\n", body, self.spaces(level));
@@ -118,10 +118,10 @@ impl RustRender {
                             "{}{}self.{} = None;\n",
                             body,
                             self.spaces(level + 4),
-                            field.name
+                            helpers::string::rust_ident(&field.name)
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, kind, field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), helpers::string::rust_ident(&field.name), kind, field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
@@ -146,7 +146,7 @@ impl RustRender {
                 "{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n",
                 body,
                 self.spaces(level + 2),
-                field.name,
+                helpers::string::rust_ident(&field.name),
                 self.get_decode_type_ref(field),
                 field.id
             );
@@ -199,7 +199,7 @@ impl RustRender {
                             "{}{}if let Some(mut val) = self.{}.clone() {{\n",
                             body,
                             self.spaces(level + 2),
-                            field.name
+                            helpers::string::rust_ident(&field.name)
                         );
                         body = format!(
                             "{}{}match val.get_buf_to_store(Some({})) {{\n",
@@ -245,7 +245,7 @@ impl RustRender {
                 "{}{}match self.{}.get_buf_to_store(Some({})) {{\n",
                 body,
                 self.spaces(level + 2),
-                field.name,
+                helpers::string::rust_ident(&field.name),
                 field.id
             );
             body = format!(
@@ -283,7 +283,7 @@ impl RustRender {
                 self.spaces(level + 1),
                 format!(
                     "{}({})",
-                    item.name,
+                    helpers::string::rust_ident(&item.name),
                     if item.repeated {
                         format!("Vec<{}>", item_type)
                     } else {
@@ -359,7 +359,7 @@ impl RustRender {
                 body,
                 self.spaces(level + 4),
                 enums.name,
-                item.name
+                helpers::string::rust_ident(&item.name)
             );
             body = format!("{}{}Err(e) => Err(e)\n", body, self.spaces(level + 4));
             body = format!("{}{}}},\n", body, self.spaces(level + 3));
@@ -406,7 +406,7 @@ impl RustRender {
                 "{}{}Self::{}(v) => (v.encode(), {}),\n",
                 body,
                 self.spaces(level + 3),
-                item.name,
+                helpers::string::rust_ident(&item.name),
                 index
             );
         }
@@ -495,7 +495,7 @@ impl RustRender {
     }
 
     fn field_default(&self, field: &Field, store: &mut Store) -> String {
-        let mut body = format!("{}: ", field.name);
+        let mut body = format!("{}: ", helpers::string::rust_ident(&field.name));
         if field.repeated && !field.optional {
             body = format!("{}vec![],", body);
         } else if field.optional {
diff --git a/cli/src/workflow/render/producer/rust/render_identification.rs b/cli/src/workflow/render/producer/rust/render_identification.rs
index fd1768b..9af27ef 100644
--- a/cli/src/workflow/render/producer/rust/render_identification.rs
+++ b/cli/src/workflow/render/producer/rust/render_identification.rs
@@ -210,7 +210,7 @@ impl Render {
                     } else {
                         templates::KEY_FIELD_CHECK
                     })
-                    .replace("[[field]]", &field.name,)
+                    .replace("[[field]]", &helpers::string::rust_ident(&field.name))
                 );
                 if pos < strct.fields.len() - 1 {
                     output = format!("{}\n", output);
@@ -234,7 +234,7 @@ impl Render {
                     } else {
                         templates::KEY_FIELD_CHECK
                     })
-                    .replace("[[field]]", &field.name,)
+                    .replace("[[field]]", &helpers::string::rust_ident(&field.name))
                 );
                 if pos < strct.fields.len() - 1 {
                     output = format!("{}\n", output);
-- 
2.43.0


From 88e7ff7240fda69d225b1cb441f14752225d4363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:18 +0000
Subject: [PATCH 61/64] fix: generated TypeScript encoded the enum a message
 was made with, not the one assigned to its field since

---
 cli/src/protocol/render/typescript/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 850c07c..37a1f24 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1350,7 +1350,8 @@ impl TypescriptRender {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
             } else if store.get_enum(entity_id).is_some() {
-                body = format!("() => {{{} const buffer = this._{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
+                let path = store.get_enum_path(entity_id).join(".");
+                body = format!("() => {{{} this._{} = new {}(); this._{}.set(this.{}); const buffer = this._{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, path, field.name, field.name, field.name, field.id);
             } else {
                 stop!(
                     "Fail to find a type by ref {} for field {}",
-- 
2.43.0


From 0626a984e8673ba41cdd66f448caac57585f5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:55 +0000
Subject: [PATCH 62/64] fix: a shutdown awaited by a handler of the Rust
 consumer was never confirmed

---
 .../render/consumer/rust/render_consumer.rs   | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 6f533f0..a617a33 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -211,7 +211,11 @@ where
     let cancel = api.get_shutdown_token();
     let cancel_shutdown_getter = api.get_shutdown_token();
     debug!(target: logs::targets::CONSUMER, "listener task is started");
-    let (rx_consumer_getter, context, mut shutdown, client) = join!(
+    // The confirmation of a shutdown cannot wait for the emitter subtask: it runs handlers of the
+    // user, and the one, who asked for the shutdown, might be a handler.
+    let listener_finished = CancellationToken::new();
+    let listener_finished_caller = listener_finished.clone();
+    let (rx_consumer_getter, context, shutdowned, client) = join!(
         async move {
             debug!(target: logs::targets::CONSUMER, "getter subtask is started");
             while let Some(tx_response) = select! {
@@ -256,9 +260,16 @@ where
                     );
                 }
                 cancel_shutdown_getter.cancel();
-                Some(tx_response)
+                listener_finished.cancelled().await;
+                if tx_response.send(()).is_err() {
+                    error!(
+                        target: logs::targets::CONSUMER,
+                        "fail to send shutdown response/confirmation"
+                    );
+                }
+                true
             } else {
-                None
+                false
             }
         },
         async move {
@@ -341,6 +352,7 @@ where
             )
             .await;
             getter_task_canceler_caller.cancel();
+            listener_finished_caller.cancel();
             debug!(
                 target: logs::targets::CONSUMER,
                 "listener subtask is finished"
@@ -355,17 +367,6 @@ where
         }
     );
     debug!(target: logs::targets::CONSUMER, "listener task is finished");
-    let shutdowned = if let Some(tx_response) = shutdown.take() {
-        if tx_response.send(()).is_err() {
-            error!(
-                target: logs::targets::CONSUMER,
-                "fail to send shutdown response/confirmation"
-            );
-        }
-        true
-    } else {
-        false
-    };
     match client {
         Ok(client) => Ok((client, context, rx_consumer_getter, shutdowned)),
         Err(err) => Err(err),
-- 
2.43.0


From 2a35c65a06995b471b6e1cf80c3d2147462a3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:51 +0000
Subject: [PATCH 63/64] fix: a shutdown asked while a session of the Rust
 consumer was ending broke the session

---
 .../workflow/render/consumer/rust/render_consumer.rs  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index a617a33..274cf65 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -481,11 +481,12 @@ where
                 }
             }
             Channel::Shutdown(tx_response) => {
-                tx_shutdown.send(tx_response).await.map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send request for for Channel::Shutdown",
-                    ))
-                })?;
+                if tx_shutdown.send(tx_response).await.is_err() {
+                    warn!(
+                        target: logs::targets::CONSUMER,
+                        "session is being finished already; shutdown cannot be accepted any more"
+                    );
+                }
             }
         }
     }
-- 
2.43.0


From 1f4262cd701a0dd3aa7bd1c3a379e5028a7a1045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 64/64] fix: damaged enum made from() of TypeScript classes
 throw instead of returning an error

---
 .../static/protocol.primitives.enum.ts         | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 7ab80e9..c21cfd8 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -87,16 +87,16 @@ export abstract class Enum<T> {
 	}
 
 	public decode(bytes: ArrayBufferLike): Error | undefined {
-		const buffer = Buffer.from(bytes);
-		const id: number = buffer.readUInt16LE();
-		const target: ISigned<any> = this.getOptionValue(id);
-		const error: Error | undefined = target.decode(
-			bytes.slice(u16.getSize(), buffer.byteLength)
-		);
-		if (error instanceof Error) {
-			return error;
-		}
 		try {
+			const buffer = Buffer.from(bytes);
+			const id: number = buffer.readUInt16LE();
+			const target: ISigned<any> = this.getOptionValue(id);
+			const error: Error | undefined = target.decode(
+				bytes.slice(u16.getSize(), buffer.byteLength)
+			);
+			if (error instanceof Error) {
+				return error;
+			}
 			this._value = new Option<any>(id, target);
 		} catch (e) {
 			return new Error(`Fail to decode due error: ${e}`);
-- 
2.43.0

