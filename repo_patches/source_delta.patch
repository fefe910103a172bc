From 8c7170584e963729a00d8f6195c69c698e9d4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 01/58] fix: Rust protocol render refers to a type by its path
 from the root of protocol

A type was referred in generated code as it was spelled in .prot (or only by name, for optional
enums). With the same name in several groups, or with an optional enum of another group, generated
code did not compile or used another type.
---
 cli/src/protocol/render/rust/mod.rs | 97 ++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 38 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..076fc56 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -26,7 +26,7 @@ impl RustRender {
         );
         for enum_id in &group.enums {
             if let Some(enums) = store.get_enum(*enum_id) {
-                body = format!("{}\n{}", body, self.enums(&enums, level + 1));
+                body = format!("{}\n{}", body, self.enums(&enums, store, level + 1));
             }
         }
         for struct_id in &group.structs {
@@ -57,7 +57,7 @@ impl RustRender {
                 "{}\n{}{}",
                 body,
                 self.spaces(level + 1),
-                format!("pub {}: {},", field.name, self.get_declare_type_ref(field)),
+                format!("pub {}: {},", field.name, self.get_declare_type_ref(field, store, level)),
             );
         }
         body = format!("{}\n{}}}\n", body, self.spaces(level));
@@ -84,7 +84,7 @@ impl RustRender {
                 "{}{}{}\n",
                 body,
                 self.spaces(level + 3),
-                self.field_default(field, &mut store.clone(), level + 3)
+                self.field_default(field, &mut store.clone(), level + 3, level)
             );
         }
         body = format!("{}{}}}\n", body, self.spaces(level + 2));
@@ -97,7 +97,7 @@ impl RustRender {
         for field in &strct.fields {
             if field.optional {
                 if let Some(id) = field.ref_type_id {
-                    if let Some(enums) = store.get_enum(id) {
+                    if store.get_enum(id).is_some() {
                         body = format!(
                             "{}{}if let Some(buf) = storage.get({}) {{\n",
                             body,
@@ -112,7 +112,7 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, enums.name, field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, self.get_type_ref(field, store, level), field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
@@ -138,7 +138,7 @@ impl RustRender {
                 body,
                 self.spaces(level + 2),
                 field.name,
-                self.get_decode_type_ref(field),
+                self.get_decode_type_ref(field, store, level),
                 field.id
             );
             body = format!("{}{}Ok(val) => val,\n", body, self.spaces(level + 3));
@@ -263,11 +263,11 @@ impl RustRender {
         body
     }
 
-    fn enums(&self, enums: &Enum, level: u8) -> String {
+    fn enums(&self, enums: &Enum, store: &Store, level: u8) -> String {
         let mut body = format!("{}#[derive(Debug, Clone, PartialEq)]\n", self.spaces(level));
         body = format!("{}{}pub enum {} {{\n", body, self.spaces(level), enums.name);
         for item in &enums.variants {
-            let item_type = self.enum_item_type(item.clone());
+            let item_type = self.enum_item_type(item.clone(), store, level);
             body = format!(
                 "{}{}{},\n",
                 body,
@@ -333,7 +333,7 @@ impl RustRender {
         );
         body = format!("{}{}match index {{\n", body, self.spaces(level + 2));
         for (index, item) in enums.variants.iter().enumerate() {
-            let item_type = self.enum_item_type(item.clone());
+            let item_type = self.enum_item_type(item.clone(), store, level);
             body = format!(
                 "{}{}{} => match {}::decode(&body_buf) {{\n",
                 body,
@@ -446,7 +446,7 @@ impl RustRender {
         body
     }
 
-    fn enum_item_type(&self, item: EnumItem) -> String {
+    fn enum_item_type(&self, item: EnumItem, store: &Store, level: u8) -> String {
         if let Some(type_ref) = item.types {
             return match type_ref {
                 PrimitiveTypes::ETypes::Ei8 => "i8",
@@ -466,41 +466,57 @@ impl RustRender {
                 }
             }
             .to_string();
+        } else if let Some(ref_type_id) = item.ref_type_id {
+            self.get_entity_ref(ref_type_id, store, level)
         } else {
             item.get_full_name()
         }
     }
 
-    fn entity_default(&self, entity_id: usize, store: &mut Store, level: u8) -> String {
+    // Path to struct/enum from a module on given level (depth). Names aren't unique in scope of
+    // whole protocol: path should be started from the root of protocol always.
+    fn get_entity_ref(&self, entity_id: usize, store: &Store, level: u8) -> String {
+        let path = if store.get_enum(entity_id).is_some() {
+            store.get_enum_path(entity_id)
+        } else {
+            store.get_struct_path(entity_id)
+        };
+        format!("{}{}", "super::".repeat(level as usize), path.join("::"))
+    }
+
+    fn entity_default(
+        &self,
+        entity_id: usize,
+        store: &mut Store,
+        level: u8,
+        module_level: u8,
+    ) -> String {
+        let path = self.get_entity_ref(entity_id, store, module_level);
         if let Some(strct) = store.get_struct(entity_id) {
-            let path = if !strct.path.is_empty() {
-                format!("{}::", strct.path.join("::"))
-            } else {
-                String::new()
-            };
-            let mut body = format!("{}{} {{\n", path, strct.name);
+            let mut body = format!("{} {{\n", path);
             for field in &strct.fields {
                 body = format!(
                     "{}{}{}\n",
                     body,
                     self.spaces(level),
-                    self.field_default(field, &mut store.clone(), level)
+                    self.field_default(field, &mut store.clone(), level, module_level)
                 );
             }
             format!("{}{}}}", body, self.spaces(level - 1))
-        } else if let Some(enums) = store.get_enum(entity_id) {
-            let path = if !enums.path.is_empty() {
-                format!("{}::", enums.path.join("::"))
-            } else {
-                String::new()
-            };
-            format!("{}{}::Defaults", path, enums.name)
+        } else if store.get_enum(entity_id).is_some() {
+            format!("{}::Defaults", path)
         } else {
             panic!("Fail to find a struct/enum id: {}", entity_id);
         }
     }
 
-    fn field_default(&self, field: &Field, store: &mut Store, level: u8) -> String {
+    fn field_default(
+        &self,
+        field: &Field,
+        store: &mut Store,
+        level: u8,
+        module_level: u8,
+    ) -> String {
         let mut body = format!("{}: ", field.name);
         if field.repeated && !field.optional {
             body = format!("{}vec![],", body);
@@ -512,7 +528,7 @@ impl RustRender {
             body = format!(
                 "{}{},",
                 body,
-                self.entity_default(struct_id, store, level + 1)
+                self.entity_default(struct_id, store, level + 1, module_level)
             );
         }
         body
@@ -536,19 +552,24 @@ impl RustRender {
         }
     }
 
-    fn get_decode_type_ref(&self, field: &Field) -> String {
-        let mut type_str = self.get_type_ref(field);
-        if field.repeated {
-            type_str = format!("Vec::<{}>", type_str);
-        }
+    fn get_decode_type_ref(&self, field: &Field, store: &Store, level: u8) -> String {
+        let mut type_str = self.get_decode_value_type_ref(field, store, level);
         if field.optional {
             type_str = format!("Option::<{}>", type_str);
         }
         type_str
     }
 
-    fn get_declare_type_ref(&self, field: &Field) -> String {
-        let mut type_str = self.get_type_ref(field);
+    fn get_decode_value_type_ref(&self, field: &Field, store: &Store, level: u8) -> String {
+        let mut type_str = self.get_type_ref(field, store, level);
+        if field.repeated {
+            type_str = format!("Vec::<{}>", type_str);
+        }
+        type_str
+    }
+
+    fn get_declare_type_ref(&self, field: &Field, store: &Store, level: u8) -> String {
+        let mut type_str = self.get_type_ref(field, store, level);
         if field.repeated {
             type_str = format!("Vec<{}>", type_str);
         }
@@ -558,7 +579,7 @@ impl RustRender {
         type_str
     }
 
-    fn get_type_ref(&self, field: &Field) -> String {
+    fn get_type_ref(&self, field: &Field, store: &Store, level: u8) -> String {
         match field.kind.clone().as_str() {
             "bool" => String::from("bool"),
             "i8" => String::from("i8"),
@@ -573,8 +594,8 @@ impl RustRender {
             "f64" => String::from("f64"),
             "str" => String::from("String"),
             _ => {
-                if let Some(_ref_type_id) = field.ref_type_id {
-                    field.get_full_name().join("::")
+                if let Some(ref_type_id) = field.ref_type_id {
+                    self.get_entity_ref(ref_type_id, store, level)
                 } else {
                     panic!("Invalid type definition for field {}", field.name);
                 }
@@ -841,7 +862,7 @@ impl Render for RustRender {
         );
         for enums in &store.enums {
             if enums.parent == 0 {
-                body = format!("{}{}\n", body, self.enums(enums, 0));
+                body = format!("{}{}\n", body, self.enums(enums, store, 0));
             }
         }
         for strct in &store.structs {
-- 
2.43.0


From f15ceb0175c49a769fb6313b69a3bce4de9e2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 02/58] fix: Rust protocol render decodes an optional and
 repeated enum as Option<Vec<_>>

---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 076fc56..a098d5a 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -112,7 +112,7 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, self.get_type_ref(field, store, level), field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, self.get_decode_value_type_ref(field, store, level), field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
-- 
2.43.0


From d2955e3fcc19e83a0aae88475a8dd17baf89eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 03/58] fix: Rust decoder rejects a truncated or oversized
 property instead of panicking

---
 .../render/rust/static/protocol.storage.rs    | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..1cb0839 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -42,7 +42,22 @@ impl Storage {
         Ok(Storage { map })
     }
 
+    // Checks that buffer has at least len bytes, starting from given position
+    fn available(buf: &[u8], pos: usize, len: usize) -> Result<(), String> {
+        if buf.len().saturating_sub(pos) < len {
+            Err(format!(
+                "Expecting {} bytes at position {}, but length of buffer is {}",
+                len,
+                pos,
+                buf.len()
+            ))
+        } else {
+            Ok(())
+        }
+    }
+
     fn id(buf: &[u8], pos: usize) -> Result<(u16, usize), String> {
+        Storage::available(buf, pos, sizes::U16_LEN)?;
         let mut cursor: Cursor<&[u8]> = Cursor::new(buf);
         if let Ok(pos) = u64::try_from(pos) {
             cursor.set_position(pos);
@@ -54,6 +69,7 @@ impl Storage {
     }
 
     fn body(buf: &[u8], pos: usize) -> Result<(Vec<u8>, usize), String> {
+        Storage::available(buf, pos, sizes::U8_LEN)?;
         let mut cursor: Cursor<&[u8]> = Cursor::new(buf);
         if let Ok(pos) = u64::try_from(pos) {
             cursor.set_position(pos);
@@ -66,6 +82,7 @@ impl Storage {
         let prop_size_len: usize;
         match prop_body_len_rank {
             8 => {
+                Storage::available(buf, pos + prop_rank_len, sizes::U8_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u8()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U8_LEN;
@@ -74,6 +91,7 @@ impl Storage {
                 }
             }
             16 => {
+                Storage::available(buf, pos + prop_rank_len, sizes::U16_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u16_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U16_LEN;
@@ -82,6 +100,7 @@ impl Storage {
                 }
             }
             32 => {
+                Storage::available(buf, pos + prop_rank_len, sizes::U32_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u32_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U32_LEN;
@@ -90,6 +109,7 @@ impl Storage {
                 }
             }
             64 => {
+                Storage::available(buf, pos + prop_rank_len, sizes::U64_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u64_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U64_LEN;
@@ -101,6 +121,11 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
+        Storage::available(
+            buf,
+            pos + prop_rank_len + prop_size_len,
+            prop_body_len_usize,
+        )?;
         let mut prop_body_buf = vec![0; prop_body_len_usize];
         prop_body_buf.copy_from_slice(
             &buf[(pos + prop_rank_len + prop_size_len)
-- 
2.43.0


From a391197bb58723881869939c48c922a09874a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 04/58] fix: Rust decoder rejects an oversized length of an
 array item instead of panicking

---
 cli/src/protocol/render/rust/static/protocol.decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..0306a0c 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
-- 
2.43.0


From d24f08862b917bc7ad3d67082239db668d5429b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 05/58] fix: Rust enum decoder accepts a variant with an empty
 payload

---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index a098d5a..52e47f4 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -304,7 +304,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From deab83fcc209828782c0f8168b980b525e2f47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 06/58] fix: Rust packing compares a length of body without
 overflow

---
 cli/src/protocol/render/rust/static/protocol.packing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..58f5d68 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -98,7 +98,7 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
 }
 
 pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
-    buf.len() >= header.len_usize + MSG_HEADER_LEN
+    buf.len().saturating_sub(MSG_HEADER_LEN) >= header.len_usize
 }
 
 pub fn get_body_from_buffer(
@@ -106,8 +106,8 @@ pub fn get_body_from_buffer(
     header: &PackageHeader,
     uuid: Option<String>,
 ) -> Result<(Vec<u8>, Vec<u8>), String> {
-    if buf.len() < header.len_usize + MSG_HEADER_LEN {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len() - MSG_HEADER_LEN));
+    if buf.len() < MSG_HEADER_LEN || !has_buffer_body(buf, header) {
+        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len().saturating_sub(MSG_HEADER_LEN)));
     }
     // Get body
     let mut body = vec![0; header.len_usize];
-- 
2.43.0


From 84c363981837b95809517db63bab9c90fcf48706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 07/58] fix: Rust buffer reads all complete packages even if
 some of them cannot be read

---
 .../render/rust/static/protocol.buffer.rs     | 56 +++++++++----------
 .../render/rust/static/protocol.packing.rs    |  2 +-
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.buffer.rs b/cli/src/protocol/render/rust/static/protocol.buffer.rs
index 8e81a28..e51a9dd 100644
--- a/cli/src/protocol/render/rust/static/protocol.buffer.rs
+++ b/cli/src/protocol/render/rust/static/protocol.buffer.rs
@@ -1,6 +1,9 @@
 use super::packing;
 use packing::PackageHeader;
-use packing::{get_body_from_buffer, get_header_from_buffer, has_buffer_body, has_buffer_header};
+use packing::{
+    get_body_from_buffer, get_header_from_buffer, has_buffer_body, has_buffer_header,
+    MSG_HEADER_LEN,
+};
 
 // injectable
 #[derive(Debug)]
@@ -61,37 +64,32 @@ where
     pub fn chunk(&mut self, buf: &Vec<u8>, uuid: Option<String>) -> Result<(), ReadError> {
         // Add data into buffer
         self.buffer.append(&mut buf.clone());
-        if !has_buffer_header(&self.buffer) {
-            return Ok(());
-        }
-        // Get header
-        let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Header(e));
-            }
-        };
-        if !has_buffer_body(&self.buffer, &header) {
-            return Ok(());
-        }
-        let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Parsing(e));
-            }
-        };
-        self.buffer = rest;
-        match Self::get_message(self, &header, &body) {
-            Ok(msg) => {
-                self.queue.push(IncomeMessage { header, msg });
-                if !self.buffer.is_empty() {
-                    self.chunk(&vec![], uuid)
-                } else {
-                    Ok(())
+        // Read all complete packages. If some package cannot be read, it will be dropped and first
+        // error will be returned, but others packages will be available anyway
+        let mut result: Result<(), ReadError> = Ok(());
+        while has_buffer_header(&self.buffer) {
+            // Get header
+            let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
+                Ok(v) => v,
+                Err(e) => {
+                    return result.and(Err(ReadError::Header(e)));
                 }
+            };
+            if !has_buffer_body(&self.buffer, &header) {
+                break;
             }
-            Err(e) => Err(e),
+            let body = get_body_from_buffer(&self.buffer, &header, uuid.clone());
+            self.buffer.drain(..(MSG_HEADER_LEN + header.len_usize));
+            let msg = match body {
+                Ok((body, _)) => self.get_message(&header, &body),
+                Err(e) => Err(ReadError::Parsing(e)),
+            };
+            match msg {
+                Ok(msg) => self.queue.push(IncomeMessage { header, msg }),
+                Err(e) => result = result.and(Err(e)),
+            };
         }
+        result
     }
 
     #[allow(clippy::should_implement_trait)]
diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index 58f5d68..74f6394 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -6,7 +6,7 @@ use std::io::Cursor;
 use std::time::{SystemTime, UNIX_EPOCH};
 
 // injectable
-const MSG_HEADER_LEN: usize = sizes::U32_LEN + // {u32} message ID
+pub const MSG_HEADER_LEN: usize = sizes::U32_LEN + // {u32} message ID
                                 sizes::U16_LEN + // {u16} signature
                                 sizes::U32_LEN + // {u32} sequence
                                 sizes::U64_LEN + // {u64} body size
-- 
2.43.0


From e77ba5992f1bfc8495939e9cf13e001318805b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 08/58] fix: TypeScript protocol render refers to a struct or
 an enum by its path from the root of protocol

---
 cli/src/protocol/render/typescript/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index e052e23..8ff3e61 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -423,7 +423,7 @@ impl TypescriptRender {
                         body,
                         self.spaces(level + 1),
                         field.name,
-                        enums.name,
+                        store.get_enum_path(enums.id).join("."),
                     );
                     body = format!(
                         "{}\n{}{}this._{}.set(this.{});",
@@ -1075,7 +1075,7 @@ impl TypescriptRender {
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
                         if let Some(strct) = store.get_struct(struct_id) {
-                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, strct.name, if variant.repeated { "true" } else { "false" });
+                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, store.get_struct_path(strct.id).join("."), if variant.repeated { "true" } else { "false" });
                         } else {
                             stop!("Nested enums aren't supported.");
                         }
@@ -1159,7 +1159,7 @@ impl TypescriptRender {
                         store.get_struct_path(strct.id).join("."),
                         store.get_struct_path(strct.id).join(".")
                     );
-                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, strct.name, field.id, field.name, field.name);
+                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, store.get_struct_path(strct.id).join("."), field.id, field.name, field.name);
                     body = format!(
                         "{}\n{}if (arr{} instanceof Error) {{",
                         body,
@@ -1187,7 +1187,7 @@ impl TypescriptRender {
                         "{}const {}: {} = {};",
                         self.spaces(level),
                         field.name,
-                        field.get_full_name().join("."),
+                        store.get_struct_path(strct.id).join("."),
                         self.entity_default(entity_id, &mut store.clone(), level)
                     );
                     body = format!(
@@ -1216,7 +1216,7 @@ impl TypescriptRender {
                         body,
                         self.spaces(level),
                         field.name,
-                        field.get_full_name().join("."),
+                        store.get_struct_path(strct.id).join("."),
                         field.name,
                         field.name
                     );
@@ -1344,7 +1344,8 @@ impl TypescriptRender {
             };
             if let Some(strct) = store.get_struct(entity_id) {
                 if field.repeated {
-                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, strct.name, strct.name, strct.name, field.id, field.name);
+                    let path = store.get_struct_path(strct.id).join(".");
+                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, path, path, path, field.id, field.name);
                 } else {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
@@ -1431,7 +1432,10 @@ impl TypescriptRender {
                     if store.get_struct(ref_type_id).is_some() {
                         store.get_struct_path(ref_type_id).join(".")
                     } else if let Some(enums) = store.get_enum(ref_type_id) {
-                        format!("I{}", enums.name)
+                        let mut path = store.get_enum_path(enums.id);
+                        path.pop();
+                        path.push(format!("I{}", enums.name));
+                        path.join(".")
                     } else {
                         stop!(
                             "Fail to find a struct/enum id: {} for field {}",
-- 
2.43.0


From c8bd7f710ae9927500eb5f1396a4fc7c6c741464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 09/58] fix: TypeScript scheme of a struct is created on
 demand, so a struct of root can refer to a type of a group

---
 cli/src/protocol/render/typescript/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 8ff3e61..3edd888 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -446,7 +446,7 @@ impl TypescriptRender {
 
     fn struct_map(&self, strct: &Struct, store: &mut Store, level: u8) -> String {
         let mut body = format!(
-            "{}public static scheme: Protocol.IPropScheme[] = [",
+            "{}public static get scheme(): Protocol.IPropScheme[] {{ return [",
             self.spaces(level)
         );
         for field in &strct.fields {
@@ -456,7 +456,7 @@ impl TypescriptRender {
                 self.get_field_map_def(field, &mut store.clone(), level + 1),
             );
         }
-        body = format!("{}\n{}];\n", body, self.spaces(level));
+        body = format!("{}\n{}]; }}\n", body, self.spaces(level));
         body
     }
 
-- 
2.43.0


From d11913490eb20c103186dc4754c5c0df4a261909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 10/58] fix: TypeScript struct encodes current value of an enum
 field and supports repeated enums

Value of an enum field was copied into a private instance by constructor (a later change of the field
was ignored), and a repeated enum was encoded as empty.
---
 cli/src/protocol/render/typescript/mod.rs     | 99 ++++---------------
 .../typescript/static/protocol.convertor.ts   | 71 +++++++++++++
 2 files changed, 92 insertions(+), 78 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 3edd888..df3e68d 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -111,18 +111,6 @@ impl TypescriptRender {
             );
         }
 
-        for field in &strct.fields {
-            if let Some(ref_type_id) = field.ref_type_id {
-                if store.get_enum(ref_type_id).is_some() {
-                    body = format!(
-                        "{}\n{}{}",
-                        body,
-                        self.spaces(level + 1),
-                        format!("private _{}: Primitives.Enum;", field.name,),
-                    );
-                }
-            }
-        }
         body = format!("{}\n", body);
         body = format!(
             "{}{}public static getSignature(): string {{ return '{}'; }}\n",
@@ -140,7 +128,7 @@ impl TypescriptRender {
         body = format!(
             "{}\n{}",
             body,
-            self.struct_constructor(strct, &mut store.clone(), level + 1)
+            self.struct_constructor(strct, level + 1)
         );
         body = format!("{}\n", body);
         body = format!(
@@ -396,7 +384,7 @@ impl TypescriptRender {
         body
     }
 
-    fn struct_constructor(&self, strct: &Struct, store: &mut Store, level: u8) -> String {
+    fn struct_constructor(&self, strct: &Struct, level: u8) -> String {
         let mut body = format!(
             "{}constructor(params: I{})  {{\n",
             self.spaces(level),
@@ -414,32 +402,6 @@ impl TypescriptRender {
             self.spaces(level + 2)
         );
         body = format!("{}{}}});", body, self.spaces(level + 1));
-        for field in &strct.fields {
-            if let Some(ref_type_id) = field.ref_type_id {
-                if let Some(enums) = store.get_enum(ref_type_id) {
-                    // -------
-                    body = format!(
-                        "{}\n{}this._{} = new {}()",
-                        body,
-                        self.spaces(level + 1),
-                        field.name,
-                        store.get_enum_path(enums.id).join("."),
-                    );
-                    body = format!(
-                        "{}\n{}{}this._{}.set(this.{});",
-                        body,
-                        self.spaces(level + 1),
-                        if field.optional {
-                            format!("this.{} !== undefined && ", field.name)
-                        } else {
-                            "".to_string()
-                        },
-                        field.name,
-                        field.name,
-                    );
-                }
-            }
-        }
         body = format!("{}\n{}}}\n", body, self.spaces(level));
         body
     }
@@ -1242,64 +1204,37 @@ impl TypescriptRender {
                     );
                     body = format!("{}\n{}}}", body, self.spaces(level));
                 }
-            } else if let Some(_enums) = store.get_enum(entity_id) {
-                body = format!("{}this.{} = {{}};", self.spaces(level), field.name);
+            } else if store.get_enum(entity_id).is_some() {
+                let path = store.get_enum_path(entity_id).join(".");
                 body = format!(
-                    "{}\n{}const {}Buf: ArrayBufferLike | undefined = storage.get({});",
-                    body,
+                    "{}const {}Value = this.getValue<{}>(storage, {}, (buf: ArrayBufferLike) => this.{}(() => new {}(), buf));",
                     self.spaces(level),
                     field.name,
-                    field.id
+                    self.get_declare_type_ref(field, &mut store.clone()),
+                    field.id,
+                    if field.repeated { "decodeEnumArray" } else { "decodeEnum" },
+                    path
                 );
                 body = format!(
-                    "{}\n{}if ({}Buf === undefined) {{",
+                    "{}\n{}if ({}Value instanceof Error) {{",
                     body,
                     self.spaces(level),
                     field.name
                 );
                 body = format!(
-                    "{}\n{}return new Error(`Fail to get property \"{}\"`);",
+                    "{}\n{}return {}Value;",
                     body,
                     self.spaces(level + 1),
                     field.name
                 );
                 body = format!("{}\n{}}}", body, self.spaces(level));
                 body = format!(
-                    "{}\n{}if ({}Buf.byteLength > 0) {{",
+                    "{}\n{}this.{} = {}Value;",
                     body,
                     self.spaces(level),
-                    field.name
-                );
-                body = format!(
-                    "{}\n{}const {}Err: Error | undefined = this._{}.decode({}Buf);",
-                    body,
-                    self.spaces(level + 1),
-                    field.name,
                     field.name,
                     field.name
                 );
-                body = format!(
-                    "{}\n{}if ({}Err instanceof Error) {{",
-                    body,
-                    self.spaces(level + 1),
-                    field.name
-                );
-                body = format!(
-                    "{}\n{}return {}Err;",
-                    body,
-                    self.spaces(level + 2),
-                    field.name
-                );
-                body = format!("{}\n{}}} else {{", body, self.spaces(level + 1));
-                body = format!(
-                    "{}\n{}this.{} = this._{}.get();",
-                    body,
-                    self.spaces(level + 2),
-                    field.name,
-                    field.name
-                );
-                body = format!("{}\n{}}}", body, self.spaces(level + 1));
-                body = format!("{}\n{}}}", body, self.spaces(level));
             } else {
                 stop!(
                     "Fail to find a type by ref {} for field {}",
@@ -1350,7 +1285,15 @@ impl TypescriptRender {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
             } else if store.get_enum(entity_id).is_some() {
-                body = format!("() => {{{} const buffer = this._{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
+                body = format!(
+                    "() => {{{} return this.getBufferFromBuf({}, Protocol.ESize.u64, ({}) => this.{}(() => new {}(), value), this.{}); }}",
+                    optional,
+                    field.id,
+                    if field.repeated { "value: any[]" } else { "value: any" },
+                    if field.repeated { "encodeEnumArray" } else { "encodeEnum" },
+                    store.get_enum_path(entity_id).join("."),
+                    field.name
+                );
             } else {
                 stop!(
                     "Fail to find a type by ref {} for field {}",
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
index a20a8d7..60a4c42 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
@@ -3,6 +3,7 @@ import * as Tools from "./tools/index";
 
 import { ESize, CBits } from "./protocol.sizes";
 import { Storage } from "./protocol.convertor.storage";
+import { Enum } from "./protocol.primitives.enum";
 import { u32 } from "./protocol.primitives.u32";
 import { u64 } from "./protocol.primitives.u64";
 import { getPackingMiddleware, PackingMiddleware } from "./packing.middleware";
@@ -201,6 +202,76 @@ export abstract class Convertor<T> {
 		return selfs;
 	}
 
+	public encodeEnum<E>(
+		create: () => Enum<E>,
+		value: E
+	): ArrayBufferLike | Error {
+		const instance = create();
+		const error: Error | undefined = instance.set(value);
+		return error instanceof Error ? error : instance.encode();
+	}
+
+	public decodeEnum<E>(
+		create: () => Enum<E>,
+		bytes: ArrayBufferLike
+	): E | Error {
+		if (bytes.byteLength === 0) {
+			return {} as E;
+		}
+		const instance = create();
+		const error: Error | undefined = instance.decode(bytes);
+		return error instanceof Error ? error : instance.get();
+	}
+
+	public encodeEnumArray<E>(
+		create: () => Enum<E>,
+		items: E[]
+	): ArrayBufferLike | Error {
+		const buffers: ArrayBufferLike[] = [];
+		for (let i = 0; i < items.length; i += 1) {
+			const buffer = this.encodeEnum(create, items[i]);
+			if (buffer instanceof Error) {
+				return buffer;
+			}
+			const len = u64.encode(BigInt(buffer.byteLength));
+			if (len instanceof Error) {
+				return len;
+			}
+			buffers.push(len);
+			buffers.push(buffer);
+		}
+		return Tools.append(buffers);
+	}
+
+	public decodeEnumArray<E>(
+		create: () => Enum<E>,
+		bytes: ArrayBufferLike
+	): E[] | Error {
+		const buffer = Buffer.from(bytes);
+		const items: E[] = [];
+		let offset: number = 0;
+		while (offset < buffer.byteLength) {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(`Invalid size marker of an item in an array`);
+			}
+			const len = Number(buffer.readBigUInt64LE(offset));
+			offset += u64.getSize();
+			if (buffer.byteLength - offset < len) {
+				return new Error(`Invalid length of an item in an array`);
+			}
+			const item = this.decodeEnum(
+				create,
+				buffer.slice(offset, offset + len)
+			);
+			if (item instanceof Error) {
+				return item;
+			}
+			items.push(item);
+			offset += len;
+		}
+		return items;
+	}
+
 	public pack(sequence: number, uuid?: string): ArrayBufferLike {
 		const id: ArrayBufferLike | Error = Primitives.u32.encode(this.getId());
 		const signature: ArrayBufferLike | Error = Primitives.u16.encode(
-- 
2.43.0


From a4b8db160cdd04eafac73a8fad98aa16b6a8901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 11/58] fix: TypeScript decoder reads an identifier of a
 property as u16

---
 .../render/typescript/static/protocol.convertor.storage.ts      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index cc74a1e..2b81038 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -37,7 +37,7 @@ export class Storage {
 
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
-			return buffer.readUInt8(position);
+			return buffer.readUInt16LE(position);
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From 7a2f98a9c5ce3607e91533274e534767a57bba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 12/58] fix: TypeScript decoder returns an error for truncated
 data

---
 .../static/protocol.convertor.storage.ts         |  7 +++++++
 .../typescript/static/protocol.convertor.ts      |  9 +++++++--
 .../protocol.primitives.array.string.utf8.ts     |  7 +++++--
 .../static/protocol.primitives.enum.ts           | 16 ++++++++--------
 4 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index 2b81038..ffd8279 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -105,6 +105,13 @@ export class Storage {
 					position += Primitives.u64.getSize();
 					break;
 			}
+			if (buffer.byteLength - position < Number(length)) {
+				return new Error(
+					`Invalid length of property ${id}: expecting ${length} bytes, but only ${
+						buffer.byteLength - position
+					} bytes are available.`
+				);
+			}
 			const body = buffer.slice(position, position + Number(length));
 			position += Number(length);
 			return { id, body, position };
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
index 60a4c42..0f20874 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
@@ -178,13 +178,18 @@ export abstract class Convertor<T> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(
+					`Invalid size marker of ${this.getSignature()}/${this.getId()} in an array`
+				);
+			}
 			const len = buffer.readBigUInt64LE(offset);
-			if (isNaN(Number(len)) || !isFinite(Number(len))) {
+			offset += u64.getSize();
+			if (buffer.byteLength - offset < Number(len)) {
 				return new Error(
 					`Invalid length of ${this.getSignature()}/${this.getId()} in an array`
 				);
 			}
-			offset += u64.getSize();
 			const body = buffer.slice(offset, offset + Number(len));
 			const self = this.defaults();
 			if (typeof (self as any).decode !== "function") {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
index 497bcc3..1ff55e1 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
@@ -61,11 +61,14 @@ export class ArrayStrUTF8 extends Primitive<string[]> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u32.getSize()) {
+				return new Error(`Invalid size marker of string in an array`);
+			}
 			const len = buffer.readUInt32LE(offset);
-			if (isNaN(len) || !isFinite(len)) {
+			offset += u32.getSize();
+			if (buffer.byteLength - offset < len) {
 				return new Error(`Invalid length of string in an array`);
 			}
-			offset += u32.getSize();
 			const body = buffer.slice(offset, offset + len);
 			const str = StrUTF8.decode(body);
 			if (str instanceof Error) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 7ab80e9..4455600 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -88,15 +88,15 @@ export abstract class Enum<T> {
 
 	public decode(bytes: ArrayBufferLike): Error | undefined {
 		const buffer = Buffer.from(bytes);
-		const id: number = buffer.readUInt16LE();
-		const target: ISigned<any> = this.getOptionValue(id);
-		const error: Error | undefined = target.decode(
-			bytes.slice(u16.getSize(), buffer.byteLength)
-		);
-		if (error instanceof Error) {
-			return error;
-		}
 		try {
+			const id: number = buffer.readUInt16LE();
+			const target: ISigned<any> = this.getOptionValue(id);
+			const error: Error | undefined = target.decode(
+				bytes.slice(u16.getSize(), buffer.byteLength)
+			);
+			if (error instanceof Error) {
+				return error;
+			}
 			this._value = new Option<any>(id, target);
 		} catch (e) {
 			return new Error(`Fail to decode due error: ${e}`);
-- 
2.43.0


From b3e4efb0401950e4ada37cf383b6ec0f7fc221b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 13/58] fix: TypeScript buffer drops a message, which cannot be
 read, and continues with others

---
 .../render/typescript/static/packing.ts       | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/packing.ts b/cli/src/protocol/render/typescript/static/packing.ts
index a15edf5..e94830f 100644
--- a/cli/src/protocol/render/typescript/static/packing.ts
+++ b/cli/src/protocol/render/typescript/static/packing.ts
@@ -77,17 +77,23 @@ export abstract class BufferReader<T> {
 				if (body instanceof Error) {
 					errors.push(body);
 				} else {
-					const msg = this.getMessage(header, body);
-					if (msg instanceof Error) {
-						errors.push(msg);
-					} else {
-						this._queue.push(msg);
+					try {
+						const msg = this.getMessage(header, body);
+						if (msg instanceof Error) {
+							errors.push(msg);
+						} else {
+							this._queue.push(msg);
+						}
+					} catch (err) {
+						errors.push(
+							err instanceof Error
+								? err
+								: new Error(`Unknown error: ${err}`)
+						);
 					}
 				}
-				this._buffer = this._buffer.slice(
-					MessageHeader.SIZE + header.len
-				);
 			}
+			this._buffer = this._buffer.slice(MessageHeader.SIZE + header.len);
 		} while (true);
 		return errors.length > 0 ? errors : undefined;
 	}
-- 
2.43.0


From f78a8ec5dadd3ab0643c7da22cbaedda39593420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 14/58] fix: TypeScript string decoder keeps leading U+FEFF

---
 .../render/typescript/static/protocol.primitives.string.utf8.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
index f4f167d..4253f92 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
@@ -17,7 +17,7 @@ export class StrUTF8 extends Primitive<string> {
     }
 
     public static decode(bytes: ArrayBufferLike): string | Error {
-        const decoder = new TextDecoder();
+        const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
         return decoder.decode(bytes);
     }
 
-- 
2.43.0


From 4348692014d49e0946ec9e96bf3f7f7be8070bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 15/58] fix: TypeScript validator accepts whole range of u64
 and i64

---
 .../render/typescript/static/protocol.primitives.i64.ts       | 4 ++--
 .../render/typescript/static/protocol.primitives.u64.ts       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
index 3c1935f..7f4ced3 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class i64 extends Primitive<bigint> {
-	public static MIN: number = -Number.MAX_SAFE_INTEGER;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt("-9223372036854775808");
+	public static MAX: bigint = BigInt("9223372036854775807");
 
 	public static getSignature(): string {
 		return "i64";
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
index ce763e0..2065b5a 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class u64 extends Primitive<bigint> {
-	public static MIN: number = 0;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt(0);
+	public static MAX: bigint = BigInt("18446744073709551615");
 
 	public static getSignature(): string {
 		return "u64";
-- 
2.43.0


From a9e0f8ced46a9e9e8ec8343517c820ed4ec1afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 16/58] fix: protocol, which ends inside of a definition, is
 rejected

---
 cli/src/protocol/parser.rs | 8 ++++++++
 cli/src/protocol/store.rs  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..b0685c1 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,14 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.is_any_opened()
+                                || !is_in(&expectation, &EExpectation::GroupDef)
+                            {
+                                errs.push(format!(
+                                    "Unexpected end of file. Expected: {:?}",
+                                    expectation
+                                ));
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..8d2b698 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -367,6 +367,10 @@ impl Store {
         self.c_enum.is_some()
     }
 
+    pub fn is_any_opened(&self) -> bool {
+        self.c_group.is_some() || self.c_struct.is_some() || self.c_enum.is_some()
+    }
+
     pub fn is_field_opened(&mut self) -> bool {
         self.c_field.is_some()
     }
-- 
2.43.0


From ba8e5a30d82f561f0135f449d517630b5435fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 17/58] fix: whitespaces are allowed between a name of enum's
 variant and semicolon

---
 cli/src/protocol/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index b0685c1..e1b8638 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -86,7 +86,12 @@ impl Parser {
                     self.prev = Some(enext.clone());
                     let offset: usize = match enext {
                         ENext::Word((word, offset, next_char)) => {
-                            let next_char: char = if let Some(c) = next_char { c } else { '.' };
+                            let next_char: char = if let Some(c) = next_char {
+                                c
+                            } else {
+                                // name and its semicolon can be separated by whitespaces
+                                content[offset..].trim_start().chars().next().unwrap_or('.')
+                            };
                             if Entities::get_entity(&word).is_some()
                                 && (is_in(&expectation, &EExpectation::GroupDef)
                                     || is_in(&expectation, &EExpectation::StructDef)
-- 
2.43.0


From 2997eb66921226e83fbcf25b29099caa5ec873d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 18/58] fix: mark of repeated field has to be closed and opened

---
 cli/src/protocol/parser.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index e1b8638..1f44e57 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -326,6 +326,7 @@ impl Parser {
     fn next(&mut self, content: String) -> Result<ENext, ENextErr> {
         let mut str: String = String::new();
         let mut pass: usize = 0;
+        let mut opened: bool = false;
         let break_chars: Vec<char> = vec![
             chars::SEMICOLON,
             chars::OPEN,
@@ -349,6 +350,13 @@ impl Parser {
             if char.is_ascii_whitespace() && str.is_empty() {
                 continue;
             }
+            if opened && char != chars::CLOSE_SQ_BRACKET {
+                return Err(ENextErr::NotSupported(format!(
+                    "found char \"{}\", but expected: {}",
+                    char,
+                    chars::CLOSE_SQ_BRACKET
+                )));
+            }
             let mut breakable: Option<char> = None;
             if break_chars.iter().any(|&c| c == char) {
                 breakable = Some(char);
@@ -370,17 +378,16 @@ impl Parser {
                         if !str.is_empty() {
                             breakable = Some(char);
                         } else {
+                            opened = true;
                             continue;
                         }
                     }
                     chars::CLOSE_SQ_BRACKET => {
-                        if let Some(c) = str.chars().next() {
-                            if c != '[' {
-                                return Err(ENextErr::NotSupported(format!(
-                                    "found not supportable char: {}",
-                                    char
-                                )));
-                            }
+                        if !opened {
+                            return Err(ENextErr::NotSupported(format!(
+                                "found not supportable char: {}",
+                                char
+                            )));
                         }
                         return Ok(ENext::Repeated(pass));
                     }
@@ -399,7 +406,12 @@ impl Parser {
             }
             str.push(char);
         }
-        if str.is_empty() {
+        if opened {
+            Err(ENextErr::NotSupported(format!(
+                "expected: {}",
+                chars::CLOSE_SQ_BRACKET
+            )))
+        } else if str.is_empty() {
             Ok(ENext::End())
         } else {
             Ok(ENext::Word((str, pass - 1, None)))
-- 
2.43.0


From 17624674174cf1f227017fdb5a9f00c3c3ddfc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 19/58] fix: groups, structs, enums and enum's variants with
 same names are rejected

---
 cli/src/protocol/enums.rs |  7 +++++++
 cli/src/protocol/store.rs | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/enums.rs b/cli/src/protocol/enums.rs
index e756585..17c14fa 100644
--- a/cli/src/protocol/enums.rs
+++ b/cli/src/protocol/enums.rs
@@ -77,6 +77,13 @@ impl Enum {
     }
 
     pub fn set_name(&mut self, name: String) {
+        if self.variants.iter().any(|v| v.name == name) {
+            stop!(
+                "Fail to add item \"{}\" into \"{}\" because item with same name already exist",
+                name,
+                self.name
+            );
+        }
         if let Some(mut current) = self.current.take() {
             current.name = name;
             self.variants.push(current);
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 8d2b698..e4d7a5e 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -129,6 +129,18 @@ impl Store {
         path
     }
 
+    fn check_name(&self, parent: usize, name: &str) {
+        if self.structs.iter().any(|i| i.parent == parent && i.name == name)
+            || self.enums.iter().any(|i| i.parent == parent && i.name == name)
+            || self.groups.iter().any(|i| i.parent == parent && i.name == name)
+        {
+            stop!(
+                "Fail to define \"{}\" because group, struct or enum with same name already exist",
+                name
+            );
+        }
+    }
+
     pub fn open_struct(&mut self, name: String) {
         if self.c_struct.is_some() {
             stop!("Struct cannot be defined inside struct");
@@ -136,9 +148,10 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Struct cannot be defined inside enum");
         }
+        let parent = self.get_group_id();
+        self.check_name(parent, &name);
         self.sequence += 1;
         self.bind_struct_with_group(self.sequence);
-        let parent = self.get_group_id();
         self.c_struct = Some(Struct::new(
             self.sequence,
             parent,
@@ -154,9 +167,10 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Enum cannot be defined inside enum");
         }
+        let parent = self.get_group_id();
+        self.check_name(parent, &name);
         self.sequence += 1;
         self.bind_enum_with_group(self.sequence);
-        let parent = self.get_group_id();
         self.c_enum = Some(Enum::new(
             self.sequence,
             parent,
@@ -173,6 +187,7 @@ impl Store {
             stop!("Group cannot be defined inside enum");
         }
         let parent: usize = self.get_group_id();
+        self.check_name(parent, &name);
         self.sequence += 1;
         self.bind_group_with_group(self.sequence);
         self.c_group = Some(Group::new(self.sequence, parent, name));
-- 
2.43.0


From 61aac41f971ee3e48f870377a590b09483565be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 20/58] fix: types without a representation in a protocol are
 rejected by parser

---
 cli/src/protocol/types.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cli/src/protocol/types.rs b/cli/src/protocol/types.rs
index 5af0d92..aea1bdb 100644
--- a/cli/src/protocol/types.rs
+++ b/cli/src/protocol/types.rs
@@ -46,17 +46,14 @@ pub mod PrimitiveTypes {
     pub fn get_entity(str: &str) -> Option<ETypes> {
         match str {
             ctypes::Tbool => Some(ETypes::Ebool),
-            ctypes::Tchar => Some(ETypes::Echar),
             ctypes::Ti8 => Some(ETypes::Ei8),
             ctypes::Ti16 => Some(ETypes::Ei16),
             ctypes::Ti32 => Some(ETypes::Ei32),
             ctypes::Ti64 => Some(ETypes::Ei64),
-            ctypes::Tisize => Some(ETypes::Eisize),
             ctypes::Tu8 => Some(ETypes::Eu8),
             ctypes::Tu16 => Some(ETypes::Eu16),
             ctypes::Tu32 => Some(ETypes::Eu32),
             ctypes::Tu64 => Some(ETypes::Eu64),
-            ctypes::Tusize => Some(ETypes::Eusize),
             ctypes::Tf32 => Some(ETypes::Ef32),
             ctypes::Tf64 => Some(ETypes::Ef64),
             ctypes::Tstr => Some(ETypes::Estr),
-- 
2.43.0


From d4506d5065bf22fd86cc45a1f76d4a6645258cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 21/58] fix: CLI exits with an error code if generation failed

---
 cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 312214c..af90535 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -21,6 +21,7 @@ fn main() {
         std::process::exit(1);
     }
     if let Err(errors) = ctrl.actions() {
-        println!("{}", errors.join("\n"))
+        println!("{}", errors.join("\n"));
+        std::process::exit(1);
     }
 }
-- 
2.43.0


From 432da55824bba226063c6e45f4b30e53207b339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 22/58] fix: existing output file isn't removed before new
 content is rendered

---
 cli/src/arguments/args_option_files.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index 51bcb01..59786aa 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -10,7 +10,6 @@ use super::{
 use std::{
     collections::HashMap,
     fs,
-    fs::remove_file,
     path::{Path, PathBuf},
     time::Instant,
 };
@@ -339,14 +338,6 @@ impl CtrlArg for ArgsOptionFiles {
                             return Err(format!("File {:?} exists. Use key \"overwrite\" to overwrite file. -h to get more info", dest));
                         } else if dest.exists() {
                             println!("[INFO] {:?} will be overwritten", dest);
-                            if let Err(err) = remove_file(dest.clone()) {
-                                return Err(format!(
-                                    "Fail to remove file {:?} due error: {}",
-                                    dest, err
-                                ));
-                            } else {
-                                println!("[INFO] {:?} clean", dest);
-                            }
                         }
                         RustRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
                     }
@@ -355,14 +346,6 @@ impl CtrlArg for ArgsOptionFiles {
                             return Err(format!("File {:?} exists. Use key \"overwrite\" to overwrite file. -h to get more info", dest));
                         } else if dest.exists() {
                             println!("[INFO] {:?} will be overwritten", dest);
-                            if let Err(err) = remove_file(dest.clone()) {
-                                return Err(format!(
-                                    "Fail to remove file {:?} due error: {}",
-                                    dest, err
-                                ));
-                            } else {
-                                println!("[INFO] {:?} clean", dest);
-                            }
                         }
                         TypescriptRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
                     }
-- 
2.43.0


From ff77514f47eece854310894aff58f9a3e3e311fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 23/58] fix: TypeScript validator checks items of a repeated
 enum

---
 cli/src/protocol/render/typescript/mod.rs     |  5 +-
 .../typescript/static/protocol.validator.ts   | 85 +++++++++++--------
 2 files changed, 53 insertions(+), 37 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index df3e68d..5f453be 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1028,11 +1028,12 @@ impl TypescriptRender {
                 );
             } else if let Some(enums) = store.get_enum(entity_id) {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', optional: {}, options: [",
+                    "{}\n{}{{ prop: '{}', optional: {},{} options: [",
                     body,
                     self.spaces(level),
                     field.name,
-                    if field.optional { "true" } else { "false" }
+                    if field.optional { "true" } else { "false" },
+                    if field.repeated { " repeated: true," } else { "" }
                 );
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
diff --git a/cli/src/protocol/render/typescript/static/protocol.validator.ts b/cli/src/protocol/render/typescript/static/protocol.validator.ts
index 8d8e068..ec16eca 100644
--- a/cli/src/protocol/render/typescript/static/protocol.validator.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.validator.ts
@@ -8,6 +8,48 @@ export interface IPropScheme {
 	optional?: boolean;
 	types?: Required<IValidator>;
 	options?: IPropScheme[];
+	repeated?: boolean;
+}
+
+function validateOptions(
+	target: any,
+	property: IPropScheme,
+	variants: IPropScheme[]
+): string | undefined {
+	if (typeof target !== "object" || target === null) {
+		return `Property "${property.prop}" should be an object, because it's enum`;
+	}
+	const options: string[] = [];
+	try {
+		variants.forEach((prop: IPropScheme) => {
+			if (prop.types === undefined) {
+				throw new Error(
+					`Invalid option description for option "${prop.prop}" of option "${property.prop}"`
+				);
+			}
+			if (target[prop.prop] !== undefined) {
+				options.push(prop.prop);
+				const err: Error | undefined = prop.types.validate(
+					target[prop.prop]
+				);
+				if (err instanceof Error) {
+					throw new Error(
+						`Fail to validate option "${prop.prop}" of option "${property.prop}" due: ${err.message}`
+					);
+				}
+			}
+		});
+	} catch (err) {
+		return err instanceof Error
+			? err.message
+			: `Unknown error: ${err}`;
+	}
+	if (options.length > 1) {
+		return `Enum should have only one definition or nothing. Found values for: ${options.join(
+			", "
+		)}`;
+	}
+	return undefined;
 }
 
 export function validate(obj: any, scheme: IPropScheme[]): Error | undefined {
@@ -29,44 +71,17 @@ export function validate(obj: any, scheme: IPropScheme[]): Error | undefined {
 					return undefined;
 				}
 			} else if (property.options instanceof Array) {
-				if (
-					typeof obj[property.prop] !== "object" ||
-					obj[property.prop] === null
-				) {
-					return `Property "${property.prop}" should be an object, because it's enum`;
-				}
 				const target: any = obj[property.prop];
-				const options: string[] = [];
-				try {
-					property.options.forEach((prop: IPropScheme) => {
-						if (prop.types === undefined) {
-							throw new Error(
-								`Invalid option description for option "${prop.prop}" of option "${property.prop}"`
-							);
-						}
-						if (target[prop.prop] !== undefined) {
-							options.push(prop.prop);
-							const err: Error | undefined = prop.types.validate(
-								target[prop.prop]
-							);
-							if (err instanceof Error) {
-								throw new Error(
-									`Fail to validate option "${prop.prop}" of option "${property.prop}" due: ${err.message}`
-								);
-							}
-						}
-					});
-				} catch (err) {
-					return err instanceof Error
-						? err.message
-						: `Unknown error: ${err}`;
+				const variants: IPropScheme[] = property.options;
+				if (!property.repeated) {
+					return validateOptions(target, property, variants);
 				}
-				if (options.length > 1) {
-					return `Enum should have only one definition or nothing. Found values for: ${options.join(
-						", "
-					)}`;
+				if (!(target instanceof Array)) {
+					return `Property "${property.prop}" should be an array of enums`;
 				}
-				return undefined;
+				return target
+					.map((item) => validateOptions(item, property, variants))
+					.find((err) => err !== undefined);
 			} else {
 				return `Invalid map definition for property ${property.prop}`;
 			}
-- 
2.43.0


From c2f90e29b17103d1ed6ddae75d6f86629c5774ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 24/58] fix: the same broadcast in several actions of a request
 is declared twice in the Rust producer

---
 .../producer/rust/render_request_response.rs  | 39 ++++++++++---------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..20857a0 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -102,7 +102,7 @@ impl Render {
                     brodcast_output = format!(
                         "{}{},{}",
                         brodcast_output,
-                        self.get_broadcast_type_name(broadcast),
+                        self.get_broadcast_ref(broadcast),
                         if pos == action.broadcast.len() - 1 {
                             ""
                         } else {
@@ -129,30 +129,33 @@ impl Render {
 
     fn get_broadcast_types(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
+        let mut declared: Vec<&str> = vec![];
         for action in request.actions.iter() {
-            if !action.broadcast.is_empty() {
-                for broadcast in action.broadcast.iter() {
-                    if broadcast.optional {
-                        output = format!(
-                            "{}type {} = Option<(Vec<Uuid>, protocol::{})>;\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
-                    } else {
-                        output = format!(
-                            "{}type {} = (Vec<Uuid>, protocol::{});\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
-                    }
+            for broadcast in action.broadcast.iter() {
+                // Same broadcast can belong to several actions
+                if declared.contains(&broadcast.reference.as_str()) {
+                    continue;
                 }
+                declared.push(&broadcast.reference);
+                output = format!(
+                    "{}type {} = (Vec<Uuid>, protocol::{});\n",
+                    output,
+                    self.get_broadcast_type_name(broadcast),
+                    tools::into_rust_path(&broadcast.reference),
+                );
             }
         }
         Ok(output)
     }
 
+    fn get_broadcast_ref(&self, broadcast: &Broadcast) -> String {
+        if broadcast.optional {
+            format!("Option<{}>", self.get_broadcast_type_name(broadcast))
+        } else {
+            self.get_broadcast_type_name(broadcast)
+        }
+    }
+
     fn get_broadcast_type_name(&self, broadcast: &Broadcast) -> String {
         format!("Broadcast{}", broadcast.reference.replace(".", ""))
     }
-- 
2.43.0


From 94c0baadf62f435ae5abb9b2079b36e3f6e5092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 25/58] fix: broadcasts of a request with a single response are
 refused without a conclusion and ignored with it

---
 .../producer/rust/render_request_handler.rs   |  2 +-
 .../producer/rust/render_request_response.rs  |  2 +-
 .../typescript/render_request_handler.rs      |  2 +-
 .../workflow/render/puml/render_request.rs    |  8 ++------
 cli/src/workflow/request.rs                   | 20 ++++++++++++-------
 5 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 8ecde49..91d9489 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -100,7 +100,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1 || request.has_broadcasts() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
             output = output.replace("[[conclusions]]", &self.get_conclusions(request)?);
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 20857a0..c6fd621 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -58,7 +58,7 @@ impl Render {
             return Ok(());
         }
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1 || request.has_broadcasts() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[broadcast_types]]", &self.get_broadcast_types(request)?);
             output = output.replace(
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 7820748..db72dd8 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -175,7 +175,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1 || request.has_broadcasts() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace(
                 "[[required_broadcasts]]",
diff --git a/cli/src/workflow/render/puml/render_request.rs b/cli/src/workflow/render/puml/render_request.rs
index 1edf2b6..a6abb0c 100644
--- a/cli/src/workflow/render/puml/render_request.rs
+++ b/cli/src/workflow/render/puml/render_request.rs
@@ -34,13 +34,9 @@ impl RenderRequest {
 
     fn get_conclusions(&self, request: &Request) -> Result<String, String> {
         let mut output: String = String::new();
-        if request.actions.len() > 1 {
+        if request.actions.len() > 1 || request.has_broadcasts() {
             for action in &request.actions {
-                let name = if let Some(name) = action.conclusion.as_ref() {
-                    name
-                } else {
-                    return Err(String::from("Action doesn't have bound conclusion name"));
-                };
+                let name = action.get_conclusion()?;
                 let reference = if let Some(reference) = action.response.as_ref() {
                     reference
                 } else {
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index e3ab5c7..f8693bd 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -82,11 +82,11 @@ impl Action {
     }
 
     pub fn get_conclusion(&self) -> Result<String, String> {
-        if let Some(conclusion) = self.conclusion.as_ref() {
-            Ok(String::from(conclusion))
-        } else {
-            Err(String::from("Conclusion name isn't defined"))
-        }
+        // Conclusion can be omitted as soon as request has a single response only
+        Ok(self
+            .conclusion
+            .clone()
+            .unwrap_or_else(|| String::from("Response")))
     }
 
     pub fn get_response(&self) -> Result<String, String> {
@@ -227,6 +227,12 @@ impl Request {
         }
     }
 
+    pub fn has_broadcasts(&self) -> bool {
+        self.actions
+            .iter()
+            .any(|action| !action.broadcast.is_empty())
+    }
+
     pub fn get_path(&self) -> Result<String, String> {
         if let Some(request) = self.request.as_ref() {
             let mut parts: Vec<&str> = request.split('.').collect();
@@ -377,7 +383,7 @@ impl EntityParser for Request {
                                 EExpectation::Word,
                                 EExpectation::CloseBracket,
                             ];
-                        } else if action.response.is_some() && action.conclusion.is_some() {
+                        } else if action.response.is_some() {
                             /* USECASES:
                             Message.Request !Message.Err {
                                                                  |
@@ -421,7 +427,7 @@ impl EntityParser for Request {
                 if is_in(&self.expectation, &EExpectation::Question) {
                     match self.pending.clone() {
                         Pending::Action(mut action) => {
-                            if action.response.is_some() && action.conclusion.is_some() {
+                            if action.response.is_some() {
                                 /* USECASES:
                                 Message.Request !Message.Err {
                                                                                    |
-- 
2.43.0


From 6686c705d725425c1bbf5d440d05ca1ff3310842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 26/58] fix: request, whose name has an underline, is rejected
 by workflow parser

---
 cli/src/workflow/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index f8693bd..ff8b47a 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -250,7 +250,7 @@ impl Request {
 
 impl EntityParser for Request {
     fn open(word: String) -> Option<Self> {
-        if word.chars().all(char::is_alphanumeric) {
+        if word.chars().all(|c| c.is_alphanumeric() || c == '_') {
             Some(Self::new(word))
         } else {
             None
-- 
2.43.0


From ab95338d31478ace54842189288f32692eb796b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 27/58] fix: workflow, which ends inside of a declaration, is
 rejected

---
 cli/src/workflow/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..3a3a1a0 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,9 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(self.err("Unexpected end of file"));
+                            }
                             break;
                         }
                         _ => 0,
@@ -281,7 +284,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From b50adf2257a5c0a31b1cf2837b66d978ad9e84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 28/58] fix: workflow parser counts offsets in bytes, comments
 can have not ascii chars

---
 cli/src/workflow/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 3a3a1a0..6c10413 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -212,7 +212,7 @@ impl Parser {
         let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
-- 
2.43.0


From d757a961338ceffc31bb0e227e1df34c368bb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 29/58] fix: property of workflow config without semicolon is
 not ignored

---
 cli/src/workflow/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index ef76d9c..45fa044 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -443,7 +443,9 @@ impl EntityParser for Config {
                 }
             }
             ENext::Close(offset) => {
-                if let Err(e) = self.close(protocol) {
+                if !matches!(self.pending, Pending::Nothing) {
+                    Err(String::from("Property of config isn't finished with ;"))
+                } else if let Err(e) = self.close(protocol) {
                     Err(e)
                 } else {
                     Ok(offset)
-- 
2.43.0


From d4f86399569330817eeac4f7e79fe0ccba919abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 30/58] fix: the same broadcast of an event is rejected by
 workflow parser

---
 cli/src/workflow/event.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index a9bd4be..09458ee 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -284,6 +284,15 @@ impl EntityParser for Event {
                             */
                             if broadcast.reference.is_empty() {
                                 Err(String::from("Broadcast reference cannot be empty"))
+                            } else if self
+                                .broadcasts
+                                .iter()
+                                .any(|b| b.reference == broadcast.reference)
+                            {
+                                Err(format!(
+                                    "Broadcast {} has been already added",
+                                    broadcast.reference
+                                ))
                             } else {
                                 self.broadcasts.push(broadcast);
                                 self.expectation = vec![EExpectation::Arrow, EExpectation::Close];
-- 
2.43.0


From d13120259ee333a604f12506a3b70f00aca4e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 31/58] fix: Rust producer processes readable messages of a
 chunk, which has unreadable messages

---
 .../workflow/render/producer/rust/render_mod.rs  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..88e1334 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -405,7 +405,8 @@ pub mod producer {
             if consumer.get_identification().is_discredited() {
                 // Consumer is discredited do nothing with it
                 return Ok(());
-            } else if let Err(err) = consumer.chunk(&buffer) {
+            }
+            if let Err(err) = consumer.chunk(&buffer) {
                 responsing_err(
                     format!("fail to read chunk of data; error: {}", err),
                     uuid,
@@ -415,14 +416,13 @@ pub mod producer {
                     &mut Some(consumer),
                 )
                 .await?;
-                return Ok(());
-            } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
             }
+            // Even if a part of chunk cannot be read, other messages should be processed
+            (
+                consumer.get_messages(),
+                consumer.get_identification().assigned(),
+                consumer.get_identification().has_key(),
+            )
         } else {
             responsing_err(
                 String::from("fail to find consumer; message wouldn't be processed"),
-- 
2.43.0


From 93d1144db9817664ec31146a5dc2802ec064a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 32/58] fix: Rust producer ignores messages of a discredited
 consumer, which came with the same chunk

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 88e1334..4fef9c2 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -444,6 +444,10 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer has been discredited by previous message
+                return Ok(());
+            }
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
-- 
2.43.0


From e2ea00bb436ef6126bace86cd6c5e350f3fcf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 33/58] fix: Rust producer checks a key and an assignment of
 consumer for each message

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 4fef9c2..0a9622d 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -418,11 +418,7 @@ pub mod producer {
                 .await?;
             }
             // Even if a part of chunk cannot be read, other messages should be processed
-            (
-                consumer.get_messages(),
-                consumer.get_identification().assigned(),
-                consumer.get_identification().has_key(),
-            )
+            consumer.get_messages()
         } else {
             responsing_err(
                 String::from("fail to find consumer; message wouldn't be processed"),
@@ -586,7 +582,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !has_key {
+                    } else if !consumer.get_identification().has_key() {
                         warn!(
                             target: logs::targets::PRODUCER,
                             "consumer {} tries to send data, but it doesn't have a key", uuid
@@ -601,7 +597,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !assigned
+                    } else if !consumer.get_identification().assigned()
                         && options.producer_indentification_strategy
                             != ProducerIdentificationStrategy::Ignore
                     {
-- 
2.43.0


From cded51eede824526601d2071d12b0e680c20c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 34/58] fix: Rust producer stops if confirmation of connection
 cannot be sent to a consumer

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 0a9622d..1867350 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -806,14 +806,25 @@ pub mod producer {
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-                            control
+                            if let Err(err) = control
                                 .send(
                                     (protocol::InternalServiceGroup::ConnectConfirmationBeacon {})
                                         .pack(0, Some(uuid.to_string()))
                                         .map_err(|e| ProducerError::Protocol(uuid, e))?,
                                     Some(uuid),
                                 )
+                                .await
+                            {
+                                responsing_err(
+                                    format!("fail to send confirmation of connection: {}", err),
+                                    uuid,
+                                    &mut context,
+                                    &control,
+                                    options,
+                                    &mut Some(consumer),
+                                )
                                 .await?;
+                            }
                         } else {
                             emitters::error::emit::<E, C>(
                                 ProducerError::ConsumerError(format!(
-- 
2.43.0


From 9bd52558b6c7e65ef94cfb390f071bee9fdb6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 35/58] fix: Rust producer stops if it fails to disconnect a
 consumer

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 1867350..4fb60d9 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -324,7 +324,12 @@ pub mod producer {
             return Ok(());
         }
         consumer.get_mut_identification().discredited();
-        control.disconnect(uuid).await?;
+        if let Err(err) = control.disconnect(uuid).await {
+            warn!(
+                target: logs::targets::PRODUCER,
+                "{}:: fail to disconnect consumer: {}", uuid, err
+            );
+        }
         Ok(())
     }
 
-- 
2.43.0


From 04f9afbb1fc8f51bb7cd90d4797e2c10a762aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 36/58] fix: Rust consumer stops if a response comes after
 request was given up

---
 .../render/consumer/rust/render_consumer.rs   | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..9f44f95 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,12 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
-                            sequence
-                        ))
-                    })?;
+                    if response.send(msg).is_err() {
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "nobody waits for response anymore; sequence: {}", sequence
+                        );
+                    }
                     true
                 } else {
                     false
@@ -472,11 +472,12 @@ where
                 if sequence >= u32::MAX - 1 {
                     sequence = 10;
                 }
-                tx_response.send(sequence).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Sequence",
-                    ))
-                })?;
+                if tx_response.send(sequence).is_err() {
+                    warn!(
+                        target: logs::targets::CONSUMER,
+                        "nobody waits for sequence anymore"
+                    );
+                }
             }
             Channel::Shutdown(tx_response) => {
                 tx_shutdown.send(tx_response).await.map_err(|_| {
@@ -616,9 +617,12 @@ where
                     }
                 },
                 Auth::GetUuid(tx_response) => {
-                    tx_response.send(uuid).map_err(|_| {
-                        ConsumerError::APIChannel(String::from("Fail to response on uuid request"))
-                    })?;
+                    if tx_response.send(uuid).is_err() {
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "nobody waits for uuid anymore"
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0


From ccb2ba3747c1b8bbd447c02c44e3e1bcefd87c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 37/58] fix: Rust consumer takes a broadcast as a response of
 handshake

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 9f44f95..dc25923 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -641,8 +641,8 @@ where
     let mut key = options.key.clone();
     let response = api
         .request(
-            0,
-            &key.pack(0, None)
+            1,
+            &key.pack(1, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -679,9 +679,9 @@ where
     };
     let response = api
         .request(
-            1,
+            2,
             &hash
-                .pack(1, None)
+                .pack(2, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0


From cf9dfff0cd139e9dbb6814c4c250175a85d28601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 38/58] fix: Rust consumer processes readable messages of a
 chunk, which has unreadable messages

---
 .../render/consumer/rust/render_consumer.rs   | 99 +++++++++----------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index dc25923..5397b6a 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -521,61 +521,58 @@ where
                                 "has been received {} bytes",
                                 income.len()
                             );
-                            match buffer.chunk(&income, None) {
-                                Ok(()) => {
-                                    while let Some(msg) = buffer.next() {
-                                        if let protocol::AvailableMessages::InternalServiceGroup(
-                                            protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
-                                        ) = msg.msg {
-                                            debug!(
+                            if let Err(err) = buffer.chunk(&income, None) {
+                                shortcuts::emit_error::<E>(
+                                    ConsumerError::BufferError(format!("{:?}", err)),
+                                    &tx_consumer_event,
+                                )
+                                .await;
+                            }
+                            // Even if a part of chunk cannot be read, other messages should be processed
+                            while let Some(msg) = buffer.next() {
+                                if let protocol::AvailableMessages::InternalServiceGroup(
+                                    protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
+                                ) = msg.msg {
+                                    debug!(
+                                        target: logs::targets::CONSUMER,
+                                        "producer has been confirmed connection"
+                                    );
+                                    let api_auth = api.clone();
+                                    let options_auth = options.clone();
+                                    let tx_auth_auth = tx_auth.clone();
+                                    spawn(async move {
+                                        if let Err(err) = tx_auth_auth
+                                            .send(Auth::SetUuid(auth(api_auth, options_auth).await))
+                                        {
+                                            error!(
                                                 target: logs::targets::CONSUMER,
-                                                "producer has been confirmed connection"
+                                                "fail to send response for consumer auth: {}", err
                                             );
-                                            let api_auth = api.clone();
-                                            let options_auth = options.clone();
-                                            let tx_auth_auth = tx_auth.clone();
-                                            spawn(async move {
-                                                if let Err(err) = tx_auth_auth
-                                                    .send(Auth::SetUuid(auth(api_auth, options_auth).await))
-                                                {
-                                                    error!(
-                                                        target: logs::targets::CONSUMER,
-                                                        "fail to send response for consumer auth: {}", err
-                                                    );
-                                                }
-                                            });
-                                            continue;
                                         }
-                                        match api.accept(msg.header.sequence, msg.msg.clone()).await
-                                        {
-                                            Ok(accepted) => {
-                                                if accepted {
-                                                    continue;
-                                                }
-                                            }
-                                            Err(err) => {
-                                                shortcuts::emit_error::<E>(
-                                                        ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
-                                                        &tx_consumer_event
-                                                    ).await;
-                                            }
-                                        };
-                                        match msg.msg {[[broadcast_handlers]]
-                                            _ => {
-                                                shortcuts::emit_error::<E>(
-                                                    ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
-                                                    &tx_consumer_event
-                                                ).await;
-                                            }
+                                    });
+                                    continue;
+                                }
+                                match api.accept(msg.header.sequence, msg.msg.clone()).await
+                                {
+                                    Ok(accepted) => {
+                                        if accepted {
+                                            continue;
                                         }
                                     }
-                                }
-                                Err(err) => {
-                                    shortcuts::emit_error::<E>(
-                                        ConsumerError::BufferError(format!("{:?}", err)),
-                                        &tx_consumer_event,
-                                    )
-                                    .await;
+                                    Err(err) => {
+                                        shortcuts::emit_error::<E>(
+                                                ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
+                                                &tx_consumer_event
+                                            ).await;
+                                    }
+                                };
+                                match msg.msg {[[broadcast_handlers]]
+                                    _ => {
+                                        shortcuts::emit_error::<E>(
+                                            ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
+                                            &tx_consumer_event
+                                        ).await;
+                                    }
                                 }
                             }
                         }
@@ -800,7 +797,7 @@ impl Render {
                 broadcast.reference.replace(".", ""),
             );
         }
-        Ok(tools::inject_tabs(13, output))
+        Ok(tools::inject_tabs(11, output))
     }
 
     fn get_dest_file(&self, base: &Path) -> Result<PathBuf, String> {
-- 
2.43.0


From 549a0125da214691982956f22d22f6e70abd6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 39/58] fix: workflow parser ignores or joins words on places,
 where words are not expected

---
 cli/src/workflow/beacon.rs  | 6 ++++++
 cli/src/workflow/event.rs   | 6 ++++++
 cli/src/workflow/request.rs | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index b16be9a..f780526 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -127,6 +127,12 @@ impl EntityParser for Beacons {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Broadcast(path_to_struct) => {
                         /* USECASES:
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index 09458ee..7c08c4c 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -148,6 +148,12 @@ impl EntityParser for Event {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Reference(path_to_struct) => {
                         /* USECASES:
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index ff8b47a..2bba492 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -309,6 +309,12 @@ impl EntityParser for Request {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Nothing => {}
                     Pending::Request(path_to_struct) => {
-- 
2.43.0


From 65a654e9bf282f319d6e717d2dc34c6f5b9df52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 40/58] fix: workflow parser accepts reference to broadcast,
 which starts with a dot

---
 cli/src/workflow/beacon.rs  | 3 +--
 cli/src/workflow/event.rs   | 3 +--
 cli/src/workflow/request.rs | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index f780526..8e1a0db 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -233,8 +233,7 @@ impl EntityParser for Beacons {
                             }
                             */
                             self.pending = Pending::Broadcast(String::new());
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index 7c08c4c..a46843a 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -330,8 +330,7 @@ impl EntityParser for Event {
                             }
                             */
                             self.pending = Pending::Broadcast(Broadcast::new(String::new(), false));
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 2bba492..3c2f8ba 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -685,8 +685,7 @@ impl EntityParser for Request {
                             }
                             */
                             self.pending = Pending::Broadcast(String::new());
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         Pending::Action(mut action) => {
-- 
2.43.0


From d953199ee487094f56748517953db615f0d43624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 41/58] fix: workflow parser accepts paths and repeated names
 as conclusions of request

---
 cli/src/workflow/request.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 3c2f8ba..fc87912 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -166,7 +166,21 @@ impl Request {
                 ));
             }
         }
-        for action in self.actions.iter() {
+        for (n, action) in self.actions.iter().enumerate() {
+            if let Some(conclusion) = action.conclusion.as_ref() {
+                if !conclusion.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                    return Err(format!(
+                        "Conclusion {} should be a name without a path",
+                        conclusion
+                    ));
+                }
+                if self.actions[..n]
+                    .iter()
+                    .any(|a| a.conclusion.as_ref() == Some(conclusion))
+                {
+                    return Err(format!("Conclusion {} has been already added", conclusion));
+                }
+            }
             if action.conclusion.is_none() && self.actions.len() != 1 {
                 return Err(String::from("In case request has a multiple response, should be defined conclusion for each response"));
             }
-- 
2.43.0


From cbb54a62e777491adaebbe2632a57e44bcc3fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 42/58] fix: TypeScript producer isn't compilable if all
 broadcasts are optional

---
 .../workflow/render/producer/typescript/render_event_emitter.rs | 2 +-
 .../render/producer/typescript/render_request_handler.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
index 46864be..f58327b 100644
--- a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
@@ -175,7 +175,7 @@ impl Render {
         Ok(tools::inject_tabs(
             1,
             format!(
-                r#"static REQUIRED = [{}
+                r#"static REQUIRED: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                 tools::inject_tabs(1, broadcasts),
             ),
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index db72dd8..97bf7cd 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -222,7 +222,7 @@ impl Render {
                     broadcasts = format!("{}\nProtocol.{},", broadcasts, broadcast.reference);
                 }
                 output = format!(
-                    r#"{}{}static REQUIRED_{} = [{}
+                    r#"{}{}static REQUIRED_{}: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                     output,
                     "\n",
-- 
2.43.0


From 12c2af69476ca95571093cdb5d7e9afe00cba8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 43/58] fix: the same broadcast in several actions of a request
 is declared twice in the TypeScript producer

---
 .../typescript/render_request_handler.rs      | 58 +++++++++++++------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 97bf7cd..56d9f12 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -77,11 +77,12 @@ export function handler(
 }"#;
     pub const BROADCAST_IMPL: &str = r#"[[name]](msg: Protocol.[[reference]]): Response {
     if (
-        self._response.getId() !==
-        Protocol.[[conclusion]].getId()
+        [
+[[conclusions_ids]]
+        ].indexOf(self._response.getId()) === -1
     ) {
         throw new Error(
-            `Message "Protocol.[[reference]]" can be used only with "Protocol.[[conclusion]]"`
+            `Message "Protocol.[[reference]]" can be used only with [[conclusions]]`
         );
     }
     if (
@@ -250,31 +251,52 @@ impl Render {
 
     fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
-            for broadcast in action.broadcast.iter() {
-                output = format!(
-                    "{}\n{}(msg: Protocol.{}): Response;",
-                    output,
-                    broadcast.reference.replace(".", ""),
-                    broadcast.reference,
-                );
-            }
+        for reference in self.get_broadcasts_refs(request) {
+            output = format!(
+                "{}\n{}(msg: Protocol.{}): Response;",
+                output,
+                reference.replace(".", ""),
+                reference,
+            );
         }
         Ok(tools::inject_tabs(2, output))
     }
 
     fn get_methods_implementations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
+        for reference in self.get_broadcasts_refs(request) {
+            let mut ids: Vec<String> = vec![];
+            let mut conclusions: Vec<String> = vec![];
+            for action in request
+                .actions
+                .iter()
+                .filter(|action| action.broadcast.iter().any(|b| b.reference == reference))
+            {
+                let response = action.get_response()?;
+                ids.push(format!("            Protocol.{}.getId(),", response));
+                conclusions.push(format!("\"Protocol.{}\"", response));
+            }
+            let mut out = templates::BROADCAST_IMPL.to_owned();
+            out = out.replace("[[name]]", &reference.replace(".", ""));
+            out = out.replace("[[reference]]", &reference);
+            out = out.replace("[[conclusions_ids]]", &ids.join("\n"));
+            out = out.replace("[[conclusions]]", &conclusions.join(", "));
+            output = format!("{}\n{}", output, out,);
+        }
+        Ok(tools::inject_tabs(3, output))
+    }
+
+    // Same broadcast can belong to several actions
+    fn get_broadcasts_refs(&self, request: &Request) -> Vec<String> {
+        let mut refs: Vec<String> = vec![];
         for action in request.actions.iter() {
             for broadcast in action.broadcast.iter() {
-                let mut out = templates::BROADCAST_IMPL.to_owned();
-                out = out.replace("[[name]]", &broadcast.reference.replace(".", ""));
-                out = out.replace("[[reference]]", &broadcast.reference);
-                out = out.replace("[[conclusion]]", &action.get_response()?);
-                output = format!("{}\n{}", output, out,);
+                if !refs.contains(&broadcast.reference) {
+                    refs.push(broadcast.reference.clone());
+                }
             }
         }
-        Ok(tools::inject_tabs(3, output))
+        refs
     }
 
     fn get_broadcast_checks(&self, request: &Request) -> Result<String, String> {
-- 
2.43.0


From 649bd3deb3c1e3dfc93365b944223348b8f4d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 44/58] fix: TypeScript producer considers any consumer as
 assigned

---
 .../render/producer/typescript/render_identification.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index adb72fd..c62c6be 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -62,7 +62,7 @@ export class Identification {
     }
 
     public assigned(): boolean {
-        if (this.assign === undefined) {
+        if (this._assigned === undefined) {
             switch (this._strategy) {
                 case ProducerIdentificationStrategy.Ignore:
                     return true;
-- 
2.43.0


From 6426bb60873a43ba92bba1ad4f7f2212535ca8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 45/58] fix: TypeScript producer doesn't discredit a consumer,
 which is being disconnected

---
 .../render/producer/typescript/render_mod.rs  | 68 +++++++++----------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1842f8d..1f5cad4 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -230,19 +230,20 @@ export class Producer {
             );
         }
         if (consumer.getIdentification().isDiscredited()) {
-            return this._receivingErr(
-                new Error(
-                    `consumer ${event.uuid} discredited, received data would be ignored`
-                ),
-                event.uuid,
-                consumer
+            this._logger.warn(
+                `consumer ${event.uuid} discredited, received data would be ignored`
             );
+            return;
         }
         const error = consumer.chunk(event.buffer);
         if (error instanceof Error) {
             return this._receivingErr(error, event.uuid, consumer);
         }
         do {
+            if (consumer.getIdentification().isDiscredited()) {
+                // Consumer has been discredited by previous message
+                return;
+            }
             const message = consumer.message();
             if (message === undefined) {
                 return;
@@ -311,11 +312,7 @@ export class Producer {
                     );
                 });
                 if (hashErr !== undefined) {
-                    this.disconnect(event.uuid).catch((err: Error) => {
-                        this._logger.err(
-                            `Fail to disconnect consumer ${event.uuid} because hash; error: ${err.message}`
-                        );
-                    });
+                    this._discredit(consumer, `hash`);
                     this._checkErr(
                         Events.errorHandler(
                             hashErr,
@@ -331,11 +328,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.isHashAccepted()) {
-                this.disconnect(event.uuid).catch((err: Error) => {
-                    this._logger.err(
-                        `Fail to disconnect consumer ${event.uuid} because not accepted hash; error: ${err.message}`
-                    );
-                });
+                this._discredit(consumer, `not accepted hash`);
                 this._checkErr(
                     Events.errorHandler(
                         new ProducerError(
@@ -353,11 +346,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.getIdentification().hasKey()) {
-                this.disconnect(event.uuid).catch((err: Error) => {
-                    this._logger.err(
-                        `Fail to disconnect consumer ${event.uuid} because key isn't setup; error: ${err.message}`
-                    );
-                });
+                this._discredit(consumer, `key isn't setup`);
                 this._checkErr(
                     Events.errorHandler(
                         new ProducerError(
@@ -393,11 +382,7 @@ export class Producer {
                     this._options.producerIndentificationStrategy ===
                         ProducerIdentificationStrategy.EmitErrorAndDisconnect
                 ) {
-                    this.disconnect(event.uuid).catch((err: Error) => {
-                        this._logger.err(
-                            `Fail to disconnect consumer ${event.uuid} because assigned key isn't setup; error: ${err.message}`
-                        );
-                    });
+                    this._discredit(consumer, `assigned key isn't setup`);
                 }
                 if (
                     this._options.producerIndentificationStrategy ===
@@ -445,6 +430,25 @@ export class Producer {
         } while (true);
     }
 
+    private _discredit(consumer: Consumer, reason: string): void {
+        const identification = consumer.getIdentification();
+        if (identification.isDiscredited()) {
+            return;
+        }
+        identification.discredited();
+        this.disconnect(identification.uuid())
+            .then(() => {
+                this._logger.debug(
+                    `consumer ${identification.uuid()} has been disconnected`
+                );
+            })
+            .catch((err: Error) => {
+                this._logger.err(
+                    `Fail to disconnect consumer ${identification.uuid()} because ${reason}; error: ${err.message}`
+                );
+            });
+    }
+
     private _receivingErr(
         error: Error,
         uuid: string,
@@ -463,17 +467,7 @@ export class Producer {
                 ConsumerErrorHandelingStrategy.EmitErrorAndDisconnect
         ) {
             if (consumer !== undefined) {
-                this.disconnect(uuid)
-                    .then(() => {
-                        this._logger.debug(
-                            `consumer ${uuid} has been disconnected`
-                        );
-                    })
-                    .catch((err: Error) => {
-                        this._logger.err(
-                            `fail to disconnect ${uuid}; error: ${err.message}`
-                        );
-                    });
+                this._discredit(consumer, error.message);
             }
         }
         if (
-- 
2.43.0


From f108ebb8f895f95224cff5fdf2d2e474684a466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 46/58] fix: TypeScript producer processes readable messages of
 a chunk, which has unreadable or unknown messages

---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1f5cad4..4f921ae 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -237,7 +237,8 @@ export class Producer {
         }
         const error = consumer.chunk(event.buffer);
         if (error instanceof Error) {
-            return this._receivingErr(error, event.uuid, consumer);
+            // Even if a part of chunk cannot be read, other messages should be processed
+            this._receivingErr(error, event.uuid, consumer);
         }
         do {
             if (consumer.getIdentification().isDiscredited()) {
@@ -426,7 +427,6 @@ export class Producer {
 					)}`
 				);
 			} catch (_) {}
-            break;
         } while (true);
     }
 
-- 
2.43.0


From ac6b0478e71ae3eb55410f78ab718296382b78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 47/58] fix: TypeScript producer doesn't confirm connection of
 a consumer

---
 .../render/producer/typescript/render_mod.rs  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 4f921ae..17aa70e 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -180,10 +180,29 @@ export class Producer {
                 new Filter(this._consumers),
                 this._context,
                 this
-            )
+            ).finally(() => this._confirmConnection(consumer))
         );
     }
 
+    private _confirmConnection(consumer: Consumer): void {
+        const uuid = consumer.getIdentification().uuid();
+        if (this._consumers.get(uuid) !== consumer) {
+            return;
+        }
+        this.send(
+            uuid,
+            new Protocol.InternalServiceGroup.ConnectConfirmationBeacon({}).pack(0, uuid)
+        ).catch((err: Error) => {
+            this._receivingErr(
+                new Error(
+                    `fail to send confirmation of connection to ${uuid}; error: ${err.message}`
+                ),
+                uuid,
+                consumer
+            );
+        });
+    }
+
     private _onClientDisconnected(uuid: string) {
         const consumer = this._consumers.get(uuid);
         if (consumer === undefined) {
-- 
2.43.0


From ac6d293491cf29d2e8105f9bfd29878af3049eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 48/58] fix: TypeScript consumer, which is refused as a second
 global one, doesn't listen to a client

---
 .../render/consumer/typescript/render_consumer.rs     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 0c42841..80ebeb6 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -115,10 +115,6 @@ export class Consumer {
         this._key = key;
         this._options = new Options(`Consumer ${Consumer.GUID}`, options);
         this._logger = this._options.logger;
-        this._subscriptions.data = this._client.getEvents().data.subscribe(this._onData.bind(this));
-        this._subscriptions.connected = this._client.getEvents().connected.subscribe(this._onClientConnected.bind(this));
-        this._subscriptions.disconnected = this._client.getEvents().disconnected.subscribe(this._onClientDisconnected.bind(this));
-        this._subscriptions.error = this._client.getEvents().error.subscribe(this._onClientError.bind(this));
         if (this._options.global) {
             const global = globals();
             if (global instanceof Error) {
@@ -127,6 +123,13 @@ export class Consumer {
             if (global[Consumer.GUID] !== undefined) {
                 throw new Error(`Attempt to init consumer multiple times`);
             }
+        }
+        this._subscriptions.data = this._client.getEvents().data.subscribe(this._onData.bind(this));
+        this._subscriptions.connected = this._client.getEvents().connected.subscribe(this._onClientConnected.bind(this));
+        this._subscriptions.disconnected = this._client.getEvents().disconnected.subscribe(this._onClientDisconnected.bind(this));
+        this._subscriptions.error = this._client.getEvents().error.subscribe(this._onClientError.bind(this));
+        if (this._options.global) {
+            const global = globals();
             global[Consumer.GUID] = this;
             if (global[Consumer.GUID_SUBS] !== undefined) {
                 ((subject: Subject<Consumer>) => {
-- 
2.43.0


From 09cf73056f8420d4cd02e10beb40b51ccd07712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 49/58] fix: TypeScript consumer processes readable messages of
 a chunk, which has unreadable messages

---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 80ebeb6..6e4917a 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -247,7 +247,6 @@ export class Consumer {
         const errors: Error[] | undefined = this._buffer.chunk(buffer);
         if (errors instanceof Array) {
             this._logger.err(`Fail to process chunk of data due error(s):\n\t${errors.map(e => e.message).join('\n\t')}`)
-            return;
         }
         do {
             const msg: Protocol.IAvailableMessage<Protocol.IAvailableMessages> | undefined =  this._buffer.next();
-- 
2.43.0


From 8482d9b861aef1ea1c2e6913a9ce2fb3b0069069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 50/58] fix: calls of TypeScript consumer never end if client
 is disconnected or consumer is destroyed

---
 .../consumer/typescript/render_consumer.rs    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 6e4917a..ceb7849 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -37,6 +37,11 @@ export namespace ExtError {
 
 }
 
+interface IPending {
+    resolve: (response: Protocol.IAvailableMessages) => void;
+    reject: (error: Error) => void;
+}
+
 export class Consumer {
 
     public static PROTOCOL_HASH: string = "[[protocol_hash]]";
@@ -71,7 +76,7 @@ export class Consumer {
  
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
-    private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
+    private readonly _pending: Map<number, IPending> = new Map();
     private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
@@ -149,6 +154,7 @@ export class Consumer {
 			const global = globals();
 			global[Consumer.GUID] = undefined;
 		}
+		this._rejectPending(`Consumer is destroyed`);
 		return this._client.destroy();
 	}
 
@@ -163,8 +169,8 @@ export class Consumer {
         if (sequence === undefined) {
             return Promise.resolve({});
         }
-        return new Promise((resolve) => {
-            this._pending.set(sequence, resolve);
+        return new Promise((resolve, reject) => {
+            this._pending.set(sequence, { resolve, reject });
         });
     }
 
@@ -217,6 +223,12 @@ export class Consumer {
         });
     }
 
+    private _rejectPending(reason: string) {
+        const pending: IPending[] = Array.from(this._pending.values());
+        this._pending.clear();
+        pending.forEach((p) => p.reject(new Error(reason)));
+    }
+
     private _onClientConnected() {
         this._logger.debug(`Client is connected`);
         this.assign(this._key).then((uuid: string) => {
@@ -235,6 +247,7 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._rejectPending(`Client is disconnected`);
         this.disconnected.emit();
     }
 
@@ -256,7 +269,7 @@ export class Consumer {
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-                pending(msg.msg);
+                pending.resolve(msg.msg);
             }[[broadcasts_checking]]
             
         } while (true);
-- 
2.43.0


From 6b3b673d72219ad4a06ae546780818a68827e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 51/58] fix: request or beacon of TypeScript consumer cannot be
 sent again after a failure

---
 cli/src/workflow/render/consumer/typescript/render_beacon.rs  | 3 +++
 cli/src/workflow/render/consumer/typescript/render_request.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cli/src/workflow/render/consumer/typescript/render_beacon.rs b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
index 9f476b9..6a82002 100644
--- a/cli/src/workflow/render/consumer/typescript/render_beacon.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
@@ -104,6 +104,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                     }
                 })
                 .catch((err: Error) => {
+                    if (this._state === ERequestState.Pending) {
+                        this._state = ERequestState.Ready;
+                    }
                     reject(err);
                 });
         });
diff --git a/cli/src/workflow/render/consumer/typescript/render_request.rs b/cli/src/workflow/render/consumer/typescript/render_request.rs
index d25bf40..ff5242e 100644
--- a/cli/src/workflow/render/consumer/typescript/render_request.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_request.rs
@@ -54,6 +54,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                         return reject(new Error(`Unexpected state for request "[[reference]]".`));
                 }
             }).catch((err: Error) => {
+                if (this._state === ERequestState.Pending) {
+                    this._state = ERequestState.Ready;
+                }
                 reject(err);
             });
         });
-- 
2.43.0


From b41208d316c046c2811b08b5b8709fb2c939ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 52/58] fix: TypeScript consumer joins the rest of a previous
 connection with data of a new one

---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index ceb7849..bbeadee 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -77,7 +77,7 @@ export class Consumer {
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
     private readonly _pending: Map<number, IPending> = new Map();
-    private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
+    private _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
     private _uuid: string | undefined;
@@ -247,6 +247,7 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._buffer = new Protocol.BufferReaderMessages();
         this._rejectPending(`Client is disconnected`);
         this.disconnected.emit();
     }
-- 
2.43.0


From 4b856832884f11bd285b4bc89785cca8b3ef49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:30 +0000
Subject: [PATCH 53/58] fix: TypeScript consumer presents its key when the
 connection is confirmed

---
 .../render/consumer/typescript/render_consumer.rs    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index bbeadee..7cf9ef6 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -230,7 +230,12 @@ export class Consumer {
     }
 
     private _onClientConnected() {
-        this._logger.debug(`Client is connected`);
+        this._logger.debug(`Client is connected; waiting confirmation from producer...`);
+        this.connected.emit();
+    }
+
+    private _onConnectionConfirmed() {
+        this._logger.debug(`Producer has confirmed connection`);
         this.assign(this._key).then((uuid: string) => {
             this._hash().then(() => {
                 this._logger.debug(`Protocol and workflow hashes has been accepted`);
@@ -241,7 +246,6 @@ export class Consumer {
         }).catch((err: Error) => {
             this._logger.err(`Default assign prodecure is failed: ${err.message}`);
         });
-        this.connected.emit();
     }
 
     private _onClientDisconnected() {
@@ -267,6 +271,10 @@ export class Consumer {
             if (msg === undefined) {
                 return;
             }
+            if (msg.msg.InternalServiceGroup !== undefined && msg.msg.InternalServiceGroup.ConnectConfirmationBeacon !== undefined) {
+                this._onConnectionConfirmed();
+                continue;
+            }
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-- 
2.43.0


From e6bee3089563dab63ee5e5d648231d8d9119da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:52 +0000
Subject: [PATCH 54/58] fix: timestamp of a package is in seconds in Rust and
 in milliseconds in TypeScript

---
 cli/src/protocol/render/rust/static/protocol.packing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index 74f6394..cba1b2a 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -149,7 +149,7 @@ pub fn pack_buffer(
             buf.append(&mut msg_id.to_le_bytes().to_vec());
             buf.append(&mut signature.to_le_bytes().to_vec());
             buf.append(&mut sequence.to_le_bytes().to_vec());
-            buf.append(&mut duration.as_secs().to_le_bytes().to_vec());
+            buf.append(&mut (duration.as_millis() as u64).to_le_bytes().to_vec());
             buf.append(&mut (buffer.len() as u64).to_le_bytes().to_vec());
             buf.append(&mut buffer.to_vec());
             Ok(buf)
-- 
2.43.0


From a375a2f093c93dee18dc60be3bc9c901ef730db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 55/58] fix: TypeScript validation accepts fractions as
 integers

---
 .../render/typescript/static/protocol.primitives.i16.ts         | 2 +-
 .../render/typescript/static/protocol.primitives.i32.ts         | 2 +-
 .../protocol/render/typescript/static/protocol.primitives.i8.ts | 2 +-
 .../render/typescript/static/protocol.primitives.u16.ts         | 2 +-
 .../render/typescript/static/protocol.primitives.u32.ts         | 2 +-
 .../protocol/render/typescript/static/protocol.primitives.u8.ts | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts
index ba513ee..20555da 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts
@@ -50,7 +50,7 @@ export class i16 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < i16.MIN || value > i16.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts
index 0ec6733..86619b6 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts
@@ -50,7 +50,7 @@ export class i32 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < i32.MIN || value > i32.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts
index 68cfd0c..7339e72 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts
@@ -50,7 +50,7 @@ export class i8 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < i8.MIN || value > i8.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts
index dc0b334..f17a5f2 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts
@@ -50,7 +50,7 @@ export class u16 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < u16.MIN || value > u16.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts
index 8dd97d9..389d6cd 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts
@@ -50,7 +50,7 @@ export class u32 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < u32.MIN || value > u32.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts
index 68acb5b..84c25c0 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts
@@ -50,7 +50,7 @@ export class u8 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < u8.MIN || value > u8.MAX) {
-- 
2.43.0


From 55511ed7cc9477e7eaaf3ccf867aa9a8536d6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 56/58] fix: TypeScript enum with a variant set to undefined
 cannot be encoded

---
 cli/src/protocol/render/typescript/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 5f453be..d9e7c00 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -295,7 +295,10 @@ impl TypescriptRender {
     }
 
     fn enum_setter(&self, enums: &Enum, store: &mut Store, level: u8) -> String {
-        let mut body = format!("{}if (Object.keys(src).length > 1) {{", self.spaces(level),);
+        let mut body = format!(
+            "{}if (Object.keys(src).filter((key: string) => (src as any)[key] !== undefined).length > 1) {{",
+            self.spaces(level),
+        );
         body = format!(
             "{}\n{}return new Error(`Option cannot have more then 1 value.`);",
             body,
-- 
2.43.0


From 4de886a728d3997bb456c8651fb0a349bd51b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:18 +0000
Subject: [PATCH 57/58] fix: Rust producer reports early data of a consumer
 more than once

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 4fb60d9..ece22f6 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -394,6 +394,10 @@ pub mod producer {
             uuid,
         );
         let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
+            if consumer.get_identification().is_discredited() {
+                // Consumer is discredited do nothing with it
+                return Ok(());
+            }
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -407,10 +411,6 @@ pub mod producer {
                 .map_err(ProducerError::EventEmitterError)?;
                 return Ok(());
             }
-            if consumer.get_identification().is_discredited() {
-                // Consumer is discredited do nothing with it
-                return Ok(());
-            }
             if let Err(err) = consumer.chunk(&buffer) {
                 responsing_err(
                     format!("fail to read chunk of data; error: {}", err),
-- 
2.43.0


From 1c70d5de454f1816f6bd1c6e81606371b91b5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:18 +0000
Subject: [PATCH 58/58] fix: Rust producer skips handler of shutdown if nobody
 waits for it anymore

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index ece22f6..c7ea846 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -928,9 +928,12 @@ pub mod producer {
                 "shutdown has been requested"
             );
             if let Some(tx_response) = tx_response {
-                tx_response.send(()).map_err(|_| {
-                    ProducerError::ChannelError(String::from("Fail to send shutdown response"))
-                })?;
+                if tx_response.send(()).is_err() {
+                    warn!(
+                        target: logs::targets::PRODUCER,
+                        "nobody waits for shutdown anymore"
+                    );
+                }
             }
             drop(server);
             debug!(
-- 
2.43.0

