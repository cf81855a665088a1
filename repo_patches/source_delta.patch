From 4ef5a9b5a614ad386f5cecddf0858c4b1cef89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 01/17] fix: looking up the constant just past the end of the
 pool panicked

Pool::get accepted index == len(), whose slot does not exist.
---
 src/basic/constpool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..a4a3b92 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -346,10 +346,10 @@ impl Pool {
     }
 
     /// Returns the item at a specified index.
-    /// If the index is 0 or greater than the size of the pool, an error is returned.
+    /// If the index is 0 or not less than the encoded length of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From 5cf80d20101062a26109d4f9d0f281e62cc26046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 02/17] fix: Pool::default() handed out the invalid index 0

The derived Default set the encoded length to 0 instead of 1.
---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index a4a3b92..d5bed79 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,13 +309,18 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
     by_entry: HashMap<Rc<Item>, u16>,
 }
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 impl Pool {
     pub fn new() -> Self {
         Pool {
-- 
2.43.0


From 10943404d6f239fbfaf723c724bb65d2339197e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 03/17] fix: iterating over the pool yielded indices that were
 one too large

---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index d5bed79..50c72fb 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -456,7 +456,7 @@ impl<'a> Iterator for PoolIter<'a> {
         self.index += 1;
         if let Some(rc_item) = self.iter.next() {
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 3a461bf91ff713508ed71574f4484b820d0ab930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 04/17] fix: a full pool overflowed on long and double, and
 refused present items

A long or double pushed with a single slot left overflowed the encoded
length. An item which is already part of a full pool needs no space.
---
 src/basic/constpool.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 50c72fb..cefe726 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,11 +397,16 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        if self.len() == u16::max_value() {
-            return Err(Error::CPTooLarge);
+        let double = item.is_double();
+        let space = if double { 2 } else { 1 };
+        if u16::max_value() - self.len() < space {
+            // there is no space left, but the item could already be in the pool
+            return match self.by_entry.get(&item) {
+                Some(index) => Ok(*index),
+                None => Err(Error::CPTooLarge),
+            };
         }
 
-        let double = item.is_double();
         let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-- 
2.43.0


From edefbfd5a3cf1d48c785e7d604f6f3330ab2f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 05/17] fix: duplicate constants in a class file shifted all
 following indices

The parser pushed every constant, which merges equal items.
---
 src/basic/constpool.rs  | 22 ++++++++++++++++++++++
 src/basic/parser/mod.rs |  2 +-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index cefe726..73b835d 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -430,6 +430,28 @@ impl Pool {
         }))
     }
 
+    /// Appends an item to the pool, even if an equal item is already part of it.
+    /// Used for reading a pool, where every item has to keep its index.
+    pub(super) fn append(&mut self, item: Item) -> Result<u16> {
+        let space = if item.is_double() { 2 } else { 1 };
+        if u16::max_value() - self.len() < space {
+            return Err(Error::CPTooLarge);
+        }
+
+        let index = self.length;
+        let rc_item = Rc::new(item);
+        self.by_index.push(Some(Rc::clone(&rc_item)));
+        if space == 2 {
+            // long and double take an additional space
+            self.by_index.push(None);
+        }
+        self.length += space;
+
+        // the first of multiple equal items is the one to be found
+        self.by_entry.entry(rc_item).or_insert(index);
+        Ok(index)
+    }
+
     pub fn iter(&self) -> PoolIter {
         PoolIter {
             iter: self.by_index.iter(),
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..28ebc50 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -156,7 +156,7 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
+        pool.append(item)?;
         index += 1;
     }
 
-- 
2.43.0


From 815d8d1f8b89fd259b7e5f79dc7276be46c1d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 06/17] fix: class files containing a long or double could not
 be parsed

Both take two entries of the constant pool, but only one was counted.
---
 src/basic/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 28ebc50..3e69bd0 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -157,7 +157,8 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
         };
 
         pool.append(item)?;
-        index += 1;
+        // long and double take an additional space
+        index = pool.len();
     }
 
     Ok(pool)
-- 
2.43.0


From 2fc4b3dfa2598625729064cea213d8b7750d7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 07/17] fix: the EnclosingMethod attribute was not recognised

---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 3e69bd0..a2f44c3 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -229,7 +229,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From 5a5573b1998da4fe1494c64951837556f9a7c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 08/17] fix: a wide astore was refused

Its op code is 0x3A; 0x40 is lstore_1, which has no wide form.
---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..3cd6517 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -329,7 +329,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From 88dbf0a872682b6a17439fe3c27b1be13a6d39ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 09/17] fix: MethodParameters was misread

The count is a single byte (JVMS 4.7.24).
---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From 9eee97ff8ef1d0084fb2a0fe6d60484f945a6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 10/17] fix: type annotations on local variables were misread

The table length consists of two bytes (JVMS 4.7.20.1).
---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From f46d253e3dbc96c2461269eb92d423ea464e283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 11/17] fix: the MODULE and MANDATED flags included the PUBLIC
 bit

Both are 0x8000 (JVMS 4.1, 4.7.24, 4.7.25).
---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From 549cb56ea961a167b80a4619d409b81cea4aaa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 12/17] fix: malformed modified UTF-8 was decoded to unrelated
 characters

The bytes following the first one of a character were not checked, and
any three bytes were taken for the second half of a surrogate pair.
---
 src/basic/parser/decode.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..86023fe 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -123,19 +123,23 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
+                let r3 = self.read_continuation()?;
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
-                        let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
+                        // the second half has to be a low surrogate
+                        let r4 = self.read_u8()?;
+                        let r5 = self.read_continuation()?;
+                        let r6 = self.read_continuation()?;
+                        if r4 != 0xED || r5 < 0xB0 {
+                            return Err(Error::InvalidUTF8);
+                        }
                         // r1 and r4 can be ignored
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
@@ -158,6 +162,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a byte of a multi-byte modified UTF-8 character, except for the first one.
+    fn read_continuation(&mut self) -> Result<u32> {
+        let byte = self.read_u8()?;
+        if byte & 0xC0 == 0x80 {
+            Ok(u32::from(byte))
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From c31bf006eaf587c5d2fa8e80de4f7bc44b2027a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 13/17] fix: a tableswitch with unusual bounds panicked or
 exhausted the memory

The amount of offsets overflowed, or up to 16 GB were reserved for
offsets which are not part of the class file.
---
 src/basic/parser/code.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3cd6517..3c7d17b 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,14 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            if low > high {
+                return Err(Error::InvalidInstruction { op_code: 0xAA, at });
+            }
+
+            // every offset has yet to be read, do not trust the bounds by reserving space
+            let count = i64::from(high) - i64::from(low) + 1;
+            let mut offsets = Vec::new();
+            for _ in 0..count {
                 offsets.push(decoder.read_i32()?);
             }
 
-- 
2.43.0


From 7ddc6dca770626d1aa81850544fd04f3b2d28a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 14/17] fix: deeply nested annotations or attributes overflowed
 the stack

Every level of nesting is a recursive call, and the depth was only
limited by the length of the class file.
---
 src/basic/parser/annotation.rs | 12 ++++++++----
 src/basic/parser/decode.rs     | 20 +++++++++++++++++++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..03490bf 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -70,15 +70,19 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
                 const_name,
             })
         }
-        b'@' => Ok(ElementValue::Annotation(Box::new(parse_annotation(
-            decoder,
-        )?))),
+        b'@' => {
+            let mut decoder = decoder.nest()?;
+            Ok(ElementValue::Annotation(Box::new(parse_annotation(
+                &mut decoder,
+            )?)))
+        }
         b'[' => {
+            let mut decoder = decoder.nest()?;
             let count = decoder.read_u16()?;
             let mut element_values = Vec::with_capacity(count as usize);
 
             for _ in 0..count {
-                element_values.push(parse_element_value(decoder)?);
+                element_values.push(parse_element_value(&mut decoder)?);
             }
 
             Ok(ElementValue::Array(element_values))
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 86023fe..6f442a3 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -9,8 +9,13 @@ pub struct Decoder<'a> {
     bytes: &'a [u8],
     cursor: &'a mut usize,
     limit: usize,
+    depth: usize,
 }
 
+/// The maximum depth of nested attributes and annotations.
+/// Without a maximum, a small class file could overflow the stack.
+const MAX_DEPTH: usize = 64;
+
 impl<'a> Decoder<'a> {
     /// Creates a new decoder,
     /// the cursor has to be a mutable pointer to support limits without copying
@@ -19,6 +24,7 @@ impl<'a> Decoder<'a> {
             bytes,
             cursor,
             limit: bytes.len(),
+            depth: 0,
         }
     }
 
@@ -26,10 +32,22 @@ impl<'a> Decoder<'a> {
     pub fn limit(&mut self, to: usize) -> Result<Decoder> {
         let end = *self.cursor + to;
         self.check(end)?;
+        let mut decoder = self.nest()?;
+        decoder.limit = end;
+        Ok(decoder)
+    }
+
+    /// Returns a decoder for a nested structure, which has the same limit.
+    /// If structures are nested too deeply, an error is returned.
+    pub fn nest(&mut self) -> Result<Decoder> {
+        if self.depth == MAX_DEPTH {
+            return Err(Error::LimitExceeded);
+        }
         Ok(Decoder {
             bytes: self.bytes,
             cursor: self.cursor,
-            limit: end,
+            limit: self.limit,
+            depth: self.depth + 1,
         })
     }
 
-- 
2.43.0


From dc2880ffc84b96489c3c0fc231e74b5e681b717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 15/17] fix: small class files could make the parser reserve
 gigabytes of memory

Space was reserved for counts before checking whether the elements can be
part of the class file: megabytes per level of nesting, and for every
bootstrap method as many arguments as there are bootstrap methods.
---
 src/basic/parser/annotation.rs | 10 +++++-----
 src/basic/parser/class.rs      | 24 ++++++++++++------------
 src/basic/parser/code.rs       |  2 +-
 src/basic/parser/decode.rs     |  9 ++++++++-
 src/basic/parser/method.rs     | 18 +++++++++---------
 src/basic/parser/mod.rs        |  8 ++++----
 6 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index 03490bf..fe0e739 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -13,7 +13,7 @@ pub fn parse_parameter_annotations(decoder: &mut Decoder) -> Result<Vec<Vec<Anno
 /// Reads the next few annotations.
 pub fn parse_annotations(decoder: &mut Decoder) -> Result<Vec<Annotation>> {
     let count = decoder.read_u16()?;
-    let mut annotations = Vec::with_capacity(count as usize);
+    let mut annotations = decoder.vec(count);
     for _ in 0..count {
         annotations.push(parse_annotation(decoder)?);
     }
@@ -23,7 +23,7 @@ pub fn parse_annotations(decoder: &mut Decoder) -> Result<Vec<Annotation>> {
 /// Reads the next few type annotations.
 pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotation>> {
     let count = decoder.read_u16()?;
-    let mut annotations = Vec::with_capacity(count as usize);
+    let mut annotations = decoder.vec(count);
     for _ in 0..count {
         annotations.push(parse_type_annotation(decoder)?);
     }
@@ -34,7 +34,7 @@ pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotatio
 fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
     let type_index = decoder.read_u16()?;
     let count = decoder.read_u16()?;
-    let mut element_value_pairs = Vec::with_capacity(count as usize);
+    let mut element_value_pairs = decoder.vec(count);
 
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
@@ -79,7 +79,7 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
         b'[' => {
             let mut decoder = decoder.nest()?;
             let count = decoder.read_u16()?;
-            let mut element_values = Vec::with_capacity(count as usize);
+            let mut element_values = decoder.vec(count);
 
             for _ in 0..count {
                 element_values.push(parse_element_value(&mut decoder)?);
@@ -160,7 +160,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
     let length = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(length as usize);
+    let mut table = decoder.vec(length);
 
     for _ in 0..length {
         let start = decoder.read_u16()?;
diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..14a5336 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -4,11 +4,11 @@ use self::decode::Decoder;
 /// Parses the `BootstrapMethods` attribute
 pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut bootstrap_methods = Vec::with_capacity(count as usize);
+    let mut bootstrap_methods = decoder.vec(count);
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
         let count = decoder.read_u16()?;
+        let mut arguments = decoder.vec(count);
         for _ in 0..count {
             arguments.push(decoder.read_u16()?);
         }
@@ -31,7 +31,7 @@ pub fn parse_enclosing_method(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `InnerClasses` attribute
 pub fn parse_inner_classes(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut inner_classes = Vec::with_capacity(count as usize);
+    let mut inner_classes = decoder.vec(count);
     for _ in 0..count {
         let inner_class_info = decoder.read_u16()?;
         let outer_class_info = decoder.read_u16()?;
@@ -50,7 +50,7 @@ pub fn parse_inner_classes(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `ModulePackages` attribute.
 pub fn parse_module_packages(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut packages = Vec::with_capacity(count as usize);
+    let mut packages = decoder.vec(count);
     for _ in 0..count {
         packages.push(decoder.read_u16()?);
     }
@@ -65,7 +65,7 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read requires
     let requires_count = decoder.read_u16()?;
-    let mut requires = Vec::with_capacity(requires_count as usize);
+    let mut requires = decoder.vec(requires_count);
     for _ in 0..requires_count {
         let index = decoder.read_u16()?;
         let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
@@ -79,13 +79,13 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read exports
     let exports_count = decoder.read_u16()?;
-    let mut exports = Vec::with_capacity(exports_count as usize);
+    let mut exports = decoder.vec(exports_count);
     for _ in 0..exports_count {
         let index = decoder.read_u16()?;
         let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
 
         let to_count = decoder.read_u16()?;
-        let mut to = Vec::with_capacity(to_count as usize);
+        let mut to = decoder.vec(to_count);
         for _ in 0..to_count {
             to.push(decoder.read_u16()?);
         }
@@ -95,13 +95,13 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read opens
     let opens_count = decoder.read_u16()?;
-    let mut opens = Vec::with_capacity(opens_count as usize);
+    let mut opens = decoder.vec(opens_count);
     for _ in 0..opens_count {
         let index = decoder.read_u16()?;
         let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
 
         let to_count = decoder.read_u16()?;
-        let mut to = Vec::with_capacity(to_count as usize);
+        let mut to = decoder.vec(to_count);
         for _ in 0..to_count {
             to.push(decoder.read_u16()?);
         }
@@ -111,19 +111,19 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read uses
     let uses_count = decoder.read_u16()?;
-    let mut uses = Vec::with_capacity(uses_count as usize);
+    let mut uses = decoder.vec(uses_count);
     for _ in 0..uses_count {
         uses.push(decoder.read_u16()?);
     }
 
     // read provides
     let provides_count = decoder.read_u16()?;
-    let mut provides = Vec::with_capacity(provides_count as usize);
+    let mut provides = decoder.vec(provides_count);
     for _ in 0..provides_count {
         let index = decoder.read_u16()?;
 
         let with_count = decoder.read_u16()?;
-        let mut with = Vec::with_capacity(with_count as usize);
+        let mut with = decoder.vec(with_count);
         for _ in 0..with_count {
             with.push(decoder.read_u16()?);
         }
diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3c7d17b..0c69b28 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -35,7 +35,7 @@ pub fn parse_code(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Attribu
 
     // Read all exceptions
     let exception_count = decoder.read_u16()?;
-    let mut exceptions = Vec::with_capacity(exception_count as usize);
+    let mut exceptions = decoder.vec(exception_count);
     for _ in 0..exception_count {
         let start = decoder.read_u16()?;
         let end = decoder.read_u16()?;
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 6f442a3..8547d91 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -3,7 +3,7 @@
 
 use result::*;
 use byteorder::{BigEndian, ByteOrder};
-use std::char;
+use std::{char, cmp, mem};
 
 pub struct Decoder<'a> {
     bytes: &'a [u8],
@@ -68,6 +68,13 @@ impl<'a> Decoder<'a> {
         Ok(())
     }
 
+    /// Creates a vector for elements which are going to be read.
+    /// The count is not trusted: the space reserved never exceeds the amount of bytes left.
+    pub fn vec<T>(&self, count: u16) -> Vec<T> {
+        let left = self.limit - *self.cursor;
+        Vec::with_capacity(cmp::min(usize::from(count), left / mem::size_of::<T>()))
+    }
+
     /// Returns the current cursor
     pub fn cursor(&self) -> usize {
         *self.cursor
diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 22333a7..5e2d4a4 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -4,7 +4,7 @@ use self::decode::Decoder;
 /// Parses the `Exceptions` attribute.
 pub fn parse_exceptions(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut exceptions = Vec::with_capacity(count as usize);
+    let mut exceptions = decoder.vec(count);
     for _ in 0..count {
         exceptions.push(decoder.read_u16()?);
     }
@@ -14,7 +14,7 @@ pub fn parse_exceptions(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `LineNumberTable` attribute.
 pub fn parse_line_number_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = decoder.vec(count);
     for _ in 0..count {
         let start = decoder.read_u16()?;
         let line_number = decoder.read_u16()?;
@@ -26,7 +26,7 @@ pub fn parse_line_number_table(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `LocalVariableTable` attribute.
 pub fn parse_local_variable_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = decoder.vec(count);
     for _ in 0..count {
         let start = decoder.read_u16()?;
         let length = decoder.read_u16()?;
@@ -47,7 +47,7 @@ pub fn parse_local_variable_table(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `LocalVariableTypeTable` attribute.
 pub fn parse_local_variable_type_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = decoder.vec(count);
     for _ in 0..count {
         let start = decoder.read_u16()?;
         let length = decoder.read_u16()?;
@@ -68,7 +68,7 @@ pub fn parse_local_variable_type_table(decoder: &mut Decoder) -> Result<Attribut
 /// Parses the `StackMapTable` attribute.
 pub fn parse_stack_map_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = decoder.vec(count);
 
     for _ in 0..count {
         let frame_type = decoder.read_u8()?;
@@ -106,14 +106,14 @@ pub fn parse_stack_map_table(decoder: &mut Decoder) -> Result<Attribute> {
             }
             255 => {
                 let offset_delta = decoder.read_u16()?;
-                let local_count = decoder.read_u16()? as usize;
-                let mut locals = Vec::with_capacity(local_count);
+                let local_count = decoder.read_u16()?;
+                let mut locals = decoder.vec(local_count);
                 for _ in 0..local_count {
                     locals.push(parse_verification_type(decoder)?);
                 }
 
-                let stack_size = decoder.read_u16()? as usize;
-                let mut stack = Vec::with_capacity(stack_size);
+                let stack_size = decoder.read_u16()?;
+                let mut stack = decoder.vec(stack_size);
                 for _ in 0..stack_size {
                     stack.push(parse_verification_type(decoder)?);
                 }
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index a2f44c3..dc40710 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -41,7 +41,7 @@ pub fn parse(input: &[u8]) -> Result<(Pool, Class)> {
 
     // Read interfaces
     let interface_count = decoder.read_u16()?;
-    let mut interfaces = Vec::with_capacity(interface_count as usize);
+    let mut interfaces = decoder.vec(interface_count);
     for _ in 0..interface_count {
         interfaces.push(decoder.read_u16()?);
     }
@@ -167,7 +167,7 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
 /// Parses all fields and their attributes
 fn parse_fields(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Field>> {
     let count = decoder.read_u16()?;
-    let mut fields = Vec::with_capacity(count as usize);
+    let mut fields = decoder.vec(count);
     for _ in 0..count {
         let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
         let name = decoder.read_u16()?;
@@ -188,7 +188,7 @@ fn parse_fields(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Field
 /// Parses all methods and their attributes
 fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Method>> {
     let count = decoder.read_u16()?;
-    let mut fields = Vec::with_capacity(count as usize);
+    let mut fields = decoder.vec(count);
     for _ in 0..count {
         let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
         let name = decoder.read_u16()?;
@@ -209,7 +209,7 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
 /// Parses all attributes
 fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Attribute>> {
     let count = decoder.read_u16()?;
-    let mut attributes = Vec::with_capacity(count as usize);
+    let mut attributes = decoder.vec(count);
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
         let name = constant_pool.get_utf8(name_index)?;
-- 
2.43.0


From 780a3c95410822e531072318c106f5cc15cf993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 16/17] fix: asking an exhausted pool iterator again could
 overflow its index

---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 73b835d..450729c 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -480,8 +480,8 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
                 Some((self.index, item))
             } else {
-- 
2.43.0


From 20e1e24575c68492e391fed5ed867ada7a65c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 17/17] fix: long attribute names were copied once per
 attribute

---
 src/basic/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index dc40710..6ee629b 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -212,7 +212,11 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
     let mut attributes = decoder.vec(count);
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
-        let name = constant_pool.get_utf8(name_index)?;
+        // names are not copied, they could be much longer than the attributes
+        let name = match *constant_pool.get(name_index)? {
+            Item::UTF8(ref name) => name,
+            _ => return Err(Error::InvalidCPItem(name_index)),
+        };
         let length = decoder.read_u32()?;
 
         // limit attribute length
-- 
2.43.0

