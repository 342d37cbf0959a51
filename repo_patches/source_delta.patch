From 3bc1f824819bc6493e17f1df48b1e465d4296604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 01/25] fix: heredoc unindentation panicked on short, blank and
 multibyte lines

---
 lib/src/parser/string.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/src/parser/string.rs b/lib/src/parser/string.rs
index 3844d28..44f038b 100644
--- a/lib/src/parser/string.rs
+++ b/lib/src/parser/string.rs
@@ -64,17 +64,13 @@ fn unindent_heredoc(string: &str, indentation: usize) -> Cow<str> {
 
     let mut result = String::with_capacity(string.len());
     for line in string.split('\n') {
-        // Trim spaces at the beginning first
-        // Let's find a start index up to `indentation` to slice away
-        let mut beginning = line.char_indices().take(indentation);
-        let all_spaces = beginning.all(|(_, c)| c == ' ');
-        let rest = if all_spaces {
-            &line[indentation..]
-        } else {
-            let (start, _) = beginning.next().expect("to not be None");
-            &line[start - 1..]
-        };
-        result.push_str(rest);
+        // Trim spaces at the beginning, but never more than `indentation` of them.
+        let spaces = line
+            .bytes()
+            .take(indentation)
+            .take_while(|byte| *byte == b' ')
+            .count();
+        result.push_str(&line[spaces..]);
         result.push('\n');
     }
     // Remove the last `\n`
-- 
2.43.0


From 9b168fcdd74e30d2aa63d302be54ae369215127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 02/25] fix: Blocks::new lost earlier blocks when blocks of a
 type were not adjacent

---
 lib/src/parser/block.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8679c65..ac22e40 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -194,16 +194,15 @@ impl<'a> Blocks<'a> {
     where
         T: IntoIterator<Item = Block<'a>>,
     {
-        let mut hashmap = HashMap::new();
-        for (block_type, blocks) in blocks
+        // Blocks of the same type need not be adjacent to one another
+        let blocks = blocks
             .into_iter()
-            .group_by(|block| block.r#type.clone())
+            .map(|block| (block.r#type, (block.labels, block.body)))
+            .into_group_map()
             .into_iter()
-        {
-            let blocks = BlockBody::from_iter(blocks.map(|block| (block.labels, block.body)));
-            hashmap.insert(block_type, blocks);
-        }
-        Self { blocks: hashmap }
+            .map(|(block_type, blocks)| (block_type, BlockBody::from_iter(blocks)))
+            .collect();
+        Self { blocks }
     }
 
     pub fn append(&mut self, block: Block<'a>) {
-- 
2.43.0


From 08e70dcb97cbc33bd6fc58275396a0a5454298cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 03/25] fix: appending a block under a new label dropped its
 remaining labels

---
 lib/src/parser/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index ac22e40..13a405b 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -429,7 +429,9 @@ impl<'a> BlockBody<'a> {
                     let label = labels.drain(0..1).next().expect("to be some");
                     match hashmap.entry(label) {
                         Entry::Vacant(vacant) => {
-                            vacant.insert(BlockBody::Body(vec![body]));
+                            let mut nested = BlockBody::default();
+                            nested.append(labels, body);
+                            vacant.insert(nested);
                         }
                         Entry::Occupied(mut occupied) => {
                             occupied.get_mut().append(labels, body);
-- 
2.43.0


From 891a9f96bd588d45bbe8fbe7b7e8b7d84f79179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 04/25] fix: label_lens_uniform did not count the label it
 descended through

---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 13a405b..96ed69d 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -644,7 +644,7 @@ impl<'a> BlockBody<'a> {
                             return None;
                         }
                     }
-                    initial
+                    initial.map(|len| len + 1)
                 }
             }
         }
-- 
2.43.0


From f1d411cecbb2eca8db0f45a1f2a6afd555246a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 05/25] fix: BlockLabel equality disagreed with its Hash and
 Borrow<str>

---
 lib/src/parser/block.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 96ed69d..37f5da9 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -57,7 +57,7 @@ impl<'a> Block<'a> {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub enum BlockLabel<'a> {
     StringLiteral(StringLiteral),
     Identifier(Identifier<'a>),
@@ -76,6 +76,15 @@ impl<'a> BlockLabel<'a> {
     }
 }
 
+/// Labels compare (and hash) by their text, regardless of whether they were quoted
+impl<'a, 'b> PartialEq<BlockLabel<'b>> for BlockLabel<'a> {
+    fn eq(&self, other: &BlockLabel<'b>) -> bool {
+        self.as_str() == other.as_str()
+    }
+}
+
+impl<'a> Eq for BlockLabel<'a> {}
+
 impl<'a> Hash for BlockLabel<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.as_str().hash(state)
-- 
2.43.0


From b25b9a1ddcac150547312628776ded524bc23b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 06/25] fix: legacy Key equality disagreed with its Hash and
 Borrow<str>

---
 lib/src/parser/literals/key.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/literals/key.rs b/lib/src/parser/literals/key.rs
index 7d66739..e76bef8 100644
--- a/lib/src/parser/literals/key.rs
+++ b/lib/src/parser/literals/key.rs
@@ -9,7 +9,7 @@ use nom::{alt_complete, call, named};
 pub use self::serde::*;
 
 /// A "key" in a map
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Debug, Clone)]
 pub enum Key<'a> {
     Identifier(Cow<'a, str>),
     String(Cow<'a, str>),
@@ -88,6 +88,15 @@ impl<'a> Borrow<str> for Key<'a> {
     }
 }
 
+/// Keys compare (and hash) by their text, regardless of whether they were quoted
+impl<'a, 'b> PartialEq<Key<'b>> for Key<'a> {
+    fn eq(&self, other: &Key<'b>) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
+impl<'a> Eq for Key<'a> {}
+
 impl<'a> Hash for Key<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.deref().hash(state);
-- 
2.43.0


From 43e360b7fcaad53589dcf300337adcfa4a7bdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 07/25] fix: Number equality ignored the sign of floats and was
 not reflexive

---
 lib/src/parser/number.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 4772bf7..b9b604e 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -156,7 +156,10 @@ impl<'a> AsOwned for Number<'a> {
 
 impl<'a> std::cmp::PartialEq for Number<'a> {
     fn eq(&self, other: &Self) -> bool {
-        if self.is_float() || other.is_float() {
+        if self.input == other.input {
+            // Includes integers that are too large for any conversion
+            true
+        } else if self.is_float() || other.is_float() {
             // Good enough comparison
             // From https://users.rust-lang.org/t/assert-eq-for-float-numbers/7034/4
             let us = self.as_f64();
@@ -166,8 +169,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 return false;
             }
 
-            let us = us.unwrap().abs();
-            let them = them.unwrap().abs();
+            let us = us.unwrap();
+            let them = them.unwrap();
             let diff = (us - them).abs();
 
             if us == them {
@@ -178,7 +181,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 diff < (std::f64::EPSILON * std::f64::MIN_POSITIVE)
             } else {
                 // Use relative error.
-                (diff / f64::min(us + them, std::f64::MAX)) < std::f64::EPSILON
+                (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
         } else if self.is_unsigned() && other.is_unsigned() {
             // Unsigned
-- 
2.43.0


From e70a66aba9aab03da1d8126fb6f0108de4966253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/25] fix: Number::from overflowed for the minimum value of
 signed integers

---
 lib/src/parser/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index b9b604e..ca4aa07 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -74,7 +74,7 @@ macro_rules! from_int {
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
                 let input = Cow::Owned(n.to_string());
-                let whole = Some(Cow::Owned(n.abs().to_string()));
+                let whole = Some(Cow::Owned(n.to_string().trim_start_matches('-').to_string()));
                 Self::new(input, n >= 0, whole, None, None)
             }
         }
-- 
2.43.0


From caea31525779347a64e015fe4866a24e208a55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 09/25] fix: deserializing an unsigned integer above i64::MAX
 failed

---
 lib/src/serde/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 403b3da..3d2ffe9 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -150,10 +150,10 @@ where
 {
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
-    } else if number.is_signed() {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
-    } else {
+    } else if number.is_unsigned() {
         visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+    } else {
+        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
     }
 }
 
-- 
2.43.0


From c29dfea383e3b1431b84c72384d6149d4b6f3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 10/25] fix: deserializing a body panicked when an attribute
 and a block share a name

---
 lib/src/serde/de/body.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 216b26b..0bd6c23 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -143,11 +143,10 @@ impl<'de> de::MapAccess<'de> for MapAccess<'de> {
                 seed.deserialize(ident.into_deserializer()).map(Some)
             }
             (block_type, blk @ BodyValue::Block(_)) => {
-                // If this key has been seen before, we have a bug
-                assert!(
-                    self.seen.insert(block_type.clone()),
-                    "bug in block merging code"
-                );
+                // An attribute might share its name with this type of blocks
+                if !self.seen.insert(block_type.clone()) {
+                    return Err(Error::BodyDuplicateKey(block_type.to_string()).into());
+                }
                 self.value = Some(blk);
                 seed.deserialize(block_type.into_deserializer()).map(Some)
             }
-- 
2.43.0


From 9890e5b3e990cf4f80e6048a7aba2f89e8ed71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 11/25] fix: deserializing an object with a quoted key panicked

---
 lib/src/serde/de/object.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/src/serde/de/object.rs b/lib/src/serde/de/object.rs
index 5ace7e2..32ae092 100644
--- a/lib/src/serde/de/object.rs
+++ b/lib/src/serde/de/object.rs
@@ -40,7 +40,20 @@ impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
             None => return Ok(None),
             Some((key, value)) => (key, value),
         };
-        let key = key.as_str();
+        let key = match key {
+            ObjectElementIdentifier::Identifier(ident) => ident,
+            ObjectElementIdentifier::Expression(expr) => match Expression::parse(&expr)? {
+                // Keys have to be strings
+                Expression::String(key) => Cow::Owned(key.into_owned()),
+                other => {
+                    return Err(Error::Custom(format!(
+                        "Object keys must be strings, got {}",
+                        other.variant_name()
+                    ))
+                    .into())
+                }
+            },
+        };
 
         if !self.seen_keys.insert(key.clone()) {
             return Err(Error::ObjectDuplicateKey(key.to_string()).into());
-- 
2.43.0


From 0f57dc3d3acf854fd3b02b3e2f19824c01b94151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 12/25] fix: deserializing a body that has labelled blocks
 panicked

---
 lib/src/serde/de/block.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 698fd66..973ecc0 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -7,7 +7,7 @@ use serde::forward_to_deserialize_any;
 use crate::parser::block::{BlockBody, BlockLabel};
 use crate::parser::body::Body;
 use crate::serde::de::body::Deserializer as BodyDeserializer;
-use crate::serde::de::Compat;
+use crate::serde::de::{Compat, Error};
 
 fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V::Value, Compat>
 where
@@ -29,6 +29,11 @@ where
     BodyDeserializer::new(body).deserialize_map(visitor)
 }
 
+// TODO: Labels are not supported yet
+fn labels_unsupported() -> Compat {
+    Error::Custom("Deserializing blocks with labels is not supported".to_string()).into()
+}
+
 /// Possible states of `BlockBody`:
 /// - Empty: Single Body => Deserialize Map/Struct
 /// - Empty: Multiple Bodies => Seq
@@ -63,7 +68,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(labels_unsupported())
             }
         }
     }
@@ -95,11 +100,23 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(labels_unsupported())
             }
         }
     }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        if self.has_further_labels() {
+            // Nothing has to be represented when the value is discarded
+            visitor.visit_unit()
+        } else {
+            self.deserialize_any(visitor)
+        }
+    }
+
     // Tuple
     // map - mapaccess `"labels" = rest`
     // struct
@@ -110,7 +127,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
         bytes byte_buf unit unit_struct newtype_struct tuple
-        tuple_struct map struct enum identifier ignored_any
+        tuple_struct map struct enum identifier
     }
 }
 
-- 
2.43.0


From ca6efb0da9375f501a6bf652f31ea2422bfda261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 13/25] fix: Value::Null panicked in len, len_scalar, is_merged
 and is_unmerged

---
 lib/src/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 2cc2b48..b5c4fb3 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -91,7 +91,11 @@ impl<'a> Value<'a> {
 
     pub fn is_scalar(&self) -> bool {
         match self {
-            Value::Integer(_) | Value::Float(_) | Value::Boolean(_) | Value::String(_) => true,
+            Value::Null
+            | Value::Integer(_)
+            | Value::Float(_)
+            | Value::Boolean(_)
+            | Value::String(_) => true,
             _ => false,
         }
     }
-- 
2.43.0


From c8b8144dfd047aebcefe6c778c69e7966eefab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 14/25] fix: merging silently dropped blocks with duplicate
 labels

---
 lib/src/value.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index b5c4fb3..b193fa5 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -621,12 +621,21 @@ impl<'a> Block<'a> {
         K: IntoIterator<Item = S>,
         S: ToString,
     {
-        let mut merged = HashMap::default();
+        use std::collections::hash_map::Entry;
+
+        let mut merged: HashMap<Vec<String>, _> = HashMap::default();
         for (key, value) in iter {
-            let _ = merged.insert(
-                key.into_iter().map(|s| s.to_string()).collect(),
-                value.merge()?,
-            );
+            match merged.entry(key.into_iter().map(|s| s.to_string()).collect()) {
+                Entry::Vacant(vacant) => {
+                    vacant.insert(value.merge()?);
+                }
+                Entry::Occupied(occupied) => {
+                    return Err(Error::IllegalMultipleEntries {
+                        key: occupied.key().join(" "),
+                        variant: BLOCK,
+                    })
+                }
+            }
         }
         Ok(KeyValuePairs::Merged(merged))
     }
@@ -826,6 +835,15 @@ impl<'a> MapValues<'a> {
                             let value = value;
                             // Check that the incoming value is also a Block
                             if let Value::Block(incoming) = value {
+                                // Labels must be unique among blocks with the same identifier
+                                for labels in incoming.keys() {
+                                    if block.get_single(labels).is_some() {
+                                        return Err(Error::IllegalMultipleEntries {
+                                            key: format!("{} {}", key, labels.join(" ")),
+                                            variant: BLOCK,
+                                        });
+                                    }
+                                }
                                 block.extend(incoming);
                             } else {
                                 return Err(Error::ErrorMergingKeys {
-- 
2.43.0


From 88aabff5781439d0933659e67b316c2c02811f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 15/25] fix: legacy parser took exponential time on unclosed
 nested maps

---
 lib/src/parser.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index de64508..4f455ca 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -32,8 +32,8 @@ use whitespace::newline;
 
 use nom::types::CompleteStr;
 use nom::{
-    alt, alt_complete, call, char, complete, do_parse, eof, exact, named, named_attr, opt,
-    preceded, tag, terminated,
+    alt, alt_complete, call, char, do_parse, eof, exact, named, named_attr, opt, preceded, tag,
+    terminated,
 };
 
 /// A HCL document body
@@ -112,17 +112,18 @@ named!(
                 >> value: call!(single_value)
                 >> (key, value)
             )
-            | do_parse!(
-                identifier: call!(identifier::identifier)
-                >> complete!(opt!(char!('=')))
-                >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::from(values))
-            )
             | do_parse!(
                 identifier: call!(identifier::identifier)
                 >> keys: many0!(string::string_literal)
                 >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::Block(vec![(keys, values)].into_iter().collect()))
+                >> (
+                    Key::Identifier(identifier),
+                    if keys.is_empty() {
+                        Value::from(values)
+                    } else {
+                        Value::Block(vec![(keys, values)].into_iter().collect())
+                    }
+                )
             )
         )
     )
-- 
2.43.0


From 124661cf93054b1a0a0c836233a96c840eedd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 16/25] fix: line_comment did not accept slash comments

---
 lib/src/parser/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index 3049641..a36f5c6 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -52,7 +52,7 @@ named!(
 named!(
     pub line_comment(CompleteStr) -> CompleteStr,
     alt_complete!(
-        hash_comment | hash_comment
+        hash_comment | slash_comment
     )
 );
 
-- 
2.43.0


From 1787b95a8c1d0d5793269625474713744d20d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 17/25] fix: a lone comma was accepted as an empty tuple

---
 lib/src/parser.rs       | 24 +++++++++++-------------
 lib/src/parser/tuple.rs | 24 +++++++++++-------------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 4f455ca..fb85473 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -32,7 +32,7 @@ use whitespace::newline;
 
 use nom::types::CompleteStr;
 use nom::{
-    alt, alt_complete, call, char, do_parse, eof, exact, named, named_attr, opt, preceded, tag,
+    alt, alt_complete, call, char, cond, do_parse, eof, exact, named, named_attr, opt, tag,
     terminated,
 };
 
@@ -61,20 +61,18 @@ named!(
 // whitespace! Must not be captured after `]`!
 named!(
     pub(crate) list(CompleteStr) -> Vec<Value>,
-    preceded!(
-        list_begin,
-        terminated!(
-            whitespace!(
-                separated_list!(
-                    list_separator,
-                    single_value
-                )
-            ),
-            terminated!(
-                whitespace!(opt!(list_separator)),
-                char!(']')
+    do_parse!(
+        list_begin
+        >> elements: whitespace!(
+            separated_list!(
+                list_separator,
+                single_value
             )
         )
+        // A trailing separator has to follow an element
+        >> whitespace!(cond!(!elements.is_empty(), opt!(list_separator)))
+        >> char!(']')
+        >> (elements)
     )
 );
 
diff --git a/lib/src/parser/tuple.rs b/lib/src/parser/tuple.rs
index c84c290..62db349 100644
--- a/lib/src/parser/tuple.rs
+++ b/lib/src/parser/tuple.rs
@@ -10,7 +10,7 @@
 //!
 //! [Reference](https://github.com/hashicorp/hcl2/blob/master/hcl/hclsyntax/spec.md#collection-values)
 use nom::types::CompleteStr;
-use nom::{char, named, opt, preceded, terminated};
+use nom::{char, cond, do_parse, named, opt};
 
 use super::expression::{expression, Expression};
 
@@ -32,20 +32,18 @@ named!(
 // TODO: Deal with for syntax ambiguity when implementing later
 named!(
     pub tuple(CompleteStr) -> Tuple,
-    preceded!(
-        tuple_begin,
-        terminated!(
-            whitespace!(
-                separated_list!(
-                    tuple_separator,
-                    expression
-                )
-            ),
-            terminated!(
-                whitespace!(opt!(tuple_separator)),
-                char!(']')
+    do_parse!(
+        tuple_begin
+        >> elements: whitespace!(
+            separated_list!(
+                tuple_separator,
+                expression
             )
         )
+        // A trailing separator has to follow an element
+        >> whitespace!(cond!(!elements.is_empty(), opt!(tuple_separator)))
+        >> char!(']')
+        >> (elements)
     )
 );
 
-- 
2.43.0


From 72a793c238efff714e1d17e3b68251291673e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 18/25] fix: ObjectElementIdentifier hash disagreed with
 Borrow<str>

---
 lib/src/parser/object.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/object.rs b/lib/src/parser/object.rs
index eb1865f..5d93023 100644
--- a/lib/src/parser/object.rs
+++ b/lib/src/parser/object.rs
@@ -11,6 +11,7 @@
 //! objectelem = (Identifier | Expression) "=" Expression;
 //! ```
 use std::borrow::{Borrow, Cow};
+use std::hash::{Hash, Hasher};
 
 use nom::types::CompleteStr;
 use nom::{alt, call, char, do_parse, named, peek, recognize, tag, terminated, IResult};
@@ -20,7 +21,7 @@ use crate::parser::identifier::{identifier, Identifier};
 use crate::parser::whitespace::newline;
 
 // TODO: Dealing with expressions and ambiguity. See reference
-#[derive(Debug, Clone, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ObjectElementIdentifier<'a> {
     /// A literal attribute name
     Identifier(Identifier<'a>),
@@ -62,6 +63,14 @@ where
     }
 }
 
+/// Hashes like the text that is borrowed, so that keys can be looked up by their text
+impl<'a> Hash for ObjectElementIdentifier<'a> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let text: &str = self.borrow();
+        text.hash(state)
+    }
+}
+
 impl<'a> Borrow<str> for ObjectElementIdentifier<'a> {
     fn borrow(&self) -> &str {
         match self {
-- 
2.43.0


From c45f5b61b43c2129e09482276776b21f05183841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 19/25] fix: deserializing a sequence silently dropped the
 elements its visitor left

---
 lib/src/serde/de.rs       | 16 +++++++++++++++-
 lib/src/serde/de/block.rs | 12 +++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 3d2ffe9..d357ae8 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -14,6 +14,7 @@ pub use self::error::*;
 pub use body::{from_str, Deserializer};
 
 use crate::parser;
+use serde::de::value::SeqDeserializer;
 use serde::de::{IntoDeserializer, Visitor};
 use std::borrow::Cow;
 
@@ -175,7 +176,20 @@ where
         }
     }
 
-    visitor.visit_seq(tuple.into_deserializer())
+    deserialize_seq(tuple.into_iter(), visitor)
+}
+
+/// Elements which the visitor leaves behind are an error
+fn deserialize_seq<'de, I, V>(elements: I, visitor: V) -> Result<V::Value, Compat>
+where
+    I: Iterator,
+    I::Item: IntoDeserializer<'de, Compat>,
+    V: Visitor<'de>,
+{
+    let mut elements = SeqDeserializer::new(elements);
+    let value = visitor.visit_seq(&mut elements)?;
+    elements.end()?;
+    Ok(value)
 }
 
 fn deserialize_object<'de, V>(
diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 973ecc0..a2d7beb 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -1,25 +1,19 @@
 use std::collections::{hash_map, HashMap};
 use std::vec;
 
-use serde::de::{self, Deserializer, IntoDeserializer, Visitor};
+use serde::de::{self, Deserializer, Visitor};
 use serde::forward_to_deserialize_any;
 
 use crate::parser::block::{BlockBody, BlockLabel};
 use crate::parser::body::Body;
 use crate::serde::de::body::Deserializer as BodyDeserializer;
-use crate::serde::de::{Compat, Error};
+use crate::serde::de::{deserialize_seq, Compat, Error};
 
 fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V::Value, Compat>
 where
     V: Visitor<'de>,
 {
-    visitor.visit_seq(
-        bodies
-            .into_iter()
-            .map(BodyDeserializer::new)
-            .collect::<Vec<_>>()
-            .into_deserializer(),
-    )
+    deserialize_seq(bodies.into_iter().map(BodyDeserializer::new), visitor)
 }
 
 fn deserialize_map<'de, V>(body: Body<'de>, visitor: V) -> Result<V::Value, Compat>
-- 
2.43.0


From 219e00ae56dc2862fb36b124c52c850552cc4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 20/25] fix: deserialise and skip integers beyond 64 bits

---
 lib/src/serde/de.rs            | 10 +++++++--
 lib/src/serde/de/expression.rs | 37 +++++++++++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index d357ae8..c14b892 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -152,9 +152,15 @@ where
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
     } else if number.is_unsigned() {
-        visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+        match number.as_u64() {
+            Ok(integer) => visitor.visit_u64(integer),
+            Err(_) => visitor.visit_u128(number.as_u128().map_err(Error::ParseIntError)?),
+        }
     } else {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
+        match number.as_i64() {
+            Ok(integer) => visitor.visit_i64(integer),
+            Err(_) => visitor.visit_i128(number.as_i128().map_err(Error::ParseIntError)?),
+        }
     }
 }
 
diff --git a/lib/src/serde/de/expression.rs b/lib/src/serde/de/expression.rs
index 442cc8b..a4717f9 100644
--- a/lib/src/serde/de/expression.rs
+++ b/lib/src/serde/de/expression.rs
@@ -3,7 +3,7 @@ use serde::forward_to_deserialize_any;
 
 use crate::parser::expression::Expression;
 use crate::serde::de::{
-    deserialize_number, deserialize_object, deserialize_string, deserialize_tuple, Compat,
+    deserialize_number, deserialize_object, deserialize_string, deserialize_tuple, Compat, Error,
 };
 
 impl<'de> de::Deserializer<'de> for Expression<'de> {
@@ -69,10 +69,41 @@ impl<'de> de::Deserializer<'de> for Expression<'de> {
 
     // TODO: Enum Unit Variant from String
 
+    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_f64(visitor)
+    }
+
+    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self {
+            // An integer that no integer type of 64 bits holds
+            Expression::Number(ref number) if number.as_u64().is_err() && number.as_i64().is_err() => {
+                visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
+            }
+            other => other.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self {
+            // The size of a number does not matter
+            Expression::Number(_) => visitor.visit_unit(),
+            other => other.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 char str string
         bytes byte_buf unit unit_struct seq
-        map struct enum identifier ignored_any
+        map struct enum identifier
     }
 }
 
-- 
2.43.0


From d958b8505793878a369bf55395f950d0129af979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 21/25] fix: take_till_match! over bytes stays inside of the
 input

---
 lib/src/utils.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/lib/src/utils.rs b/lib/src/utils.rs
index c1ed70d..6fbfd6e 100644
--- a/lib/src/utils.rs
+++ b/lib/src/utils.rs
@@ -55,21 +55,14 @@ where
     }
 }
 
-#[allow(clippy::trivially_copy_pass_by_ref)]
-fn add_one(i: &usize) -> Option<usize> {
-    Some(i + 1)
-}
-
-type AddOneFn = fn(&usize) -> Option<usize>;
-
 impl<'a, T> SafeIndexing for &'a [T]
 where
     &'a [T]: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
@@ -77,22 +70,22 @@ impl<'a> SafeIndexing for CompleteByteSlice<'a>
 where
     CompleteByteSlice<'a>: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.0.len()
     }
 }
 
 impl<T> SafeIndexing for Input<T>
 where
     Input<T>: nom::Slice<RangeFull>,
-    T: nom::Slice<RangeFull>,
+    T: SafeIndexing,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = T::Iter;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        self.inner.safe_indices()
     }
 }
 
-- 
2.43.0


From c80ce44ff44636a6bcbf965b166b3b5203921d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:11 +0000
Subject: [PATCH 22/25] fix: integers beyond 128 bits compare by value,
 whatever their spelling

---
 lib/src/parser/number.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index ca4aa07..477c947 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -55,6 +55,15 @@ impl<'a> Number<'a> {
     pub fn is_float(&self) -> bool {
         !self.is_signed()
     }
+
+    /// Sign and significant digits of an integer
+    fn integer_parts(&self) -> (bool, &str) {
+        let digits = self
+            .input
+            .trim_start_matches(|c| c == '+' || c == '-')
+            .trim_start_matches('0');
+        (self.positive || digits.is_empty(), digits)
+    }
 }
 
 macro_rules! from_uint {
@@ -188,8 +197,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
             let us = self.as_u128();
             let them = other.as_u128();
             if us.is_err() || them.is_err() {
-                println!("Error converting to unsigned!");
-                return false;
+                // Too large for any conversion
+                return self.integer_parts() == other.integer_parts();
             }
             us.unwrap().eq(&them.unwrap())
         } else {
@@ -197,8 +206,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
             let us = self.as_i128();
             let them = other.as_i128();
             if us.is_err() || them.is_err() {
-                println!("Error converting to signed!");
-                return false;
+                // Too large for any conversion
+                return self.integer_parts() == other.integer_parts();
             }
             us.unwrap().eq(&them.unwrap())
         }
-- 
2.43.0


From 4ba4cc4fea4123757580fac68e30c6964ce09417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 23/25] fix: a number made from negative zero counted as
 unsigned and could not be deserialised

---
 lib/src/parser/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 477c947..13c630d 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -97,7 +97,7 @@ macro_rules! from_float {
     ($($from:ty )*) => {$(
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
-                let string = if n >= 0.0 {
+                let string = if n.is_sign_positive() {
                     n.to_string()
                 } else {
                     (n*-1.0).to_string()
@@ -105,7 +105,7 @@ macro_rules! from_float {
                 let mut parts = string.split(".");
                 let whole = parts.next().map(|s| Cow::Owned(s.to_string()));
                 let fraction = parts.next().map(|s| Cow::Owned(s.to_string()));
-                Self::new(Cow::Owned(n.to_string()), n >= 0.0, whole, fraction, None)
+                Self::new(Cow::Owned(n.to_string()), n.is_sign_positive(), whole, fraction, None)
             }
         }
     )*};
-- 
2.43.0


From d7029cfa6243373ccd55ecd35b49192a490450f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 24/25] fix: deserialising a number into f32 rounded it twice

---
 lib/src/serde/de/expression.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/serde/de/expression.rs b/lib/src/serde/de/expression.rs
index a4717f9..a8bb20f 100644
--- a/lib/src/serde/de/expression.rs
+++ b/lib/src/serde/de/expression.rs
@@ -73,7 +73,15 @@ impl<'de> de::Deserializer<'de> for Expression<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_f64(visitor)
+        match self {
+            // Going through `f64` would round twice
+            Expression::Number(ref number)
+                if number.is_float() || number.as_u64().is_err() && number.as_i64().is_err() =>
+            {
+                visitor.visit_f32(number.as_f32().map_err(Error::ParseFloatError)?)
+            }
+            other => other.deserialize_f64(visitor),
+        }
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 4ca3a675a9d3176187b20f0b0a7facfd932d03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:25 +0000
Subject: [PATCH 25/25] fix: a lone carriage return in a line comment made the
 document be refused

---
 lib/src/parser/whitespace.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index a36f5c6..e7dd461 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -27,11 +27,17 @@
 use nom::types::CompleteStr;
 use nom::{
     alt_complete, call, delimited, do_parse, eat_separator, eol, many0, many1, named, tag,
-    take_until, take_while,
+    take_until, IResult, InputTake,
 };
 
-fn not_eol(c: char) -> bool {
-    c != '\r' && c != '\n'
+/// Everything up to the next newline sequence: a carriage return alone does not end the line
+fn until_eol(input: CompleteStr) -> IResult<CompleteStr, CompleteStr> {
+    let line = input.split('\n').next().unwrap_or_default();
+    let end = match line.len() {
+        len if len < input.len() && line.ends_with('\r') => len - 1,
+        len => len,
+    };
+    Ok(input.take_split(end))
 }
 
 named!(
@@ -41,12 +47,12 @@ named!(
 
 named!(
     pub hash_comment(CompleteStr) -> CompleteStr,
-    delimited!(tag!("#"), take_while!(not_eol), call!(eol))
+    delimited!(tag!("#"), until_eol, call!(eol))
 );
 
 named!(
     pub slash_comment(CompleteStr) -> CompleteStr,
-    delimited!(tag!("//"), take_while!(not_eol), call!(eol))
+    delimited!(tag!("//"), until_eol, call!(eol))
 );
 
 named!(
-- 
2.43.0

