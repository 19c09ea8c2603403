From b880d12881efb7a7fe70cb755aae7744ce601291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 01/23] fix: do not panic when unindenting short or non-ASCII
 heredoc lines

---
 lib/src/parser/string.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/src/parser/string.rs b/lib/src/parser/string.rs
index 3844d28..9ef9d7a 100644
--- a/lib/src/parser/string.rs
+++ b/lib/src/parser/string.rs
@@ -64,17 +64,13 @@ fn unindent_heredoc(string: &str, indentation: usize) -> Cow<str> {
 
     let mut result = String::with_capacity(string.len());
     for line in string.split('\n') {
-        // Trim spaces at the beginning first
-        // Let's find a start index up to `indentation` to slice away
-        let mut beginning = line.char_indices().take(indentation);
-        let all_spaces = beginning.all(|(_, c)| c == ' ');
-        let rest = if all_spaces {
-            &line[indentation..]
-        } else {
-            let (start, _) = beginning.next().expect("to not be None");
-            &line[start - 1..]
-        };
-        result.push_str(rest);
+        // Trim spaces at the beginning first, up to `indentation` of them
+        let spaces = line
+            .bytes()
+            .take(indentation)
+            .take_while(|b| *b == b' ')
+            .count();
+        result.push_str(&line[spaces..]);
         result.push('\n');
     }
     // Remove the last `\n`
-- 
2.43.0


From 49296cfe07650dba69b2525e7f7277ba3adcf49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/23] fix: do not overflow when converting the minimum of a
 signed type to Number

---
 lib/src/parser/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 4772bf7..fdde448 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -74,7 +74,7 @@ macro_rules! from_int {
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
                 let input = Cow::Owned(n.to_string());
-                let whole = Some(Cow::Owned(n.abs().to_string()));
+                let whole = Some(Cow::Owned(n.to_string().trim_start_matches('-').to_string()));
                 Self::new(input, n >= 0, whole, None, None)
             }
         }
-- 
2.43.0


From 4f426d9370ab8b0f4e636b93366de57162b5f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 03/23] fix: floats of opposite sign are not equal

---
 lib/src/parser/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index fdde448..fe36079 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -166,8 +166,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 return false;
             }
 
-            let us = us.unwrap().abs();
-            let them = them.unwrap().abs();
+            let us = us.unwrap();
+            let them = them.unwrap();
             let diff = (us - them).abs();
 
             if us == them {
@@ -178,7 +178,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 diff < (std::f64::EPSILON * std::f64::MIN_POSITIVE)
             } else {
                 // Use relative error.
-                (diff / f64::min(us + them, std::f64::MAX)) < std::f64::EPSILON
+                (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
         } else if self.is_unsigned() && other.is_unsigned() {
             // Unsigned
-- 
2.43.0


From 0ea2e820e2db55662da56f57d7e283c3aaba2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 04/23] fix: comparing numbers does not write to stdout

---
 lib/src/parser/number.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index fe36079..0a4f6c2 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -4,6 +4,7 @@ use std::borrow::Cow;
 use std::ops::Deref;
 use std::str::FromStr;
 
+use log::debug;
 use nom::types::CompleteStr;
 use nom::IResult;
 use nom::{alt, char, digit, opt, pair, tuple};
@@ -162,7 +163,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
             let us = self.as_f64();
             let them = other.as_f64();
             if us.is_err() || them.is_err() {
-                println!("Error converting to float!");
+                debug!("Error converting to float!");
                 return false;
             }
 
@@ -185,7 +186,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
             let us = self.as_u128();
             let them = other.as_u128();
             if us.is_err() || them.is_err() {
-                println!("Error converting to unsigned!");
+                debug!("Error converting to unsigned!");
                 return false;
             }
             us.unwrap().eq(&them.unwrap())
@@ -194,7 +195,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
             let us = self.as_i128();
             let them = other.as_i128();
             if us.is_err() || them.is_err() {
-                println!("Error converting to signed!");
+                debug!("Error converting to signed!");
                 return false;
             }
             us.unwrap().eq(&them.unwrap())
@@ -311,7 +312,7 @@ mod tests {
         ];
 
         for case in cases.iter() {
-            println!("Testing {}", case);
+            debug!("Testing {}", case);
 
             let (remaining, parsed) = number(CompleteStr(*case)).unwrap();
             assert!(remaining.is_empty());
-- 
2.43.0


From d3088da5c20c440f276d2d7ca9bd40c4f364607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 05/23] fix: deserialize unsigned integers above i64::MAX

---
 lib/src/serde/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 403b3da..3d2ffe9 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -150,10 +150,10 @@ where
 {
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
-    } else if number.is_signed() {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
-    } else {
+    } else if number.is_unsigned() {
         visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+    } else {
+        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
     }
 }
 
-- 
2.43.0


From cb2a04ef192a7d9a1f03c47b5aeac1e239d597fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 06/23] fix: report expression object keys as a deserialization
 error

---
 lib/src/serde/de/object.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/serde/de/object.rs b/lib/src/serde/de/object.rs
index 5ace7e2..a079b00 100644
--- a/lib/src/serde/de/object.rs
+++ b/lib/src/serde/de/object.rs
@@ -40,7 +40,16 @@ impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
             None => return Ok(None),
             Some((key, value)) => (key, value),
         };
-        let key = key.as_str();
+        let key = match key {
+            ObjectElementIdentifier::Identifier(ident) => ident,
+            ObjectElementIdentifier::Expression(expr) => {
+                return Err(Error::Custom(format!(
+                    "Expression {} as an object key is not yet supported",
+                    expr
+                ))
+                .into());
+            }
+        };
 
         if !self.seen_keys.insert(key.clone()) {
             return Err(Error::ObjectDuplicateKey(key.to_string()).into());
-- 
2.43.0


From 03db7fd6d097cb07514b494cf2860a7af917cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 07/23] fix: report labelled blocks as a deserialization error

---
 lib/src/serde/de/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 698fd66..2c946d1 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -7,7 +7,7 @@ use serde::forward_to_deserialize_any;
 use crate::parser::block::{BlockBody, BlockLabel};
 use crate::parser::body::Body;
 use crate::serde::de::body::Deserializer as BodyDeserializer;
-use crate::serde::de::Compat;
+use crate::serde::de::{Compat, Error};
 
 fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V::Value, Compat>
 where
@@ -63,7 +63,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(Error::Custom("Blocks with labels cannot be deserialized yet".to_string()).into())
             }
         }
     }
@@ -95,7 +95,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(Error::Custom("Blocks with labels cannot be deserialized yet".to_string()).into())
             }
         }
     }
-- 
2.43.0


From a06ce69934b8e8d323951f8c1560b39f616db080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 08/23] fix: report an attribute and a block sharing a name as
 a duplicate key

---
 lib/src/serde/de/body.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 216b26b..e390d76 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -143,11 +143,10 @@ impl<'de> de::MapAccess<'de> for MapAccess<'de> {
                 seed.deserialize(ident.into_deserializer()).map(Some)
             }
             (block_type, blk @ BodyValue::Block(_)) => {
-                // If this key has been seen before, we have a bug
-                assert!(
-                    self.seen.insert(block_type.clone()),
-                    "bug in block merging code"
-                );
+                // An attribute might share the same key as the block type
+                if !self.seen.insert(block_type.clone()) {
+                    return Err(Error::BodyDuplicateKey(block_type.to_string()).into());
+                }
                 self.value = Some(blk);
                 seed.deserialize(block_type.into_deserializer()).map(Some)
             }
-- 
2.43.0


From a46678307c8c2a25414d926213da3223bdd50d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 09/23] fix: index non-adjacent blocks of the same type without
 losing any

---
 lib/src/parser/block.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8679c65..84976d1 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -200,8 +200,10 @@ impl<'a> Blocks<'a> {
             .group_by(|block| block.r#type.clone())
             .into_iter()
         {
-            let blocks = BlockBody::from_iter(blocks.map(|block| (block.labels, block.body)));
-            hashmap.insert(block_type, blocks);
+            hashmap
+                .entry(block_type)
+                .or_insert_with(BlockBody::default)
+                .extend(blocks.map(|block| (block.labels, block.body)));
         }
         Self { blocks: hashmap }
     }
-- 
2.43.0


From 7b1cafbf47c9c0198a9ba15f4f71dd6adcfd0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 10/23] fix: keep the remaining labels of a block appended
 under a new label

---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 84976d1..f0ed400 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -432,7 +432,7 @@ impl<'a> BlockBody<'a> {
                     let label = labels.drain(0..1).next().expect("to be some");
                     match hashmap.entry(label) {
                         Entry::Vacant(vacant) => {
-                            vacant.insert(BlockBody::Body(vec![body]));
+                            vacant.insert(BlockBody::default()).append(labels, body);
                         }
                         Entry::Occupied(mut occupied) => {
                             occupied.get_mut().append(labels, body);
-- 
2.43.0


From 21cc7be3bbd9e3d92b78d3aae1193f66b14a7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 11/23] fix: count every label level in label_lens_uniform

---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index f0ed400..88e6111 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -645,7 +645,7 @@ impl<'a> BlockBody<'a> {
                             return None;
                         }
                     }
-                    initial
+                    initial.map(|len| len + 1)
                 }
             }
         }
-- 
2.43.0


From 63345477c45aca72689dc0df7b5e04886e076cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 12/23] fix: block labels compare like the strings they hash
 and borrow as

---
 lib/src/parser/block.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 88e6111..c87806a 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -57,7 +57,7 @@ impl<'a> Block<'a> {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, Eq)]
 pub enum BlockLabel<'a> {
     StringLiteral(StringLiteral),
     Identifier(Identifier<'a>),
@@ -76,6 +76,12 @@ impl<'a> BlockLabel<'a> {
     }
 }
 
+impl<'a> PartialEq for BlockLabel<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_str() == other.as_str()
+    }
+}
+
 impl<'a> Hash for BlockLabel<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.as_str().hash(state)
-- 
2.43.0


From a6ee0a3a6b74debaf1677d5de9724e0618676326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 13/23] fix: keys compare like the strings they hash and borrow
 as

---
 lib/src/parser/literals/key.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/literals/key.rs b/lib/src/parser/literals/key.rs
index 7d66739..0fa936f 100644
--- a/lib/src/parser/literals/key.rs
+++ b/lib/src/parser/literals/key.rs
@@ -9,7 +9,7 @@ use nom::{alt_complete, call, named};
 pub use self::serde::*;
 
 /// A "key" in a map
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Eq, Debug, Clone)]
 pub enum Key<'a> {
     Identifier(Cow<'a, str>),
     String(Cow<'a, str>),
@@ -88,6 +88,12 @@ impl<'a> Borrow<str> for Key<'a> {
     }
 }
 
+impl<'a> PartialEq for Key<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
 impl<'a> Hash for Key<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.deref().hash(state);
-- 
2.43.0


From d9030fffe195eee76ccff012d70aedb3e4fc9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 14/23] fix: object element identifiers hash like the strings
 they borrow as

---
 lib/src/parser/object.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/object.rs b/lib/src/parser/object.rs
index eb1865f..2a5d341 100644
--- a/lib/src/parser/object.rs
+++ b/lib/src/parser/object.rs
@@ -11,6 +11,7 @@
 //! objectelem = (Identifier | Expression) "=" Expression;
 //! ```
 use std::borrow::{Borrow, Cow};
+use std::hash::{Hash, Hasher};
 
 use nom::types::CompleteStr;
 use nom::{alt, call, char, do_parse, named, peek, recognize, tag, terminated, IResult};
@@ -20,7 +21,7 @@ use crate::parser::identifier::{identifier, Identifier};
 use crate::parser::whitespace::newline;
 
 // TODO: Dealing with expressions and ambiguity. See reference
-#[derive(Debug, Clone, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ObjectElementIdentifier<'a> {
     /// A literal attribute name
     Identifier(Identifier<'a>),
@@ -62,6 +63,13 @@ where
     }
 }
 
+impl<'a> Hash for ObjectElementIdentifier<'a> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let s: &str = self.borrow();
+        s.hash(state)
+    }
+}
+
 impl<'a> Borrow<str> for ObjectElementIdentifier<'a> {
     fn borrow(&self) -> &str {
         match self {
-- 
2.43.0


From 75ae8de047f9e5a3dfbea6cd5333935abf50c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 15/23] fix: null is a scalar instead of a panic in len,
 len_scalar and is_merged

---
 lib/src/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 2cc2b48..b5c4fb3 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -91,7 +91,11 @@ impl<'a> Value<'a> {
 
     pub fn is_scalar(&self) -> bool {
         match self {
-            Value::Integer(_) | Value::Float(_) | Value::Boolean(_) | Value::String(_) => true,
+            Value::Null
+            | Value::Integer(_)
+            | Value::Float(_)
+            | Value::Boolean(_)
+            | Value::String(_) => true,
             _ => false,
         }
     }
-- 
2.43.0


From 22e863fd5809390b3812f3a1d68c1c4b5afe72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 16/23] fix: merging blocks with the same labels is an error
 instead of losing one

---
 lib/src/value.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index b5c4fb3..2c5bacd 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -623,10 +623,15 @@ impl<'a> Block<'a> {
     {
         let mut merged = HashMap::default();
         for (key, value) in iter {
-            let _ = merged.insert(
-                key.into_iter().map(|s| s.to_string()).collect(),
-                value.merge()?,
-            );
+            let labels: Vec<String> = key.into_iter().map(|s| s.to_string()).collect();
+            let value = value.merge()?;
+            if merged.contains_key(&labels) {
+                return Err(Error::IllegalMultipleEntries {
+                    key: labels.join(" "),
+                    variant: BLOCK,
+                });
+            }
+            merged.insert(labels, value);
         }
         Ok(KeyValuePairs::Merged(merged))
     }
@@ -826,7 +831,15 @@ impl<'a> MapValues<'a> {
                             let value = value;
                             // Check that the incoming value is also a Block
                             if let Value::Block(incoming) = value {
-                                block.extend(incoming);
+                                for (labels, body) in incoming {
+                                    if block.get_single(&labels).is_some() {
+                                        return Err(Error::IllegalMultipleEntries {
+                                            key,
+                                            variant: BLOCK,
+                                        });
+                                    }
+                                    block.extend(vec![(labels, body)]);
+                                }
                             } else {
                                 return Err(Error::ErrorMergingKeys {
                                     key,
-- 
2.43.0


From 913ce0d924f98e9df4303f909967851451ecbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 17/23] fix: line_comment accepts slash comments

---
 lib/src/parser/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index 3049641..a36f5c6 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -52,7 +52,7 @@ named!(
 named!(
     pub line_comment(CompleteStr) -> CompleteStr,
     alt_complete!(
-        hash_comment | hash_comment
+        hash_comment | slash_comment
     )
 );
 
-- 
2.43.0


From 68fb3ab98644a52874caa8daaf1e8c083220a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 18/23] fix: safe_indices of byte inputs stays within the input

---
 lib/src/utils.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/lib/src/utils.rs b/lib/src/utils.rs
index c1ed70d..e8142a7 100644
--- a/lib/src/utils.rs
+++ b/lib/src/utils.rs
@@ -55,21 +55,14 @@ where
     }
 }
 
-#[allow(clippy::trivially_copy_pass_by_ref)]
-fn add_one(i: &usize) -> Option<usize> {
-    Some(i + 1)
-}
-
-type AddOneFn = fn(&usize) -> Option<usize>;
-
 impl<'a, T> SafeIndexing for &'a [T]
 where
     &'a [T]: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
@@ -77,22 +70,22 @@ impl<'a> SafeIndexing for CompleteByteSlice<'a>
 where
     CompleteByteSlice<'a>: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
 impl<T> SafeIndexing for Input<T>
 where
     Input<T>: nom::Slice<RangeFull>,
-    T: nom::Slice<RangeFull>,
+    T: SafeIndexing,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = T::Iter;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        self.inner.safe_indices()
     }
 }
 
-- 
2.43.0


From 66215ecb030a9210655ad5c5979837f67a4f4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 19/23] fix: parse each map in the value grammar once instead
 of once per alternative

---
 lib/src/parser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index de64508..0e99573 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -32,7 +32,7 @@ use whitespace::newline;
 
 use nom::types::CompleteStr;
 use nom::{
-    alt, alt_complete, call, char, complete, do_parse, eof, exact, named, named_attr, opt,
+    alt, alt_complete, call, char, do_parse, eof, exact, named, named_attr, opt,
     preceded, tag, terminated,
 };
 
@@ -100,6 +100,15 @@ named!(
     )
 );
 
+// A map without labels is an object, and a map with labels is a block
+fn object_or_block(labels: Vec<string::StringLiteral>, values: MapValues) -> Value {
+    if labels.is_empty() {
+        Value::from(values)
+    } else {
+        Value::Block(vec![(labels, values)].into_iter().collect())
+    }
+}
+
 // Parse single key value pair in the form of
 // `"key" = ... | ["..."] | {...}`
 named!(
@@ -112,17 +121,11 @@ named!(
                 >> value: call!(single_value)
                 >> (key, value)
             )
-            | do_parse!(
-                identifier: call!(identifier::identifier)
-                >> complete!(opt!(char!('=')))
-                >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::from(values))
-            )
             | do_parse!(
                 identifier: call!(identifier::identifier)
                 >> keys: many0!(string::string_literal)
                 >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::Block(vec![(keys, values)].into_iter().collect()))
+                >> (Key::Identifier(identifier), object_or_block(keys, values))
             )
         )
     )
-- 
2.43.0


From 5b612dc4c6cc2f7c804c1ac5737115bf48f82609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 20/23] fix: surface custom errors wherever they are in the
 error context

---
 lib/src/errors.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/src/errors.rs b/lib/src/errors.rs
index c7b33fe..d79a35e 100644
--- a/lib/src/errors.rs
+++ b/lib/src/errors.rs
@@ -156,11 +156,13 @@ impl Error {
                 Self::from_input_and_code(input, *code, convert_fn)
             }
             Context::List(list) => {
-                if let Some((input, ErrorKind::Custom(code))) = list.last() {
-                    Self::from_input_and_code(input, *code, convert_fn)
-                } else {
-                    None
-                }
+                // The most specific errors come first
+                list.iter().find_map(|(input, kind)| match kind {
+                    ErrorKind::Custom(code) => {
+                        Self::from_input_and_code(input, *code, &convert_fn)
+                    }
+                    _ => None,
+                })
             }
             _ => None,
         }
-- 
2.43.0


From d2bbc98bfe48de455a5144b7a33306e25fb96a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 21/23] fix: negative zero converts to a number with a negative
 sign

---
 lib/src/parser/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 0a4f6c2..58238de 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -89,7 +89,7 @@ macro_rules! from_float {
     ($($from:ty )*) => {$(
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
-                let string = if n >= 0.0 {
+                let string = if n.is_sign_positive() {
                     n.to_string()
                 } else {
                     (n*-1.0).to_string()
@@ -97,7 +97,7 @@ macro_rules! from_float {
                 let mut parts = string.split(".");
                 let whole = parts.next().map(|s| Cow::Owned(s.to_string()));
                 let fraction = parts.next().map(|s| Cow::Owned(s.to_string()));
-                Self::new(Cow::Owned(n.to_string()), n >= 0.0, whole, fraction, None)
+                Self::new(Cow::Owned(n.to_string()), n.is_sign_positive(), whole, fraction, None)
             }
         }
     )*};
-- 
2.43.0


From 6db401fa86cfdca74e878a97463cccb4da719ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 22/23] fix: reject a list that consists of a separator only

---
 lib/src/parser.rs       | 19 ++++++++++---------
 lib/src/parser/tuple.rs | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 0e99573..ebf70ac 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -32,7 +32,7 @@ use whitespace::newline;
 
 use nom::types::CompleteStr;
 use nom::{
-    alt, alt_complete, call, char, do_parse, eof, exact, named, named_attr, opt,
+    alt, alt_complete, call, char, cond, do_parse, eof, exact, named, named_attr, opt,
     preceded, tag, terminated,
 };
 
@@ -64,16 +64,17 @@ named!(
     preceded!(
         list_begin,
         terminated!(
-            whitespace!(
-                separated_list!(
-                    list_separator,
-                    single_value
+            do_parse!(
+                values: whitespace!(
+                    separated_list!(
+                        list_separator,
+                        single_value
+                    )
                 )
+                >> cond!(!values.is_empty(), whitespace!(opt!(list_separator)))
+                >> (values)
             ),
-            terminated!(
-                whitespace!(opt!(list_separator)),
-                char!(']')
-            )
+            char!(']')
         )
     )
 );
diff --git a/lib/src/parser/tuple.rs b/lib/src/parser/tuple.rs
index c84c290..5a543fd 100644
--- a/lib/src/parser/tuple.rs
+++ b/lib/src/parser/tuple.rs
@@ -10,7 +10,7 @@
 //!
 //! [Reference](https://github.com/hashicorp/hcl2/blob/master/hcl/hclsyntax/spec.md#collection-values)
 use nom::types::CompleteStr;
-use nom::{char, named, opt, preceded, terminated};
+use nom::{char, cond, do_parse, named, opt, preceded, terminated};
 
 use super::expression::{expression, Expression};
 
@@ -35,16 +35,17 @@ named!(
     preceded!(
         tuple_begin,
         terminated!(
-            whitespace!(
-                separated_list!(
-                    tuple_separator,
-                    expression
+            do_parse!(
+                values: whitespace!(
+                    separated_list!(
+                        tuple_separator,
+                        expression
+                    )
                 )
+                >> cond!(!values.is_empty(), whitespace!(opt!(tuple_separator)))
+                >> (values)
             ),
-            terminated!(
-                whitespace!(opt!(tuple_separator)),
-                char!(']')
-            )
+            char!(']')
         )
     )
 );
-- 
2.43.0


From 7ce4c5b92739fc66b63b121e035a87932f3860ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 23/23] fix: label_lens of a block index without blocks is
 empty

---
 lib/src/parser/block.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index c87806a..1d13fef 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -611,6 +611,7 @@ impl<'a> BlockBody<'a> {
     /// Get a set of label lengths for this body
     pub fn label_lens(&self) -> BTreeSet<usize> {
         match self {
+            BlockBody::Body(ref bodies) if bodies.is_empty() => BTreeSet::new(),
             BlockBody::Body(_) => std::iter::once(0).collect(),
             BlockBody::Labels {
                 ref labels,
-- 
2.43.0

