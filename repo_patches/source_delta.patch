From e98ab83a6910dcd3493caf6a62e40206bff9bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:33 +0000
Subject: [PATCH 01/17] fix: reject out of range byte lengths in decoder
 instead of overflowing

---
 ethabi/src/decoder.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..49ab9a6 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -63,10 +63,9 @@ pub fn decode(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>, Error> {
 }
 
 fn peek(data: &[u8], offset: usize, len: usize) -> Result<&[u8], Error> {
-	if offset + len > data.len() {
-		Err(Error::InvalidData)
-	} else {
-		Ok(&data[offset..(offset + len)])
+	match offset.checked_add(len) {
+		Some(end) if end <= data.len() => Ok(&data[offset..end]),
+		_ => Err(Error::InvalidData),
 	}
 }
 
@@ -79,11 +78,7 @@ fn peek_32_bytes(data: &[u8], offset: usize) -> Result<Word, Error> {
 }
 
 fn take_bytes(data: &[u8], offset: usize, len: usize) -> Result<Vec<u8>, Error> {
-	if offset + len > data.len() {
-		Err(Error::InvalidData)
-	} else {
-		Ok((&data[offset..(offset + len)]).to_vec())
-	}
+	peek(data, offset, len).map(|x| x.to_vec())
 }
 
 fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeResult, Error> {
-- 
2.43.0


From a32e0919d51041838b423753a914ed5686b36dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:35 +0000
Subject: [PATCH 02/17] fix: reject out of range offsets of dynamic fixed
 arrays instead of panicking

---
 ethabi/src/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 49ab9a6..72097e9 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -156,8 +156,15 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				if offset > data.len() {
+					return Err(Error::InvalidData);
+				}
+				(&data[offset..], 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From 6f6db94def99cf01e0436ec504d7b9440188636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:37 +0000
Subject: [PATCH 03/17] fix: reject array lengths exceeding the available data
 in decoder

---
 ethabi/src/decoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 72097e9..a3239b1 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -140,6 +140,13 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 			let tail_offset = len_offset + 32;
 			let tail = &data[tail_offset..];
 
+			// Elements take up space in the tail, so a length exceeding it can not be
+			// genuine. Without this check a few bytes of data declaring a huge array of
+			// zero-sized elements (e.g. `()[]`) would exhaust the memory.
+			if len > tail.len() {
+				return Err(Error::InvalidData);
+			}
+
 			let mut tokens = vec![];
 			let mut new_offset = 0;
 
-- 
2.43.0


From e15e5b743ef8114092f7cef92123803bb4d9fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:31 +0000
Subject: [PATCH 04/17] fix: parse nested tuple types correctly and reject
 unbalanced ones

---
 ethabi/src/param_type/reader.rs | 96 +++++++--------------------------
 1 file changed, 20 insertions(+), 76 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..752ac5c 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -17,30 +17,20 @@ impl Reader {
 		match name.chars().last() {
 			// check if it is a struct
 			Some(')') => {
-				if !name.starts_with('(') {
-					return Err(Error::InvalidName(name.to_owned()));
+				let inner = match name.strip_prefix('(').and_then(|n| n.strip_suffix(')')) {
+					Some(inner) => inner,
+					None => return Err(Error::InvalidName(name.to_owned())),
 				};
 
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
 				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
-				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
+				let mut last_item = 0;
 
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
+				// Iterate over the members of the tuple. Nested tuples, including any trailing
+				// brackets that indicate an array of tuples, are parsed by the recursive call.
+				for (pos, c) in inner.char_indices() {
 					match c {
-						'(' => {
-							top_level_paren_open = pos;
-							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
-								last_item = pos + 1;
-							}
-						}
+						'(' => nested += 1,
 						')' => {
 							nested -= 1;
 
@@ -48,72 +38,26 @@ impl Reader {
 							if nested < 0 {
 								return Err(Error::InvalidName(name.to_owned()));
 							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
-
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
-
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
-								last_item = pos + 1;
-							}
 						}
-						',' => {
+						',' if nested == 0 => {
 							// If there have not been any characters since the last item
 							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
+							if last_item < pos {
+								subtypes.push(Reader::read(&inner[last_item..pos])?);
 							}
+							last_item = pos + 1;
 						}
 						_ => (),
 					}
 				}
+
+				if nested != 0 {
+					return Err(Error::InvalidName(name.to_owned()));
+				}
+
+				if last_item < inner.len() {
+					subtypes.push(Reader::read(&inner[last_item..])?);
+				}
 				return Ok(ParamType::Tuple(subtypes));
 			}
 			// check if it is a fixed or dynamic array.
-- 
2.43.0


From 28d4a12370db55903391fa34fc9419856abb63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 05/17] fix: reject malformed array type names instead of
 panicking

---
 ethabi/src/param_type/reader.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 752ac5c..07f682e 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -62,19 +62,21 @@ impl Reader {
 			}
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
-				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				// split into the element type and the number part
+				let body = &name[..name.len() - 1];
+				let (element, num) = match body.rfind('[') {
+					Some(pos) => (&body[..pos], &body[pos + 1..]),
+					None => return Err(Error::InvalidName(name.to_owned())),
+				};
 
-				let count = name.chars().count();
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
+					let subtype = Reader::read(element)?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
+					let subtype = Reader::read(element)?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From a9b9f1fbe26f9857e35dee12a255f2aa852aabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:21 +0000
Subject: [PATCH 06/17] fix: do not slice tokenized arrays and structs by char
 positions

---
 ethabi/src/token/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..02d4999 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -59,7 +59,7 @@ pub trait Tokenizer {
 		let mut ignore = false;
 		let mut last_item = 1;
 		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
+		for (pos, ch) in value.char_indices() {
 			match ch {
 				'(' if !ignore => {
 					nested += 1;
@@ -114,7 +114,7 @@ pub trait Tokenizer {
 		let mut nested = 0isize;
 		let mut ignore = false;
 		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
+		for (i, ch) in value.char_indices() {
 			match ch {
 				'[' if !ignore => {
 					nested += 1;
-- 
2.43.0


From 79a494a5bded92798d3a83f77e11302ddeee5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:22 +0000
Subject: [PATCH 07/17] fix: reject unbalanced arrays and structs when
 tokenizing

---
 ethabi/src/token/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 02d4999..f51e220 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -71,6 +71,10 @@ pub trait Tokenizer {
 						Less => {
 							return Err(Error::InvalidData);
 						}
+						// the outermost parenthesis may be closed only by the last character
+						Equal if pos + 1 != value.len() => {
+							return Err(Error::InvalidData);
+						}
 						Equal => {
 							let sub = &value[last_item..pos];
 							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
@@ -93,7 +97,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || nested != 0 {
 			return Err(Error::InvalidData);
 		}
 
@@ -125,6 +129,10 @@ pub trait Tokenizer {
 						Less => {
 							return Err(Error::InvalidData);
 						}
+						// the outermost bracket may be closed only by the last character
+						Equal if i + 1 != value.len() => {
+							return Err(Error::InvalidData);
+						}
 						Equal => {
 							let sub = &value[last_item..i];
 							let token = Self::tokenize(param, sub)?;
@@ -147,7 +155,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || nested != 0 {
 			return Err(Error::InvalidData);
 		}
 
-- 
2.43.0


From fa2f2da87fa86830cd08d5c6621e8879b1cdeb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 08/17] fix: reject structs with missing members when
 tokenizing

---
 ethabi/src/token/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index f51e220..5f8f964 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -50,7 +50,7 @@ pub trait Tokenizer {
 			return Err(Error::InvalidData);
 		}
 
-		if value.chars().count() == 2 {
+		if value.chars().count() == 2 && param.is_empty() {
 			return Ok(vec![]);
 		}
 
@@ -97,7 +97,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore || nested != 0 {
+		if ignore || nested != 0 || params.next().is_some() {
 			return Err(Error::InvalidData);
 		}
 
-- 
2.43.0


From 1873c53afdbb7d412c91afc2f9b68052d4a465d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:26 +0000
Subject: [PATCH 09/17] fix: require tuple tokens to have as many members as
 their type

---
 ethabi/src/token/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..2c34e79 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,7 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					Token::types_check(tokens, param_type)
 				} else {
 					false
 				}
-- 
2.43.0


From 892f60d8e48c7f3ac051807549c56561d2362e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:11 +0000
Subject: [PATCH 10/17] fix: match parsed log params with their values by
 position

---
 ethabi/src/event.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..d8fd3a4 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -30,11 +29,6 @@ pub struct Event {
 }
 
 impl Event {
-	/// Returns names of all params.
-	fn params_names(&self) -> Vec<String> {
-		self.inputs.iter().map(|p| p.name.clone()).collect()
-	}
-
 	/// Returns types of all params.
 	fn param_types(&self) -> Vec<ParamType> {
 		self.inputs.iter().map(|p| p.kind.clone()).collect()
@@ -151,21 +145,22 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
+		// names may repeat or be missing, so match params with their tokens by position
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
 
 		let decoded_params = self
-			.params_names()
-			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+			.inputs
+			.iter()
+			.map(|p| {
+				let value = if p.indexed { topic_tokens.next() } else { data_tokens.next() };
+				Ok(LogParam { name: p.name.clone(), value: value.ok_or(Error::InvalidData)? })
+			})
+			.collect::<Result<Vec<_>>>()?;
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From b1ac67e9b2eeafeee46e2ce5fb476f6697e376f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:12 +0000
Subject: [PATCH 11/17] fix: skip values of unknown fields when deserializing
 params

---
 ethabi/src/event_param.rs | 6 ++++--
 ethabi/src/param.rs       | 6 ++++--
 ethabi/src/tuple_param.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/event_param.rs b/ethabi/src/event_param.rs
index bf279fb..ae2f16d 100644
--- a/ethabi/src/event_param.rs
+++ b/ethabi/src/event_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType, TupleParam};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -81,7 +81,9 @@ impl<'a> Visitor<'a> for EventParamVisitor {
 					}
 					indexed = Some(map.next_value()?);
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index a7ed4e5..9d4dff5 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -9,7 +9,7 @@
 //! Function param.
 
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	Deserialize, Deserializer, Serialize, Serializer,
 };
 use std::fmt;
@@ -82,7 +82,9 @@ impl<'a> Visitor<'a> for ParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/tuple_param.rs b/ethabi/src/tuple_param.rs
index 1fd72e7..5f8f716 100644
--- a/ethabi/src/tuple_param.rs
+++ b/ethabi/src/tuple_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -83,7 +83,9 @@ impl<'a> Visitor<'a> for TupleParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 
-- 
2.43.0


From a42db92637691b225e713b5d70f8b00140a4ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:15 +0000
Subject: [PATCH 12/17] fix: hash indexed params in topic filters according to
 the ABI spec

---
 ethabi/src/event.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d8fd3a4..9bbf86b 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
 
 use crate::{
-	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
+	decode, encode, signature::long_signature, Bytes, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
 	RawTopicFilter, Result, Token, Topic, TopicFilter,
 };
 
@@ -46,12 +46,35 @@ impl Event {
 
 	/// Creates topic filter
 	pub fn filter(&self, raw: RawTopicFilter) -> Result<TopicFilter> {
+		// Encodes the value in place, without any offsets and lengths, as described in
+		// https://solidity.readthedocs.io/en/develop/abi-spec.html#encoding-of-indexed-event-parameters
+		fn encode_in_place(token: &Token) -> Bytes {
+			match token {
+				Token::Bytes(bytes) => bytes.clone(),
+				Token::String(s) => s.as_bytes().to_vec(),
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => {
+					let mut result = vec![];
+					for token in tokens {
+						result.extend(encode_in_place(token));
+						// members are always padded to a multiple of 32 bytes
+						result.resize((result.len() + 31) / 32 * 32, 0);
+					}
+					result
+				}
+				_ => encode(&[token.clone()]),
+			}
+		}
+
 		fn convert_token(token: Token, kind: &ParamType) -> Result<Hash> {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
-			if encoded.len() == 32 {
+			let is_value_type = !matches!(
+				token,
+				Token::Bytes(_) | Token::String(_) | Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_)
+			);
+			let encoded = encode_in_place(&token);
+			if is_value_type && encoded.len() == 32 {
 				let mut data = [0u8; 32];
 				data.copy_from_slice(&encoded);
 				Ok(data.into())
-- 
2.43.0


From ed50673ef29aa4fce44e4af11ea81832d8d711f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:46 +0000
Subject: [PATCH 13/17] fix: generate valid code for outputs of fixed array
 type

---
 derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index ce70efa..2beb457 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -143,7 +143,7 @@ fn rust_type(input: &ParamType) -> proc_macro2::TokenStream {
 		}
 		ParamType::FixedArray(ref kind, size) => {
 			let t = rust_type(&*kind);
-			quote! { [#t, #size] }
+			quote! { [#t; #size] }
 		}
 		ParamType::Tuple(_) => {
 			unimplemented!("Tuples are not supported. https://github.com/openethereum/ethabi/issues/175")
@@ -267,10 +267,10 @@ fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2
 		ParamType::FixedArray(ref kind, size) => {
 			let inner = quote! { inner };
 			let inner_loop = from_token(kind, &inner);
-			let to_array = vec![quote! { iter.next() }; size];
+			let to_array = vec![quote! { iter.next().expect(INTERNAL_ERR) }; size];
 			quote! {
 				{
-					let iter = #token.to_array().expect(INTERNAL_ERR).into_iter()
+					let mut iter = #token.into_fixed_array().expect(INTERNAL_ERR).into_iter()
 						.map(|#inner| #inner_loop);
 					[#(#to_array),*]
 				}
-- 
2.43.0


From 3f96202607c5562be39c932901038ab9047887c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:48 +0000
Subject: [PATCH 14/17] fix: use hashes for indexed params of dynamic types in
 generated logs

---
 derive/src/event.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 079ce7a..27f6b38 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -6,12 +6,31 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use ethabi::ParamType;
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
 use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
 
+/// Returns the type of the value the given event param has in a log.
+///
+/// Logs contain only hashes of indexed params which do not fit in a topic.
+fn log_kind(param: &ethabi::EventParam) -> ParamType {
+	match param.kind {
+		ParamType::String
+		| ParamType::Bytes
+		| ParamType::Array(_)
+		| ParamType::FixedArray(_, _)
+		| ParamType::Tuple(_)
+			if param.indexed =>
+		{
+			ParamType::FixedBytes(32)
+		}
+		_ => param.kind.clone(),
+	}
+}
+
 /// Structure used to generate contract's event interface.
 pub struct Event {
 	name: String,
@@ -43,13 +62,14 @@ impl<'a> From<&'a ethabi::Event> for Event {
 				}
 			})
 			.collect();
-		let kinds: Vec<_> = e.inputs.iter().map(|param| rust_type(&param.kind)).collect();
+		let log_kinds: Vec<_> = e.inputs.iter().map(log_kind).collect();
+		let kinds: Vec<_> = log_kinds.iter().map(rust_type).collect();
 		let log_fields =
 			names.iter().zip(kinds.iter()).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
 
 		let log_iter = quote! { log.next().expect(INTERNAL_ERR).value };
 
-		let to_log: Vec<_> = e.inputs.iter().map(|param| from_token(&param.kind, &log_iter)).collect();
+		let to_log: Vec<_> = log_kinds.iter().map(|kind| from_token(kind, &log_iter)).collect();
 
 		let log_init =
 			names.iter().zip(to_log.iter()).map(|(param_name, convert)| quote! { #param_name: #convert }).collect();
-- 
2.43.0


From 8554de4ef83303d8e9408559b2aafa3704b2f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:50 +0000
Subject: [PATCH 15/17] fix: reject superfluous params of function calls in cli

---
 cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index db84036..75b38d7 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -172,6 +172,10 @@ fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<V
 fn encode_input(path: &str, name_or_signature: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
 	let function = load_function(path, name_or_signature)?;
 
+	if function.inputs.len() != values.len() {
+		return Err(anyhow!("expected {} params, found {}", function.inputs.len(), values.len()));
+	}
+
 	let params: Vec<_> =
 		function.inputs.iter().map(|param| param.kind.clone()).zip(values.iter().map(|v| v as &str)).collect();
 
-- 
2.43.0


From 238542375a4848aea57b919d4a001a827c294e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:18 +0000
Subject: [PATCH 16/17] fix: derive generates code that does not compile for
 arrays of fixed bytes, nested arrays and indexed fixed arrays

---
 derive/src/event.rs |  4 ++--
 derive/src/lib.rs   | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 27f6b38..873e968 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -11,7 +11,7 @@ use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
+use super::{from_token, get_template_names, iterable, rust_type, to_syntax_string, to_token};
 
 /// Returns the type of the value the given event param has in a log.
 ///
@@ -116,7 +116,7 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.map(|(index, (param_name, param))| {
 				let topic = syn::Ident::new(&format!("topic{}", index), Span::call_site());
 				let i = quote! { i };
-				let to_token = to_token(&i, &param.kind);
+				let to_token = to_token(&iterable(&i, &param.kind), &param.kind);
 				quote! { #topic: #param_name.into().map(|#i| #to_token), }
 			})
 			.collect();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 2beb457..c3d6bb0 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -183,14 +183,37 @@ fn template_param_type(input: &ParamType, index: usize) -> proc_macro2::TokenStr
 
 fn from_template_param(input: &ParamType, name: &syn::Ident) -> proc_macro2::TokenStream {
 	match *input {
-		ParamType::Array(_) => quote! { #name.into_iter().map(Into::into).collect::<Vec<_>>() },
-		ParamType::FixedArray(_, _) => {
-			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<_>>() }
+		ParamType::Array(ref kind) => {
+			let into = into_element(kind);
+			quote! { #name.into_iter().map(#into).collect::<Vec<_>>() }
+		}
+		ParamType::FixedArray(ref kind, _) => {
+			let into = into_element(kind);
+			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(#into).collect::<Vec<_>>() }
 		}
 		_ => quote! {#name.into() },
 	}
 }
 
+/// Conversion of an array element, with the target type spelled out where `to_token` does not determine it.
+fn into_element(kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedBytes(_) | ParamType::Array(_) | ParamType::FixedArray(_, _) => {
+			let t = rust_type(kind);
+			quote! { Into::<#t>::into }
+		}
+		_ => quote! { Into::into },
+	}
+}
+
+/// Value of the given kind, as a vector if it is a rust array (which can not be iterated by value in every edition).
+fn iterable(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedArray(_, _) => quote! { #name.to_vec() },
+		_ => name.clone(),
+	}
+}
+
 fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { ethabi::Token::Address(#name) },
@@ -202,7 +225,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		ParamType::String => quote! { ethabi::Token::String(#name) },
 		ParamType::Array(ref kind) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&iterable(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -213,7 +236,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		}
 		ParamType::FixedArray(ref kind, _) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&iterable(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
-- 
2.43.0


From 801fbb9220af1fedef606c00cf7f36e9e3501e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:22 +0000
Subject: [PATCH 17/17] fix: derive generates code that does not compile for
 parameters called c, code or f

---
 derive/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index c3d6bb0..c81d017 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -342,8 +342,12 @@ fn get_output_kinds(outputs: &[Param]) -> proc_macro2::TokenStream {
 /// Avoid using keywords by escaping them.
 fn rust_variable(name: &str) -> String {
 	// avoid keyword parameters
-	match name {
-		"self" => "_self".to_string(),
-		other => other.to_snake_case(),
+	if name == "self" {
+		return "_self".to_string();
+	}
+	// avoid the names of other variables in the generated functions
+	match name.to_snake_case().as_str() {
+		variable @ "c" | variable @ "code" | variable @ "f" => format!("_{}", variable),
+		variable => variable.to_string(),
 	}
 }
-- 
2.43.0

