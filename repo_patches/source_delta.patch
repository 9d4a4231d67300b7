From d8ebf3b6f4f8b4bc3214621c383528373db941f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:35 +0000
Subject: [PATCH 01/20] fix: a doctype ending with '/>' closed its parent node

`<!DOCTYPE html/>` popped the enclosing node (or the abstract root) from the
open tags, so `<!DOCTYPE html/><div></div>` panicked.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..63ff21a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1113,7 +1113,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// a doctype is never an open tag, so it's not in the chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From 580c8057b2dadb6d9d0867298987e2db3453a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 02/20] fix: content ending inside a start tag panicked or lost
 attributes

`<div` panicked in the parser with the default options. With
`auto_fix_unclosed_tag` it panicked when rendered, `<div a=b` lost the value
and `<br a` was rendered as `<br ></br>`.
---
 src/parser.rs | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 63ff21a..7cfb1df 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2016,21 +2016,52 @@ impl Doc {
 		Ok(())
 	}
 
+	// finish the start tag which is cut off by the end of the doc
+	fn fix_unfinished_tag(&mut self) {
+		let tag_code_in = self
+			.current_node
+			.borrow()
+			.meta
+			.as_ref()
+			.map(|meta| meta.borrow().code_in.clone());
+		match tag_code_in {
+			// still in the tag name
+			None => {
+				self.set_tag_meta();
+			}
+			Some(TagCodeIn::Key) => self.set_tag_attr_key(),
+			Some(TagCodeIn::Value) => {
+				let quote = Some(self.mark_char).filter(|quote| *quote != WS_CHAR);
+				self.set_tag_attr_value(quote);
+			}
+			_ => {}
+		}
+		let is_void = self
+			.current_node
+			.borrow()
+			.meta
+			.as_ref()
+			.map_or(false, |meta| meta.borrow().is_void);
+		if is_void {
+			self.chain_nodes.pop();
+		}
+	}
+
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
+		if self.code_in == CodeTypeIn::Tag && self.parse_options.auto_fix_unclosed_tag {
+			self.fix_unfinished_tag();
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
 			if !self.parse_options.auto_fix_unclosed_tag {
 				let last_node = self.chain_nodes[cur_depth - 1].borrow();
 				let begin_at = last_node.begin_at;
-				let tag_name = chars_to_string(
-					&last_node
-						.meta
-						.as_ref()
-						.expect("tag node's meta must have")
-						.borrow()
-						.name,
+				// the meta is not set yet when the content ends in the tag name
+				let tag_name = last_node.meta.as_ref().map_or_else(
+					|| self.chars_to_string(),
+					|meta| chars_to_string(&meta.borrow().name),
 				);
 				return create_parse_error(ErrorKind::UnclosedTag(tag_name), begin_at, context);
 			}
-- 
2.43.0


From f904270c809ee26234069d0f388e14e86bd59dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:37 +0000
Subject: [PATCH 03/20] fix: the text of an unescaped '<' was added to a closed
 tag

With `auto_fix_unescaped_lt`, `<script>x</script><1` was parsed as
`<script>x&lt;1</script>` and `<br><1` got a text node inside the void tag.
The text node also missed its `parent` and `root`.
---
 src/parser.rs | 47 +++++++----------------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7cfb1df..cf65fae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1941,8 +1941,6 @@ impl Doc {
 	// fix unescaped left angle bracket
 	fn fix_unescaped_lt(&mut self, c: char, context: &str) -> HResult {
 		let mut chars = vec!['&', 'l', 't', ';'];
-		let mut parent: Option<RefNode> = None;
-		let mut need_parent = false;
 		let node_type = self.current_node.borrow().node_type;
 		let is_end_text = c == TAG_BEGIN_CHAR;
 		if !is_end_text {
@@ -1962,47 +1960,16 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
-				need_parent = true;
+				// add a new text node to the innermost open tag
+				self.add_new_node(Rc::new(RefCell::new(Node::new(
+					NodeType::Text,
+					self.mem_position,
+				))));
+				// set prev chars
+				self.prev_chars = chars;
 			}
 		}
-		if need_parent {
-			if !self.chain_nodes.is_empty() {
-				let index = self.chain_nodes.len() - 1;
-				parent = Some(Rc::clone(&self.chain_nodes[index]));
-			} else {
-				parent = Some(Rc::clone(&self.root));
-			}
-		}
-		if let Some(parent) = &parent {
-			let text_node = Node::new(NodeType::Text, self.mem_position);
-			let current_node = Rc::new(RefCell::new(text_node));
-			let mut parent = parent.borrow_mut();
-			let childs = parent.childs.get_or_insert(Vec::new());
-			current_node.borrow_mut().index = childs.len();
-			childs.push(Rc::clone(&current_node));
-			// set current node as text node
-			self.current_node = current_node;
-			// set prev chars
-			self.prev_chars = chars;
-		}
 		self.repeat_whitespace = false;
 		self.set_code_in(CodeTypeIn::TextNode);
 		// if is end of text<the tag left character>
-- 
2.43.0


From d67f32bb931f4d481b758815b112d873c4b9ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:38 +0000
Subject: [PATCH 04/20] fix: wrong end of svg/math when nested or closed with
 another case

A nested `</svg>` ended the outer svg too, so `<svg><svg></svg><g/></svg>` was
an error; `<svg></SVG>` never ended it, so `<svg></SVG><div/>` was accepted and
`<svg></SVG><![CDATA[` panicked.
---
 src/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cf65fae..eef0289 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1363,10 +1363,17 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.set_tag_end_info();
 				// set code in
 				doc.set_code_in(Unkown);
-				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
-				{
+				// end of special tag, only when the outermost special tag is closed
+				let is_special_end = doc.in_special.as_ref().map_or(false, |(_, name)| {
+					!doc.chain_nodes.iter().any(|node| {
+						node
+							.borrow()
+							.meta
+							.as_ref()
+							.map_or(false, |meta| is_equal_chars(name, &meta.borrow().name, &None))
+					})
+				});
+				if is_special_end {
 					doc.in_special = None;
 				}
 				// set end tag more info
-- 
2.43.0


From 14eff3ccf10aaaf116e04b77f85e6ba7cd9e7029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:39 +0000
Subject: [PATCH 05/20] fix: empty comments and empty cdata sections were not
 closed

`<!---->` and `<![CDATA[]]>` swallowed everything up to the next terminator.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index eef0289..407abca 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1508,7 +1508,7 @@ fn parse_comment_or_cdata(doc: &mut Doc, c: char, _: &str) -> HResult {
 	if c == TAG_END_CHAR {
 		let chars = &doc.prev_chars;
 		let total = chars.len();
-		if total > 2 {
+		if total >= 2 {
 			let end_symbol = doc.mark_char;
 			let prev_char = chars[total - 1];
 			if prev_char == end_symbol && chars[total - 2] == end_symbol {
-- 
2.43.0


From fe84510c97f5fcf409fb16b24a4776bb209a6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:40 +0000
Subject: [PATCH 06/20] fix: unquoted attribute values lost their leading slash

`<a href=/path>` was parsed as `href=path`.
---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 407abca..3019fd5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1181,6 +1181,12 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.check_tag_type_do();
 			}
 		}
+		END_SLASH_CHAR if doc.is_tag_code_in(&TagCodeIn::WaitValue) => {
+			// an unquoted value that starts with slash, e.g. href=/path
+			doc.prev_chars.push(c);
+			doc.mark_char = WS_CHAR;
+			doc.set_tag_code_in(TagCodeIn::Value);
+		}
 		END_SLASH_CHAR => {
 			// parse self closing
 			doc.handle = parse_tag_self_closing;
-- 
2.43.0


From 78ab9abf129edad414ea16035c6e8cf8fe6a7121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:41 +0000
Subject: [PATCH 07/20] fix: remove_attr_quote removed quotes that the value
 needs

`need_quote` was never set, so `<a b='c d' e=''>` was rendered as
`<a b=c d e=>`.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3019fd5..3beb75a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -401,6 +401,9 @@ impl TagMeta {
 			.attrs
 			.last_mut()
 			.expect("Attrs must not be empty when call set_attr_key");
+		// an empty value, or a value without a key can't be unquoted neither
+		attr.need_quote =
+			attr.key.is_none() || value.is_empty() || value.iter().any(Attr::need_quoted_char);
 		attr.value = Some(AttrData { content: value });
 		attr.quote = quote;
 		attr
-- 
2.43.0


From 77bb0866304a0e2fd9a0f10f654606d4d72da9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:41 +0000
Subject: [PATCH 08/20] fix: always_close_void closed auto-fixed tags instead
 of void tags

`<br>` stayed `<br>`, while an auto-fixed `<a>` became `<a /></a>`.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3beb75a..a2b7586 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -688,7 +688,7 @@ impl Node {
 						result.extend_from_slice(&attrs);
 					}
 					// add self closing
-					if meta.self_closed || (meta.auto_fix && options.always_close_void) {
+					if meta.self_closed || (meta.is_void && options.always_close_void) {
 						result.push(WS_CHAR);
 						result.push('/');
 					}
-- 
2.43.0


From fb4d62b02686a1fbc107d0f31a4066074d59240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:29 +0000
Subject: [PATCH 09/20] fix: decode_entity with minify_spaces lost spaces and
 entities

`x &gt; y` lost the space after the entity, and any '&' that isn't an entity
kept the entities and the repeated spaces after it as they were.
---
 src/parser.rs | 63 ++++++++++++---------------------------------------
 1 file changed, 15 insertions(+), 48 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a2b7586..2ab42b7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,8 +3,9 @@ use crate::config::{ParseOptions, RenderOptions};
 use crate::error::{ErrorKind, ParseError};
 use crate::position::CodeRegion;
 use crate::types::{BoxDynError, GenResult, HResult};
-use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType, Entity};
+use htmlentity::entity::{decode_chars, decode_chars_to, encode_char, CharacterSet, EncodeType};
 use lazy_static::lazy_static;
+use std::borrow::Cow;
 use std::collections::HashMap;
 use std::fmt;
 use std::rc::{Rc, Weak};
@@ -601,56 +602,22 @@ impl Node {
 				if !is_in_pre && options.minify_spaces {
 					// just keep one space
 					let mut prev_is_space = false;
-					if options.decode_entity {
-						let mut start_index: usize = 0;
-						let mut is_in_entity = false;
-						for (index, ch) in content.iter().enumerate() {
-							if !is_in_entity {
-								if ch == &'&' {
-									is_in_entity = true;
-									start_index = index;
-								} else {
-									// judge if whitespace
-									if ch.is_ascii_whitespace() {
-										if prev_is_space {
-											continue;
-										}
-										prev_is_space = true;
-									} else {
-										prev_is_space = false;
-									}
-									result.push(*ch);
-								}
-							} else if ch == &';' {
-								// entity end
-								let entity = &content[start_index + 1..index];
-								if let Ok(decoded) = Entity::decode_chars(entity) {
-									result.push(decoded);
-								} else {
-									result.push('&');
-									result.extend_from_slice(entity);
-									result.push(';');
-								}
-								is_in_entity = false;
-							}
-						}
-						// has suffix wrong entity
-						if is_in_entity {
-							result.extend(&content[start_index..]);
-						}
+					let content = if options.decode_entity {
+						decode_chars(content)
 					} else {
-						// just add one space when meet repeated whitespaces
-						for &c in content {
-							if c.is_ascii_whitespace() {
-								if prev_is_space {
-									continue;
-								}
-								prev_is_space = true;
-							} else {
-								prev_is_space = false;
+						Cow::from(content)
+					};
+					// just add one space when meet repeated whitespaces
+					for &c in content.iter() {
+						if c.is_ascii_whitespace() {
+							if prev_is_space {
+								continue;
 							}
-							result.push(c);
+							prev_is_space = true;
+						} else {
+							prev_is_space = false;
 						}
+						result.push(c);
 					}
 				} else {
 					// decode entity
-- 
2.43.0


From e12188e56a164a25250b6d89056317830a26456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:30 +0000
Subject: [PATCH 10/20] fix: minify_spaces lost the nesting of the pre tag

A nested `</pre>` ended the outer pre, and a self-closing `<pre />` took all
the following nodes as its content.
---
 src/parser.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2ab42b7..3c75dbe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -680,14 +680,6 @@ impl Node {
 					.as_ref()
 					.expect("End tag's tag name must not empty");
 				let mut content = &content[..];
-				if is_in_pre
-					&& is_equal_chars(
-						chars_trim_end(content),
-						&PRE_TAG_NAME,
-						&Some(NameCase::Lower),
-					) {
-					status.is_in_pre = false;
-				}
 				if need_tag {
 					result.extend_from_slice(&['<', '/']);
 					if options.remove_endtag_space {
@@ -762,6 +754,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -782,6 +775,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// the pre tag is only effective for its own childs
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0


From e74a4db976d9eec71fda7c2efd46fc324db9d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:31 +0000
Subject: [PATCH 11/20] fix: the only text child was changed to spaces between
 tags afterwards

The spaces in `<a> </a>` are a text node, but in `<a> </a><b></b>` the next tag
changed them to spaces between tags, so minify_spaces removed them.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3c75dbe..ad4446a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1327,7 +1327,10 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 					Some(childs) => childs.len() == 1 && childs[0].borrow().node_type == NodeType::Text,
 					None => false,
 				};
-				if !is_only_text_child {
+				if is_only_text_child {
+					// the text is settled, don't change it by the following nodes
+					doc.check_textnode = None;
+				} else {
 					doc.set_text_spaces_between();
 				}
 				// set node end
-- 
2.43.0


From 4298401639180a9f52d5d894b1fb29d8c88d1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:32 +0000
Subject: [PATCH 12/20] fix: a dropped unexpected end tag still affected the
 text around it

Without `auto_fix_unclosed_tag` the text around it was split into two nodes,
and spaces around it were never taken as spaces between tags.
---
 src/parser.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ad4446a..78bdd49 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -947,11 +947,8 @@ fn parse_wait(doc: &mut Doc, c: char, _: &str) -> HResult {
 				if let Some(content) = &mut current_node.content {
 					doc.prev_chars.append(content);
 				}
-				if matches!(current_node.node_type, NodeType::Text) {
-					doc.repeat_whitespace = false;
-				} else {
-					doc.repeat_whitespace = c.is_ascii_whitespace();
-				}
+				// continue the text, which is broken off by the unexpected endtag
+				doc.repeat_whitespace = doc.repeat_whitespace && c.is_ascii_whitespace();
 			} else {
 				// new text node
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
@@ -1520,8 +1517,8 @@ fn parse_unkown_tag(doc: &mut Doc, c: char, context: &str) -> HResult {
 			doc.prev_chars.push(c);
 		}
 		END_SLASH_CHAR => {
-			// if allow auto fix unclosed tag
-			if !doc.parse_options.auto_fix_unclosed_tag {
+			// if allow auto fix unexpected end tag
+			if !doc.parse_options.auto_fix_unexpected_endtag {
 				doc.add_new_node(Rc::new(RefCell::new(Node::new(
 					NodeType::TagEnd,
 					doc.mem_position,
-- 
2.43.0


From c01492a9c65e89ffb95e73ae3a15a9a966dbb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 13/20] fix: parse_file panicked on io errors and changed the
 content

A relative path that doesn't exist, and a file with invalid utf-8 panicked. The
positions of errors were always at line 1, '\r\n' was changed to '\n', and a
newline was added to the end of the file.
---
 src/parser.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 78bdd49..b6afa3e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,10 +11,7 @@ use std::fmt;
 use std::rc::{Rc, Weak};
 use std::{
 	cell::{Ref, RefCell},
-	env,
-	fs::File,
-	io::prelude::*,
-	io::BufReader,
+	env, fs,
 	path::Path,
 };
 
@@ -1768,23 +1765,10 @@ impl Doc {
 		let file_path = if file_path.is_absolute() {
 			file_path.to_path_buf()
 		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
+			env::current_dir()?.join(filename).canonicalize()?
 		};
-		let file = File::open(file_path)?;
-		let file = BufReader::new(file);
-		let mut doc = Doc::new();
-		let mut content = String::with_capacity(500);
-		doc.parse_options = options;
-		for line in file.lines() {
-			let line_content = line.unwrap();
-			content.push_str(&line_content);
-			for c in line_content.chars() {
-				doc.next(c, &content)?;
-			}
-			doc.next('\n', &content)?;
-		}
-		doc.eof(&content)?;
-		Ok(doc.into_root())
+		let content = fs::read_to_string(file_path)?;
+		Doc::parse(&content, options)
 	}
 
 	// chars to string
-- 
2.43.0


From ad67117b7f6823f16d5c288c3790182b8705d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 14/20] fix: clone_node panicked on inserted nodes and lost the
 end tag's parent

A node created by `create_text_node(content, None)` and added to a tag that
isn't at the beginning made `clone_node` panic with a subtract overflow.
---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6afa3e..c3d4982 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -508,8 +508,9 @@ impl Node {
 	// clone node but without childs
 	fn clone_node_without_childs(&self, reduce_code_at: usize) -> RefNode {
 		Rc::new(RefCell::new(Node {
-			begin_at: self.begin_at - reduce_code_at,
-			end_at: self.end_at - reduce_code_at,
+			// nodes that inserted by user may begin before the cloned node
+			begin_at: self.begin_at.saturating_sub(reduce_code_at),
+			end_at: self.end_at.saturating_sub(reduce_code_at),
 			index: 0,
 			node_type: self.node_type,
 			root: self.root.clone(),
@@ -532,6 +533,9 @@ impl Node {
 	// clone node with reduced code at
 	fn clone_node_with(&self, reduce_code_at: usize) -> RefNode {
 		let parent_node = self.clone_node_without_childs(reduce_code_at);
+		if let Some(end_tag) = &parent_node.borrow().end_tag {
+			end_tag.borrow_mut().parent = Some(Rc::downgrade(&parent_node));
+		}
 		let mut cur_childs: Vec<RefNode> = vec![];
 		if let Some(childs) = &self.childs {
 			for node in childs {
-- 
2.43.0


From 51555ba8c31aa254e3a151af91cf4256c08e98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:34 +0000
Subject: [PATCH 15/20] fix: allow_insert allowed tags in uppercase title and
 textarea

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c3d4982..2328f9a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -134,7 +134,7 @@ pub fn allow_insert(name: &[char], node_type: NodeType) -> bool {
 		return false;
 	}
 	// TITLE/TEXTAREA
-	if is_plain_text_tag(name, &None) {
+	if is_plain_text_tag(&lc_name, &None) {
 		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
 	}
 	// XMLCDATA
-- 
2.43.0


From 99cfe706db594ef51eb80956bfb42dae6440cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:35 +0000
Subject: [PATCH 16/20] fix: the text of a node contained the markup of doctype
 and cdata

`render_text` of `<svg><g><![CDATA[x]]></g></svg>` was `<![CDATA[x]]>`.
---
 src/parser.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2328f9a..9e886bf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -715,12 +715,14 @@ impl Node {
 					.as_ref()
 					.expect("tag's meta data must have.")
 					.borrow();
-				result.extend_from_slice(&['<', '!']);
-				result.extend_from_slice(&meta.name);
-				if !meta.attrs.is_empty() {
-					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+				if need_tag {
+					result.extend_from_slice(&['<', '!']);
+					result.extend_from_slice(&meta.name);
+					if !meta.attrs.is_empty() {
+						result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+					}
+					result.push('>');
 				}
-				result.push('>');
 			}
 			Comment => {
 				if !options.remove_comment {
@@ -744,11 +746,15 @@ impl Node {
 				}
 			}
 			XMLCDATA => {
-				result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				if need_tag {
+					result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				}
 				if let Some(content) = &self.content {
 					result.extend_from_slice(content);
 				}
-				result.extend_from_slice(&[']', ']', '>']);
+				if need_tag {
+					result.extend_from_slice(&[']', ']', '>']);
+				}
 			}
 			_ => {}
 		}
-- 
2.43.0


From 9da94ac63f4260076ff248c610b2f6acbb252e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:36 +0000
Subject: [PATCH 17/20] fix: begin_at and end_at of tags didn't match the
 source

`end_at` of tags and doctypes was never set, and both positions of the end tags
of script, style, title and textarea were after the end tag.
---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9e886bf..b9cf518 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1028,6 +1028,7 @@ fn parse_tag_name(doc: &mut Doc, c: char, _: &str) -> HResult {
 		TAG_END_CHAR => {
 			// detect if void tag
 			let is_void = doc.set_tag_meta();
+			doc.set_tag_end_info();
 			if is_void {
 				// tag is end
 				doc.chain_nodes.pop();
@@ -1082,6 +1083,7 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
+			doc.set_tag_end_info();
 			// a doctype is never an open tag, so it's not in the chain nodes
 			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
 				doc.chain_nodes.pop();
@@ -1133,6 +1135,7 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 			doc.set_tag_code_in(TagCodeIn::Value);
 		}
 		TAG_END_CHAR => {
+			doc.set_tag_end_info();
 			if doc
 				.current_node
 				.borrow()
@@ -1457,7 +1460,8 @@ fn parse_content_tag(doc: &mut Doc, c: char, _: &str) -> HResult {
 			// first remove end tag from prev_chars, and then remove '</' from end tag to get the name
 			let end_tag_name = doc.prev_chars.split_off(prev_len).split_off(2);
 			// add an end tag
-			let mut end = Node::new(NodeType::TagEnd, doc.position + 1);
+			let mut end = Node::new(NodeType::TagEnd, doc.position - end_tag_name.len() - 2);
+			end.end_at = doc.position + 1;
 			end.content = Some(end_tag_name);
 			end.parent = Some(Rc::downgrade(&doc.current_node));
 			// set tag node's content, end_tag
@@ -1975,6 +1979,7 @@ impl Doc {
 			}
 			_ => {}
 		}
+		self.current_node.borrow_mut().end_at = self.position;
 		let is_void = self
 			.current_node
 			.borrow()
-- 
2.43.0


From 33b3725bebb45dd39c8bad36137c2fdc0fd6754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:35 +0000
Subject: [PATCH 18/20] fix: spaces before a dropped end tag at the end were
 not settled

With `auto_fix_unexpected_endtag` the spaces in `<a></a> </b>` stayed a text
node, while they are spaces between tags in `<a></a> `.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b9cf518..05b336a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2025,7 +2025,8 @@ impl Doc {
 				last_node.end_at = self.position;
 			}
 			Unkown | AbstractRoot => {
-				// end ok
+				// end ok, spaces may left when the last unexpected end tag is dropped
+				self.set_text_spaces_between();
 			}
 			Tag => {
 				if !self.parse_options.auto_fix_unclosed_tag {
-- 
2.43.0


From d9c4cad30f764484e18f4d3ebc12212e4974b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:49 +0000
Subject: [PATCH 19/20] fix: inner html of a root whose childs are all removed
 panicked

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 05b336a..0c4b788 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -834,7 +834,9 @@ impl Node {
 						return result;
 					}
 					// no tag child node finded
-					throw_wrong_node(&childs[childs.len() - 1].borrow().node_type);
+					if let Some(last_child) = childs.last() {
+						throw_wrong_node(&last_child.borrow().node_type);
+					}
 				}
 				// abstract without any child
 				return vec![];
-- 
2.43.0


From 39e13235eeaa9e4ad1345f8bfb771a464b4e148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 20/20] fix: a doctype without any attribute was rendered as an
 invalid doctype

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0c4b788..42de370 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -720,6 +720,9 @@ impl Node {
 					result.extend_from_slice(&meta.name);
 					if !meta.attrs.is_empty() {
 						result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+					} else {
+						// the name must be followed by a space
+						result.push(WS_CHAR);
 					}
 					result.push('>');
 				}
-- 
2.43.0

