From 331baac2404d715bfb2fd1f7688346c4b6cd2f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 01/21] fix: unescape() panicked or skipped escapes after
 multi-byte characters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The scan for ';' ran on to the end of the text and took the width of the last
character it saw as the distance to skip after '&'. unescape("&#263c;x") and
unescape("&amp;é") sliced inside a character and panicked, and "&&lt;☼" left
the "&lt;" in place.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..7c5572a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,7 +289,6 @@ pub fn unescape(text: impl Into<String>) -> String {
 				let slice = (&buffer[i..]).to_string();
 				let mut char_size: usize = 1;
 				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
 					if k == ';' {
 						let end = i + j + 1;
 						let slice = &slice[..j];
@@ -324,6 +323,7 @@ pub fn unescape(text: impl Into<String>) -> String {
 								Err(_) => { /* do nothing */ }
 							}
 						}
+						break; // only the first ; can terminate this escape
 					}
 				}
 				last_i = i+char_size;
-- 
2.43.0


From 528ee4d83bcbfcf3dfd0a649e7b5a07b0a8ad571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 02/21] fix: parsing panicked on a long non-ASCII comment
 outside the root element

abbreviate() cut the text at a byte offset, which may fall inside a character.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c5572a..297b7e1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -606,9 +606,14 @@ fn abbreviate(text: &str, limit: usize) -> String {
 	if limit < 4 || text.len() <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		// do not cut multi-byte characters in half
+		let mut head = limit / 2 - 1;
+		while !text.is_char_boundary(head) {head -= 1;}
+		let mut tail = text.len() - limit / 2;
+		while !text.is_char_boundary(tail) {tail += 1;}
+		let mut buffer = (&text[0..head]).to_string();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.push_str(&text[tail..]);
 		buffer
 	}
 }
-- 
2.43.0


From 7da5d6d274d28ebc4c53b0fae026044381030da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 03/21] fix: serialized documents lost the <!DOCTYPE ...>
 delimiters

A document with a DTD was written with the bare DTD content as text before the
root element, which could not be parsed again.
---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..c05c87b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2089,6 +2089,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From 6ba3307de7b7f8808049324ba9310321bc1dcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 04/21] fix: content after the root element was accepted and
 corrupted the DOM

"<a><x/></a><b></b>" parsed as "<b><x/></b>" and "<a/>junk" as "<a/>". Both
are errors now, like a second root after a self-closing one and text before
the root already were.
---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 297b7e1..064970a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -452,8 +452,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	let root_slice = &buffer[tag_span.0 .. tag_span.1];
 	let root_element: dom::Element = parse_new_element(strip_tag(root_slice).as_str(), &buffer, &tag_span, None)?;
 	parse_stack.push(root_element);
-	let selfclosing_root = root_slice.ends_with("/>");
-	if selfclosing_root {parse_stack.pop()?;}  // pop root if it is  self-closing
+	if root_slice.ends_with("/>") {parse_stack.pop()?;}  // pop root if it is  self-closing
 	let mut last_span: (usize, usize);
 	loop {
 		// find next tag
@@ -469,8 +468,8 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		} else {
 			// next tag
-			if selfclosing_root {
-				// next tag not allowed
+			if parse_stack.empty_stack() {
+				// root is closed, next tag not allowed
 				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
 				return Err(errors::ParsingError::new(format!(
 					"only 1 root element is allowed (syntax error on line {line}, column {col})"
@@ -593,6 +592,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			"root element not closed"
 		)).into());
 	}
+	// check for text after the root
+	if real_text(&buffer[tag_span.1..]).is_some() {
+		let (line, col) = line_and_column(&buffer, tag_span.1);
+		return Err(errors::ParsingError::new(format!(
+			"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+		)).into());
+	}
 	// return a DOM document
 	Ok(dom::Document::new_with_decl_dtd(
 		parse_stack.to_dom()?,
-- 
2.43.0


From 5cb1ee23b2848ca06aba79fb6c7ca18c0dc945b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 05/21] fix: a comment after the root element was an error

Comments outside of the root are documented (in the warning) to be ignored;
that was only done for those in front of the root.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 064970a..6a1a1b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -468,7 +468,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		} else {
 			// next tag
-			if parse_stack.empty_stack() {
+			if parse_stack.empty_stack() && !buffer[next_span.0.unwrap()..].starts_with("<!--") {
 				// root is closed, next tag not allowed
 				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
 				return Err(errors::ParsingError::new(format!(
@@ -496,7 +496,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		};
 		// parse span
 		let slice = &buffer[tag_span.0 .. tag_span.1];
-		if slice.starts_with("<!--") && slice.ends_with("-->") {
+		if slice.starts_with("<!--") && parse_stack.empty_stack() {
+			// comments outside root element not supported
+			if no_comment_warn == 0 {
+				eprintln!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32));
+			}
+			no_comment_warn += 1;
+		} else if slice.starts_with("<!--") && slice.ends_with("-->") {
 			// comment
 			let begin = 4;
 			let end = slice.len().saturating_sub(3);
-- 
2.43.0


From 0b779f17ef0bda1a1479760845fb4c8872dc906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 06/21] fix: comments starting with '>' or '->' could not be
 parsed

Comment::new(">x") serializes to "<!-->x-->", where the search for the closing
"-->" matched the dashes of the opening "<!--".
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6a1a1b5..3c51673 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -772,8 +772,8 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	// the rules differ depending on the kind of tag
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
-		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		// comment (note that the - in the opening <!-- are not part of the closing -->)
+		return (start, sub_buffer[4..].find("-->").map(|i|i+start_index+4+3));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From d7b848549640416fb58c217266da2dfa34bdefbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 07/21] fix: the element tag check was not anchored and ignored
 spaces around =

'<a b = "1"/>' was rejected unless an unspaced attribute came first, while
'<a b="1"c="2"/>' was accepted as one attribute with the value '1"c="2', and
"</a/>" was accepted as a closing tag.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3c51673..253d433 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -750,7 +750,8 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*=(".*?"|'.*?'))*\s*/?>"#);
+		let name = format!("{name_start_char}{name_char}*");
+		let pattern = format!(r#"^(<{name}(\s+{name}\s*=\s*("[^"]*"|'[^']*'))*\s*/?>|</{name}\s*>)$"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From dd0b40118c8e2c15cea79b3579204bc301081a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 08/21] fix: names that are not XML names were accepted and
 written as broken XML

Element::new_from_name("a>b") gave "<a>b/>"; attribute names such as "a=b" and
namespace prefixes (not checked at all) had the same problem. On the other
hand documents with non-ASCII names, which the parser's tag check allows, were
rejected. Names follow the XML specification now.
---
 src/dom.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c05c87b..376b63f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -442,6 +442,10 @@ impl Element {
 		// sanity check
 		let name = name.into();
 		Element::check_elem_name(name.as_str())?;
+		match &xmlns_prefix {
+			None => {},
+			Some(prefix) => Element::check_elem_name(prefix.as_str())?
+		}
 		// first, convert attributes to <String,String> map
 		let mut attrs: HashMap<String, String> = HashMap::new();
 		match attributes {
@@ -976,13 +980,15 @@ impl Element {
 	}
 
 
+	/// pattern for valid names, see https://www.w3.org/TR/REC-xml/#NT-Name (but may not start with :)
+	const NAME_PATTERN: &'static str = r#"^[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}][:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#;
 	/// singleton regex matcher
 	const ATTR_NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(Element::NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -996,7 +1002,7 @@ impl Element {
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let singleton = Element::NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(Element::NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
-- 
2.43.0


From 0a6b34790d1c30fb16df7b32544feaec4b29f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 09/21] fix: insert() applied the namespace to the last child
 instead of the new one

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 376b63f..abe7095 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1284,7 +1284,7 @@ impl Element {
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
 			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
+			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
-- 
2.43.0


From 45284a134a318c13131d7f9bb76b16df1808094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 10/21] fix: a prefixed element hid the default namespace from
 its descendants

In '<a xmlns="D"><p:b xmlns:p="P"><c/></p:b></a>' (and '<p:a xmlns:p="P"
xmlns="D"><c/></p:a>') the namespace of <c> is D, but it had none.
---
 src/dom.rs | 20 ++++++++++++++++----
 src/lib.rs |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index abe7095..f3f80e9 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -806,6 +806,13 @@ impl Element {
 	}
 	/** Gets any and all xmlns prefixes relevant to this element. This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
 	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {self.xmlns_context.clone()}
+	/** The default namespace in scope for the children of this element (a prefixed element has no default namespace of its own, but passes on the one it is in) */
+	pub(crate) fn inheritable_namespace(&self) -> Option<String> {
+		match self.xmlns_prefix {
+			None => self.default_namespace(),
+			Some(_) => self.attributes.get("xmlns").or(self.xmlns_context.get("")).cloned()
+		}
+	}
 	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
 	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
 		// inherit default namespace unless this element also defines one
@@ -816,7 +823,12 @@ impl Element {
 					Some(_) => {/* do nothing */}
 				}
 			}
-			Some(_) => {/* do nothing */}
+			Some(_) => {
+				// not for this element, but its children may inherit it (saved as prefix "")
+				if let Some(ns) = parent_default_namespace {
+					self.xmlns_context.insert(String::new(), ns);
+				}
+			}
 		}
 		// add prefixed namespaces (except where already defined locally)
 		match parent_prefixes {
@@ -1171,7 +1183,7 @@ impl Element {
 	}
 	/** same as [append(...)](Element::append()) but for a Box&lt;dyn Node&gt; */
 	pub fn append_boxed(&mut self, mut node: Box<dyn Node>) {
-		Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut node);
+		Self::apply_xmlns_context_to_child_node(self.inheritable_namespace(), self.xmlns_context.clone(), &mut node);
 		self.child_nodes.push(node);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
@@ -1266,7 +1278,7 @@ impl Element {
 		// then apply the xmlns context to the elements
 		for i in elem_indices {
 			Self::apply_xmlns_context_to_child_node(
-				self.default_namespace(), self.xmlns_context.clone(),
+				self.inheritable_namespace(), self.xmlns_context.clone(),
 			&mut self.child_nodes[i]
 			);
 		}
@@ -1283,7 +1295,7 @@ impl Element {
 		// Note: if this is an element, set the namespace context
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
-			self.default_namespace(), self.xmlns_context.clone(),
+			self.inheritable_namespace(), self.xmlns_context.clone(),
 			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
diff --git a/src/lib.rs b/src/lib.rs
index 253d433..1a7e229 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -679,7 +679,7 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 	// check parent for inherited namespaces
 	let (inherited_default_namespace, inherited_xmlns_context) = match parent {
 		None => (None, None),
-		Some(parent) => (parent.default_namespace(), Some(parent.get_namespace_context()))
+		Some(parent) => (parent.inheritable_namespace(), Some(parent.get_namespace_context()))
 	};
 	if name.contains(":"){
 		let (a, b) = name.split_once(":").unwrap();
-- 
2.43.0


From 01b9bb65561cd0ae6c9fb8c21db125a4ca9ae49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 11/21] fix: attaching an element applied namespaces to it but
 not its descendants

Appending <b><c/></b> under an element with a default namespace gave the
namespace to <b> only; the same tree when parsed has it on <c> as well.
---
 src/dom.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index f3f80e9..d40a663 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -815,6 +815,8 @@ impl Element {
 	}
 	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
 	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
+		let old_xmlns = self.xmlns.clone();
+		let old_context = self.xmlns_context.clone();
 		// inherit default namespace unless this element also defines one
 		match self.xmlns_prefix {
 			None => {
@@ -851,6 +853,14 @@ impl Element {
 				}
 			};
 		}
+		// pass changes on to the children
+		if self.xmlns != old_xmlns || self.xmlns_context != old_context {
+			let df_xmlns = self.inheritable_namespace();
+			let xmlns_context = self.xmlns_context.clone();
+			for child in self.child_elements_mut() {
+				child.set_namespace_context(df_xmlns.clone(), Some(xmlns_context.clone()));
+			}
+		}
 	}
 	/** flips the order of child nodes (non-recursive) */
 	pub(crate) fn reverse_children(&mut self) {
-- 
2.43.0


From 67c54e36668baa0abf998acd7eedcb25025113c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 12/21] fix: the xmlns given to Element::new() was lost when
 serialized

Element::new("a", .., Some("N"), None, ..) printed as "<a/>" and with a prefix
as "<p:a/>", which cannot be parsed; conflicting xmlns attributes, which it is
documented to override, were printed instead.
---
 src/dom.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index d40a663..6c09c1c 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -477,6 +477,13 @@ impl Element {
 					}
 				}
 			};
+		} else {
+			// define the given xmlns (overrides any definition in the attributes)
+			let key = match &xmlns_prefix {
+				None => String::from("xmlns"),
+				Some(prefix) => format!("xmlns:{prefix}")
+			};
+			attrs.insert(key, xmlns.clone().expect("logic error"));
 		}
 		// set the XML NS from the attributes and provided args
 		let mut elem = Self {
-- 
2.43.0


From c12cf296fc234b1ce3511b9a1aab84d1bc1cb8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 13/21] fix: Declaration::from_str("<?>") panicked

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 6c09c1c..ad8129e 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2071,7 +2071,7 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
+		if buffer.len() >= 4 && buffer.starts_with("<?") && buffer.ends_with("?>"){
 			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
 		} else {
 			Err(ParsingError::new("Invalid XML declaration syntax").into())
-- 
2.43.0


From 0c33e0a705a0fff0501c615f601e5499be518977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 14/21] fix: a second XML declaration or an xml-stylesheet
 replaced the declaration

The check that nothing precedes the declaration looked at where the previous
tag starts (usually 0) instead of whether there is one, so in
'<?xml version="1.0"?><?xml-stylesheet href="x"?><a/>' the stylesheet became
the declaration. A misplaced declaration is an error now, and a stylesheet
that follows other tags is ignored with a warning.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1a7e229..81df537 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -407,8 +407,11 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		}
 		let slice = &buffer[tag_start..tag_end];
-		if slice.starts_with("<?xml") {
-			if tag_span.0 != 0 {
+		if slice.starts_with("<?xml-") && tag_span.1 != 0 {
+			// eg <?xml-stylesheet ... ?>
+			eprintln!("WARNING: Ignoring {slice} (not supported)");
+		} else if slice.starts_with("<?xml") {
+			if tag_span.1 != 0 {
 				let (line, col) = line_and_column(&buffer, tag_start);
 				return Err(errors::ParsingError::new(format!(
 					"<?xml ...?> declaration must at start of XML (syntax error on line {line}, column {col})"
-- 
2.43.0


From 25a633f16272f5a7f86e4d12e5510be6a9e02c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 15/21] fix: hexadecimal character references (&#x...;) were
 not decoded

They were taken as plain text, so that "&#xA0;" became "&amp;#xA0;" when the
document was written again.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 81df537..7e19ba7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -309,7 +309,8 @@ pub fn unescape(text: impl Into<String>) -> String {
 							string_insert(&mut buffer, (start, end), "\"");
 						}
 						if slice.starts_with("&#") {
-							match u32::from_str_radix(&slice[2..], 16) {
+							let hex = slice[2..].strip_prefix("x").unwrap_or(&slice[2..]);
+							match u32::from_str_radix(hex, 16) {
 								Ok(codepoint) => {
 									match char::from_u32(codepoint) {
 										Some(unicode) => {
-- 
2.43.0


From 5b62033b2f29dd77cf465442415f16733e3ef2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 16/21] fix: an attribute named 'xmlns:' must not declare a
 default namespace

Without a prefix it declares nothing; it was stored under the key of the
default namespace in scope and leaked to the children of prefixed elements.
---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index ad8129e..c78de75 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -619,7 +619,7 @@ impl Element {
 		let mut prefixes: HashMap<String, String> = HashMap::new();
 		for (k, v) in attrs.iter() {
 			let key = k.as_str();
-			if key.starts_with("xmlns:") {
+			if key.starts_with("xmlns:") && key.len() > "xmlns:".len() {
 				let split: Vec<&str> = key.splitn(2, ":").collect();
 				let prefix = split[1].to_string();
 				let ns = v.clone();
-- 
2.43.0


From 25bad6efa335f28c16d0b7a89adb8aab8c83b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 17/21] fix: a quote or bracket in a comment inside a DTD broke
 parsing

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e19ba7..b279339 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -853,13 +853,18 @@ fn quote_aware_find(text: &str, pattern: &str, from: usize) -> Option<usize> {
 	None
 }
 
-/// like `quote_aware_find()` above, but the pattern is '>' and it skips both quoted content and nested <tags>
+/// like `quote_aware_find()` above, but the pattern is '>' and it skips quoted content, nested <tags>,
+/// comments, and processing instructions
 fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 	let mut depth: i32 = 0;
 	let mut in_quote = false;
 	let mut quote_char = '\0';
+	let mut skip_until = from; // end of the last comment or processing instruction
 	for (i, c) in text[from..].char_indices() {
-		if in_quote {
+		if from + i < skip_until {
+			// quotes and brackets mean nothing in here
+			continue;
+		} else if in_quote {
 			if c == quote_char { // end of quoted field
 				in_quote = false;
 			}
@@ -870,6 +875,10 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 			} else if c == '\'' { // start of single-quoted field
 				quote_char = '\'';
 				in_quote = true;
+			} else if text[from+i..].starts_with("<!--") {
+				skip_until = from+i+4 + text[from+i+4..].find("-->")? + 3;
+			} else if text[from+i..].starts_with("<?") {
+				skip_until = from+i+2 + text[from+i+2..].find("?>")? + 2;
 			} else if c == '<' {
 				depth += 1;
 			} else if c == '>' {
-- 
2.43.0


From f08c9bf71eabd79381f715358fa2bbbf6f86e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 18/21] fix: an element moved to another parent kept the
 prefixes of its former place

---
 src/dom.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c78de75..b04f710 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -824,6 +824,7 @@ impl Element {
 	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
 		let old_xmlns = self.xmlns.clone();
 		let old_context = self.xmlns_context.clone();
+		let mut inherited_default: Option<String> = None;
 		// inherit default namespace unless this element also defines one
 		match self.xmlns_prefix {
 			None => {
@@ -834,21 +835,15 @@ impl Element {
 			}
 			Some(_) => {
 				// not for this element, but its children may inherit it (saved as prefix "")
-				if let Some(ns) = parent_default_namespace {
-					self.xmlns_context.insert(String::new(), ns);
-				}
+				inherited_default = parent_default_namespace;
 			}
 		}
-		// add prefixed namespaces (except where already defined locally)
-		match parent_prefixes {
-			None => {}
-			Some(prefixes) => {
-				for (prefix, ns) in prefixes {
-					if ! self.xmlns_context.contains_key(prefix.as_str()) {
-						let _ = &self.xmlns_context.insert(prefix, ns);
-					}
-				}
-			}
+		// the prefixes in scope are those of the parent, except where defined locally
+		self.xmlns_context = parent_prefixes.unwrap_or_default();
+		self.xmlns_context.remove("");
+		self.xmlns_context.extend(Self::xmlns_context_from_attributes(&self.attributes));
+		if let Some(ns) = inherited_default {
+			self.xmlns_context.insert(String::new(), ns);
 		}
 		// set this namespace if a prefix was specified without xmlns def attribute
 		if self.xmlns.is_none() {
-- 
2.43.0


From 5d4205f01dbb72bda7f37aae68a5a8cf8c0a6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 19/21] fix: errors were reported one column (or one line)
 behind the place they concern

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b279339..7dd5765 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -913,12 +913,12 @@ fn line_and_column(text: &String, pos: usize) -> (usize, usize){
 	let mut line = 1;
 	let mut col = 1;
 	for (i, c) in text.char_indices(){
+		if i >= pos {break;}
 		col += 1;
 		if c == '\n' {
 			line += 1;
 			col = 1;
 		}
-		if i >= pos {break;}
 	}
 	(line, col)
 }
-- 
2.43.0


From 31cd9433e9658baf3c9f83cccaf6abf2341901f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 20/21] fix: text after the root element was reported at the
 comment behind it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7dd5765..b8d5431 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,7 +491,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			Some(content) => {
 				parse_stack.append(dom::Text::new(content))
 					.map_err(|e|{
-						let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
+						let (line, col) = line_and_column(&buffer, last_span.1);
 						errors::ParsingError::new(format!(
 							"{} (syntax error on line {line}, column {col})", e
 						))
-- 
2.43.0


From a096c579abb8b60571ddafa3a64e0a7725a92ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 21/21] fix: elements of the same name compared as equal in
 order though they were not equal

---
 src/dom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index b04f710..befcee5 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1617,7 +1617,11 @@ impl Default for Element {
 
 impl PartialOrd for Element {
 	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-		self.name.partial_cmp(&other.name)
+		// elements of the same name are ordered only if they are equal
+		match self.name.cmp(&other.name) {
+			Ordering::Equal if self != other => None,
+			order => Some(order)
+		}
 	}
 }
 
-- 
2.43.0

