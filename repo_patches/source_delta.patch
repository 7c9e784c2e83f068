From d14433ba33e4f05f0d05b819701a525885826684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 1/6] fix: compute span overlap without underflowing on empty
 spans at 0

---
 src/span.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 2549c71..c7b449c 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -308,17 +308,7 @@ impl Span {
 	/// ```
 	#[must_use]
 	pub fn overlaps_with(self, other: Self) -> bool {
-		fn non_commutative_empty_check(left: Span, right: Span) -> bool {
-			left.is_empty() && (right.end == left.start || right.start == left.start)
-		}
-		fn non_commutative_helper(left: Span, right: Span) -> bool {
-			left.contains(right.start) || left.contains(right.end - 1)
-		}
-
-		if non_commutative_empty_check(self, other) || non_commutative_empty_check(other, self) {
-			return false;
-		}
-		non_commutative_helper(self, other) || non_commutative_helper(other, self)
+		self.start < other.end && other.start < self.end
 	}
 }
 
-- 
2.43.0


From 112e372795497d9c2e8a4bfef81b3255319199db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 2/6] fix: do not count chunks that may be empty in
 Decomposer::size_hint

---
 src/decompose/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..7e6e81d 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -140,12 +140,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
-		(lower, None)
+		// the remaining chunks may turn out not to contain any words, so only the words that are already decomposed are certain.
+		(self.current_chunk.as_slice().len(), None)
 	}
 }
 
-- 
2.43.0


From 8c96791a5616b55899b3cd3ffffccebd662ef640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 3/6] fix: remove stray space from the vi'ei'e cmavo

---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3787602..ae71a6d 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -251,7 +251,7 @@ impl Selmaho {
 				| "se'i'i" | "sei'a" | "sei'u'e" | "si'ei" | "si'i'ai" | "so'au" | "soi'ai" | "soi'au"
 				| "su'ai" | "su'au" | "su'o'o" | "su'oi" | "sy'au" | "tau'u" | "va'ei'a" | "vau'au'o"
 				| "vo'ei'a" | "vu'ai" | "xe'a" | "xe'e" | "xei" | "xi'i'ei" | "xo'au" | "xo'e"
-				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | " vi'ei'e" => {
+				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | "vi'ei'e" => {
 					experimental!(Self::Pa)
 				}
 				"pe'e" => Self::Pehe,
-- 
2.43.0


From 617c936905a442b91fff6c3bf8592f13555ceaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 4/6] fix: make the buffer for the cmavo lookup long enough for
 every cmavo

---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index ae71a6d..ca1efa6 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,7 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 16];
+		let mut direct_cmavo_check_buf = [0u8; CUHUHU_ETC.len()];
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
-- 
2.43.0


From 60c6b7b3cf9e8431df1e8dc319fbc41b9975b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 5/6] fix: parse delimited quotes without text, and never take
 a delimiter for the text

---
 src/parse/cst/rules/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..28b8eae 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -6,7 +6,6 @@ use bumpalo::Bump as Arena;
 use macros::{Parse, TreeNode};
 
 use crate::lex::{Selmaho, Token};
-use crate::span::Span;
 
 pub mod connectives;
 mod helpers;
@@ -870,13 +869,13 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
 }
 
 #[derive(Debug, Parse)]
-#[repr(transparent)]
-pub struct ZoiDelimiter(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::ZoiDelimiter")]
+pub struct ZoiDelimiter(Token);
 
 impl TreeNode for ZoiDelimiter {
 	fn name(&self) -> &'static str {
@@ -888,18 +887,19 @@ impl TreeNode for ZoiDelimiter {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
 #[derive(Debug, Parse)]
-pub struct ZoiText(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::AnyText")]
+pub struct ZoiText(Token);
 
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
@@ -911,11 +911,11 @@ impl TreeNode for ZoiText {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
-- 
2.43.0


From 2dd9c519067db0b186265a74387f212fdcd7d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 6/6] fix: leave commas after a cmevla out of the word

---
 src/decompose/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index 7e6e81d..b61e9c0 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -65,7 +65,7 @@ fn decompose_single(input: &str) -> Vec<Span> {
 	let to_span = |slice| Span::from_embedded_slice(input.as_ptr(), slice);
 
 	if simple_cmevla_check(input) {
-		return vec![to_span(input)];
+		return vec![to_span(input.trim_end_matches(','))];
 	}
 
 	let mut rest = input;
-- 
2.43.0

