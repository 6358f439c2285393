From 9f6dd7462f0c95ec45d9124968dd7522b4391eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 1/9] fix: do not panic when a tag ends before an optional
 component

find_list_end was called with an offset one past the end of the tag when
nothing follows the previous component, and sliced out of bounds.
---
 src/normal/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..e904d7b 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -180,6 +180,10 @@ impl Hash for NormalLangTag {
 /// subtag is part of the list.
 fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {
 	let bytes = string.as_bytes();
+	if offset >= bytes.len() {
+		return offset;
+	}
+
 	let mut i = offset;
 	let mut end = i;
 	while i < bytes.len() {
-- 
2.43.0


From 4a61bffae52d0d01d810f0f37c446ce5399ec116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 2/9] fix: the private use part of a normal tag starts after
 its extensions

private_use_offset started at the end of the variants, so the extensions were
reported as (part of) the private use subtag.
---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index e904d7b..883d8be 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From 55dbb352069b759c67c5e0b2dbe49e04360a31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 3/9] fix: accept every primary language subtag as a
 PrimaryLanguage

A language of 4 to 8 letters has that word as its primary language subtag
(reserved or registered), but PrimaryLanguage only accepted 2 or 3 letters, so
Language::primary built invalid values unchecked.
---
 src/grammar.abnf |  4 ++--
 src/grammar.rs   | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..d92f0a2 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,13 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*8ALPHA            ; first subtag of any language
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..12d08bd 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,32 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(self.state, 2u32 | 3u32 | 4u32 | 5u32 | 6u32 | 7u32 | 8u32)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0


From fff6e4f0d517b17ba0c86f9a91dd42f060caf8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 4/9] fix: regular grandfathered tags are grandfathered, not
 normal

The nine regular grandfathered tags also match the langtag production, and were
reported as both normal and grandfathered, with a language that is not theirs.
---
 src/lib.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd06239..ec92b16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,10 +85,10 @@ impl LangTag {
 	/// Only normal language tags and regular grandfathered tags have language
 	/// subtags.
 	pub fn language(&self) -> Option<&Language> {
-		match NormalLangTag::new(&self.0) {
-			Ok(t) => Some(t.language()),
-			Err(_) => match GrandfatheredLangTag::new(&self.0) {
-				Ok(t) => t.language(),
+		match GrandfatheredLangTag::new(&self.0) {
+			Ok(t) => t.language(),
+			Err(_) => match NormalLangTag::new(&self.0) {
+				Ok(t) => Some(t.language()),
 				Err(_) => None,
 			},
 		}
@@ -146,8 +146,14 @@ impl LangTag {
 	}
 
 	/// Returns this language tag as a normal tag, if it is one.
+	///
+	/// Regular grandfathered tags match the syntax of normal tags, but they
+	/// are not normal tags.
 	pub fn as_normal(&self) -> Option<&NormalLangTag> {
-		NormalLangTag::new(&self.0).ok()
+		match GrandfatheredLangTag::new(&self.0) {
+			Ok(_) => None,
+			Err(_) => NormalLangTag::new(&self.0).ok(),
+		}
 	}
 
 	/// Returns this language tag as a private use tag, if it is one.
@@ -167,11 +173,11 @@ impl LangTag {
 
 	/// Find out what kind of language tag `self` is.
 	pub fn as_typed(&self) -> TypedLangTag<'_> {
-		match NormalLangTag::new(&self.0) {
-			Ok(t) => TypedLangTag::Normal(t),
+		match GrandfatheredLangTag::new(&self.0) {
+			Ok(t) => TypedLangTag::Grandfathered(t),
 			Err(_) => match PrivateUseLangTag::new(&self.0) {
 				Ok(t) => TypedLangTag::PrivateUse(t),
-				Err(_) => TypedLangTag::Grandfathered(GrandfatheredLangTag::new(&self.0).unwrap()),
+				Err(_) => TypedLangTag::Normal(NormalLangTag::new(&self.0).unwrap()),
 			},
 		}
 	}
-- 
2.43.0


From 079f560f5b0233c48cf2d26555d2e21ac2933ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 5/9] fix: look extensions up without regard to the case of the
 singleton

---
 src/normal/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..152ccdf 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -217,7 +217,7 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if bytes[i].eq_ignore_ascii_case(&singleton.0) && bytes[i + 1] == b'-' {
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From c369b62d4a40bb44fffbc154d4c50ddf8c5d0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 6/9] fix: compare, order and hash singletons without regard to
 case

Everything else in a language tag is compared case-insensitively, extensions
included, but the singletons of two equal extensions could be unequal.
---
 src/normal/extension.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 152ccdf..5b5bbda 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -7,7 +7,9 @@ use crate::utils;
 pub struct InvalidSingleton<T>(pub T);
 
 /// Extension identifier.
-#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
+///
+/// Identifiers are compared without regard to case.
+#[derive(Copy, Clone)]
 pub struct Singleton(u8);
 
 impl Singleton {
@@ -71,15 +73,41 @@ impl TryFrom<char> for Singleton {
 	}
 }
 
+impl PartialEq for Singleton {
+	fn eq(&self, other: &Self) -> bool {
+		self.0.eq_ignore_ascii_case(&other.0)
+	}
+}
+
+impl Eq for Singleton {}
+
+impl PartialOrd for Singleton {
+	fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+		Some(self.cmp(other))
+	}
+}
+
+impl Ord for Singleton {
+	fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+		utils::into_smallcase(self.0).cmp(&utils::into_smallcase(other.0))
+	}
+}
+
+impl Hash for Singleton {
+	fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+		utils::into_smallcase(self.0).hash(state)
+	}
+}
+
 impl PartialEq<u8> for Singleton {
 	fn eq(&self, b: &u8) -> bool {
-		self.0 == *b
+		self.0.eq_ignore_ascii_case(b)
 	}
 }
 
 impl PartialEq<char> for Singleton {
 	fn eq(&self, b: &char) -> bool {
-		self.0 as u32 == *b as u32
+		(self.0 as char).eq_ignore_ascii_case(b)
 	}
 }
 
-- 
2.43.0


From bb11fb9b4230068ec1f60c20605c5b0ebd7bf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 7/9] fix: reject overlong UTF-8 encodings of ASCII characters

The UTF-8 decoder behind the generated automata accepts overlong sequences, so
from_bytes built (unchecked) strs that are not valid UTF-8.
---
 src/lib.rs                     | 45 +++++++++++++++++++++++++++++++++-
 src/normal/extension.rs        |  6 ++---
 src/normal/language/extlang.rs |  4 +--
 src/normal/language/mod.rs     |  2 +-
 src/normal/language/primary.rs |  2 +-
 src/normal/mod.rs              |  2 +-
 src/normal/private_use.rs      |  4 +--
 src/normal/region.rs           |  2 +-
 src/normal/script.rs           |  2 +-
 src/normal/variant.rs          |  4 +--
 10 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec92b16..89e9d41 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -65,9 +65,52 @@ pub use private_use::*;
 )]
 pub(crate) mod grammar {}
 
+/// Grammar automata, restricted to ASCII.
+///
+/// Language tags are made of ASCII characters only. The UTF-8 decoder behind
+/// the automata lets overlong encodings of those characters through, which must
+/// not be accepted: they are not valid UTF-8.
+pub(crate) mod automata {
+	macro_rules! ascii_automata {
+		($($name:ident),*) => {
+			$(
+				pub struct $name;
+
+				impl $name {
+					pub const fn validate_bytes(bytes: &[u8]) -> bool {
+						bytes.is_ascii() && crate::grammar::$name::validate_bytes(bytes)
+					}
+
+					pub const fn validate_str(s: &str) -> bool {
+						crate::grammar::$name::validate_str(s)
+					}
+				}
+			)*
+		};
+	}
+
+	ascii_automata!(
+		LanguageTag,
+		Privateuse,
+		PrivateuseSubtag,
+		Langtag,
+		Language,
+		Primary,
+		Extlang,
+		ExtlangTag,
+		Script,
+		Region,
+		Variant,
+		Variants,
+		Extension,
+		ExtensionSubtag,
+		Extensions
+	);
+}
+
 /// Any language tag (normal, private use or grandfathered).
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::LanguageTag)]
+#[automaton(crate::automata::LanguageTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 5b5bbda..c080146 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -135,7 +135,7 @@ impl fmt::Debug for Singleton {
 /// For instance `a-subtag1-subtag2`.
 /// Each subtag of the extension is represented by the [`ExtensionSubtag`] type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extension)]
+#[automaton(crate::automata::Extension)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -224,7 +224,7 @@ impl<'a> Iterator for ExtensionIter<'a> {
 /// while extension subtags are represented by the [`ExtensionSubtag`]
 /// type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extensions)]
+#[automaton(crate::automata::Extensions)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -332,7 +332,7 @@ impl<'a> Iterator for ExtensionsIter<'a> {
 ///
 /// Extension subtag found in a language tag extension.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtensionSubtag)]
+#[automaton(crate::automata::ExtensionSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/extlang.rs b/src/normal/language/extlang.rs
index 30729f6..e475eae 100644
--- a/src/normal/language/extlang.rs
+++ b/src/normal/language/extlang.rs
@@ -14,7 +14,7 @@ use crate::utils;
 /// The type [`ExtendedLangTag`] represents a single extended
 /// language subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extlang)]
+#[automaton(crate::automata::Extlang)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -99,7 +99,7 @@ impl<'a> Iterator for LanguageExtensionIter<'a> {
 /// The type [`LanguageExtension`] represents a list of
 /// extended language.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtlangTag)]
+#[automaton(crate::automata::ExtlangTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/mod.rs b/src/normal/language/mod.rs
index 8152db2..6ccd8bb 100644
--- a/src/normal/language/mod.rs
+++ b/src/normal/language/mod.rs
@@ -13,7 +13,7 @@ pub use primary::*;
 /// This type represents the primary language subtag (first subtag in a
 /// language tag) and the extended language subtags associated with it.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Language)]
+#[automaton(crate::automata::Language)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/primary.rs b/src/normal/language/primary.rs
index e6e05b5..40216f8 100644
--- a/src/normal/language/primary.rs
+++ b/src/normal/language/primary.rs
@@ -6,7 +6,7 @@ use crate::utils;
 ///
 /// The primary language subtag is the first subtag in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Primary)]
+#[automaton(crate::automata::Primary)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 883d8be..9de5016 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -18,7 +18,7 @@ pub use variant::*;
 
 /// Normal language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Langtag)]
+#[automaton(crate::automata::Langtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/private_use.rs b/src/normal/private_use.rs
index fce5b23..635b3bc 100644
--- a/src/normal/private_use.rs
+++ b/src/normal/private_use.rs
@@ -4,7 +4,7 @@ use crate::utils;
 
 /// Private use.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Privateuse)]
+#[automaton(crate::automata::Privateuse)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -84,7 +84,7 @@ impl<'a> Iterator for PrivateUseIter<'a> {
 
 /// Private use subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::PrivateuseSubtag)]
+#[automaton(crate::automata::PrivateuseSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/region.rs b/src/normal/region.rs
index 0ee0da0..7b38ce8 100644
--- a/src/normal/region.rs
+++ b/src/normal/region.rs
@@ -12,7 +12,7 @@ use crate::utils;
 /// that is appropriate for use throughout a region, for instance,
 /// Spanish content tailored to be useful throughout Latin America.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Region)]
+#[automaton(crate::automata::Region)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/script.rs b/src/normal/script.rs
index 0660b17..9b9045b 100644
--- a/src/normal/script.rs
+++ b/src/normal/script.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that distinguish the written forms of a language or its
 /// dialects.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Script)]
+#[automaton(crate::automata::Script)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/variant.rs b/src/normal/variant.rs
index 114b605..e2bc23f 100644
--- a/src/normal/variant.rs
+++ b/src/normal/variant.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that define a language or its dialects that are not
 /// covered by other available subtags.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variant)]
+#[automaton(crate::automata::Variant)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -51,7 +51,7 @@ impl Hash for Variant {
 /// Represents a list of variant subtags separated by a `-` character
 /// as found in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variants)]
+#[automaton(crate::automata::Variants)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
-- 
2.43.0


From 9e87833df43a2b4383cb6a553a50233db9ddf787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 8/9] fix: evaluate langtag! at compile time wherever it is
 used

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 89e9d41..987990a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -256,9 +256,11 @@ impl Hash for LangTag {
 #[macro_export]
 macro_rules! langtag {
 	($value:literal) => {
-		match $crate::LangTag::from_str($value) {
-			Ok(value) => value,
-			Err(_) => panic!("invalid language tag"),
+		const {
+			match $crate::LangTag::from_str($value) {
+				Ok(value) => value,
+				Err(_) => panic!("invalid language tag"),
+			}
 		}
 	};
 }
-- 
2.43.0


From bd8fc8add7479ccbea1a0eb2d6b117fdf526aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 9/9] fix: langtag! resolves the names it uses whatever is in
 scope at the call

The expansion used the bare names Ok, Err and panic!, which are looked up
where the macro is called: in a module that shadows one of them, or that has
no implicit prelude, a valid literal did not compile.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 987990a..24490db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -258,8 +258,8 @@ macro_rules! langtag {
 	($value:literal) => {
 		const {
 			match $crate::LangTag::from_str($value) {
-				Ok(value) => value,
-				Err(_) => panic!("invalid language tag"),
+				::core::result::Result::Ok(value) => value,
+				::core::result::Result::Err(_) => ::core::panic!("invalid language tag"),
 			}
 		}
 	};
-- 
2.43.0

