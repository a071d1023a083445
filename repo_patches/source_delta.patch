From 4a13475a4108304b4bb0eb104541e870eef7763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 01/21] fix: read the connection matrix width as an unsigned
 16-bit number

A declared width above 32767 was sign-extended, so every cost lookup panicked.
---
 lindera-core/src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/connection.rs b/lindera-core/src/connection.rs
index 707f503..3145887 100644
--- a/lindera-core/src/connection.rs
+++ b/lindera-core/src/connection.rs
@@ -11,7 +11,7 @@ pub struct ConnectionCostMatrix {
 
 impl ConnectionCostMatrix {
     pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Borrowed(&conn_data[4..]),
             backward_size: backward_size as u32,
@@ -19,7 +19,7 @@ impl ConnectionCostMatrix {
     }
 
     pub fn load(conn_data: &[u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Owned(conn_data[4..].to_vec()),
             backward_size: backward_size as u32,
-- 
2.43.0


From e45ed7ed613e8de857a9f07fc1ed253aafdfc4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 02/21] fix: prefix dictionary lookups of text containing NUL

The double array uses NUL as its end marker: a prefix search stepped through it and
returned entries twice or entries of other words, and an exact search panicked.
---
 lindera-core/src/prefix_dict.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index d077164..558468c 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -36,6 +36,8 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
         self.da
             .common_prefix_search(s)
+            // NUL is the end marker of the double array and never part of a surface
+            .take_while(|(_, prefix_len)| !s.as_bytes()[..*prefix_len].contains(&0))
             .flat_map(move |(offset_len, prefix_len)| {
                 let len = offset_len & ((1u32 << 5) - 1u32);
                 let offset = offset_len >> 5u32;
@@ -55,6 +57,10 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
 
     /// Find `WordEntry`s with surface
     pub fn find_surface(&self, surface: &str) -> Vec<WordEntry> {
+        // NUL is the end marker of the double array and never part of a surface
+        if surface.contains('\0') {
+            return vec![];
+        }
         match self.da.exact_match_search(surface) {
             Some(offset_len) => {
                 let offset = offset_len >> 5u32;
-- 
2.43.0


From c83b21374677083890a0166e7b1c220b5725b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 03/21] fix: mapping filters on text containing NUL

The double array uses NUL as its end marker: a search that stepped through it
reported a match that is not a key and the filter panicked.
---
 lindera-filter/src/character_filter/mapping.rs | 2 ++
 lindera-filter/src/token_filter/mapping.rs     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index d76f063..e6a2a42 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -85,6 +85,8 @@ impl CharacterFilter for MappingCharacterFilter {
             match self
                 .trie
                 .common_prefix_search(suffix.as_bytes())
+                // NUL is the end marker of the double array and never part of a key
+                .take_while(|(_, prefix_len)| !suffix.as_bytes()[..*prefix_len].contains(&0))
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
             {
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 8de2470..2e83f42 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -80,6 +80,8 @@ impl TokenFilter for MappingTokenFilter {
                 match self
                     .trie
                     .common_prefix_search(suffix.as_bytes())
+                    // NUL is the end marker of the double array and never part of a key
+                    .take_while(|(_, prefix_len)| !suffix.as_bytes()[..*prefix_len].contains(&0))
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
                 {
-- 
2.43.0


From 63bc0339dbd2cb730a9901d001b440f7826072fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 04/21] fix: mapping filters with an empty mapping or a key
 containing NUL

Building the double array panicked for an empty mapping; a key with NUL was stored
cut off at the NUL, so that building or applying the filter panicked.
---
 lindera-filter/src/character_filter/mapping.rs | 8 ++++++++
 lindera-filter/src/token_filter/mapping.rs     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index e6a2a42..0ed3247 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -50,8 +50,16 @@ impl MappingCharacterFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping keys must not contain NUL.")));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // The double array needs a key; the empty one never matches.
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 2e83f42..b5f1654 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -47,8 +47,16 @@ impl MappingTokenFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping keys must not contain NUL.")));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // The double array needs a key; the empty one never matches.
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
-- 
2.43.0


From 41a805665a1b0e53170c8d0080c0cd4e5d54ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 05/21] fix: offsets of the regex character filter when the
 replacement refers to groups

The offsets were computed from the length of the unexpanded replacement.
---
 lindera-filter/src/character_filter/regex.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/character_filter/regex.rs b/lindera-filter/src/character_filter/regex.rs
index ba4f66e..c91cdda 100644
--- a/lindera-filter/src/character_filter/regex.rs
+++ b/lindera-filter/src/character_filter/regex.rs
@@ -64,11 +64,15 @@ impl CharacterFilter for RegexCharacterFilter {
         let mut offsets: Vec<usize> = Vec::new();
         let mut diffs: Vec<i64> = Vec::new();
 
-        self.regex.find_iter(text).for_each(|mat| {
+        self.regex.captures_iter(text).for_each(|captures| {
+            // Group 0 is the whole match.
+            let mat = captures.get(0).unwrap();
             let input_start = mat.start();
             let input_text = mat.as_str();
             let input_len = input_text.len();
-            let replacement_text = self.config.replacement.as_str();
+            // The replacement may refer to capture groups.
+            let mut replacement_text = String::new();
+            captures.expand(&self.config.replacement, &mut replacement_text);
             let replacement_len = replacement_text.len();
             let diff_len = input_len as i64 - replacement_len as i64;
             let input_offset = input_start + input_len;
-- 
2.43.0


From 58fcfb91926cd8afdc7e29516a122653d87264e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 06/21] fix: offsets of the regex character filter for
 insertions at empty matches

The start of an insertion was mapped to one byte before it, below zero at the start
of the text.
---
 lindera-filter/src/character_filter/regex.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lindera-filter/src/character_filter/regex.rs b/lindera-filter/src/character_filter/regex.rs
index c91cdda..78e773b 100644
--- a/lindera-filter/src/character_filter/regex.rs
+++ b/lindera-filter/src/character_filter/regex.rs
@@ -87,7 +87,9 @@ impl CharacterFilter for RegexCharacterFilter {
                     add_offset_diff(&mut offsets, &mut diffs, offset, diff);
                 } else {
                     // Replacement is longer than matched surface.
-                    let output_start = (input_offset as i64 + -prev_diff) as usize;
+                    // What is inserted at an empty match comes after the match's own offset.
+                    let output_start =
+                        (input_offset as i64 + -prev_diff) as usize + usize::from(input_len == 0);
                     for extra_idx in 0..diff_len.unsigned_abs() as usize {
                         let offset = output_start + extra_idx;
                         let diff = prev_diff - extra_idx as i64 - 1;
-- 
2.43.0


From 3ddf8eeb2bd00d7210e0b1ffae8ab4c851f6f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 07/21] fix: offsets of the iteration mark filter for
 characters that are not 3 bytes long

A mark after an ASCII or a supplementary character changes the length of the text,
but no offsets were recorded, so tokens pointed to wrong or missing bytes.
---
 .../japanese_iteration_mark.rs                | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/character_filter/japanese_iteration_mark.rs b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
index 6bb46e5..70d16ec 100644
--- a/lindera-filter/src/character_filter/japanese_iteration_mark.rs
+++ b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
@@ -6,7 +6,7 @@ use serde_json::Value;
 use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
-use crate::character_filter::CharacterFilter;
+use crate::character_filter::{add_offset_diff, CharacterFilter};
 
 pub const JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME: &str = "japanese_iteration_mark";
 
@@ -186,7 +186,31 @@ impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
             filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
         }
 
-        Ok((filterd_text, Vec::new(), Vec::new()))
+        // Every character is replaced by one character, which may have another length in bytes.
+        let mut offsets: Vec<usize> = Vec::new();
+        let mut diffs: Vec<i64> = Vec::new();
+        let mut input_offset = 0_usize;
+        for (input_char, output_char) in text_chars.iter().zip(filterd_text.chars()) {
+            let diff_len = input_char.len_utf8() as i64 - output_char.len_utf8() as i64;
+            input_offset += input_char.len_utf8();
+            let prev_diff = *diffs.last().unwrap_or(&0);
+
+            if diff_len > 0 {
+                // Replacement is shorter than the iteration mark.
+                let offset = (input_offset as i64 - diff_len - prev_diff) as usize;
+                add_offset_diff(&mut offsets, &mut diffs, offset, prev_diff + diff_len);
+            } else {
+                // Replacement is not shorter than the iteration mark.
+                let output_offset = (input_offset as i64 - prev_diff) as usize;
+                for extra_idx in 0..diff_len.unsigned_abs() as usize {
+                    let offset = output_offset + extra_idx;
+                    let diff = prev_diff - extra_idx as i64 - 1;
+                    add_offset_diff(&mut offsets, &mut diffs, offset, diff);
+                }
+            }
+        }
+
+        Ok((filterd_text, offsets, diffs))
     }
 }
 
-- 
2.43.0


From 81d2d7c65aabdc86312c7f7f7c2afee28bc50728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 08/21] fix: part-of-speech filters on tokens with fewer than
 four details

---
 lindera-filter/src/token_filter/japanese_compound_word.rs | 3 +--
 lindera-filter/src/token_filter/japanese_keep_tags.rs     | 3 +--
 lindera-filter/src/token_filter/japanese_number.rs        | 3 +--
 lindera-filter/src/token_filter/japanese_stop_tags.rs     | 3 +--
 lindera-filter/src/token_filter/korean_keep_tags.rs       | 7 ++++++-
 lindera-filter/src/token_filter/korean_stop_tags.rs       | 7 ++++++-
 6 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 3403c13..6833050 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -133,8 +133,7 @@ impl TokenFilter for JapaneseCompoundWordTokenFilter {
         let mut compound_token_opt = None;
         for token in tokens.iter_mut() {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(4).enumerate() {
                 formatted_tags[i] = j;
             }
 
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 16a5f63..8c080de 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -88,8 +88,7 @@ impl TokenFilter for JapaneseKeepTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(4).enumerate() {
                 formatted_tags[i] = j;
             }
             self.config.tags.contains(&formatted_tags.join(","))
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index f25007d..57f3be9 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -104,8 +104,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
             let mut tag_vec = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(4).enumerate() {
                 tag_vec[i] = j;
             }
             let tag = tag_vec.join(",");
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 9e657e1..0b0fa30 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -88,8 +88,7 @@ impl TokenFilter for JapaneseStopTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(4).enumerate() {
                 formatted_tags[i] = j;
             }
             !self.config.tags.contains(&formatted_tags.join(","))
diff --git a/lindera-filter/src/token_filter/korean_keep_tags.rs b/lindera-filter/src/token_filter/korean_keep_tags.rs
index 2262289..72911c8 100644
--- a/lindera-filter/src/token_filter/korean_keep_tags.rs
+++ b/lindera-filter/src/token_filter/korean_keep_tags.rs
@@ -56,7 +56,12 @@ impl TokenFilter for KoreanKeepTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            token
+                .details
+                .first()
+                .is_some_and(|tag| self.config.tags.contains(tag))
+        });
 
         Ok(())
     }
diff --git a/lindera-filter/src/token_filter/korean_stop_tags.rs b/lindera-filter/src/token_filter/korean_stop_tags.rs
index 1170a5a..a939db9 100644
--- a/lindera-filter/src/token_filter/korean_stop_tags.rs
+++ b/lindera-filter/src/token_filter/korean_stop_tags.rs
@@ -56,7 +56,12 @@ impl TokenFilter for KoreanStopTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| !self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            !token
+                .details
+                .first()
+                .is_some_and(|tag| self.config.tags.contains(tag))
+        });
 
         Ok(())
     }
-- 
2.43.0


From 079d35f6cd8cf62184bbaf331f34e6c532b719d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 09/21] fix: Japanese numerals next to other text and malformed
 numerals

---
 .../src/token_filter/japanese_number.rs       | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 57f3be9..5fe9fb2 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -128,7 +128,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
 
 fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     let zero_str = format!("{}{}", base, digit);
-    let zero_len = zero_str.len() - num.len();
+    let zero_len = zero_str.len().saturating_sub(num.len());
     let zeros = &zero_str[0..zero_len];
 
     let mut num_str = num.to_owned();
@@ -136,7 +136,31 @@ fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     num_str
 }
 
+fn is_numeral(c: char) -> bool {
+    matches!(c, '0'..='9' | '０'..='９')
+        || "〇零一壱二弐三参四五六七八九十拾百千万億兆京垓".contains(c)
+}
+
 fn to_arabic_numerals(from_str: &str) -> String {
+    let mut to_str = String::new();
+    let mut numeral = String::new();
+
+    // Convert every numeral on its own and copy the characters around it.
+    for c in from_str.chars() {
+        if is_numeral(c) {
+            numeral.push(c);
+        } else {
+            to_str.push_str(&numeral_to_arabic(&numeral));
+            numeral.clear();
+            to_str.push(c);
+        }
+    }
+    to_str.push_str(&numeral_to_arabic(&numeral));
+
+    to_str
+}
+
+fn numeral_to_arabic(from_str: &str) -> String {
     let mut num_buf = String::new();
     let mut digit = String::new();
 
-- 
2.43.0


From 009082622b2cd0e375d72cf7d8d228ab9c62a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/21] fix: rewriting token filters on tokens with short
 details and on unassigned characters

---
 .../src/token_filter/japanese_base_form.rs         | 14 ++++++++++----
 .../src/token_filter/japanese_katakana_stem.rs     |  3 +--
 .../src/token_filter/japanese_reading_form.rs      | 14 ++++++++++----
 .../src/token_filter/korean_reading_form.rs        |  7 +++++--
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index baf713f..4354b5c 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -58,22 +58,28 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().is_some_and(|d| d == "UNK") {
                 // NOOP
                 continue;
             }
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[6].to_string();
+                    if let Some(base_form) = token.details.get(6) {
+                        token.text = base_form.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[6].to_string();
+                    if let Some(base_form) = token.details.get(6) {
+                        token.text = base_form.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[10].to_string();
+                    if let Some(base_form) = token.details.get(10) {
+                        token.text = base_form.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_katakana_stem.rs b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
index 63e44f0..843710c 100644
--- a/lindera-filter/src/token_filter/japanese_katakana_stem.rs
+++ b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
@@ -91,8 +91,7 @@ impl TokenFilter for JapaneseKatakanaStemTokenFilter {
 
 fn is_katakana(text: &str) -> bool {
     for ch in text.chars() {
-        let block = unicode_blocks::find_unicode_block(ch).unwrap();
-        if block != unicode_blocks::KATAKANA {
+        if unicode_blocks::find_unicode_block(ch) != Some(unicode_blocks::KATAKANA) {
             return false;
         }
     }
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index 03fab89..9aeff16 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -57,22 +57,28 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().is_some_and(|d| d == "UNK") {
                 // NOOP
                 continue;
             }
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[7].to_string();
+                    if let Some(reading_form) = token.details.get(7) {
+                        token.text = reading_form.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[7].to_string();
+                    if let Some(reading_form) = token.details.get(7) {
+                        token.text = reading_form.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[6].to_string();
+                    if let Some(reading_form) = token.details.get(6) {
+                        token.text = reading_form.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index fb8df2a..ec96856 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -29,8 +29,11 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] != "UNK" {
-                token.text = token.details[3].to_string();
+            if token.details.first().is_some_and(|d| d == "UNK") {
+                continue;
+            }
+            if let Some(reading_form) = token.details.get(3) {
+                token.text = reading_form.to_string();
             }
         }
 
-- 
2.43.0


From 9549c2a6369d2579addcd1a08ecb55dba84eae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 11/21] fix: reject Japanese tags of more than four parts and
 tags that are not a list instead of panicking or ignoring them

---
 lindera-filter/src/token_filter.rs                     | 10 ++++++++++
 .../src/token_filter/japanese_compound_word.rs         |  4 +++-
 lindera-filter/src/token_filter/japanese_keep_tags.rs  |  3 ++-
 lindera-filter/src/token_filter/japanese_number.rs     |  8 ++++++--
 lindera-filter/src/token_filter/japanese_stop_tags.rs  |  3 ++-
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/lindera-filter/src/token_filter.rs b/lindera-filter/src/token_filter.rs
index 75039dd..d4c0373 100644
--- a/lindera-filter/src/token_filter.rs
+++ b/lindera-filter/src/token_filter.rs
@@ -109,6 +109,16 @@ impl<T: TokenFilter + Clone + 'static> TokenFilterClone for T {
     }
 }
 
+/// Rejects a Japanese part-of-speech tag that has more than its four levels.
+fn check_japanese_tag(tag: &str) -> LinderaResult<&str> {
+    if tag.split(',').count() > 4 {
+        return Err(LinderaErrorKind::Deserialize
+            .with_error(anyhow::anyhow!("tag must have at most four parts: {}", tag)));
+    }
+
+    Ok(tag)
+}
+
 pub struct TokenFilterLoader {}
 
 impl TokenFilterLoader {
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 6833050..fb54415 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -8,7 +8,7 @@ use lindera_core::LinderaResult;
 use lindera_dictionary::DictionaryKind;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_japanese_tag, TokenFilter};
 
 pub const JAPANESE_COMPOUND_WORD_TOKEN_FILTER_NAME: &str = "japanese_compound_word";
 
@@ -27,6 +27,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
     ) -> LinderaResult<Self> {
         let mut formatted_tags: HashSet<String> = HashSet::new();
         for tag in tags.iter() {
+            check_japanese_tag(tag)?;
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
@@ -38,6 +39,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
         }
 
         let formatted_new_tag = if let Some(new_tag_str) = new_tag {
+            check_japanese_tag(&new_tag_str)?;
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = new_tag_str.split(',').collect();
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 8c080de..dac3058 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_japanese_tag, TokenFilter};
 
 pub const JAPANESE_KEEP_TAGS_TOKEN_FILTER_NAME: &str = "japanese_keep_tags";
 
@@ -54,6 +54,7 @@ impl JapaneseKeepTagsTokenFilterConfig {
                         LinderaErrorKind::Deserialize
                             .with_error(anyhow::anyhow!("tag must be string"))
                     })
+                    .and_then(check_japanese_tag)
                     .map(|s| s.to_string())
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 5fe9fb2..4610010 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_japanese_tag, TokenFilter};
 
 pub const JAPANESE_NUMBER_TOKEN_FILTER_NAME: &str = "japanese_number";
 
@@ -62,12 +62,16 @@ impl JapaneseNumberTokenFilterConfig {
                                     LinderaErrorKind::Deserialize
                                         .with_error(anyhow::anyhow!("tag must be string"))
                                 })
+                                .and_then(check_japanese_tag)
                                 .map(|s| s.to_string())
                         })
                         .collect::<LinderaResult<HashSet<String>>>()?,
                 )
-            } else {
+            } else if t.is_null() {
                 None
+            } else {
+                return Err(LinderaErrorKind::Deserialize
+                    .with_error(anyhow::anyhow!("tags must be an array")));
             }
         } else {
             None
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 0b0fa30..b32b77c 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_japanese_tag, TokenFilter};
 
 pub const JAPANESE_STOP_TAGS_TOKEN_FILTER_NAME: &str = "japanese_stop_tags";
 
@@ -54,6 +54,7 @@ impl JapaneseStopTagsTokenFilterConfig {
                         LinderaErrorKind::Deserialize
                             .with_error(anyhow::anyhow!("tag must be string"))
                     })
+                    .and_then(check_japanese_tag)
                     .map(|s| s.to_string())
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
-- 
2.43.0


From 9b1037213123dc81acba42378567fed5780e2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 12/21] fix: read back a serialized tokenizer configuration
 without a user dictionary

---
 lindera-tokenizer/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 88c2952..b1a3d60 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -141,7 +141,7 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 let mode = mode.unwrap_or(Mode::Normal);
                 Ok(TokenizerConfig {
                     dictionary,
-                    user_dictionary,
+                    user_dictionary: user_dictionary.unwrap_or(None),
                     mode,
                 })
             }
-- 
2.43.0


From 5308d65763672421fe63e94da99cfab875837ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 13/21] fix: reject incomplete or out of range lines of
 matrix.def instead of panicking or truncating

---
 lindera-dictionary-builder/src/cost_matrix.rs | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 53367a1..26a70af 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -43,17 +43,23 @@ impl CostMatrixBuilder {
         let header = lines_it.next().ok_or_else(|| {
             LinderaErrorKind::Content.with_error(anyhow::anyhow!("unknown error"))
         })?;
-        let forward_size = header[0] as u32;
-        let backward_size = header[1] as u32;
-        let len = 2 + (forward_size * backward_size) as usize;
+        let forward_size = parse_field::<u16>(&header, 0)?;
+        let backward_size = parse_field::<u16>(&header, 1)?;
+        let len = 2 + usize::from(forward_size) * usize::from(backward_size);
         let mut costs = vec![i16::MAX; len];
         costs[0] = forward_size as i16;
         costs[1] = backward_size as i16;
         for fields in lines_it {
-            let forward_id = fields[0] as u32;
-            let backward_id = fields[1] as u32;
-            let cost = fields[2] as u16;
-            costs[2 + (backward_id + forward_id * backward_size) as usize] = cost as i16;
+            let forward_id = parse_field::<u16>(&fields, 0)?;
+            let backward_id = parse_field::<u16>(&fields, 1)?;
+            let cost = parse_field::<i16>(&fields, 2)?;
+            if forward_id >= forward_size || backward_id >= backward_size {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("context id out of range in matrix.def")));
+            }
+            costs[2
+                + usize::from(backward_id)
+                + usize::from(forward_id) * usize::from(backward_size)] = cost;
         }
 
         let wtr_matrix_mtx_path = output_dir.join(Path::new("matrix.mtx"));
@@ -81,3 +87,14 @@ impl CostMatrixBuilder {
         Ok(())
     }
 }
+
+fn parse_field<T: TryFrom<i32>>(fields: &[i32], index: usize) -> LinderaResult<T> {
+    fields
+        .get(index)
+        .and_then(|field| T::try_from(*field).ok())
+        .ok_or_else(|| {
+            LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                "missing or out of range field in matrix.def"
+            ))
+        })
+}
-- 
2.43.0


From 3b056e73ab056784abd6019851aec8d281d8180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 14/21] fix: reject unk.def ids and costs that do not fit
 instead of truncating them

---
 lindera-core/src/unknown_dictionary.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lindera-core/src/unknown_dictionary.rs b/lindera-core/src/unknown_dictionary.rs
index 996f64c..cdc1201 100644
--- a/lindera-core/src/unknown_dictionary.rs
+++ b/lindera-core/src/unknown_dictionary.rs
@@ -34,9 +34,9 @@ impl UnknownDictionary {
 #[derive(Debug)]
 pub struct UnknownDictionaryEntry {
     pub surface: String,
-    pub left_id: u32,
-    pub right_id: u32,
-    pub word_cost: i32,
+    pub left_id: u16,
+    pub right_id: u16,
+    pub word_cost: i16,
 }
 
 fn parse_dictionary_entry(
@@ -51,11 +51,11 @@ fn parse_dictionary_entry(
         )));
     }
     let surface = fields[0];
-    let left_id = u32::from_str(fields[1])
+    let left_id = u16::from_str(fields[1])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let right_id = u32::from_str(fields[2])
+    let right_id = u16::from_str(fields[2])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let word_cost = i32::from_str(fields[3])
+    let word_cost = i16::from_str(fields[3])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
     Ok(UnknownDictionaryEntry {
@@ -104,9 +104,9 @@ fn make_costs_array(entries: &[UnknownDictionaryEntry]) -> Vec<WordEntry> {
             }
             WordEntry {
                 word_id: WordId(std::u32::MAX, true),
-                left_id: e.left_id as u16,
-                right_id: e.right_id as u16,
-                word_cost: e.word_cost as i16,
+                left_id: e.left_id,
+                right_id: e.right_id,
+                word_cost: e.word_cost,
             }
         })
         .collect()
-- 
2.43.0


From 65c659917fb831c070626ab34e5104eb6fc99451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 15/21] fix: take every code point of char.def as it is written

---
 lindera-core/src/character_definition.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index c3fb3dd..2950a62 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -1,32 +1,17 @@
 use std::collections::{BTreeSet, HashMap};
 
-use byteorder::{ByteOrder, LittleEndian};
-use encoding_rs::UTF_16LE;
 use serde::{Deserialize, Serialize};
 
 use crate::{error::LinderaErrorKind, LinderaResult};
 
 const DEFAULT_CATEGORY_NAME: &str = "DEFAULT";
 
-fn ucs2_to_unicode(ucs2_codepoint: u16) -> LinderaResult<u32> {
-    let mut buf = [0u8; 2];
-    LittleEndian::write_u16(&mut buf[..], ucs2_codepoint);
-
-    let s = UTF_16LE.decode(&buf[..]).0.into_owned();
-    let chrs: Vec<char> = s.chars().collect();
-
-    match chrs.len() {
-        1 => Ok(chrs[0] as u32),
-        _ => Err(LinderaErrorKind::Parse.with_error(anyhow::anyhow!("unusual char length"))),
-    }
-}
-
 fn parse_hex_codepoint(s: &str) -> LinderaResult<u32> {
     let removed_0x = s.trim_start_matches("0x");
     let ucs2_codepoint = u16::from_str_radix(removed_0x, 16)
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
-    ucs2_to_unicode(ucs2_codepoint)
+    Ok(u32::from(ucs2_codepoint))
 }
 
 #[derive(Serialize, Deserialize, Debug, Copy, Clone)]
-- 
2.43.0


From 99dded432bbb48f8afb727a773fe2854ae00fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 16/21] fix: keep the settings of char.def categories with
 their category, reject undefined and repeated ones

---
 lindera-core/src/character_definition.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index 2950a62..b4d9424 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 
 use serde::{Deserialize, Serialize};
 
@@ -86,7 +86,7 @@ impl CharacterDefinitions {
 
 #[derive(Default)]
 pub struct CharacterDefinitionsBuilder {
-    category_definition: Vec<CategoryData>,
+    category_definition: BTreeMap<CategoryId, CategoryData>,
     category_index: HashMap<String, CategoryId>,
     char_ranges: Vec<(u32, u32, Vec<CategoryId>)>,
 }
@@ -146,6 +146,12 @@ impl CharacterDefinitionsBuilder {
                 self.parse_category(line_str)?;
             }
         }
+        for (category_name, category_id) in &self.category_index {
+            if !self.category_definition.contains_key(category_id) {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("Undefined category: {}", category_name)));
+            }
+        }
         Ok(())
     }
 
@@ -207,8 +213,15 @@ impl CharacterDefinitionsBuilder {
             length,
         };
         // force a category_id allocation
-        self.category_id(fields[0]);
-        self.category_definition.push(category_data);
+        let category_id = self.category_id(fields[0]);
+        if self
+            .category_definition
+            .insert(category_id, category_data)
+            .is_some()
+        {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("Category defined twice: {}", fields[0])));
+        }
 
         Ok(())
     }
@@ -222,7 +235,7 @@ impl CharacterDefinitionsBuilder {
         }
         let mapping = self.build_lookup_table();
         CharacterDefinitions {
-            category_definitions: self.category_definition,
+            category_definitions: self.category_definition.into_values().collect(),
             category_names,
             mapping,
         }
-- 
2.43.0


From 9aa0a729e3310e23f9faa6e86c4a595d918ea054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 17/21] fix: reject or skip lexicon rows of fewer than four
 fields instead of panicking

---
 lindera-dictionary-builder/src/dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c0d8f17..a4f9334 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -120,7 +120,7 @@ impl DictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
-            let word_cost = match i16::from_str(row[3].trim()) {
+            let word_cost = match i16::from_str(row.get(3).unwrap_or_default().trim()) {
                 Ok(wc) => wc,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
-- 
2.43.0


From c6603c3564bef23577f730ac4580165c64299c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 18/21] fix: reject user dictionary rows of one or two fields
 instead of panicking

---
 lindera-dictionary-builder/src/user_dict.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d4a1f4d..30b3e2a 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -62,9 +62,13 @@ impl UserDictBuilder {
             let word_cost = if row.len() == self.simple_userdic_fields_num {
                 self.simple_word_cost
             } else {
-                row[3].parse::<i16>().map_err(|_err| {
-                    LinderaErrorKind::Parse.with_error(anyhow::anyhow!("failed to parse word cost"))
-                })?
+                row.get(3)
+                    .unwrap_or_default()
+                    .parse::<i16>()
+                    .map_err(|_err| {
+                        LinderaErrorKind::Parse
+                            .with_error(anyhow::anyhow!("failed to parse word cost"))
+                    })?
             };
             let (left_id, right_id) = if row.len() == self.simple_userdic_fields_num {
                 (self.simple_context_id, self.simple_context_id)
-- 
2.43.0


From ef70a681a9d40d08f8d4042798304377a2f4dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 19/21] fix: reject words containing NUL and dictionaries
 without words instead of panicking or losing them

---
 lindera-dictionary-builder/src/dict.rs      | 8 ++++++++
 lindera-dictionary-builder/src/user_dict.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index a4f9334..18216d7 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -95,6 +95,10 @@ impl DictBuilder {
             for result in rdr.records() {
                 let record =
                     result.map_err(|err| LinderaErrorKind::Content.with_error(anyhow!(err)))?;
+                if record.iter().any(|field| field.contains('\0')) {
+                    return Err(LinderaErrorKind::Content
+                        .with_error(anyhow!("NUL character in a field: {:?}", record)));
+                }
                 rows.push(record);
             }
         }
@@ -232,6 +236,10 @@ impl DictBuilder {
             id += len;
         }
 
+        if keyset.is_empty() {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("no words to build a dictionary from")));
+        }
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index 30b3e2a..f9c0eaa 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -51,6 +51,10 @@ impl UserDictBuilder {
         for result in rdr.records() {
             let record =
                 result.map_err(|err| LinderaErrorKind::Content.with_error(anyhow::anyhow!(err)))?;
+            if record[0].contains('\0') {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("NUL character in a surface: {:?}", record)));
+            }
             rows.push(record);
         }
         rows.sort_by_key(|row| row[0].to_string());
@@ -137,6 +141,10 @@ impl UserDictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        if keyset.is_empty() {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("no words to build a dictionary from")));
+        }
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
-- 
2.43.0


From 675272c20105d4416ff36b3535993ac2d3470b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 20/21] fix: report build errors of ko-dic and CC-CEDICT
 sources instead of panicking

---
 lindera-cc-cedict-builder/src/cc_cedict_builder.rs | 8 ++++----
 lindera-ko-dic-builder/src/ko_dic_builder.rs       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
index d1845eb..bb92ff6 100644
--- a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
+++ b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for CcCedictBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
diff --git a/lindera-ko-dic-builder/src/ko_dic_builder.rs b/lindera-ko-dic-builder/src/ko_dic_builder.rs
index 67d0142..123e5f1 100644
--- a/lindera-ko-dic-builder/src/ko_dic_builder.rs
+++ b/lindera-ko-dic-builder/src/ko_dic_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for KoDicBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
-- 
2.43.0


From 91ee762c05c22f27c3c9d700fd7918c422d3a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 21/21] fix: sum up path costs in 64 bits so that long
 sentences and large penalties cannot overflow

---
 lindera-core/src/mode.rs    | 14 +++++++-------
 lindera-core/src/viterbi.rs | 19 +++++++++++--------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/lindera-core/src/mode.rs b/lindera-core/src/mode.rs
index 0902557..068c8a7 100644
--- a/lindera-core/src/mode.rs
+++ b/lindera-core/src/mode.rs
@@ -27,17 +27,17 @@ impl Default for Penalty {
 }
 
 impl Penalty {
-    pub fn penalty(&self, edge: &Edge) -> i32 {
+    pub fn penalty(&self, edge: &Edge) -> i64 {
         let num_chars = edge.num_chars();
         if num_chars <= self.kanji_penalty_length_threshold {
             return 0;
         }
         if edge.kanji_only {
-            ((num_chars - self.kanji_penalty_length_threshold) as i32)
-                * self.kanji_penalty_length_penalty
+            ((num_chars - self.kanji_penalty_length_threshold) as i64)
+                * i64::from(self.kanji_penalty_length_penalty)
         } else if num_chars > self.other_penalty_length_threshold {
-            ((num_chars - self.other_penalty_length_threshold) as i32)
-                * self.other_penalty_length_penalty
+            ((num_chars - self.other_penalty_length_threshold) as i64)
+                * i64::from(self.other_penalty_length_penalty)
         } else {
             0
         }
@@ -59,9 +59,9 @@ impl Mode {
             Mode::Decompose(_penalty) => true,
         }
     }
-    pub fn penalty_cost(&self, edge: &Edge) -> i32 {
+    pub fn penalty_cost(&self, edge: &Edge) -> i64 {
         match self {
-            Mode::Normal => 0i32,
+            Mode::Normal => 0i64,
             Mode::Decompose(penalty) => penalty.penalty(edge),
         }
     }
diff --git a/lindera-core/src/viterbi.rs b/lindera-core/src/viterbi.rs
index 7c66bcc..18d554d 100644
--- a/lindera-core/src/viterbi.rs
+++ b/lindera-core/src/viterbi.rs
@@ -28,7 +28,7 @@ pub struct Edge {
     pub edge_type: EdgeType,
     pub word_entry: WordEntry,
 
-    pub path_cost: i32,
+    pub path_cost: i64,
     pub left_edge: Option<EdgeId>,
 
     pub start_index: u32,
@@ -126,7 +126,7 @@ impl Lattice {
                         left_edge: None,
                         start_index: start as u32,
                         stop_index: (start + prefix_len) as u32,
-                        path_cost: i32::max_value(),
+                        path_cost: i64::max_value(),
                         kanji_only: is_kanji_only(&suffix[..prefix_len]),
                     };
                     self.add_edge_in_lattice(edge);
@@ -143,7 +143,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + prefix_len) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&suffix[..prefix_len]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -214,7 +214,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + unknown_word.len()) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&unknown_word[..]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -255,9 +255,12 @@ impl Lattice {
                     .cloned()
                     .map(|left_edge_id| {
                         let left_edge = self.edge(left_edge_id);
-                        let mut path_cost = left_edge.path_cost
-                            + cost_matrix
-                                .cost(left_edge.word_entry.right_id(), right_word_entry.left_id());
+                        let mut path_cost =
+                            left_edge.path_cost
+                                + i64::from(cost_matrix.cost(
+                                    left_edge.word_entry.right_id(),
+                                    right_word_entry.left_id(),
+                                ));
                         path_cost += mode.penalty_cost(left_edge);
                         (path_cost, left_edge_id)
                     })
@@ -265,7 +268,7 @@ impl Lattice {
                 if let Some((best_cost, best_left)) = best_path {
                     let edge = &mut self.edges[right_edge_id.0 as usize];
                     edge.left_edge = Some(best_left);
-                    edge.path_cost = right_word_entry.word_cost as i32 + best_cost;
+                    edge.path_cost = i64::from(right_word_entry.word_cost) + best_cost;
                 }
             }
         }
-- 
2.43.0

