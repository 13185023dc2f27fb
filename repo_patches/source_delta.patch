From 08cb1287ee0bdb5c9acf65ba0936f96698a3eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 01/23] fix: read split_paragraphs back from a saved token set

---
 src/tokenset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b0d15ee..1ea1799 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -259,7 +259,7 @@ impl TokenSet {
             Some("byteshuff") => TokenType::BytesHuff,
             _ => panic!("Unknown token type"),
         };
-        let split_paragraphs = match value.get("split_paragraph") {
+        let split_paragraphs = match value.get("split_paragraphs") {
             None => false,
             Some(&Value::Bool(v)) => v,
             _ => panic!("Can't parse split_paragraphs field."),
-- 
2.43.0


From 7af16434c521f77cdc11ba53ae68ea268cc98594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 02/23] fix: loading a saved bits token set duplicated its
 fallback sequences

---
 src/tokenset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 1ea1799..d7cd545 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -300,6 +300,9 @@ impl TokenSet {
                     tokens.push(idx);
                 }
 
+                // The sequence could already be there if it is one of the
+                // fallback sequences of this type of token set.
+                token_set.sequences.retain(|s| s.string != string);
                 token_set.add_sequence(string, tokens);
             }
         }
-- 
2.43.0


From f99ca781e627050240cf043f01ba6aff95800e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 03/23] fix: panic when there is room for more than 256 byte
 tokens in a bits token set

---
 src/optimize_bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 0220410..3b65f63 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -14,7 +14,8 @@ pub struct SimpleBytesOptimizer {}
 
 impl BytesOptimizer for SimpleBytesOptimizer {
     fn optimize_bytes(stats: &TokenStats, n_byte_ext_tokens: usize) -> TokenSet {
-        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;
+        // There could not be more than one token per byte.
+        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);
 
         let mut byte_counts: [i64; 256] = [0; 256];
         let mut single_byte_tokens = Vec::new();
-- 
2.43.0


From e29aed277bae728cb867757bd49dcc8349cccd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 04/23] fix: optimize --min-data-size panicked unless a sample
 over 16 MiB was close enough

---
 src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 084d31b..32244e8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,7 +158,6 @@ fn optimize_with_increasing_data(
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
     let mut size = min_data_size;
-    let mut full_stats = None;
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
@@ -184,8 +183,7 @@ fn optimize_with_increasing_data(
                 < 0.005
         {
             println!("The difference is less than 0.5%. Stopping.");
-            full_stats = Some(new_full_stats);
-            break;
+            return new_full_stats;
         }
 
         tokenset = Some(stats.token_set);
@@ -193,7 +191,8 @@ fn optimize_with_increasing_data(
         size *= 2;
     }
 
-    full_stats.unwrap()
+    println!("Optimizing with the full data.");
+    optimizer.optimize(&full_sampler, tokenset)
 }
 
 fn optimize(
-- 
2.43.0


From e4c05188f58b1ec242ad05dbf584747715c36da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 05/23] fix: a token spanning a paragraph break was added when
 no other pair was left

---
 src/optimize.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index c3e747f..d6d44db 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -54,14 +54,13 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         .collect::<Vec<usize>>();
     pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
 
-    let mut new_token = Vec::new();
-    let mut token_count = 0;
+    let mut best_token = None;
 
     for &pair_idx in pairs.iter() {
         let itoken1 = pair_idx / stats.ntokens();
         let itoken2 = pair_idx % stats.ntokens();
 
-        new_token = match (
+        let new_token = match (
             &stats.token_set.tokens[itoken1],
             &stats.token_set.tokens[itoken2],
         ) {
@@ -72,12 +71,12 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         };
 
         if is_valid_token(&new_token) {
-            token_count = stats.pair_counts[pair_idx];
+            best_token = Some((new_token, stats.pair_counts[pair_idx]));
             break;
         }
     }
 
-    if new_token.is_empty() {
+    if best_token.is_none() {
         dbg!(&stats.token_set.tokens);
         dbg!(&stats.token_counts);
         dbg!(&stats.pair_counts);
@@ -85,6 +84,7 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         return None;
     }
 
+    let (new_token, token_count) = best_token.unwrap();
     let mut new_tokenset = stats.token_set.clone();
     new_tokenset.add_token(&new_token);
 
-- 
2.43.0


From d645e1f9405c246adadedb85cd16fd76dc76fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 06/23] fix: process ignored an error while writing the last
 part of its output

---
 src/processing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/processing.rs b/src/processing.rs
index 1212967..cc13e60 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -136,9 +136,12 @@ pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Res
         let line = line?;
         let processed = process(&line);
         writer.write_all(processed.as_bytes())?;
-        writer.write(b"\n")?;
+        writer.write_all(b"\n")?;
     }
 
+    // Errors are ignored when the writer is dropped.
+    writer.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From ae26d8469657e42e5617879c2085763dd087abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 07/23] fix: processing was not reversible for uppercase
 letters without a 1:1 lowercase letter

---
 src/processing.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index cc13e60..2bb659f 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -39,6 +39,15 @@ fn get_char_type(ch: char) -> CharType {
     }
 }
 
+/// Returns true if the character could be restored from its lowercase version.
+fn is_reversible_uppercase(ch: char) -> bool {
+    let mut lower = ch.to_lowercase();
+    match (lower.next(), lower.next()) {
+        (Some(lower), None) => lower.to_uppercase().eq(std::iter::once(ch)),
+        _ => false,
+    }
+}
+
 fn add_word(out: &mut String, word: &str) {
     assert!(!word.is_empty());
 
@@ -46,12 +55,15 @@ fn add_word(out: &mut String, word: &str) {
     let first = chars.next().unwrap();
     let rest = chars.as_str();
 
-    if first.is_uppercase() {
+    if first.is_uppercase() && is_reversible_uppercase(first) {
         if rest.chars().all(|ch| ch.is_lowercase()) {
             out.push('\x14');
             out.push(first.to_lowercase().next().unwrap());
             out.push_str(rest);
-        } else if rest.chars().all(|ch| ch.is_uppercase()) {
+        } else if rest
+            .chars()
+            .all(|ch| ch.is_uppercase() && is_reversible_uppercase(ch))
+        {
             out.push('\x15');
             out.push_str(word.to_lowercase().as_str());
         } else {
-- 
2.43.0


From d3203951ea20d2aed93ee698e27e2ffbdcc58d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 08/23] fix: reading a big file panicked when a sample without
 paragraph breaks ended inside a character

---
 src/input/file_sampler.rs |  3 ++-
 src/input/util.rs         | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index b9d681e..b38ca60 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -6,7 +6,7 @@ use std::iter::Iterator;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct FileSampler {
     filename: String,
@@ -103,6 +103,7 @@ impl<'a> Iterator for FileIterator<'a> {
                 Some(Sample::from_vec(buffer))
             } else {
                 let end = find_paragraph_end(&buffer, read_bytes);
+                let end = find_char_end(&buffer, end);
                 if end < read_bytes {
                     buffer.truncate(end);
                     self.file
diff --git a/src/input/util.rs b/src/input/util.rs
index 088dc6a..4cb2212 100644
--- a/src/input/util.rs
+++ b/src/input/util.rs
@@ -17,6 +17,23 @@ pub fn extract_valid_utf8_slice<'a>(data: &'a [u8]) -> &'a [u8] {
     &data[start..end]
 }
 
+/// Returns the end of the last complete UTF-8 character in `data[..end]`.
+pub fn find_char_end(data: &[u8], end: usize) -> usize {
+    for pos in (end.saturating_sub(4)..end).rev() {
+        if is_char_start(data[pos]) {
+            let char_len = match data[pos] {
+                0..=191 => 1,
+                192..=223 => 2,
+                224..=239 => 3,
+                _ => 4,
+            };
+            return if pos + char_len <= end { end } else { pos };
+        }
+    }
+
+    end
+}
+
 pub fn find_paragraph_end(data: &[u8], end: usize) -> usize {
     let mut pos = end;
     while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
-- 
2.43.0


From f57dea274448090fb18c887c6359b6a95d92eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/23] fix: characters at the end of a memory sample without
 paragraph breaks were garbled

---
 src/input/memory_sampler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 673f7df..a608028 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -3,7 +3,7 @@ use std::fs::File;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct MemorySampler {
     data: Vec<u8>,
@@ -93,6 +93,10 @@ impl<'a> Iterator for MemoryIterator<'a> {
             if self.position < self.sampler.data.len() && paragraph_end > start {
                 self.position = paragraph_end;
             }
+            let char_end = find_char_end(&self.sampler.data, self.position);
+            if self.position < self.sampler.data.len() && char_end > start {
+                self.position = char_end;
+            }
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
             None
-- 
2.43.0


From 180e62650e22dfea0e0b2a189869680a91e5452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 10/23] fix: the first paragraph was never sampled, and a
 single-paragraph file gave an empty sample

---
 src/input/memory_sampler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index a608028..acb7754 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -34,7 +34,7 @@ impl MemorySampler {
             if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) {
                 // We have a full paragraph
 
-                if data.len() as f64 / (read_bytes as f64) < target_share {
+                if data.len() as f64 <= target_share * read_bytes as f64 {
                     data.extend_from_slice(&paragraph);
                 }
 
@@ -46,7 +46,7 @@ impl MemorySampler {
             buffer.clear();
         }
 
-        if data.len() as f64 / (read_bytes as f64) < target_share {
+        if data.len() as f64 <= target_share * read_bytes as f64 {
             data.extend_from_slice(&paragraph);
         }
 
-- 
2.43.0


From 3a8b338c0dc1ee9880e58931e02dbf1bd673ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 11/23] fix: count-chars reported a wrong max char for texts
 without chars above 255

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 32244e8..583cf37 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -92,7 +92,7 @@ fn count_chars(filename: &str) {
         }
     }
 
-    let mut max_c = 0;
+    let mut max_c = counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32;
     for c in counts.keys() {
         if *c > max_c {
             max_c = *c;
-- 
2.43.0


From e6b6589ae7664cd943e3d068efb333445e5f9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 12/23] hook: re-export internals for external monitors under
 cfg(texmo_verif)

---
 src/main.rs  |  3 +++
 src/verif.rs | 11 +++++++++++
 2 files changed, 14 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/main.rs b/src/main.rs
index 583cf37..76d35d4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 use clap::{Parser, Subcommand};
 use serde_json::Value;
@@ -16,6 +17,8 @@ mod processing;
 mod stats2;
 mod tokenizer2;
 mod tokenset;
+#[cfg(texmo_verif)]
+pub mod verif;
 
 use self::input::file_sampler::FileSampler;
 use self::input::memory_sampler::MemorySampler;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..001dfaf
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,11 @@
+//! Names used by the external runtime monitors. Only compiled with
+//! `--cfg texmo_verif`.
+
+pub use crate::batch_tokenize::{tokenize_file, TokenizerCache};
+pub use crate::input::file_sampler::FileSampler;
+pub use crate::input::memory_sampler::MemorySampler;
+pub use crate::input::sample::{Sample, Sampler};
+pub use crate::optimize_bytes::{BytesOptimizer, HuffOptimizer, SimpleBytesOptimizer};
+pub use crate::processing::Processing;
+pub use crate::stats2::TokenStats;
+pub use crate::tokenset::{Sequence, Token, TokenSet, TokenType};
-- 
2.43.0


From 4d69553b9b81a7aeb54f0b2568c83f1f54cb9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 13/23] hook: report fragments received by worker threads under
 cfg(texmo_verif)

---
 src/batch_tokenize.rs | 3 +++
 src/verif.rs          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/batch_tokenize.rs b/src/batch_tokenize.rs
index bdf6dfd..6ee69ca 100644
--- a/src/batch_tokenize.rs
+++ b/src/batch_tokenize.rs
@@ -41,6 +41,9 @@ fn worker(
             }
         };
 
+        #[cfg(texmo_verif)]
+        crate::verif::on_job(data);
+
         assert!(!data.is_empty());
         tokenizer.process_slice(data, &mut stats, &mut buffer);
     }
diff --git a/src/verif.rs b/src/verif.rs
index 001dfaf..61dc398 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -9,3 +9,12 @@ pub use crate::optimize_bytes::{BytesOptimizer, HuffOptimizer, SimpleBytesOptimi
 pub use crate::processing::Processing;
 pub use crate::stats2::TokenStats;
 pub use crate::tokenset::{Sequence, Token, TokenSet, TokenType};
+
+/// Called by a worker thread with every fragment it has received.
+pub static JOB_OBSERVER: std::sync::OnceLock<fn(&[u8])> = std::sync::OnceLock::new();
+
+pub(crate) fn on_job(data: &[u8]) {
+    if let Some(observer) = JOB_OBSERVER.get() {
+        observer(data);
+    }
+}
-- 
2.43.0


From b25b168f350fc9d1aac206250cc8fa02ddb262a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 14/23] fix: optimize --min-data-size 0 never ended

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 76d35d4..171703f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -160,7 +160,8 @@ fn optimize_with_increasing_data(
     let full_sampler = FileSampler::new(filename, 1 << 24, None);
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
-    let mut size = min_data_size;
+    // Doubling has to get somewhere.
+    let mut size = min_data_size.max(1);
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
-- 
2.43.0


From bc39a26f8e0d214a3f2be6d15d6abebfd8820101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 15/23] fix: FileSampler took a short read for the end of a
 fragment

---
 src/input/file_sampler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index b38ca60..e1fadec 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -94,7 +94,14 @@ impl<'a> Iterator for FileIterator<'a> {
                 Some(Sample::from_vec(buffer))
             }
         } else {
-            let read_bytes = self.file.read(&mut buffer).unwrap();
+            // A single read may return less than requested before the end of the file.
+            buffer.clear();
+            let read_bytes = self
+                .file
+                .by_ref()
+                .take(self.sample_size as u64)
+                .read_to_end(&mut buffer)
+                .unwrap();
 
             if read_bytes == 0 {
                 None
-- 
2.43.0


From dee08ad5cf0d1ea475a23d420bcd0bf7b7dfa1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 16/23] fix: pretty.py destroyed files it could not write

The file was opened for writing before its contents had been formatted and
encoded, so a lone surrogate or nesting beyond the recursion limit left it
empty or truncated.
---
 pretty.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pretty.py b/pretty.py
index 1933e56..614109d 100644
--- a/pretty.py
+++ b/pretty.py
@@ -1,3 +1,4 @@
+import io
 import json
 import sys
 
@@ -54,5 +55,10 @@ def save_json(data, wfile):
 with open(sys.argv[1], "r", encoding="utf-8") as f: 
     d = json.load(f)
 
-with open(sys.argv[1], "w", encoding="utf-8", newline="\n") as f:
-    save_json(d, f)
+# The file is only overwritten once everything has been serialized and encoded.
+buffer = io.StringIO()
+save_json(d, buffer)
+encoded = buffer.getvalue().encode("utf-8")
+
+with open(sys.argv[1], "wb") as f:
+    f.write(encoded)
-- 
2.43.0


From 8634c5815e497415a301307cec249e926cef3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 17/23] fix: refuse byte values and fallback token numbers
 above 255

They were cut down to their lowest eight bits when a token set was loaded, so
that a damaged file was taken for a different token set.
---
 src/tokenset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index d7cd545..2619128 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -66,10 +66,10 @@ fn parse_token(value: &Value) -> Token {
     match value {
         Value::Array(v) => Token::Str(v
             .iter()
-            .map(|b| b.as_i64().unwrap() as u8)
+            .map(|b| u8::try_from(b.as_i64().unwrap()).unwrap())
             .collect::<Vec<_>>()),
         Value::String(s) => Token::Str(s.as_bytes().to_vec()),
-        Value::Number(x) => Token::Ext(x.as_u64().unwrap() as u8),
+        Value::Number(x) => Token::Ext(u8::try_from(x.as_u64().unwrap()).unwrap()),
         _ => panic!("Unexpected token"),
     }
 }
-- 
2.43.0


From 8038e3ce44e61203dd3825212ad1eb8c294e5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 18/23] fix: optimize ignored --type and --processing when
 given an input token set

---
 src/optimize.rs | 17 ++++++++++++++++-
 src/tokenset.rs |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index d6d44db..787d47d 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -342,7 +342,22 @@ pub fn optimize_tokenset<'a, S: Sampler<'a>>(
     let mut tokenizer_cache = TokenizerCache::new(sampler, initial_size);
 
     let token_set = match (pretrained_token_set, token_type) {
-        (Some(ts), _) => ts,
+        (Some(mut ts), _) => {
+            // The result is the kind of token set that was asked for, whatever the
+            // input was made for.
+            ts.processing = processing;
+            if ts.token_type != token_type {
+                assert!(
+                    token_type == TokenType::BytesHuff,
+                    "Can't make a {:?} token set from one of type {:?}.",
+                    token_type,
+                    ts.token_type
+                );
+                let stats = tokenizer_cache.get_stats(&ts);
+                ts = HuffOptimizer::optimize_bytes(&stats, ntokens - ts.n_long_tokens());
+            }
+            ts
+        }
         (None, TokenType::Bits1) => TokenSet::new_bits1(processing, true),
         (None, TokenType::Bits2) => TokenSet::new_bits2(processing, true),
         (None, TokenType::Bits4) => TokenSet::new_bits4(processing, true),
diff --git a/src/tokenset.rs b/src/tokenset.rs
index 2619128..b19e94a 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -6,7 +6,7 @@ use std::fmt;
 
 use super::processing::Processing;
 
-#[derive(Clone, Copy, Debug, Serialize, ValueEnum)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, ValueEnum)]
 #[serde(rename_all = "lowercase")]
 pub enum TokenType {
     /// Ext tokens 0 and 1 are used to encode bytes bit by bit. (≥2 tokens)
-- 
2.43.0


From e7e7a1df8364ee08ce243e75670b2318eb1a173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:46 +0000
Subject: [PATCH 19/23] fix: a sequence of a single token was lost when a token
 set was saved

---
 src/tokenset.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b19e94a..0700c80 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -405,7 +405,6 @@ impl TokenSet {
         let sequences = self
             .sequences
             .iter()
-            .filter(|s| s.tokens.len() > 1)
             .map(|s| s.to_json(self))
             .collect::<Vec<_>>();
         if !sequences.is_empty() {
-- 
2.43.0


From 6b455619d29c9065cff18402e4668fbd9ffe08a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:46 +0000
Subject: [PATCH 20/23] fix: fallback tokens with duplicate or missing numbers
 were silently renumbered

---
 src/tokenset.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 0700c80..33b588a 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -239,6 +239,10 @@ impl TokenSet {
             .iter()
             .filter(|v| v.is_number())
             .count();
+        // Fallback tokens are numbered from 0.
+        for i in 0..n_ext_tokens {
+            assert!(value["tokens"].as_array().unwrap().contains(&json!(i)));
+        }
         let processing = match value["processing"].as_str() {
             Some("raw") => Processing::Raw,
             Some("capswords") => Processing::CapsWords,
-- 
2.43.0


From a0d002154eb6bdf9a2090ca33b005fe7f58a331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:47 +0000
Subject: [PATCH 21/23] fix: a token set file that lists two sequences for a
 string is refused (again)

---
 src/tokenset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 33b588a..757640c 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -295,6 +295,7 @@ impl TokenSet {
         }
 
         if value.as_object().unwrap().contains_key("sequences") {
+            let mut listed = Vec::new();
             for seq in value["sequences"].as_array().unwrap().iter() {
                 let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                 let mut tokens = Vec::new();
@@ -306,6 +307,8 @@ impl TokenSet {
 
                 // The sequence could already be there if it is one of the
                 // fallback sequences of this type of token set.
+                assert!(!listed.contains(&string));
+                listed.push(string.clone());
                 token_set.sequences.retain(|s| s.string != string);
                 token_set.add_sequence(string, tokens);
             }
-- 
2.43.0


From 2c33fa6a403ca3c1ea3ed82bd4596bb431e80d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 22/23] fix: optimize replaced malformed UTF-8 in its data
 instead of refusing it

---
 src/input/sample.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/input/sample.rs b/src/input/sample.rs
index b7b4bf7..6466bd3 100644
--- a/src/input/sample.rs
+++ b/src/input/sample.rs
@@ -11,10 +11,7 @@ impl<'a> Sample<'a> {
     }   
 
     pub fn from_bytes(data: &'a [u8]) -> Self {
-        match String::from_utf8_lossy(data) {
-            std::borrow::Cow::Owned(s) => Sample::Data(s),
-            std::borrow::Cow::Borrowed(s) => Sample::Ref(s),
-        }
+        Sample::Ref(std::str::from_utf8(data).unwrap())
     }
 
     pub fn as_bytes(&'a self) -> &'a [u8] {
-- 
2.43.0


From 7d533697c24a3a73c318417d3987c1a18b3005ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:45 +0000
Subject: [PATCH 23/23] fix: optimizing a Huffman token set turned its
 paragraph flag on

---
 src/optimize_bytes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 3b65f63..6558121 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -125,6 +125,7 @@ impl BytesOptimizer for HuffOptimizer {
         }
     
         let mut best_token_set = best_token_set.unwrap();
+        best_token_set.split_paragraphs = token_stats.token_set.split_paragraphs;
 
         // Adding multi-byte tokens from the input tokenset into the new
         // tokenset.
-- 
2.43.0

