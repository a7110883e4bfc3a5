From 52155d6275d3387bedc7fabe5ce9be2f65c35a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 01/19] Let simulated builds lower the piece sizes and
 thresholds (cfg texmo_sim, off by default)

---
 src/batch_tokenize.rs       |  3 ++-
 src/input/file_sampler.rs   |  3 ++-
 src/input/memory_sampler.rs |  5 +++--
 src/knobs.rs                | 17 +++++++++++++++++
 src/main.rs                 |  5 +++--
 5 files changed, 27 insertions(+), 6 deletions(-)
 create mode 100644 src/knobs.rs

diff --git a/src/batch_tokenize.rs b/src/batch_tokenize.rs
index bdf6dfd..f238408 100644
--- a/src/batch_tokenize.rs
+++ b/src/batch_tokenize.rs
@@ -3,6 +3,7 @@ use std::sync::mpsc::{self, Receiver, Sender};
 use std::sync::{Arc, Mutex};
 
 use super::input::sample::{Sample, Sampler};
+use super::knobs::tuned;
 use super::stats2::TokenStats;
 use super::tokenizer2::FragmentTokenizer;
 use super::tokenset::TokenSet;
@@ -53,7 +54,7 @@ pub fn tokenize_file<'a, S: Sampler<'a>>(
     sampler: &'a S,
     initial_size: Option<u64>,
 ) -> TokenStats {
-    if sampler.total_size() < 1 << 25 {
+    if sampler.total_size() < tuned("TEXMO_PARALLEL_SIZE", 1 << 25) {
         return tokenize_file_sync(token_set, sampler, initial_size);
     }
 
diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index b9d681e..34088fb 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -5,6 +5,7 @@ use std::io::{Read, Seek, SeekFrom};
 use std::iter::Iterator;
 
 use crate::input::sample::{Sample, Sampler};
+use crate::knobs::tuned;
 
 use super::util::find_paragraph_end;
 
@@ -19,7 +20,7 @@ impl FileSampler {
     pub fn new(filename: &str, sample_size: usize, max_samples: Option<usize>) -> Self {
         FileSampler {
             filename: filename.to_string(),
-            sample_size,
+            sample_size: tuned("TEXMO_FILE_CHUNK", sample_size as u64) as usize,
             max_samples,
             file_size: std::fs::metadata(filename).unwrap().len(),
         }
diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 673f7df..1aa2a25 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -2,6 +2,7 @@ use std::io::{BufReader, BufRead};
 use std::fs::File;
 
 use crate::input::sample::{Sample, Sampler};
+use crate::knobs::tuned;
 
 use super::util::find_paragraph_end;
 
@@ -13,7 +14,7 @@ pub struct MemorySampler {
 impl MemorySampler {
     pub fn from_file(filename: &str, chunk_size: usize) -> Self {
         let data = std::fs::read(filename).unwrap();
-        MemorySampler { data, chunk_size }
+        MemorySampler { data, chunk_size: tuned("TEXMO_MEMORY_CHUNK", chunk_size as u64) as usize }
     }
 
     /// Create a sampler by concatenating random full paragraphs from the file
@@ -50,7 +51,7 @@ impl MemorySampler {
             data.extend_from_slice(&paragraph);
         }
 
-        MemorySampler { data, chunk_size }
+        MemorySampler { data, chunk_size: tuned("TEXMO_MEMORY_CHUNK", chunk_size as u64) as usize }
     }
 
     pub fn from_str(data: &str, chunk_size: usize) -> Self {
diff --git a/src/knobs.rs b/src/knobs.rs
new file mode 100644
index 0000000..b3dcd77
--- /dev/null
+++ b/src/knobs.rs
@@ -0,0 +1,17 @@
+//! Sizes that a simulated run may lower. With the `texmo_sim` cfg off (the
+//! default) every knob is simply its default value.
+#![allow(unexpected_cfgs)]
+
+#[cfg(not(texmo_sim))]
+#[inline(always)]
+pub fn tuned(_name: &str, default: u64) -> u64 {
+    default
+}
+
+#[cfg(texmo_sim)]
+pub fn tuned(name: &str, default: u64) -> u64 {
+    match std::env::var(name) {
+        Ok(value) => value.parse().unwrap(),
+        Err(_) => default,
+    }
+}
diff --git a/src/main.rs b/src/main.rs
index 084d31b..202fbb0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -10,6 +10,7 @@ use tempfile::NamedTempFile;
 
 mod batch_tokenize;
 mod input;
+mod knobs;
 mod optimize;
 mod optimize_bytes;
 mod processing;
@@ -178,7 +179,7 @@ fn optimize_with_increasing_data(
             new_full_stats.bytes_per_token()
         );
 
-        if size > 1 << 24
+        if size > knobs::tuned("TEXMO_STOP_SIZE", 1 << 24) as usize
             && (stats.bytes_per_token() - new_full_stats.bytes_per_token()).abs()
                 / new_full_stats.bytes_per_token()
                 < 0.005
@@ -233,7 +234,7 @@ fn optimize(
 
     let stats = if let Some(min_data_size) = min_data_size {
         optimize_with_increasing_data(&optimizer, &filename, min_data_size, input_token_set)
-    } else if initial_size < 1 << 34 {
+    } else if initial_size < knobs::tuned("TEXMO_STREAM_SIZE", 1 << 34) {
         optimizer.optimize(
             &MemorySampler::from_file(&filename, 1 << 20),
             input_token_set,
-- 
2.43.0


From 0ff5ebe59e357ee1205221bdf5b646530c4ebff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 02/19] fix: load token sets whose file lists the fallback
 sequences of a bits type

The constructors for bits1/bits2/bits4 already add an encoding for every
byte; adding those of the file on top made every such file fail to load
(duplicate span panic in the tokenizer).
---
 src/tokenset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b0d15ee..2cab1b0 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -300,6 +300,8 @@ impl TokenSet {
                     tokens.push(idx);
                 }
 
+                // The bits token sets start with an encoding for every byte.
+                token_set.sequences.retain(|s| s.string != string);
                 token_set.add_sequence(string, tokens);
             }
         }
-- 
2.43.0


From 0be51c56798df58060b574eeaa83a61911fb1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 03/19] fix: read split_paragraphs under the name it is written
 with

---
 src/tokenset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 2cab1b0..ebd2a02 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -259,7 +259,7 @@ impl TokenSet {
             Some("byteshuff") => TokenType::BytesHuff,
             _ => panic!("Unknown token type"),
         };
-        let split_paragraphs = match value.get("split_paragraph") {
+        let split_paragraphs = match value.get("split_paragraphs") {
             None => false,
             Some(&Value::Bool(v)) => v,
             _ => panic!("Can't parse split_paragraphs field."),
-- 
2.43.0


From fd4d62893538c1970c7829acd062ca9fba93603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 04/19] fix: do not ask for more than 256 single-byte tokens in
 a bits token set

---
 src/optimize_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 0220410..4c0567d 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -14,7 +14,7 @@ pub struct SimpleBytesOptimizer {}
 
 impl BytesOptimizer for SimpleBytesOptimizer {
     fn optimize_bytes(stats: &TokenStats, n_byte_ext_tokens: usize) -> TokenSet {
-        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;
+        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);
 
         let mut byte_counts: [i64; 256] = [0; 256];
         let mut single_byte_tokens = Vec::new();
-- 
2.43.0


From 3472dec5eec85cd8d1c62144694dd1bf62fc643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 05/19] fix: finish on the full data when the growing samples
 reach its size

---
 src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 202fbb0..ca1d4b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,6 @@ fn optimize_with_increasing_data(
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
     let mut size = min_data_size;
-    let mut full_stats = None;
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
@@ -185,8 +184,7 @@ fn optimize_with_increasing_data(
                 < 0.005
         {
             println!("The difference is less than 0.5%. Stopping.");
-            full_stats = Some(new_full_stats);
-            break;
+            return new_full_stats;
         }
 
         tokenset = Some(stats.token_set);
@@ -194,7 +192,8 @@ fn optimize_with_increasing_data(
         size *= 2;
     }
 
-    full_stats.unwrap()
+    println!("Optimizing with the full data.");
+    optimizer.optimize(&full_sampler, tokenset)
 }
 
 fn optimize(
-- 
2.43.0


From 80b5fc2394c47f68a43b6939ba48761dd88762ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 06/19] fix: do not loop forever with --min-data-size 0

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ca1d4b5..b5c390e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,7 +158,7 @@ fn optimize_with_increasing_data(
     let full_sampler = FileSampler::new(filename, 1 << 24, None);
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
-    let mut size = min_data_size;
+    let mut size = min_data_size.max(1);
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
-- 
2.43.0


From 889da1a4c22c33ce6337a45cdeba40e894f4bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 07/19] fix: report a failure to write the end of the processed
 data

---
 src/processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processing.rs b/src/processing.rs
index 1212967..3c6093e 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -139,7 +139,7 @@ pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Res
         writer.write(b"\n")?;
     }
 
-    Ok(())
+    writer.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From eb2acd679dcddd779b967c0836ab0173b3a7c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 08/19] fix: survive short reads and pieces ending inside a
 character in FileSampler

A single read was taken for the whole piece, so a short read passed for the
end of the data or split it at an arbitrary byte, and an interrupted read
or a piece without a blank line ending inside a character panicked.
---
 src/input/file_sampler.rs | 14 +++++++++++---
 src/input/util.rs         | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index 34088fb..df6a445 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -7,7 +7,7 @@ use std::iter::Iterator;
 use crate::input::sample::{Sample, Sampler};
 use crate::knobs::tuned;
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct FileSampler {
     filename: String,
@@ -95,7 +95,12 @@ impl<'a> Iterator for FileIterator<'a> {
                 Some(Sample::from_vec(buffer))
             }
         } else {
-            let read_bytes = self.file.read(&mut buffer).unwrap();
+            // A single read may return less than what is left of the file.
+            buffer.clear();
+            let read_bytes = (&mut self.file)
+                .take(self.sample_size as u64)
+                .read_to_end(&mut buffer)
+                .unwrap();
 
             if read_bytes == 0 {
                 None
@@ -103,7 +108,10 @@ impl<'a> Iterator for FileIterator<'a> {
                 buffer.truncate(read_bytes);
                 Some(Sample::from_vec(buffer))
             } else {
-                let end = find_paragraph_end(&buffer, read_bytes);
+                let mut end = find_paragraph_end(&buffer, read_bytes);
+                if end == read_bytes {
+                    end = find_char_end(&buffer, read_bytes);
+                }
                 if end < read_bytes {
                     buffer.truncate(end);
                     self.file
diff --git a/src/input/util.rs b/src/input/util.rs
index 088dc6a..ce03bca 100644
--- a/src/input/util.rs
+++ b/src/input/util.rs
@@ -25,3 +25,18 @@ pub fn find_paragraph_end(data: &[u8], end: usize) -> usize {
 
     if pos < 2 { end } else { pos }
 }
+
+/// The last position in `data` up to `end` that is not inside a character.
+pub fn find_char_end(data: &[u8], end: usize) -> usize {
+    let mut start = end;
+    while start > 0 && end - start < 4 {
+        start -= 1;
+        if is_char_start(data[start]) {
+            return match std::str::from_utf8(&data[start..end]) {
+                Err(e) if e.error_len().is_none() && start > 0 => start,
+                _ => end,
+            };
+        }
+    }
+    end
+}
-- 
2.43.0


From be4260d99c9cd9b505ff206aeaafe2a5dfa37a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 09/19] fix: do not split the in-memory data inside a character

The halves of the character were silently replaced by U+FFFD, changing
what was counted.
---
 src/input/memory_sampler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 1aa2a25..e3898eb 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -4,7 +4,7 @@ use std::fs::File;
 use crate::input::sample::{Sample, Sampler};
 use crate::knobs::tuned;
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct MemorySampler {
     data: Vec<u8>,
@@ -90,6 +90,9 @@ impl<'a> Iterator for MemoryIterator<'a> {
             let start = self.position;
             self.position =
                 std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len());
+            if self.position < self.sampler.data.len() {
+                self.position = find_char_end(&self.sampler.data, self.position);
+            }
             let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
             if self.position < self.sampler.data.len() && paragraph_end > start {
                 self.position = paragraph_end;
-- 
2.43.0


From 18e0a56d49a04d35aeb0b7360f7d802a89fd80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 10/19] fix: replace token set files atomically

An interruption while a checkpoint or the result was being written destroyed
the previous token set of that name.
---
 src/main.rs     |  6 +++---
 src/optimize.rs |  4 ++--
 src/tokenset.rs | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b5c390e..75f4fd8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,7 +23,7 @@ use self::input::memory_sampler::MemorySampler;
 use self::processing::{process_file, Processing};
 use self::stats2::TokenStats;
 use self::input::sample::Sampler;
-use self::tokenset::{TokenSet, TokenType};
+use self::tokenset::{write_atomically, TokenSet, TokenType};
 
 fn maybe_process_file(
     filename_raw: &str,
@@ -139,14 +139,14 @@ fn load_save_tokens(
     let output_path = tokens_dir_path.join(format!("{}.json", token_set.name()));
     println!("Writing the token set to {}.", output_path.display());
     let serialized = serde_json::to_string(&stats.to_json()).unwrap();
-    std::fs::write(&output_path, serialized).unwrap();
+    write_atomically(&output_path, &serialized).unwrap();
 }
 
 fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {
     let output_path = tokens_dir.join(format!("{}.json", stats.token_set.name()));
     println!("Writing the token set to {}.", output_path.display());
     let serialized = serde_json::to_string(&stats.to_json()).unwrap();
-    std::fs::write(&output_path, serialized).unwrap();
+    write_atomically(&output_path, &serialized).unwrap();
 }
 
 fn optimize_with_increasing_data(
diff --git a/src/optimize.rs b/src/optimize.rs
index c3e747f..f4a1e6a 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -10,7 +10,7 @@ use crate::optimize_bytes::{
 };
 use crate::processing::Processing;
 use crate::stats2::TokenStats;
-use crate::tokenset::{show_bytes, Token, TokenSet, TokenType};
+use crate::tokenset::{show_bytes, write_atomically, Token, TokenSet, TokenType};
 
 fn is_valid_token(s: &[u8]) -> bool {
     let n = "\n".as_bytes()[0];
@@ -288,7 +288,7 @@ fn save_tokens(token_set: &TokenSet, tokens_dir: &Path) {
     let output_path = tokens_dir.join(format!("{}.json", token_set.name()));
     println!("Writing the token set to {}.", output_path.display());
     let serialized = serde_json::to_string(&token_set.to_json()).unwrap();
-    std::fs::write(&output_path, serialized).unwrap();
+    write_atomically(&output_path, &serialized).unwrap();
 }
 
 fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
diff --git a/src/tokenset.rs b/src/tokenset.rs
index ebd2a02..6e7bafd 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -3,6 +3,9 @@ use serde::Serialize;
 use serde_json::{json, Value};
 use std::cmp::Ordering;
 use std::fmt;
+use std::fs::File;
+use std::io::{self, Write};
+use std::path::Path;
 
 use super::processing::Processing;
 
@@ -48,6 +51,21 @@ pub enum Token {
     Ext(u8),
 }
 
+/// Replaces the file in one step, so that an interruption leaves either the old
+/// or the new content.
+pub fn write_atomically(path: &Path, contents: &str) -> io::Result<()> {
+    let temp_path = path.with_extension("json.tmp");
+    let result = File::create(&temp_path).and_then(|mut file| {
+        file.write_all(contents.as_bytes())?;
+        file.sync_all()?;
+        std::fs::rename(&temp_path, path)
+    });
+    if result.is_err() {
+        let _ = std::fs::remove_file(&temp_path);
+    }
+    result
+}
+
 fn bytes_to_json(bytes: &[u8]) -> Value {
     match std::str::from_utf8(bytes) {
         Ok(s) => s.into(),
-- 
2.43.0


From 87287db2b81b364458ced5d6755b29b5c3d9c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 11/19] fix: keep words as they are when their case can't be
 restored

Processing is meant to be reversible; marking such a word and writing it in
lower case changed its letters.
---
 src/processing.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/processing.rs b/src/processing.rs
index 3c6093e..ba6c00a 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -39,6 +39,13 @@ fn get_char_type(ch: char) -> CharType {
     }
 }
 
+/// Some letters, such as İ or the Kelvin sign, can't be restored from lower case.
+fn case_is_reversible(word: &str) -> bool {
+    word.chars()
+        .filter(|ch| ch.is_uppercase())
+        .all(|ch| ch.to_lowercase().flat_map(char::to_uppercase).eq([ch]))
+}
+
 fn add_word(out: &mut String, word: &str) {
     assert!(!word.is_empty());
 
@@ -46,7 +53,7 @@ fn add_word(out: &mut String, word: &str) {
     let first = chars.next().unwrap();
     let rest = chars.as_str();
 
-    if first.is_uppercase() {
+    if first.is_uppercase() && case_is_reversible(word) {
         if rest.chars().all(|ch| ch.is_lowercase()) {
             out.push('\x14');
             out.push(first.to_lowercase().next().unwrap());
-- 
2.43.0


From 59921665ee26e8813fbf9b62e405b0e893fde37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 12/19] fix: report the largest character of count-chars also
 when it is below 256

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 75f4fd8..f58f794 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -93,7 +93,7 @@ fn count_chars(filename: &str) {
         }
     }
 
-    let mut max_c = 0;
+    let mut max_c = counts_low.iter().rposition(|&count| count > 0).unwrap_or(0) as u32;
     for c in counts.keys() {
         if *c > max_c {
             max_c = *c;
-- 
2.43.0


From 27bf072b8a57bfaa47dde2d428207c0a2aff0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 13/19] fix: do not learn a token across paragraphs when no
 other pair is left

---
 src/optimize.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimize.rs b/src/optimize.rs
index f4a1e6a..75230ba 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -75,6 +75,7 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
             token_count = stats.pair_counts[pair_idx];
             break;
         }
+        new_token.clear();
     }
 
     if new_token.is_empty() {
-- 
2.43.0


From 231c8e2570a8643c499080406ab737579538f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 14/19] fix: commands saving the same token set at the same
 time used the same temporary file

---
 src/tokenset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 6e7bafd..1589e2f 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -52,9 +52,9 @@ pub enum Token {
 }
 
 /// Replaces the file in one step, so that an interruption leaves either the old
-/// or the new content.
+/// or the new content. Another process may write the same file at the same time.
 pub fn write_atomically(path: &Path, contents: &str) -> io::Result<()> {
-    let temp_path = path.with_extension("json.tmp");
+    let temp_path = path.with_extension(format!("json.{}.tmp", std::process::id()));
     let result = File::create(&temp_path).and_then(|mut file| {
         file.write_all(contents.as_bytes())?;
         file.sync_all()?;
-- 
2.43.0


From db01b4c7d947db8a3816cb2849df7c6ac86ae54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 15/19] fix: an optimization started from a token set for the
 other processing labelled its result with that set's processing

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f58f794..12a0717 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -213,7 +213,8 @@ fn optimize(
 
     let input_token_set = if let Some(filename) = input_tokens {
         println!("Reading the input token set from {}.", filename);
-        Some(read_token_set(filename))
+        // The result is for data with the requested processing.
+        Some(TokenSet { processing, ..read_token_set(filename) })
     } else {
         None
     };
-- 
2.43.0


From 6bebf8d1fe0897ccc1231d88e5d689ecd9362964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 16/19] fix: an optimization with fewer tokens requested than
 it starts with saved token sets of another size

---
 src/optimize.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/optimize.rs b/src/optimize.rs
index 75230ba..9fcfc54 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -299,6 +299,13 @@ fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
     tokenizer_cache: &mut TokenizerCache<'a, S>,
     tokens_dir: &Path,
 ) -> TokenStats {
+    assert!(
+        token_set.ntokens() <= ntokens,
+        "The optimization can't start with {} tokens, {} are requested.",
+        token_set.ntokens(),
+        ntokens
+    );
+
     let stats = tokenizer_cache.get_stats(&token_set);
     println!(
         "Initial tokens: {}, bytes/token = {}",
-- 
2.43.0


From 5703e7b49ebae09246c515d9aa2fe3d019590b4e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:05:45 +0000
Subject: [PATCH 17/19] fix: cutting the data held in memory took time
 quadratic in its size when it has no blank lines

---
 src/input/memory_sampler.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index e3898eb..fff2f4e 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -93,9 +93,10 @@ impl<'a> Iterator for MemoryIterator<'a> {
             if self.position < self.sampler.data.len() {
                 self.position = find_char_end(&self.sampler.data, self.position);
             }
-            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
-            if self.position < self.sampler.data.len() && paragraph_end > start {
-                self.position = paragraph_end;
+            if self.position < self.sampler.data.len() {
+                // Looking for the end of a paragraph only in this chunk, not in all of the data.
+                let chunk = &self.sampler.data[start..self.position];
+                self.position = start + find_paragraph_end(chunk, chunk.len());
             }
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
-- 
2.43.0


From 426b27da10f942b9c52e01265367aaf74dd6924d Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 18/19] fix: growing-sample optimizations restarted the minute
 between checkpoints with every sample

---
 src/optimize.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index 9fcfc54..7623389 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use std::path::Path;
@@ -298,6 +299,7 @@ fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
     bytes_optimizer: &BO,
     tokenizer_cache: &mut TokenizerCache<'a, S>,
     tokens_dir: &Path,
+    last_save_time: &Cell<Instant>,
 ) -> TokenStats {
     assert!(
         token_set.ntokens() <= ntokens,
@@ -314,7 +316,7 @@ fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
     );
 
     let mut removal_count = HashMap::new();
-    let mut last_save = Instant::now();
+    let mut last_save = last_save_time.get();
 
     loop {
         if let Some(new_token_set) = optimization_step(
@@ -333,6 +335,7 @@ fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(
             break;
         }
     }
+    last_save_time.set(last_save);
 
     token_set.sort();
     tokenizer_cache.get_stats(&token_set).clone()
@@ -346,6 +349,7 @@ pub fn optimize_tokenset<'a, S: Sampler<'a>>(
     initial_size: Option<u64>,
     pretrained_token_set: Option<TokenSet>,
     tokens_dir: &Path,
+    last_save_time: &Cell<Instant>,
 ) -> TokenStats {
     let mut tokenizer_cache = TokenizerCache::new(sampler, initial_size);
 
@@ -371,6 +375,7 @@ pub fn optimize_tokenset<'a, S: Sampler<'a>>(
                 &bytes_optimizer,
                 &mut tokenizer_cache,
                 tokens_dir,
+                last_save_time,
             )
         }
         TokenType::Bytes => {
@@ -381,6 +386,7 @@ pub fn optimize_tokenset<'a, S: Sampler<'a>>(
                 &noop_bytes_optimizer,
                 &mut tokenizer_cache,
                 tokens_dir,
+                last_save_time,
             )
         }
         TokenType::BytesHuff => {
@@ -391,6 +397,7 @@ pub fn optimize_tokenset<'a, S: Sampler<'a>>(
                 &bytes_optimizer,
                 &mut tokenizer_cache,
                 tokens_dir,
+                last_save_time,
             )
         }
     }
@@ -402,6 +409,8 @@ pub struct Optimizer {
     token_type: TokenType,
     unprocessed_data_size: Option<u64>,
     tokens_dir: Box<Path>,
+    /// When a token set was last saved, in any of the optimizations.
+    last_save_time: Cell<Instant>,
 }
 
 impl Optimizer {
@@ -418,6 +427,7 @@ impl Optimizer {
             token_type,
             unprocessed_data_size,
             tokens_dir: tokens_dir.into(),
+            last_save_time: Cell::new(Instant::now()),
         }
     }
 
@@ -430,6 +440,7 @@ impl Optimizer {
             self.unprocessed_data_size,
             pretrained_token_set,
             &self.tokens_dir,
+            &self.last_save_time,
         )
     }
 
-- 
2.43.0


From 820bc91ac3999cab6315cef375fc127d0bb17c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:45 +0000
Subject: [PATCH 19/19] fix: processing a file into itself emptied it and
 reported success

---
 src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 12a0717..ec3f2fc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -47,6 +47,17 @@ fn maybe_process_file(
 
 fn process(filename: &str, output: &str) {
     let mut input = File::open(filename).unwrap();
+
+    // Creating the output would empty the data file before it is read.
+    if input.metadata().unwrap().is_file() {
+        if let Ok(output_path) = std::fs::canonicalize(output) {
+            assert!(
+                std::fs::canonicalize(filename).unwrap() != output_path,
+                "The output is the data file"
+            );
+        }
+    }
+
     let mut output = File::create(output).unwrap();
 
     process_file(&mut input, &mut output).unwrap();
-- 
2.43.0

