From a98de79c4a410007a22c5ae2753edeacb3bce177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 1/6] fix: correct misspelled full names of Gc Pc, Gc Pi and
 Ccc 133

PropertyValueAliases.txt names them Connector_Punctuation,
Initial_Punctuation and CCC133.
---
 src/unicode/ucd/property_names.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index c30b796..977c749 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -80,7 +80,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "No",
         },
         Gc::Pc => PropertyName {
-            full: "Ctor_Punctuation",
+            full: "Connector_Punctuation",
             abbr: "Pc",
         },
         Gc::Pd => PropertyName {
@@ -96,7 +96,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "Pf",
         },
         Gc::Pi => PropertyName {
-            full: "Il_Punctuation",
+            full: "Initial_Punctuation",
             abbr: "Pi",
         },
         Gc::Po => PropertyName {
@@ -512,7 +512,7 @@ pub(crate) fn ccc_name(prop: Ccc) -> PropertyName {
             abbr: "CCC132",
         },
         Ccc::CCC133 => PropertyName {
-            full: "RESERVED",
+            full: "CCC133",
             abbr: "CCC133",
         },
         Ccc::ATBL => PropertyName {
-- 
2.43.0


From a81f0242a063ab121a3772350d882312ea181e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 2/6] fix: comp_ex panicked for surrogate code points

singleton_decomposition and non_starter_decomposition unwrapped
char::from_u32, which is None for U+D800..U+DFFF.
---
 src/unicode/normalization.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index f902adf..8bb7859 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -114,9 +114,14 @@ pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{
 
 pub(crate) fn singleton_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
+    // Surrogate code points are not characters and have no decomposition.
+    let ch = match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => ch,
+        None => return false,
+    };
     // Default value (the code point itself) is not singletons.
     let mut self_char = String::new();
-    self_char.push(std::char::from_u32(code_point.to_u32()).unwrap());
+    self_char.push(ch);
     if code_point.dm() == self_char {
         return false;
     }
@@ -135,9 +140,12 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
 //          a starter decomposition.
 pub(crate) fn non_starter_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
-    let decomposed = canonical_decomposition(
-        vec![std::char::from_u32(code_point.to_u32()).unwrap()]
-    );
+    // Surrogate code points are not characters and have no decomposition.
+    let ch = match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => ch,
+        None => return false,
+    };
+    let decomposed = canonical_decomposition(vec![ch]);
     if decomposed.len() > 1 && !starter(decomposed[0] as u32) {
         return true;
     }
-- 
2.43.0


From cba4fc615c9af5eb04d32e1ea3b61868edab8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 3/6] fix: GB11 joined pictographs across SpacingMark or
 repeated ZWJ

Whether an ExtPict was seen was never forgotten, so sequences such as
ExtPict SpacingMark ZWJ ExtPict and ExtPict ZWJ ZWJ ExtPict were kept in
one cluster. Track exactly ExtPict Extend* and ExtPict Extend* ZWJ.
---
 src/unicode.rs | 54 ++++++--------------------------------------------
 1 file changed, 6 insertions(+), 48 deletions(-)

diff --git a/src/unicode.rs b/src/unicode.rs
index ec8f089..50c99e9 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -791,9 +791,11 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             let curr_ch = curr.unwrap();
             let next_ch = next.unwrap_or((self.slice.len(), '\u{0000}'));
             // Prepare for GB11
-            if curr_ch.1.ext_pict() {
-                in_ext_pict = true;
-            }
+            // ext_pict_zwj: the text up to `curr` ends with \p{ExtPict} Extend* ZWJ.
+            // in_ext_pict: the text up to `curr` ends with \p{ExtPict} Extend*.
+            let ext_pict_zwj = in_ext_pict && curr_ch.1.gcb() == Gcb::ZWJ;
+            in_ext_pict = curr_ch.1.ext_pict()
+                || (in_ext_pict && curr_ch.1.gcb() == Gcb::EX);
             // Prepare for GB12, GB13
             if curr_ch.1.gcb() == Gcb::RI {
                 _ri_count += 1;
@@ -904,54 +906,10 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             }
             // Do not break within emoji modifier sequences or emoji zwj sequences.
             // GB11: \p{ExtPict} Extend* ZWJ × \p{ExtPict}
-            if curr_ch.1.ext_pict()
-                && (next_ch.1.ext_pict())
-            {
-                curr = next;
-                // next = iter.next();
-                break;
-            }
-            if curr_ch.1.ext_pict()
-                && (!next_ch.1.ext_pict())
-            {
-                curr = next;
-                break;
-            }
-            if curr_ch.1.ext_pict() {
-                in_ext_pict = true;
-                curr = next;
-                next = iter.next();
-                continue;
-            }
-            if in_ext_pict
-                && (curr_ch.1.gcb() == Gcb::ZWJ
-                    && next_ch.1.ext_pict())
-            {
-                // ExtPict, ZWJ, ExtPict
-                curr = next;
-                next = iter.next();
-                in_ext_pict = false;
-                continue;
-            } else if in_ext_pict
-                && (curr_ch.1.gcb() == Gcb::EX
-                    && next_ch.1.gcb() == Gcb::EX)
-            {
-                // ExtPict, EX
+            if ext_pict_zwj && next_ch.1.ext_pict() {
                 curr = next;
                 next = iter.next();
                 continue;
-            } else if in_ext_pict
-                && (curr_ch.1.gcb() == Gcb::EX
-                    && next_ch.1.gcb() == Gcb::ZWJ)
-            {
-                // EX, ZWJ
-                curr = next;
-                next = iter.next();
-                if next.unwrap().1.ext_pict() {
-                    curr = next;
-                    continue;
-                }
-                break;
             }
             // Do not break within emoji flag sequences.
             // That is, do not break between regional indicator (RI) symbols
-- 
2.43.0


From 752c3b85724c81487d810ef6f980a17fe14378c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 4/6] fix: GB9c joined consonants whose linker belongs to an
 earlier conjunct

The conjunct state was kept after the conjunct had ended, so the last
consonant of <C, Linker, C, Extend, C> or of <C, SpacingMark, Linker, C>
was not preceded by a boundary. Reset it at each consonant and at each
character that cannot be part of a conjunct.
---
 src/unicode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index 50c99e9..0daa3ee 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -801,8 +801,15 @@ impl<'a> Iterator for BreakGraphemes<'a> {
                 _ri_count += 1;
             }
             // Prepare for GB9c
+            // A consonant starts a new conjunct, so linkers before it do not
+            // count. Anything else than Extend or Linker ends the conjunct.
             if curr_ch.1.incb() == Incb::Consonant {
                 in_indic = true;
+                indic_linker = false;
+            }
+            if curr_ch.1.incb() == Incb::None {
+                in_indic = false;
+                indic_linker = false;
             }
             if in_indic == true && curr_ch.1.incb() == Incb::Linker {
                 indic_linker = true;
-- 
2.43.0


From ad67bcd143b21a85903b141a4ef7e24e77fdf74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 5/6] fix: two-stage lookup truncated block sizes of 2^32 and
 more

---
 src/collections.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/collections.rs b/src/collections.rs
index f8555a6..1bade75 100644
--- a/src/collections.rs
+++ b/src/collections.rs
@@ -21,11 +21,10 @@ impl<'a, T: Copy, IndexT: Num + AsPrimitive<usize>> TwoStageTable<'a, T, IndexT>
     }
 
     pub fn at(&self, cp: u32) -> T {
-        let block_size = self.block_size as u32;
-        let offset = cp % block_size;
-        let stage_1_index: usize = (cp / block_size) as usize;
+        let offset = cp as usize % self.block_size;
+        let stage_1_index: usize = cp as usize / self.block_size;
 
-        self.stage_2[(self.stage_1[stage_1_index]).as_()][offset as usize]
+        self.stage_2[(self.stage_1[stage_1_index]).as_()][offset]
     }
 }
 
-- 
2.43.0


From 68486df3f7ad975477aeb3c73ff1254c20cf8880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 6/6] fix: decomposition counter overflowed for very long
 decompositions

---
 src/unicode/normalization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index 8bb7859..f5cdb9c 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -64,7 +64,7 @@ pub(super) fn canonical_ordering(sequence: &mut Vec<char>) {
 }
 
 pub(super) fn compatibility_decomposition(s: &Vec<char>) -> Vec<char> {
-    let mut count = 0;
+    let mut count: usize = 0;
     let mut decomposed = vec![];
     for ch in s.iter() {
         if ch.dm() == "" {
@@ -90,7 +90,7 @@ pub(super) fn compatibility_decomposition(s: &Vec<char>) -> Vec<char> {
 }
 
 pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{
-    let mut count = 0;
+    let mut count: usize = 0;
     let mut decomposed = vec![];
     for ch in s.iter() {
         if ch.dm() == "" {
-- 
2.43.0

