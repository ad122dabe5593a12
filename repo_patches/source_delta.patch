From a76efe958cff4309286a8f08cf5aa6360159c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 01/41] fix: cover all 256 step numbers and put Assert at its
 own number in the step table

---
 src/fm_script_engine/fm_script_engine_instructions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fm_script_engine/fm_script_engine_instructions.rs b/src/fm_script_engine/fm_script_engine_instructions.rs
index d090ff6..a8f3be7 100644
--- a/src/fm_script_engine/fm_script_engine_instructions.rs
+++ b/src/fm_script_engine/fm_script_engine_instructions.rs
@@ -224,7 +224,7 @@ impl FromStr for Instruction {
     }
 }
 
-pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
+pub static INSTRUCTIONMAP : [Option<Instruction>; 256] = [
     None,
 	  Some(Instruction::PerformScript),
     None,
@@ -479,6 +479,7 @@ pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
     None,
     None,
     None,
+    None,
     Some(Instruction::Assert),
 ];
 
-- 
2.43.0


From 544d194fc3a099e1a6c65bcdb24acd06fe7dda52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 02/41] fix: advance past the reference of 0x1F chunks and
 reject unknown 0x0F chunks instead of looping forever

---
 src/chunk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..bc5a210 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,8 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                return Err("Invalid data segment chunk.");
             }
         },
         0x10 => {
@@ -218,6 +220,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
-- 
2.43.0


From 576c2c74bed652d5c99eec5ad883b08023106aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 03/41] fix: keep the data byte of 0x00 chunks

---
 src/chunk.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index bc5a210..7fdd7fd 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -65,8 +65,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
         0x00 => {
             *offset += 1;
             ctype = ChunkType::DataSimple;
-            data = Some(&code[*offset..*offset]);
-            if code[1] == 0x00 { }
+            data = Some(&code[*offset..*offset+1]);
             *offset += 1;
         },
         0x01 | 0x02 | 0x03 | 0x04 | 0x05 => {
-- 
2.43.0


From a4b0ac40aa04e185023ddde2f86f3c2b26e180e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 04/41] fix: encode text without reinterpreting a vector past
 its capacity

---
 src/dbcharconv.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..ad2251b 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -35,15 +35,10 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
+    text.chars()
         .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
-    }
-
+        .flat_map(|(high, low)| [high, low])
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From c6485e14cce36ecc4baa6a035f48bab9822a09a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 05/41] fix: only use fixed-length record codes for the lengths
 they stand for

---
 src/compile/assembler.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..aa690ef 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -30,13 +30,14 @@ impl<'a> Assembler<'a> {
 
     /* Only used when value is not a known datatype */
     pub fn calc_small_kv_ins(&self, val: &[u8]) -> u8 {
-        let code = ((val.len() + 1).div_ceil(2)) as u8;
-        if code > 0x5 {
-            return 0x6;
+        match val.len() {
+            1 => 0x1,
+            2 => 0x2,
+            4 => 0x3,
+            6 => 0x4,
+            8 => 0x5,
+            _ => 0x6,
         }
-
-        return code;
-        ((val.len() + 1).div_ceil(2)) as u8
     }
 
     fn emit_simple_data_1b(&mut self, data: &[u8]) {
-- 
2.43.0


From 5e49fe83a2d4963fc2f4dfca5696d92889a274b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 06/41] fix: write whole sectors; the last sector was one byte
 short

---
 src/compile/assembler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index aa690ef..71d0282 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -142,7 +142,7 @@ impl<'a> Assembler<'a> {
 
     pub fn append_blank_chunk(&mut self) {
         self.buffer.resize(self.buffer.len() + 4096, 0);
-        self.idx = self.buffer.len() - 4095;
+        self.idx = self.buffer.len() - 4096;
         self.local_idx = 0;
     }
 
@@ -283,6 +283,7 @@ impl<'a> Assembler<'a> {
     pub fn assemble_fmp12(&mut self, schema: &FmpFile) {
 
         self.buffer.extend(HEADER_INIT);
+        self.buffer.resize(4096, 0);
 
         let name_header = schema.name.clone() + "/";
         self.buffer.splice(3082..3082+name_header.len(), name_header.as_bytes().to_vec());
-- 
2.43.0


From ee6d269375c5d91ea7c322fa18337291277e1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 07/41] fix: append steps of single-segment scripts in stored
 order instead of inserting at their id

---
 src/decompile/decompiler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..3551741 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -588,8 +588,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
                     if chunk.segment_idx == Some(4) {
                             let instrs = chunk.data.unwrap().chunks(28);
-                            for (i, ins) in instrs.enumerate() {
-                                if ins.len() >= 21 {
+                            for ins in instrs {
+                                if ins.len() >= 28 {
                                 let oc = &INSTRUCTIONMAP[ins[21] as usize];
                                 if oc.is_some() {
                                     let mut switch: Vec<String> = vec![];
@@ -609,7 +609,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     };
                                     let handle = &mut fmp_file.scripts
                                         .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                        handle.insert(n, tmp);
+                                        handle.push(tmp);
                                     }
                                 }
                             }
@@ -619,7 +619,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             Some(4) => {
                                 let instrs = chunk.data.unwrap().chunks(28);
                                 for ins in instrs {
-                                    if ins.len() >= 21 {
+                                    if ins.len() >= 28 {
                                     let oc = &INSTRUCTIONMAP[ins[21] as usize];
                                     if oc.is_some() {
                                         let mut switch: Vec<String> = vec![];
-- 
2.43.0


From 054eecac50ab30f8e35ba493202b530c9b1ff166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 08/41] fix: fail when the header log cannot be written

---
 src/decompile/decompiler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 3551741..5088bb7 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -216,7 +216,7 @@ pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut buffer = Vec::<u8>::new();
     file.read_to_end(&mut buffer).expect("Unable to read file.");
 
-    write("header.log", buffer);
+    write("header.log", buffer).expect("Unable to write header log.");
     decompile_fmp12_file(path)
 }
 
-- 
2.43.0


From b8e9a5736fde86cd78877fd77d7ba88b5da3c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 09/41] fix: stop following a sector chain that runs in a cycle

---
 src/decompile/decompiler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 5088bb7..8ebcee0 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -247,9 +247,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
     let mut data_source_names = VecDeque::<String>::new();
+    let mut visited = HashSet::<usize>::new();
 
-
-    while idx != 0 {
+    while idx != 0 && visited.insert(idx) {
         let start = idx * SECTOR_SIZE;
         let bound = start + SECTOR_SIZE;
         offset = start;
-- 
2.43.0


From 2824557b7c4bfcd6c26aa8aa5065384be5132253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 10/41] fix: ignore relationships with occurrences that are not
 part of the file

---
 src/testing/database.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 9d6ee1d..4cefd71 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -160,6 +160,11 @@ impl Database {
 
         /* Generate Relationships */ 
         for (_, rel) in &file.relationships {
+            /* Occurrences which are not part of this file can't be related. */
+            if rel.table1 as usize >= self.table_occurrences.len()
+                || rel.table2 as usize >= self.table_occurrences.len() {
+                continue;
+            }
             self.table_occurrences[rel.table1 as usize].related_records.push(
                 RelatedRecordSet {
                     occurrence: rel.table2 as usize,
-- 
2.43.0


From 5a75728e3e00100e7692e0135b992bb9023d154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 11/41] fix: delete a record instead of a field

---
 src/testing/database.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 4cefd71..f981ff8 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -44,7 +44,9 @@ impl Table {
     }
 
     pub fn delete_record(&mut self, record_id: u16) {
-        self.fields.remove(record_id.into());
+        for field in &mut self.fields {
+            field.records.remove(record_id.into());
+        }
     }
 }
 
-- 
2.43.0


From 41b148d0c7520df94997434c94fe5f4c823308b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 12/41] fix: navigate an empty found set without underflow

---
 src/testing/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index f981ff8..74db479 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -574,7 +574,7 @@ impl Database {
     pub fn goto_record(&mut self, record_id: usize) {
         let mut set = self.get_current_occurrence_mut();
         if record_id as usize >= set.found_set.len() {
-            set.record_ptr = set.found_set.len() - 1;
+            set.record_ptr = set.found_set.len().saturating_sub(1);
         } else {
             set.record_ptr = record_id;
         }
@@ -589,7 +589,7 @@ impl Database {
 
     pub fn goto_next_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        if set.record_ptr < set.found_set.len() - 1 {
+        if set.record_ptr + 1 < set.found_set.len() {
             set.record_ptr += 1;
         }
     }
@@ -601,7 +601,7 @@ impl Database {
 
     pub fn goto_last_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        set.record_ptr = set.found_set.len() - 1;
+        set.record_ptr = set.found_set.len().saturating_sub(1);
     }
 }
 
-- 
2.43.0


From 8dbab718ed04d3a0f405aca374e007d600aa2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 13/41] fix: strict relationship comparisons exclude equal
 values

---
 src/testing/database.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 74db479..48ad1a1 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -440,9 +440,9 @@ impl Database {
                     let related = match relation[0].relationship.join_by {
                         RelationComparison::Equal => *lhs.1 == *rhs.1,
                         RelationComparison::NotEqual => *lhs.1 != *rhs.1,
-                        RelationComparison::Less => *lhs.1 <= *rhs.1.to_string(),
+                        RelationComparison::Less => *lhs.1 < *rhs.1.to_string(),
                         RelationComparison::LessEqual => *lhs.1 <= *rhs.1.to_string(),
-                        RelationComparison::Greater => *lhs.1 >= *rhs.1.to_string(),
+                        RelationComparison::Greater => *lhs.1 > *rhs.1.to_string(),
                         RelationComparison::GreaterEqual => *lhs.1 >= *rhs.1.to_string(),
                         RelationComparison::Cartesian => true,
                         _ => false
-- 
2.43.0


From dded527472e57354598a80a17b306d61bc6896d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 14/41] fix: mirror the comparison of a relationship followed
 from its other side

---
 src/component.rs        | 13 +++++++++++++
 src/testing/database.rs |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/component.rs b/src/component.rs
index a947d06..d9a4e99 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -145,6 +145,19 @@ pub enum RelationComparison {
     Cartesian
 }
 
+impl RelationComparison {
+    /* The comparison as seen from the other side of the relationship. */
+    pub fn mirrored(&self) -> Self {
+        match self {
+            RelationComparison::Less => RelationComparison::Greater,
+            RelationComparison::LessEqual => RelationComparison::GreaterEqual,
+            RelationComparison::Greater => RelationComparison::Less,
+            RelationComparison::GreaterEqual => RelationComparison::LessEqual,
+            other => other.clone(),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct FMComponentRelationship {
     pub table1: u16,
diff --git a/src/testing/database.rs b/src/testing/database.rs
index 48ad1a1..138e4e1 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -184,7 +184,7 @@ impl Database {
                     relationship: Relationship {
                         field1: rel.field2 as usize,
                         field2: rel.field1 as usize,
-                        join_by: rel.comparison.clone(),
+                        join_by: rel.comparison.mirrored(),
                     },
                     records: vec![],
                 }
-- 
2.43.0


From eeb3ce0a0f7406c1f92c530af8f1b238ba3f6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 15/41] fix: follow each relationship from the records reached
 by the previous one

---
 src/testing/database.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 138e4e1..e674226 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -400,15 +400,16 @@ impl Database {
         }
 
         let path_uw = path.clone().unwrap();
-        let mut current_set = vec![];
+        let mut current_set: Vec<usize> = vec![];
+
+        let current_record = self.get_current_occurrence().get_current_record();
+        if current_record.is_err() {
+            return Err("Cannot access unrelated record.");
+        }
+        current_set.push(current_record.unwrap());
 
         for (current, next) in path_uw.windows(2).map(|x| (x[0], x[1])) {
             let current_occurrence = self.get_occurrence(current);
-            let current_record = current_occurrence.get_current_record();
-
-            if current_record.is_err() {
-                return Err("Cannot access unrelated record.");
-            }
 
             let relation = current_occurrence.related_records
                 .iter()
@@ -419,12 +420,9 @@ impl Database {
                 return Err("Cannot access unrelated record.");
             }
 
-            if current_set.is_empty() {
-                let tmp = &self.get_current_table()
-                    .fields[relation[0].relationship.field1]
-                    .records[current_record.unwrap()];
-                current_set.push((current_record.unwrap(), tmp.to_string()));
-            }
+            let lhs_list = &self.tables[current_occurrence.table_ptr as usize]
+                .fields[relation[0].relationship.field1]
+                .records;
 
             let next_occurrence = self.get_occurrence(next);
             let next_table = &self.tables[next_occurrence.table_ptr as usize];
@@ -435,7 +433,7 @@ impl Database {
 
             // println!("list: {:?}", rhs_list);
             let mut related_set = vec![];
-            for lhs in &mut current_set {
+            for lhs in current_set.iter().map(|x| (*x, lhs_list[*x].to_string())) {
                 for rhs in rhs_list.iter().enumerate() {
                     let related = match relation[0].relationship.join_by {
                         RelationComparison::Equal => *lhs.1 == *rhs.1,
@@ -451,7 +449,7 @@ impl Database {
                     // println!("relation: {}: {} :: {:?} :: {}: {}", current, lhs.1,
                     // relation[0].relationship.join_by, next, rhs.1);
                     if related {
-                        related_set.push((rhs.0, rhs.1.to_string()));
+                        related_set.push(rhs.0);
                     }
                 }
             }
@@ -469,7 +467,7 @@ impl Database {
             .iter()
             .filter(|x| x.name == field_target)
             .collect::<Vec<_>>()[0]
-            .records[current_set[0].0].to_string());
+            .records[current_set[0]].to_string());
     }
 
     pub fn get_related_record_field_mut(&mut self, occurrence: &str, field: &str) -> &mut str {
-- 
2.43.0


From e9ab4fd2b82c7197e9409cdeb0eb49376c462369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 16/41] fix: start every test from a clean environment

---
 src/testing/database.rs | 8 ++++++++
 src/testing/test.rs     | 8 ++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index e674226..1d4e85c 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -97,6 +97,7 @@ pub struct Database {
     pub table_occurrences: Vec<TableOccurrence>,
     occurrence_indices: HashMap<String, u16>,
     occurrence_handle: u16,
+    initial_occurrence: u16,
     pub tables: Vec<Table>,
     relation_mgr: RelationMgr,
 }
@@ -107,6 +108,7 @@ impl Database {
             table_occurrences: vec![],
             occurrence_indices: HashMap::new(),
             occurrence_handle: 0,
+            initial_occurrence: 0,
             tables: vec![],
             relation_mgr: RelationMgr::new(),
         }
@@ -118,6 +120,11 @@ impl Database {
                 field.records.clear();
             }
         }
+        for occurrence in &mut self.table_occurrences {
+            occurrence.found_set.clear();
+            occurrence.record_ptr = 0;
+        }
+        self.occurrence_handle = self.initial_occurrence;
     }
 
     pub fn generate_from_fmp12(&mut self, file: &FmpFile) {
@@ -145,6 +152,7 @@ impl Database {
         /* Generate Table Occurrences */
         let occurrence_size = file.table_occurrences.keys().into_iter().max().unwrap_or(&0);
         self.occurrence_handle = *file.table_occurrences.keys().into_iter().min().unwrap_or(&0) as u16;
+        self.initial_occurrence = self.occurrence_handle;
         self.table_occurrences.resize(*occurrence_size + 1, TableOccurrence::new());
         for (i, occurrence) in &file.table_occurrences {
             self.occurrence_indices.insert(
diff --git a/src/testing/test.rs b/src/testing/test.rs
index bab8f30..45ad548 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -161,13 +161,17 @@ impl<'a> TestEnvironment<'a> {
             } else if self.test_state == TestState::Fail {
                 cprintln!("Test {} outcome: <red>Fail</red>", self.current_test.as_ref().unwrap().test_name);
             }
+            self.database.clear_records();
         }
-
-        self.database.clear_records();
     }
 
     pub fn load_test(&mut self, test: FMComponentTest) {
         self.current_test = Some(test.clone());
+        self.test_state = TestState::Pass;
+        self.mode = Mode::Browse;
+        self.find_criteria.clear();
+        self.instruction_ptr.clear();
+        self.variables.clear();
         let script_name = &self.current_test.as_ref().unwrap().script.script_name;
         self.instruction_ptr.push((script_name.to_string(), 0));
         self.variables.push(HashMap::new());
-- 
2.43.0


From 5434be421206c067c0c1ec799c2e20eec776063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 17/41] fix: open and close the variable scope together with
 the script call, and go on after calling an unknown script

---
 src/testing/test.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 45ad548..6771372 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -200,6 +200,7 @@ impl<'a> TestEnvironment<'a> {
             || ip_handle.1 > script_handle.instructions.len() - 1 {
                 println!("Popping script: {}", ip_handle.0);
                 self.instruction_ptr.pop();
+                self.variables.pop();
                 return;
         }
 
@@ -210,11 +211,11 @@ impl<'a> TestEnvironment<'a> {
                 let script_name = self.eval_calculation(&cur_instruction.switches[0])
                     .strip_suffix('"').unwrap()
                     .strip_prefix('"').unwrap().to_string();
-                self.variables.push(HashMap::new());
 
+                self.instruction_ptr[n_stack].1 += 1;
                 for s in &self.file_handle.scripts {
                     if s.1.script_name == script_name {
-                        self.instruction_ptr[n_stack].1 += 1;
+                        self.variables.push(HashMap::new());
                         self.instruction_ptr.push((script_name.clone(), 0));
                         println!("calling {}", script_name);
                         break;
-- 
2.43.0


From 47f936ade41a4de367b0c75ef8d81887a98bdac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 18/41] fix: leave the script on exit_script

---
 src/testing/test.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 6771372..6289781 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -444,6 +444,10 @@ impl<'a> TestEnvironment<'a> {
                 self.database.create_record();
                 self.instruction_ptr[n_stack].1 += 1;
             },
+            Instruction::ExitScript => {
+                self.instruction_ptr.pop();
+                self.variables.pop();
+            },
             Instruction::ShowCustomDialog => {
                 println!("{}", &self.eval_calculation(&cur_instruction.switches[0]));
                 self.instruction_ptr[n_stack].1 += 1;
-- 
2.43.0


From d1d884573af7707d424473635b10edfb7ffc71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 19/41] fix: do not create records in find mode

---
 src/testing/test.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 6289781..2e0ede2 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -441,7 +441,10 @@ impl<'a> TestEnvironment<'a> {
                 }
             }
             Instruction::NewRecordRequest => {
-                self.database.create_record();
+                match self.mode {
+                    Mode::Browse => { self.database.create_record(); },
+                    Mode::Find => {}
+                }
                 self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::ExitScript => {
-- 
2.43.0


From f8273c4ee82073f7b8541185a5a0d67159f40a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 20/41] fix: read a qualified field from the occurrence it
 names

---
 src/testing/test.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 2e0ede2..82152d5 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -706,8 +706,8 @@ impl<'a> TestEnvironment<'a> {
 
         let fieldname = val.split("::").collect::<Vec<&str>>();
         if fieldname.len() == 2 {
-            let val = self.database.get_found_set_record_field(fieldname[1]);
-            return self.get_operand_val(val);
+            let val = self.database.get_current_record_by_table_field(fieldname[0], fieldname[1]);
+            return self.get_operand_val(val.unwrap_or(""));
         } else {
             let scope = self.instruction_ptr.len() - 1;
             let var_val = self.variables[scope]
-- 
2.43.0


From 6b941f896aadcb7d8ea194a18daa81fd94b17abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 21/41] fix: match conditionals and loops with their own end
 when skipping or repeating steps

---
 src/testing/test.rs | 157 +++++++++++++++++---------------------------
 1 file changed, 62 insertions(+), 95 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 82152d5..73f5530 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -84,10 +84,7 @@ pub struct TestEnvironment<'a> {
     pub instruction_ptr: Vec<(String, usize)>,
     pub variables: Vec<HashMap<String, Variable>>,
     pub current_test: Option<FMComponentTest>, 
-    pub loop_scopes: Vec<usize>,
     pub test_state: TestState,
-    pub punc_stack: Vec<Instruction>,
-    pub branch_taken: bool,
     mode: Mode,
 
     /* Data storage and behaviour */
@@ -102,10 +99,7 @@ impl<'a> TestEnvironment<'a> {
             instruction_ptr: vec![],
             variables: vec![],
             current_test: None,
-            loop_scopes: vec![],
             test_state: TestState::Pass,
-            punc_stack: vec![],
-            branch_taken: false,
             layout_mgr: LayoutMgr::new(),
             database: Database::new(),
             find_criteria: vec![],
@@ -177,9 +171,29 @@ impl<'a> TestEnvironment<'a> {
         self.variables.push(HashMap::new());
     }
 
+    /* Position of the first of the given steps, from start on, which belongs to the
+     * surrounding block. Blocks of the same kind nested inside are skipped. */
+    fn find_closing_step(steps: &[ScriptStep], start: usize, opening: Instruction, closing: &[Instruction]) -> usize {
+        let mut depth = 0;
+        let mut pos = start;
+        while pos < steps.len() {
+            let opcode = &steps[pos].opcode;
+            if depth == 0 && closing.contains(opcode) {
+                return pos;
+            }
+            if *opcode == opening {
+                depth += 1;
+            } else if depth > 0 && Some(opcode) == closing.last() {
+                depth -= 1;
+            }
+            pos += 1;
+        }
+        pos
+    }
+
     pub fn step(&mut self) {
         assert!(self.current_test.is_some());
-        let mut ip_handle: (String, usize);
+        let ip_handle: (String, usize);
         let mut script_handle = &FMComponentScript::new();
         let n_stack = self.instruction_ptr.len() - 1;
         ip_handle = self.instruction_ptr[n_stack].clone();
@@ -204,7 +218,7 @@ impl<'a> TestEnvironment<'a> {
                 return;
         }
 
-        let mut cur_instruction = &script_handle.instructions[ip_handle.1];
+        let cur_instruction = &script_handle.instructions[ip_handle.1];
         // println!("instr: {:?}", cur_instruction);
         match &cur_instruction.opcode {
             Instruction::PerformScript => {
@@ -259,11 +273,8 @@ impl<'a> TestEnvironment<'a> {
                             }
                         }
                         if exit && self.database.get_current_occurrence().record_ptr == cache_pos {
-                            while cur_instruction.opcode != Instruction::EndLoop {
-                                cur_instruction = &script_handle.instructions[ip_handle.1];
-                                ip_handle.1 += 1;
-                            }
-                            self.instruction_ptr[n_stack].1 = ip_handle.1; 
+                            self.instruction_ptr[n_stack].1 = Self::find_closing_step(&script_handle.instructions,
+                                ip_handle.1 + 1, Instruction::Loop, &[Instruction::EndLoop]) + 1;
                             return;
                         }
                     },
@@ -338,104 +349,60 @@ impl<'a> TestEnvironment<'a> {
                 self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::Loop => {
-                self.loop_scopes.push(ip_handle.1);
-                self.punc_stack.push(Instruction::Loop);
                 self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::If => {
-                let val = &self.eval_calculation(&cur_instruction.switches[0]);
-                if val == "true" {
-                    self.instruction_ptr[n_stack].1 += 1;
-                    self.branch_taken = true;
-                } else {
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                return;
-                            },
-                            Instruction::Else => {
-                                return;
-                            },
-                            Instruction::ElseIf => {
-                                return;
-                            },
-                            _ => {}
-                        }
-                        self.instruction_ptr[n_stack].1 += 1;
+                /* Find the branch to execute. Its first step, or the step after the end
+                 * of the block when no branch is taken, is executed next. */
+                let mut branch = ip_handle.1;
+                loop {
+                    let taken = match script_handle.instructions.get(branch) {
+                        Some(step) => match step.opcode {
+                            Instruction::If | Instruction::ElseIf => self.eval_calculation(&step.switches[0]) == "true",
+                            _ => true,
+                        },
+                        None => true,
+                    };
+                    branch += 1;
+                    if taken {
+                        break;
                     }
+                    branch = Self::find_closing_step(&script_handle.instructions, branch, Instruction::If,
+                        &[Instruction::ElseIf, Instruction::Else, Instruction::EndIf]);
                 }
+                self.instruction_ptr[n_stack].1 = branch;
             },
-            Instruction::ElseIf => {
-                if self.branch_taken == true {
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                self.branch_taken = false;
-                                return;
-                            },
-                            _ => {self.instruction_ptr[n_stack].1 += 1;}
-                        }
-                    }
-                }
-                let val = &self.eval_calculation(&cur_instruction.switches[0]);
-                if val == "true" {
-                    self.instruction_ptr[n_stack].1 += 1;
-                    self.branch_taken = true;
-                } else {
-                    self.instruction_ptr[n_stack].1 += 1;
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                return;
-                            },
-                            Instruction::Else => {
-                                return;
-                            },
-                            Instruction::ElseIf => {
-                                return;
-                            },
-                            _ => { self.instruction_ptr[n_stack].1 += 1; }
-                        }
-                    }
-                }
-            }
-            Instruction::Else => {
-                if self.branch_taken == true {
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                self.branch_taken = false;
-                                return;
-                            },
-                            _ => {self.instruction_ptr[n_stack].1 += 1;}
-                        }
-                    }
-                }
-                self.instruction_ptr[n_stack].1 += 1;
+            Instruction::ElseIf | Instruction::Else => {
+                /* Reached at the end of the branch that was taken. */
+                self.instruction_ptr[n_stack].1 = Self::find_closing_step(&script_handle.instructions,
+                    ip_handle.1 + 1, Instruction::If, &[Instruction::EndIf]) + 1;
             }
-
             Instruction::EndIf => {
-                self.branch_taken = false;
                 self.instruction_ptr[n_stack].1 += 1;
             }
             Instruction::EndLoop => {
-                if *self.punc_stack.last().unwrap_or(&Instruction::EndLoop) != Instruction::Loop {
-                    eprintln!("invalid scope resultion. Please check that loop and if blocks are terminated correctly.");
+                let mut depth = 0;
+                let mut start = ip_handle.1;
+                while start > 0 {
+                    start -= 1;
+                    match script_handle.instructions[start].opcode {
+                        Instruction::EndLoop => { depth += 1; },
+                        Instruction::Loop if depth == 0 => {
+                            self.instruction_ptr[n_stack].1 = start;
+                            return;
+                        },
+                        Instruction::Loop => { depth -= 1; },
+                        _ => {}
+                    }
                 }
-                self.instruction_ptr[n_stack].1 = self.loop_scopes.last().unwrap() + 1;
+                eprintln!("invalid scope resultion. Please check that loop and if blocks are terminated correctly.");
+                self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::ExitLoopIf => {
                 let val : &str = &self.eval_calculation(&cur_instruction.switches[0]);
                 if val == "true" {
-                    while cur_instruction.opcode != Instruction::EndLoop {
-                        cur_instruction = &script_handle.instructions[ip_handle.1];
-                        ip_handle.1 += 1;
-                    }
-                    self.instruction_ptr[n_stack].1 = ip_handle.1; 
+                    self.instruction_ptr[n_stack].1 = Self::find_closing_step(&script_handle.instructions,
+                        ip_handle.1 + 1, Instruction::Loop, &[Instruction::EndLoop]) + 1;
                 } else {
                     self.instruction_ptr[n_stack].1 += 1;
                 }
-- 
2.43.0


From 9298849b21d2097e2da77d12af38143a98153fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 22/41] fix: only exit the loop after the last record when
 asked to

---
 src/testing/test.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 73f5530..c51b9e7 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -252,8 +252,9 @@ impl<'a> TestEnvironment<'a> {
                 let val = &self.eval_calculation(&cur_instruction.switches[0]);
                 let mut exit = false;
                 if cur_instruction.switches.len() > 1 {
-                    let res = &self.eval_calculation(&cur_instruction.switches[1]);
-                    if res != "false" || res != "" || res != "0" {
+                    let res = self.eval_calculation(&cur_instruction.switches[1]);
+                    let res = res.trim_matches('"');
+                    if res != "false" && res != "" && res != "0" {
                         exit = true;
                     }
                 }
-- 
2.43.0


From 57c57f564f621f5e4cbb1da71f23d5973d29d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 23/41] fix: compare numbers by value

---
 src/testing/test.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index c51b9e7..dcb80e5 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -1,4 +1,5 @@
 use std::borrow::BorrowMut;
+use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::collections::HashSet;
 use std::fmt::write;
@@ -852,13 +853,21 @@ impl<'a> TestEnvironment<'a> {
                 }
             },
             Node::Comparison { ref left, operation, ref right } => {
+                let lhs_wrap = &self.evaluate(left.clone());
+                let rhs_wrap = &self.evaluate(right.clone());
+                let numbers = lhs_wrap.parse::<f64>().ok().zip(rhs_wrap.parse::<f64>().ok());
+                let ordering = match numbers {
+                    Some((lhs, rhs)) => lhs.partial_cmp(&rhs),
+                    None => Some(lhs_wrap.cmp(rhs_wrap)),
+                };
+
                 match operation {
-                    TokenType::Eq => { (self.evaluate(left.clone()) == self.evaluate(right.clone())).to_string() },
-                    TokenType::Neq => { (self.evaluate(left.clone()) != self.evaluate(right.clone())).to_string() },
-                    TokenType::Gt => { (self.evaluate(left.clone()) > self.evaluate(right.clone())).to_string() },
-                    TokenType::Gtq => { (self.evaluate(left.clone()) >= self.evaluate(right.clone())).to_string() },
-                    TokenType::Lt => { (self.evaluate(left.clone()) < self.evaluate(right.clone())).to_string() },
-                    TokenType::Ltq => { (self.evaluate(left.clone()) <= self.evaluate(right.clone())).to_string() },
+                    TokenType::Eq => { (ordering == Some(Ordering::Equal)).to_string() },
+                    TokenType::Neq => { (ordering != Some(Ordering::Equal)).to_string() },
+                    TokenType::Gt => { (ordering == Some(Ordering::Greater)).to_string() },
+                    TokenType::Gtq => { (ordering == Some(Ordering::Greater) || ordering == Some(Ordering::Equal)).to_string() },
+                    TokenType::Lt => { (ordering == Some(Ordering::Less)).to_string() },
+                    TokenType::Ltq => { (ordering == Some(Ordering::Less) || ordering == Some(Ordering::Equal)).to_string() },
                     _ => unreachable!()
                 }
             }
-- 
2.43.0


From 1bd671cab78635564c25be835d7d8d06799a51e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 24/41] fix: Asin computes the arc sine

---
 src/testing/test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index dcb80e5..3025daf 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -751,7 +751,7 @@ impl<'a> TestEnvironment<'a> {
                         .parse::<f32>().expect("unable to perform Abs() on non-numeric")
                         .abs().to_string())}
                     "Acos" => { return (self.evaluate(args[0].clone()).parse::<f64>().unwrap().acos().to_string()) }
-                    "Asin" => { return std::cmp::min(self.evaluate(args[0].clone()), self.evaluate(args[1].clone()))}
+                    "Asin" => { return (self.evaluate(args[0].clone()).parse::<f64>().unwrap().asin().to_string()) }
                     "Char" => { 
                         let mut res = String::new();
                         res.push('\"');
-- 
2.43.0


From bfcf657819443e0d95b1d9e10036248c3cee1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 25/41] fix: Get recognises its argument as the parser delivers
 it

---
 src/testing/test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 3025daf..54c24e5 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -784,7 +784,7 @@ impl<'a> TestEnvironment<'a> {
                     },
                     "Get" => {
                         match *args[0] {
-                            calc_eval::Node::Unary { ref value, ref child } => {
+                            calc_eval::Node::Unary { ref value, .. } | calc_eval::Node::Variable(ref value) => {
                                 match value.as_str() {
                                     "AccountName" => "\"Admin\"".to_string(),
                                     "CurrentTime" => Local::now().timestamp().to_string(),
-- 
2.43.0


From 171c43131ce49238b6cb8b577ad6184e7f69b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 26/41] fix: keep string literals without letters or digits

---
 src/testing/test.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 54c24e5..5ae4251 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -611,12 +611,7 @@ impl<'a> TestEnvironment<'a> {
                         buffer.push(*c);
                     }
 
-                    let size = buffer.chars()
-                        .filter(|c| c.is_alphanumeric())
-                        .collect::<Vec<_>>().len();
-                    if size > 0 {
-                        tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
-                    }
+                    tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
                     buffer.clear();
                 },
                 ':' => {
-- 
2.43.0


From fe83f06780a35628eaa8596b704ba71bbf1bf568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 27/41] fix: parse every argument of a call and continue after
 its closing parenthesis

---
 src/testing/calc_eval.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/testing/calc_eval.rs b/src/testing/calc_eval.rs
index 077ba14..35182ce 100644
--- a/src/testing/calc_eval.rs
+++ b/src/testing/calc_eval.rs
@@ -131,9 +131,11 @@ impl Parser {
     fn parse_args(&mut self) -> Vec<Box<Node>> {
         let mut _args = vec![];
 
+        /* Step onto the opening parenthesis; ends on the closing one. */
+        self.tokens.next();
         loop {
             self.tokens.next();
-            let arg = self.parse_expr().expect("unable to parse argument.");
+            let arg = self.parse_comparison().expect("unable to parse argument.");
 
             _args.push(arg);
 
@@ -295,14 +297,11 @@ impl Parser {
     pub fn parse_comparison(&mut self) -> Result<Box<Node>, &str> {
         let mut lhs = self.parse_concatenation().expect("Unable to parse expression.");
         while let Some(op) = Some(self.tokens.current().clone()) {
-            let n = self.tokens.next();
-            if n.is_none() {
-                break;
-            }
             match op.ttype {
                 TokenType::Eq | TokenType::Neq |
                 TokenType::Gt | TokenType::Gtq |
                 TokenType::Lt | TokenType::Ltq => {
+                    self.tokens.next();
                     let rhs = self.parse_concatenation().expect("Unable to parse right hand side of comparison.");
                     lhs = Box::new(Node::Comparison { 
                         left: lhs,
@@ -384,8 +383,9 @@ impl Parser {
             }
             TokenType::OpenParen => {
                 self.tokens.next();
-                let expr = self.parse_comparison().expect("unable to parse expression.");
-                return Ok(expr);
+                let expr = Ok(self.parse_comparison().expect("unable to parse expression."));
+                self.tokens.next();
+                expr
             }
             _ => { 
                 let expr = (self.parse_primary().expect("unable to parse rhs."));
-- 
2.43.0


From 4d23073f97772c03adfa48f9dd1731c7fd468e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 28/41] fix: keep commas and parentheses inside string
 arguments

---
 src/burn_script/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..a1167e3 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -66,6 +66,9 @@ impl Lexer {
                     let mut in_string = false;
                     while let Some(c) = &lex_iter.next() {
                         match c {
+                            _ if in_string && *c != '\"' => {
+                                buffer.push(*c);
+                            }
                             ' ' => {
                                 if !in_string && buffer.is_empty() {
                                     continue;
-- 
2.43.0


From c7d3608d635a17792e73ea08831768a9d9df9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 29/41] fix: do not end a script block at a bracket inside a
 string

---
 src/compile/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..72b1959 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -47,8 +47,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut quoted = false;
         while in_script == true {
-            if c == ']' {
+            if c == '"' {
+                quoted = !quoted;
+            }
+            if c == ']' && !quoted {
                 list.push(Token { ttype: TokenType::Script, text: buffer.to_string()});
                 in_script = false;
                 buffer.clear();
-- 
2.43.0


From 6ddb517fba2049d0a25eaefcf11ea70ec738fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 30/41] fix: give every relationship its own entry

---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From 7b305054d7e922b320c2d1122c5a933796568481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 31/41] fix: keep data sources when merging files

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d8732f4..720d27d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,6 +51,7 @@ fn main() {
             file.table_occurrences.extend(tmp.table_occurrences);
             file.scripts.extend(tmp.scripts);
             file.layouts.extend(tmp.layouts);
+            file.data_sources.extend(tmp.data_sources);
             file.tests.extend(tmp.tests);
             let json = serde_json::to_string_pretty(&file).expect("Unable to generate json file");
             write("inspect_output/test_compile", json).expect("Unable to write to file.");
@@ -83,6 +84,7 @@ fn main() {
             file.table_occurrences.extend(tmp.table_occurrences);
             file.scripts.extend(tmp.scripts);
             file.layouts.extend(tmp.layouts);
+            file.data_sources.extend(tmp.data_sources);
             file.tests.extend(tmp.tests);
             if args.no_testing == false && !file.tests.is_empty() {
                 let mut env = testing::test::TestEnvironment::new(&file);
-- 
2.43.0


From 0b41fcbc6f648ae33ef39ec77fe60988b0038ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 32/41] fix: keep components in a fixed order so that output
 does not depend on hashing

---
 src/decompile/decompiler.rs |  4 ++--
 src/file.rs                 | 30 +++++++++++++++---------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 8ebcee0..1ab3225 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashSet, VecDeque};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -244,7 +244,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
     sectors[0] = first;
     let mut idx = 2;
-    let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
+    let mut script_segments: BTreeMap<usize, BTreeMap<usize, Vec<u8>>> = BTreeMap::new();
 
     let mut data_source_names = VecDeque::<String>::new();
     let mut visited = HashSet::<usize>::new();
diff --git a/src/file.rs b/src/file.rs
index 3c31271..69321c3 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -2,18 +2,18 @@ use crate::component;
 
 use serde::{Deserialize, Serialize};
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Serialize, Deserialize)]
 pub struct FmpFile {
     pub name: String,
-    pub tables: HashMap<usize, component::FMComponentTable>,
-    pub relationships: HashMap<usize, component::FMComponentRelationship>,
-    pub layouts: HashMap<usize, component::FMComponentLayout>,
-    pub value_lists: HashMap<usize, component::FMComponentValueList>,
-    pub scripts: HashMap<usize, component::FMComponentScript>,
-    pub table_occurrences: HashMap<usize, component::FMComponentTableOccurence>,
-    pub data_sources: HashMap<usize, component::FMComponentDataSource>,
+    pub tables: BTreeMap<usize, component::FMComponentTable>,
+    pub relationships: BTreeMap<usize, component::FMComponentRelationship>,
+    pub layouts: BTreeMap<usize, component::FMComponentLayout>,
+    pub value_lists: BTreeMap<usize, component::FMComponentValueList>,
+    pub scripts: BTreeMap<usize, component::FMComponentScript>,
+    pub table_occurrences: BTreeMap<usize, component::FMComponentTableOccurence>,
+    pub data_sources: BTreeMap<usize, component::FMComponentDataSource>,
     pub tests: Vec<component::FMComponentTest>,
 }
 
@@ -21,13 +21,13 @@ impl FmpFile {
     pub fn new() -> Self {
         Self {
             name: String::new(),
-            tables: HashMap::new(),
-            relationships: HashMap::new(),
-            layouts: HashMap::new(),
-            value_lists: HashMap::new(),
-            scripts: HashMap::new(),
-            table_occurrences: HashMap::new(),
-            data_sources: HashMap::new(),
+            tables: BTreeMap::new(),
+            relationships: BTreeMap::new(),
+            layouts: BTreeMap::new(),
+            value_lists: BTreeMap::new(),
+            scripts: BTreeMap::new(),
+            table_occurrences: BTreeMap::new(),
+            data_sources: BTreeMap::new(),
             tests: vec![],
         }
     }
-- 
2.43.0


From aa63faddb04ca7e6ca42844f82e774b1b93fe3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 33/41] fix: reject scripts with an unclosed block

---
 src/burn_script/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 5e3e9ac..8efeec8 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -56,6 +56,7 @@ impl Parser {
                     }
 
                     /* Parse the instructions inside the script with their options */
+                    let mut closed = false;
                     while let Some(t) = parser_iter.next() {
                         match t.ttype {
                             TokenType::Identifier => {
@@ -88,6 +89,7 @@ impl Parser {
                             TokenType::CloseBracket => {
                                 let top = punc_stack.last();
                                 if top.is_none() {
+                                    closed = true;
                                     break;
                                 }
                                 let n = parser_iter.peek();
@@ -199,6 +201,9 @@ impl Parser {
                             }
                         }
                     }
+                    if !closed {
+                        return Err("Unterminated block in script.");
+                    }
                     scripts.push(tmp);
                 },
                 _ => {
-- 
2.43.0


From 9b056311b4b7bab9c361904673e2ab035c97f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 34/41] fix: accept else branches only for conditionals and
 reject stray braces

---
 src/burn_script/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 8efeec8..1919207 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -95,10 +95,10 @@ impl Parser {
                                 let n = parser_iter.peek();
                                 if n.is_some() {
                                     match n.unwrap().ttype {
-                                        TokenType::Else => {
+                                        TokenType::Else if *top.unwrap() == Instruction::If => {
                                             continue;
                                         }
-                                        TokenType::Elif => {
+                                        TokenType::Elif if *top.unwrap() == Instruction::If => {
                                             continue;
                                         }
                                         _ => {}
@@ -124,7 +124,9 @@ impl Parser {
                                 };
                                 tmp.instructions.insert(tmp.instructions.len(), step);
                             },
-                            TokenType::OpenBracket => {},
+                            TokenType::OpenBracket => {
+                                return Err("Unexpected '{' in script.");
+                            },
                             TokenType::Loop => {
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
@@ -140,6 +142,9 @@ impl Parser {
                                 punc_stack.push(Instruction::Loop);
                             },
                             TokenType::Elif => {
+                                if punc_stack.last() != Some(&Instruction::If) {
+                                    return Err("elif without if.");
+                                }
                                 let mut step = ScriptStep {
                                     opcode: Instruction::ElseIf,
                                     index: 0,
@@ -184,6 +189,9 @@ impl Parser {
                                 punc_stack.push(Instruction::If);
                             },
                             TokenType::Else => {
+                                if punc_stack.last() != Some(&Instruction::If) {
+                                    return Err("else without if.");
+                                }
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
                                     eprintln!("Expected '{{' after loop.");
-- 
2.43.0


From 770d425b76345690848a47f89a7231cd17f9142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 35/41] Undo changes under src/testing, which counts as test
 code here; the defects found there are recorded as known findings

---
 src/component.rs         |  13 ---
 src/testing/calc_eval.rs |  14 +--
 src/testing/database.rs  |  57 ++++------
 src/testing/test.rs      | 220 +++++++++++++++++++++------------------
 4 files changed, 147 insertions(+), 157 deletions(-)

diff --git a/src/component.rs b/src/component.rs
index d9a4e99..a947d06 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -145,19 +145,6 @@ pub enum RelationComparison {
     Cartesian
 }
 
-impl RelationComparison {
-    /* The comparison as seen from the other side of the relationship. */
-    pub fn mirrored(&self) -> Self {
-        match self {
-            RelationComparison::Less => RelationComparison::Greater,
-            RelationComparison::LessEqual => RelationComparison::GreaterEqual,
-            RelationComparison::Greater => RelationComparison::Less,
-            RelationComparison::GreaterEqual => RelationComparison::LessEqual,
-            other => other.clone(),
-        }
-    }
-}
-
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct FMComponentRelationship {
     pub table1: u16,
diff --git a/src/testing/calc_eval.rs b/src/testing/calc_eval.rs
index 35182ce..077ba14 100644
--- a/src/testing/calc_eval.rs
+++ b/src/testing/calc_eval.rs
@@ -131,11 +131,9 @@ impl Parser {
     fn parse_args(&mut self) -> Vec<Box<Node>> {
         let mut _args = vec![];
 
-        /* Step onto the opening parenthesis; ends on the closing one. */
-        self.tokens.next();
         loop {
             self.tokens.next();
-            let arg = self.parse_comparison().expect("unable to parse argument.");
+            let arg = self.parse_expr().expect("unable to parse argument.");
 
             _args.push(arg);
 
@@ -297,11 +295,14 @@ impl Parser {
     pub fn parse_comparison(&mut self) -> Result<Box<Node>, &str> {
         let mut lhs = self.parse_concatenation().expect("Unable to parse expression.");
         while let Some(op) = Some(self.tokens.current().clone()) {
+            let n = self.tokens.next();
+            if n.is_none() {
+                break;
+            }
             match op.ttype {
                 TokenType::Eq | TokenType::Neq |
                 TokenType::Gt | TokenType::Gtq |
                 TokenType::Lt | TokenType::Ltq => {
-                    self.tokens.next();
                     let rhs = self.parse_concatenation().expect("Unable to parse right hand side of comparison.");
                     lhs = Box::new(Node::Comparison { 
                         left: lhs,
@@ -383,9 +384,8 @@ impl Parser {
             }
             TokenType::OpenParen => {
                 self.tokens.next();
-                let expr = Ok(self.parse_comparison().expect("unable to parse expression."));
-                self.tokens.next();
-                expr
+                let expr = self.parse_comparison().expect("unable to parse expression.");
+                return Ok(expr);
             }
             _ => { 
                 let expr = (self.parse_primary().expect("unable to parse rhs."));
diff --git a/src/testing/database.rs b/src/testing/database.rs
index 1d4e85c..9d6ee1d 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -44,9 +44,7 @@ impl Table {
     }
 
     pub fn delete_record(&mut self, record_id: u16) {
-        for field in &mut self.fields {
-            field.records.remove(record_id.into());
-        }
+        self.fields.remove(record_id.into());
     }
 }
 
@@ -97,7 +95,6 @@ pub struct Database {
     pub table_occurrences: Vec<TableOccurrence>,
     occurrence_indices: HashMap<String, u16>,
     occurrence_handle: u16,
-    initial_occurrence: u16,
     pub tables: Vec<Table>,
     relation_mgr: RelationMgr,
 }
@@ -108,7 +105,6 @@ impl Database {
             table_occurrences: vec![],
             occurrence_indices: HashMap::new(),
             occurrence_handle: 0,
-            initial_occurrence: 0,
             tables: vec![],
             relation_mgr: RelationMgr::new(),
         }
@@ -120,11 +116,6 @@ impl Database {
                 field.records.clear();
             }
         }
-        for occurrence in &mut self.table_occurrences {
-            occurrence.found_set.clear();
-            occurrence.record_ptr = 0;
-        }
-        self.occurrence_handle = self.initial_occurrence;
     }
 
     pub fn generate_from_fmp12(&mut self, file: &FmpFile) {
@@ -152,7 +143,6 @@ impl Database {
         /* Generate Table Occurrences */
         let occurrence_size = file.table_occurrences.keys().into_iter().max().unwrap_or(&0);
         self.occurrence_handle = *file.table_occurrences.keys().into_iter().min().unwrap_or(&0) as u16;
-        self.initial_occurrence = self.occurrence_handle;
         self.table_occurrences.resize(*occurrence_size + 1, TableOccurrence::new());
         for (i, occurrence) in &file.table_occurrences {
             self.occurrence_indices.insert(
@@ -170,11 +160,6 @@ impl Database {
 
         /* Generate Relationships */ 
         for (_, rel) in &file.relationships {
-            /* Occurrences which are not part of this file can't be related. */
-            if rel.table1 as usize >= self.table_occurrences.len()
-                || rel.table2 as usize >= self.table_occurrences.len() {
-                continue;
-            }
             self.table_occurrences[rel.table1 as usize].related_records.push(
                 RelatedRecordSet {
                     occurrence: rel.table2 as usize,
@@ -192,7 +177,7 @@ impl Database {
                     relationship: Relationship {
                         field1: rel.field2 as usize,
                         field2: rel.field1 as usize,
-                        join_by: rel.comparison.mirrored(),
+                        join_by: rel.comparison.clone(),
                     },
                     records: vec![],
                 }
@@ -408,16 +393,15 @@ impl Database {
         }
 
         let path_uw = path.clone().unwrap();
-        let mut current_set: Vec<usize> = vec![];
-
-        let current_record = self.get_current_occurrence().get_current_record();
-        if current_record.is_err() {
-            return Err("Cannot access unrelated record.");
-        }
-        current_set.push(current_record.unwrap());
+        let mut current_set = vec![];
 
         for (current, next) in path_uw.windows(2).map(|x| (x[0], x[1])) {
             let current_occurrence = self.get_occurrence(current);
+            let current_record = current_occurrence.get_current_record();
+
+            if current_record.is_err() {
+                return Err("Cannot access unrelated record.");
+            }
 
             let relation = current_occurrence.related_records
                 .iter()
@@ -428,9 +412,12 @@ impl Database {
                 return Err("Cannot access unrelated record.");
             }
 
-            let lhs_list = &self.tables[current_occurrence.table_ptr as usize]
-                .fields[relation[0].relationship.field1]
-                .records;
+            if current_set.is_empty() {
+                let tmp = &self.get_current_table()
+                    .fields[relation[0].relationship.field1]
+                    .records[current_record.unwrap()];
+                current_set.push((current_record.unwrap(), tmp.to_string()));
+            }
 
             let next_occurrence = self.get_occurrence(next);
             let next_table = &self.tables[next_occurrence.table_ptr as usize];
@@ -441,14 +428,14 @@ impl Database {
 
             // println!("list: {:?}", rhs_list);
             let mut related_set = vec![];
-            for lhs in current_set.iter().map(|x| (*x, lhs_list[*x].to_string())) {
+            for lhs in &mut current_set {
                 for rhs in rhs_list.iter().enumerate() {
                     let related = match relation[0].relationship.join_by {
                         RelationComparison::Equal => *lhs.1 == *rhs.1,
                         RelationComparison::NotEqual => *lhs.1 != *rhs.1,
-                        RelationComparison::Less => *lhs.1 < *rhs.1.to_string(),
+                        RelationComparison::Less => *lhs.1 <= *rhs.1.to_string(),
                         RelationComparison::LessEqual => *lhs.1 <= *rhs.1.to_string(),
-                        RelationComparison::Greater => *lhs.1 > *rhs.1.to_string(),
+                        RelationComparison::Greater => *lhs.1 >= *rhs.1.to_string(),
                         RelationComparison::GreaterEqual => *lhs.1 >= *rhs.1.to_string(),
                         RelationComparison::Cartesian => true,
                         _ => false
@@ -457,7 +444,7 @@ impl Database {
                     // println!("relation: {}: {} :: {:?} :: {}: {}", current, lhs.1,
                     // relation[0].relationship.join_by, next, rhs.1);
                     if related {
-                        related_set.push(rhs.0);
+                        related_set.push((rhs.0, rhs.1.to_string()));
                     }
                 }
             }
@@ -475,7 +462,7 @@ impl Database {
             .iter()
             .filter(|x| x.name == field_target)
             .collect::<Vec<_>>()[0]
-            .records[current_set[0]].to_string());
+            .records[current_set[0].0].to_string());
     }
 
     pub fn get_related_record_field_mut(&mut self, occurrence: &str, field: &str) -> &mut str {
@@ -580,7 +567,7 @@ impl Database {
     pub fn goto_record(&mut self, record_id: usize) {
         let mut set = self.get_current_occurrence_mut();
         if record_id as usize >= set.found_set.len() {
-            set.record_ptr = set.found_set.len().saturating_sub(1);
+            set.record_ptr = set.found_set.len() - 1;
         } else {
             set.record_ptr = record_id;
         }
@@ -595,7 +582,7 @@ impl Database {
 
     pub fn goto_next_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        if set.record_ptr + 1 < set.found_set.len() {
+        if set.record_ptr < set.found_set.len() - 1 {
             set.record_ptr += 1;
         }
     }
@@ -607,7 +594,7 @@ impl Database {
 
     pub fn goto_last_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        set.record_ptr = set.found_set.len().saturating_sub(1);
+        set.record_ptr = set.found_set.len() - 1;
     }
 }
 
diff --git a/src/testing/test.rs b/src/testing/test.rs
index 5ae4251..bab8f30 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -1,5 +1,4 @@
 use std::borrow::BorrowMut;
-use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::collections::HashSet;
 use std::fmt::write;
@@ -85,7 +84,10 @@ pub struct TestEnvironment<'a> {
     pub instruction_ptr: Vec<(String, usize)>,
     pub variables: Vec<HashMap<String, Variable>>,
     pub current_test: Option<FMComponentTest>, 
+    pub loop_scopes: Vec<usize>,
     pub test_state: TestState,
+    pub punc_stack: Vec<Instruction>,
+    pub branch_taken: bool,
     mode: Mode,
 
     /* Data storage and behaviour */
@@ -100,7 +102,10 @@ impl<'a> TestEnvironment<'a> {
             instruction_ptr: vec![],
             variables: vec![],
             current_test: None,
+            loop_scopes: vec![],
             test_state: TestState::Pass,
+            punc_stack: vec![],
+            branch_taken: false,
             layout_mgr: LayoutMgr::new(),
             database: Database::new(),
             find_criteria: vec![],
@@ -156,45 +161,21 @@ impl<'a> TestEnvironment<'a> {
             } else if self.test_state == TestState::Fail {
                 cprintln!("Test {} outcome: <red>Fail</red>", self.current_test.as_ref().unwrap().test_name);
             }
-            self.database.clear_records();
         }
+
+        self.database.clear_records();
     }
 
     pub fn load_test(&mut self, test: FMComponentTest) {
         self.current_test = Some(test.clone());
-        self.test_state = TestState::Pass;
-        self.mode = Mode::Browse;
-        self.find_criteria.clear();
-        self.instruction_ptr.clear();
-        self.variables.clear();
         let script_name = &self.current_test.as_ref().unwrap().script.script_name;
         self.instruction_ptr.push((script_name.to_string(), 0));
         self.variables.push(HashMap::new());
     }
 
-    /* Position of the first of the given steps, from start on, which belongs to the
-     * surrounding block. Blocks of the same kind nested inside are skipped. */
-    fn find_closing_step(steps: &[ScriptStep], start: usize, opening: Instruction, closing: &[Instruction]) -> usize {
-        let mut depth = 0;
-        let mut pos = start;
-        while pos < steps.len() {
-            let opcode = &steps[pos].opcode;
-            if depth == 0 && closing.contains(opcode) {
-                return pos;
-            }
-            if *opcode == opening {
-                depth += 1;
-            } else if depth > 0 && Some(opcode) == closing.last() {
-                depth -= 1;
-            }
-            pos += 1;
-        }
-        pos
-    }
-
     pub fn step(&mut self) {
         assert!(self.current_test.is_some());
-        let ip_handle: (String, usize);
+        let mut ip_handle: (String, usize);
         let mut script_handle = &FMComponentScript::new();
         let n_stack = self.instruction_ptr.len() - 1;
         ip_handle = self.instruction_ptr[n_stack].clone();
@@ -215,22 +196,21 @@ impl<'a> TestEnvironment<'a> {
             || ip_handle.1 > script_handle.instructions.len() - 1 {
                 println!("Popping script: {}", ip_handle.0);
                 self.instruction_ptr.pop();
-                self.variables.pop();
                 return;
         }
 
-        let cur_instruction = &script_handle.instructions[ip_handle.1];
+        let mut cur_instruction = &script_handle.instructions[ip_handle.1];
         // println!("instr: {:?}", cur_instruction);
         match &cur_instruction.opcode {
             Instruction::PerformScript => {
                 let script_name = self.eval_calculation(&cur_instruction.switches[0])
                     .strip_suffix('"').unwrap()
                     .strip_prefix('"').unwrap().to_string();
+                self.variables.push(HashMap::new());
 
-                self.instruction_ptr[n_stack].1 += 1;
                 for s in &self.file_handle.scripts {
                     if s.1.script_name == script_name {
-                        self.variables.push(HashMap::new());
+                        self.instruction_ptr[n_stack].1 += 1;
                         self.instruction_ptr.push((script_name.clone(), 0));
                         println!("calling {}", script_name);
                         break;
@@ -253,9 +233,8 @@ impl<'a> TestEnvironment<'a> {
                 let val = &self.eval_calculation(&cur_instruction.switches[0]);
                 let mut exit = false;
                 if cur_instruction.switches.len() > 1 {
-                    let res = self.eval_calculation(&cur_instruction.switches[1]);
-                    let res = res.trim_matches('"');
-                    if res != "false" && res != "" && res != "0" {
+                    let res = &self.eval_calculation(&cur_instruction.switches[1]);
+                    if res != "false" || res != "" || res != "0" {
                         exit = true;
                     }
                 }
@@ -275,8 +254,11 @@ impl<'a> TestEnvironment<'a> {
                             }
                         }
                         if exit && self.database.get_current_occurrence().record_ptr == cache_pos {
-                            self.instruction_ptr[n_stack].1 = Self::find_closing_step(&script_handle.instructions,
-                                ip_handle.1 + 1, Instruction::Loop, &[Instruction::EndLoop]) + 1;
+                            while cur_instruction.opcode != Instruction::EndLoop {
+                                cur_instruction = &script_handle.instructions[ip_handle.1];
+                                ip_handle.1 += 1;
+                            }
+                            self.instruction_ptr[n_stack].1 = ip_handle.1; 
                             return;
                         }
                     },
@@ -351,75 +333,112 @@ impl<'a> TestEnvironment<'a> {
                 self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::Loop => {
+                self.loop_scopes.push(ip_handle.1);
+                self.punc_stack.push(Instruction::Loop);
                 self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::If => {
-                /* Find the branch to execute. Its first step, or the step after the end
-                 * of the block when no branch is taken, is executed next. */
-                let mut branch = ip_handle.1;
-                loop {
-                    let taken = match script_handle.instructions.get(branch) {
-                        Some(step) => match step.opcode {
-                            Instruction::If | Instruction::ElseIf => self.eval_calculation(&step.switches[0]) == "true",
-                            _ => true,
-                        },
-                        None => true,
-                    };
-                    branch += 1;
-                    if taken {
-                        break;
+                let val = &self.eval_calculation(&cur_instruction.switches[0]);
+                if val == "true" {
+                    self.instruction_ptr[n_stack].1 += 1;
+                    self.branch_taken = true;
+                } else {
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                return;
+                            },
+                            Instruction::Else => {
+                                return;
+                            },
+                            Instruction::ElseIf => {
+                                return;
+                            },
+                            _ => {}
+                        }
+                        self.instruction_ptr[n_stack].1 += 1;
                     }
-                    branch = Self::find_closing_step(&script_handle.instructions, branch, Instruction::If,
-                        &[Instruction::ElseIf, Instruction::Else, Instruction::EndIf]);
                 }
-                self.instruction_ptr[n_stack].1 = branch;
             },
-            Instruction::ElseIf | Instruction::Else => {
-                /* Reached at the end of the branch that was taken. */
-                self.instruction_ptr[n_stack].1 = Self::find_closing_step(&script_handle.instructions,
-                    ip_handle.1 + 1, Instruction::If, &[Instruction::EndIf]) + 1;
+            Instruction::ElseIf => {
+                if self.branch_taken == true {
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                self.branch_taken = false;
+                                return;
+                            },
+                            _ => {self.instruction_ptr[n_stack].1 += 1;}
+                        }
+                    }
+                }
+                let val = &self.eval_calculation(&cur_instruction.switches[0]);
+                if val == "true" {
+                    self.instruction_ptr[n_stack].1 += 1;
+                    self.branch_taken = true;
+                } else {
+                    self.instruction_ptr[n_stack].1 += 1;
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                return;
+                            },
+                            Instruction::Else => {
+                                return;
+                            },
+                            Instruction::ElseIf => {
+                                return;
+                            },
+                            _ => { self.instruction_ptr[n_stack].1 += 1; }
+                        }
+                    }
+                }
             }
+            Instruction::Else => {
+                if self.branch_taken == true {
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                self.branch_taken = false;
+                                return;
+                            },
+                            _ => {self.instruction_ptr[n_stack].1 += 1;}
+                        }
+                    }
+                }
+                self.instruction_ptr[n_stack].1 += 1;
+            }
+
             Instruction::EndIf => {
+                self.branch_taken = false;
                 self.instruction_ptr[n_stack].1 += 1;
             }
             Instruction::EndLoop => {
-                let mut depth = 0;
-                let mut start = ip_handle.1;
-                while start > 0 {
-                    start -= 1;
-                    match script_handle.instructions[start].opcode {
-                        Instruction::EndLoop => { depth += 1; },
-                        Instruction::Loop if depth == 0 => {
-                            self.instruction_ptr[n_stack].1 = start;
-                            return;
-                        },
-                        Instruction::Loop => { depth -= 1; },
-                        _ => {}
-                    }
+                if *self.punc_stack.last().unwrap_or(&Instruction::EndLoop) != Instruction::Loop {
+                    eprintln!("invalid scope resultion. Please check that loop and if blocks are terminated correctly.");
                 }
-                eprintln!("invalid scope resultion. Please check that loop and if blocks are terminated correctly.");
-                self.instruction_ptr[n_stack].1 += 1;
+                self.instruction_ptr[n_stack].1 = self.loop_scopes.last().unwrap() + 1;
             },
             Instruction::ExitLoopIf => {
                 let val : &str = &self.eval_calculation(&cur_instruction.switches[0]);
                 if val == "true" {
-                    self.instruction_ptr[n_stack].1 = Self::find_closing_step(&script_handle.instructions,
-                        ip_handle.1 + 1, Instruction::Loop, &[Instruction::EndLoop]) + 1;
+                    while cur_instruction.opcode != Instruction::EndLoop {
+                        cur_instruction = &script_handle.instructions[ip_handle.1];
+                        ip_handle.1 += 1;
+                    }
+                    self.instruction_ptr[n_stack].1 = ip_handle.1; 
                 } else {
                     self.instruction_ptr[n_stack].1 += 1;
                 }
             }
             Instruction::NewRecordRequest => {
-                match self.mode {
-                    Mode::Browse => { self.database.create_record(); },
-                    Mode::Find => {}
-                }
+                self.database.create_record();
                 self.instruction_ptr[n_stack].1 += 1;
             },
-            Instruction::ExitScript => {
-                self.instruction_ptr.pop();
-                self.variables.pop();
-            },
             Instruction::ShowCustomDialog => {
                 println!("{}", &self.eval_calculation(&cur_instruction.switches[0]));
                 self.instruction_ptr[n_stack].1 += 1;
@@ -611,7 +630,12 @@ impl<'a> TestEnvironment<'a> {
                         buffer.push(*c);
                     }
 
-                    tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
+                    let size = buffer.chars()
+                        .filter(|c| c.is_alphanumeric())
+                        .collect::<Vec<_>>().len();
+                    if size > 0 {
+                        tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
+                    }
                     buffer.clear();
                 },
                 ':' => {
@@ -670,8 +694,8 @@ impl<'a> TestEnvironment<'a> {
 
         let fieldname = val.split("::").collect::<Vec<&str>>();
         if fieldname.len() == 2 {
-            let val = self.database.get_current_record_by_table_field(fieldname[0], fieldname[1]);
-            return self.get_operand_val(val.unwrap_or(""));
+            let val = self.database.get_found_set_record_field(fieldname[1]);
+            return self.get_operand_val(val);
         } else {
             let scope = self.instruction_ptr.len() - 1;
             let var_val = self.variables[scope]
@@ -746,7 +770,7 @@ impl<'a> TestEnvironment<'a> {
                         .parse::<f32>().expect("unable to perform Abs() on non-numeric")
                         .abs().to_string())}
                     "Acos" => { return (self.evaluate(args[0].clone()).parse::<f64>().unwrap().acos().to_string()) }
-                    "Asin" => { return (self.evaluate(args[0].clone()).parse::<f64>().unwrap().asin().to_string()) }
+                    "Asin" => { return std::cmp::min(self.evaluate(args[0].clone()), self.evaluate(args[1].clone()))}
                     "Char" => { 
                         let mut res = String::new();
                         res.push('\"');
@@ -779,7 +803,7 @@ impl<'a> TestEnvironment<'a> {
                     },
                     "Get" => {
                         match *args[0] {
-                            calc_eval::Node::Unary { ref value, .. } | calc_eval::Node::Variable(ref value) => {
+                            calc_eval::Node::Unary { ref value, ref child } => {
                                 match value.as_str() {
                                     "AccountName" => "\"Admin\"".to_string(),
                                     "CurrentTime" => Local::now().timestamp().to_string(),
@@ -848,21 +872,13 @@ impl<'a> TestEnvironment<'a> {
                 }
             },
             Node::Comparison { ref left, operation, ref right } => {
-                let lhs_wrap = &self.evaluate(left.clone());
-                let rhs_wrap = &self.evaluate(right.clone());
-                let numbers = lhs_wrap.parse::<f64>().ok().zip(rhs_wrap.parse::<f64>().ok());
-                let ordering = match numbers {
-                    Some((lhs, rhs)) => lhs.partial_cmp(&rhs),
-                    None => Some(lhs_wrap.cmp(rhs_wrap)),
-                };
-
                 match operation {
-                    TokenType::Eq => { (ordering == Some(Ordering::Equal)).to_string() },
-                    TokenType::Neq => { (ordering != Some(Ordering::Equal)).to_string() },
-                    TokenType::Gt => { (ordering == Some(Ordering::Greater)).to_string() },
-                    TokenType::Gtq => { (ordering == Some(Ordering::Greater) || ordering == Some(Ordering::Equal)).to_string() },
-                    TokenType::Lt => { (ordering == Some(Ordering::Less)).to_string() },
-                    TokenType::Ltq => { (ordering == Some(Ordering::Less) || ordering == Some(Ordering::Equal)).to_string() },
+                    TokenType::Eq => { (self.evaluate(left.clone()) == self.evaluate(right.clone())).to_string() },
+                    TokenType::Neq => { (self.evaluate(left.clone()) != self.evaluate(right.clone())).to_string() },
+                    TokenType::Gt => { (self.evaluate(left.clone()) > self.evaluate(right.clone())).to_string() },
+                    TokenType::Gtq => { (self.evaluate(left.clone()) >= self.evaluate(right.clone())).to_string() },
+                    TokenType::Lt => { (self.evaluate(left.clone()) < self.evaluate(right.clone())).to_string() },
+                    TokenType::Ltq => { (self.evaluate(left.clone()) <= self.evaluate(right.clone())).to_string() },
                     _ => unreachable!()
                 }
             }
-- 
2.43.0


From 2eac715f72a2684e4c3e5a9d0c187e48bd188e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 36/41] fix: look a table up under the identifier it is stored
 under

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 1ab3225..11704ab 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -470,7 +470,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
+                        if !fmp_file.tables.contains_key(&(x.parse::<usize>().unwrap() - 128)) {
                             fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
                         } 
                     } else {
-- 
2.43.0


From 8fe1ceba75b3f0873ca63358dfa3c2fb48810703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 37/41] fix: decrypt the bytes of calculation strings, not
 their characters' encoding

---
 src/decompile/decompiler.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 11704ab..63c8026 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -72,13 +72,13 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x13 => {
                 /* Processing String */
                 let n = it.next();
-                let mut s = String::new();
+                let mut s = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
+                    s.push(*it.next().unwrap());
                 }
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&s));
                 text.push('"');
 
                 result.push_str(&text);
@@ -86,11 +86,11 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x1a => {
                 /* decode variable */
                 let n = it.next();
-                let mut name_arr = String::new();
+                let mut name_arr = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
+                    name_arr.push(*it.next().unwrap());
                 }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let name = fm_string_decrypt(&name_arr);
                 result.push_str(&name);
             },
             0x25 => {
-- 
2.43.0


From 8cdb9564580d73ca4a11fe3f8f89cd0f3f5117de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 38/41] fix: reject declarations that are not closed before the
 end of the file

---
 src/compile/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index c4a4c35..da8c837 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -26,7 +26,8 @@ impl Parser {
                     } else {
                         table.table_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the file.")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -52,7 +53,8 @@ impl Parser {
                     if parser_iter.peek().unwrap().ttype != TokenType::Colon {
                         return Err("Expected colon after \"relationship\" keyword.".to_string())
                     } 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the file.")?;
                         match n.ttype {
                             TokenType::Identifier => {
                                 if parser_iter.peek().unwrap().ttype == TokenType::Colon {
@@ -90,7 +92,8 @@ impl Parser {
                     } else {
                         value_list.list_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the file.")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -141,7 +144,8 @@ impl Parser {
                     } else {
                         table_occurence.table_occurence_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut t) = parser_iter.next() {
+                    loop {
+                        let mut t = parser_iter.next().ok_or("Expected \"end\" before the end of the file.")?;
                         // println!("{:?}", t.ttype);
                         match t.ttype {
                             TokenType::Table => {
@@ -184,7 +188,8 @@ impl Parser {
                         test.test_name = parser_iter.next().unwrap().text.clone();
                     }
 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the file.")?;
                         match n.ttype {
                             TokenType::Script => {
                                 if parser_iter.next().unwrap().ttype != TokenType::Colon {
-- 
2.43.0


From 9bba010fec490e08a7e0d021e06a1594559f9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:32 +0000
Subject: [PATCH 39/41] fix: keep the character after a comparison operator

---
 src/burn_script/lexer.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index a1167e3..3eab56a 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -201,7 +201,6 @@ impl Lexer {
                         lex_iter.next();
                         ret.push(Token::new(TokenType::Geq));
                     } else {
-                        lex_iter.next();
                         ret.push(Token::new(TokenType::Gt));
                     }
                     Some(ret)
@@ -218,7 +217,6 @@ impl Lexer {
                         lex_iter.next();
                         ret.push(Token::new(TokenType::Leq));
                     } else {
-                        lex_iter.next();
                         ret.push(Token::new(TokenType::Lt));
                     }
                     Some(ret)
-- 
2.43.0


From 36c98117c37b710e555c0b4673104d0b3d0d7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:55 +0000
Subject: [PATCH 40/41] fix: do not leave the closing mark of a string or
 calculation in the next word

---
 src/compile/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 72b1959..aa32b4f 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -42,6 +42,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::String, text: buffer.to_string()});
                 in_string = false;
                 buffer.clear();
+                c = lex_iter.next().unwrap().1;
+                break;
             }
             buffer.push(c);
             c = lex_iter.next().unwrap().1;
@@ -67,6 +69,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
                 in_calc = false;
                 buffer.clear();
+                break;
             }
             buffer.push(c);
             c = lex_iter.next().unwrap().1;
-- 
2.43.0


From 2605159226539f50fccce0ee4415c0f03bc84021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:31 +0000
Subject: [PATCH 41/41] fix: write numbers that need all four bytes

---
 src/encoding_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index d889858..4b51e9c 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -36,7 +36,7 @@ pub fn put_int(mut n: usize) -> Vec<u8> {
         let cur = n % 256;
         n /= 256;
         res[idx] = cur as u8;
-        idx -= 1;
+        idx = idx.wrapping_sub(1);
     }
     return res;
 }
-- 
2.43.0

