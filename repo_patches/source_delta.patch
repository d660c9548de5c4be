From 83940596c3a444b8b449bdd9ffab88db80dabf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 01/29] fix: keep file components ordered so that output does
 not depend on the hash seed

---
 src/file.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 3c31271..69321c3 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -2,18 +2,18 @@ use crate::component;
 
 use serde::{Deserialize, Serialize};
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Serialize, Deserialize)]
 pub struct FmpFile {
     pub name: String,
-    pub tables: HashMap<usize, component::FMComponentTable>,
-    pub relationships: HashMap<usize, component::FMComponentRelationship>,
-    pub layouts: HashMap<usize, component::FMComponentLayout>,
-    pub value_lists: HashMap<usize, component::FMComponentValueList>,
-    pub scripts: HashMap<usize, component::FMComponentScript>,
-    pub table_occurrences: HashMap<usize, component::FMComponentTableOccurence>,
-    pub data_sources: HashMap<usize, component::FMComponentDataSource>,
+    pub tables: BTreeMap<usize, component::FMComponentTable>,
+    pub relationships: BTreeMap<usize, component::FMComponentRelationship>,
+    pub layouts: BTreeMap<usize, component::FMComponentLayout>,
+    pub value_lists: BTreeMap<usize, component::FMComponentValueList>,
+    pub scripts: BTreeMap<usize, component::FMComponentScript>,
+    pub table_occurrences: BTreeMap<usize, component::FMComponentTableOccurence>,
+    pub data_sources: BTreeMap<usize, component::FMComponentDataSource>,
     pub tests: Vec<component::FMComponentTest>,
 }
 
@@ -21,13 +21,13 @@ impl FmpFile {
     pub fn new() -> Self {
         Self {
             name: String::new(),
-            tables: HashMap::new(),
-            relationships: HashMap::new(),
-            layouts: HashMap::new(),
-            value_lists: HashMap::new(),
-            scripts: HashMap::new(),
-            table_occurrences: HashMap::new(),
-            data_sources: HashMap::new(),
+            tables: BTreeMap::new(),
+            relationships: BTreeMap::new(),
+            layouts: BTreeMap::new(),
+            value_lists: BTreeMap::new(),
+            scripts: BTreeMap::new(),
+            table_occurrences: BTreeMap::new(),
+            data_sources: BTreeMap::new(),
             tests: vec![],
         }
     }
-- 
2.43.0


From 63f947a3f35a0c899d4dae51b5de6ec583efc6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 02/29] fix: encode_text reinterpreted a vector of pairs past
 its allocation and aborted

---
 src/dbcharconv.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..ad2251b 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -35,15 +35,10 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
+    text.chars()
         .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
-    }
-
+        .flat_map(|(high, low)| [high, low])
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From ba689556d32470861846e60e8f7c7c2d6eecc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 03/29] fix: a damaged block count made the decompiler allocate
 without bound

---
 src/decompile/decompiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..a387e66 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -233,7 +233,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     // println!("{:?} == {}", &buffer[offset+8..offset+12], first.next);
     let n_blocks = first.next;
 
-    sectors.resize(n_blocks + 1, sector::Sector { 
+    /* The count comes from the file, so it cannot be trusted to fit in memory. */
+    sectors.resize(n_blocks.min(buffer.len() / SECTOR_SIZE) + 1, sector::Sector { 
         deleted: false, 
         level: 0,
         previous: 0,
-- 
2.43.0


From 976ecb6aa436f067712ef966b1c79f315e94408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/29] fix: a cyclic block chain made the decompiler loop
 forever

---
 src/decompile/decompiler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index a387e66..5aaae48 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -250,7 +250,10 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut data_source_names = VecDeque::<String>::new();
 
 
+    let mut visited = HashSet::<usize>::new();
+
     while idx != 0 {
+        assert!(visited.insert(idx), "Block chain contains a cycle.");
         let start = idx * SECTOR_SIZE;
         let bound = start + SECTOR_SIZE;
         offset = start;
-- 
2.43.0


From 981e338f7c759bf01331f87ff2ecae53cc836de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 05/29] fix: an unknown 0x0F chunk made the decompiler loop
 forever

---
 src/chunk.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..efe5781 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,8 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                return Err("Invalid Opcode for Chunk.");
             }
         },
         0x10 => {
-- 
2.43.0


From cb53b0b2502f4bebfae901471d3b38fd6aaf2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/29] fix: skip the reference of a 0x1F chunk before reading
 its length

---
 src/chunk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index efe5781..53532a5 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -220,6 +220,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
-- 
2.43.0


From 52e77d6d738024682508beb30f2d349b22ebf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/29] fix: report a failure to write header.log

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 5aaae48..63a972b 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -216,7 +216,7 @@ pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut buffer = Vec::<u8>::new();
     file.read_to_end(&mut buffer).expect("Unable to read file.");
 
-    write("header.log", buffer);
+    write("header.log", buffer).expect("Unable to write to file.");
     decompile_fmp12_file(path)
 }
 
-- 
2.43.0


From bf61ddbc41f7ec1967b1f57aa32bf8135b307c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/29] fix: write the compiled file atomically and durably

---
 src/compile/assembler.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..3bc6c18 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -1,6 +1,6 @@
 use crate::{dbcharconv::encode_text, encoding_util::{fm_string_encrypt, get_int, get_path_int, put_int, put_path_int}, FmpFile};
 
-use std::{fs::{write, File}, io::Read, path::Path};
+use std::{fs::{remove_file, rename, write, File}, io::{Read, Write}, path::Path};
 use super::header::HEADER_INIT;
 use crate::encoding_util;
 use crate::dbcharconv;
@@ -311,7 +311,18 @@ impl<'a> Assembler<'a> {
     }
 
     pub fn emit_assembly(&self, filename: &str) {
-        write(format!("{}.fmp12", filename), &self.buffer).expect("unable to write to file.");
+        /* Replace the target in one step, so that it is never seen half written. */
+        let target = format!("{}.fmp12", filename);
+        let tmp = format!("{}.{}.tmp", target, std::process::id());
+        let mut out = File::create(&tmp).expect("unable to write to file.");
+        let written = out.write_all(&self.buffer)
+            .and_then(|_| out.sync_all())
+            .and_then(|_| rename(&tmp, &target))
+            .and_then(|_| File::open(".")?.sync_all());
+        if let Err(e) = written {
+            let _ = remove_file(&tmp);
+            panic!("unable to write to file: {}", e);
+        }
     }
 }
 
-- 
2.43.0


From a0aa1b6200fce49f2d07ea908cd8d6f491bbfbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 09/29] fix: number table occurrences as the file does

---
 src/decompile/decompiler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 63a972b..96d6ecf 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -250,6 +250,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut data_source_names = VecDeque::<String>::new();
 
 
+    let mut occurrence_id = 0;
     let mut visited = HashSet::<usize>::new();
 
     while idx != 0 {
@@ -275,7 +276,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "17", "5", "0", "251"] => {
                     if chunk.ctype == ChunkType::DataSimple {
                         let mut tmp = component::FMComponentRelationship::new();
-                        tmp.table1 = fmp_file.table_occurrences.len() as u16;
+                        tmp.table1 = occurrence_id as u16;
                         tmp.table2 = chunk.data.unwrap()[2] as u16;
                         if fmp_file.relationships.iter()
                             .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
@@ -286,6 +287,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 },
                 /* Examining table occurences */
                 ["3", "17", "5", "0", ..] => {
+                    if chunk.ctype == ChunkType::PathPush && path.len() == 4 {
+                        occurrence_id = get_int(&chunk.data.unwrap()[1..]);
+                    }
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     match chunk.ref_simple {
                         Some(2) => {
@@ -299,11 +303,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
                             let source = chunk.data.unwrap()[2];
                             println!("{:?}", source);
-                            fmp_file.table_occurrences.insert(fmp_file.table_occurrences.len() + 1, tmp);
+                            fmp_file.table_occurrences.insert(occurrence_id, tmp);
                         }
                         Some(16) => {
                             fmp_file.table_occurrences
-                                .get_mut(&(fmp_file.table_occurrences.len())).unwrap()
+                                .get_mut(&occurrence_id).unwrap()
                                 .table_occurence_name = s;
                         },
                         Some(129) => {
-- 
2.43.0


From 262f188be0215248775e67aeff2a729bb2a9b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 10/29] fix: number relationships as the file does

---
 src/decompile/decompiler.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 96d6ecf..1f594e8 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -278,11 +278,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                         let mut tmp = component::FMComponentRelationship::new();
                         tmp.table1 = occurrence_id as u16;
                         tmp.table2 = chunk.data.unwrap()[2] as u16;
-                        if fmp_file.relationships.iter()
-                            .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
-                            .collect::<Vec<_>>().len() == 0 {
-                            fmp_file.relationships.insert(fmp_file.relationships.len() + 1, tmp);
-                        }
+                        /* Both ends list the relationship, under the same number. */
+                        let number = get_path_int(&chunk.data.unwrap()[4..]);
+                        fmp_file.relationships.entry(number).or_insert(tmp);
                     }
                 },
                 /* Examining table occurences */
-- 
2.43.0


From 2de6ef7d2706142d8c96cfc23531293da78100cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 11/29] fix: keep what is known of a table, field or layout
 that continues in another block

---
 src/decompile/decompiler.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 1f594e8..9a9d327 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -360,10 +360,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examing layouts */
                 ["4", "1", "7", x, ..] => {
                     if chunk.ctype == ChunkType::PathPush {
-                        fmp_file.layouts.insert(
-                            x.parse::<usize>().unwrap(),
-                            component::FMComponentLayout::new()
-                            );
+                        fmp_file.layouts
+                            .entry(x.parse::<usize>().unwrap())
+                            .or_insert_with(component::FMComponentLayout::new);
                         continue;
                     } else {
                         match chunk.ref_simple {
@@ -402,8 +401,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             }
                             fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
                                 .unwrap().fields
-                                    .insert(y.parse::<usize>().unwrap() as u16, 
-                                            component::FMComponentField::new());
+                                    .entry(y.parse::<usize>().unwrap() as u16)
+                                    .or_insert_with(component::FMComponentField::new);
                         } else {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                             // match chunk.ref_simple.unwrap_or(0) {
@@ -476,9 +475,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
-                            fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
-                        } 
+                        fmp_file.tables
+                            .entry(x.parse::<usize>().unwrap() - 128)
+                            .or_insert_with(component::FMComponentTable::new);
                     } else {
                         match chunk.ref_simple.unwrap_or(0) {
                             metadata_constants::COMPONENT_NAME => { 
-- 
2.43.0


From 363568280cfd5a3fdb610d369997f6874b507eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 12/29] fix: take the name of a data source from the data
 source, not from the sorted name index

---
 src/decompile/decompiler.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 9a9d327..de912c5 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -247,8 +247,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
-    let mut data_source_names = VecDeque::<String>::new();
-
 
     let mut occurrence_id = 0;
     let mut visited = HashSet::<usize>::new();
@@ -690,16 +688,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // } else {
                     // }
                 },
-                /* Variable length encoded names of data sources. */
-                ["32", "1", "1"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                            let s = dbcharconv::decode_bytes(chunk.data.unwrap());
-                            data_source_names.push_back(s);
-                        }
-                        _ => {}
-                    }
-                },
                 /* Identifiers for data sources. */
                 ["32", "1", "3"] => {
                     match chunk.ctype {
@@ -711,17 +699,19 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Storage for data sources, including path */
                 ["32", "5", ds, ..] => {
                     match chunk.ctype {
-                        ChunkType::PathPush => {
-                            let idx = get_int(chunk.data.unwrap());
-                            let mut tmp = FMComponentDataSource::new();
-                            let front = data_source_names.pop_front();
-                            if front.is_some() {
-                                tmp.source_name = front.unwrap();
-                                fmp_file.data_sources.insert(idx, tmp);
-                            }
+                        ChunkType::PathPush if path.len() == 3 => {
+                            fmp_file.data_sources
+                                .entry(ds.parse::<usize>().unwrap())
+                                .or_insert_with(FMComponentDataSource::new);
                         }
                         ChunkType::RefSimple => {
                             match chunk.ref_simple.unwrap() {
+                                metadata_constants::COMPONENT_NAME => {
+                                    let s = fm_string_decrypt(chunk.data.unwrap());
+                                    if let Some(handle) = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap()) {
+                                        handle.source_name = s;
+                                    }
+                                },
                                 130 => {
                                     if chunk.code == 0x6 {
                                         /* Path is stored here */
-- 
2.43.0


From cb4d21d0f20ce58dd3fc280d658def7f97b61b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 13/29] fix: steps of a long script were inserted at their
 number and panicked

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index de912c5..7cded2f 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -612,7 +612,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     };
                                     let handle = &mut fmp_file.scripts
                                         .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                        handle.insert(n, tmp);
+                                        handle.push(tmp);
                                     }
                                 }
                             }
-- 
2.43.0


From 42489b2522667f2c687dd83ae26b0a890f957dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 14/29] fix: decode segmented script code before the step
 details that refer to it

---
 src/decompile/decompiler.rs | 63 +++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 7cded2f..51f4599 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -211,6 +211,30 @@ fn print_chunk(chunk: &chunk::Chunk, path: &Vec<String>) {
     }
 }
 
+/* Decode the steps of a script whose code is stored in segments. */
+fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usize, Vec<u8>>) {
+    let instructions: Vec<u8> = segments.into_values().flatten().collect();
+
+    for instr in instructions.chunks_exact(28) {
+        let op = &INSTRUCTIONMAP[instr[21] as usize];
+        if op.is_some() {
+            let mut switch: Vec<String> = vec![];
+            match op {
+                Some(Instruction::PerformScript) => {
+                    switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
+                },
+                _ => {}
+            }
+            let tmp = ScriptStep {
+                opcode: op.clone().unwrap(),
+                index: get_path_int(&instr[2..instr[0] as usize + 1]),
+                switches: switch,
+            };
+            fmp_file.scripts.get_mut(&script).unwrap().instructions.push(tmp);
+        }
+    }
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -499,6 +523,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             .insert(n, chunk.data.unwrap().to_vec());
                     }
                 },
+                /* The code of a script is complete once its step details begin. */
+                ["17", "5", script, "5"] => {
+                    let script = script.parse().unwrap();
+                    if let Some(segments) = script_segments.remove(&script) {
+                        assemble_script(&mut fmp_file, script, segments);
+                    }
+                },
                 ["17", "5", script, "5", step, "128", "5"] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
@@ -741,36 +772,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
         }
         idx = sectors[idx].next;
     }
-    /* Assemble scripts */
-    for (script, segments) in &mut script_segments {
-        let mut instructions = Vec::<u8>::new();
-        for s in segments {
-            instructions.append(s.1);
-        }
-
-        for instr in instructions.chunks(28) {
-            if instr.len() < 28 {
-                continue;
-            }
-            let op = &INSTRUCTIONMAP[instr[21] as usize];
-            if op.is_some() {
-                let mut switch: Vec<String> = vec![];
-                match op {
-                    Some(Instruction::PerformScript) => {
-                        switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
-                    },
-                    _ => {}
-                }
-                let tmp = ScriptStep {
-                    opcode: op.clone().unwrap(),
-                    index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
-                    switches: switch,
-                };
-                let handle = fmp_file.scripts.get_mut(&script).unwrap();
-                handle.instructions.insert(handle.instructions.len(), tmp);
-            }
-
-        }
+    for (script, segments) in script_segments {
+        assemble_script(&mut fmp_file, script, segments);
     }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
-- 
2.43.0


From 88cde24cbbfc6b6246d3575cd8ee8e44b1fd5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 15/29] fix: a relationship replaced the one declared before it

---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From 3040ddf161920a13c537c4bee3ee4c1307732411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 16/29] fix: keep the letter h in data source paths

Only an 'h' that completes the pair [65, 50] belongs to a separator; every
other one is part of the path.
---
 src/component.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/component.rs b/src/component.rs
index a947d06..275cbea 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -233,14 +233,15 @@ impl SourceFileLocation {
         let path_len = body[path_start] as usize;
         let path_bytes = &body[path_start+3..path_start+3+path_len];
 
-        let path : Vec<_> = path_bytes.into_iter()
-            .map(|b| vec![b])
-            .map(|b| match b[..] {
-                [50] => { vec![] }
-                [65] => { vec![96 as u8]},
-                [218] => { vec![(117 as u8)] },
-                [219] => { vec![(116 as u8), (116 as u8)] },
-                _ => b.into_iter().map(|n| *n).collect()
+        // 50 is an 'h' of its own unless it completes the pair [65, 50].
+        let path : Vec<_> = path_bytes.iter()
+            .enumerate()
+            .map(|(i, b)| match b {
+                50 if i > 0 && path_bytes[i - 1] == 65 => { vec![] }
+                65 => { vec![96u8]},
+                218 => { vec![117u8] },
+                219 => { vec![116u8, 116u8] },
+                n => vec![*n]
             })
             .flatten()
             .collect();
-- 
2.43.0


From 9814ed20cde1d7319525d8915c7d0c38258a2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 17/29] fix: attributes of nested directories are not the
 object's own

Occurrences, layouts and data sources took attributes stored in directories
below them for their own, and a name found before the object itself made the
decompiler panic.
---
 src/decompile/decompiler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 51f4599..aa78cb3 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -306,7 +306,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     }
                 },
                 /* Examining table occurences */
-                ["3", "17", "5", "0", ..] => {
+                ["3", "17", "5", "0"] => {
                     if chunk.ctype == ChunkType::PathPush && path.len() == 4 {
                         occurrence_id = get_int(&chunk.data.unwrap()[1..]);
                     }
@@ -380,7 +380,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                 },
                 /* Examing layouts */
-                ["4", "1", "7", x, ..] => {
+                ["4", "1", "7", x] => {
                     if chunk.ctype == ChunkType::PathPush {
                         fmp_file.layouts
                             .entry(x.parse::<usize>().unwrap())
@@ -728,7 +728,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     }
                 }
                 /* Storage for data sources, including path */
-                ["32", "5", ds, ..] => {
+                ["32", "5", ds] => {
                     match chunk.ctype {
                         ChunkType::PathPush if path.len() == 3 => {
                             fmp_file.data_sources
-- 
2.43.0


From 964dff6b94319d4e598c21be55e90088e78ce66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 18/29] fix: run every test in an environment of its own

---
 src/main.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d8732f4..1d00181 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,6 +18,18 @@ mod fm_script_engine;
 mod testing;
 mod dbcharconv;
 
+/* Every test gets an environment of its own, so that nothing of one is visible to the next. */
+fn run_tests(file: &mut FmpFile) {
+    let tests = std::mem::take(&mut file.tests);
+    for test in &tests {
+        file.tests = vec![test.clone()];
+        let mut env = testing::test::TestEnvironment::new(file);
+        env.generate_test_environment();
+        env.run_tests_with_cleanup();
+    }
+    file.tests = tests;
+}
+
 fn main() {
 
     let args = cli::CLI::parse();
@@ -55,9 +67,7 @@ fn main() {
             let json = serde_json::to_string_pretty(&file).expect("Unable to generate json file");
             write("inspect_output/test_compile", json).expect("Unable to write to file.");
             if args.no_testing == false && !file.tests.is_empty() {
-                let mut env = testing::test::TestEnvironment::new(&file);
-                env.generate_test_environment();
-                env.run_tests_with_cleanup();
+                run_tests(&mut file);
             }
             let mut assembler = Assembler::new(&file);
             assembler.assemble_fmp12(&file);
@@ -85,9 +95,7 @@ fn main() {
             file.layouts.extend(tmp.layouts);
             file.tests.extend(tmp.tests);
             if args.no_testing == false && !file.tests.is_empty() {
-                let mut env = testing::test::TestEnvironment::new(&file);
-                env.generate_test_environment();
-                env.run_tests_with_cleanup();
+                run_tests(&mut file);
             }
 
         }
-- 
2.43.0


From 624b297fc9cfd6b500a2c13920a05f6035a81723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 19/29] fix: the script named by a decompiled perform script
 step is a text literal, as tests expect

---
 src/decompile/decompiler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index aa78cb3..747e923 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -221,7 +221,7 @@ fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usi
             let mut switch: Vec<String> = vec![];
             match op {
                 Some(Instruction::PerformScript) => {
-                    switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
+                    switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
                 },
                 _ => {}
             }
@@ -630,7 +630,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     match oc {
                                         Some(Instruction::PerformScript) => {
                                             switch.push(
-                                                fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
+                                                format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
                                             );
                                         },
                                         _ => {}
@@ -660,7 +660,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         match oc {
                                             Some(Instruction::PerformScript) => {
                                                 switch.push(
-                                                    fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
+                                                    format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
                                                 );
                                             },
                                             _ => {}
-- 
2.43.0


From 7646a7697a89a745d86398d11c4dd26fb102eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 20/29] fix: the compiled image was one byte short of whole
 blocks

---
 src/compile/assembler.rs | 2 +-
 src/compile/header.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index 3bc6c18..7b76af1 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -141,7 +141,7 @@ impl<'a> Assembler<'a> {
 
     pub fn append_blank_chunk(&mut self) {
         self.buffer.resize(self.buffer.len() + 4096, 0);
-        self.idx = self.buffer.len() - 4095;
+        self.idx = self.buffer.len() - 4096;
         self.local_idx = 0;
     }
 
diff --git a/src/compile/header.rs b/src/compile/header.rs
index b736c7e..75d1dbc 100644
--- a/src/compile/header.rs
+++ b/src/compile/header.rs
@@ -133,4 +133,4 @@ pub const HEADER_INIT : &[u8] = &[
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
-32, 32, 32, 32, 32, 32, 32, 13, 67, 82, 58, 73, 70, 65];
+32, 32, 32, 32, 32, 32, 32, 13, 67, 82, 58, 73, 70, 65, 69];
-- 
2.43.0


From 5955137786124bacd11fc6515dd5096cc1f7ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 21/29] fix: the header of a compiled image kept the rest of
 the template's file name

---
 src/compile/assembler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index 7b76af1..ddded6b 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -283,7 +283,8 @@ impl<'a> Assembler<'a> {
 
         self.buffer.extend(HEADER_INIT);
 
-        let name_header = schema.name.clone() + "/";
+        /* The name ends with a carriage return and covers the one in the template. */
+        let name_header = format!("{:<7}", schema.name.clone() + "/\r");
         self.buffer.splice(3082..3082+name_header.len(), name_header.as_bytes().to_vec());
         // println!("{} == {:?}", name_header, &self.buffer[3082..3082+name_header.len()]);
 
-- 
2.43.0


From 150c4e96e338bd2870a311a11598ca982368d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 22/29] fix: a compiled image stored its tables in a directory
 nobody reads

---
 src/compile/assembler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index ddded6b..12b4f6a 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -186,6 +186,7 @@ impl<'a> Assembler<'a> {
         self.emit_simple_kv(216, &fm_string_encrypt("hello".to_string()));
         self.emit_simple_kv_e(129, &vec![59, 62, 55, 51, 52]);
         self.emit_simple_kv_e(130, &vec![59, 62, 55, 51, 52]);
+        self.pop_directory();
 
         self.push_directory(5);
 
@@ -195,7 +196,6 @@ impl<'a> Assembler<'a> {
         }
         self.pop_directory();
         self.pop_directory();
-        self.pop_directory();
     }
 
     pub fn emit_relationship_data(&mut self) {
-- 
2.43.0


From b2ec625305d5f7062b246923efc05934eb54a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 23/29] fix: a compiled image did not name its tables

---
 src/compile/assembler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index 12b4f6a..de3b604 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -192,6 +192,7 @@ impl<'a> Assembler<'a> {
 
         for t in &self.file.tables {
             self.push_directory(128 + *t.0 as u32);
+            self.emit_simple_kv(16, &fm_string_encrypt(t.1.table_name.clone()));
             self.pop_directory();
         }
         self.pop_directory();
-- 
2.43.0


From 91eb6a9a4a131899a7b36b1556eac34139456964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:50 +0000
Subject: [PATCH 24/29] fix: line breaks, tabs and trailing spaces in step
 arguments became part of names

---
 src/burn_script/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..0dae7c9 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -66,11 +66,11 @@ impl Lexer {
                     let mut in_string = false;
                     while let Some(c) = &lex_iter.next() {
                         match c {
-                            ' ' => {
-                                if !in_string && buffer.is_empty() {
+                            x if x.is_whitespace() && !in_string => {
+                                if buffer.is_empty() {
                                     continue;
                                 } else {
-                                    buffer.push(*c);
+                                    buffer.push(' ');
                                 }
                             }
                             '\"' => {
@@ -79,7 +79,7 @@ impl Lexer {
                             }
                             ')' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                     break;
                                 } else {
@@ -93,7 +93,7 @@ impl Lexer {
                             }
                             ',' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                 } else {
                                     buffer.push(*c);
-- 
2.43.0


From 67837d548128f4d4d72926dc0848a73fdbc2196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:08 +0000
Subject: [PATCH 25/29] fix: brackets and commas in text literals ended steps
 and scripts

---
 src/burn_script/lexer.rs | 6 +++---
 src/compile/lexer.rs     | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 0dae7c9..0a4f090 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -77,7 +77,7 @@ impl Lexer {
                                 in_string = !in_string;
                                 buffer.push(*c);
                             }
-                            ')' => {
+                            ')' if !in_string => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
@@ -87,11 +87,11 @@ impl Lexer {
                                     stack -= 1;
                                 }
                             },
-                            '(' => {
+                            '(' if !in_string => {
                                 stack += 1;
                                 buffer.push(*c);
                             }
-                            ',' => {
+                            ',' if !in_string => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..7c60c0b 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -47,8 +47,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_literal = false;
         while in_script == true {
-            if c == ']' {
+            if c == '"' {
+                in_literal = !in_literal;
+            }
+            if c == ']' && !in_literal {
                 list.push(Token { ttype: TokenType::Script, text: buffer.to_string()});
                 in_script = false;
                 buffer.clear();
-- 
2.43.0


From 81368cf5808efd1dd7c69d24c08a235fd00488f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:23 +0000
Subject: [PATCH 26/29] fix: a second source or image was merged into the
 schema of the first

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 1d00181..f850447 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -46,8 +46,12 @@ fn main() {
         }
     }
 
+    /* Every source or image is a schema of its own, tested by the tests given. */
+    let tests = std::mem::take(&mut file.tests);
+
     if args.op.compile.is_some() {
         for f in args.op.compile.unwrap() {
+            file = FmpFile { tests: tests.clone(), ..FmpFile::new() };
             let input = Path::new(&f);
             let mut code = File::open(input).expect("Unable to open file.");
             let mut text = String::new();
@@ -76,6 +80,7 @@ fn main() {
         }
     } else if args.op.decompile.is_some() {
         for f in args.op.decompile.unwrap() {
+            file = FmpFile { tests: tests.clone(), ..FmpFile::new() };
             let path = f;
             let input = Path::new(&path);
             let tmp: FmpFile;
-- 
2.43.0


From ed9f9ba62c746e2475862a821a33d71d5f0752db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:27 +0000
Subject: [PATCH 27/29] fix: names such as inf and nan are names, not numbers

---
 src/burn_script/lexer.rs | 3 ++-
 src/compile/lexer.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 0a4f090..3d6b5cf 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -27,7 +27,8 @@ impl Lexer {
                 "else" => Token::new(TokenType::Else),
                 _ => {
                     let n = b.parse::<f64>();
-                    if n.is_ok() {
+                    /* Words such as "inf" and "nan" are names, although they parse as numbers. */
+                    if n.is_ok() && !b.starts_with(char::is_alphabetic) {
                         Token::with_value(TokenType::NumericLiteral, b)
                     } else {
                         Token::with_value(TokenType::Identifier, b)
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 7c60c0b..8343e07 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -21,7 +21,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             "end" => Ok(Token::new(TokenType::End)),
             _ => {
                 let n = b.parse::<f64>();
-                if n.is_ok() {
+                /* Words such as "inf" and "nan" are names, although they parse as numbers. */
+                if n.is_ok() && !b.starts_with(char::is_alphabetic) {
                     Ok(Token::with_value(TokenType::NumericLiteral, n.unwrap().to_string()))
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
-- 
2.43.0


From ecda2211cc1f9fec6bbfd5a7b90307711a687822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 28/29] fix: texts and variables outside of ASCII in stored
 calculations are decoded

---
 src/decompile/decompiler.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 747e923..7e3dfed 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -72,13 +72,13 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x13 => {
                 /* Processing String */
                 let n = it.next();
-                let mut s = String::new();
+                let mut s = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
+                    s.push(*it.next().unwrap());
                 }
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&s));
                 text.push('"');
 
                 result.push_str(&text);
@@ -86,11 +86,11 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x1a => {
                 /* decode variable */
                 let n = it.next();
-                let mut name_arr = String::new();
+                let mut name_arr = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
+                    name_arr.push(*it.next().unwrap());
                 }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let name = fm_string_decrypt(&name_arr);
                 result.push_str(&name);
             },
             0x25 => {
-- 
2.43.0


From 731d923ac4f79002d01f36ea59d7bb8a0531f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 29/29] fix: relationships keep the whole number of the other
 occurrence

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 7e3dfed..3038268 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -299,7 +299,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     if chunk.ctype == ChunkType::DataSimple {
                         let mut tmp = component::FMComponentRelationship::new();
                         tmp.table1 = occurrence_id as u16;
-                        tmp.table2 = chunk.data.unwrap()[2] as u16;
+                        tmp.table2 = get_int(&chunk.data.unwrap()[1..3]) as u16;
                         /* Both ends list the relationship, under the same number. */
                         let number = get_path_int(&chunk.data.unwrap()[4..]);
                         fmp_file.relationships.entry(number).or_insert(tmp);
-- 
2.43.0

