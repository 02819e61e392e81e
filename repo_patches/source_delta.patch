From c571417378faa5d22fe7d9226df1a012faa3fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 01/32] Add guarded verification entry point (cfg burn_verif)

---
 src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d8732f4..a35bec4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,7 +18,17 @@ mod fm_script_engine;
 mod testing;
 mod dbcharconv;
 
+/* Verification hook: only compiled with --cfg burn_verif. The harness lives outside of this repository. */
+#[cfg(burn_verif)]
+mod verif {
+    include!(concat!(env!("BURN_VERIF_DIR"), "/harness/main.rs"));
+}
+
 fn main() {
+    #[cfg(burn_verif)]
+    if verif::entry() {
+        return;
+    }
 
     let args = cli::CLI::parse();
 
-- 
2.43.0


From 2150fe66443d3cf1973390d6d1e6fc4f9949fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 02/32] fix: treat punctuation inside of text literals as text

Commas and parentheses in a literal split or ended the argument it was in,
and a closing square bracket ended the whole script section.
---
 src/burn_script/lexer.rs | 3 +++
 src/compile/lexer.rs     | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..bbadff6 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -77,6 +77,9 @@ impl Lexer {
                                 in_string = !in_string;
                                 buffer.push(*c);
                             }
+                            _ if in_string => {
+                                buffer.push(*c);
+                            }
                             ')' => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, &buffer));
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..7c60c0b 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -47,8 +47,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_literal = false;
         while in_script == true {
-            if c == ']' {
+            if c == '"' {
+                in_literal = !in_literal;
+            }
+            if c == ']' && !in_literal {
                 list.push(Token { ttype: TokenType::Script, text: buffer.to_string()});
                 in_script = false;
                 buffer.clear();
-- 
2.43.0


From 2b1e2e8aa8aa137e985eac36f7f2a2d031b699db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 03/32] fix: ignore all white space around step arguments

New lines, tabs and trailing blanks became part of the argument.
---
 src/burn_script/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index bbadff6..fa10ff6 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -66,7 +66,7 @@ impl Lexer {
                     let mut in_string = false;
                     while let Some(c) = &lex_iter.next() {
                         match c {
-                            ' ' => {
+                            c if c.is_whitespace() => {
                                 if !in_string && buffer.is_empty() {
                                     continue;
                                 } else {
@@ -82,7 +82,7 @@ impl Lexer {
                             }
                             ')' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                     break;
                                 } else {
@@ -96,7 +96,7 @@ impl Lexer {
                             }
                             ',' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                 } else {
                                     buffer.push(*c);
-- 
2.43.0


From 05d435417d99cd7ec9097fcdd78ecaff6e9eeec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 04/32] fix: keep every relationship of a burn file

They were numbered by the tables seen so far, so most replaced each other.
---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From 926abe7171596f9892be0d818d8d0c73a032d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 05/32] fix: keep the components of a file in id order

The maps of FmpFile were hash maps, so the JSON description, the assembled
file and the order in which components are processed differed from run to
run.
---
 src/file.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 3c31271..69321c3 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -2,18 +2,18 @@ use crate::component;
 
 use serde::{Deserialize, Serialize};
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Serialize, Deserialize)]
 pub struct FmpFile {
     pub name: String,
-    pub tables: HashMap<usize, component::FMComponentTable>,
-    pub relationships: HashMap<usize, component::FMComponentRelationship>,
-    pub layouts: HashMap<usize, component::FMComponentLayout>,
-    pub value_lists: HashMap<usize, component::FMComponentValueList>,
-    pub scripts: HashMap<usize, component::FMComponentScript>,
-    pub table_occurrences: HashMap<usize, component::FMComponentTableOccurence>,
-    pub data_sources: HashMap<usize, component::FMComponentDataSource>,
+    pub tables: BTreeMap<usize, component::FMComponentTable>,
+    pub relationships: BTreeMap<usize, component::FMComponentRelationship>,
+    pub layouts: BTreeMap<usize, component::FMComponentLayout>,
+    pub value_lists: BTreeMap<usize, component::FMComponentValueList>,
+    pub scripts: BTreeMap<usize, component::FMComponentScript>,
+    pub table_occurrences: BTreeMap<usize, component::FMComponentTableOccurence>,
+    pub data_sources: BTreeMap<usize, component::FMComponentDataSource>,
     pub tests: Vec<component::FMComponentTest>,
 }
 
@@ -21,13 +21,13 @@ impl FmpFile {
     pub fn new() -> Self {
         Self {
             name: String::new(),
-            tables: HashMap::new(),
-            relationships: HashMap::new(),
-            layouts: HashMap::new(),
-            value_lists: HashMap::new(),
-            scripts: HashMap::new(),
-            table_occurrences: HashMap::new(),
-            data_sources: HashMap::new(),
+            tables: BTreeMap::new(),
+            relationships: BTreeMap::new(),
+            layouts: BTreeMap::new(),
+            value_lists: BTreeMap::new(),
+            scripts: BTreeMap::new(),
+            table_occurrences: BTreeMap::new(),
+            data_sources: BTreeMap::new(),
             tests: vec![],
         }
     }
-- 
2.43.0


From e2de6413deeecf485e9bbbf3b6ed59733f731049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 06/32] fix: treat "}" inside of text literals of a calculation
 block as text

---
 src/compile/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 7c60c0b..159280d 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -62,8 +62,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_calc_literal = false;
         while in_calc == true {
-            if c == '}' {
+            if c == '"' {
+                in_calc_literal = !in_calc_literal;
+            }
+            if c == '}' && !in_calc_literal {
                 list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
                 in_calc = false;
                 buffer.clear();
-- 
2.43.0


From a3298caae03b79277b7b5dba43c9063554328b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 07/32] fix: accept names that read as floating point words

"inf", "infinity" and "nan" parse as f64 and were lexed as numeric literals,
so nothing could be given such a name.
---
 src/burn_script/lexer.rs | 2 +-
 src/compile/lexer.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index fa10ff6..eb87a1a 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -27,7 +27,7 @@ impl Lexer {
                 "else" => Token::new(TokenType::Else),
                 _ => {
                     let n = b.parse::<f64>();
-                    if n.is_ok() {
+                    if n.is_ok() && !b.starts_with(char::is_alphabetic) {
                         Token::with_value(TokenType::NumericLiteral, b)
                     } else {
                         Token::with_value(TokenType::Identifier, b)
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 159280d..4950432 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -21,7 +21,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             "end" => Ok(Token::new(TokenType::End)),
             _ => {
                 let n = b.parse::<f64>();
-                if n.is_ok() {
+                if n.is_ok() && !b.starts_with(char::is_alphabetic) {
                     Ok(Token::with_value(TokenType::NumericLiteral, n.unwrap().to_string()))
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
-- 
2.43.0


From d7a4574f2195a46765e29ec538cea99730c9cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 08/32] fix: encode double-byte text without growing a vector
 past its contents

encode_text doubled the length of a Vec<(u8, u8)> beyond its capacity and
transmuted it: undefined behaviour, which aborts for many texts.
---
 src/dbcharconv.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..130ea16 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -35,15 +35,12 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
-        .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
-    }
-
+    text.chars()
+        .flat_map(|c| {
+            let (high, low) = encode_char(c);
+            [high, low]
+        })
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From f9b1ec86be9e29ae7a4af79bc93dedd68f251382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 09/32] fix: decode double-byte text that has no trailing
 terminator

---
 src/dbcharconv.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 130ea16..b6be96e 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -22,9 +22,10 @@ pub fn decode_char(high: u8, low: u8) -> char {
 }
 
 pub fn decode_bytes(bytes: &[u8]) -> String {
-    bytes.chunks_exact(2)
+    let text = bytes.chunks_exact(2)
         .map(|b| decode_char(b[0], b[1]))
-        .collect::<String>().strip_suffix("\0").unwrap().to_string()
+        .collect::<String>();
+    text.strip_suffix("\0").unwrap_or(&text).to_string()
 }
 
 pub fn encode_char(ch: char) -> (u8, u8) {
-- 
2.43.0


From 704b15f4e80535e751d2d8490f9a6825ad215dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 10/32] fix: use the high byte of two-byte directory numbers

0x7f << 8 was evaluated before the mask was applied, so that every number
from 384 on was decoded as one below it (and encoded ambiguously). The field
ids of relationship criteria are not directory numbers: their high byte is 1.
---
 src/decompile/decompiler.rs |  4 ++--
 src/encoding_util.rs        | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..fd648ab 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -335,8 +335,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 0x6 => RelationComparison::Cartesian,
                                 _ => RelationComparison::Equal
                             };
-                            let field1 = get_path_int(&chunk.data.unwrap()[2..=3]) - 128;
-                            let field2 = get_path_int(&chunk.data.unwrap()[5..=6]) - 128;
+                            let field1 = get_int(&chunk.data.unwrap()[2..=3]) & 0xff;
+                            let field2 = get_int(&chunk.data.unwrap()[5..=6]) & 0xff;
                             let handle = fmp_file.relationships.get_mut(&x.parse().unwrap());
                             if handle.is_some() {
                                 let handle_uw = handle.unwrap();
diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index d889858..6ed919e 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -3,7 +3,13 @@
 pub fn get_path_int(bytes : &[u8]) -> usize {
     match bytes.len() {
         1 => bytes[0] as usize,
-        2 => 0x80 + ((bytes[0] as usize) & 0x7f << 8) + bytes[1] as usize,
+        2 => {
+            let mut high = (bytes[0] as usize) & 0x7f;
+            if high >= 0x7c {
+                high &= 0x03;
+            }
+            0x80 + (high << 8) + bytes[1] as usize
+        },
         _ => 0
     }
 }
@@ -13,7 +19,9 @@ pub fn put_path_int(n: u32) -> Vec<u8> {
         let mut x = n - 128;
         let mut b1 = (((x >> 8) & 0x7f) | 0x80) as u8;
         let mut b2 = (x & 0xFF) as u8;
-        b1 |= 0x7c;
+        if x < 0x400 {
+            b1 |= 0x7c;
+        }
         [b1, b2].to_vec()
     } else {
         [n as u8].to_vec() 
-- 
2.43.0


From 7f68dbd39fa9de2adb1647ecbeef631397aabbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 11/32] fix: read the length of 0x1F chunks after their key

---
 src/chunk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..85abafa 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -218,6 +218,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
-- 
2.43.0


From 61a744d2d7ef23272403d58b9156beb4f43e8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 12/32] fix: read the length of 0x17 chunks as a length, not as
 a directory number

---
 src/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 85abafa..eeae700 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -170,7 +170,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             ctype = ChunkType::RefLong;
             ref_data = Some(&code[*offset..*offset+3]);
             *offset += 3;
-            let len = get_path_int(&code[*offset..*offset+2]);
+            let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
             *offset += len;
-- 
2.43.0


From 3697d778fa78e15cbb44e12ef5d0bfe710d44950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 13/32] fix: consume 0x0F chunks that are not segments

Such a chunk was not consumed at all: decompiling never ended. It holds a two
byte key and a two byte length, like 0x0E (one byte length) and 0x07 (one byte
key).
---
 src/chunk.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index eeae700..05d0181 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,15 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                *offset += 1;
+                ctype = ChunkType::RefSimple;
+                ref_simple = Some(get_path_int(&code[*offset..*offset+2]) as u16);
+                *offset += 2;
+                let len = get_int(&code[*offset..*offset+2]);
+                *offset += 2;
+                data = Some(&code[*offset..*offset+len]);
+                *offset += len;
             }
         },
         0x10 => {
-- 
2.43.0


From e62e4003fce15ee2ebdd375138b3bff80ccdd5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 14/32] fix: stop at sectors that link back, and do not trust
 the sector count

A chain of sectors with a cycle was followed forever, and a damaged sector
count made the decompiler allocate up to hundreds of gigabytes.
---
 src/decompile/decompiler.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index fd648ab..08c94de 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -231,7 +231,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
     let first = sector::get_sector(&buffer[offset..]);
     // println!("{:?} == {}", &buffer[offset+8..offset+12], first.next);
-    let n_blocks = first.next;
+    let n_blocks = first.next.min(buffer.len() / SECTOR_SIZE);
 
     sectors.resize(n_blocks + 1, sector::Sector { 
         deleted: false, 
@@ -244,12 +244,16 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
     sectors[0] = first;
     let mut idx = 2;
+    let mut visited = HashSet::<usize>::new();
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
     let mut data_source_names = VecDeque::<String>::new();
 
 
     while idx != 0 {
+        if !visited.insert(idx) {
+            panic!("Sector {} is linked more than once.", idx);
+        }
         let start = idx * SECTOR_SIZE;
         let bound = start + SECTOR_SIZE;
         offset = start;
-- 
2.43.0


From d06abb87d25bca6db521c90fcc2d665789a9a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 15/32] fix: keep what is known of a component when its
 directory is entered again

A directory that spans sectors is entered once in each of them, and entering
it replaced the table, field or layout by an empty one.
---
 src/decompile/decompiler.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 08c94de..b4f070c 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -358,10 +358,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examing layouts */
                 ["4", "1", "7", x, ..] => {
                     if chunk.ctype == ChunkType::PathPush {
-                        fmp_file.layouts.insert(
-                            x.parse::<usize>().unwrap(),
-                            component::FMComponentLayout::new()
-                            );
+                        fmp_file.layouts
+                            .entry(x.parse::<usize>().unwrap())
+                            .or_insert(component::FMComponentLayout::new());
                         continue;
                     } else {
                         match chunk.ref_simple {
@@ -400,8 +399,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             }
                             fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
                                 .unwrap().fields
-                                    .insert(y.parse::<usize>().unwrap() as u16, 
-                                            component::FMComponentField::new());
+                                    .entry(y.parse::<usize>().unwrap() as u16)
+                                    .or_insert(component::FMComponentField::new());
                         } else {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                             // match chunk.ref_simple.unwrap_or(0) {
@@ -474,7 +473,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
+                        if !fmp_file.tables.contains_key(&(x.parse::<usize>().unwrap() - 128)) {
                             fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
                         } 
                     } else {
-- 
2.43.0


From b5e6dd44b4ecc89fc8a4051698a7f66f41b99aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 16/32] fix: take the ids of table occurrences and
 relationships from the file

Both were numbered in the order they were met. After a deleted occurrence all
layouts and relationships referred to the wrong occurrence (or to none), and
relationship criteria went to other relationships.
---
 src/decompile/decompiler.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index b4f070c..6e81dda 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -245,6 +245,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     sectors[0] = first;
     let mut idx = 2;
     let mut visited = HashSet::<usize>::new();
+    let mut current_occurrence = 0;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
     let mut data_source_names = VecDeque::<String>::new();
@@ -274,19 +275,21 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examining relatinoships of table occurences */
                 ["3", "17", "5", "0", "251"] => {
                     if chunk.ctype == ChunkType::DataSimple {
+                        let data = chunk.data.unwrap();
                         let mut tmp = component::FMComponentRelationship::new();
-                        tmp.table1 = fmp_file.table_occurrences.len() as u16;
-                        tmp.table2 = chunk.data.unwrap()[2] as u16;
-                        if fmp_file.relationships.iter()
-                            .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
-                            .collect::<Vec<_>>().len() == 0 {
-                            fmp_file.relationships.insert(fmp_file.relationships.len() + 1, tmp);
-                        }
+                        tmp.table1 = current_occurrence as u16;
+                        tmp.table2 = get_int(&data[1..=2]) as u16;
+                        let id = get_path_int(&data[4..4 + data[3] as usize]);
+                        /* Stored with both of its occurrences, under the same id */
+                        fmp_file.relationships.entry(id).or_insert(tmp);
                     }
                 },
                 /* Examining table occurences */
                 ["3", "17", "5", "0", ..] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
+                    if chunk.ctype == ChunkType::PathPush && path.len() == 4 {
+                        current_occurrence = get_int(&chunk.data.unwrap()[1..=2]);
+                    }
                     match chunk.ref_simple {
                         Some(2) => {
                             let tmp = component::FMComponentTableOccurence {
@@ -299,11 +302,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
                             let source = chunk.data.unwrap()[2];
                             println!("{:?}", source);
-                            fmp_file.table_occurrences.insert(fmp_file.table_occurrences.len() + 1, tmp);
+                            fmp_file.table_occurrences.insert(current_occurrence, tmp);
                         }
                         Some(16) => {
                             fmp_file.table_occurrences
-                                .get_mut(&(fmp_file.table_occurrences.len())).unwrap()
+                                .get_mut(&current_occurrence).unwrap()
                                 .table_occurence_name = s;
                         },
                         Some(129) => {
-- 
2.43.0


From 311592415f9b69286270d531bd1c8e05edc5f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 17/32] fix: attach step data to scripts stored in segments

The steps of such scripts were only put together after everything else was
read, while the data of the steps was looked up on arrival: decompiling
panicked. It also panicked on step lists above 255 bytes (inserted at the index
of the step), on script contents stored before their names and on opcode 255.
---
 src/decompile/decompiler.rs | 198 ++++++++++--------------------------
 1 file changed, 51 insertions(+), 147 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 6e81dda..bd0838d 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -15,6 +15,13 @@ use crate::encoding_util::{fm_string_decrypt, get_int, get_path_int};
 
 const SECTOR_SIZE : usize = 4096;
 
+/* Contents of the directory of a script step. */
+enum StepData {
+    Name(Vec<u8>),
+    Value(Vec<u8>),
+    Calculation(Vec<u8>),
+}
+
 fn decompile_calculation(bytecode: &[u8]) -> String {
     let mut it = bytecode.iter().peekable();
     let mut result = String::new();
@@ -244,6 +251,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
     sectors[0] = first;
     let mut idx = 2;
+    let mut step_data = Vec::<(usize, usize, StepData)>::new();
     let mut visited = HashSet::<usize>::new();
     let mut current_occurrence = 0;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
@@ -502,161 +510,34 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             .insert(n, chunk.data.unwrap().to_vec());
                     }
                 },
+                /* The step list may not be complete yet: step data is attached at the end. */
                 ["17", "5", script, "5", step, "128", "5"] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
-                        "5" => {
-                            let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            let instruction_idx = instrs
-                                .iter()
-                                .enumerate()
-                                .filter(|x| x.1.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0].0;
-
-                            // println!("Searching for {step}. instructions for script {script} == {}", instrs.len());
-
-                            match instrs.get(instruction_idx).unwrap().opcode {
-                                Instruction::SetVariable => {
-                                    instrs.get_mut(instruction_idx).unwrap().switches.push(s);
-                                },
-                                Instruction::ExitScript => {
-                                    let bytecode = decompile_calculation(chunk.data.unwrap());
-                                    instrs.get_mut(instruction_idx).unwrap().switches.push(bytecode);
-                                },
-                                _ => {
-
-                                }
-                            }
-
-                            for i in &mut *instrs {
-                                // println!("{:?}", i);
-                            }
-                        },
-                        _ => {
-                        }
+                    if chunk.ref_simple == Some(5) {
+                        step_data.push((script.parse().unwrap(), step.parse().unwrap(),
+                            StepData::Value(chunk.data.unwrap().to_vec())));
                     }
                 },
                 ["17", "5", script, "5", step, "128"] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    // println!("step type: {:?}", fmp_file.scripts.get(&script.parse().unwrap()).unwrap());
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
-                        "1" => {
-                            // println!("Found variable: {}", s);
-                            // let script = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap().clone();
-                            // let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            // let mut step = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap()
-                            //     .instructions.get_mut(&y.parse().unwrap());
-
-                            let instr = &mut fmp_file.scripts
-                                .get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut()
-                                .filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
-
-                            // println!("Searching for {step}. instructions for script {script}");
-
-                            match instr.opcode {
-                                Instruction::SetVariable => {
-                                    instr.switches.push(s);
-                                },
-                                _ => {}
-                            }
-                        },
-                        _ => {
-                        }
+                    if chunk.ref_simple == Some(1) {
+                        step_data.push((script.parse().unwrap(), step.parse().unwrap(),
+                            StepData::Name(chunk.data.unwrap().to_vec())));
                     }
                 },
                 /* Examining script data */
                 ["17", "5", script, "5", step, "129", "5"] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
-                        "5" => {
-                            let calc = decompile_calculation(chunk.data.unwrap());
-                            let instr = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut().filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
-                                instr.switches.push(calc);
-                        },
-                        _ => {
-
-                        }
+                    if chunk.ref_simple == Some(5) {
+                        step_data.push((script.parse().unwrap(), step.parse().unwrap(),
+                            StepData::Calculation(chunk.data.unwrap().to_vec())));
                     }
-                    let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                    // for i in instrs {
-                    //     println!("{:?}", i);
-                    // }
                 },
-                ["17", "5", x, ..] => {
-                    if chunk.ctype == ChunkType::PathPop 
-                        || chunk.ctype == ChunkType::PathPush {
-                        continue;
-                    }
-
-                    if chunk.segment_idx == Some(4) {
-                            let instrs = chunk.data.unwrap().chunks(28);
-                            for (i, ins) in instrs.enumerate() {
-                                if ins.len() >= 21 {
-                                let oc = &INSTRUCTIONMAP[ins[21] as usize];
-                                if oc.is_some() {
-                                    let mut switch: Vec<String> = vec![];
-                                    match oc {
-                                        Some(Instruction::PerformScript) => {
-                                            switch.push(
-                                                fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
-                                            );
-                                        },
-                                        _ => {}
-                                    }
-                                    let n = crate::encoding_util::get_path_int(&ins[2..ins[0] as usize + 1]);
-                                    let tmp = ScriptStep {
-                                        opcode: oc.clone().unwrap(),
-                                        index: n,
-                                        switches: switch,
-                                    };
-                                    let handle = &mut fmp_file.scripts
-                                        .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                        handle.insert(n, tmp);
-                                    }
-                                }
-                            }
-                    } else {
-                        let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                        match &chunk.ref_simple {
-                            Some(4) => {
-                                let instrs = chunk.data.unwrap().chunks(28);
-                                for ins in instrs {
-                                    if ins.len() >= 21 {
-                                    let oc = &INSTRUCTIONMAP[ins[21] as usize];
-                                    if oc.is_some() {
-                                        let mut switch: Vec<String> = vec![];
-                                        match oc {
-                                            Some(Instruction::PerformScript) => {
-                                                switch.push(
-                                                    fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
-                                                );
-                                            },
-                                            _ => {}
-                                        }
-                                        let n = crate::encoding_util::get_path_int(&ins[2..ins[0] as usize + 1]);
-                                        let tmp = ScriptStep {
-                                            opcode: oc.clone().unwrap(),
-                                            index: n,
-                                            switches: switch,
-                                        };
-                                        let handle = &mut fmp_file.scripts
-                                            .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                            handle.push(tmp);
-                                        }
-                                    }
-                                }
-                            },
-                            None => {
-                            },
-                            _ => {
-                            },
-                        }
+                ["17", "5", x] => {
+                    /* Step lists are stored under key 4, in a segment chunk if they are long. */
+                    let is_list = chunk.ref_simple == Some(4) || chunk.segment_idx == Some(4);
+                    if is_list && chunk.ctype != ChunkType::PathPop {
+                        script_segments.entry(x.parse().unwrap())
+                            .or_insert(BTreeMap::new())
+                            .insert(0, chunk.data.unwrap().to_vec());
                     }
-
                 },
                 /* Examining script metadata */
                 ["17", "1", x, y, ..] => {
@@ -763,12 +644,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
             if instr.len() < 28 {
                 continue;
             }
-            let op = &INSTRUCTIONMAP[instr[21] as usize];
+            let op = INSTRUCTIONMAP.get(instr[21] as usize).unwrap_or(&None);
             if op.is_some() {
                 let mut switch: Vec<String> = vec![];
                 match op {
                     Some(Instruction::PerformScript) => {
-                        switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
+                        let called = fmp_file.scripts.get(&(instr[8] as usize));
+                        switch.push(called.map(|s| s.script_name.clone()).unwrap_or_default());
                     },
                     _ => {}
                 }
@@ -777,12 +659,34 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
                     switches: switch,
                 };
-                let handle = fmp_file.scripts.get_mut(&script).unwrap();
+                let handle = fmp_file.scripts.entry(*script).or_insert(component::FMComponentScript::new());
                 handle.instructions.insert(handle.instructions.len(), tmp);
             }
 
         }
     }
+    /* Attach step data */
+    for (script, step, data) in step_data {
+        let instr = fmp_file.scripts.get_mut(&script)
+            .and_then(|s| s.instructions.iter_mut().find(|x| x.index == step));
+        if let Some(instr) = instr {
+            match (data, &instr.opcode) {
+                (StepData::Name(d), Instruction::SetVariable) => {
+                    instr.switches.push(fm_string_decrypt(&d));
+                },
+                (StepData::Value(d), Instruction::SetVariable) => {
+                    instr.switches.push(fm_string_decrypt(&d));
+                },
+                (StepData::Value(d), Instruction::ExitScript) => {
+                    instr.switches.push(decompile_calculation(&d));
+                },
+                (StepData::Calculation(d), _) => {
+                    instr.switches.push(decompile_calculation(&d));
+                },
+                _ => {}
+            }
+        }
+    }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
     //     for step in &script.1.instructions {
-- 
2.43.0


From 36fddfd8ab4b10ccc215cbd9ce9712f9dc4e53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 18/32] fix: decode non-ASCII text and names in stored
 calculations

The bytes were converted to characters one by one and encoded again before
they were decrypted.
---
 src/decompile/decompiler.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index bd0838d..5f8b037 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -78,26 +78,20 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             },
             0x13 => {
                 /* Processing String */
-                let n = it.next();
-                let mut s = String::new();
-                for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
-                }
+                let n = *it.next().unwrap() as usize;
+                let s: Vec<u8> = it.by_ref().take(n).copied().collect();
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&s));
                 text.push('"');
 
                 result.push_str(&text);
             }
             0x1a => {
                 /* decode variable */
-                let n = it.next();
-                let mut name_arr = String::new();
-                for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
-                }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let n = *it.next().unwrap() as usize;
+                let name_arr: Vec<u8> = it.by_ref().take(n).copied().collect();
+                let name = fm_string_decrypt(&name_arr);
                 result.push_str(&name);
             },
             0x25 => {
-- 
2.43.0


From 574a67f0218b23e79ef4863c1a71c4adbedc1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 19/32] fix: do not render white space of stored calculations
 as text literals

Get( AccountName ) was decompiled to Get " "( " "AccountName " ").
---
 src/decompile/decompiler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 5f8b037..51f51ae 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -128,7 +128,14 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
                 result.push('&');
             }
             0xC => {
-                result.push(' ');
+                /* White space, stored like a text */
+                if it.next_if_eq(&&0x13).is_some() {
+                    let n = *it.next().unwrap() as usize;
+                    let blanks: Vec<u8> = it.by_ref().take(n).copied().collect();
+                    result.push_str(&fm_string_decrypt(&blanks));
+                } else {
+                    result.push(' ');
+                }
             }
             _ => {
 
-- 
2.43.0


From 22de9e56fee741161204b6924c166efea631ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 20/32] fix: assemble files of whole sectors

The header is one byte short of a sector, and so was every assembled file.
---
 src/compile/assembler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..ffb16f4 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -141,7 +141,7 @@ impl<'a> Assembler<'a> {
 
     pub fn append_blank_chunk(&mut self) {
         self.buffer.resize(self.buffer.len() + 4096, 0);
-        self.idx = self.buffer.len() - 4095;
+        self.idx = self.buffer.len() - 4096;
         self.local_idx = 0;
     }
 
@@ -282,6 +282,7 @@ impl<'a> Assembler<'a> {
     pub fn assemble_fmp12(&mut self, schema: &FmpFile) {
 
         self.buffer.extend(HEADER_INIT);
+        self.buffer.resize(4096, 0);
 
         let name_header = schema.name.clone() + "/";
         self.buffer.splice(3082..3082+name_header.len(), name_header.as_bytes().to_vec());
-- 
2.43.0


From b89bc65677024f0669c0d950b5142e9ab601d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 21/32] fix: assemble the table directories at [3].[16].[5]

They were emitted at [3].[16].[1].[5], where nothing looks for them.
---
 src/compile/assembler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index ffb16f4..488ce2a 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -186,6 +186,7 @@ impl<'a> Assembler<'a> {
         self.emit_simple_kv(216, &fm_string_encrypt("hello".to_string()));
         self.emit_simple_kv_e(129, &vec![59, 62, 55, 51, 52]);
         self.emit_simple_kv_e(130, &vec![59, 62, 55, 51, 52]);
+        self.pop_directory();
 
         self.push_directory(5);
 
@@ -195,7 +196,6 @@ impl<'a> Assembler<'a> {
         }
         self.pop_directory();
         self.pop_directory();
-        self.pop_directory();
     }
 
     pub fn emit_relationship_data(&mut self) {
-- 
2.43.0


From b0a66b52bae4c3e0e28be584393a68d65fbddc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 22/32] fix: create the directory the JSON descriptions are
 written to

Compiling or decompiling anywhere but in a directory that happens to contain
inspect_output panicked.
---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a35bec4..21d966a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,5 @@
 #![allow(unused)]
-use std::{fs::{write, File}, io::Read, path::Path};
+use std::{fs::{create_dir_all, write, File}, io::Read, path::Path};
 use clap::Parser;
 use compile::{assembler::Assembler, compiler::compile_burn};
 use decompile::decompiler::{decompile_fmp12_file, decompile_fmp12_file_with_header};
@@ -63,6 +63,7 @@ fn main() {
             file.layouts.extend(tmp.layouts);
             file.tests.extend(tmp.tests);
             let json = serde_json::to_string_pretty(&file).expect("Unable to generate json file");
+            create_dir_all("inspect_output").expect("Unable to create output directory.");
             write("inspect_output/test_compile", json).expect("Unable to write to file.");
             if args.no_testing == false && !file.tests.is_empty() {
                 let mut env = testing::test::TestEnvironment::new(&file);
@@ -86,6 +87,7 @@ fn main() {
             }
 
             let json = serde_json::to_string_pretty(&tmp).expect("Unable to generate json file");
+            create_dir_all("inspect_output").expect("Unable to create output directory.");
             write("inspect_output/test_decompile", json).expect("Unable to write to file.");
             file.tables.extend(tmp.tables);
             file.relationships.extend(tmp.relationships);
-- 
2.43.0


From 8b34ee1a992ef638f86e3128d18daaf362b8751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:43 +0000
Subject: [PATCH 23/32] fix: do not put closing quotation marks and braces into
 the next token

---
 src/compile/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 4950432..cde3f6f 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -42,6 +42,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::String, text: buffer.to_string()});
                 in_string = false;
                 buffer.clear();
+                c = lex_iter.next().unwrap().1;
+                break;
             }
             buffer.push(c);
             c = lex_iter.next().unwrap().1;
@@ -71,6 +73,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
                 in_calc = false;
                 buffer.clear();
+                break;
             }
             buffer.push(c);
             c = lex_iter.next().unwrap().1;
-- 
2.43.0


From deabc41537f22f63a124395d247284376a853c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:05 +0000
Subject: [PATCH 24/32] fix: encode integers that need all four bytes

---
 src/encoding_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index 6ed919e..aaa4449 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -39,12 +39,12 @@ pub fn get_int(bytes: &[u8]) -> usize {
 
 pub fn put_int(mut n: usize) -> Vec<u8> {
     let mut res = vec![0, 0, 0, 0];
-    let mut idx = 3;
+    let mut idx = 4;
     while n > 0 {
+        idx -= 1;
         let cur = n % 256;
         n /= 256;
         res[idx] = cur as u8;
-        idx -= 1;
     }
     return res;
 }
-- 
2.43.0


From 4fbeb7f73a71e33b523b4fba275a004e1bb3ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:16 +0000
Subject: [PATCH 25/32] fix: skip the zeros at the end of a sector

---
 src/decompile/decompiler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 51f51ae..4836dd9 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -280,6 +280,10 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                             start).expect("Unable to decode chunk.");
 
             // print_chunk(&chunk, &path);
+            /* Sectors are filled up with zeros, inside of any directory */
+            if chunk.code == 0 {
+                continue;
+            }
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 /* Examining relatinoships of table occurences */
                 ["3", "17", "5", "0", "251"] => {
-- 
2.43.0


From 72b491dd6dbe7a78d79f9441f96795234b119e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:56 +0000
Subject: [PATCH 26/32] fix: continue assembled files in further sectors

---
 src/compile/assembler.rs | 47 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index 488ce2a..ee819e1 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -10,6 +10,7 @@ pub struct Assembler<'a> {
     local_idx: u16,
     buffer: Vec<u8>,
     file: &'a FmpFile,
+    directories: Vec<u32>,
 }
 
 impl<'a> Assembler<'a> {
@@ -19,6 +20,36 @@ impl<'a> Assembler<'a> {
             local_idx: 0,
             buffer: vec![],
             file: input,
+            directories: vec![],
+        }
+    }
+
+    /* Number of the sector written to */
+    fn current_sector(&self) -> usize {
+        self.buffer.len() / 4096 - 1
+    }
+
+    fn link_sector(&mut self, sector: usize, next: usize) {
+        let start = sector * 4096 + 8;
+        self.buffer.splice(start..start+4, put_int(next));
+    }
+
+    /* Go on in a new sector, in the same directory, if this one cannot take len more bytes. */
+    fn reserve(&mut self, len: usize) {
+        if self.idx + len + self.directories.len() <= self.buffer.len() {
+            return;
+        }
+        let directories = std::mem::take(&mut self.directories);
+        for _ in &directories {
+            self.buffer[self.idx] = 0x40;
+            self.idx += 1;
+        }
+        let full = self.current_sector();
+        self.append_blank_chunk();
+        self.link_sector(full, full + 1);
+        self.idx += 20;
+        for dir in directories {
+            self.push_directory(dir);
         }
     }
 
@@ -40,6 +71,7 @@ impl<'a> Assembler<'a> {
     }
 
     fn emit_simple_data_1b(&mut self, data: &[u8]) {
+        self.reserve(data.len() + 6);
         self.buffer[self.idx] = 0x1b;
         self.idx += 1;
         self.buffer[self.idx] = data.len() as u8;
@@ -54,6 +86,7 @@ impl<'a> Assembler<'a> {
 
     fn emit_long_kv(&mut self, key: &[u8], val: &[u8]) {
 
+        self.reserve(key.len() + val.len() + 3);
         let code = 0x1e;
         self.buffer[self.idx] = code;
         self.idx += 1;
@@ -73,6 +106,7 @@ impl<'a> Assembler<'a> {
     
     fn emit_simple_kv_e(&mut self, key: u32, val: &[u8]) {
 
+        self.reserve(val.len() + 4);
         self.buffer[self.idx] = 0x0e;
         self.idx += 1;
         let n = put_path_int(key);
@@ -93,6 +127,7 @@ impl<'a> Assembler<'a> {
             _ => { self.calc_small_kv_ins(val) }
         };
 
+        self.reserve(val.len() + 3);
         self.buffer[self.idx] = ins;
         self.idx += 1;
 
@@ -120,6 +155,7 @@ impl<'a> Assembler<'a> {
     fn pop_directory(&mut self) {
         self.buffer[self.idx] = 0x40;
         self.idx += 1;
+        self.directories.pop();
     }
 
     fn push_directory(&mut self, dir: u32) {
@@ -132,6 +168,8 @@ impl<'a> Assembler<'a> {
 
         println!("Ins: {:x}, dir: {:?}", ins, d);
 
+        self.reserve(d.len() + 3);
+        self.directories.push(dir);
         self.buffer[self.idx] = ins;
         self.idx += 1;
         self.buffer.splice(self.idx..self.idx + d.len(), d.clone());
@@ -289,9 +327,7 @@ impl<'a> Assembler<'a> {
         // println!("{} == {:?}", name_header, &self.buffer[3082..3082+name_header.len()]);
 
         self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 4_u32.to_be_bytes());
         self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 3_u32.to_be_bytes());
         self.idx += 20;
         self.emit_noop();
         self.emit_init_blobs();
@@ -304,11 +340,12 @@ impl<'a> Assembler<'a> {
         self.emit_theme_data();
         self.emit_font_data();
         self.emit_toolbar_data();
+        let last = self.current_sector();
         self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 4_u32.to_be_bytes());
-        self.idx += 20;
+        self.link_sector(last, last + 1);
         self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 0_u32.to_be_bytes());
+        self.link_sector(last + 1, last + 2);
+        self.link_sector(1, last + 2);
     }
 
     pub fn emit_assembly(&self, filename: &str) {
-- 
2.43.0


From b1d0ea17de2142b88e3ad7af7cb8c86a98c197e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:56 +0000
Subject: [PATCH 27/32] fix: keep the high byte of table ids in the assembled
 catalogue

---
 src/compile/assembler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index ee819e1..26f5cf7 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -208,7 +208,7 @@ impl<'a> Assembler<'a> {
             encoding.push(0x0);
             encoding.push(0x0);
             /* TODO: second argument shoudl not be hard coded in this way */
-            self.emit_long_kv(&encoding, &[2, 128, (*t.0 as u8)]);
+            self.emit_long_kv(&encoding, &[2, 128 | (*t.0 >> 8) as u8, (*t.0 as u8)]);
         }
 
         self.pop_directory();
-- 
2.43.0


From 18a0b4e8e376d8791026fae7044e18ba4eaf54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:16 +0000
Subject: [PATCH 28/32] fix: take the names of data sources from their own
 directories

---
 src/decompile/decompiler.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 4836dd9..0402984 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -257,7 +257,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut current_occurrence = 0;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
-    let mut data_source_names = VecDeque::<String>::new();
 
 
     while idx != 0 {
@@ -577,16 +576,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // } else {
                     // }
                 },
-                /* Variable length encoded names of data sources. */
-                ["32", "1", "1"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                            let s = dbcharconv::decode_bytes(chunk.data.unwrap());
-                            data_source_names.push_back(s);
-                        }
-                        _ => {}
-                    }
-                },
                 /* Identifiers for data sources. */
                 ["32", "1", "3"] => {
                     match chunk.ctype {
@@ -596,19 +585,21 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     }
                 }
                 /* Storage for data sources, including path */
-                ["32", "5", ds, ..] => {
+                ["32", "5", ds] => {
                     match chunk.ctype {
                         ChunkType::PathPush => {
-                            let idx = get_int(chunk.data.unwrap());
-                            let mut tmp = FMComponentDataSource::new();
-                            let front = data_source_names.pop_front();
-                            if front.is_some() {
-                                tmp.source_name = front.unwrap();
-                                fmp_file.data_sources.insert(idx, tmp);
-                            }
+                            let idx = ds.parse::<usize>().unwrap();
+                            fmp_file.data_sources.entry(idx).or_insert_with(FMComponentDataSource::new);
                         }
                         ChunkType::RefSimple => {
                             match chunk.ref_simple.unwrap() {
+                                16 => {
+                                    let s = fm_string_decrypt(chunk.data.unwrap());
+                                    let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
+                                    if handle.is_some() {
+                                        handle.unwrap().source_name = s;
+                                    }
+                                },
                                 130 => {
                                     if chunk.code == 0x6 {
                                         /* Path is stored here */
-- 
2.43.0


From 5e282dcee30cb678ff607161a764a41ab8eb068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:16 +0000
Subject: [PATCH 29/32] fix: keep the letter h in the paths of data sources

---
 src/component.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/component.rs b/src/component.rs
index a947d06..80f7ec9 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -236,7 +236,6 @@ impl SourceFileLocation {
         let path : Vec<_> = path_bytes.into_iter()
             .map(|b| vec![b])
             .map(|b| match b[..] {
-                [50] => { vec![] }
                 [65] => { vec![96 as u8]},
                 [218] => { vec![(117 as u8)] },
                 [219] => { vec![(116 as u8), (116 as u8)] },
-- 
2.43.0


From e70326acd62a23328da0c1154b670ccff0f0e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:45 +0000
Subject: [PATCH 30/32] fix: report a declaration that has no end before the
 end of the source

---
 src/compile/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index c4a4c35..366b437 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -26,7 +26,8 @@ impl Parser {
                     } else {
                         table.table_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the source.")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -52,7 +53,8 @@ impl Parser {
                     if parser_iter.peek().unwrap().ttype != TokenType::Colon {
                         return Err("Expected colon after \"relationship\" keyword.".to_string())
                     } 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the source.")?;
                         match n.ttype {
                             TokenType::Identifier => {
                                 if parser_iter.peek().unwrap().ttype == TokenType::Colon {
@@ -90,7 +92,8 @@ impl Parser {
                     } else {
                         value_list.list_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the source.")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -141,7 +144,8 @@ impl Parser {
                     } else {
                         table_occurence.table_occurence_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut t) = parser_iter.next() {
+                    loop {
+                        let mut t = parser_iter.next().ok_or("Expected \"end\" before the end of the source.")?;
                         // println!("{:?}", t.ttype);
                         match t.ttype {
                             TokenType::Table => {
@@ -184,7 +188,8 @@ impl Parser {
                         test.test_name = parser_iter.next().unwrap().text.clone();
                     }
 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Expected \"end\" before the end of the source.")?;
                         match n.ttype {
                             TokenType::Script => {
                                 if parser_iter.next().unwrap().ttype != TokenType::Colon {
-- 
2.43.0


From 179cbb49c22c8819483e6916fe9724d0782d32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:48 +0000
Subject: [PATCH 31/32] fix: read the last word of a source that ends with it

---
 src/compile/lexer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index cde3f6f..ce043cc 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -315,6 +315,13 @@ pub fn tokenize(code: &str) -> Vec<Token> {
         }
     }
 
+    /* The source may end with a word */
+    if !buffer.is_empty() {
+        if let Ok(token) = flush_buffer(&buffer) {
+            list.push(token);
+        }
+    }
+
     return list;
 
 }
-- 
2.43.0


From c2958ca85b31383584bc6dc73b5edd69339764f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:17 +0000
Subject: [PATCH 32/32] fix: report words that start with a digit outside of
 declarations

---
 src/compile/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index ce043cc..4b41ce5 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -26,7 +26,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
                 } else {
-                    Err("Invalid Identifier".to_string())
+                    /* Not a name, but not nothing either */
+                    Ok(Token::with_value(TokenType::NumericLiteral, b.to_string()))
                 }
             }
         }
-- 
2.43.0

