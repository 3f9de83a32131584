From 5be8127e9b63cf38aa5b8915d5746b8cfaa64f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 01/23] fix: read files given by name until their end instead
 of trusting the metadata length

---
 src/io.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..733e209 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,23 +6,17 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
 
     let path = std::path::Path::new(filename);
     let mut f = fs::File::open(path).expect("no file found");
-    let metadata = fs::metadata(path).expect("unable to read metadata");
-    let buffer_length = if prefix_length > 0 {
-        std::cmp::min(prefix_length as u64, metadata.len())
-    } else {
-        metadata.len()
-    };
-    assert!(buffer_length <= usize::MAX as u64);
-
-    let mut buffer = vec![0; buffer_length as usize];
-    f.read_exact(&mut buffer).unwrap();
 
-    // let mut buffer = Vec::new();
-    // buffer.reserve_exact(buffer_length as usize);
-    // match f.read_to_end(&mut buffer) {
-    //     Ok(length) => assert_eq!(length, buffer.len()),
-    //     Err(x) => panic!("in file2byte_vector: {}", x),
-    // };
+    //@ read until the end instead of trusting the length in the metadata: the latter is zero for
+    //@ pipes and special files, and may belong to another file if the path got replaced
+    let mut buffer = Vec::new();
+    if prefix_length > 0 {
+        f.take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
+    } else {
+        f.read_to_end(&mut buffer).unwrap();
+    }
     buffer
 }
 
-- 
2.43.0


From a1ae2c3405cd91859045862c0ae93d3feec09832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 02/23] fix: a prefix length beyond the end of stdin means the
 whole input

---
 src/io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 733e209..2080bcf 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -27,8 +27,11 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
+        let mut buffer = Vec::new();
+        reader
+            .take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
         buffer
     } else {
         let mut buffer = Vec::new();
-- 
2.43.0


From a6dbe7294c216dbd427468952492a11c01dfbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 03/23] fix: do not take interrupted or failed reads for the
 end of the input

---
 src/bin/escape.rs | 10 ++++++++--
 src/bin/mtf.rs    |  5 ++++-
 src/bin/rle.rs    | 21 +++++++++++++++------
 src/core.rs       | 10 ++++++++--
 src/io.rs         | 23 +++++++++++------------
 5 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..bd9f9a8 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -104,7 +104,10 @@ fn main() {
         };
         for _ in 0..args.prefixlength {
             match io::read_char(&mut reader) {
-                Err(_) => break,
+                Err(error) => {
+                    io::expect_eof(error);
+                    break;
+                }
                 Ok(cur_char) => {
                     if cur_char == args.escape_symbol {
                         let next_char = io::read_char(&mut reader).unwrap();
@@ -131,7 +134,10 @@ fn main() {
         };
         for _ in 0..args.prefixlength {
             match io::read_char(&mut reader) {
-                Err(_) => break,
+                Err(error) => {
+                    io::expect_eof(error);
+                    break;
+                }
                 Ok(cur_char) => {
                     if cur_char == args.escape_symbol {
                         writer
diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..91c8a3e 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -8,7 +8,10 @@ pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
     let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
-            Err(_) => break,
+            Err(error) => {
+                io::expect_eof(error);
+                break;
+            }
             Ok(cur_char) => {
                 let pos = mtfvector.iter().position(|&c| c == cur_char).unwrap();
                 for j in 0..pos {
diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..c742e1f 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -8,13 +8,16 @@ use stringology::io;
 
 pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     match io::read_char(&mut reader) {
-        Err(_) => (),
+        Err(error) => io::expect_eof(error),
         Ok(first_char) => {
             let mut run_counter = 0_u8; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
-                    Err(_) => break,
+                    Err(error) => {
+                        io::expect_eof(error);
+                        break;
+                    }
                     Ok(next_char) => {
                         if next_char != prev_char {
                             write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
@@ -34,13 +37,16 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
 
 pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     match io::read_char(&mut reader) {
-        Err(_) => (),
+        Err(error) => io::expect_eof(error),
         Ok(first_char) => {
             let mut run_counter = 0_u8; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
-                    Err(_) => break,
+                    Err(error) => {
+                        io::expect_eof(error);
+                        break;
+                    }
                     Ok(next_char) => {
                         if next_char != prev_char {
                             assert_lt!(run_counter, u8::MAX);
@@ -63,7 +69,7 @@ const CHR_ZERO: u8 = b'0';
 
 pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     match io::read_char(&mut reader) {
-        Err(_) => (),
+        Err(error) => io::expect_eof(error),
         Ok(first_char) => {
             let mut run_counter = 0; //@ counts the number of character runs
             if first_char == CHR_ZERO {
@@ -73,7 +79,10 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
             }
             loop {
                 match io::read_char(&mut reader) {
-                    Err(_) => break,
+                    Err(error) => {
+                        io::expect_eof(error);
+                        break;
+                    }
                     Ok(next_char) => {
                         if next_char != CHR_ZERO {
                             if run_counter == 0 {
diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..e023dc9 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -554,13 +554,19 @@ impl<C: Eq + Copy + Clone> Iterator for ConjugateIterator<'_, C> {
 /// counts the number of runs in an array `arr`
 pub fn number_of_runs<R: std::io::Read>(reader: &mut R) -> usize {
     match io::read_char(reader) {
-        Err(_) => 0,
+        Err(error) => {
+            io::expect_eof(error);
+            0
+        }
         Ok(first_char) => {
             let mut run_counter = 1; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(reader) {
-                    Err(_) => break,
+                    Err(error) => {
+                        io::expect_eof(error);
+                        break;
+                    }
                     Ok(next_char) => {
                         if next_char != prev_char {
                             prev_char = next_char;
diff --git a/src/io.rs b/src/io.rs
index 2080bcf..b8e3260 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -73,20 +73,19 @@ pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
 }
 
 /// read a single u8 character
+/// the end of the input is reported as an error of kind `UnexpectedEof`, see `expect_eof`
 pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
     let mut buffer = [0u8];
-    match reader.read(buffer.as_mut()) {
-        Result::Ok(u) => {
-            if u == 1 {
-                Ok(buffer[0])
-            } else {
-                Err(std::io::Error::new(
-                    std::io::ErrorKind::Other,
-                    "end of file",
-                ))
-            }
-            // assert_eq!(u, 1);
-        }
+    //@ in contrast to `read`, `read_exact` retries interrupted reads
+    match reader.read_exact(buffer.as_mut()) {
+        Result::Ok(()) => Ok(buffer[0]),
         Err(error) => Err(error),
     }
 }
+
+/// panics if `error`, obtained by `read_char`, is anything else than having reached the end of the input
+pub fn expect_eof(error: std::io::Error) {
+    if error.kind() != std::io::ErrorKind::UnexpectedEof {
+        panic!("reading failed: {}", error);
+    }
+}
-- 
2.43.0


From 444c1da5042f4500a8400518b1f1ddc0915d0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 04/23] fix: flush the output explicitly such that failing to
 write its end is not ignored

---
 src/bin/lyndonfactorization.rs | 1 +
 src/bin/lyndonwords.rs         | 1 +
 src/bin/randomstring.rs        | 1 +
 src/bin/word.rs                | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..fd79b78 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
diff --git a/src/bin/lyndonwords.rs b/src/bin/lyndonwords.rs
index ac4bb77..c04e41b 100644
--- a/src/bin/lyndonwords.rs
+++ b/src/bin/lyndonwords.rs
@@ -30,4 +30,5 @@ fn main() {
         writer.write_all(&out).unwrap();
         writer.write_all(b"\n").unwrap();
     }
+    writer.flush().unwrap();
 }
diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From 0ad9292687b4d09b84cb6ece1a5b0f6ff027ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 05/23] fix: escape processes the whole input by default and
 accepts comma-separated lists as documented

---
 src/bin/escape.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index bd9f9a8..9d52445 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -2,6 +2,7 @@ extern crate byte_string;
 extern crate cdivsufsort;
 extern crate env_logger;
 use std::collections::HashMap;
+use std::io::Read;
 // #[macro_use] extern crate more_asserts;
 
 extern crate log;
@@ -35,11 +36,11 @@ struct Args {
     escape_symbol: u8,
 
     /// byte codes that need to be escaped, a list separeted by commas
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     from_symbols: Vec<u8>,
 
     /// list byte codes that are safe and equal of length to from
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     to_symbols: Vec<u8>,
 
     /// if true, invert the conversion
@@ -69,7 +70,13 @@ fn main() {
     // let from_symbols : Vec<u8> = matches.value_of("from").unwrap().split(",").map(|s| -> u8 { s.parse::<u8>().unwrap()  }).collect();
     // let to_symbols : Vec<u8> = matches.value_of("to").unwrap().split(",").map(|s| -> u8 { s.parse::<u8>().unwrap()  }).collect();
     // let is_reversion = matches.is_present("revert");
-    let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
+    let prefixlength = if args.prefixlength == 0 {
+        u64::MAX
+    } else {
+        args.prefixlength as u64
+    };
+    let mut reader =
+        io::stream_or_stdin(core::stringopt_stropt(&args.infilename)).take(prefixlength);
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     //@ sanity checks
@@ -102,7 +109,7 @@ fn main() {
             }
             revert_mapping
         };
-        for _ in 0..args.prefixlength {
+        loop {
             match io::read_char(&mut reader) {
                 Err(error) => {
                     io::expect_eof(error);
@@ -132,7 +139,7 @@ fn main() {
             }
             char_mapping
         };
-        for _ in 0..args.prefixlength {
+        loop {
             match io::read_char(&mut reader) {
                 Err(error) => {
                     io::expect_eof(error);
-- 
2.43.0


From dda451d973c0bca4f30c9ac09aec0b4267cdabfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 06/23] fix: run-length encodings split long runs and keep the
 character after a run of zeros

---
 src/bin/rle.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index c742e1f..9c3488f 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -1,7 +1,5 @@
 // extern crate byte_string;
 extern crate env_logger;
-#[macro_use]
-extern crate more_asserts;
 
 use stringology::core;
 use stringology::io;
@@ -10,7 +8,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(error) => io::expect_eof(error),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
@@ -48,8 +46,8 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                         break;
                     }
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        //@ a run too long for the counter is split up
+                        if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
@@ -71,7 +69,7 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(error) => io::expect_eof(error),
         Ok(first_char) => {
-            let mut run_counter = 0; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             if first_char == CHR_ZERO {
                 run_counter = 1;
             } else {
@@ -85,23 +83,30 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                     }
                     Ok(next_char) => {
                         if next_char != CHR_ZERO {
-                            if run_counter == 0 {
-                                writer.write_all(&[next_char]).unwrap();
-                            } else {
-                                assert_lt!(run_counter - 1, u8::MAX);
+                            if run_counter > 0 {
                                 writer
-                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                     .unwrap();
                                 run_counter = 0;
                             }
+                            writer.write_all(&[next_char]).unwrap();
                         } else {
+                            //@ a run too long for the counter is split up
+                            if run_counter == u8::MAX as usize + 1 {
+                                writer
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                                    .unwrap();
+                                run_counter = 0;
+                            }
                             run_counter += 1;
                         }
                     }
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer
+                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                    .unwrap();
             }
         }
     }
-- 
2.43.0


From bc603de404731b4bc632b3b40be6ba6b18e27137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 07/23] fix: options of rle with the same short name let every
 debug build panic

---
 src/bin/rle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 9c3488f..7597a7f 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -127,12 +127,12 @@ struct Args {
     #[arg(short, long)]
     outfilename: Option<String>,
 
-    /// the length of the prefix to parse
-    #[arg(short, long)]
+    /// only encode the runs of zeros
+    #[arg(short = 'z', long)]
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(short = 'H', long)]
     human: bool,
 }
 
-- 
2.43.0


From 4589a4dfa23283a83154c8450e6b088a2170787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 08/23] fix: mtf supports the byte 255

---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 91c8a3e..3f6c349 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(error) => {
-- 
2.43.0


From 517f36fd2de78f9557368d22cda8af6aef4dd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 09/23] fix: count_sigma supports an alphabet of 256 bytes

---
 src/bin/count_sigma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..eb0e603 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -8,9 +8,9 @@ use log::info;
 
 /// counts the number of different characters in a byte string
 // fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> usize {
+    let mut inc = 0_usize;
+    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From f757200cdc1dde096d55fc48b6ed364db1319157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 10/23] fix: lex-parse never refers to the lexicographically
 largest suffix from the smallest

---
 src/bin/count_lexparse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/count_lexparse.rs b/src/bin/count_lexparse.rs
index 8b2b025..5f40669 100644
--- a/src/bin/count_lexparse.rs
+++ b/src/bin/count_lexparse.rs
@@ -85,7 +85,10 @@ fn main() {
         debug!("sa : {:?}", sa);
     }
     let phi = core::compute_phi(sa.as_slice());
-    let plcp = core::compute_plcp(text.as_slice(), phi.as_slice());
+    let mut plcp = core::compute_plcp(text.as_slice(), phi.as_slice());
+    //@ the lexicographically smallest suffix has no predecessor to refer to; phi maps it to the
+    //@ largest suffix such that its common prefix can be non-empty, e.g., for unary texts
+    plcp[sa[0] as usize] = 0;
 
     info!("time: {}", now.elapsed().as_millis());
 
-- 
2.43.0


From c5746bc96efa2feefefc81d83a9fb7f1ceae66c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 11/23] fix: lyndonfactorization reports the length of the text
 instead of the requested prefix length

---
 src/bin/lyndonfactorization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index fd79b78..5998358 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -37,17 +37,17 @@ fn main() {
     env_logger::init();
     use std::time::Instant;
 
-    let result_format = format!(
-        "RESULT file={} length={} ",
-        core::get_filename(&args.infilename),
-        args.prefixlength
-    );
-
     info!("read text");
 
     let text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
 
+    let result_format = format!(
+        "RESULT file={} length={} ",
+        core::get_filename(&args.infilename),
+        text.len()
+    );
+
     let timenow = Instant::now();
 
     let factors = core::duval(&text);
-- 
2.43.0


From 3a2a76162a14625f91b6a61b2b7365011f02363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 12/23] fix: entropy_kmer sums up in a fixed order to be
 reproducible

---
 src/bin/entropy_kmer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index f4450b5..0b514e2 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -6,7 +6,7 @@ extern crate more_asserts;
 use stringology::core;
 use stringology::io;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[cfg(test)]
 #[macro_use]
@@ -25,8 +25,8 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     text_iter: &mut I,
     order: usize,
 ) -> (f64, usize) {
-    let mut kmers = HashMap::new();
-    let mut kplusmers = HashMap::new();
+    let mut kmers = BTreeMap::new();
+    let mut kplusmers = BTreeMap::new();
     let mut ringbuf: u64 = 0;
     for _ in 0..order {
         ringbuf <<= 8;
@@ -34,7 +34,7 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     }
     let mut count = order;
 
-    fn increment_kmer(order: usize, ringbuf: u64, kmers: &mut HashMap<u64, u64>) {
+    fn increment_kmer(order: usize, ringbuf: u64, kmers: &mut BTreeMap<u64, u64>) {
         let kmer = ringbuf & (u64::MAX >> (8 * (8 - order)));
         match kmers.get_mut(&kmer) {
             Some(val) => {
-- 
2.43.0


From 0d4963a49bba65ca34256c500994559b3a9003fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 13/23] fix: is_stringattractor reports uncovered substrings
 that are no valid UTF-8

---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From c90d9c9ef9ca2db45acd747a535c7b003a07cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 14/23] fix: the last letter of the power-of-2 sequence was a
 zero byte

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From 8b59ce8f2d4b132a45dc8efb4c24f6e309112774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 15/23] fix: bwt_by_matrix supports texts terminated with a
 zero byte

---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index e023dc9..1176714 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -61,6 +61,11 @@ pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     let n = text.len();
     assert_gt!(n, 0);
 
+    //@ a unique zero byte at the end already makes the suffix order the order of the conjugates
+    if text[n - 1] == 0u8 {
+        return bwt_from_text_by_sa(&text.to_vec());
+    }
+
     let conjugate_start = lyndon_conjugate(text);
     let mut newtext = Vec::with_capacity(n);
     for letter in text[conjugate_start..n].iter() {
-- 
2.43.0


From 027a3da6912fa1c8bb9890dbef077f3bb50d11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 16/23] fix: enumerate strings with plain iterators, as the
 coroutines crash in optimized builds

---
 src/bin/enumerate_lexparse.rs | 18 +++++++-----------
 src/bin/generator_kmer.rs     | 18 +++++++-----------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/bin/enumerate_lexparse.rs b/src/bin/enumerate_lexparse.rs
index 9e2aef0..026d260 100644
--- a/src/bin/enumerate_lexparse.rs
+++ b/src/bin/enumerate_lexparse.rs
@@ -41,7 +41,6 @@ fn compute_lexparse(text: &[u8], plcp: &[u32], phi: &[i32]) -> Vec<LZFactor> {
     factors
 }
 
-use generator::{done, Gn};
 use itertools::Itertools;
 use std::str;
 
@@ -50,17 +49,14 @@ use std::collections::HashMap;
 fn main() {
     let length: usize = 32;
     let alphabet_size: usize = 2;
-    let g = Gn::new_scoped(|mut s| {
-        for num in 0..usize::pow(alphabet_size, length as u32) {
-            let mut text = vec![b'a'; length];
-            let mut remainder = num;
-            for letter in &mut text {
-                *letter = b'a' + ((remainder % alphabet_size) as u8);
-                remainder /= alphabet_size;
-            }
-            s.yield_(text);
+    let g = (0..usize::pow(alphabet_size, length as u32)).map(|num| {
+        let mut text = vec![b'a'; length];
+        let mut remainder = num;
+        for letter in &mut text {
+            *letter = b'a' + ((remainder % alphabet_size) as u8);
+            remainder /= alphabet_size;
         }
-        done!();
+        text
     });
     let mut largest_difference = 0;
 
diff --git a/src/bin/generator_kmer.rs b/src/bin/generator_kmer.rs
index dadb222..89175c3 100644
--- a/src/bin/generator_kmer.rs
+++ b/src/bin/generator_kmer.rs
@@ -1,20 +1,16 @@
-use generator::{done, Gn};
 use std::str;
 
 fn main() {
     let length: usize = 8;
     let alphabet_size: usize = 4;
-    let g = Gn::new_scoped(|mut s| {
-        for num in 0..usize::pow(alphabet_size, length as u32) {
-            let mut text = vec![b'a'; length];
-            let mut remainder = num;
-            for letter in &mut text {
-                *letter = b'a' + ((remainder % alphabet_size) as u8);
-                remainder /= alphabet_size;
-            }
-            s.yield_(text);
+    let g = (0..usize::pow(alphabet_size, length as u32)).map(|num| {
+        let mut text = vec![b'a'; length];
+        let mut remainder = num;
+        for letter in &mut text {
+            *letter = b'a' + ((remainder % alphabet_size) as u8);
+            remainder /= alphabet_size;
         }
-        done!();
+        text
     });
 
     for i in g {
-- 
2.43.0


From 28518cd676e4b2115f144aa5543281173d30cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 17/23] fix: the binary de Bruijn word missed factors if the
 order is not small

---
 src/word.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..d032ab8 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -487,9 +487,18 @@ fn quaternary_to_binary(text: &[u8]) -> Vec<u8> {
     output
 }
 
-/// checks whether T[1..n] is a necklace, i.e., the lexicographically smallest string among all its
-/// shifted conjugates of the form T[i+1..n]T[1..i]
+/// checks whether T[1..n] is a pre-necklace, i.e., a prefix of a necklace
 pub fn is_necklace<T>(text: &T, n: usize) -> bool
+where
+    T: ?Sized + std::ops::Index<usize, Output = u8>,
+{
+    prenecklace_period(text, n).is_some()
+}
+
+/// computes the smallest period of T[1..n] if T[1..n] is a pre-necklace.
+/// T[1..n] is a necklace, i.e., the lexicographically smallest string among all its
+/// shifted conjugates of the form T[i+1..n]T[1..i], if and only if this period divides n
+fn prenecklace_period<T>(text: &T, n: usize) -> Option<usize>
 where
     T: ?Sized + std::ops::Index<usize, Output = u8>,
 {
@@ -506,9 +515,9 @@ where
         j += 1;
     }
     if j != n {
-        return false;
+        return None;
     }
-    true
+    Some(j - i)
 }
 
 #[allow(dead_code)]
@@ -554,7 +563,7 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
+        if prenecklace_period(&word, n).map_or(false, |period| n % period == 0) {
             first_char = reverse(first_char);
         }
         *word.back_mut().unwrap() = first_char;
-- 
2.43.0


From 0a44fb9de6bad2afeafc15a1158e6dd16441f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 18/23] fix: entropy is zero if the text is too short for the
 order

---
 src/bin/entropy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/entropy.rs b/src/bin/entropy.rs
index 0b7eff0..0696940 100644
--- a/src/bin/entropy.rs
+++ b/src/bin/entropy.rs
@@ -36,6 +36,10 @@ fn zero_order_entropy<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> f64 {
 //@ suffix.
 fn kth_order_entropy(text: &[u8], k: usize) -> f64 {
     assert_gt!(k, 0);
+    //@ no character has a context of length k
+    if text.len() <= k {
+        return 0.0;
+    }
     let sa = {
         let mut sa = vec![0; text.len()];
         assert!(!text[..text.len() - 1].iter().any(|&x| x == 0));
-- 
2.43.0


From 7717d4fc6d0eec3165f8632231df5f3f761fbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 19/23] fix: fail on word orders beyond the address space

In release builds the length 2^k wrapped around for k >= 64, and k + 2 for
k = 255, so that a wrong, short word was written with exit status 0.
---
 src/word.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index d032ab8..56087ba 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -10,6 +10,11 @@ const SQRT_5: f64 = 2.23606797749978969641; //(5.0 as f64).sqrt();
 const GOLDEN_RATIO: f64 = (1.0 + SQRT_5) / 2.0;
 const PSI: f64 = -1.0 / GOLDEN_RATIO;
 
+/// the length 2^k of a word; a plain shift would silently wrap around in release builds
+fn power_of_two(k: u8) -> usize {
+    1_usize.checked_shl(k.into()).expect("order too large")
+}
+
 pub fn fibonacci_number(k: u8) -> usize {
     if k == 0 {
         return 1;
@@ -33,7 +38,8 @@ fn fibonacci_number_estimate(k: u8) -> f64 {
 /// https://oeis.org/A003849
 /// Reference: Patrice Séébold: "Sequences generated by infinitely iterated morphisms". Discret. Appl. Math. 11(3): 255-264 (1985)
 pub fn fibonacci_word(k: u8) -> Vec<u8> {
-    let length = (fibonacci_number_estimate(k + 2) + 1.0) as usize + 1;
+    let order = k.checked_add(2).expect("order too large");
+    let length = (fibonacci_number_estimate(order) + 1.0) as usize + 1;
     let mut text = vec![0_u8; length];
     // let mut text : Vec<u8> = Vec::with_capacity(length);
     // unsafe { text.set_len(length); }
@@ -239,7 +245,7 @@ fn iterate_2morphism(rounds: u8, morphism: fn(u8) -> &'static [u8]) -> Vec<u8> {
     if rounds == 0 {
         return vec![CHR_A];
     }
-    let n = 1 << (rounds);
+    let n = power_of_two(rounds);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -414,7 +420,7 @@ pub fn paperfolding_word(i: u8) -> Vec<u8> {
 /// https://oeis.org/A014577
 /// where a = 00, b = 01, c = 10, d = 11
 pub fn quaternary_paperfolding_word(i: u8) -> Vec<u8> {
-    let n = 1 << i;
+    let n = power_of_two(i);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -601,7 +607,7 @@ fn test_binary_debrujin_word() {
 /// is https://oeis.org/A209229 and
 /// resembles https://oeis.org/A267366
 pub fn power2_sequence(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = power_of_two(k);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
-- 
2.43.0


From 98c5a12c16ed92766133847e5dd80ba1c118befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 20/23] fix: reject alphabet sizes lyndonwords cannot represent

In release builds the letters wrapped around for sigma > 159, and sigma = 0
never terminated.
---
 src/bin/lyndonwords.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/lyndonwords.rs b/src/bin/lyndonwords.rs
index c04e41b..deab0e8 100644
--- a/src/bin/lyndonwords.rs
+++ b/src/bin/lyndonwords.rs
@@ -23,6 +23,12 @@ struct Args {
 
 fn main() {
     let args = Args::parse();
+    //@ each letter is a single byte starting from 'a'
+    let max_sigma = (u8::MAX - b'a') as usize + 1;
+    if args.sigma < 1 || args.sigma > max_sigma {
+        eprintln!("sigma must be between 1 and {}", max_sigma);
+        std::process::exit(1);
+    }
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     for it in core::LyndonWordGenerator::new(args.length, args.sigma) {
-- 
2.43.0


From e5a0513f58894e0d78a4c4eedbd59678419ed29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 21/23] fix: kolakoski words no longer need memory for 2^k
 symbols

The buffer was sized by a bound of 2^(k+2), 128 GiB for the 3 MB word of
order 35, so that moderate orders aborted.
---
 src/word.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index 56087ba..6defc80 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -133,14 +133,15 @@ fn test_thuemorse_word() {
 }
 
 /// upper bound on the length of the k-th kolakoski word
+/// the length grows by the number of 2s, which are at most two out of three consecutive symbols
 fn kolakoski_length_estimate(k: u8) -> f64 {
-    (2.0f64).powi(k as i32)
+    3.0 * (5.0f64 / 3.0).powi(k as i32)
 }
 
 /// Computes the k-th Kolakoski word starting with 22
 /// https://oeis.org/A078880
 pub fn kolakoski_word(k: u8) -> Vec<u8> {
-    let length = (kolakoski_length_estimate(k + 2) + 1.0) as usize + 1;
+    let length = (kolakoski_length_estimate(k) + 1.0) as usize + 1;
     let mut text = vec![0_u8; length];
     // let mut text : Vec<u8> = Vec::with_capacity(length);
     // unsafe { text.set_len(length); }
-- 
2.43.0


From 99c78fdf871f2454c3eb1af95ce7d413db9d6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 22/23] fix: BinaryStringGenerator emits every string of the
 length once, in lexicographic order

---
 src/core.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 1176714..396d74e 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -505,12 +505,15 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        //@ there are 2^length strings; from length 64 on, the rank runs out of numbers first
+        let rank_limit = 1_u64.checked_shl(self.m_length.into()).unwrap_or(u64::MAX);
+        if self.m_rank == rank_limit {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
-            let bit = self.m_rank & (1 << i);
+        //@ the most significant bit comes first; bits beyond the rank's width are zero
+        for i in (0..self.m_length).rev() {
+            let bit = self.m_rank.checked_shr(i.into()).unwrap_or(0) & 1;
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
         self.m_rank += 1;
-- 
2.43.0


From 97c997ca18b0afe1023b4cf8da745d953d914ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:16 +0000
Subject: [PATCH 23/23] fix: number_distinct_lyndon_factors compares the first
 two factors as a whole

The last letter of the first factor was left out of the comparison, so that
e.g. baaa was said to have one distinct Lyndon factor instead of two (b, a).
---
 src/unfinished/parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unfinished/parallel.rs b/src/unfinished/parallel.rs
index 68e8568..c068456 100644
--- a/src/unfinished/parallel.rs
+++ b/src/unfinished/parallel.rs
@@ -67,7 +67,7 @@ fn number_distinct_lyndon_factors(text: &[u8]) -> usize {
    if conjugates[1]-conjugates[0] != 1+conjugates[0] { //@ different factor lengths means different factor
       counter += 1;
    } else {
-      for i in 0..conjugates[0] {
+      for i in 0..=conjugates[0] {
          if text[i] != text[conjugates[0]+1+i] {
             counter += 1;
             break;
-- 
2.43.0

