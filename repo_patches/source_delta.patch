From e69d3b2d4426827da30b152671098234ff65941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 1/3] fix: add up modulo-10 weights in a type that cannot
 overflow

The digit sums of the modulo-10 checksum were kept in a u8. An interleaved
2-of-5 barcode of odd length may have up to 255 data digits, whose weighted
sum exceeds 255: builds with overflow checks panicked and other builds printed
a wrong check digit.
---
 src/sym/helpers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..591c287 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -28,8 +28,8 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += u32::from(*d),
+            _ => evens += u32::from(*d),
         }
     }
 
@@ -43,6 +43,6 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     match 10 - ((odds + evens) % 10) {
         10 => 0,
-        n => n,
+        n => n as u8,
     }
 }
-- 
2.43.0


From fa048f3b9b77389dbb8b84d33f695e89ca4aed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 2/3] fix: reject a Code 128 digit pair that is interrupted
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

In character set C a digit waiting for its partner was kept across other
characters: "Ć1Ź2" was accepted and printed as FNC1 followed by 12. Such data
has no encoding and is now rejected like a switch of character set at the same
place.
---
 src/sym/code128.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..ef8939a 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,7 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 45b16a09b7081d33e45430b360f87afd680f018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 3/3] fix: sum Code 128 check character weights in 64 bits

From about 6,400 symbol characters on the weighted sum no longer fits an i32:
builds with overflow checks panicked and other builds looked up a check
character at an invalid index.
---
 src/sym/code128.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index ef8939a..5478d8e 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -346,11 +346,11 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
+        let sum: u64 = self
             .0
             .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+            .zip(0..self.0.len() as u64)
+            .fold(0, |t, (u, i)| t + (u.index() as u64 * cmp::max(1, i)));
 
         (sum % 103) as u8
     }
-- 
2.43.0

