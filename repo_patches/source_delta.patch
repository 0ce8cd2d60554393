From 1b6f62e59741ff2caf90546b8a45d517cf7f576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH] fix: normalize left distinct representations of the identity

Points equal to the identity kept whatever x and y the preceding operations
had produced, so two equal points could still have different encodings after
normalization. Normalization now stores the standard identity.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3720db9..5ac492d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,7 +236,10 @@ impl Group for G1 {
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
             Some(a) => a,
-            None => return,
+            None => {
+                self.0 = groups::G1::zero();
+                return;
+            }
         };
 
         self.0 = new.to_jacobian();
@@ -325,7 +328,10 @@ impl Group for G2 {
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
             Some(a) => a,
-            None => return,
+            None => {
+                self.0 = groups::G2::zero();
+                return;
+            }
         };
 
         self.0 = new.to_jacobian();
-- 
2.43.0

