From 25edda46e2392f02efaf5e6edf4f8cb0f72aaca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 1/3] fix: build without std: implement std::error::Error only
 with the std feature

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From d2d2fbd7bf2de57e7ebd6be2a5f3072523c0b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 2/3] fix: HyperLogLogPF::count() returned NaN or infinity for
 raw estimates >= 2^32

---
 src/hyperloglog.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..7cba698 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -189,8 +189,11 @@ where
             // Apply small range correction.
             raw = Self::linear_count(self.count, zeros);
         } else if raw > two32 / 30.0 {
-            // Apply large range correction.
-            raw = -1.0 * two32 * ln(1.0 - raw / two32);
+            // Apply large range correction, which is undefined for raw
+            // estimates of 2^32 and above: saturate instead.
+            let ratio = (raw / two32).min(1.0 - core::f64::EPSILON);
+
+            raw = -1.0 * two32 * ln(1.0 - ratio);
         }
 
         raw
-- 
2.43.0


From dec52d516a8a742be34d07cdf51165a66b729493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 3/3] fix: use the published linear counting threshold for
 precision 5

---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..5190cde 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -421,7 +421,7 @@ where
     fn threshold(precision: u8) -> f64 {
         match precision {
             4 => 10.0,
-            5 => 10.0,
+            5 => 20.0,
             6 => 40.0,
             7 => 80.0,
             8 => 220.0,
-- 
2.43.0

