From a3c20a1835786abb4443da53f8a80bcd807ca999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:32 +0000
Subject: [PATCH 01/40] fix: declare vmaxq/vminq unsigned variants with
 unsigned vector types

---
 neon_sim.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0e015e7..dc1d775 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1239,9 +1239,9 @@ int32x4_t vmaxq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vmaxq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1249,9 +1249,9 @@ int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vmaxq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1259,9 +1259,9 @@ int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vmaxq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -3683,9 +3683,9 @@ int32x4_t vminq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vminq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3693,9 +3693,9 @@ int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vminq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3703,9 +3703,9 @@ int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vminq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vminq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
-- 
2.43.0


From 0b950779f99015ac2135b88c30842713c3992dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 02/40] fix: define vld2_s32 under its declared name

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index dc1d775..5d346a0 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -233,7 +233,7 @@ uint32x2x2_t vld2_u32(uint32_t const* ptr)
     }
     return r;
 }
-int32x2x2_t vld_s32(int32_t const* ptr)
+int32x2x2_t vld2_s32(int32_t const* ptr)
 {
     int32x2x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 6279cc884ae617981387e06db33654a4b17533bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 03/40] fix: define veor_u32 under its declared name

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 5d346a0..b18af5a 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5317,7 +5317,7 @@ uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b)
     return r;
 }
 
-uint32x2_t ver_u32(uint32x2_t a, uint32x2_t b)
+uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b)
 {
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 18f989f76c5c43b3fbe3e1c675771b9a93744803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:41 +0000
Subject: [PATCH 04/40] fix: define vsub_f64 under its declared name

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b18af5a..fc940d5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1869,7 +1869,7 @@ float32x2_t vsub_f32(float32x2_t N, float32x2_t M)
     return D;
 }
 
-float64x1_t vsub_f32(float64x1_t N, float64x1_t M)
+float64x1_t vsub_f64(float64x1_t N, float64x1_t M)
 {
     float64x1_t D;
     for (size_t i = 0; i < 1; i++)
-- 
2.43.0


From c604fa91048fe8dc39bf499c89f83083f5c7a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:44 +0000
Subject: [PATCH 05/40] fix: vsubhn_s32/s64/u32/u64: declared name and
 high-half shift

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index fc940d5..46a43f1 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1974,22 +1974,22 @@ int8x8_t vsubhn_s16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int16x4_t vsubn_s32(int32x4_t N, int32x4_t M)
+int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
 {
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = ((uint32_t)N.val[i] - (uint32_t)M.val[i]) >> 16;
     }
     return D;
 }
 
-int32x2_t vsubn_s64(int64x2_t N, int64x2_t M)
+int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = ((uint64_t)N.val[i] - (uint64_t)M.val[i]) >> 32;
     }
     return D;
 }
@@ -2004,22 +2004,22 @@ uint8x8_t vsubhn_u16(uint16x8_t N, uint16x8_t M)
     return D;
 }
 
-uint16x4_t vsubn_u32(uint32x4_t N, uint32x4_t M)
+uint16x4_t vsubhn_u32(uint32x4_t N, uint32x4_t M)
 {
     uint16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-uint32x2_t vsubn_u64(uint64x2_t N, uint64x2_t M)
+uint32x2_t vsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
-- 
2.43.0


From 41943ece5593fdc8e099bd32ca0db7e82ea75475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 06/40] fix: vsubl_s32/u32: first operand is a 64-bit vector as
 declared

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 46a43f1..87e23e3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2256,7 +2256,7 @@ int32x4_t vsubl_s16(int16x4_t N, int16x4_t M)
     return D;
 }
 
-int64x2_t vsubl_s32(int32x4_t N, int32x2_t M)
+int64x2_t vsubl_s32(int32x2_t N, int32x2_t M)
 {
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -2286,7 +2286,7 @@ uint32x4_t vsubl_u16(uint16x4_t N, uint16x4_t M)
     return D;
 }
 
-uint64x2_t vsubl_u32(uint32x4_t N, uint32x2_t M)
+uint64x2_t vsubl_u32(uint32x2_t N, uint32x2_t M)
 {
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
-- 
2.43.0


From 8dfc8caf874b1bf95b18551b0d3d13b92a45e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 07/40] fix: vst4_u8/vst4_u32: store the fourth vector at
 offset 3

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 87e23e3..0d7fdc8 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1112,7 +1112,7 @@ void vst4_u8(uint8_t* ptr, uint8x8x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 4] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 void vst4_u16(uint16_t* ptr, uint16x4x4_t val)
@@ -1132,7 +1132,7 @@ void vst4_u32(uint32_t* ptr, uint32x2x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 2] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 
-- 
2.43.0


From 428edfaab025ebbaddf396e8b7856d58300434aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 08/40] fix: vadd/vsub s32/s64: wrap without signed overflow

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0d7fdc8..d4c48a0 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1307,7 +1307,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1315,7 +1315,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
 int64x1_t vadd_s64(int64x1_t N, int64x1_t M)
 {
     int64x1_t D;
-    D.val[0] = N.val[0] + M.val[0];
+    D.val[0] = (uint64_t)N.val[0] + (uint64_t)M.val[0];
     return D;
 }
 
@@ -1585,7 +1585,7 @@ int32x4_t vaddq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1595,7 +1595,7 @@ int64x2_t vaddq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint64_t)N.val[i] + (uint64_t)M.val[i];
     }
     return D;
 }
@@ -1809,7 +1809,7 @@ int32x2_t vsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1818,7 +1818,7 @@ int64x1_t vsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)M.val[i];
     }
     return D;
 }
@@ -1903,7 +1903,7 @@ int32x4_t vsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1912,7 +1912,7 @@ int64x2_t vsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)M.val[i];
     }
     return D;
 }
-- 
2.43.0


From bfcc1ff2b898f4aaa7ca08988ac0e7cced878a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 09/40] fix: vmul/vmul_n u16/s32: wrap without signed overflow

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index d4c48a0..85ea228 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2720,7 +2720,7 @@ int32x2_t vmul_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2740,7 +2740,7 @@ uint16x4_t vmul_u16(uint16x4_t N, uint16x4_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2779,7 +2779,7 @@ int32x4_t vmulq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2797,7 +2797,7 @@ uint16x8_t vmulq_u16(uint16x8_t N, uint16x8_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2837,7 +2837,7 @@ int32x2_t vmul_n_s32(int32x2_t N, int32_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2847,7 +2847,7 @@ uint16x4_t vmul_n_u16(uint16x4_t N, uint16_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2900,7 +2900,7 @@ int32x4_t vmulq_n_s32(int32x4_t N, int32_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2910,7 +2910,7 @@ uint16x8_t vmulq_n_u16(uint16x8_t N, uint16_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
-- 
2.43.0


From b6c70d39edc902f103cac83a5196ba1a88679c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 10/40] fix: vmlaq_s32/u16: wrap without signed overflow

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 85ea228..246ca93 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3212,7 +3212,7 @@ int32x4_t vmlaq_s32(int32x4_t N, int32x4_t M, int32x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i] * (uint32_t)P.val[i];
     }
     return D;
 }
@@ -3232,7 +3232,7 @@ uint16x8_t vmlaq_u16(uint16x8_t N, uint16x8_t M, uint16x8_t P)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = N.val[i] + (uint32_t)M.val[i] * P.val[i];
     }
     return D;
 }
-- 
2.43.0


From 0d1292d3adf5170532b67d2d73bd8939dcbffa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 11/40] fix: vmull/vmull_n: multiply in the result width

---
 neon_sim.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 246ca93..99e86ac 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2962,7 +2962,7 @@ uint32x4_t vmull_u16(uint16x4_t a, uint16x4_t b)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2971,7 +2971,7 @@ uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b)
     uint64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2999,7 +2999,7 @@ int64x2_t vmull_s32(int32x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (int64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3020,7 +3020,7 @@ int64x2_t vmull_n_s32(int32x2_t N, int32_t M)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (int64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3030,7 +3030,7 @@ uint32x4_t vmull_n_u16(uint16x4_t N, uint16_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -3040,7 +3040,7 @@ uint64x2_t vmull_n_u32(uint32x2_t N, uint32_t M)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint64_t)N.val[i] * M;
     }
     return D;
 }
-- 
2.43.0


From f2a1d88c12c41340b400ff8d3c3bb070ae7f4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 12/40] fix: vmlal/vmlsl: multiply and accumulate in the result
 width

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 99e86ac..a0ddd61 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3080,7 +3080,7 @@ int32x4_t vmlal_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)(M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3090,7 +3090,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] + (uint64_t)((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3110,7 +3110,7 @@ uint32x4_t vmlal_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3120,7 +3120,7 @@ uint64x2_t vmlal_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3141,7 +3141,7 @@ int32x4_t vmlsl_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)(M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3151,7 +3151,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3171,7 +3171,7 @@ uint32x4_t vmlsl_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3181,7 +3181,7 @@ uint64x2_t vmlsl_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 43d9483b4642657db606c378d9fe5127294a160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 13/40] fix: vaddl_high_s32/u32: add in 64 bits

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a0ddd61..80284b8 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1697,7 +1697,7 @@ int64x2_t vaddl_high_s32(int32x4_t a, int32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (int64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1730,7 +1730,7 @@ uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
-- 
2.43.0


From f662fdeb7d8afc99b9f0a84644f23baf8dda3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 14/40] fix: vaddw/vsubw s16/s32: wrap without signed overflow

---
 neon_sim.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 80284b8..f7ed85f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1382,7 +1382,7 @@ int32x4_t vaddw_s16(int32x4_t a, int16x4_t b)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] + b.val[i];
     }
     return r;
 }
@@ -1392,7 +1392,7 @@ int64x2_t vaddw_s32(int64x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] + b.val[i];
     }
     return r;
 }
@@ -1445,7 +1445,7 @@ int32x4_t vaddw_high_s16(int32x4_t a, int16x8_t b)
     const int ofs = 4;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint32_t)a.val[i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1456,7 +1456,7 @@ int64x2_t vaddw_high_s32(int64x2_t a, int32x4_t b)
     const int ofs = 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[i] + b.val[ofs + i];
     }
     return r;
 }
@@ -2312,7 +2312,7 @@ int32x4_t vsubw_s16(int32x4_t N, int16x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (int32_t)(M.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)(M.val[i]);
     }
     return D;
 }
@@ -2322,7 +2322,7 @@ int64x2_t vsubw_s32(int64x2_t N, int32x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (int64_t)(M.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)(M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From bc2d91ddc7e9f733575a88a8ec02872ed1c6f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 15/40] fix: vaddhn_high s32/u32/s64/u64: take the high half

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index f7ed85f..b16542f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1513,7 +1513,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (int16_t)(((uint32_t)a.val[i] + (uint32_t)b.val[i]) >> 16);
     return ret;
 }
 
@@ -1523,7 +1523,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (int32_t)(((uint64_t)a.val[i] + (uint64_t)b.val[i]) >> 32);
     return ret;
 }
 
@@ -1543,7 +1543,7 @@ uint16x8_t vaddhn_high_u32(uint16x4_t r, uint32x4_t a, uint32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1553,7 +1553,7 @@ uint32x4_t vaddhn_high_u64(uint32x2_t r, uint64x2_t a, uint64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 #endif // __aarch64__
-- 
2.43.0


From 5a89ced62c603e975a8e7b68a52ca356dc91047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:19 +0000
Subject: [PATCH 16/40] fix: vhsub/vhsubq s32/u32: halve the exact difference

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b16542f..9a17a59 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2050,7 +2050,7 @@ int32x2_t vhsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2080,7 +2080,7 @@ uint32x2_t vhsub_u32(uint32x2_t N, uint32x2_t M)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2111,7 +2111,7 @@ int32x4_t vhsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2141,7 +2141,7 @@ uint32x4_t vhsubq_u32(uint32x4_t N, uint32x4_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
-- 
2.43.0


From 6ca67dcbfb3ca8e42fc8fc6b5799f5da2e6390d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 17/40] fix: vqsub/vqsubq s64/u64: subtract exactly

---
 neon_sim.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 9a17a59..a84a159 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2218,12 +2218,12 @@ int64x1_t vqsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        int64_t temp = (int64_t)((uint64_t)N.val[i] - (uint64_t)M.val[i]);
+        if (N.val[i] >= 0 && M.val[i] < 0 && temp < 0)
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (N.val[i] < 0 && M.val[i] >= 0 && temp >= 0)
         {
             D.val[i] = INT64_MIN;
         }
@@ -2428,12 +2428,8 @@ uint64x1_t vqsub_u64(uint64x1_t N, uint64x1_t M)
     uint64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        uint64_t temp = N.val[i] - M.val[i];
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
@@ -2517,12 +2513,12 @@ int64x2_t vqsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        int64_t temp = (int64_t)((uint64_t)N.val[i] - (uint64_t)M.val[i]);
+        if (N.val[i] >= 0 && M.val[i] < 0 && temp < 0)
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (N.val[i] < 0 && M.val[i] >= 0 && temp >= 0)
         {
             D.val[i] = INT64_MIN;
         }
@@ -2605,12 +2601,8 @@ uint64x2_t vqsubq_u64(uint64x2_t N, uint64x2_t M)
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        uint64_t temp = N.val[i] - M.val[i];
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
-- 
2.43.0


From 05cc668bf51bfc4bbc825f8c8dcf9a5f813bd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 18/40] fix: vrsubhn s32/s64/u64: rounding constant and wrap in
 the element width

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a84a159..29e14e6 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2633,7 +2633,7 @@ int16x4_t vrsubhn_s32(int32x4_t N, int32x4_t M)
     const int32_t delta = (1 << (shift - 1));
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint32_t)N.val[i] - (uint32_t)M.val[i] + delta) >> shift;
     }
     return D;
 }
@@ -2642,10 +2642,10 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     const int64_t shift = 32;
-    const int64_t delta = (1 << (shift - 1));
+    const int64_t delta = ((int64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint64_t)N.val[i] - (uint64_t)M.val[i] + delta) >> shift;
     }
     return D;
 }
@@ -2678,7 +2678,7 @@ uint32x2_t vrsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     const uint64_t shift = 32;
-    const uint64_t delta = (1 << (shift - 1));
+    const uint64_t delta = ((uint64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
-- 
2.43.0


From 8f6d55030235fe6c74fb9032ba8dc275998a69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 19/40] fix: vqshrun_n_s32/s64: truncate, and store the result

---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 29e14e6..63b0e7f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3891,7 +3891,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        int32_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int32_t temp = v.val[i] >> n;
         if (temp > UINT16_MAX)
         {
             temp = UINT16_MAX;
@@ -3900,6 +3900,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
@@ -3915,7 +3916,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        int64_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int64_t temp = v.val[i] >> n;
         if (temp > UINT32_MAX)
         {
             temp = UINT32_MAX;
@@ -3924,6 +3925,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
-- 
2.43.0


From f5c31192ed44949bef8f0694d295c61d960b679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 20/40] fix: vshr_n_u16: accept shifts up to 16

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 63b0e7f..6b045eb 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3761,9 +3761,9 @@ int8x8_t vshrn_n_s16(int16x8_t a, const int n)
 
 uint16x4_t vshr_n_u16(uint16x4_t v, const int n)
 {
-    if (n < 1 || n > 8)
+    if (n < 1 || n > 16)
     {
-        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
         abort();
     }
 
-- 
2.43.0


From 72bc8f45335f8513bb4af5e4bd9ba7818cffdc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 21/40] fix: vsraq_n_s32: accumulate the unshifted first
 operand, check n

---
 neon_sim.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 6b045eb..8265b9d 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3967,10 +3967,15 @@ uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 
 int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  (a.val[i] >> n) + (b.val[i] >> n);
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)((int64_t)b.val[i] >> n);
     }
     return r;
 }
-- 
2.43.0


From 88cb890f122f222d3d768e6bb3081e7346302a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 22/40] fix: vshlq_n_s32: shift unsigned, check n

---
 neon_sim.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8265b9d..19344cd 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3983,10 +3983,15 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 // shift left
 int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 {
+    if (n < 0 || n > 31)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 31]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = M.val[i] << n;
+        D.val[i] = (uint32_t)M.val[i] << n;
     }
     return D;
 }
-- 
2.43.0


From 32f3b671865afe6331f30ad40aadcaca07bafa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 23/40] fix: vqshrn_n_s64: clamp in 64 bits

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 19344cd..fa131d5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -6027,7 +6027,7 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  std::min<int32_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
+        r.val[i] =  std::min<int64_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
     }
     return r;
 }
-- 
2.43.0


From 3f3823c905a39bdc75192a3c074a3d307bb4a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:45 +0000
Subject: [PATCH 24/40] fix: vqtbl1_u8: out-of-range indices give 0

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index fa131d5..92ab33e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4739,7 +4739,7 @@ uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx)
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
-        r.val[i] =  t.val[idx.val[i]];
+        r.val[i] =  idx.val[i] < 16 ? t.val[idx.val[i]] : 0;
     }
     return r;
 }
-- 
2.43.0


From be405c352ea3f3f8a2805061f8583a0181360eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 25/40] fix: vrev32_s8: process 8 lanes

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 92ab33e..de99657 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5670,7 +5670,7 @@ uint8x16_t vrev16q_u8(uint8x16_t vec)
 int8x8_t vrev32_s8(int8x8_t vec)
 {
     int8x8_t r;
-    for (int i = 0; i < 16; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 1faf87d4844d8e621ce996e1e80a47795e9c5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 26/40] fix: vrev64q_s8/s16: process the upper half

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index de99657..6135638 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5862,7 +5862,7 @@ float32x2_t vrev64_f32(float32x2_t vec)
 int8x16_t vrev64q_s8(int8x16_t vec)
 {
     int8x16_t r;
-    for (int i = 0; i < 8; i += 8)
+    for (int i = 0; i < 16; i += 8)
     {
         r.val[i + 0] = vec.val[i + 7];
         r.val[i + 1] = vec.val[i + 6];
@@ -5879,7 +5879,7 @@ int8x16_t vrev64q_s8(int8x16_t vec)
 int16x8_t vrev64q_s16(int16x8_t vec)
 {
     int16x8_t r;
-    for (int i = 0; i < 4; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 85ecc24038305cade941586dc80edcc850da3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 27/40] fix: vbslq_f32: select bit by bit

---
 neon_sim.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 6135638..d115eb7 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3737,7 +3737,11 @@ float32x4_t vbslq_f32(uint32x4_t mask, float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  mask.val[i] ? a.val[i] : b.val[i];
+        uint32_t x, y;
+        memcpy(&x, &a.val[i], sizeof(x));
+        memcpy(&y, &b.val[i], sizeof(y));
+        x = (mask.val[i] & x) | (~mask.val[i] & y);
+        memcpy(&r.val[i], &x, sizeof(x));
     }
     return r;
 }
-- 
2.43.0


From 03e4d22e69d6666e7835418757a7dbf449c021df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 28/40] fix: vmaxq/vminq/vpmax/vpmin f32: NaN and signed zero

---
 neon_sim.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index d115eb7..9a72c36 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -9,6 +9,20 @@
 #include <algorithm>
 #include <string>
 
+// FMAX/FMIN: a NaN operand gives NaN, and +0 is greater than -0
+static float32_t fp_max(float32_t a, float32_t b)
+{
+    if (a != a || b != b) return a + b;
+    if (a == b) return signbit(a) ? b : a;
+    return a > b ? a : b;
+}
+static float32_t fp_min(float32_t a, float32_t b)
+{
+    if (a != a || b != b) return a + b;
+    if (a == b) return signbit(a) ? a : b;
+    return a < b ? a : b;
+}
+
 ////// Load
 // vld1
 uint8x8_t vld1_u8(uint8_t const* ptr)
@@ -1274,7 +1288,7 @@ float32x4_t vmaxq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = fp_max(N.val[i], M.val[i]);
     }
     return D;
 }
@@ -3570,16 +3584,16 @@ uint8x8_t vget_high_u8(uint8x16_t a)
 float32x2_t vpmax_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] > a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] > b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = fp_max(a.val[0], a.val[1]);
+    r.val[1] = fp_max(b.val[0], b.val[1]);
     return r;
 }
 
 float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] < a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] < b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = fp_min(a.val[0], a.val[1]);
+    r.val[1] = fp_min(b.val[0], b.val[1]);
     return r;
 }
 
@@ -3710,7 +3724,7 @@ float32x4_t vminq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = fp_min(N.val[i], M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From a32afeed78a7a9476734a49b553f4c42c2b411d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 29/40] fix: vcvtq_s32/u32_f32: saturate, NaN gives 0

---
 neon_sim.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 9a72c36..90e4b0b 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4252,7 +4252,12 @@ int32x4_t vcvtq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        if (a.val[i] >= 2147483648.0f)
+            r.val[i] = INT32_MAX;
+        else if (a.val[i] < -2147483648.0f)
+            r.val[i] = INT32_MIN;
+        else
+            r.val[i] =  a.val[i] == a.val[i] ? (int32_t)a.val[i] : 0;
     }
     return r;
 }
@@ -4262,7 +4267,10 @@ uint32x4_t vcvtq_u32_f32(float32x4_t a)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        if (a.val[i] >= 4294967296.0f)
+            r.val[i] = UINT32_MAX;
+        else
+            r.val[i] =  a.val[i] > 0 ? (uint32_t)a.val[i] : 0;
     }
     return r;
 }
-- 
2.43.0


From b76ae346e32a1b8d3816149fbb29e1da8e24723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 30/40] fix: vcvtnq_s32_f32: round to nearest even, saturate

---
 neon_sim.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 90e4b0b..3255f0c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4280,7 +4280,21 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        float v = a.val[i];
+        if (v >= 2147483648.0f)
+            r.val[i] = INT32_MAX;
+        else if (v < -2147483648.0f)
+            r.val[i] = INT32_MIN;
+        else if (v != v)
+            r.val[i] = 0;
+        else
+        {
+            // to nearest, ties to even, whatever the current rounding mode
+            double t = floor((double)v + 0.5);
+            if (t - (double)v == 0.5 && fmod(t, 2.0) != 0)
+                t -= 1;
+            r.val[i] =  (int32_t)t;
+        }
     }
     return r;
 }
-- 
2.43.0


From d548fc8a02dccc48ca12fa4888168f3ca93fcf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 31/40] fix: vrecpeq_f32: zeros, infinities, NaN and denormals

---
 neon_sim.cpp | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 3255f0c..b3329ff 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4337,10 +4337,48 @@ uint32_t RecipEstimate(uint32_t a)
 float FPRecipEstimate(float operand)
 {
     float_parts parts{operand};
-    parts.exp = 253 - parts.exp;
+    if (operand != operand)
+    {
+        return operand + operand;
+    }
+    if (parts.exp == 0xff) // infinity: zero
+    {
+        parts.exp = 0;
+        return float(parts);
+    }
+    if (parts.exp == 0 && parts.fraction < (1 << 21)) // below 2^-128: infinity
+    {
+        parts.exp = 0xff;
+        parts.fraction = 0;
+        return float(parts);
+    }
+    int exp = parts.exp;
+    if (exp == 0) // denormal: normalize
+    {
+        if ((parts.fraction & (1 << 22)) == 0)
+        {
+            exp = -1;
+            parts.fraction = (parts.fraction << 2) & ((1 << 23) - 1);
+        }
+        else
+        {
+            parts.fraction = (parts.fraction << 1) & ((1 << 23) - 1);
+        }
+    }
+    int result_exp = 253 - exp;
     uint32_t scaled = 0x100 | ((parts.fraction >> 15) & 0xFF);
     uint32_t estimate = RecipEstimate(scaled);
     parts.fraction = (estimate & 0xff) << 15;
+    if (result_exp == 0) // denormal result
+    {
+        parts.fraction = (1 << 22) | (parts.fraction >> 1);
+    }
+    else if (result_exp == -1)
+    {
+        parts.fraction = (1 << 21) | (parts.fraction >> 2);
+        result_exp = 0;
+    }
+    parts.exp = result_exp;
     return float(parts);
 }
 
-- 
2.43.0


From 24618a7460ed92cff54c1f8fff17bd58ee7280ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 32/40] fix: vrecpsq_f32: fused step, infinity times zero gives
 2

---
 neon_sim.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b3329ff..e09ea05 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4428,7 +4428,10 @@ float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  2.0 - (a.val[i] * b.val[i]);
+        if ((isinf(a.val[i]) && b.val[i] == 0) || (a.val[i] == 0 && isinf(b.val[i])))
+            r.val[i] = 2.0f;
+        else
+            r.val[i] =  fmaf(-a.val[i], b.val[i], 2.0f);
     }
     return r;
 }
-- 
2.43.0


From 07fd4896656520d91f8b1e55bc8e7ba3d664db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 33/40] fix: vld1_lane_s8/u8, vst4q_lane_f32: check the lane

---
 neon_sim.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index e09ea05..fb412f3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -651,6 +651,11 @@ float32x4_t vld1q_dup_f32(float32_t const* ptr)
 
 int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -662,6 +667,11 @@ int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 
 uint8x8_t vld1_lane_u8(uint8_t const* ptr, uint8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -1216,6 +1226,11 @@ void vst4q_u32(uint32_t* ptr, uint32x4x4_t val)
 // vst4q_lane
 void vst4q_lane_f32(float32_t* ptr, float32x4x4_t val, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     for (int i = 0; i < 4; i++)
     {
         ptr[i] = val.val[i].val[lane];
-- 
2.43.0


From db96fc088b4f5b8a0a99e13d995c174391a2d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:16 +0000
Subject: [PATCH 34/40] fix: vget_lane_f32, vgetq_lane_*: check the lane

---
 neon_sim.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index fb412f3..d5f0cd8 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3614,6 +3614,11 @@ float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 
 float32_t vget_lane_f32(float32x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
@@ -3630,46 +3635,91 @@ float32_t vgetq_lane_f32(float32x4_t v, int lane)
 // vgetq_lane_type
 uint8_t vgetq_lane_u8(uint8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint16_t vgetq_lane_u16(uint16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint32_t vgetq_lane_u32(uint32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint64_t vgetq_lane_u64(uint64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int8_t vgetq_lane_s8(int8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int16_t vgetq_lane_s16(int16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int32_t vgetq_lane_s32(int32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int64_t vgetq_lane_s64(int64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 float64_t vgetq_lane_f64(float64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
-- 
2.43.0


From cd1f897fe70a5e5dd9a53df3411fbca10bbc9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 35/40] fix: vrshrn_n_u16, vshll_n_u8, vqshrn_n_*: check n

---
 neon_sim.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index d5f0cd8..5072e6b 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4039,6 +4039,11 @@ uint8x8_t vqrshrun_n_s16(int16x8_t v, const int n)
 
 uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     const int delta = (1 << (n - 1));
     for (int i = 0; i < 8; i++)
@@ -4081,6 +4086,11 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 
 uint16x8_t vshll_n_u8(uint8x8_t a, const int n)
 {
+    if (n < 0 || n > 7)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint16x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6150,6 +6160,11 @@ float64x2_t vdivq_f64(float64x2_t a, float64x2_t b)
 // saturated shift right and narrow
 int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6160,6 +6175,11 @@ int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 
 int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     int16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6170,6 +6190,11 @@ int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 
 int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
@@ -6180,6 +6205,11 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 
 uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6190,6 +6220,11 @@ uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 
 uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     uint16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6200,6 +6235,11 @@ uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 
 uint32x2_t vqshrn_n_u64(uint64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-- 
2.43.0


From 662019b3bd2e959a2c3fec9559f30c36e18d83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:22 +0000
Subject: [PATCH 36/40] fix: vext_u8/vextq_u16: reject n = 8

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 5072e6b..52564dd 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4905,9 +4905,9 @@ uint8x8_t vext_u8(uint8x8_t a, uint8x8_t b, const int n)
 {
     uint8x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
@@ -4966,9 +4966,9 @@ uint16x8_t vextq_u16(uint16x8_t a, uint16x8_t b, const int n)
 {
     uint16x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
-- 
2.43.0


From 71af2381ec74d60a669484a6413a00f572f9bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 37/40] fix: vmlaq_f32/vmlaq_n_f32: round the product before
 adding

---
 neon_sim.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 52564dd..713ff1e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3273,7 +3273,9 @@ float32x4_t vmlaq_f32(float32x4_t N, float32x4_t M, float32x4_t P)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        // two statements: the product is rounded before the sum, never contracted to a fused multiply-add
+        float32_t product = M.val[i] * P.val[i];
+        D.val[i] = N.val[i] + product;
     }
     return D;
 }
@@ -3284,7 +3286,8 @@ float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float32_t c)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = a.val[i] + b.val[i] * c;
+        float32_t product = b.val[i] * c;
+        D.val[i] = a.val[i] + product;
     }
     return D;
 }
-- 
2.43.0


From adef9611b23b301775a19bcba3811a35376d35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 38/40] fix: vmlaq_f32/vmlaq_n_f32: never fuse the product,
 also where gcc contracts across statements (-mfma)

---
 neon_sim.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 713ff1e..edfa0e8 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3273,8 +3273,8 @@ float32x4_t vmlaq_f32(float32x4_t N, float32x4_t M, float32x4_t P)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        // two statements: the product is rounded before the sum, never contracted to a fused multiply-add
-        float32_t product = M.val[i] * P.val[i];
+        // volatile: the product is rounded before the sum, never contracted to a fused multiply-add
+        volatile float32_t product = M.val[i] * P.val[i];
         D.val[i] = N.val[i] + product;
     }
     return D;
@@ -3286,7 +3286,8 @@ float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float32_t c)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        float32_t product = b.val[i] * c;
+        // volatile: see vmlaq_f32
+        volatile float32_t product = b.val[i] * c;
         D.val[i] = a.val[i] + product;
     }
     return D;
-- 
2.43.0


From 567929abe64277b33055825a7209dc0261dd9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:13 +0000
Subject: [PATCH 39/40] fix: end the header with a newline (ISO C requires it)

---
 neon_sim.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.h b/neon_sim.h
index 4a9c2de..eea9d12 100644
--- a/neon_sim.h
+++ b/neon_sim.h
@@ -3408,4 +3408,4 @@ float16x8_t vdivq_f16(float16x8_t a, float16x8_t b);
 
 #ifdef __cplusplus
 }
-#endif
\ No newline at end of file
+#endif
-- 
2.43.0


From c29f859cf1c87be9f63b2b9ddbd5a19f4ec4d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:23 +0000
Subject: [PATCH 40/40] fix: keep the reciprocal-estimate helpers out of the
 program's namespace

---
 neon_sim.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index edfa0e8..46c42a0 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4381,6 +4381,8 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
 //----------------------------------------------------------------------
 // 3. reverse and reverse square root
 //----------------------------------------------------------------------
+namespace {
+
 struct float_parts
 {
     explicit float_parts(float v);
@@ -4492,6 +4494,8 @@ float_parts::operator float() const
     return result;
 }
 
+} // namespace
+
 float32x4_t vrecpeq_f32(float32x4_t N)
 {
     float32x4_t D;
-- 
2.43.0

