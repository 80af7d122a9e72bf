From 1744dc38543c638e11cfc45c62c82f5c65473e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH] fix: sealpir: accumulate the dimension product of
 ComputeIndices in 64 bits

---
 psi/algorithm/sealpir/seal_pir.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/sealpir/seal_pir.cc b/psi/algorithm/sealpir/seal_pir.cc
index 5ff03f8..7d29eca 100644
--- a/psi/algorithm/sealpir/seal_pir.cc
+++ b/psi/algorithm/sealpir/seal_pir.cc
@@ -158,8 +158,8 @@ vector<uint64_t> ComputeIndices(uint64_t desiredIndex,
   vector<uint64_t> result;
   uint64_t j = desiredIndex;
 
-  uint64_t prod = accumulate(dimension_vec.begin(), dimension_vec.end(), 1,
-                             multiplies<uint64_t>());
+  uint64_t prod = accumulate(dimension_vec.begin(), dimension_vec.end(),
+                             static_cast<uint64_t>(1), multiplies<uint64_t>());
 
   for (uint32_t i = 0; i < dimension_vec.size(); ++i) {
     prod /= dimension_vec[i];
-- 
2.43.0

