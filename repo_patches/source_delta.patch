From c9f00dd8c76e7a9dfd3f419f431c8d62e16f6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH] fix: no abort for all-ones significands in left-closed
 directed rounding

For toward_zero (and toward +-infinity on the matching sign) an input whose
significand bits are all set makes fc + 2^(q-p-1) overflow to 0. compute_mul
was guarded against that, is_product_integer was not: divisible_by_power_of_2
asserted x != 0 (ctz of 0 with NDEBUG), and divisible_by_power_of_5 reported
2^q as a multiple of 5^k.
---
 grisu_exact.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..0e5ea14 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2483,6 +2483,15 @@ namespace jkj {
 						integer_check_exponent_lower_bound_for_q_mp :
 						integer_check_exponent_lower_bound_for_q_mp_m1;
 
+					// For left-closed directed rounding, f = fc + 2^(q-p-1) overflows
+					// when all bits of fc are set; f == 0 then stands for 2^q
+					if constexpr (case_id == integer_check_case_id::other) {
+						if (f == 0) {
+							return exponent <= max_exponent_for_k_geq_0 &&
+								minus_k - exponent <= int(extended_precision);
+						}
+					}
+
 					// Exponent for 2 is negative
 					if (exponent < exp_2_upper_bound) {
 						auto exp_2 = minus_k - exponent;
-- 
2.43.0

