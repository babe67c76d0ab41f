From c20dbebeb519808cf039eca498e6365117d72df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 01/47] fix: report every exception in __dfp_set_status

Each assignment overwrote the flags collected by the previous one, so
only the invalid exception, or a lone inexact, ever reached fetestexcept.
---
 libbid/bid_decimal_globals.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 5ce0655..ebb97da 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -97,10 +97,10 @@ __dfp_set_status (int excepts) {
   else
     {
       int fexcepts = (excepts & INEXACT_EXCEPTION) ? FE_INEXACT : 0;
-      fexcepts = (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
-      fexcepts = (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
-      fexcepts = (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
-      fexcepts = (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
+      fexcepts |= (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
+      fexcepts |= (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
+      fexcepts |= (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
+      fexcepts |= (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
       fesetexcept (fexcepts);
     }
 }
-- 
2.43.0


From 555ed8b54a242229440d99b88183122f2c83b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 02/47] fix: directed rounding of bid128_add at an even
 midpoint

The case of a smaller operand of exactly half an ulp tested only the sign
of that operand, so rounding upward and downward went the wrong way when
the two signs differ or both are negative.
---
 libbid/bid128_add.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libbid/bid128_add.c b/libbid/bid128_add.c
index 986ef53..ba678be 100644
--- a/libbid/bid128_add.c
+++ b/libbid/bid128_add.c
@@ -1392,7 +1392,8 @@ bid128_add (UINT128 x, UINT128 y
 	      }
 	      if (rnd_mode != ROUNDING_TO_NEAREST) {
 		if ((rnd_mode == ROUNDING_TIES_AWAY && x_sign == y_sign)
-		    || (rnd_mode == ROUNDING_UP && !y_sign)) {
+		    || (rnd_mode == ROUNDING_UP && !x_sign && !y_sign)
+		    || (rnd_mode == ROUNDING_DOWN && x_sign && y_sign)) {
 		  // add 1 ulp and then check for overflow
 		  C1_lo = C1_lo + 1;
 		  if (C1_lo == 0) {	// rounding overflow in the low 64 bits
@@ -1412,7 +1413,8 @@ bid128_add (UINT128 x, UINT128 y
 		      *pfpsf |= OVERFLOW_EXCEPTION;
 		    }
 		  }
-		} else if ((rnd_mode == ROUNDING_DOWN && y_sign)
+		} else if ((rnd_mode == ROUNDING_DOWN && !x_sign && y_sign)
+			   || (rnd_mode == ROUNDING_UP && x_sign && !y_sign)
 			   || (rnd_mode == ROUNDING_TO_ZERO
 			       && x_sign != y_sign)) {
 		  // subtract 1 ulp from C1
-- 
2.43.0


From 9701bb35a928d308daab434d83c99b5b3b5d24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 03/47] fix: overflow and underflow direction of negative bid64
 products

rmode is already mirrored for a negative product, and the packing helpers
mirror it again; hand them the user's rounding mode instead.
---
 libbid/bid64_mul.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libbid/bid64_mul.c b/libbid/bid64_mul.c
index 2c0c850..759a1b8 100644
--- a/libbid/bid64_mul.c
+++ b/libbid/bid64_mul.c
@@ -360,7 +360,7 @@ bid64_mul (UINT64 x,
       // convert to BID and return
       res =
 	fast_get_BID64_check_OF (sign_x ^ sign_y, final_exponent, C64,
-				 rmode, pfpsf);
+				 rnd_mode, pfpsf);
       BID_RETURN (res);
     }
     // go to convert_format and exit
@@ -368,7 +368,7 @@ bid64_mul (UINT64 x,
     res =
       get_BID64 (sign_x ^ sign_y,
 		 exponent_x + exponent_y - DECIMAL_EXPONENT_BIAS, C64,
-		 rmode, pfpsf);
+		 rnd_mode, pfpsf);
     BID_RETURN (res);
   }
 }
-- 
2.43.0


From 41a8a363fe38f28ac35ce11e1dfa2ec8a86bce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 04/47] fix: fma rounds once, in the current rounding direction

---
 ieee754r/fmad32.c        | 17 ++++++++++-------
 libdecnumber/decNumber.c |  6 ++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 268f042..89ce7b6 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #include <decNumberMath.h>
@@ -48,7 +49,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_product;
   decNumber dn_z;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
@@ -70,17 +70,20 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   if (decNumberIsNaN (&dn_z))
     return z+z;
 
-  decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_product, &dn_x, &dn_y, &context);
-
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
-  if (decNumberIsInfinite (&dn_product) && decNumberIsInfinite (&dn_z) &&
-	(decNumberIsNegative (&dn_product) != decNumberIsNegative (&dn_z)))
+  if ((decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y))
+      && decNumberIsInfinite (&dn_z)
+      && ((decNumberIsNegative (&dn_x) != decNumberIsNegative (&dn_y))
+	  != decNumberIsNegative (&dn_z)))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  decNumberAdd (&dn_result, &dn_product, &dn_z, &context);
+
+  /* The product must not be rounded before the addition.  */
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+  decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 2fff5c3..046fc89 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -3991,8 +3991,10 @@ static decNumber * decAddOp(decNumber *res, const decNumber *lhs,
 
       /* If, after pad, rhs would be longer than lhs by digits+1 or */
       /* more then lhs cannot affect the answer, except as a residue, */
-      /* so only need to pad up to a length of DIGITS+1. */
-      if (rhs->digits+padding > lhs->digits+reqdigits+1) {
+      /* so only need to pad up to a length of DIGITS+1.  [An RHS of */
+      /* more than DIGITS digits, from FMA, may still overlap the LHS.] */
+      if (rhs->digits+padding > lhs->digits+reqdigits+1
+       && padding > lhs->digits) {
 	/* The RHS is sufficient */
 	/* for residue use the relative sign indication... */
 	Int shift=reqdigits-rhs->digits;     /* left shift needed */
-- 
2.43.0


From d01fae3a215c41af3cad05dd66a4153cf7072126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 05/47] fix: unsigned conversions of exactly 2^31 and 2^63

---
 libbid/_dd_to_usi.c | 4 +++-
 libbid/_td_to_udi.c | 4 +++-
 libbid/_td_to_usi.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 626f9eb..959018c 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunsddsi (_Decimal64 x) {
   ux.d = x;
   res = __bid64_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // 0x80000000 is both 2^31 and the result for NaNs and out of range values
+  if (res == 0x80000000
+      && __bid64_to_uint64_xint (ux.i) != 0x80000000ull) res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 7e7b72a..f55d19d 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -34,7 +34,9 @@ __bid_fixunstddi (_Decimal128 x) {
 
   res = __bid128_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  // this is both 2^63 and the result for NaNs and out of range values
+  if (res == 0x8000000000000000ull
+      && !(x >= 9223372036854775808.DL && x < 9223372036854775809.DL)) res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index 00406be..b079d55 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunstdsi (_Decimal128 x) {
   ux.d = x;
   res = __bid128_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // 0x80000000 is both 2^31 and the result for NaNs and out of range values
+  if (res == 0x80000000
+      && __bid128_to_uint64_xint (ux.i) != 0x80000000ull) res = 0;
   return (res);
 }
 
-- 
2.43.0


From 23b4ba3ab5a515ea1ebebc9f7dd4442dc649df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 06/47] fix: bid64_from_int32 of INT_MIN

---
 libbid/bid_from_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index cfee0ed..84a4c33 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -42,8 +42,8 @@ bid64_from_int32 (int x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // in the lowest 32bits of the result
   if ((x & SIGNMASK32) == SIGNMASK32) {
     // negative int32
-    x = ~x + 1;	// 2's complement of x
-    res = (unsigned int) x | 0xb1c0000000000000ull;
+    // 2's complement of x
+    res = (~((unsigned int) x) + 1) | 0xb1c0000000000000ull;
     // (exp << 53)) = biased exp. is 0
   } else {	// positive int32
     res = x | 0x31c0000000000000ull;	// (exp << 53)) = biased exp. is 0
-- 
2.43.0


From 3358ed274304831f03421399eb031fa54a100c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 07/47] fix: 64-bit integer to _Decimal32 rounds once

---
 libbid/_di_to_sd.c  | 7 ++++---
 libbid/_udi_to_sd.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..34fd3b5 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatdisd (DItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // through the 128-bit format, which is exact, so as to round only once
+  res128 = __bid128_from_int64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..c582f49 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // through the 128-bit format, which is exact, so as to round only once
+  res128 = __bid128_from_uint64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
-- 
2.43.0


From cb3ea31b999fdff9154bfd5e79f09d0e7e1d0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 08/47] fix: 128-bit integer to decimal honours the rounding
 direction

---
 base-math/floattitd.c           | 25 ++++++++++++++++++-------
 sysdeps/soft-dfp/candtruncd32.c |  2 ++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index ea98a85..078924c 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -135,6 +135,15 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  t_mid = (unsigned long long) y;
 	  d_mid = t_mid;
 	  d_low = t_low;
+#ifndef UNSIGNED
+	  /* This may be rounded to a smaller format, which has to happen
+	   * with the sign already in place in the directed modes.  */
+	  if (negative)
+	    {
+	      d_low = -d_low;
+	      d_mid = -d_mid;
+	    }
+#endif
 	  result = (d_mid * 100000000000000000.DL) + d_low;
 	}
       else
@@ -147,6 +156,15 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  d_mid = t_mid;
 	  d_high = t_high;
 
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_low = -d_low;
+	      d_mid = -d_mid;
+	      d_high = -d_high;
+	    }
+#endif
+
           /* Call out to internal helpers to properly handle
 	   * conversion and trunctation into a smaller format.
 	   */
@@ -160,13 +178,6 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 #endif
 	}
 
-#ifndef UNSIGNED
-      /* Converted the absolute 127-bit value of "a" to Decimal128.
-       * Now correct the decimal sign if the original value
-       * was negative.  */
-      if (negative)
-	result = -result;
-#endif
     }
 
   return (result);
diff --git a/sysdeps/soft-dfp/candtruncd32.c b/sysdeps/soft-dfp/candtruncd32.c
index f1fbca0..d2ea5cb 100644
--- a/sysdeps/soft-dfp/candtruncd32.c
+++ b/sysdeps/soft-dfp/candtruncd32.c
@@ -41,6 +41,7 @@
 #include "dfpmacro.h"
 
 #include "convert_helpers.h"
+#include "mapround.h"
 
 #include <stdio.h>
 
@@ -61,6 +62,7 @@ FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
   decContext context;
 
   decContextDefault (&context, DEC_INIT_DECIMAL128);
+  context.round = __dn_getround ();
   /* Hack, we're using 39 digits here. */
   context.digits = 39;
 
-- 
2.43.0


From 7cca8016c90adb47501395eeccdf0335ce4e5ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 09/47] fix: logb just below a power of ten

---
 ieee754r/logbd32.c | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/ieee754r/logbd32.c b/ieee754r/logbd32.c
index 948e980..cdd684b 100644
--- a/ieee754r/logbd32.c
+++ b/ieee754r/logbd32.c
@@ -46,11 +46,6 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_tmp;
-  decNumber dn_log10;
-  decNumber dn_one;
-  decNumber dn_cmp;
-  enum rounding round;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -67,26 +62,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     return -x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberAbs (&dn_tmp, &dn_x, &context);
   /*  For DFP, we use radix 10 instead of whatever FLT_RADIX
       happens to be */
-  decNumberLog10 (&dn_log10, &dn_tmp, &context);
-
-  /* Capture the case where truncation will return the wrong result,
-     by rounding up if -1.0 < x < 1.0  */
-  round = DEC_ROUND_DOWN;
-  decNumberFromInt32 (&dn_one, 1);
-  decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-  if (-decNumberIsNegative(&dn_cmp))
-    {
-      decNumberFromInt32 (&dn_one, -1);
-      decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-      if (!decNumberIsNegative(&dn_cmp) && !decNumberIsZero(&dn_cmp))
-	round = DEC_ROUND_UP;
-    }
-  context.round = round;
-
-  decNumberToIntegralValue (&dn_result, &dn_log10, &context);
+  decNumberFromInt32 (&dn_result, dn_x.digits + dn_x.exponent - 1);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From dcf852b8da8e1ca5b7b8e56712cfb975fc30d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 10/47] fix: frexp stores a zero exponent for zero

---
 ieee754r/frexpd32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ieee754r/frexpd32.c b/ieee754r/frexpd32.c
index ece6582..cbad3fd 100644
--- a/ieee754r/frexpd32.c
+++ b/ieee754r/frexpd32.c
@@ -54,6 +54,12 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, int *y)
   if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x))
     return x+x;
 
+  if (x == DFP_CONSTANT(0.0))
+    {
+      *y = 0;
+      return x;
+    }
+
   // Given 3.1e0 is encoded as 31e-1 and we want .31e1
   // We have 2 'digits'.
 
-- 
2.43.0


From 8371637dcf19f645ee66972fd53b1deb2f37fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 11/47] fix: modf stores infinities and keeps the sign of zero
 parts

---
 ieee754r/modfd32.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ieee754r/modfd32.c b/ieee754r/modfd32.c
index 79ddb5d..9f08ac3 100644
--- a/ieee754r/modfd32.c
+++ b/ieee754r/modfd32.c
@@ -52,12 +52,18 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
       return x+x;
     }
    if (decNumberIsInfinite (&dn_x))
-    return DFP_CONSTANT(0.0)/x;
+    {
+      *y = x;
+      return DFP_CONSTANT(0.0)/x;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;	/* round towards zero */
   decNumberToIntegralValue (&dn_result, &dn_x, &context);
   decNumberSubtract (&dn_y, &dn_x, &dn_result, &context);
+  /* Both parts have the sign of the argument, even when zero.  */
+  if (decNumberIsZero (&dn_y))
+    dn_y.bits |= dn_x.bits & DECNEG;
 
   FUNC_CONVERT_FROM_DN (&dn_result, y, &context);
   FUNC_CONVERT_FROM_DN (&dn_y, &result, &context);
-- 
2.43.0


From 29807d4dfddaaa15393f6966d57244022d7bf803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 12/47] fix: quantum of zero

---
 ieee754r/quantumd128.c | 2 +-
 ieee754r/quantumd32.c  | 2 +-
 ieee754r/quantumd64.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ieee754r/quantumd128.c b/ieee754r/quantumd128.c
index b7c9eb9..314535b 100644
--- a/ieee754r/quantumd128.c
+++ b/ieee754r/quantumd128.c
@@ -38,7 +38,7 @@ __quantumd128 (_Decimal128 x)
   _Decimal128 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd32.c b/ieee754r/quantumd32.c
index 36e6c5f..10d6416 100644
--- a/ieee754r/quantumd32.c
+++ b/ieee754r/quantumd32.c
@@ -38,7 +38,7 @@ __quantumd32 (_Decimal32 x)
   _Decimal32 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd64.c b/ieee754r/quantumd64.c
index 42311a5..f2e1953 100644
--- a/ieee754r/quantumd64.c
+++ b/ieee754r/quantumd64.c
@@ -38,7 +38,7 @@ __quantumd64 (_Decimal64 x)
   _Decimal64 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
-- 
2.43.0


From d3193bc6a599b452fcc9d5f44479c58571e80438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 13/47] fix: fdim honours the rounding direction

---
 ieee754r/fdimd32.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieee754r/fdimd32.c b/ieee754r/fdimd32.c
index 6109c71..69c52df 100644
--- a/ieee754r/fdimd32.c
+++ b/ieee754r/fdimd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME fdim
@@ -54,6 +55,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     return x + y;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
 
   decNumberCompare (&dn_result, &dn_x, &dn_y, &context);
   if (decNumberIsNegative(&dn_result) || decNumberIsZero(&dn_result))
-- 
2.43.0


From 189ff03b082def8b24092b68c251c1e717841155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 14/47] fix: remainder of large quotients and infinite divisors

---
 ieee754r/remainderd32.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 7af09f2..1406bc5 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -42,12 +42,12 @@ static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   decContext context;
+  decContext quotient;
+  int digits;
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_mult;
-  decNumber dn_rounded;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -61,12 +61,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return (x - x) / (x - x);
     }
 
+  /* The quotient must be known to its last digit, whatever its size.  */
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
-  context.round = DEC_ROUND_HALF_EVEN;
-  decNumberToIntegralValue (&dn_rounded, &dn_mult, &context);
-  decNumberMultiply (&dn_mult, &dn_rounded, &dn_y, &context);
-  decNumberSubtract (&dn_result, &dn_x, &dn_mult, &context);
+  quotient = context;
+  quotient.clamp = 0;
+  digits = (dn_x.exponent + dn_x.digits) - (dn_y.exponent + dn_y.digits) + 2;
+  if (digits > quotient.digits)
+    quotient.digits = digits;
+  decNumberRemainderNear (&dn_result, &dn_x, &dn_y, &quotient);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
@@ -77,7 +79,8 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isinf) (x) || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
+  if ((FUNC_D(__isinf) (x) && !FUNC_D(__isnan) (y))
+      || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From df9dbf4695fa77cbda64ca168280592ae97c263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 15/47] fix: hypot of infinities, large and small operands

---
 ieee754r/hypotd128.c |  3 +++
 ieee754r/hypotd32.c  | 25 +++++++++++++++++--------
 ieee754r/hypotd64.c  |  3 +++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/ieee754r/hypotd128.c b/ieee754r/hypotd128.c
index 0ee2c95..ed2948e 100644
--- a/ieee754r/hypotd128.c
+++ b/ieee754r/hypotd128.c
@@ -23,6 +23,9 @@
 
    Please see libdfp/COPYING.txt for more information.  */
 
+/* Room for the exact squares; before including decNumber.h.  */
+#define DECNUMDIGITS 80
+
 #define _DECIMAL_SIZE 128
 #include <decimal128.h>
 
diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 3c06b93..fd4b4dd 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -24,6 +24,8 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #ifndef _DECIMAL_SIZE
+/* Room for the exact squares; before including decNumber.h.  */
+#  define DECNUMDIGITS 80
 #  include <decimal32.h>
 #  define _DECIMAL_SIZE 32
 #endif
@@ -44,6 +46,7 @@ static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   decContext context;
+  decContext wide;
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
@@ -54,18 +57,24 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
-  if (decNumberIsInfinite (&dn_x))
-    return x;
-  if (decNumberIsInfinite (&dn_y))
-    return y;
+  if (decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y))
+    return DEC_INFINITY;
   if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
     return x+y;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_xx, &dn_x, &dn_x, &context);
-  decNumberMultiply (&dn_yy, &dn_y, &dn_y, &context);
-  decNumberAdd (&dn_sum, &dn_xx, &dn_yy, &context);
-  decNumberSquareRoot (&dn_result, &dn_sum, &context);
+
+  /* Neither the squares nor their sum may overflow, underflow or be rounded
+     to the precision of the result.  */
+  wide = context;
+  wide.digits = DECNUMDIGITS;
+  wide.emax = DEC_MAX_EMAX;
+  wide.emin = DEC_MIN_EMIN;
+  wide.clamp = 0;
+  decNumberMultiply (&dn_xx, &dn_x, &dn_x, &wide);
+  decNumberMultiply (&dn_yy, &dn_y, &dn_y, &wide);
+  decNumberAdd (&dn_sum, &dn_xx, &dn_yy, &wide);
+  decNumberSquareRoot (&dn_result, &dn_sum, &wide);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/hypotd64.c b/ieee754r/hypotd64.c
index 0af1dd0..6683e03 100644
--- a/ieee754r/hypotd64.c
+++ b/ieee754r/hypotd64.c
@@ -23,6 +23,9 @@
 
    Please see libdfp/COPYING.txt for more information.  */
 
+/* Room for the exact squares; before including decNumber.h.  */
+#define DECNUMDIGITS 80
+
 #define _DECIMAL_SIZE 64
 #include <decimal64.h>
 
-- 
2.43.0


From 9d5d7c15eeeba04e75e6c2109ead5470d3ccd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 16/47] fix: ldexp, scalbn and scalbln over their whole range

---
 ieee754r/ldexpd32.c   | 58 +++++++++++--------------------------------
 ieee754r/scalblnd32.c | 32 ++++++++----------------
 ieee754r/scalbnd32.c  | 26 ++++++++-----------
 3 files changed, 34 insertions(+), 82 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..acfa62b 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -32,74 +32,44 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME ldexp
 
 #include <dfpmacro.h>
-#include <numdigits.h>
-#include <limits.h>
-
-#include "dfp_inline.h"
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
-  long newexp;
-  int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
-  int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
-
-#if NUMDIGITS_SUPPORT==1
-  newexp = FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
-    {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
-    }
-  else if (newexp < minexp)
-    {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
-    }
-  else
-    result = FUNC_D(setexp) (x, newexp);
-
-#else
+  DEC_TYPE result;
+  long long newexp;
   decContext context;
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (___decNumberIsNaN (&dn_x) || ___decNumberIsZero (&dn_x) ||
-	___decNumberIsInfinite (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x+x;
-  if (y == 0)
+  if (decNumberIsZero (&dn_x) || decNumberIsInfinite (&dn_x) || y == 0)
     return x;
 
   /* ldexp(x,y) is just x*10**y, which is equivalent to increasing the exponent
-   * by y.  */
-  newexp = dn_x.exponent + y;
-  if(newexp > INT_MAX)
-    newexp = INT_MAX;
-  if(newexp < -INT_MAX)
-    newexp = -INT_MAX;
+   * by y.  Exponents far beyond those of any format are all alike.  */
+  newexp = (long long) dn_x.exponent + y;
+  if (newexp > 100000)
+    newexp = 100000;
+  if (newexp < -100000)
+    newexp = -100000;
   dn_x.exponent = newexp;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
   FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
 
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
-#endif
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
 
   return result;
 }
diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..4d82056 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME scalbln
@@ -43,12 +44,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 {
   decContext context;
   DEC_TYPE result;
-  decNumber dn_x, dn_y;
-/*   long long int sum=0LL;  */
-/*  uint32_t temp2 = 0;  */
-  /* Otherwise this may pass a bad residue to decFinalize which can result in
-   * rounding error.  */
-/*  int32_t temp = 0;  */
+  decNumber dn_x;
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -57,22 +53,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
     return x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
-//  sum = dn_x.exponent + y;
-//  if(sum >= 1000000000LL || sum <= -2000000000LL
-//    || y >= 1000000000L || y <= -2000000000L)
-//    ; /** definite overflow */
-//  else
-//    dn_x.exponent = sum;
-//
-//  decFinalize(&dn_x, &context, &temp, &temp2);
-
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
+  context.round = __dn_getround ();
+
+  /* Exponents far beyond those of any format are all alike.  */
+  if (y > 100000)
+    y = 100000;
+  if (y < -100000)
+    y = -100000;
+  dn_x.exponent += y;
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..c5293c6 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME scalbn
@@ -45,12 +46,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
   decContext context;
   DEC_TYPE result;
-  decNumber dn_x, dn_y;
-/*  long int sum = 0L; */
-/*  uint32_t temp2 = 0; */
-  /* Otherwise this may pass a bad residue to decFinalize which can result in
-   * rounding error.  */
-/*  int32_t temp =0; */
+  decNumber dn_x;
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -59,16 +55,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
     return x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
-//  sum = dn_x.exponent + y;
-//  if(sum >= 1000000000L || sum <= -2000000000LL)
-//    ; /** definite overflow */
-//  else
-//    dn_x.exponent = sum;
-//
-//  decFinalize(&dn_x, &context, &temp, &temp2);
-
-  decNumberFromInt32(&dn_y, y);
-  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
+  context.round = __dn_getround ();
+
+  /* Exponents far beyond those of any format are all alike.  */
+  if (y > 100000)
+    y = 100000;
+  if (y < -100000)
+    y = -100000;
+  dn_x.exponent += y;
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
-- 
2.43.0


From 8036fea3ab56ad2da8334e824eb8ad6637319e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 17/47] fix: return the number of characters printed for NaNs
 and infinities

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c5bf460..f962e51 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -527,7 +527,7 @@ __printf_dfp (FILE *fp,
       if (info->left && width > 0)
 	PADN (' ', width);
 
-      return 0;
+      return done;
     }
 
   /* The term "precision" refers to the number of significant digits right of
-- 
2.43.0


From 4c81ef701d071af317e03021e3f59742b3fe0ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 18/47] fix: round the digits printf shows correctly at every
 position and direction

Rounding compared the precision with the number of significant digits, so
%g in style f truncated, a position left of the first digit never rounded
away from zero, and exact digits were changed in directed modes.
---
 printf-hooks/printf_dfp.c | 185 ++++++++++++++++++--------------------
 1 file changed, 88 insertions(+), 97 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index f962e51..2bb2890 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -341,6 +341,79 @@ hidden_def(__dfp_ais)
 /* fe_decround.c will initialize this function pointer to fe_decgetround */
 int (*__printf_dfp_getround_callback)(void) = NULL;
 
+/* Round the right-justified digits DIGITS[*N] ... DIGITS[MW-1], ND of them, to
+   the leading KEEP digits in the current rounding direction.  KEEP is zero or
+   negative when the rounding position lies to the left of the first digit.
+   DIGITS[0] is always zero and leaves room for a carry.  */
+static void
+round_digits (char *digits, int mw, int *n, int *nd, int *exp, int keep,
+	      int is_neg)
+{
+  int index = *n + keep;	/* The first discarded digit.  */
+  int roundmode = FE_DEC_TONEAREST;
+  int i, up, sticky, digit, last;
+
+  if (keep >= *nd)
+    return;
+
+  digit = (keep < 0) ? '0' : digits[index];
+  last = (keep <= 0) ? '0' : digits[index - 1];
+  sticky = 0;
+  for (i = (keep < 0) ? *n : index + 1; i < mw; i++)
+    if (digits[i] != '0')
+      sticky = 1;
+
+  if (digit == '0' && !sticky)
+    return;			/* Exact.  */
+
+  if (__printf_dfp_getround_callback)
+    roundmode = (*__printf_dfp_getround_callback) ();
+
+  switch (roundmode)
+    {
+    case FE_DEC_TOWARDZERO: up = 0; break;
+    case FE_DEC_UPWARD: up = !is_neg; break;
+    case FE_DEC_DOWNWARD: up = is_neg; break;
+    case FE_DEC_TONEARESTFROMZERO: up = digit >= '5'; break;
+    case 5: /* nearest, ties toward zero */
+      up = digit > '5' || (digit == '5' && sticky);
+      break;
+    case 6: /* away from zero */ up = 1; break;
+    default: /* FE_DEC_TONEAREST */
+      up = digit > '5' || (digit == '5' && (sticky || (last & 1)));
+      break;
+    }
+
+  if (keep < 0)
+    {
+      /* Everything is discarded: what is left is zero, or one unit in the
+	 last place, which is -KEEP places left of the first digit.  */
+      memset (digits, '0', mw);
+      if (up)
+	{
+	  digits[mw - 1] = '1';
+	  *exp += *nd - keep;
+	  *n = mw - 1;
+	  *nd = 1;
+	}
+      return;
+    }
+
+  memset (digits + index, '0', mw - index);
+
+  if (up)
+    {
+      while (digits[--index] == '9')
+	digits[index] = '0';
+      digits[index]++;
+      if (index < *n)
+	{
+	  --*n;
+	  ++*nd;
+	}
+    }
+}
+
 int
 __printf_dfp (FILE *fp,
 	      const struct printf_info *info,
@@ -441,7 +514,6 @@ __printf_dfp (FILE *fp,
    decpt = 2,    /* decimal point offset into digits[] */
    prec,         /* number of digits that follow the decimal point, or number of significant digits for %g */
    default_prec = 6, /* Default precision, per the C Spec.  */
-   input_prec = 0,   /* Precision of the _Decimal* value.  */
    mw,           /* Mantissa Width  */
    n,            /* Current digit offset into digits[] */
    nd,           /* num_digits before the get_digits call. */
@@ -537,16 +609,12 @@ __printf_dfp (FILE *fp,
     {
       case 'a':
 	  {
-	    /* The DFP spec addition for %a refers to all of the significant
-	     * digits in the precision.  */
-	    input_prec = nd;
-
 	    /* This same check is done in two different places but it'll only
 	     * effect a single pass through once.  If prec is not set it'll hit
 	     * this instance.  If prec is set it'll hit the next instance.  This
 	     * is because the DFP spec requires this to be run after rounding
-	     * when prec < input_prec.  */
-	    if (prec < 0 || prec >= input_prec)
+	     * when prec < nd.  */
+	    if (prec < 0 || prec >= nd)
 	    {
 	      /* Per the DFP specification (s,c,q), c == digits, q = exp, s ==
 	       * is_neg.  */
@@ -559,7 +627,6 @@ __printf_dfp (FILE *fp,
 	        {
 	          prec = nd - 1;
 	          spec = 'e';
-	          input_prec = nd - 1;
 	        }
 	      }
 	    break;
@@ -600,23 +667,8 @@ __printf_dfp (FILE *fp,
 		prec = P - 1;
 		spec = 'e';
 	      }
-	    input_prec = nd - 1;
 	  break;
 	  }
-	case 'e':
-	  input_prec = nd - 1;
-	  break;
-	case 'f':
-	  if(exp < 0 && (-exp) > default_prec)
-	    /*  00123456E-7 has an input_prec of 7. */
-	    input_prec = (-exp);
-	  else
-	    /*  01234567E-6 has an input_prec of 6. */
-	    /*  00000190E6 has an input_prec of 6. */
-	    /*  00000123E1 has an input_prec of 6.  */
-	    /*  00000123E0 has an input_prec of 6.  */
-	    input_prec = default_prec;
-	  break;
     }
 
   /* The specs 'g' and 'a' may have already modified prec so this won't happen for
@@ -624,81 +676,21 @@ __printf_dfp (FILE *fp,
   if (prec < 0)
     prec = default_prec;
 
-  /* Do rounding if precision is less than the decimal type.  On hardware DFP
-   * this could probably easily be done with quantize but on soft-dfp the
-   * existing method would be faster.  */
-  if (prec < input_prec)
-    {
-      int index, roundmode = 0;
-      char rounddigit = '4';
-
-      if (spec == 'f')
-	/* This may force index to negative, in which case we ignore it at a
-	 * later time.  */
-	index = n + nd + exp + prec;
-      /* Goofy special case where we round significant digits which aren't
-       * right of the decimal place.  */
-      else if (tolower(info->spec) == 'a' && prec > 0)
-       {
-	index = n + prec;
-       }
-      else
-	index = n + prec + 1;
+  /* Round to the number of digits that the conversion shows.  */
+  {
+    int keep;
 
-      /* FIXME: we should check rounding mode for %a */
-      if (__printf_dfp_getround_callback)
-        {
-          roundmode = (*__printf_dfp_getround_callback)();
+    if (spec == 'f')
+      keep = nd + exp + prec;
+    /* Goofy special case where we round significant digits which aren't
+     * right of the decimal place.  */
+    else if (spec == 'a' && prec > 0)
+      keep = prec;
+    else
+      keep = prec + 1;
 
-	  switch (roundmode)
-	    {
-	      case FE_DEC_TONEAREST: rounddigit = '4'; break;
-	      case FE_DEC_TOWARDZERO: rounddigit = '9'; break;
-	      case FE_DEC_UPWARD: rounddigit = (is_neg ? '9' : '0'-1); break;
-	      case FE_DEC_DOWNWARD: rounddigit = (is_neg ? '0'-1 : '9'); break;
-	      case FE_DEC_TONEARESTFROMZERO: rounddigit = '4'; break;
-	      case 5: rounddigit = '4'; break; /* nearest, ties toward zero */
-	      case 6: rounddigit = '0'-1; break; /* away from zero */
-	      case 7: rounddigit = '4'; break; /* round for shorter precision */
-	      default: rounddigit = '4'; break;
-	    }
-	}
-
-      /* If this is true then the requested precision is smaller than the
-      * default and rounding is required.  If 'exp' was sufficiently negative
-      * 'index' may be negative, in which case we don't need to round.  */
-      if (index > 0 && index < mw && digits[index] > rounddigit) 
-	do {
-	  int trailzero = index+1;
-	  if (digits[index] == rounddigit+1)
-	    {
-	      while (trailzero < mw)
-		{
-		  if (digits[trailzero] != '0')
-		    {
-		      trailzero = 0;
-		      break;
-		    }
-		  ++trailzero;
-		}
-	      if (roundmode == FE_DEC_TONEAREST && trailzero &&
-	        (digits[index-1] & 1) == 0) break;
-	      if (roundmode == FE_DEC_UPWARD && !trailzero) break;
-	      if (roundmode == FE_DEC_DOWNWARD && !trailzero) break;
-	      if (roundmode == 5 && trailzero) break;
-	      if (roundmode == 6 && trailzero) break;
-	  }
-
-	while (digits[--index] == '9')
-	  digits[index] = '0';
-	digits[index]++;
-	if (index < n)
-	  {
-	    n--;
-	    nd++;
-	  }
-      } while (0);
-    } /* Done rounding.  */
+    round_digits (digits, mw, &n, &nd, &exp, keep, is_neg);
+  }
 
   /* If spec == 'a' at this point it means that prec was set by the user
    * and rounding had to be considered.  The spec now requires that the
@@ -730,7 +722,6 @@ __printf_dfp (FILE *fp,
 	  prec = nd - 1;
 	  if (prec < 0) prec = 0;
 	  spec = 'e';
-	  input_prec = nd - 1;
 	  /* Return exp to the original value because the 'e' case below will
 	   * recompute it.  */
 	  exp = old_exp;
-- 
2.43.0


From 19dd5b2e3725dd7447bb21a7621667af5ec7d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 19/47] fix: choose the %g style from the exponent after
 rounding

---
 printf-hooks/printf_dfp.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 2bb2890..3c2a418 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -634,11 +634,17 @@ __printf_dfp (FILE *fp,
 	case 'g':
 	  {
 	    int P = prec;
+	    int X;
+
+	    /* The C Specification also indicates how to compute P. */
+	    if (prec < 0)
+	      P = 6;
+	    else if (prec == 0)
+	      P = 1;
 
 	    /* When the C specification refers to X as the exponent it means the
-	     * exponent when the input value encoding is normalized to the form
-	     * d.dddd.  This means we have to do that before we can do the goof
-	     * check.
+	     * exponent that an 'e' conversion with P significant digits would
+	     * have, so round first.
 	     *
 	     * e.g., 123.456E-5
 	     * right-justified -> 00123456E-9
@@ -647,13 +653,8 @@ __printf_dfp (FILE *fp,
 	     * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
 	     *
 	     * X == -4  */
-	    int X = exp + (nd -1);
-
-	    /* The C Specification also indicates how to compute P. */
-	    if (prec < 0)
-	      P = 6;
-	    else if (prec == 0)
-	      P = 1;
+	    round_digits (digits, mw, &n, &nd, &exp, P, is_neg);
+	    X = is_zero ? 0 : exp + (nd - 1);
 
 	    /* Straight from the specification which assumes X is exponent normalized to
 	     * d.ddd... form.  */
-- 
2.43.0


From b0686b0cfc74eb8b197fbecaaacbb41c7ef3e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 20/47] fix: count the width of a printed field from the text
 it holds

Zeros were measured with the exponent of their encoding, zeros of %a and %f
were laid out like an exponent form, left justified fields were filled with
zeros, %.0f of a small value kept its decimal point, and leading groups were
counted once too often.
---
 printf-hooks/printf_dfp.c | 98 ++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 63 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 3c2a418..1d48819 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -735,40 +735,37 @@ __printf_dfp (FILE *fp,
    * By this point everything should be represented as either %e or %f.  */
   if (spec == 'f')
     {
-      if (exp < 0)
-	decpt = exp + nd + n;
-      else if (is_zero)
+      if (is_zero)
 	decpt = n + 1;
       else
-	decpt = n + nd + exp;
+	decpt = exp + nd + n;
     }
   else if (spec == 'e')
     {
       decpt = n + 1;
       exp = mw + exp - decpt;
+      /* The C spec says that for %e, if the value is zero the exponent is zero.
+       * This isn't true for the DFP spec for %a so make sure to check info->spec
+       * and not spec since it could have promoted 'a' to 'e'.  */
+      if (is_zero && tolower (info->spec) != 'a')
+	exp = 0;
     }
 
+/* The digit at position I; positions outside of the coefficient are zero.  */
+#define DIGIT(i) ((i) >= n && (i) < mw ? digits[i] : '0')
+
   /* Remove trailing zeroes for %g */
   if (tolower(info->spec) == 'g' && !info->alt)
-    {
-      while (prec > 0 && decpt+prec > mw) prec--;
-      while (prec > 0 && digits[decpt+prec-1] == '0') prec--;
-    }
-
-  /* Remove trailing zeroes for %a, but only if they are not significant.  */
-  if (tolower(info->spec) == 'a')
-    {
-      while (prec > 0 && decpt+prec > mw) prec--;
-      while (prec > 0 && decpt+prec > n+nd && digits[decpt+prec-1] == '0') prec--;
-    }
+    while (prec > 0 && DIGIT (decpt + prec - 1) == '0')
+      prec--;
 
   /* Digits to the left of the decimal pt. */
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n)/3;
+      if (grouping) width -= (decpt-n-1)/3;
     }
-  else width--;  /* none to the left of the decimal point */
+  else width--;  /* only a zero to the left of the decimal point */
 
   /* Digits to the right of the decimal pt. */
   if (prec > 0) width -= 1 + prec;
@@ -776,8 +773,9 @@ __printf_dfp (FILE *fp,
 
   if (spec != 'f')
     {
+      /* The letter, the sign and the first digit of the exponent.  */
       width -= 3;
-      if (0!=(exp/10) || spec!='a') --width;
+      if (0!=(exp/10) || tolower (info->spec) != 'a') --width;
       if (0!=(exp/100)) --width;
       if (0!=(exp/1000)) --width;
     }
@@ -797,59 +795,33 @@ __printf_dfp (FILE *fp,
   if (!info->left && info->pad == '0' && width > 0)
     PADN ('0', width);
 
-  /* Print zero, decimal point and leading zeroes if needed */
+  /* Print the digits to the left of the decimal point, at least a zero.  */
   if (decpt <= n)
+    outchar ('0');
+  else
     {
-      n = decpt;
-      outchar ('0');
-      if (n < 0)
+      int i;
+
+      for (i = n; i < decpt; i++)
 	{
-	  outchar (wide ? decimalwc.wc : *decimal);
-	  while (n < 0 && n < decpt + prec)
-	    {
-	      outchar ('0');
-	      n++;
-	    }
+	  if (grouping && i > n && (decpt - i) % 3 == 0)
+	    outchar (wide ? thousands_sepwc : *thousands_sep);
+	  outchar (DIGIT (i));
 	}
     }
 
-  /* Print the digits.  If decpt exceeds mw then we know that
-   * they're simply trailing zeros and we don't need to display them.  */
-  while (n < mw && n < decpt + prec)
-    {
-      if (n == decpt)
-      {
-	outchar (wide ? decimalwc.wc : *decimal);
-      }
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
-      outchar (digits[n]);
-      n++;
-    }
+  if (prec > 0 || info->alt)
+    outchar (wide ? decimalwc.wc : *decimal);
 
-  /* print trailing zeroes */
-  while (n < decpt + prec)
-    {
-      if (n == decpt)
-	outchar (wide ? decimalwc.wc : *decimal);
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
-      outchar ('0');
-      n++;
-    }
-
-  /* print decimal point, if needed */
-  if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
+  /* Print the digits to the right of it.  */
+  {
+    int i;
 
-  /* The C spec says that for %e, if the value is zero the exponent is zero.
-   * This isn't true for the DFP spec for %a so make sure to check info->spec
-   * and not spec since it could have promoted 'a' to 'e'.  */
-  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
-    exp = 0;
+    for (i = decpt; i < decpt + prec; i++)
+      outchar (DIGIT (i));
+  }
 
-  /* Don't display the exponent part for 'f' because it is never used and don't
-   * do it for 'g' if the value is zero.  */
-  if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
+  if (spec != 'f')
     {
       outchar (isupper(info->spec) ? 'E' : 'e');
       if (exp < 0)
@@ -863,7 +835,7 @@ __printf_dfp (FILE *fp,
     }
 
   if (info->left && width > 0)
-    PADN (info->pad, width);
+    PADN (' ', width);
 } /* Done output block.  */
 
    return done;
-- 
2.43.0


From a7c49c530db421cc31ab32bb31f31c4366f944c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 21/47] fix: %.0a shows one digit instead of dropping the
 coefficient

---
 printf-hooks/printf_dfp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 1d48819..abb10a2 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -609,6 +609,10 @@ __printf_dfp (FILE *fp,
     {
       case 'a':
 	  {
+	    /* A precision of zero asks for a single digit.  */
+	    if (prec == 0)
+	      prec = 1;
+
 	    /* This same check is done in two different places but it'll only
 	     * effect a single pass through once.  If prec is not set it'll hit
 	     * this instance.  If prec is set it'll hit the next instance.  This
@@ -685,7 +689,7 @@ __printf_dfp (FILE *fp,
       keep = nd + exp + prec;
     /* Goofy special case where we round significant digits which aren't
      * right of the decimal place.  */
-    else if (spec == 'a' && prec > 0)
+    else if (spec == 'a')
       keep = prec;
     else
       keep = prec + 1;
@@ -721,7 +725,6 @@ __printf_dfp (FILE *fp,
       else
 	{
 	  prec = nd - 1;
-	  if (prec < 0) prec = 0;
 	  spec = 'e';
 	  /* Return exp to the original value because the 'e' case below will
 	   * recompute it.  */
-- 
2.43.0


From 4ce11ee115dc81573bb8edbe3c284918c1926376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 22/47] fix: strfromd32/64/128 truncate, terminate and count as
 snprintf does

---
 stdlib/strfromd32.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index f66a1c5..3355ed0 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -22,6 +22,7 @@
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include <printf.h>
 #include <errno.h>
 #include <ctype.h>
@@ -38,19 +39,22 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
 {
   /* format = %{[.][0-9]*[aAeEfFgG], else behavior undefined.
      Reuse our printf hook to do this.  */
-  FILE * f = fmemopen (s, n, "w");
+  char * buf = NULL;
+  size_t len = 0;
+  FILE * f = open_memstream (&buf, &len);
   const void * const args = &fp;
   const void * const * argsp = &args;
   const void * const * argp = (const void * const *)&argsp;
   struct printf_info info = { 0 };
   int num = 0;
 
-  /* TODO: this is probably better than crashing.  The standard isn't so clear
-     about this.  */
+  /* Out of memory.  The standard isn't so clear about this.  */
   if (!f)
     {
-    /* errno set by fmemopen.  */
-    return 0;
+    /* errno set by open_memstream.  */
+    if (n > 0)
+      s[0] = '\0';
+    return -1;
     }
 
   info.user = sizeof (fp) == 4 ? mod_H : (sizeof (fp) == 8 ? mod_D : mod_DD);
@@ -83,6 +87,22 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
     }
   }
 
-  fclose (f);
+  if (fclose (f) != 0 || buf == NULL)
+    {
+      free (buf);
+      if (n > 0)
+	s[0] = '\0';
+      return -1;
+    }
+
+  /* At most N - 1 characters are stored, followed by a null character; the
+     result is the number of characters that a large enough N would get.  */
+  if (n > 0)
+    {
+      size_t stored = len < n ? len : n - 1;
+      memcpy (s, buf, stored);
+      s[stored] = '\0';
+    }
+  free (buf);
   return num;
 }
-- 
2.43.0


From b43f3bc411a6b9be19728a9929fae52053b07586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 23/47] fix: strtod and wcstod convert digits with one correct
 rounding

Long digit strings, results below the normal range, signed zeros with
exponents, underflow of negative numbers, exponents outside of int and the
rounding direction were mishandled, and some inputs looped for ever.
---
 stdlib/strtod32.c | 354 +++++++++++++---------------------------------
 1 file changed, 98 insertions(+), 256 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 155bd68..578e8b5 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -78,7 +78,17 @@
 
 #define DEC_TYPE	FLOAT
 #define _DECIMAL_SIZE	FLOAT_SIZE
-#include <numdigits.h>
+
+#if FLOAT_SIZE == 32
+# include <decimal32.h>
+#elif FLOAT_SIZE == 64
+# include <decimal64.h>
+#else
+# include <decimal128.h>
+#endif
+#include <decContext.h>
+#include <decNumber.h>
+#include <mapround.h>
 
 #ifdef USE_WIDE_CHAR
 extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t **,
@@ -135,9 +145,17 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 # define PASTE1(a,b)            a##b
 #endif
 
-#ifndef FUNC_D
-# define FUNC_D(x)              PASTE(x,PASTE(d,_DECIMAL_SIZE))
-#endif
+/* The decimalNNFromString function and the matching context.  */
+#define FROM_STRING	PASTE(PASTE(decimal,FLOAT_SIZE),FromString)
+#define FROM_STRING_TYPE PASTE(decimal,FLOAT_SIZE)
+#define DEFAULT_CONTEXT	PASTE(DEC_INIT_DECIMAL,FLOAT_SIZE)
+
+/* More digits than any format has; the ones after these only decide
+   the rounding.  */
+#define KEPT_DIGITS	48
+
+/* The exponent as written is not read any further beyond this limit.  */
+#define EXPONENT_LIMIT	100000000000000000LL
 
 #define RETURN(val,end)							      \
     do { if (endptr != NULL) *endptr = (STRING_TYPE *) (end);		      \
@@ -318,10 +336,17 @@ FLOAT
 FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		int group, locale_t loc)
 {
-  FLOAT d32 = FLOAT_ZERO;
+  FLOAT d32;
+  decContext context;
+  FROM_STRING_TYPE result;
+  /* Sign, digits, exponent letter, exponent and null character.  */
+  char number[KEPT_DIGITS + 32];
+  char *np;
+  int kept, nonzero;
 
   int negative;			/* The sign of the number.  */
-  int exponent;			/* Exponent of the number.  */
+  long long exponent;		/* Exponent of the number.  */
+  long long written;		/* Exponent as it is written.  */
 
   /* Running pointer after the last character processed in the string.  */
   const STRING_TYPE *cp, *tp;
@@ -330,7 +355,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   /* Points at the character following the integer and fractional digits.  */
   const STRING_TYPE *expp;
   /* Total number of digit and number of digits in integer part.  */
-  int dig_no, int_no, lead_zero;
+  long long dig_no, int_no;
   /* Contains the last character read.  */
   CHAR_TYPE c;
   __locale_t C_locale;
@@ -635,7 +660,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	      ++dig_no;
 
 	  int_no = dig_no;
-	  lead_zero = 0;
 
 	  goto number_parsed;
 	}
@@ -644,7 +668,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   /* We have the number digits in the integer part.  Whether these are all or
      any is really a fractional digit will be decided later.  */
   int_no = dig_no;
-  lead_zero = int_no == 0 ? -1 : 0;  /* FIXME: Why was this -1 */
 
   /* Read the fractional digits.  A special case are the 'american style'
      numbers like `16.' i.e. with decimal but without trailing digits.  */
@@ -663,8 +686,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
       c = *cp;
       while (c >= L_('0') && c <= L_('9'))
 	{
-	  if (c != L_('0') && lead_zero == -1)
-	    lead_zero = dig_no - int_no;
 	  ++dig_no;
 	  c = *++cp;
 	}
@@ -689,47 +710,12 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
       if (c >= L_('0') && c <= L_('9'))
 	{
-	  int exp_limit;
-
-	  /* Get the exponent limit. */
-	  exp_limit = (exp_negative ?
-		       -MIN_10_EXP + MANT_DIG + int_no :
-		       MAX_10_EXP - int_no + lead_zero);
-
+	  /* Exponents far out of any range are all alike; a string cannot have
+	     enough digits to bring them back.  */
 	  do
 	    {
-	      exponent *= 10;
-
-	      if (exponent > exp_limit)
-		/* The exponent is too large/small to represent a valid
-		   number.  */
-		{
-		  FLOAT result;
-
-		  /* We have to take care for special situation: a joker
-		     might have written "0.0e100000" which is in fact
-		     zero.  */
-		  if (lead_zero == -1)
-		    result = negative ? -FLOAT_ZERO : FLOAT_ZERO;
-		  else
-		    {
-		      /* Overflow or underflow.  */
-		      __set_errno (ERANGE);
-		      result = (exp_negative ? FLOAT_ZERO :
-				negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL);
-		    }
-
-		  /* Accept all following digits as part of the exponent.  */
-		  do
-		    ++cp;
-		  while (*cp >= L_('0') && *cp <= L_('9'));
-
-		  freelocale(C_locale);
-		  RETURN (result, cp);
-		  /* NOTREACHED */
-		}
-
-	      exponent += c - L_('0');
+	      if (exponent < EXPONENT_LIMIT)
+		exponent = exponent * 10 + (c - L_('0'));
 	      c = *++cp;
 	    }
 	  while (c >= L_('0') && c <= L_('9'));
@@ -742,229 +728,85 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
     }
 
 
-  /* We don't want to have to work with trailing zeroes after the radix.  */
-#if 0  /* Actually, for DFP, we do. */
-  if (dig_no > int_no)
-    {
-      while (expp[-1] == L_('0'))
-	{
-	  --expp;
-	  /*--exponent;*/  /* FIXME: This can't be here */
-	  --dig_no;
-	}
-      assert (dig_no >= int_no);
-    }
-
-  if (dig_no == int_no && dig_no > 0 && exponent < 0)
-    do
-      {
-	while (! ISDIGIT (expp[-1]))
-	  --expp;
-
-	if (expp[-1] != L_('0'))
-	  break;
-
-	--expp;
-	--dig_no;
-	--int_no;
-	++exponent;
-      }
-    while (dig_no > 0 && exponent < 0);
-#endif
  number_parsed:
 
   /* The whole string is parsed.  Store the address of the next character.  */
   if (endptr)
     *endptr = (STRING_TYPE *) cp;
 
-  if (dig_no == 0)
+  written = exponent;
+
+  /* Give all the digits an integer value.  */
+  exponent -= dig_no - int_no;
+
+  /* Copy the digits, without thousands separators and radix character, which
+     can be skipped because we know that the format of the number is correct.
+     Rounding is done once, on the exact value; a nonzero digit stands for
+     everything that does not fit.  */
+  np = number;
+  if (negative)
+    *np++ = '-';
+  kept = 0;
+  nonzero = 0;
+  for (; dig_no > 0; ++startp)
     {
-      if (exponent == 0)
-	{
-	  freelocale(C_locale);
-          return negative ? -FLOAT_ZERO : FLOAT_ZERO;
-	}
-
-#if NUMDIGITS_SUPPORT==0
-      d32 += 1;
-      while(exponent-- > 0)  /* FIXME: this doesn't work right for exponent>0 */
-	d32 *= 10;
-      while(++exponent < 0)
-	d32 /= 10;
-      d32 -= d32;
-#else
-      d32 = FUNC_D(setexp) (d32, exponent);
-#endif
-
-      freelocale(C_locale);
-      return negative ? -d32 : d32;
-    }
-
-
-  if (lead_zero)
-    {
-      /* Find the decimal point */
-#ifdef USE_WIDE_CHAR
-      while (*startp != decimal)
-	++startp;
-#else
-      while (1)
-	{
-	  if (*startp == decimal[0])
-	    {
-	      for (cnt = 1; decimal[cnt] != '\0'; ++cnt)
-		if (decimal[cnt] != startp[cnt])
-		  break;
-	      if (decimal[cnt] == '\0')
-		break;
-	    }
-	  ++startp;
-	}
-#endif
-      lead_zero = (lead_zero < 0? 0 : lead_zero);
-      startp += lead_zero + decimal_len;
-      exponent -= lead_zero;
-      dig_no -= lead_zero;
-    }
-
-
-  /* Now we have the number of digits in total and the integer digits as well
-     as the exponent and its sign.  We can decide whether the read digits are
-     really integer digits or belong to the fractional part; i.e. we normalize
-     123e-2 to 1.23.  */
-  {
-    register int incr = (exponent < 0 ? MAX (-int_no, exponent)
-			 : MIN (dig_no - int_no, exponent));
-    int_no += incr;
-    exponent -= incr;
-  }
-
-  if (int_no + exponent > MAX_10_EXP)
-    {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL;
-    }
-
-  /* Obvious underflow before normalization.  */
-  if (exponent < MIN_10_EXP - MANT_DIG + 1 )
-    {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
-    }
-  /* Read in the integer portion of the input string */
-  if (int_no > 0)
-    {
-      /* Read the integer part as a d32.  */
-      int digcnt = int_no;
-
-      while (int_no > MAX_10_EXP + 1)
-	{
-	  digcnt--;
-	  exponent++;
-	}
-      do
+      if (*startp < L_('0') || *startp > L_('9'))
+	continue;
+      --dig_no;
+      if (*startp == L_('0') && kept == 0)
+	continue;
+      if (kept < KEPT_DIGITS)
+	*np++ = '0' + (*startp - L_('0'));
+      else
 	{
-	  /* There might be thousands separators or radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-#ifdef USE_WIDE_CHAR
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    ++startp;
-#else
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    {
-	      int inner = 0;
-	      if (thousands != NULL && *startp == *thousands
-		  && ({
-			for (inner = 1; thousands[inner] != '\0'; ++inner)
-			  if (thousands[inner] != startp[inner])
-			    break;
-			thousands[inner] == '\0';
-		      })
-		  )
-		startp += inner;
-	      else
-		startp += decimal_len;
-	    }
-#endif
-	  d32 = d32 * 10 + (*startp - L_('0'));
-	  ++startp;
+	  if (*startp != L_('0'))
+	    nonzero = 1;
+	  ++exponent;
 	}
-      while (--digcnt > 0);
-
+      ++kept;
     }
-  /* If we haven't filled our datatype, read in the fractional digits */
-  if (int_no <= MANT_DIG && dig_no > int_no)
+  if (kept == 0)
+    *np++ = '0';
+  if (nonzero)
     {
-      /* Read the decimal part as a FLOAT.  */
-      int digcnt = dig_no - int_no;
-      
-  /* There might be radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-
-      /*do
-	{
-	  frac = frac/10 + *(startp+digcnt-1) - L_('0');
-	}
-      while (--digcnt > 0);
-      frac /= 10;
-
-      d32 += frac;*/
-      int_no = 0;
-      do
-        {
-#ifdef USE_WIDE_CHAR
-      if (*startp < L_('0') || *startp > L_('9'))
-	++startp;
-#else
-      if (*startp < '0' || *startp > '9')
-	startp += decimal_len;
-#endif
-
-        /* We need the extra digit to get proper rounding.  */
-	if (int_no < MANT_DIG + 1)
-	  {
-	    d32 = d32*10 + (*startp - L_('0'));
-	    ++startp;
-	    --exponent;
-	    int_no++;
-	  }
-	}
-    while (--digcnt > 0);
+      *np++ = '1';
+      --exponent;
     }
-
-#if NUMDIGITS_SUPPORT==0
-  while(exponent-- > 0)
-    d32 *= 10;
-  while(++exponent < 0)
-    d32 /= 10;
-#else
-  /* Computed underflow after normalization.  */
-  if ( exponent <  (__DEC_MIN_EXP__ - __DEC_MANT_DIG__))
+  /* An exponent beyond those of the format makes the number left justified.  */
+  if (exponent > MAX_10_EXP - MANT_DIG && kept > 0)
+    while (kept < MANT_DIG)
+      {
+	*np++ = '0';
+	--exponent;
+	++kept;
+      }
+  if (exponent > 99999)
+    exponent = 99999;
+  if (exponent < -99999)
+    exponent = -99999;
+  sprintf (np, "E%d", (int) exponent);
+
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+  FROM_STRING (&result, number, &context);
+  memcpy (&d32, &result, sizeof (d32));
+
+  if (context.status & (DEC_Overflow | DEC_Underflow))
+    __set_errno (ERANGE);
+
+  /* What is below the normal range and is written with an exponent that the
+     format does not have underflows to zero.  */
+  if (kept > 0
+      && (d32 == FLOAT_ZERO
+	  || ((context.status & DEC_Subnormal)
+	      && written < MIN_10_EXP - MANT_DIG)))
     {
       __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
+      d32 = negative ? -FLOAT_ZERO : FLOAT_ZERO;
     }
 
-  /* Left justification allows us to set a positive exponent that's near
-   * __DEC*_MAX_EXP__, i.e. _almost_ overflowing.  Complete left justification
-   * may be overkill for most numbers in this situation, so perhaps a specific
-   * digit shift will be a better solution in the future.  */
-  if (exponent > (__DEC_MAX_EXP__ - __DEC_MANT_DIG__))
-      d32 = FUNC_D(left_justify) (d32);
-
-  d32 = FUNC_D(setexp) (d32, FUNC_D (getexp) (d32) + exponent);
-
-#endif
-
   freelocale(C_locale);
-  return negative? -d32:d32;
+  return d32;
 }
 hidden_def(FUNCTION_L_INTERNAL)
 
-- 
2.43.0


From 4d0701b069d2f7f4b56f911fd3e6e5d654aaff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 24/47] fix: strtod returns a plain zero when there is no
 number

---
 stdlib/strtod32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 578e8b5..f3d8a05 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -533,7 +533,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
       /* It is really a text we do not recognize.  */
       freelocale(C_locale);
-      RETURN (0.0, nptr);
+      RETURN (FLOAT_ZERO, nptr);
     }
 
   /* Record the start of the digits, in case we will check their grouping.  */
-- 
2.43.0


From 6ca6471b8ee5bd9de3181fb3fad81344a1f59923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 25/47] fix: the closing brace of nan(...) belongs to the
 number

---
 stdlib/strtod32.c | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index f3d8a05..7f0808c 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -501,27 +501,13 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		     || (TOLOWER (*cp) >= L_('a') && TOLOWER (*cp) <= L_('z'))
 		     || *cp == L_('_'));
 
-	      if (*cp != L_(')'))
+	      if (*cp == L_(')'))
+		/* The closing brace belongs to the sequence.  */
+		++cp;
+	      else
 		/* The closing brace is missing.  Only match the NAN
 		   part.  */
 		cp = startp;
-#if 0
-	      else
-		{
-		  /* This is a system-dependent way to specify the
-		     bitmask used for the NaN.  We expect it to be
-		     a number which is put in the mantissa of the
-		     number.  */
-		  STRING_TYPE *endp;
-		  unsigned long long int mant;
-
-		  mant = STRTOULL (startp + 1, &endp, 0);
-		  if (endp == cp)
-		    {
-		      SET_MANTISSA (retval, mant);
-		    }
-		}
-#endif
 	    }
 
 	  if (endptr != NULL)
-- 
2.43.0


From a7fd72537382221c07b1dc1d356b26f25fe3c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 26/47] fix: wcstod reads the radix character by value instead
 of through a bad pointer

---
 stdlib/strtod32.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 7f0808c..820a92c 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -95,6 +95,10 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 						       int, int, __locale_t);
 # include <wctype.h>
 # define STRTO_PREFIX wcsto
+/* nl_langinfo returns the wide character items by value.  */
+# define LANGINFO_WC(Item) \
+  ({ union { const char *mb; wchar_t wc; } _u; _u.mb = nl_langinfo (Item); \
+     _u.wc; })
 # define STRING_TYPE wchar_t
 # define CHAR_TYPE wint_t
 # define L_(Ch) L##Ch
@@ -367,7 +371,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The radix character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *decimalmb;
   wchar_t decimal;
 #else
   const char *decimal;
@@ -375,7 +378,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The thousands character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *thousandsmb = NULL;
   wchar_t thousands = L'\0';
 #else
   const char *thousands = NULL;
@@ -398,8 +400,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	{
 	  /* Figure out the thousands separator character.  */
 #ifdef USE_WIDE_CHAR
-	  thousandsmb = nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC);
-	  mbrtowc(&thousands,thousandsmb, CHAR_MAX, NULL);
+	  thousands = LANGINFO_WC (_NL_NUMERIC_THOUSANDS_SEP_WC);
 
 	  if (thousands == L'\0')
 	    grouping = NULL;
@@ -418,8 +419,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
   /* Find the locale's decimal point character.  */
 #ifdef USE_WIDE_CHAR
-  decimalmb = nl_langinfo(_NL_NUMERIC_DECIMAL_POINT_WC);
-  mbrtowc(&decimal,decimalmb, CHAR_MAX, NULL);
+  decimal = LANGINFO_WC (_NL_NUMERIC_DECIMAL_POINT_WC);
   assert (decimal != L'\0');
 # define decimal_len 1
 #else
-- 
2.43.0


From 59414a4755020a8b3432ad12918308a52779d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 27/47] fix: _Decimal32 and _Decimal64 division under any
 binary rounding direction

The quotient estimates of __bid64_div are computed in binary floating point
and are one too large under FE_UPWARD, so that e.g. (_Decimal64)1/99999999
lost its last digit.  Evaluate them under FE_TONEAREST.
---
 libbid/_div_dd.c | 10 ++++++++++
 libbid/_div_sd.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/libbid/_div_dd.c b/libbid/_div_dd.c
index 47dcfe3..ee80bfd 100644
--- a/libbid/_div_dd.c
+++ b/libbid/_div_dd.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -28,10 +29,19 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal64
 __bid_divdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  int mode;
 
   ux.d = x;
   uy.d = y;
+
+  /* The quotient estimates in __bid64_div use binary floating point and
+     are only safe under the binary round-to-nearest direction.  */
+  mode = fegetround ();
+  if (mode != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   res.i = __bid64_div (ux.i, uy.i);
+  if (mode != FE_TONEAREST)
+    fesetround (mode);
   return (res.d);
 }
 hidden_def(__bid_divdd3);
diff --git a/libbid/_div_sd.c b/libbid/_div_sd.c
index bb05b8f..6b38f75 100644
--- a/libbid/_div_sd.c
+++ b/libbid/_div_sd.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -29,12 +30,21 @@ _Decimal32
 __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  int mode;
 
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
   y64 = __bid32_to_bid64 (uy.i);
+
+  /* The quotient estimates in __bid64_div use binary floating point and
+     are only safe under the binary round-to-nearest direction.  */
+  mode = fegetround ();
+  if (mode != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   res64 = __bid64_div (x64, y64);
+  if (mode != FE_TONEAREST)
+    fesetround (mode);
   res.i = __bid64_to_bid32 (res64);
   return (res.d);
 }
-- 
2.43.0


From e0e746283a761da9ca71c875796652ca2f080535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:32 +0000
Subject: [PATCH 28/47] fix: raise the exceptions of 128-bit add, subtract and
 multiply

Most of bid128_add.c and bid128_fma.c only records exceptions in
_IDEC_glbflags; a signaling NaN, infinity times zero, overflow and inexact
results of _Decimal128 +, - and * never reached the floating-point status.
---
 libbid/_addsub_td.c         |  4 ++--
 libbid/_mul_td.c            |  2 +-
 libbid/bid_gcc_intrinsics.h | 12 ++++++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libbid/_addsub_td.c b/libbid/_addsub_td.c
index b927f2f..c340a18 100644
--- a/libbid/_addsub_td.c
+++ b/libbid/_addsub_td.c
@@ -31,7 +31,7 @@ __bid_addtd3 (_Decimal128 x, _Decimal128 y) {
 
   ux.d = x;
   uy.d = y;
-  res.i = __bid128_add (ux.i, uy.i);
+  RAISE_GLBFLAGS (res.i = __bid128_add (ux.i, uy.i));
   return (res.d);
 }
 
@@ -41,7 +41,7 @@ __bid_subtd3 (_Decimal128 x, _Decimal128 y) {
 
   ux.d = x;
   uy.d = y;
-  res.i = __bid128_sub (ux.i, uy.i);
+  RAISE_GLBFLAGS (res.i = __bid128_sub (ux.i, uy.i));
   return (res.d);
 }
 hidden_def(__bid_addtd3);
diff --git a/libbid/_mul_td.c b/libbid/_mul_td.c
index 619285e..27cdd9b 100644
--- a/libbid/_mul_td.c
+++ b/libbid/_mul_td.c
@@ -31,7 +31,7 @@ __bid_multd3 (_Decimal128 x, _Decimal128 y) {
 
   ux.d = x;
   uy.d = y;
-  res.i = __bid128_mul (ux.i, uy.i);
+  RAISE_GLBFLAGS (res.i = __bid128_mul (ux.i, uy.i));
   return (res.d);
 }
 hidden_def(__bid_multd3);
diff --git a/libbid/bid_gcc_intrinsics.h b/libbid/bid_gcc_intrinsics.h
index ddd4c19..025248d 100644
--- a/libbid/bid_gcc_intrinsics.h
+++ b/libbid/bid_gcc_intrinsics.h
@@ -314,4 +314,16 @@ union float128 {
 #endif
 #endif  /* BID_HAS_GCC_DECIMAL_INTRINSICS */
 
+/* Much of the 128-bit code only records exceptions in _IDEC_glbflags.
+   Evaluate STMT and raise what it recorded.  */
+#define RAISE_GLBFLAGS(stmt) \
+  do { \
+    _IDEC_flags saved_flags = _IDEC_glbflags; \
+    _IDEC_glbflags = EXACT_STATUS; \
+    stmt; \
+    if (_IDEC_glbflags != EXACT_STATUS) \
+      __dfp_set_status (_IDEC_glbflags); \
+    _IDEC_glbflags |= saved_flags; \
+  } while (0)
+
 #endif /* _BID_GCC_INTRINSICS_H */
-- 
2.43.0


From 1b03d47365b600eac0798a2ca5543f290e01d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 29/47] fix: hyperbolic, inverse hyperbolic, log1p, log2, expm1
 and atan2 keep enough digits

Cancellation and the final rounding of intermediates to the working
precision lost most or all digits of the results near zero, near one and
near the quadrant borders.
---
 decNumberMath/decNumberMath.c | 261 +++++++++++++++++++++++++++++-----
 decNumberMath/decNumberMath.h |  15 ++
 ieee754r/acoshd32.c           |  10 +-
 ieee754r/asinhd32.c           |  13 +-
 ieee754r/atan2d32.c           |  17 +--
 ieee754r/atanhd32.c           |  11 +-
 ieee754r/expm1d32.c           |   9 +-
 ieee754r/log1pd32.c           |   2 +-
 ieee754r/log2d32.c            |  10 +-
 9 files changed, 254 insertions(+), 94 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 4ff0ab8..39582ee 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -26,7 +26,7 @@
 /* HACK: libdecnumber will try dragging in its config.h, prevent it.  */
 #define _DCONFIG_H
 
-#define  DECNUMDIGITS 60
+#define  DECNUMDIGITS 80
 #include "decNumber.h"             // base number library
 #include "decNumberMath.h"
 #include "decNumberLocal.h"
@@ -64,8 +64,8 @@
     const int _emin_stashed = ctxp->emin; \
     const int _digits_stashed = ctxp->digits; \
     decNumberFromString (zerop, "0", ctxp); \
-    ctxp->emax = 6144; \
-    ctxp->emin = -6143; \
+    ctxp->emax = 999999; \
+    ctxp->emin = -999999; \
     ctxp->digits = DECNUMDIGITS;
 
 #define DEC_RESTORE_ROUND(ctxp, resultoutp, resultinp, zerop) \
@@ -484,6 +484,66 @@ decNumber* decNumberPow (decNumber *result, decNumber *x, decNumber *y,
   return res;
 }*/ /* decNumberSquareRoot  */
 
+// Is |x| below 10^exponent?
+static int decNumberIsBelow (const decNumber *x, Int exponent)
+{
+  return x->exponent + x->digits <= exponent;
+}
+
+decNumber* decNumberExpm1 (decNumber *result, decNumber *x, decContext *set)
+{
+  // expm1 x = e^x - 1, x + x^2/2 + ... where that would cancel.
+  decNumber r, t, zero;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  if (decNumberIsBelow (x, -40)) {
+    decNumberMultiply (&r, x, x, set);
+    decNumberFromString (&t, "0.5", set);
+    decNumberMultiply (&r, &r, &t, set);
+    decNumberAdd (&r, x, &r, set);
+  } else {
+    decNumberFromString (&t, "1", set);
+    decNumberExp (&r, x, set);
+    decNumberSubtract (&r, &r, &t, set);
+  }
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
+  return result;
+} /* decNumberExpm1  */
+
+decNumber* decNumberLog1p (decNumber *result, decNumber *x, decContext *set)
+{
+  // log1p x = ln (1 + x), x - x^2/2 + ... where the sum would be rounded.
+  decNumber r, t, zero;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  if (decNumberIsBelow (x, -40)) {
+    decNumberMultiply (&r, x, x, set);
+    decNumberFromString (&t, "-0.5", set);
+    decNumberMultiply (&r, &r, &t, set);
+    decNumberAdd (&r, x, &r, set);
+  } else {
+    decNumberFromString (&t, "1", set);
+    decNumberAdd (&r, x, &t, set);
+    decNumberLn (&r, &r, set);
+  }
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
+  return result;
+} /* decNumberLog1p  */
+
+decNumber* decNumberLog2 (decNumber *result, decNumber *x, decContext *set)
+{
+  // log_2 (x) = log_10 (x) / log_10 (2)
+  decNumber r, t, zero;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromString (&t, "2", set);
+  decNumberLog10 (&t, &t, set);
+  decNumberLog10 (&r, x, set);
+  decNumberDivide (&r, &r, &t, set);
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
+  return result;
+} /* decNumberLog2  */
+
 // ----------------------------------------------------------------------
 // Hyperbolic Functions
 // ----------------------------------------------------------------------
@@ -491,44 +551,144 @@ decNumber* decNumberPow (decNumber *result, decNumber *x, decNumber *y,
 decNumber* decNumberSinh (decNumber *result, decNumber *x, decContext *set)
 {
   // sinh x = (e^x - e^-x)/2
-  decNumber ex, emx, mx, two;
+  decNumber ex, emx, mx, two, zero, r;
 
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
+  DEC_STASH_CONTEXT (set, &zero);
+
+  if (!decNumberIsZero (x) && x->exponent + x->digits < -20) {
+    // The difference would cancel: sinh x = x + x^3/6 + ...
+    decNumberMultiply (&ex, x, x, set);
+    decNumberMultiply (&ex, &ex, x, set);
+    decNumberFromString (&two, "6", set);
+    decNumberDivide (&ex, &ex, &two, set);
+    decNumberAdd (&r, x, &ex, set);
+  } else {
+    decNumberExp (&ex, x, set);
+    decNumberMinus (&mx, x, set);
+    decNumberExp (&emx, &mx, set);
+    decNumberSubtract (&r, &ex, &emx, set);
+    decNumberFromString (&two, "2", set);
+    decNumberDivide (&r, &r, &two, set);
+  }
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
   return result;
 }
 
 decNumber* decNumberCosh (decNumber *result, decNumber *x, decContext *set)
 {
   // cosh x = (e^x + e^-x)/2
-  decNumber ex, emx, mx, two;
+  decNumber ex, emx, mx, two, zero, r;
 
+  DEC_STASH_CONTEXT (set, &zero);
   decNumberExp (&ex, x, set);
   decNumberMinus (&mx, x, set);
   decNumberExp (&emx, &mx, set);
-  decNumberAdd (result, &ex, &emx, set);
+  decNumberAdd (&r, &ex, &emx, set);
   decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
+  decNumberDivide (&r, &r, &two, set);
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
   return result;
 } /* decNumberCosh  */
 
 decNumber* decNumberTanh (decNumber *result, decNumber *x, decContext *set)
 {
   // tanh x = sinh x / cosh x = (e^x - e^-x) / (e^x + e^-x)
-  decNumber ex, emx, mx, denominator;
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberAdd (&denominator, &ex, &emx, set);
-  decNumberDivide (result, result, &denominator, set);
+  decNumber ex, emx, mx, denominator, zero, r;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  if (!decNumberIsZero (x) && x->exponent + x->digits < -20) {
+    // The difference would cancel: tanh x = x - x^3/3 + ...
+    decNumberMultiply (&ex, x, x, set);
+    decNumberMultiply (&ex, &ex, x, set);
+    decNumberFromString (&denominator, "-3", set);
+    decNumberDivide (&ex, &ex, &denominator, set);
+    decNumberAdd (&r, x, &ex, set);
+  } else {
+    decNumberCopy (&mx, x);
+    if (x->exponent + x->digits > 3) {
+      // Beyond any working precision, where e^x may overflow.
+      decNumberFromString (&mx, decNumberIsNegative (x) ? "-1000" : "1000", set);
+    }
+    decNumberExp (&ex, &mx, set);
+    decNumberMinus (&mx, &mx, set);
+    decNumberExp (&emx, &mx, set);
+    decNumberSubtract (&r, &ex, &emx, set);
+    decNumberAdd (&denominator, &ex, &emx, set);
+    decNumberDivide (&r, &r, &denominator, set);
+  }
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
   return result;
 } /* decNumberTanh  */
 
+decNumber* decNumberAsinh (decNumber *result, decNumber *x, decContext *set)
+{
+  // asinh |x| = ln (|x| + sqrt (x^2 + 1)), x - x^3/6 + ... where that
+  // would cancel.
+  decNumber r, t, zero;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberMultiply (&r, x, x, set);
+  if (decNumberIsBelow (x, -20)) {
+    decNumberMultiply (&r, &r, x, set);
+    decNumberFromString (&t, "-6", set);
+    decNumberDivide (&r, &r, &t, set);
+    decNumberAdd (&r, x, &r, set);
+  } else {
+    decNumberFromString (&t, "1", set);
+    decNumberAdd (&r, &r, &t, set);
+    decNumberSquareRoot (&r, &r, set);
+    decNumberAbs (&t, x, set);
+    decNumberAdd (&r, &r, &t, set);
+    decNumberLn (&r, &r, set);
+    if (decNumberIsNegative (x))
+      decNumberMinus (&r, &r, set);
+  }
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
+  return result;
+} /* decNumberAsinh  */
+
+decNumber* decNumberAcosh (decNumber *result, decNumber *x, decContext *set)
+{
+  // acosh x = ln (x + sqrt (x^2 - 1))
+  decNumber r, t, zero;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromString (&t, "1", set);
+  decNumberMultiply (&r, x, x, set);
+  decNumberSubtract (&r, &r, &t, set);
+  decNumberSquareRoot (&r, &r, set);
+  decNumberAdd (&r, &r, x, set);
+  decNumberLn (&r, &r, set);
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
+  return result;
+} /* decNumberAcosh  */
+
+decNumber* decNumberAtanh (decNumber *result, decNumber *x, decContext *set)
+{
+  // atanh x = 1/2 * ln ((1+x) / (1-x)), x + x^3/3 + ... where that would
+  // cancel.
+  decNumber r, t, zero;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  if (decNumberIsBelow (x, -20)) {
+    decNumberMultiply (&r, x, x, set);
+    decNumberMultiply (&r, &r, x, set);
+    decNumberFromString (&t, "3", set);
+    decNumberDivide (&r, &r, &t, set);
+    decNumberAdd (&r, x, &r, set);
+  } else {
+    decNumberFromString (&t, "1", set);
+    decNumberAdd (&r, &t, x, set);
+    decNumberSubtract (&t, &t, x, set);
+    decNumberDivide (&r, &r, &t, set);
+    decNumberLn (&r, &r, set);
+    decNumberFromString (&t, "2", set);
+    decNumberDivide (&r, &r, &t, set);
+  }
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
+  return result;
+} /* decNumberAtanh  */
+
 // ----------------------------------------------------------------------
 // Trigonometric Functions
 // ----------------------------------------------------------------------
@@ -686,18 +846,20 @@ decNumber* decNumberCos (decNumber *_result, decNumber *y, decContext *set)
 decNumber* decNumberTan (decNumber *result, decNumber *y, decContext *set)
 {
   // tan x = sin x / cos x
-  decNumber denominator;
+  decNumber denominator, zero, r;
 
-  decNumberSin (result, y, set);
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberSin (&r, y, set);
   decNumberCos (&denominator, y, set);
   if (decNumberIsZero (&denominator))
-    decNumberFromString (result, "NaN", set);
+    decNumberFromString (&r, "NaN", set);
   else
-    decNumberDivide (result, result, &denominator, set);
+    decNumberDivide (&r, &r, &denominator, set);
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
   return result;
 } /* decNumberTan  */
 
-decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set) 
+decNumber* decNumberAtan (decNumber *_result, decNumber *_x, decContext *set) 
 {
   //                 x^3   x^5   x^7
   // arctan(x) = x - --- + --- - --- + ...
@@ -715,18 +877,23 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   // The second application gives us a new x with x < 0.4142136.
   // For that x, we use the power series and multiply the result by four.
   
-  decNumber f, g, mx2, one, two, term;
-  int i;
+  decNumber f, g, mx2, one, two, term, zero, xv, sum;
+  decNumber *x = &xv, *result = &sum;
+  int i, reductions;
 
+  if (decNumberIsZero (_x)) {
+    decNumberCopy (_result, _x);
+    return _result;
+  }
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberCopy (x, _x);
   decNumberFromString (&one, "1", set);
   decNumberFromString (&two, "2", set);
 
-  if (decNumberIsZero (x)) {
-    decNumberCopy (result, x);
-    return result;
-  }
-
-  for (i=0; i<2; i++) {
+  // The identity cancels for small x, which does not need it.
+  reductions = x->exponent + x->digits < -10 ? 0 : 2;
+  for (i=0; i<reductions; i++) {
     decNumber y;
     decNumberMultiply (&y, x, x, set);     // y = x^2
     decNumberAdd (&y, &y, &one, set);      // y = y+1
@@ -762,8 +929,28 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
     // sum = sum + term
     decNumberAdd (result, result, &term, set);
   }
-  // Multiply result by four.
-  decNumberAdd (result, result, result, set);
-  decNumberAdd (result, result, result, set);
-  return result;
+  // Multiply result by two for each reduction.
+  for (i=0; i<reductions; i++)
+    decNumberAdd (result, result, result, set);
+  DEC_RESTORE_ROUND (set, _result, result, &zero);
+  return _result;
 } /* decNumberAtan  */
+
+decNumber* decNumberAtan2 (decNumber *result, decNumber *y, decNumber *x,
+			   decContext *set)
+{
+  // The arctangent of y/x, moved by pi into the quadrant of (x, y).
+  decNumber r, t, zero;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberDivide (&t, y, x, set);
+  decNumberAtan (&r, &t, set);
+  if (decNumberIsNegative (x)) {
+    decNumberFromString (&t, PI, set);
+    if (decNumberIsNegative (y))
+      decNumberMinus (&t, &t, set);
+    decNumberAdd (&r, &r, &t, set);
+  }
+  DEC_RESTORE_ROUND (set, result, &r, &zero);
+  return result;
+} /* decNumberAtan2  */
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index e04815f..ea8f75b 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -28,6 +28,12 @@
 
 extern decNumber* decNumberPow (decNumber *, decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberPow)
+extern decNumber* decNumberExpm1 (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberExpm1)
+extern decNumber* decNumberLog1p (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberLog1p)
+extern decNumber* decNumberLog2 (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberLog2)
 
 /* Hyperbolic Functions */
 extern decNumber* decNumberSinh (decNumber *, decNumber *, decContext *);
@@ -36,6 +42,12 @@ extern decNumber* decNumberCosh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberCosh)
 extern decNumber* decNumberTanh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberTanh)
+extern decNumber* decNumberAsinh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAsinh)
+extern decNumber* decNumberAcosh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAcosh)
+extern decNumber* decNumberAtanh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAtanh)
 
 /* Trigonometric Functions */
 extern decNumber* decNumberSin (decNumber *, decNumber *, decContext *);
@@ -46,5 +58,8 @@ extern decNumber* decNumberTan (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberTan)
 extern decNumber* decNumberAtan (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberAtan)
+extern decNumber* decNumberAtan2 (decNumber *, decNumber *, decNumber *,
+				  decContext *);
+hidden_proto (decNumberAtan2)
 
 #endif /* _DECNUMBERMATH_H  */
diff --git a/ieee754r/acoshd32.c b/ieee754r/acoshd32.c
index 82acb92..6fa87b4 100644
--- a/ieee754r/acoshd32.c
+++ b/ieee754r/acoshd32.c
@@ -45,10 +45,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  decNumber dn_x;
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x))
@@ -80,12 +79,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberSubtract (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAcosh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/asinhd32.c b/ieee754r/asinhd32.c
index c07f2d4..5fe946a 100644
--- a/ieee754r/asinhd32.c
+++ b/ieee754r/asinhd32.c
@@ -43,11 +43,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   decContext context;
   decNumber dn_result;
-  DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  DEC_TYPE result;
+  decNumber dn_x;
 
-  one = DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x)
@@ -57,12 +55,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     }
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAsinh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/atan2d32.c b/ieee754r/atan2d32.c
index 49108ba..480d330 100644
--- a/ieee754r/atan2d32.c
+++ b/ieee754r/atan2d32.c
@@ -48,7 +48,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE y, DEC_TYPE x)
   const DEC_TYPE generate_inexact = DFP_CONSTANT(1e-94);
 
   decContext context;
-  decNumber dn_result, dn_temp;
+  decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
 
@@ -64,20 +64,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE y, DEC_TYPE x)
       && !decNumberIsInfinite (&dn_y) && !decNumberIsZero (&dn_x))
     {
       decContextDefault (&context, DEFAULT_CONTEXT);
-      decNumberDivide (&dn_temp, &dn_y, &dn_x, &context);
-      decNumberAtan (&dn_result, &dn_temp, &context);
+      decNumberAtan2 (&dn_result, &dn_y, &dn_x, &context);
       FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
-      /* decNumberAtan doesn't quite return the values in the ranges we
-       * want for x < 0. So we need to do some correction */
-      if (decNumberIsNegative (&dn_x))
-	{
-	  if (decNumberIsNegative (&dn_y))
-	    return result - M_PIdl;
-	  else
-	    return result + M_PIdl;
-	}
-      else
-	return result;
+      return result;
     }
 
   /* If x and y are both inf, the result depends on the sign of x */
diff --git a/ieee754r/atanhd32.c b/ieee754r/atanhd32.c
index ffc2bcc..380c279 100644
--- a/ieee754r/atanhd32.c
+++ b/ieee754r/atanhd32.c
@@ -45,11 +45,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one, temp;
-  decNumber dn_x, dn_temp, dn_one;
+  decNumber dn_x, dn_temp;
 /*  int comp;*/
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   /*  Handle NaN and early exit for x==0 */
@@ -81,13 +80,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 //	return DFP_NAN;
 //    }
 
-  /* Using trig identity: atanh(x) = 1/2 * log((1+x)/(1-x)) */
-  decNumberAdd (&dn_result, &dn_one, &dn_x, &context);
-  decNumberSubtract (&dn_temp, &dn_one, &dn_x, &context);
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_temp, &dn_one, &dn_one, &context); /* 2 */
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
+  decNumberAtanh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/expm1d32.c b/ieee754r/expm1d32.c
index 3ce810f..5ec1620 100644
--- a/ieee754r/expm1d32.c
+++ b/ieee754r/expm1d32.c
@@ -47,21 +47,18 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_one;
-  decNumber dn_exponent;
-  DEC_TYPE one = DFP_CONSTANT(1.0);
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
-  FUNC_CONVERT_TO_DN(&one, &dn_one);
   if (decNumberIsNaN (&dn_x))
     return x+x;
 
   if (decNumberIsInfinite (&dn_x))
     return decNumberIsNegative (&dn_x) ? DFP_CONSTANT(-1.0) : x;
+  if (decNumberIsZero (&dn_x))
+    return x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
-  decNumberExp(&dn_exponent, &dn_x, &context);
-  decNumberSubtract(&dn_result, &dn_exponent, &dn_one, &context);
+  decNumberExpm1 (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/log1pd32.c b/ieee754r/log1pd32.c
index f86084d..721499e 100644
--- a/ieee754r/log1pd32.c
+++ b/ieee754r/log1pd32.c
@@ -71,7 +71,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
       return DFP_NAN;
     }
 
-  decNumberLn(&dn_result, &dn_sum, &context);
+  decNumberLog1p (&dn_result, &dn_x, &context);
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
 
diff --git a/ieee754r/log2d32.c b/ieee754r/log2d32.c
index 3343adf..4af3a24 100644
--- a/ieee754r/log2d32.c
+++ b/ieee754r/log2d32.c
@@ -46,13 +46,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_two;
-  decNumber dn_logtwo;
-  decNumber dn_logx;
-  DEC_TYPE two = DFP_CONSTANT(2.0);
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  FUNC_CONVERT_TO_DN (&two, &dn_two);
 
   if (decNumberIsNaN (&dn_x))
     return x+x;
@@ -70,10 +65,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
     return x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  // log_2 (x) = log_10 (x) / log_10 (2)
-  decNumberLog10 (&dn_logx, &dn_x, &context);
-  decNumberLog10 (&dn_logtwo, &dn_two, &context);
-  decNumberDivide (&dn_result, &dn_logx, &dn_logtwo, &context);
+  decNumberLog2 (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 2109282f052283d541b68022865e83f7bc350c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 30/47] fix: wrong digits in the tables behind expd64 and
 logd64

exp(161), exp(211), exp(580) and ln(0.49).
---
 ieee754r/ddlogtbls.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ieee754r/ddlogtbls.h b/ieee754r/ddlogtbls.h
index 98f768b..98a8991 100644
--- a/ieee754r/ddlogtbls.h
+++ b/ieee754r/ddlogtbls.h
@@ -76,7 +76,7 @@ const _Decimal128 __LN2digits [] = {
 	-0.7765287894989963678119979561003557DL, /* ln(0.46DL) */
 	-0.7550225842780327812150322395965547DL, /* ln(0.47DL) */
 	-0.7339691750802004389718091866134964DL, /* ln(0.48DL) */
-	-0.7133498878974647578252974224823690DL, /* ln(0.49DL) */
+	-0.7133498878774647578252774224823690DL, /* ln(0.49DL) */
 	-0.6931471805599453094172321214581766DL, /* ln(0.50DL) */
 	-0.6733445532637655963912030545730762DL, /* ln(0.51DL) */
 	-0.6539264674066640131480312248870567DL, /* ln(0.52DL) */
@@ -337,7 +337,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.154589706104022437390577106831935e+68DL, /* exp(158.0DL) */
 	1.129334570280556947872702202187131e+69DL, /* exp(159.0DL) */
 	3.069849640644242466736457030165496e+69DL, /* exp(160.0DL) */
-	8.344716494264974360965835809202325e+69DL, /* exp(161.0DL) */
+	8.344716494264774360965835809202325e+69DL, /* exp(161.0DL) */
 	2.268329121000240471305839031261140e+70DL, /* exp(162.0DL) */
 	6.165957830579432532004967054378165e+70DL, /* exp(163.0DL) */
 	1.676081112590882772586107349772233e+71DL, /* exp(164.0DL) */
@@ -387,7 +387,7 @@ const _Decimal128 __expIntXDL [] = {
 	2.154032421824846569020981598875600e+90DL, /* exp(208.0DL) */
 	5.855267190158109347508158747532035e+90DL, /* exp(209.0DL) */
 	1.591626640377924159157186340777442e+91DL, /* exp(210.0DL) */
-	4.326489974230630919937147247796921e+91DL, /* exp(211.0DL) */
+	4.326489774230630919937147247796921e+91DL, /* exp(211.0DL) */
 	1.176061853430500122733564724127810e+92DL, /* exp(212.0DL) */
 	3.196867565323993534884678511593018e+92DL, /* exp(213.0DL) */
 	8.689987010810321382206327468404931e+92DL, /* exp(214.0DL) */
@@ -756,7 +756,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.871828017611068619756333191738026e+250DL, /* exp(577.0DL) */
 	1.052471974319077600436351056214937e+251DL, /* exp(578.0DL) */
 	2.860915442753963560149385355110176e+251DL, /* exp(579.0DL) */
-	7.776974460795963023293133416439138e+251DL, /* exp(580.0DL) */
+	7.776774460795963023293133416439138e+251DL, /* exp(580.0DL) */
 	2.113946470080605596467762082192512e+252DL, /* exp(581.0DL) */
 	5.746302275955252943010619149104434e+252DL, /* exp(582.0DL) */
 	1.562006905756201809684652029738012e+253DL, /* exp(583.0DL) */
-- 
2.43.0


From 652b7541831c48c6d354e82020e89501d396c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 31/47] fix: logd64 keeps its digits for arguments near one

---
 ieee754r/logd64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieee754r/logd64.c b/ieee754r/logd64.c
index 4187f98..19c90a4 100644
--- a/ieee754r/logd64.c
+++ b/ieee754r/logd64.c
@@ -81,6 +81,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
   if (__isinfd64(val))
     return val;
 
+  /* The sum below cancels for values close to one.  */
+  if (val > DFP_CONSTANT(0.9) && val < DFP_CONSTANT(1.1))
+    return __logd128 (val);
+
   result = __frexpd64 (val, &exp);
 
   tmp = result * 100.0DD;
-- 
2.43.0


From ea4571ecd41247ece53100768fe12d2a71578ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 32/47] fix: logd128 sets ERANGE for a pole and EDOM for a
 negative argument

---
 ieee754r/logd128.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index 4deef4c..c4394ee 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,12 +68,12 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
-	  DFP_ERRNO (EDOM);
+	  DFP_ERRNO (ERANGE);
 	  return -DEC_INFINITY;
 	}
       else
 	{
-	  DFP_ERRNO (ERANGE);
+	  DFP_ERRNO (EDOM);
 	  return DFP_NAN;
 	}
     }
-- 
2.43.0


From 01587c9111e9de4a47b76bcef66f6114c556096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 33/47] fix: expd128 and expd64 reach subnormal results,
 expd128 reports overflow

---
 ieee754r/expd128.c | 9 +++++++--
 ieee754r/expd64.c  | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index a826c9e..2c48832 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -29,6 +29,7 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
 #include <ieee754r_private.h>
 #include <dfp/fenv.h>
 
@@ -70,7 +71,7 @@ __expd128 (_Decimal128 val)
 
   /* Computed by interval using mpfr in 512b precision */
   const _Decimal128 max = 14149.38539644841072829055748903541DL;
-  const _Decimal128 min = -14144.78022626242263692252150612604DL;
+  const _Decimal128 min = -14221.45868151178608980453245625209DL;
 
   if (!(val >= min && val <= max))
     {
@@ -78,7 +79,11 @@ __expd128 (_Decimal128 val)
       if (__builtin_isnan (val))
 	return val + val;
       else if (val > max)
-	return DEC_INFINITY;
+	{
+	  if (!__isinfd128 (val))
+	    errno = ERANGE;
+	  return DEC_INFINITY;
+	}
       else
 	return 0.0DL;
     }
diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 0dbb347..49d78dc 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -80,7 +80,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   /* via 1024 bits of mpfr and rtn: log(9.999999999999999e+384). */
   if (val >= 886.49526080270759DD)
-    return neg ? DFP_CONSTANT(0.0) : DFP_INF;
+    return neg ? __expd128 (-val) : DFP_INF;
 
   if (fraction != 0.0DD)
     {
-- 
2.43.0


From 13e7ffd1baa7f2fa7539211527f01d302c649db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 34/47] fix: powd64, powd32: subnormal bases, signed poles,
 huge exponents, overflow errno

---
 ieee754r/powd32.c | 7 ++++++-
 ieee754r/powd64.c | 9 ++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index d335960..bc26acc 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -24,12 +24,17 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
+#include <ieee754r_private.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
 
 _Decimal32
 __powd32 (_Decimal32 x, _Decimal32 y)
 {
-  return (_Decimal32) __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal32 z = (_Decimal32) __powd64((_Decimal64) x, (_Decimal64) y);
+  if (__isinfd32 (z) && __isfinited32 (x) && __isfinited32 (y))
+    errno = ERANGE;
+  return z;
 }
 weak_alias(__powd32, powd32)
diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index dd11f6b..1b85b3e 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -80,7 +80,8 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   int y_class = __fpclassifyd64 (y);
   if (!(x_class == FP_NORMAL && y_class == FP_NORMAL))
     {
-      if (y_class == FP_SUBNORMAL && y_class == FP_SUBNORMAL)
+      if ((x_class == FP_NORMAL || x_class == FP_SUBNORMAL)
+	  && (y_class == FP_NORMAL || y_class == FP_SUBNORMAL))
 	{
 	  /* Handle normally */
 	}
@@ -97,7 +98,7 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
 	  if (y_class == FP_INFINITE)
 	    return y < 0.DD ? DEC_INFINITY : 0.DD;
 	  if (isodd(y))
-	    return y < 0.DD ? DEC_INFINITY : __copysignd64(0.DD, x);
+	    return __copysignd64 (y < 0.DD ? DEC_INFINITY : 0.DD, x);
 	  return y < 0.DD ? DEC_INFINITY : 0.DD;
 	}
       else if (y_class == FP_INFINITE)
@@ -151,8 +152,10 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   else
     {
       /* TODO: the following will likely be inaccurate, but hopefully not blatantly wrong.
-               Fixing this requires a better implementation.  */
+               Fixing this requires a better implementation.
+	       Integers this large are even.  */
       y_int = 0.DD;
+      x = __fabsd64 (x);
     }
 
   y_frac = y - y_int;
-- 
2.43.0


From 94b22e66cef768c3148b2b328a0629a1a0db64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 35/47] fix: powd128: large odd exponents and reciprocals of
 subnormals

---
 ieee754r/powd128.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index 682ce05..88f0f5c 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -51,15 +51,12 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumber dn_absx;
   decNumber dn_y;
   decNumber dn_one;
-  decNumber dn_two;
   decNumber dn_temp;
   decNumber dn_temp2;
-  decNumber dn_temp3;
   int y_is_int;
   int y_is_oddint=0;
   int abs_x_vs_1;
   DEC_TYPE one = DFP_CONSTANT(1.0);
-  DEC_TYPE two = DFP_CONSTANT(2.0);
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -93,11 +90,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   y_is_int = decNumberIsZero (&dn_temp2);
   if (y_is_int)
     {
-      FUNC_CONVERT_TO_DN (&two, &dn_two);
-      decNumberDivide (&dn_temp, &dn_y, &dn_two, &context);
-      decNumberToIntegralValue (&dn_temp2, &dn_temp, &context);
-      decNumberSubtract (&dn_temp3, &dn_temp2, &dn_temp, &context);
-      y_is_oddint = !decNumberIsZero (&dn_temp3);
+      /* Half of 34 digits needs not fit: look at the units digit.  */
+      y_is_oddint = dn_temp.exponent == 0 && (dn_temp.lsu[0] & 1);
     }
 
   /*  Handle all special cases for which x = +-0 */
@@ -140,7 +134,13 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return DFP_NAN;
     }
 
-  decNumberPower (&dn_result, &dn_x, &dn_y, &context);
+  /* decNumberPower has no negative base for exponents of over nine digits,
+     and needs the reciprocal of the base to be in range.  */
+  context.emax = DEC_MAX_MATH;
+  context.emin = -DEC_MAX_MATH;
+  decNumberPower (&dn_result, &dn_absx, &dn_y, &context);
+  if (decNumberIsNegative (&dn_x) && y_is_oddint)
+    dn_result.bits ^= DECNEG;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   if (context.status & DEC_Overflow)
-- 
2.43.0


From ef937929ce735ab2066f477de90977476caed497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 36/47] fix: cbrt is iterated to the full precision

---
 ieee754r/cbrtd32.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/ieee754r/cbrtd32.c b/ieee754r/cbrtd32.c
index bb64505..75f7194 100644
--- a/ieee754r/cbrtd32.c
+++ b/ieee754r/cbrtd32.c
@@ -84,8 +84,8 @@ static const _Decimal128
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  int e, rem, sign;
-  _Decimal128 z;
+  int e, i, rem, sign;
+  _Decimal128 r, z;
 
   if (! FUNC_D(__isfinite) (x)) /* cbrt(x:x=inf/nan/-inf) = x+x (for sNaN) */
     return x + x;
@@ -103,15 +103,15 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 
   z = x;
  /* extract power of 2, leaving mantissa between 0.5 and 1  */
-  x = FUNC_D(__frexp) (x, &e);
+  r = FUNC_D(__frexp) (x, &e);
 
   /* Approximate cube root of number between .5 and 1,
      peak relative error = 1.2e-6  */
-  x = ((((1.3584464340920900529734e-1DL * x
-	  - 6.3986917220457538402318e-1DL) * x
-	 + 1.2875551670318751538055e0DL) * x
-	- 1.4897083391357284957891e0DL) * x
-       + 1.3304961236013647092521e0DL) * x + 3.7568280825958912391243e-1DL;
+  r = ((((1.3584464340920900529734e-1DL * r
+	  - 6.3986917220457538402318e-1DL) * r
+	 + 1.2875551670318751538055e0DL) * r
+	- 1.4897083391357284957891e0DL) * r
+       + 1.3304961236013647092521e0DL) * r + 3.7568280825958912391243e-1DL;
 
   /* exponent divided by 3 */
   if (e >= 0)
@@ -121,10 +121,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
       rem -= 3 * e;
       if (rem == 1)
 	//x *= CBRT2;
-	x *= CBRT10;
+	r *= CBRT10;
       else if (rem == 2)
 	//x *= CBRT4;
-	x *= CBRT100;
+	r *= CBRT100;
     }
   else
     {				/* argument less than 1 */
@@ -134,24 +134,24 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
       rem -= 3 * e;
       if (rem == 1)
 	//x *= CBRT2I;
-	x *= CBRT10I;
+	r *= CBRT10I;
       else if (rem == 2)
 	//x *= CBRT4I;
-	x *= CBRT100I;
+	r *= CBRT100I;
       e = -e;
     }
 
   /* multiply by power of 2 */
-  x = FUNC_D(__ldexp) (x, e);
+  r = __ldexpd128 (r, e);
 
-  /* Newton iteration */
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
+  /* Newton iteration, from the poor approximation below .5 up to the full
+     precision.  */
+  for (i = 0; i < 6; i++)
+    r -= (r - (z / (r * r))) * 0.3333333333333333333333333333333333333333DL;
 
   if (sign < 0)
-    x = -x;
-  return (x);
+    r = -r;
+  return r;
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From 407b0bca1cd90c14895cdfffc2b29877dee0a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 37/47] fix: lgamma and tgamma: accuracy, signs, poles, tiny
 and huge arguments

---
 ieee754r/lgammad32.c | 19 ++++++++++++-------
 ieee754r/tgammad32.c | 17 +++++++----------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/ieee754r/lgammad32.c b/ieee754r/lgammad32.c
index d09bfa5..e6bd6be 100644
--- a/ieee754r/lgammad32.c
+++ b/ieee754r/lgammad32.c
@@ -801,9 +801,11 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 	  DFP_EXCEPT (FE_DIVBYZERO);
 	  return DFP_HUGE_VAL;
 	}
-      i = p;
-      if ((i & 1) == 0)
+      if (__floord128 (p * 0.5DL) * 2.0DL == p)
 	*signgamp = -1;
+      /* The square of a tiny argument, below, would underflow.  */
+      if (q < 1.0E-40DL)
+	return (DEC_TYPE)(-__logd128 (q));
       z = q - p;
       if (z > 0.5DL)
 	{
@@ -862,7 +864,7 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 	      z = x - 1.0DL;
 	      p = z * neval (z, RN2, NRN2) / deval (z, RD2, NRD2);
 	    }
-	  p = p - FUNC_D(__log) (x);
+	  p = p - __logd128 (x);
 	  break;
 
 	case 1:
@@ -890,7 +892,7 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 		  z = x - 1.0DL;
 		  p = z * neval (z, RN2, NRN2) / deval (z, RD2, NRD2);
 		}
-	      p = p - FUNC_D(__log) (x);
+	      p = p - __logd128 (x);
 	    }
 	  else if (x < 1.0DL)
 	    {
@@ -1052,11 +1054,14 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
       return (DEC_TYPE)(*signgamp * huge * huge);
     }
 
-  q = ls2pi - x;
-  q = (x - 0.5DL) * FUNC_D(__log) (x) + q;
+  q = (x - 0.5DL) * __logd128 (x);
+  /* An overflow is to the largest number in some rounding modes.  */
+  if (q >= 9.999999999999999999999999999999999E6144DL)
+    return (DEC_TYPE)(*signgamp * q);
+  q += ls2pi - x;
   if (x <= 1.0e18DL)
     {
-      p = 1.0DL / (x * x);
+      p = 1.0DL / ((_Decimal128) x * x);
       q += neval (p, RASY, NRASY) / x;
     }
   return (DEC_TYPE)(q);
diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index b4c1cf5..de1e348 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -38,8 +38,6 @@
 
 #include <dfpmacro.h>
 
-extern DEC_TYPE
-FUNC_D (__lgamma_r) (DEC_TYPE, int *);
 //extern int
 //FUNC_D (__builtin_signbit) (DEC_TYPE);
 
@@ -47,25 +45,24 @@ FUNC_D (__lgamma_r) (DEC_TYPE, int *);
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x)
 {
-  DEC_TYPE result, gamma;
+  _Decimal128 gamma;
   int local_signgam;
 
   if (x == DFP_CONSTANT(0.0))	/*  Pole error if x== +-0 */
     {
       DFP_EXCEPT (FE_DIVBYZERO);
 //      return FUNC_D (__builtin_signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
-      return (x<0) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
+      return FUNC_D (__signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
     }
-  if (x < DFP_CONSTANT(0.0) && (!FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && FUNC_D (__rint) (x) == x)
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
 
-  gamma = FUNC_D(__lgamma_r) (x,&local_signgam);
-  result = local_signgam * FUNC_D(__exp) (gamma);
-
-  return result;
+  /* The exponential magnifies the error of its argument.  */
+  gamma = __lgamma_rd128 (x, &local_signgam);
+  return local_signgam * __expd128 (gamma);
 }
 
 
@@ -75,7 +72,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
   if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
     DFP_ERRNO (ERANGE);
-  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && FUNC_D (__rint) (x) == x)
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 6ed712056986c9f3a57b98e1b30fdd30051178eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 38/47] fix: erf and erfc: NaN, large arguments and lost digits

---
 ieee754r/erfd32.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/ieee754r/erfd32.c b/ieee754r/erfd32.c
index 809891a..57dedbc 100644
--- a/ieee754r/erfd32.c
+++ b/ieee754r/erfd32.c
@@ -780,11 +780,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 
   if (a >= 1.0DL) /* |x| >= 1.0 */
     {
-      y = FUNC_D(__erfc) (x);
-      return (one - y);
+      y = one - FUNC_D(__erfc) (a);
+      return sign ? -y : y;
       /*    return (one - __erfcl (x)); */
     }
-  z = x * x;
+  z = a * a;
   if (a < 0.875DL)  /* a < 0.875 */
     {
       if (a < 2.0E-57DL) /* |x|<2**-57 */
@@ -823,7 +823,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   ix = FUNC_D(__fabs) (x);
 
-  if (ix >= 0x7fff0000)
+  if (FUNC_D(__isnan) (x) || FUNC_D(__isinf) (x))
     {				/* erfc(nan)=nan */
       /* erfc(+-inf)=0,2 */
       return (DEC_TYPE) ((sign << 1) + one / x);
@@ -886,14 +886,14 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 	y = 2.0DF - y;
       return y;
     }
-  /* 1.25 < |x| < 107 */
-  if (ix < 107.0DF)
+  /* 1.25 < |x| < 120 */
+  if (ix < 120.0DF)
     {
       /* x < -9 */
       if (x > 9.0DF && sign)
 	return two - tiny;
 
-      z = one / (x * x);
+      z = one / (ix * ix);
       i = 8.0DF / x;
       switch (i)
 	{
@@ -923,13 +923,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 	  p = neval (z, RNr8, NRNr8) / deval (z, RDr8, NRDr8);
 	  break;
 	}
-      /* Trim the value?
-      u.value = x;
-      u.parts32.w3 = 0;
-      u.parts32.w2 &= 0xfe000000;
-      z = u.value;
-      */
-      z = ix;
+      /* Trim the value: the square of 16 digits is exact.  */
+      z = (_Decimal64) ix;
       r = __expd128 (-z * z - 0.5625DF) * __expd128 ((z - x) * (z + x) + p);
       if (!sign)
 	return (DEC_TYPE)(r / x);
-- 
2.43.0


From 427d0b07aa6c0510d9e61e2d40c73b3bf6633d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 39/47] fix: printf: print the locale's grouping, and multibyte
 or wide decimal points and separators

Wide output converted the address of the separator, multibyte separators and
decimal points lost all but their first byte, and the groups were always of
three digits.
---
 printf-hooks/printf_dfp.c | 71 ++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index abb10a2..b2bf6ea 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -122,14 +122,27 @@ padn (FILE *fp, int pad, int count)
 #define outchar(ch)							      \
   do									      \
     {									      \
-      register const int outc = (ch);					      \
-      if (PUT(outc, fp) == EOF)						      \
+      register const wint_t outc = (ch);				      \
+      if (wide ? putwc (outc, fp) == WEOF : putc (outc, fp) == EOF)	      \
 	{								      \
 	  return -1;							      \
 	}								      \
       ++done;								      \
     } while (0)
 
+/* Output a decimal point or a separator: the wide character WC on a wide
+   stream, the multibyte character MB otherwise.  */
+#define OUTLOC(wc, mb)							      \
+  do									      \
+    {									      \
+      const char *outs = (mb);						      \
+      if (wide)								      \
+	outchar (wc);							      \
+      else								      \
+	while (*outs != '\0')						      \
+	  outchar (*outs++);						      \
+    } while (0)
+
 #define PADN(ch, len)							      \
   do									      \
     {									      \
@@ -414,6 +427,37 @@ round_digits (char *digits, int mw, int *n, int *nd, int *exp, int keep,
     }
 }
 
+/* Return the number of separators that GROUPING puts among INTDIG digits.  */
+static int
+count_groups (int intdig, const char *grouping)
+{
+  int groups = 0;
+
+  while (*grouping > 0 && *grouping != CHAR_MAX && intdig > *grouping)
+    {
+      intdig -= *grouping;
+      ++groups;
+      /* The last group size repeats.  */
+      if (grouping[1] != '\0')
+	++grouping;
+    }
+  return groups;
+}
+
+/* Return nonzero if GROUPING puts a separator before the last RIGHT digits of
+   an integer.  */
+static int
+group_starts (int right, const char *grouping)
+{
+  while (*grouping > 0 && *grouping != CHAR_MAX && right > *grouping)
+    {
+      right -= *grouping;
+      if (grouping[1] != '\0')
+	++grouping;
+    }
+  return *grouping > 0 && *grouping != CHAR_MAX && right == *grouping;
+}
+
 int
 __printf_dfp (FILE *fp,
 	      const struct printf_info *info,
@@ -433,7 +477,6 @@ __printf_dfp (FILE *fp,
   /* Locale-dependent thousands separator and grouping specification.  */
   const char *thousands_sep = NULL;
   wchar_t thousands_sepwc = 0;
-  const char * thousands_sepmb;
 
   const char *grouping;
 
@@ -470,16 +513,14 @@ __printf_dfp (FILE *fp,
 	  /* Figure out the thousands separator character.  */
 	  if (wide)
 	    {
+	      /* Like the decimal point, returned by value.  */
+	      union { const char *mb; int wc; } sepwc;
+
 	      if (info->extra == 0)
-		{
-		  thousands_sepmb = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
-		}
+		sepwc.mb = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
 	      else
-		{
-		  thousands_sepmb = nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
-		}
+		sepwc.mb = nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
+	      thousands_sepwc = sepwc.wc;
 	    }
 	  else
 	    {
@@ -766,7 +807,7 @@ __printf_dfp (FILE *fp,
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n-1)/3;
+      if (grouping) width -= count_groups (decpt - n, grouping);
     }
   else width--;  /* only a zero to the left of the decimal point */
 
@@ -807,14 +848,14 @@ __printf_dfp (FILE *fp,
 
       for (i = n; i < decpt; i++)
 	{
-	  if (grouping && i > n && (decpt - i) % 3 == 0)
-	    outchar (wide ? thousands_sepwc : *thousands_sep);
+	  if (grouping && i > n && group_starts (decpt - i, grouping))
+	    OUTLOC (thousands_sepwc, thousands_sep);
 	  outchar (DIGIT (i));
 	}
     }
 
   if (prec > 0 || info->alt)
-    outchar (wide ? decimalwc.wc : *decimal);
+    OUTLOC (decimalwc.wc, decimal);
 
   /* Print the digits to the right of it.  */
   {
-- 
2.43.0


From 860047281682da74850fde533ddd1d820f9b0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 40/47] fix: strtod: recognize INF and NAN in every locale

The C locale object was made from the current locale, so that in a Turkish
locale I did not match i.
---
 stdlib/strtod32.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 820a92c..04b34b7 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -388,7 +388,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
      in the format described in <locale.h>.  */
   const char *grouping;
 
-  C_locale = newlocale(LC_ALL_MASK, setlocale (LC_ALL, NULL),NULL);
+  C_locale = newlocale (LC_ALL_MASK, "C", NULL);
 
   if (group)
     {
@@ -498,7 +498,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	      do
 		++cp;
 	      while ((*cp >= L_('0') && *cp <= L_('9'))
-		     || (TOLOWER (*cp) >= L_('a') && TOLOWER (*cp) <= L_('z'))
+		     || (TOLOWER_C (*cp) >= L_('a')
+			 && TOLOWER_C (*cp) <= L_('z'))
 		     || *cp == L_('_'));
 
 	      if (*cp == L_(')'))
-- 
2.43.0


From 9e72c6010ffce43d1d4d25d100dddc350125268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 41/47] fix: C++ streams: extract one number and print numbers
 of any length

operator>> read up to 127 characters whatever followed the number, so that the
next extraction found nothing and the stream was left failed; operator<< wrote
the fixed notation of large numbers past the end of a 64-byte buffer.
---
 dfp/decimal/decimal | 155 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 123 insertions(+), 32 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index 852810d..8a70475 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -57,9 +57,10 @@ using std::string;
 using namespace std;
 
 #include <stdlib.h> /* Pick up the strtod[32|64|128] prototypes.  */
-#include <stdio.h>  /* Pick up the sprintf prototype.  */
-#include <limits.h> /* For CHAR_MAX.  */
-#include <string.h> /* For memset.  */
+#include <stdio.h>  /* Pick up the snprintf prototype.  */
+#include <limits.h>
+#include <string.h>
+#include <locale.h> /* For localeconv.  */
 
 template<unsigned int size>
 struct FIND_DEC_MANT_DIG
@@ -113,19 +114,6 @@ private:
 public:
   static inline ostream & decimal_to_string(std::ostream &os, decimal_type &d)
     {
-      /* If strbuf is big enough for a _Decimal128, it is big enough for the
-       * other types as well, so just use the same size for all of them.
-       *   1  (leading zero)
-       * + 1  (.)
-       * + 34 (__DEC128_MANT_DIG__)
-       * + 1  (e)
-       * + 1  (+/-)
-       * + 4  (digits in __DEC128_MAX_EXP__)
-       * + 1  "\n"
-       * = 43 -> round up to a power of 2 = 64.  */
-
-      char strbuf[64];
-
       ios_base::fmtflags flags = os.flags();
       unsigned int precision = os.precision();
 
@@ -161,17 +149,123 @@ public:
       /* Per the confusing reading of the draft DFP C++ Specification, a/A type
          are never passed with an accompanying precision.  This causes the
 	 implicit precision in the type to be used for printing.  */
-      if (flags & ios::fixed && flags & ios::scientific)
-        sprintf (strbuf, fmtstr.c_str(), d.__getval());
+      bool implicit = flags & ios::fixed && flags & ios::scientific;
+      int len;
+
+      /* The fixed notation of a large number has as many digits as its
+	 exponent tells, so ask for the length first.  */
+      if (implicit)
+        len = snprintf (NULL, 0, fmtstr.c_str(), d.__getval());
       else
-        sprintf (strbuf, fmtstr.c_str(), precision, d.__getval());
-      os << strbuf;
+        len = snprintf (NULL, 0, fmtstr.c_str(), precision, d.__getval());
+      if (len < 0)
+        {
+          os.setstate (ios::failbit);
+          return os;
+        }
+
+      std::string str (len + 1, '\0');
+      if (implicit)
+        snprintf (&str[0], len + 1, fmtstr.c_str(), d.__getval());
+      else
+        snprintf (&str[0], len + 1, fmtstr.c_str(), precision, d.__getval());
+      str.resize (len);
+      os << str;
       return os;
     }
 
   enum {DEC_MANT_DIG = FIND_DEC_MANT_DIG<(sizeof(decimal_type))>::RESULT};
 };
 
+/* Formatted input: extract the longest sequence of characters that starts a
+ * number and convert it.  What follows the number stays in the stream.  */
+class LIBDFP_SCAN {
+private:
+  static inline bool is_digit(char c)
+    { return c >= '0' && c <= '9'; }
+
+  static inline char lower(char c)
+    { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
+
+  /* Tell whether STR can start a number that strtod recognizes.  */
+  static inline bool starts_number(const std::string &str,
+				   const std::string &point)
+    {
+      size_t i = 0, n = str.size();
+      bool digits = false;
+
+      if (i < n && (str[i] == '+' || str[i] == '-'))
+	i++;
+
+      std::string word;
+      for (size_t j = i; j < n; j++)
+	word.append(1, lower(str[j]));
+      if (word == std::string("infinity").substr(0, word.size())
+	  || word == std::string("nan").substr(0, word.size()))
+	return true;
+      if (word.compare(0, 4, "nan(") == 0)
+	{
+	  for (i = 4; i < word.size(); i++)
+	    if (!is_digit(word[i]) && !(word[i] >= 'a' && word[i] <= 'z')
+		&& word[i] != '_')
+	      return word[i] == ')' && i + 1 == word.size();
+	  return true;
+	}
+
+      for (; i < n && is_digit(str[i]); i++)
+	digits = true;
+      if (i < n && str[i] == point[0])
+	{
+	  for (size_t j = 0; j < point.size() && i < n; i++, j++)
+	    if (str[i] != point[j])
+	      return false;
+	  for (; i < n && is_digit(str[i]); i++)
+	    digits = true;
+	}
+      if (i < n && digits && lower(str[i]) == 'e')
+	{
+	  i++;
+	  if (i < n && (str[i] == '+' || str[i] == '-'))
+	    i++;
+	  while (i < n && is_digit(str[i]))
+	    i++;
+	}
+      return i == n;
+    }
+
+public:
+  template<class value_type>
+  static inline std::istream & get(std::istream &is, value_type &val,
+				   value_type (*convert)(const char *, char **))
+    {
+      std::istream::sentry ok (is);
+      if (!ok)
+	return is;
+
+      std::string str, point (localeconv()->decimal_point);
+      int c;
+      while ((c = is.peek()) != std::istream::traits_type::eof())
+	{
+	  str.append(1, (char) c);
+	  if (!starts_number(str, point))
+	    {
+	      str.resize(str.size() - 1);
+	      break;
+	    }
+	  is.get();
+	}
+
+      char *end;
+      val = convert(str.c_str(), &end);
+      if (str.empty() || *end != '\0')
+	{
+	  val = 0;
+	  is.setstate(ios::failbit);
+	}
+      return is;
+    }
+};
+
 /* Per ISO/IEC JTC1 SC22 WG21 N2732 - TR 24733: "Extension for the programming
  * language C++ to support decimal floating point arithmetic" define the
  * ostream and istream operators.  These are included in libdfp and NOT
@@ -214,10 +308,9 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal32 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod32(buf, NULL));
+	decimal32::__decfloat32 val = d.__getval();
+	LIBDFP_SCAN::get(is, val, strtod32);
+	d.__setval(val);
 	return is;
       }
 
@@ -225,10 +318,9 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal64 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod64(buf, NULL));
+	decimal64::__decfloat64 val = d.__getval();
+	LIBDFP_SCAN::get(is, val, strtod64);
+	d.__setval(val);
 	return is;
       }
 
@@ -236,10 +328,9 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal128 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod128(buf, NULL));
+	decimal128::__decfloat128 val = d.__getval();
+	LIBDFP_SCAN::get(is, val, strtod128);
+	d.__setval(val);
 	return is;
       }
 
-- 
2.43.0


From b449696209fbbe05279080588d7d0c928ad8aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 42/47] fix: _Decimal128 division under any binary rounding
 direction

---
 libbid/_div_td.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libbid/_div_td.c b/libbid/_div_td.c
index 97e15f6..3dab81d 100644
--- a/libbid/_div_td.c
+++ b/libbid/_div_td.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -28,10 +29,19 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal128
 __bid_divtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  int mode;
 
   ux.d = x;
   uy.d = y;
+
+  /* The quotient estimates in __bid128_div use binary floating point and
+     are only safe under the binary round-to-nearest direction.  */
+  mode = fegetround ();
+  if (mode != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   res.i = __bid128_div (ux.i, uy.i);
+  if (mode != FE_TONEAREST)
+    fesetround (mode);
   return (res.d);
 }
 hidden_def(__bid_divtd3);
-- 
2.43.0


From 13bb515f527d82b3128f9ab03d3ec89105f75eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 43/47] fix: expd64 of NaN indexed its table out of bounds

---
 ieee754r/expd64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 49d78dc..82d725e 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -59,6 +59,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   int neg = 0;
 
+  if (__isnand64 (val))
+    return val + val;
+
   if (__isinfd64(val))
     {
       if (val < DFP_CONSTANT(0.0))
-- 
2.43.0


From 038058fcc37f0ac28cc1ae1fbfca91116b5f3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 44/47] fix: integer to _Decimal128: negating the smallest
 integer overflowed

---
 base-math/floattitd.c | 2 +-
 libbid/bid_from_int.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index 078924c..8a850de 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -107,7 +107,7 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
        * Can't just use copysign later because we are dealing with
        * different register sets and copysign instructions only
        * within a specific register set.  */
-      u = (UINT128) -a;
+      u = -(UINT128) a;
       negative = 1;
     }
   else
diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index 84a4c33..6a00584 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -323,7 +323,7 @@ bid128_from_int64 (SINT64 x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // if integer is negative, use the absolute value
   if ((x & SIGNMASK64) == SIGNMASK64) {
     res.w[HIGH_128W] = 0xb040000000000000ull;
-    res.w[LOW_128W] = ~x + 1;	// 2's complement of x
+    res.w[LOW_128W] = ~(UINT64) x + 1;	// 2's complement of x
   } else {
     res.w[HIGH_128W] = 0x3040000000000000ull;
     res.w[LOW_128W] = x;
-- 
2.43.0


From abadbd2457981ebad64d29ae5df7d0ce1a03ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 45/47] fix: non-canonical _Decimal64 and _Decimal128
 coefficients are zero

---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 63d3cec..e13faaa 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -189,6 +189,7 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
   if ((comb & 0xc00) == 0xc00) { /* G0..G1 = 11 -> exp is G2..G11 */
     exp = (comb) & 0x3ff;
     bcoeff = (x & 0x0007ffffffffffffull) | 0x0020000000000000ull;
+    if (bcoeff > 9999999999999999ull) bcoeff = 0; /* non-canonical */
   } else {
     exp = (comb >> 2) & 0x3ff;
     bcoeff = (x & 0x001fffffffffffffull);
@@ -301,6 +302,14 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
     exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
     bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
     bcoeff.w[0] = x.w[0];
+    /* Non-canonical coefficients: G0..G1 = 11, or above 10^34 - 1.  */
+    if ((comb & 0x18000) == 0x18000) {
+      exp = ((x.w[1] & 0x1fff800000000000ull) >> 47) & 0x3fff;
+      bcoeff.w[1] = bcoeff.w[0] = 0;
+    } else if (bcoeff.w[1] > 0x0001ed09bead87c0ull
+	       || (bcoeff.w[1] == 0x0001ed09bead87c0ull
+		   && bcoeff.w[0] > 0x378d8e63ffffffffull))
+      bcoeff.w[1] = bcoeff.w[0] = 0;
     d1018 = reciprocals10_128[18];
     __mul_128x128_high (BH, bcoeff, d1018);
     amount = recip_scale[18];
-- 
2.43.0


From 1798ccfc781d2c660d9c0abce558a6c194bd8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 46/47] fix: powd64 lost digits in directed rounding modes

The exponent was split with rint, so in a directed mode a tiny exponent
became -1 or +1 plus a rounded remainder.
---
 ieee754r/powd64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index 1b85b3e..865076d 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -129,7 +129,7 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   /* x and y are non-zero, finite, and not one.
      Split y into integer and fraction and use the identity:
      x ^ (m+n) == ( x^m ) * (x^n) */
-  y_int = __rintd64 (y);
+  y_int = __roundd64 (y);
   result = 1.DL;
 
   /* Compute x^(int(y)) first, if abs(int(y)) fits inside a long int.  */
-- 
2.43.0


From d1e7d16dea1cd68a7d868e926e94705b5cb6f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 47/47] fix: printing non-canonical _Decimal128, decoded32 and
 decoded64 of them

---
 sysdeps/bid/bid-private.c | 4 +++-
 sysdeps/bid/bid-private.h | 3 ++-
 sysdeps/bid/decode.c      | 4 ++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sysdeps/bid/bid-private.c b/sysdeps/bid/bid-private.c
index a95781a..8bd0782 100644
--- a/sysdeps/bid/bid-private.c
+++ b/sysdeps/bid/bid-private.c
@@ -197,7 +197,9 @@ __get_digits_d128 (_Decimal128 x, char *str, int *exp_p, int *sign_p,
       result[0] |= d.ti[0] & 0xFFFFFFFFUL;
     }
 
-  if (result[1] >= DECIMAL128_TH)
+  /* 10^34 - 1 is the largest coefficient.  */
+  if (result[1] > DECIMAL128_TH_HI
+      || (result[1] == DECIMAL128_TH_HI && result[0] >= DECIMAL128_TH_LO))
     {
       result[0] = 0;
       result[1] = 0;
diff --git a/sysdeps/bid/bid-private.h b/sysdeps/bid/bid-private.h
index 83b002f..cb99067 100644
--- a/sysdeps/bid/bid-private.h
+++ b/sysdeps/bid/bid-private.h
@@ -162,6 +162,7 @@ union ieee754r_Decimal128
   };
 
 #define DECIMAL128_Bias 6176		/* bias for the exponent  */
-#define DECIMAL128_TH 1000000000000000	/* threshold (10³⁴ = 10¹⁵ x 10¹⁹) */
+#define DECIMAL128_TH_HI 0x1ed09bead87c0ULL	/* threshold: 10³⁴, high */
+#define DECIMAL128_TH_LO 0x378d8e6400000000ULL	/* and low 64 bits */
 
 #endif /* _BID_PRIVATE */
diff --git a/sysdeps/bid/decode.c b/sysdeps/bid/decode.c
index 6d2ef88..a44d709 100644
--- a/sysdeps/bid/decode.c
+++ b/sysdeps/bid/decode.c
@@ -51,6 +51,8 @@ __decoded32 (_Decimal32 a, char *str)
 	coeff = 0x00800000 | (d.si & 0x001FFFFF);
       else
 	coeff = d.si & 0x007FFFFF;
+      if (coeff > 9999999)	/* Non-canonical.  */
+	coeff = 0;
 
       for (n = 0; (coeff != 0) && (n < 3); ++n)
 	{
@@ -88,6 +90,8 @@ __decoded64 (_Decimal64 a, char *str)
       else
 	coeff = d.di[1] & 0x001FFFFF;
       coeff = (coeff << 32) | d.di[0];
+      if (coeff > 9999999999999999ULL)	/* Non-canonical.  */
+	coeff = 0;
 
       for (n = 0; (coeff != 0) && (n < 6); ++n)
 	{
-- 
2.43.0

