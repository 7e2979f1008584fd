From 7b317b1ffbcb5fa566568130b3940bee5900e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 01/23] fix: convert Numbers beyond 2^63 to 8..32 bits integers
 modulo 2^n

---
 include/ratjs/rjs_operation.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index cd5419e..d592ffa 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -723,6 +723,23 @@ rjs_to_integer_or_infinity (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
     return RJS_OK;
 }
 
+/**
+ * \cond
+ */
+/*Truncate the finite number and convert it to an integer modulo 2^32 (or better).*/
+static inline int64_t
+rjs_number_to_int_modulo (RJS_Number n)
+{
+    /*The conversion is undefined if the value is out of range of int64_t.*/
+    if (fabs(n) >= 9223372036854775808.)
+        n -= trunc(n * (1. / 4294967296.)) * 4294967296.;
+
+    return (int64_t)n;
+}
+/**
+ * \endcond
+ */
+
 /**
  * Convert the value to 8 bits signed integer.
  * \param rt The current runtime.
@@ -743,7 +760,7 @@ rjs_to_int8 (RJS_Runtime *rt, RJS_Value *v, int8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int_modulo(n);
     }
 
     return RJS_OK;
@@ -769,7 +786,7 @@ rjs_to_uint8 (RJS_Runtime *rt, RJS_Value *v, uint8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int_modulo(n);
     }
 
     return RJS_OK;
@@ -834,7 +851,7 @@ rjs_to_int16 (RJS_Runtime *rt, RJS_Value *v, int16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int_modulo(n);
     }
 
     return RJS_OK;
@@ -860,7 +877,7 @@ rjs_to_uint16 (RJS_Runtime *rt, RJS_Value *v, uint16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int_modulo(n);
     }
 
     return RJS_OK;
@@ -886,7 +903,7 @@ rjs_to_int32 (RJS_Runtime *rt, RJS_Value *v, int32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int_modulo(n);
     }
 
     return RJS_OK;
@@ -912,7 +929,7 @@ rjs_to_uint32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int_modulo(n);
     }
 
     return RJS_OK;
-- 
2.43.0


From d8c9c0a0a1d500ca65cd870d577f8e958380233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 02/23] fix: convert the operands of >>> with ToUint32 and mask
 the shift count

---
 src/lib/rjs_number.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_number.c b/src/lib/rjs_number.c
index 2df6116..7a1606c 100644
--- a/src/lib/rjs_number.c
+++ b/src/lib/rjs_number.c
@@ -95,9 +95,14 @@ rjs_number_signed_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJ
 void
 rjs_number_unsigned_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    uint32_t n1 = rjs_value_get_number(rt, v1);
-    uint32_t n2 = rjs_value_get_number(rt, v2);
-    uint32_t rn = n1 >> n2;
+    uint32_t n1 = 0;
+    uint32_t n2 = 0;
+    uint32_t rn;
+
+    rjs_to_uint32(rt, v1, &n1);
+    rjs_to_uint32(rt, v2, &n2);
+
+    rn = n1 >> (n2 & 31);
 
     rjs_value_set_number(rt, rv, rn);
 }
-- 
2.43.0


From 4f5d688e57b2a3cc26ce8e24a0990946d98e9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 03/23] fix: keep the result of Math.random below 1

---
 src/lib/rjs_math_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_math_object_inc.c b/src/lib/rjs_math_object_inc.c
index a3c1549..3943814 100644
--- a/src/lib/rjs_math_object_inc.c
+++ b/src/lib/rjs_math_object_inc.c
@@ -616,7 +616,8 @@ static RJS_NF(Math_random)
 {
     RJS_Number n;
 
-    n = ((RJS_Number)rand()) / RAND_MAX;
+    /*The result must be less than 1.*/
+    n = ((RJS_Number)rand()) / (RAND_MAX + 1.);
 
     rjs_value_set_number(rt, rv, n);
     return RJS_OK;
-- 
2.43.0


From 5a7002e1943dd42b9a1cb5feae97346c0484351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 04/23] fix: clear the borrow when big integer subtraction
 stops borrowing

---
 src/lib/rjs_big_int_internal_opt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index d40a6fc..45ca8c6 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1168,7 +1168,8 @@ bi_self_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, src1, i, v)) == RJS_ERR)
@@ -1220,7 +1221,8 @@ bi_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, dst, i, v)) == RJS_ERR)
-- 
2.43.0


From 98ec6a0aba0e76c1b8c3627209000bd884f1d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 05/23] fix: keep the absolute value when multiplying big
 integer limbs by 1

---
 src/lib/rjs_big_int_internal_opt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 45ca8c6..4377e91 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -318,7 +318,11 @@ bi_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
         bi_set_0(dst);
         return RJS_OK;
     } else if ((n == 1) && (shift == 0)) {
-        return bi_dup(rt, dst, src);
+        if ((r = bi_dup(rt, dst, src)) == RJS_ERR)
+            return r;
+
+        dst->size = size;
+        return RJS_OK;
     }
 
     bi_set_0(dst);
-- 
2.43.0


From 2bbcfb6bc839188b839d0f657a514012e20c3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 06/23] fix: sign extend negative big integers in asIntN and
 asUintN

---
 src/lib/rjs_big_int_internal_opt.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 4377e91..0d19b88 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -2238,21 +2238,23 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
     RJS_BI    *inp;
     int        size;
     int64_t    off, b, i;
-    uint32_t   n;
+    uint32_t   n, fill;
     RJS_Result r;
 
     bi_init(&tmp);
 
     if (bi_positive(src) < 0) {
-        inp = &tmp;
+        inp  = &tmp;
+        fill = 0xffffffff;
 
         if ((r = bi_complement(rt, src, inp)) == RJS_ERR)
             goto end;
     } else {
-        inp = src;
+        inp  = src;
+        fill = 0;
     }
 
-    size = bi_size(inp);
+    size = bi_size(src);
 
     off = bits / 32;
     b   = bits % 32;
@@ -2261,7 +2263,7 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
         if (i < size)
             n = inp->n[i];
         else
-            n = 0;
+            n = fill;
 
         if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
             goto end;
@@ -2271,7 +2273,7 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
         if (i < size)
             n = inp->n[i];
         else
-            n = 0;
+            n = fill;
 
         n &= ~(0xffffffff << b);
 
-- 
2.43.0


From 7be39f41909e994b5cb7a3eec2dc97c24151e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 07/23] fix: shift negative big integers without losing sign
 limbs

---
 src/lib/rjs_big_int_internal_opt.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 0d19b88..e42d558 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1921,22 +1921,22 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
             left = v >> 32;
         }
 
-        if (left) {
-            if (pos1 < 0)
-                left |= 0xffffffff << bits;
+        if (pos1 < 0)
+            left |= 0xffffffff << bits;
 
+        if (left) {
             if ((r = bi_set_item(rt, d, i, left)) == RJS_ERR)
                 goto end;
         }
     }
 
-    bi_end(d);
-
     if (pos1 < 0) {
         if ((r = bi_complement(rt, d, dst)) == RJS_ERR)
             goto end;
 
         dst->size = - dst->size;
+    } else {
+        bi_end(d);
     }
 
     r = RJS_OK;
-- 
2.43.0


From 93744b634f76897e87c8b3b23c92d8d562565123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 08/23] fix: allocate the element vector when the sparse
 element tree is empty

---
 src/lib/rjs_object.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_object.c b/src/lib/rjs_object.c
index 0e11f04..ac18cac 100644
--- a/src/lib/rjs_object.c
+++ b/src/lib/rjs_object.c
@@ -127,18 +127,15 @@ prop_rbt_to_vec (RJS_Runtime *rt, RJS_Rbt *rbt, size_t len)
     RJS_Property *vec;
     size_t        i;
 
-    if (!rbt)
-        return NULL;
-
     RJS_NEW_N(rt, vec, len);
 
     for (i = 0; i < len; i ++)
         vec[i].attrs = RJS_PROP_ATTR_DELETED;
 
-    if (rbt)
+    if (rbt) {
         prop_rbt_set_vec(rt, rbt, vec, len);
-
-    prop_rbt_free_all(rt, rbt);
+        prop_rbt_free_all(rt, rbt);
+    }
 
     return vec;
 }
-- 
2.43.0


From 9eb45f18a39b69843d1e36f88a46dd372e0b7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 09/23] fix: keep the sign of a negative big integer raised to
 the power 1

---
 src/lib/rjs_big_int_internal_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index e42d558..613337f 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1780,6 +1780,7 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
     } else if (e == 1) {
         if ((r = bi_dup(rt, dst, src1)) == RJS_ERR)
             goto end;
+        dst->size = RJS_ABS(dst->size);
     } else {
         bi_map_resize(rt, &emap, 1);
         pbi = emap.items;
-- 
2.43.0


From e9ca25d5b21eb8b5856fb18c50db43637b4e0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 10/23] fix: treat only canonical decimal strings as array
 indices

---
 src/lib/rjs_string.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index d0e2059..7c2558e 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -494,24 +494,17 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     uc  = string_get_uchars(s);
     len = s->length;
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            break;
-
-        uc  ++;
-        len --;
-    }
-
     if (!len)
         goto end;
-        
-    if (!rjs_uchar_is_digit(*uc))
+
+    /*Only the canonical decimal form has no leading 0.*/
+    if ((*uc == '0') && (len > 1))
         goto end;
 
     n = 0;
     while (len) {
         if (!rjs_uchar_is_digit(*uc))
-            break;
+            goto end;
 
         n *= 10;
         n += *uc - '0';
@@ -523,14 +516,6 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
         len --;
     }
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            goto end;
-
-        uc  ++;
-        len --;
-    }
-
     is_idx = RJS_TRUE;
     *pi    = n;
 end:
-- 
2.43.0


From cf4d3e909c6d0d997daedc39cfff4e0d13ac3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 11/23] fix: do not read past the end of a truncated URI escape

---
 src/lib/rjs_uri_functions_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index 1d7c8fc..cb0cbd8 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -68,7 +68,7 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
         } else {
             int uc, n;
 
-            if (e - c < 2) {
+            if (e - c < 3) {
                 r = throw_uri_error(rt);
                 goto end;
             }
-- 
2.43.0


From 27cbcec7621aa8b97f8b4f1128b846270ee7eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 12/23] fix: reject escapes which are not well formed UTF-8 in
 URI decoding

---
 src/lib/rjs_uri_functions_inc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index cb0cbd8..24184b4 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -66,7 +66,7 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             c ++;
         } else {
-            int uc, n;
+            int uc, n, min;
 
             if (e - c < 3) {
                 r = throw_uri_error(rt);
@@ -106,15 +106,19 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             c += 3;
 
             if (!(uc & 0x80)) {
-                n = 0;
+                n   = 0;
+                min = 0;
             } else if ((uc & 0xe0) == 0xc0) {
                 n   = 1;
+                min = 0x80;
                 uc &= 0x1f;
             } else if ((uc & 0xf0) == 0xe0) {
                 n   = 2;
+                min = 0x800;
                 uc &= 0x0f;
             } else if ((uc & 0xf8) == 0xf0) {
                 n   = 3;
+                min = 0x10000;
                 uc &= 0x07;
             } else {
                 r = throw_uri_error(rt);
@@ -152,6 +156,12 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
                 n --;
             }
 
+            /*Not the shortest form, a surrogate or out of range.*/
+            if ((uc < min) || ((uc >= 0xd800) && (uc <= 0xdfff)) || (uc > 0x10ffff)) {
+                r = throw_uri_error(rt);
+                goto end;
+            }
+
             rjs_uchar_buffer_append_uc(rt, &ucb, uc);
         }
     }
-- 
2.43.0


From fc938a4f275c30b49df5b2fd4b21790aba5e32ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 13/23] fix: get hours, minutes and seconds of times before
 1970 correctly

---
 src/lib/rjs_date_object_inc.c | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 7c1fc18..9111020 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -245,39 +245,21 @@ date_from_time (int64_t t)
 static int
 hour_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
-    if (v < 0)
-        v += RJS_HOURS_PER_DAY;
-
-    return v;
+    return time_within_day(t) / RJS_MS_PER_HOUR;
 }
 
 /*Get minute from time.*/
 static int
 min_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
-    if (v < 0)
-        v += RJS_MINUTES_PER_HOUR;
-
-    return v;
+    return (time_within_day(t) / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
 }
 
 /*Get second from time.*/
 static int
 sec_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
-    if (v < 0)
-        v += RJS_SECONDS_PER_MINUTE;
-
-    return v;
+    return (time_within_day(t) / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
 }
 
 /*Get microseconds from time.*/
-- 
2.43.0


From b1d4a220767c792a4a7d55e3f7518dcc2edf08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 14/23] fix: make an invalid day from years and months out of
 range

---
 src/lib/rjs_date_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 9111020..eb3f2f7 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -451,7 +451,8 @@ make_day (RJS_Runtime *rt, RJS_Number y, RJS_Number m, RJS_Number d)
         rjs_to_integer_or_infinity(rt, v, &d);
 
         y += floor(m / 12);
-        if (isinf(y)) {
+        /*Out of the range of dates, and of the integers used below.*/
+        if (!(fabs(y) < 1e8) || !(fabs(m) < 1e15)) {
             dv = NAN;
             goto end;
         }
-- 
2.43.0


From 375d8812ec4c92df12b301cce39ecc4944bdac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 15/23] fix: isFrozen and isSealed propagate an error thrown by
 [[IsExtensible]]

---
 src/lib/rjs_operation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 3988ba9..fd4df60 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1019,7 +1019,10 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 
     rjs_property_desc_init(rt, &pd);
 
-    if (rjs_object_is_extensible(rt, o)) {
+    if ((r = rjs_object_is_extensible(rt, o)) == RJS_ERR)
+        goto end;
+
+    if (r) {
         r = RJS_FALSE;
         goto end;
     }
-- 
2.43.0


From ba566fff124ebd0a313ddf70660d619392452b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 16/23] fix: freezing succeeds when the last listed key has no
 own property

---
 src/lib/rjs_operation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index fd4df60..9c30458 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -992,6 +992,8 @@ rjs_set_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel level
                 goto end;
         }
     }
+
+    r = RJS_TRUE;
 end:
     rjs_property_desc_deinit(rt, &pd);
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From d29d4f3fc25f812ba543f46095419a9f10b8707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 17/23] fix: Date.prototype.setUTCMilliseconds keeps the
 minutes

---
 src/lib/rjs_date_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index eb3f2f7..c6a6a04 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -1973,7 +1973,7 @@ static RJS_NF(Date_prototype_setUTCMilliseconds)
         return RJS_OK;
     }
 
-    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), ms_from_time(t), sec_from_time(t), milli));
+    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), min_from_time(t), sec_from_time(t), milli));
     u = time_clip(rt, u);
 
     d = (RJS_Date*)rjs_value_get_object(rt, thiz);
-- 
2.43.0


From ce38b40e8c2d51e4db61b0bcca2f50687c62e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 18/23] fix: hash BigInt keys by value so that equal Map and
 Set keys share a bucket

---
 src/lib/rjs_hash.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/rjs_hash.c b/src/lib/rjs_hash.c
index 5d67913..d5536f5 100644
--- a/src/lib/rjs_hash.c
+++ b/src/lib/rjs_hash.c
@@ -291,6 +291,15 @@ hash_op_value_key (void *data, void *key)
     case RJS_VALUE_STRING:
         r = rjs_string_hash_key(rt, v);
         break;
+#if ENABLE_BIG_INT
+    case RJS_VALUE_BIG_INT: {
+        uint64_t u = 0;
+
+        rjs_big_int_to_uint64(rt, v, &u);
+        r = u;
+        break;
+    }
+#endif /*ENABLE_BIG_INT*/
     default:
         r = RJS_PTR2SIZE(rjs_value_get_gc_thing(rt, v));
         break;
-- 
2.43.0


From fd887597dfa3a3da6f2068b32a29623a4e9484ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 19/23] fix: Map and Set store the key -0 as +0

---
 src/lib/rjs_hash_object_inc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index ede08b0..04c235c 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -325,6 +325,10 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
 
         rjs_value_copy(rt, &se->key, k);
 
+        /*-0 is stored as +0.*/
+        if (rjs_value_is_number(rt, k) && (rjs_value_get_number(rt, k) == 0))
+            rjs_value_set_number(rt, &se->key, 0);
+
         rjs_hash_insert(&ho->hash, &se->key, &se->he, phe, &rjs_hash_value_ops_0, rt);
         rjs_list_append(&ho->list, &se->ln);
 
-- 
2.43.0


From 771c0ac4468b25be6fdbcea417a6cee6466cfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 20/23] fix: sort typed arrays on a copy so that the compare
 function cannot lose elements

---
 src/lib/rjs_typed_array_object_inc.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 3f9a229..ef8de21 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -1758,7 +1758,8 @@ static RJS_NF(TypedArray_prototype_sort)
     RJS_IntIndexedObject   *iio;
     RJS_ArrayBuffer        *ab;
     RJS_DataBlock          *db;
-    size_t                  esize;
+    uint8_t                *buf, *copy;
+    size_t                  esize, size;
     RJS_TypedArrayCmpParams params; 
     RJS_Result              r;
 
@@ -1779,14 +1780,28 @@ static RJS_NF(TypedArray_prototype_sort)
     params.type  = iio->type;
     params.cmp   = cmp_fn;
 
-    db = ab->data_block;
+    size = iio->array_length * esize;
+    r    = RJS_OK;
 
-    rjs_data_block_ref(db);
+    /*Sort a copy: the compare function may change the array.*/
+    if (size) {
+        db = ab->data_block;
 
-    r = rjs_sort(rjs_data_block_get_buffer(db) + iio->byte_offset,
-            iio->array_length, esize, typed_array_element_cmp, &params);
+        rjs_data_block_ref(db);
 
-    rjs_data_block_unref(db);
+        buf  = rjs_data_block_get_buffer(db) + iio->byte_offset;
+        copy = rjs_alloc_assert(rt, size);
+        memcpy(copy, buf, size);
+
+        r = rjs_sort(copy, size / esize, esize, typed_array_element_cmp, &params);
+
+        if (r == RJS_OK)
+            memcpy(buf, copy, size);
+
+        rjs_free(rt, copy, size);
+
+        rjs_data_block_unref(db);
+    }
 
     if (r == RJS_OK)
         rjs_value_copy(rt, rv, thiz);
-- 
2.43.0


From 799db9cbebcb2b95b837d8fac437be77d6f41509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:07 +0000
Subject: [PATCH 21/23] fix: the executor of a promise capability owns the
 resolving functions it is given

---
 src/lib/rjs_promise.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_promise.c b/src/lib/rjs_promise.c
index 3db2730..7e18677 100644
--- a/src/lib/rjs_promise.c
+++ b/src/lib/rjs_promise.c
@@ -47,7 +47,10 @@ typedef struct {
 
 /**Promise capability new function.*/
 typedef struct {
-    RJS_PromiseCapability pc; /**< The promise capability.*/
+    RJS_PromiseCapability pc;      /**< The promise capability.*/
+    RJS_Value             promise; /**< Promise value buffer.*/
+    RJS_Value             resolve; /**< Resolve value buffer.*/
+    RJS_Value             reject;  /**< Reject value buffer.*/
 } RJS_PromiseCapabilityData;
 
 /*Resolve native function.*/
@@ -522,6 +525,17 @@ end:
     return r;
 }
 
+/*Scan the referenced things in the promise capability data.*/
+static void
+promise_capability_data_scan (RJS_Runtime *rt, void *ptr)
+{
+    RJS_PromiseCapabilityData *pcd = ptr;
+
+    rjs_gc_scan_value(rt, &pcd->promise);
+    rjs_gc_scan_value(rt, &pcd->resolve);
+    rjs_gc_scan_value(rt, &pcd->reject);
+}
+
 /*Free the promise capability data.*/
 static void
 promise_capability_data_free (RJS_Runtime *rt, void *ptr)
@@ -582,13 +596,20 @@ rjs_new_promise_capability (RJS_Runtime *rt, RJS_Value *constr, RJS_PromiseCapab
     if (r == RJS_ERR)
         goto end;
 
+    /*The executor can be called after this function returned, so it owns the values.*/
     RJS_NEW(rt, pcd);
-    rjs_promise_capability_init_vp(rt, &pcd->pc, pc->promise, pc->resolve, pc->reject);
-    rjs_native_object_set_data(rt, exec, NULL, pcd, NULL, promise_capability_data_free);
+    rjs_value_set_undefined(rt, &pcd->promise);
+    rjs_value_set_undefined(rt, &pcd->resolve);
+    rjs_value_set_undefined(rt, &pcd->reject);
+    rjs_promise_capability_init_vp(rt, &pcd->pc, &pcd->promise, &pcd->resolve, &pcd->reject);
+    rjs_native_object_set_data(rt, exec, NULL, pcd, promise_capability_data_scan, promise_capability_data_free);
 
     if ((r = rjs_construct(rt, constr, exec, 1, NULL, promise)) == RJS_ERR)
         goto end;
 
+    rjs_value_copy(rt, pc->resolve, pcd->pc.resolve);
+    rjs_value_copy(rt, pc->reject, pcd->pc.reject);
+
     if (!rjs_is_callable(rt, pc->resolve) || !rjs_is_callable(rt, pc->reject)) {
         r = rjs_throw_type_error(rt, _("\"resolve\" or \"reject\" is not a function"));
         goto end;
-- 
2.43.0


From 4f21690d0f88c3ed99dd0d349c9d98fe29ef5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:49 +0000
Subject: [PATCH 22/23] fix: a job that solves jobs does not run itself again

---
 src/lib/include/rjs_runtime.h | 1 +
 src/lib/rjs_job.c             | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/lib/include/rjs_runtime.h b/src/lib/include/rjs_runtime.h
index 2bbae00..29abff9 100644
--- a/src/lib/include/rjs_runtime.h
+++ b/src/lib/include/rjs_runtime.h
@@ -62,6 +62,7 @@ struct RJS_Runtime_s {
     RJS_Parser      *parser;               /**< The parser.*/
     RJS_Environment *env;                  /**< The environment.*/
     RJS_List         job_list;             /**< Job list.*/
+    RJS_Bool         job_running;          /**< A job is running.*/
     RJS_ModuleLookupFunc mod_lookup_func;  /**< Module lookup function.*/
     RJS_ModuleLoadFunc   mod_load_func;    /**< Module load function.*/
     RJS_NativeData   native_data;          /**< Native data of the runtime.*/
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index a23bf94..712ad4e 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -77,6 +77,12 @@ rjs_solve_jobs (RJS_Runtime *rt)
     RJS_Job   *j, *nj;
     RJS_Realm *old_realm = rt->rb.bot_realm;
 
+    /*A job cannot be interrupted by the other jobs.*/
+    if (rt->job_running)
+        return;
+
+    rt->job_running = RJS_TRUE;
+
     while (!rjs_list_is_empty(&rt->job_list)) {
         rjs_list_foreach_safe_c(&rt->job_list, j, nj, RJS_Job, ln) {
 
@@ -91,6 +97,7 @@ rjs_solve_jobs (RJS_Runtime *rt)
     }
 
     rt->rb.bot_realm = old_realm;
+    rt->job_running  = RJS_FALSE;
 }
 
 /**
@@ -101,6 +108,7 @@ void
 rjs_runtime_job_init (RJS_Runtime *rt)
 {
     rjs_list_init(&rt->job_list);
+    rt->job_running = RJS_FALSE;
 }
 
 /**
-- 
2.43.0


From 152327d4582cfef9d439abe2e5f079d5c8481f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:24 +0000
Subject: [PATCH 23/23] fix: assigning to a const of sloppy code throws a
 TypeError

---
 src/lib/rjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 53b76d5..63bfd19 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7423,7 +7423,7 @@ parse_lexical_decl (RJS_Runtime *rt, RJS_Value *vs)
         dtype = RJS_AST_DECL_LET;
     } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_const)) {
         type  = RJS_AST_ConstDecl;
-        dtype = RJS_AST_DECL_CONST;
+        dtype = RJS_AST_DECL_STRICT;
     } else {
         parse_unexpect_error(rt, &tok->location, _("`let\' or `const\'"));
         goto end;
-- 
2.43.0

