From 010c8f010941b135b79e5da2c0e5bfcd6c0688ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 01/10] fix: don't scale a float constant by its ignored
 fraction digits

Fraction digits past MAX_CONST_DIGITS are dropped, but the decimal
exponent was still decremented for each of them, making the constant
10 times too small per dropped digit.
---
 v0100/smlrc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 04681be..2b699c2 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1626,8 +1626,7 @@ int GetNumber(void)
       while (isdigit((ch = *p) & 0xFFu))
       {
         if (mcnt < MAX_CONST_DIGITS)
-          ConstDigits[mcnt++] = ch - '0';
-        mexp--; // TBD??? overflow
+          ConstDigits[mcnt++] = ch - '0', mexp--; // TBD??? overflow
         ShiftCharN(1);
       }
     }
-- 
2.43.0


From 39c60bb5ae53641d7ee5eee45d3c5b816b97b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:06 +0000
Subject: [PATCH 02/10] fix: mktime: don't add the time zone to the error value

---
 v0100/srclib/mktime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/srclib/mktime.c b/v0100/srclib/mktime.c
index 80acfbf..fc27722 100644
--- a/v0100/srclib/mktime.c
+++ b/v0100/srclib/mktime.c
@@ -90,7 +90,7 @@ time_t mktime(struct tm* tm)
 #ifdef _LINUX
   long tv[2];
   int tz[2] = { 0 };
-  if (SysGettimeofday(tv, tz) == 0)
+  if (tt != (time_t)-1 && SysGettimeofday(tv, tz) == 0)
     tt += tz[0] * 60;
 #endif // _LINUX
   return tt;
-- 
2.43.0


From ddf630c529b2428e5899107ec7891c227264f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:26 +0000
Subject: [PATCH 03/10] fix: printf: apply the h and hh modifiers before
 deciding on the 0x prefix

---
 v0100/srclib/doprint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/doprint.c b/v0100/srclib/doprint.c
index 796328d..13e997d 100644
--- a/v0100/srclib/doprint.c
+++ b/v0100/srclib/doprint.c
@@ -483,8 +483,6 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         base = 16;
         if (c == 'X')
           digits = "0123456789ABCDEF";
-        if (alt && v)
-          hexpfx = (c == 'X') ? "0X" : "0x";
       }
 
       if (c != 'd')
@@ -505,6 +503,9 @@ int __doprint(FILE* f, char* fmt, va_list vl)
           v = -v, sign = '-';
       }
 
+      if (alt && v && toupper(c) == 'X')
+        hexpfx = (c == 'X') ? "0X" : "0x";
+
       tmp = v;
       do
       {
-- 
2.43.0


From ea5fb0161a258b1ed23aa268a22797f03ae2bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:13 +0000
Subject: [PATCH 04/10] fix: ucpp: report the overflow of the most negative
 integer % -1 instead of crashing

---
 v0100/ucpp/arith.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/arith.c b/v0100/ucpp/arith.c
index 7116398..d590970 100644
--- a/v0100/ucpp/arith.c
+++ b/v0100/ucpp/arith.c
@@ -656,11 +656,16 @@ ARITH_DECL_BI_SS_S(slash)
 }
 
 /*
- * Only division by 0 needs to be checked.
+ * Besides division by 0, NATIVE_SIGNED_MIN % (-1) needs to be checked,
+ * for the same reason as in division.
  */
 ARITH_DECL_BI_SS_S(pct)
 {
 	if (y == 0) ARITH_ERROR(ARITH_EXCEP_PCT_D);
+#if NEGATIVE_IS_BIGGER
+	else if (x == NATIVE_SIGNED_MIN && y == (arith_s)(-1))
+		ARITH_ERROR(ARITH_EXCEP_SLASH_O);
+#endif
 	return x % y;
 }
 
-- 
2.43.0


From 4ad6fc7da92874638df71162b4e92b3f8b744c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:13 +0000
Subject: [PATCH 05/10] fix: ucpp: warn of the overflow of 0 minus the most
 negative integer

---
 v0100/ucpp/arith.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/arith.c b/v0100/ucpp/arith.c
index d590970..5d48bbd 100644
--- a/v0100/ucpp/arith.c
+++ b/v0100/ucpp/arith.c
@@ -419,7 +419,7 @@ ARITH_DECL_BI_SS_S(plus)
 
 /*
  * Subtraction of signed values:
- * -- overflow: only if x > 0 and y < 0
+ * -- overflow: only if x >= 0 and y < 0
  *    ** if NEGATIVE_IS_BIGGER == 1 (must be two's complement) and
  *       y == NATIVE_SIGNED_MIN then overflow
  *    ** otherwise, cast x and -y to unsigned, then add and check
@@ -435,7 +435,7 @@ ARITH_DECL_BI_SS_S(plus)
 ARITH_DECL_BI_SS_S(minus)
 {
 #ifdef ARITHMETIC_CHECKS
-	if (x > 0 && y < 0 && (
+	if (x >= 0 && y < 0 && (
 #if NEGATIVE_IS_BIGGER
 	(y == NATIVE_SIGNED_MIN) ||
 #endif
-- 
2.43.0


From 131c74e1d0335e4c4f1c0e78853167e13eac69c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 06/10] fix: ucpp: give ?: in #if the common type of its
 operands

---
 v0100/ucpp/eval.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 1bbd06d..cd988aa 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -522,6 +522,24 @@ static ppval eval_opbin(int op, ppval v1, ppval v2)
 	return r;
 }
 
+/*
+ * Signedness of the result of a binary operator, as in eval_opbin().
+ */
+static int opbin_sign(int op, int s1, int s2)
+{
+	switch (op) {
+	case STAR:	case SLASH:	case PCT:
+	case PLUS:	case MINUS:	case AND:
+	case CIRC:	case OR:
+		return s1 && s2;
+	case LSH:	case RSH:
+		return s1;
+	case COMMA:
+		return s2;
+	}
+	return 1;
+}
+
 static int ttOP(int x)
 {
 	return OP_UN(x) || OP_BIN(x) || x == QUEST || x == COLON;
@@ -639,6 +657,9 @@ eval_loop:
 				if (do_eval)
 					top = eval_opbin(ct->type, top, tr);
 			}
+			if (!do_eval)
+				top.sign = opbin_sign(ct->type,
+					top.sign, tr.sign);
 			goto eval_loop;
 		}
 	} else if (ct->type == QUEST) {
@@ -659,6 +680,14 @@ eval_loop:
 			if (do_eval) {
 				if (qv) top = r1; else top = r2;
 			}
+			/* the result has the common type of r1 and r2 */
+			if (!r1.sign || !r2.sign) {
+				if (top.sign)
+					top.u.uv = big_s_to_u(top.u.sv);
+				top.sign = 0;
+			} else {
+				top.sign = 1;
+			}
 			goto eval_loop;
 		}
 	}
-- 
2.43.0


From 048b1950abfb3d891ea4a3ac72a428549357aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 07/10] fix: ucpp: accept any expression between ? and : in #if

---
 v0100/ucpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index cd988aa..86eb0e5 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -669,7 +669,7 @@ eval_loop:
 		if (bp >= minprec) {
 			int qv = boolval(top);
 
-			r1 = eval_shrd(tf, bp, qv ? do_eval : 0);
+			r1 = eval_shrd(tf, 0, qv ? do_eval : 0);
 			if (tf->art == tf->nt) goto trunc_err;
 			ct = tf->t + (tf->art ++);
 			if (ct->type != COLON) {
-- 
2.43.0


From 7583eac038b3d4810aad467a2a1b79b54eae86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:57 +0000
Subject: [PATCH 08/10] fix: smlrcc: quote file names for sh

---
 v0100/smlrcc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 2d80b1f..8aa2194 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -576,9 +576,14 @@ void fatargs(int* pargc, char*** pargv)
 
 int EscapingNeeded(char* s)
 {
+#ifdef UNIX_LIKE
+  // The characters that are special to sh outside of quotes.
+  return *s == '\0' || strpbrk(s, " \t\n\"'\\<>&|;()$`*?[]{}#~!^%") != NULL;
+#else
   // Looks like DOS' COMMAND.COM and Windows' cmd.exe handle %
   // specially even inside double quotes (e.g. %path% would always expand).
   return *s == '\0' || strpbrk(s, " \t\"<>&|^") != NULL;
+#endif
 }
 
 // TBD!!! I should probably abandon the idea of launching subordinates via
@@ -588,13 +593,23 @@ size_t Escape(char* out, char* in, size_t outsz)
 {
   size_t sz = 0;
   int c;
+#ifndef UNIX_LIKE
   size_t slashes = 0;
+#endif
 
   if (sz++ < outsz)
     *out++ = '"';
 
   while ((c = *in++) != '\0')
   {
+#ifdef UNIX_LIKE
+    // The characters that are special to sh inside double quotes.
+    if (c == '"' || c == '\\' || c == '$' || c == '`')
+    {
+      if (sz++ < outsz)
+        *out++ = '\\';
+    }
+#else
     if (c == '\\')
     {
       do
@@ -621,6 +636,7 @@ size_t Escape(char* out, char* in, size_t outsz)
       if (sz++ < outsz)
         *out++ = '\\';
     }
+#endif
 
     if (sz++ < outsz)
       *out++ = c;
-- 
2.43.0


From a87a3c3fec2db3b5e7b4f6c7944f6fa323a34538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 09/10] fix: malloc: refuse growth requests that would shrink
 the heap

When the last heap block was free, a request above 2 GB made the amount to grow
by negative and __sbrk() cut the heap below live blocks.
---
 v0100/srclib/malloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/malloc.c b/v0100/srclib/malloc.c
index 804c020..999c767 100644
--- a/v0100/srclib/malloc.c
+++ b/v0100/srclib/malloc.c
@@ -303,11 +303,12 @@ void* malloc(unsigned size)
   else
   {
     togrow = size + 2*HEADER_FOOTER_SZ;
-    if ((int)togrow <= 0)
-      return 0;
     blk = (unsigned*)__heap_stop;
   }
 
+  if ((int)togrow <= 0) // too large, __sbrk() would shrink the heap
+    return 0;
+
   if ((int)__sbrk(togrow) != -1)
   {
     unsigned* nxtblk = (unsigned*)((unsigned)blk + 2*HEADER_FOOTER_SZ + size);
-- 
2.43.0


From 7e99095c8ca2efc8c6ea5a76c7ad5a8e2ff5f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 10/10] fix: realloc: join the block cut off by shrinking with
 a free successor

The remainder was left next to a free block; the two were never joined and
memory stayed fragmented after everything was freed.
---
 v0100/srclib/realloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/srclib/realloc.c b/v0100/srclib/realloc.c
index 88d5ea9..0fbd81c 100644
--- a/v0100/srclib/realloc.c
+++ b/v0100/srclib/realloc.c
@@ -106,6 +106,11 @@ void* realloc(void* ptr, unsigned size)
         mid[-2] = 1; // allocated
         mid[-1] = size;
         sz -= size + 2*HEADER_FOOTER_SZ;
+        if ((unsigned)nxtblk < __heap_stop && !nxtblk[1]) // next block exists and is free, join the two
+        {
+          sz += nxtblk[0] + 2*HEADER_FOOTER_SZ;
+          nxtblk = (unsigned*)((unsigned)mid + 2*HEADER_FOOTER_SZ + sz);
+        }
         mid[0] = sz;
         mid[1] = 0; // free
         nxtblk[-2] = 0; // free
-- 
2.43.0

