From 4e384dc880d6a91c8a3026d8d3e4149518f767e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 01/51] Add verification hooks to the garbage collector
 (guarded by SCM_VERIF_HOOKS)

---
 src/storage-gc.c | 112 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 103 insertions(+), 9 deletions(-)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index 04bbf9d..c321abf 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -64,6 +64,30 @@
 #include "sigscheme.h"
 #include "sigschemeinternal.h"
 
+#if SCM_VERIF_HOOKS
+/* Verification instrumentation, not compiled in ordinary builds: collections
+ * forced by the environment, counters, and ASan poisoning of free cells. */
+#if defined(__SANITIZE_ADDRESS__)
+#define SCM_VERIF_ASAN 1
+#elif defined(__has_feature)
+#if __has_feature(address_sanitizer)
+#define SCM_VERIF_ASAN 1
+#endif
+#endif
+#endif /* SCM_VERIF_HOOKS */
+#if SCM_VERIF_ASAN
+#include <sanitizer/asan_interface.h>
+#define VERIF_NO_ASAN __attribute__((no_sanitize_address))
+#define VERIF_POISON_CELL(cell)                                              \
+    ASAN_POISON_MEMORY_REGION((cell), sizeof(ScmCell))
+#define VERIF_UNPOISON_CELL(cell)                                            \
+    ASAN_UNPOISON_MEMORY_REGION((cell), sizeof(ScmCell))
+#else /* SCM_VERIF_ASAN */
+#define VERIF_NO_ASAN
+#define VERIF_POISON_CELL(cell)   SCM_EMPTY_EXPR
+#define VERIF_UNPOISON_CELL(cell) SCM_EMPTY_EXPR
+#endif /* SCM_VERIF_ASAN */
+
 /*=======================================
   File Local Macro Definitions
 =======================================*/
@@ -156,6 +180,10 @@ static size_t gc_sweep(void);
 
 static void finalize_protected_var(void);
 
+#if SCM_VERIF_HOOKS
+static void verif_before_alloc(void);
+#endif
+
 #if SCM_DEBUG
 static void scm_ensure_proper_freelist(ScmObj flst);  /* FIXME */
 #endif
@@ -207,6 +235,53 @@ scm_fin_gc(void)
     SCM_GLOBAL_VARS_FIN(static_gc);
 }
 
+#if SCM_VERIF_HOOKS
+/* Force a collection before every scm_verif_gc_interval-th allocation on
+ * average: exactly periodic if scm_verif_gc_seed is 0, otherwise
+ * pseudo-random. No forced collections if the interval is 0. */
+SCM_EXPORT unsigned long scm_verif_gc_interval;
+SCM_EXPORT unsigned long scm_verif_gc_seed;
+SCM_EXPORT unsigned long scm_verif_n_allocs, scm_verif_n_gcs, scm_verif_n_forced;
+SCM_EXPORT unsigned long scm_verif_n_swept;
+
+SCM_EXPORT size_t
+scm_verif_n_heaps(void)
+{
+    return l_n_heaps;
+}
+
+SCM_EXPORT size_t
+scm_verif_collect(void)
+{
+    size_t n;
+
+    gc_mark();
+    n = gc_sweep();
+    scm_verif_n_forced++;
+
+    return n;
+}
+
+static void
+verif_before_alloc(void)
+{
+    static unsigned long cnt;
+
+    scm_verif_n_allocs++;
+    if (!scm_verif_gc_interval)
+        return;
+    if (scm_verif_gc_seed) {
+        scm_verif_gc_seed = scm_verif_gc_seed * 6364136223846793005UL + 1442695040888963407UL;
+        if ((scm_verif_gc_seed >> 33) % scm_verif_gc_interval)
+            return;
+    } else {
+        if (++cnt % scm_verif_gc_interval)
+            return;
+    }
+    scm_verif_collect();
+}
+#endif /* SCM_VERIF_HOOKS */
+
 SCM_EXPORT ScmObj
 scm_alloc_cell(void)
 {
@@ -218,8 +293,18 @@ scm_alloc_cell(void)
     l_allocating = scm_true;
 #endif
 
+#if SCM_VERIF_HOOKS
+    verif_before_alloc();
+#endif
     if (NULLP(l_freelist))
         gc_mark_and_sweep();
+#if SCM_VERIF_HOOKS
+#if SCM_USE_STORAGE_COMPACT
+    VERIF_UNPOISON_CELL(SCM_UNTAG_PTR(l_freelist));
+#else
+    VERIF_UNPOISON_CELL(l_freelist);
+#endif
+#endif
     SCM_ASSERT(SCM_FREECELLP(l_freelist));
 
     ret = l_freelist;
@@ -327,7 +412,7 @@ scm_gc_unprotect(ScmObj *var)
  * explicitly protected, the condition may vary according to build
  * configuration or future specification changes. So libsscm users should
  * explicitly protect such objects.  -- YamaKen 2007-01-26 */
-SCM_EXPORT scm_bool
+SCM_EXPORT VERIF_NO_ASAN scm_bool
 scm_gc_protectedp(ScmObj obj)
 {
     ScmObj **slot;
@@ -430,8 +515,10 @@ add_heap(void)
 
     /* link as address-increasing order */
     next = l_freelist;
-    for (cell = &heap[l_heap_size - 1]; cell >= &heap[0]; cell--)
+    for (cell = &heap[l_heap_size - 1]; cell >= &heap[0]; cell--) {
         next = SCM_CELL_RECLAIM_CELL(cell, next);
+        VERIF_POISON_CELL(cell);
+    }
     l_freelist = next;
 
     SCM_END_GC_SUBCONTEXT();
@@ -446,8 +533,10 @@ finalize_heap(void)
 
     for (i = 0; i < l_n_heaps; i++) {
         heap = l_heaps[i];
-        for (cell = &heap[0]; cell < &heap[l_heap_size]; cell++)
+        for (cell = &heap[0]; cell < &heap[l_heap_size]; cell++) {
+            VERIF_UNPOISON_CELL(cell);
             free_cell(cell);
+        }
         free(heap);
     }
     free(l_heaps);
@@ -475,7 +564,7 @@ gc_mark_and_sweep(void)
 
 
 #if SCM_USE_STORAGE_COMPACT
-static void
+static VERIF_NO_ASAN void
 mark_obj(ScmObj obj)
 {
 #if SCM_USE_VECTOR
@@ -542,7 +631,7 @@ mark_loop:
     }
 }
 #elif SCM_USE_STORAGE_FATTY
-static void
+static VERIF_NO_ASAN void
 mark_obj(ScmObj obj)
 {
 #if SCM_USE_VECTOR
@@ -626,7 +715,7 @@ finalize_protected_var(void)
 
 /* The core part of Conservative GC */
 
-static scm_bool
+static VERIF_NO_ASAN scm_bool
 within_heapp(ScmObj obj)
 {
     ScmCell *heap, *ptr;
@@ -686,7 +775,7 @@ gc_mark_protected_var(void)
 }
 
 /* mark a contiguous region such as stack */
-static void
+static VERIF_NO_ASAN void
 gc_mark_locations_n(ScmObj *start, size_t n)
 {
     ScmObj *objp;
@@ -788,7 +877,7 @@ gc_mark_global_vars(void)
     SCM_END_GC_SUBCONTEXT();
 }
 
-static void
+static VERIF_NO_ASAN void
 free_cell(ScmCell *cell)
 {
 #if SCM_USE_STORAGE_COMPACT
@@ -884,7 +973,7 @@ free_cell(ScmCell *cell)
 #endif /* SCM_USE_STORAGE_COMPACT */
 }
 
-static size_t
+static VERIF_NO_ASAN size_t
 gc_sweep(void)
 {
     size_t i, sum_collected, n_collected;
@@ -911,6 +1000,7 @@ gc_sweep(void)
                  * freecells. So !SCM_CELL_FREECELLP(cell) is required. */
                 free_cell(cell);
                 new_freelist = SCM_CELL_RECLAIM_CELL(cell, new_freelist);
+                VERIF_POISON_CELL(cell);
                 n_collected++;
             }
         }
@@ -919,6 +1009,10 @@ gc_sweep(void)
         CDBG((SCM_DBG_GC, "heap[~ZU] swept = ~ZU", i, n_collected));
     }
     l_freelist = new_freelist;
+#if SCM_VERIF_HOOKS
+    scm_verif_n_gcs++;
+    scm_verif_n_swept += sum_collected;
+#endif
 
     SCM_END_GC_SUBCONTEXT();
 
-- 
2.43.0


From 04846556e1d5755b81beaddd670b83d8618ccb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 02/51] fix: keep the error message string alive while
 composing the error reason

---
 src/error.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error.c b/src/error.c
index 229561b..9d36a4f 100644
--- a/src/error.c
+++ b/src/error.c
@@ -354,6 +354,8 @@ scm_error_internal(const char *func_name, ScmObj obj,
                    const char *msg, va_list args)
 {
     ScmObj reason, err_obj;
+    /* keeps the object alive while its content is referred as C string */
+    volatile ScmObj reason_owner;
 
     if (l_error_looped)
         scm_fatal_error("bug: double error on preparing error object");
@@ -364,6 +366,7 @@ scm_error_internal(const char *func_name, ScmObj obj,
 #if (SCM_USE_FORMAT && SCM_USE_SRFI6)
     reason = scm_vformat(SCM_FALSE, SCM_FMT_INTERNAL, msg, args);
     if (func_name) {
+        reason_owner = reason;
         reason = scm_format(SCM_FALSE, SCM_FMT_RAW_C,
                             "in ~S: ~S~S",
                             func_name, SCM_STRING_STR(reason),
-- 
2.43.0


From d9b984d95e82f2a71f2a8a0c847660c4a5fbb6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:11 +0000
Subject: [PATCH 03/51] fix: copy the argument list given to apply

---
 src/eval.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index e437abb..5237c37 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -775,19 +775,26 @@ scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
     DECLARE_FUNCTION("apply", procedure_variadic_tailrec_2);
 
     if (NULLP(rest)) {
-        args = last = arg0;
+        args = SCM_NULL;
+        SCM_QUEUE_POINT_TO(q, args);
+        last = arg0;
     } else {
         /* More than one argument given. */
         args = LIST_1(arg0);
         q = REF_CDR(args);
         FOR_EACH_BUTLAST (arg, rest)
             SCM_QUEUE_ADD(q, arg);
-        /* The last one is spliced. */
-        SCM_QUEUE_SLOPPY_APPEND(q, arg);
         last = arg;
     }
 
-    ENSURE_LIST(last);
+    /* The last one is spliced. It must be copied since the list of actual
+     * arguments is held by the environment of the called closure, and is
+     * destructively modified by some procedures. The original list belongs to
+     * the caller. */
+    if (!PROPER_LISTP(last))
+        ERR_OBJ("proper list required but got", last);
+    FOR_EACH (arg, last)
+        SCM_QUEUE_ADD(q, arg);
 
     /* Since any tail recursive procedures called here return a tail expression
      * with SCM_VALTYPE_NEED_EVAL, evaluate such proc with call() does not
-- 
2.43.0


From 921a4711f7a511d6925e6d032eb4c5438d8634c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 04/51] fix: avoid signed overflow and traps in integer
 arithmetic

+, - and * relied on signed overflow, (lcm 0 0) and (modulo MIN -1) killed
the process by SIGFPE, and (quotient MIN -1), gcd and lcm silently returned
wrong numbers instead of the fixnum overflow error.
---
 src/number.c | 76 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/src/number.c b/src/number.c
index 722cd90..a05ee2f 100644
--- a/src/number.c
+++ b/src/number.c
@@ -83,11 +83,10 @@ scm_p_add(ScmObj left, ScmObj right, enum ScmReductionState *state)
     case SCM_REDUCE_1:
         ENSURE_INT(right);
         r = SCM_INT_VALUE(right);
-        result = l + r;
-        if (INT_OUT_OF_RANGEP(result)
-            || (r > 0 && result < l)
-            || (r < 0 && result > l))
+        if ((r > 0 && l > SCM_INT_MAX - r)
+            || (r < 0 && l < SCM_INT_MIN - r))
             ERR(ERRMSG_FIXNUM_OVERFLOW);
+        result = l + r;
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
@@ -98,6 +97,13 @@ scm_p_add(ScmObj left, ScmObj right, enum ScmReductionState *state)
     return MAKE_INT(result);
 }
 
+/* no overflow check, but avoids the undefined behavior of signed overflow */
+static scm_int_t
+wrapping_multiply(scm_int_t l, scm_int_t r)
+{
+    return (scm_int_t)((scm_uint_t)l * (scm_uint_t)r);
+}
+
 /* no overflow check */
 SCM_EXPORT ScmObj
 scm_p_multiply(ScmObj left, ScmObj right, enum ScmReductionState *state)
@@ -114,7 +120,7 @@ scm_p_multiply(ScmObj left, ScmObj right, enum ScmReductionState *state)
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result *= SCM_INT_VALUE(right);
+        result = wrapping_multiply(result, SCM_INT_VALUE(right));
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
@@ -141,11 +147,10 @@ scm_p_subtract(ScmObj left, ScmObj right, enum ScmReductionState *state)
     case SCM_REDUCE_1:
         ENSURE_INT(right);
         r = SCM_INT_VALUE(right);
-        result = l - r;
-        if (INT_OUT_OF_RANGEP(result)
-            || (r > 0 && result > l)
-            || (r < 0 && result < l))
+        if ((r < 0 && l > SCM_INT_MAX + r)
+            || (r > 0 && l < SCM_INT_MIN + r))
             ERR(ERRMSG_FIXNUM_OVERFLOW);
+        result = l - r;
         break;
 
     case SCM_REDUCE_0:
@@ -174,6 +179,8 @@ scm_p_divide(ScmObj left, ScmObj right, enum ScmReductionState *state)
         val = SCM_INT_VALUE(right);
         if (val == 0)
             ERR(ERRMSG_DIV_BY_ZERO);
+        if (result == SCM_INT_MIN && val == -1)
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
         result /= val;
         break;
 
@@ -367,6 +374,8 @@ scm_p_quotient(ScmObj _n1, ScmObj _n2)
     n2 = SCM_INT_VALUE(_n2);
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
+    if (n1 == SCM_INT_MIN && n2 == -1)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
 
     /*
      * ISO/IEC 9899:1999(E):
@@ -395,7 +404,8 @@ scm_p_modulo(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    rem = n1 % n2;
+    /* n1 % -1 may trap if n1 is the minimum number */
+    rem = (n2 == -1) ? 0 : n1 % n2;
     if (rem && ((n1 < 0 && 0 < n2) || (n2 < 0 && 0 < n1)))
         rem += n2;
 
@@ -416,7 +426,8 @@ scm_p_remainder(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    return MAKE_INT(n1 % n2);
+    /* n1 % -1 may trap if n1 is the minimum number */
+    return MAKE_INT((n2 == -1) ? 0 : n1 % n2);
 }
 
 SCM_EXPORT ScmObj
@@ -438,27 +449,29 @@ scm_p_expt(ScmObj _base, ScmObj _expo)
     result = 1;
     while (expo > 0) {
         if (expo % 2 == 1)
-            result *= base;
-        base *= base;
+            result = wrapping_multiply(result, base);
+        base = wrapping_multiply(base, base);
         expo /= 2;
     }
     return MAKE_INT(result);
 }
 
-static scm_int_t gcd(scm_int_t x, scm_int_t y)
+/* returns negated (i.e. zero or negative) gcd since the absolute value of
+ * SCM_INT_MIN cannot be represented */
+static scm_int_t negative_gcd(scm_int_t x, scm_int_t y)
 {
     /* Note: we do not check the sign of x and y, because
        this does not affect the computation, except maybe
-       for the sign of the result. So we do compute the
-       absolute value in the end. This is one single
-       computation of abs, instead of two. */
+       for the sign of the result. So we do normalize the
+       sign in the end. This is one single computation,
+       instead of two. */
     scm_int_t tmp;
     while (x != 0) {
         tmp = x;
-        x = y % x;
+        x = (x == -1) ? 0 : y % x; /* y % -1 may trap */
         y = tmp;
     }
-    return (y >= 0) ? y : -y;
+    return (y <= 0) ? y : -y;
 }
 
 SCM_EXPORT
@@ -476,7 +489,10 @@ ScmObj scm_p_gcd(ScmObj left, ScmObj right, enum ScmReductionState *state)
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result = gcd(result, SCM_INT_VALUE(right));
+        result = negative_gcd(result, SCM_INT_VALUE(right));
+        if (result < -SCM_INT_MAX)
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
+        result = -result;
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
@@ -489,7 +505,7 @@ ScmObj scm_p_gcd(ScmObj left, ScmObj right, enum ScmReductionState *state)
 SCM_EXPORT ScmObj
 scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
 {
-    scm_int_t result;
+    scm_int_t result, r, g;
     DECLARE_FUNCTION("lcm", reduction_operator);
 
     result = 1;
@@ -501,7 +517,23 @@ scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
+        r = SCM_INT_VALUE(right);
+        g = negative_gcd(result, r);
+        if (g) {
+            if (r == SCM_INT_MIN && g == -1)
+                ERR(ERRMSG_FIXNUM_OVERFLOW);
+            r /= g;
+            /* compute in negative numbers to accept -SCM_INT_MAX */
+            if (result > 0)
+                result = -result;
+            if (r < 0)
+                r = -r;
+            if (r && result < -SCM_INT_MAX / r)
+                ERR(ERRMSG_FIXNUM_OVERFLOW);
+            result = -(result * r);
+        } else {
+            result = 0; /* both args are 0 */
+        }
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
-- 
2.43.0


From 70383e762f504a88f5c059eb20db842c8c0c3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 05/51] fix: do not truncate multibyte characters following ~
 in format

---
 src/format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.c b/src/format.c
index 2b069ef..d8e48db 100644
--- a/src/format.c
+++ b/src/format.c
@@ -472,7 +472,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
                  format_string_t *fmt, struct scm_format_args args)
 {
     const void *orig_pos;
-    char directive;
+    scm_ichar_t directive;
     scm_bool eolp;
 #if SCM_USE_SRFI48
     ScmObj obj, indirect_fmt, indirect_args, proc_pretty_print;
@@ -546,7 +546,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 #endif /* SCM_USE_SRFI48 */
 
     if (prefixedp)
-        ERR("invalid prefix for directive ~~~C", (scm_ichar_t)directive);
+        ERR("invalid prefix for directive ~~~C", directive);
 
     if (fcap & SCM_FMT_SRFI28) {
         switch (directive) {
@@ -643,7 +643,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 
     /* Although SRFI-48 does not specified about unknown directives, the
      * reference implementation treats it as error. */
-    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", (scm_ichar_t)directive);
+    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", directive);
 
  fin:
     FORMAT_STR_SKIP_CHAR(*fmt);
-- 
2.43.0


From 9455128523809e07c9ded2f0cb0e2eac584c692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 06/51] fix: reject radixes that only look valid after int
 truncation

Also avoid the undefined negation of the minimum number on printing it.
---
 src/number-io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number-io.c b/src/number-io.c
index b314eb2..92d1926 100644
--- a/src/number-io.c
+++ b/src/number-io.c
@@ -78,7 +78,7 @@ static int
 prepare_radix(const char *funcname, ScmObj args)
 {
     ScmObj radix;
-    int r;
+    scm_int_t r;
     DECLARE_INTERNAL_FUNCTION("(internal)");
 
     ASSERT_PROPER_ARG_LIST(args);
@@ -97,7 +97,7 @@ prepare_radix(const char *funcname, ScmObj args)
             ERR_OBJ("invalid radix", radix);
     }
 
-    return r;
+    return (int)r;
 }
 
 SCM_EXPORT char *
@@ -112,7 +112,7 @@ scm_int2string(ScmValueFormat vfmt, uintmax_t n, int radix)
 
     SCM_ASSERT(VALID_RADIXP(radix));
     neg = (vfmt.signedp && ((intmax_t)n < 0));
-    un = (neg) ? (uintmax_t)-(intmax_t)n : n;
+    un = (neg) ? (uintmax_t)0 - n : n;
 
     end = p = &buf[sizeof(buf) - 1];
     *end = '\0';
-- 
2.43.0


From af8948c73ef5672640edaea6865a0d8afa52ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 07/51] fix: do not leave the dangling write/ss context after
 an error

A nonlocal exit from write/ss left l_write_ss_ctx pointing to the dead
stack frame, and subsequent writes read freed memory through it.
---
 src/write.c | 58 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/write.c b/src/write.c
index f34c9a1..a9cfb35 100644
--- a/src/write.c
+++ b/src/write.c
@@ -153,6 +153,7 @@ static scm_hash_entry *hash_lookup(scm_hash_table *tab,
 static void write_ss_scan(ScmObj obj, scm_write_ss_context *ctx);
 static scm_intobj_t get_shared_index(ScmObj obj);
 static void write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype);
+static void write_ss_discard_context(void);
 #endif /* SCM_USE_SRFI38 */
 
 /*=======================================
@@ -177,12 +178,18 @@ scm_init_writer(void)
 SCM_EXPORT void
 scm_write(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    write_ss_discard_context();
+#endif
     write_internal(port, obj, AS_WRITE);
 }
 
 SCM_EXPORT void
 scm_display(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    write_ss_discard_context();
+#endif
     write_internal(port, obj, AS_DISPLAY);
 }
 
@@ -249,7 +256,7 @@ write_obj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_puts(port, (SCM_SYNTAXP(obj)) ? "#<syntax " : "#<subr ");
         sym = scm_symbol_bound_to(obj);
         if (TRUEP(sym))
-            scm_display(port, sym);
+            write_obj(port, sym, AS_DISPLAY);
         else
             scm_format(port, SCM_FMT_RAW_C, "~P", (void *)obj);
         scm_port_put_char(port, '>');
@@ -587,11 +594,11 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     switch (otype) {
     case AS_WRITE:
         scm_port_puts(port, "#<error ");
-        scm_write(port, reason);
+        write_obj(port, reason, AS_WRITE);
         break;
 
     case AS_DISPLAY:
-        scm_display(port, reason);
+        write_obj(port, reason, AS_DISPLAY);
         break;
 
     default:
@@ -600,7 +607,7 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 
     FOR_EACH (elm, objs) {
         scm_port_put_char(port, ' ');
-        scm_write(port, elm);
+        write_obj(port, elm, AS_WRITE);
     }
 
     if (otype == AS_WRITE)
@@ -615,7 +622,7 @@ write_farsymbol(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     scm_port_puts(port, "#<farsym");
     for (; SCM_FARSYMBOLP(obj); obj = SCM_FARSYMBOL_SYM(obj))
         scm_format(port, SCM_FMT_RAW_C, " ~MD ", SCM_FARSYMBOL_ENV(obj));
-    scm_display(port, obj); /* Name. */
+    write_obj(port, obj, AS_DISPLAY); /* Name. */
     scm_port_puts(port, ">");
 }
 #endif /* SCM_USE_HYGIENIC_MACRO */
@@ -796,28 +803,47 @@ get_shared_index(ScmObj obj)
     return 0;
 }
 
+/* Discards the context left by a write_ss_internal() that has been aborted by
+ * an error. The nonlocal exit skips the cleanup in the function. */
+static void
+write_ss_discard_context(void)
+{
+    scm_write_ss_context *ctx;
+
+    ctx = l_write_ss_ctx;
+    if (ctx) {
+        l_write_ss_ctx = NULL;
+        free(ctx->seen.ents);
+        free(ctx);
+    }
+}
+
 static void
 write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 {
-    scm_write_ss_context ctx = {{0}};
+    scm_write_ss_context *ctx;
     size_t i;
 
-    ctx.next_index = 1;
-    ctx.seen.size = 1 << 8; /* arbitrary initial size */
-    ctx.seen.ents = scm_malloc(ctx.seen.size * sizeof(scm_hash_entry));
-    for (i = 0; i < ctx.seen.size; i++)
-        ctx.seen.ents[i].key = SCM_INVALID;
+    write_ss_discard_context();
+
+    ctx = scm_malloc(sizeof(scm_write_ss_context));
+    ctx->next_index = 1;
+    ctx->seen.size = 1 << 8; /* arbitrary initial size */
+    ctx->seen.used = 0;
+    ctx->seen.ents = scm_malloc(ctx->seen.size * sizeof(scm_hash_entry));
+    for (i = 0; i < ctx->seen.size; i++)
+        ctx->seen.ents[i].key = SCM_INVALID;
 
-    write_ss_scan(obj, &ctx);
+    write_ss_scan(obj, ctx);
 
+    l_write_ss_ctx = ctx;
     /* If no structure is shared, we do a normal write. */
-    if (!HASH_EMPTY(ctx.seen))
-        l_write_ss_ctx = &ctx;
+    if (HASH_EMPTY(ctx->seen))
+        write_ss_discard_context();
 
     write_internal(port, obj, otype);
 
-    l_write_ss_ctx = NULL;
-    free(ctx.seen.ents);
+    write_ss_discard_context();
 }
 
 /* write with shared structure */
-- 
2.43.0


From 041e5becc929ad22dd558fac03d7670dcaa2e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 08/51] fix: let string input ports own a copy of the string

The port kept pointing to the buffer of the string, which string-set! and
string-fill! free.
---
 src/module-srfi6.c | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/module-srfi6.c b/src/module-srfi6.c
index cf1cb8b..1ddd002 100644
--- a/src/module-srfi6.c
+++ b/src/module-srfi6.c
@@ -61,8 +61,6 @@
 /*=======================================
   File Local Function Declarations
 =======================================*/
-static void srfi6_istrport_finalize(char **str, scm_bool ownership,
-                                    void **opaque);
 
 /*=======================================
   Function Definitions
@@ -75,28 +73,18 @@ scm_initialize_srfi6(void)
     scm_register_funcs(scm_functable_srfi6);
 }
 
-static void
-srfi6_istrport_finalize(char **str, scm_bool ownership, void **opaque)
-{
-    SCM_ASSERT(!ownership);
-
-    scm_gc_unprotect((ScmObj *)opaque);
-}
-
 SCM_EXPORT ScmObj
 scm_p_srfi6_open_input_string(ScmObj str)
 {
-    ScmObj *hold_str;
     ScmBytePort *bport;
     ScmCharPort *cport;
     DECLARE_FUNCTION("open-input-string", procedure_fixed_1);
 
     ENSURE_STRING(str);
 
-    bport = ScmInputStrPort_new_const(SCM_STRING_STR(str),
-                                      srfi6_istrport_finalize);
-    hold_str = (ScmObj *)ScmInputStrPort_ref_opaque(bport);
-    scm_gc_protect_with_init(hold_str, str);
+    /* The buffer of the string may be replaced by string-set! and so on while
+     * the port is alive. */
+    bport = ScmInputStrPort_new_copying(SCM_STRING_STR(str), NULL);
     cport = scm_make_char_port(bport);
     return MAKE_PORT(cport, SCM_PORTFLAG_INPUT);
 }
-- 
2.43.0


From f942480c0d3c4f8047232cda59bdf7a3f76078f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 09/51] fix: reject invalid character literals and null in
 string literals

#\<EOF> produced an invalid character, the first character of #\<nonASCII>x..
was truncated to a byte, and \x0; passed the null character check. Also
release the string buffer on errors.
---
 src/read.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/read.c b/src/read.c
index 4548494..1c70abe 100644
--- a/src/read.c
+++ b/src/read.c
@@ -775,6 +775,8 @@ read_char(ScmObj port)
 
     /* raw char (multibyte-ready) */
     c = scm_port_get_char(port);
+    if (c == SCM_ICHAR_EOF)
+        ERR("EOF in character literal");
     next = scm_port_peek_char(port);
     if (ICHAR_ASCII_CLASS(next) & SCM_CH_DELIMITER || next == SCM_ICHAR_EOF) {
 #if !SCM_USE_R6RS_CHARS
@@ -784,6 +786,10 @@ read_char(ScmObj port)
         return MAKE_CHAR(c);
     }
 
+    /* neither character names nor hex scalar values begin with non-ASCII char */
+    if (!ICHAR_ASCIIP(c))
+        ERR("invalid character literal");
+
     buf[0] = c;
     len = read_token(port, &err, &buf[1], sizeof(buf) - 1, SCM_CH_DELIMITER);
     if (err == TOKEN_BUF_EXCEEDED)
@@ -859,12 +865,15 @@ read_string(ScmObj port)
                             offset + SCM_MB_CHAR_BUF_SIZE);
                 p = &LBUF_BUF(lbuf)[offset];
                 p = SCM_CHARCODEC_INT2STR(codec, p, c, SCM_MB_STATELESS);
-                if (!p)
+                if (!p) {
+                    LBUF_FREE(lbuf);
                     ERR("invalid inline hex escape in string: 0x~MX",
                         (scm_int_t)c);
-                c = scm_port_get_char(port);
-                if (c != ';')
+                }
+                if (scm_port_get_char(port) != ';') {
+                    LBUF_FREE(lbuf);
                     ERR("inline hex escape must be followed by ';'");
+                }
                 goto found;
             } else
 #endif
@@ -879,6 +888,7 @@ read_string(ScmObj port)
                     }
                 }
             }
+            LBUF_FREE(lbuf);
             ERR("invalid escape sequence in string: \\~C", c);
         found:
             break;
@@ -890,16 +900,20 @@ read_string(ScmObj port)
 #if SCM_USE_R6RS_CHARS
             /* FIXME: support stateful encoding */
             p = SCM_CHARCODEC_INT2STR(codec, p, c, SCM_MB_STATELESS);
-            if (!p)
+            if (!p) {
+                LBUF_FREE(lbuf);
                 ERR("invalid char in string: 0x~MX", (scm_int_t)c);
+            }
 #else
             *p++ = c;
 #endif
             break;
         }
 #if !SCM_USE_NULL_CAPABLE_STRING
-        if (c == '\0')
+        if (c == '\0') {
+            LBUF_FREE(lbuf);
             ERR(SCM_ERRMSG_NULL_IN_STRING);
+        }
 #endif
     }
 #if 0
-- 
2.43.0


From efbe4f39a92091614c43eabb44e998c78fe9a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 10/51] fix: make multibyte ports survive broken characters and
 null bytes

A port kept the broken bytes in its buffer and raised the error forever,
and a peeked null character was lost on reading it.
---
 src/scmport-mbchar.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/scmport-mbchar.c b/src/scmport-mbchar.c
index 2bbca59..b81d4ee 100644
--- a/src/scmport-mbchar.c
+++ b/src/scmport-mbchar.c
@@ -74,6 +74,7 @@ struct ScmMultiByteCharPort_ {  /* inherits ScmBaseCharPort */
     ScmCharCodec *codec;
     ScmMultibyteState rstate, wstate;
     scm_byte_t rbuf[SCM_MB_CHAR_BUF_SIZE];
+    size_t rbuf_len;     /* rbuf may contain a null character */
 };
 
 /*=======================================
@@ -136,7 +137,7 @@ ScmMultiByteCharPort_construct(ScmMultiByteCharPort *port,
     ScmBaseCharPort_construct((ScmBaseCharPort *)port, vptr, bport);
 
     port->codec = codec;
-    port->rbuf[0] = '\0';
+    port->rbuf_len = 0;
     SCM_MBCPORT_CLEAR_STATE(port);
 }
 
@@ -161,8 +162,8 @@ ScmMultiByteCharPort_set_codec(ScmCharPort *cport, ScmCharCodec *codec)
     mbcport->codec = codec;
     SCM_MBCPORT_CLEAR_STATE(mbcport);
     /* only one byte can be preserved for new codec. otherwise cleared */
-    if (1 < strlen((char *)mbcport->rbuf))
-        mbcport->rbuf[0] = '\0';
+    if (1 < mbcport->rbuf_len)
+        mbcport->rbuf_len = 0;
 }
 
 static ScmCharPort *
@@ -197,7 +198,7 @@ mbcport_get_char(ScmMultiByteCharPort *port)
 #endif
 
     ch = mbcport_peek_char(port);
-    port->rbuf[0] = '\0';
+    port->rbuf_len = 0;
 #if SCM_USE_STATEFUL_ENCODING
     SCM_MBCPORT_SET_STATE(port, next_state)
 #endif
@@ -254,38 +255,40 @@ mbcport_put_char(ScmMultiByteCharPort *port, scm_ichar_t ch)
 static ScmMultibyteCharInfo
 mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
 {
-    scm_byte_t *end;
     scm_ichar_t byte;
     ScmMultibyteString mbs;
     ScmMultibyteCharInfo mbc;
 
-    end = (scm_byte_t *)strchr((char *)port->rbuf, '\0');
     SCM_MBS_SET_STATE(mbs, port->rstate);
     do {
         SCM_MBS_SET_STR(mbs, (char *)port->rbuf);
-        SCM_MBS_SET_SIZE(mbs, end - port->rbuf);
+        SCM_MBS_SET_SIZE(mbs, port->rbuf_len);
 
         mbc = SCM_CHARCODEC_SCAN_CHAR(port->codec, mbs);
         SCM_MBCINFO_SET_STATE(mbc, SCM_MBS_GET_STATE(mbs));
 
-        if (SCM_MBCINFO_ERRORP(mbc))
+        if (SCM_MBCINFO_ERRORP(mbc)) {
+            /* discard the bytes to make the port readable again */
+            port->rbuf_len = 0;
             SCM_CHARPORT_ERROR(port, "ScmMultibyteCharPort: broken character");
+        }
         if (!SCM_MBCINFO_INCOMPLETEP(mbc) && SCM_MBCINFO_GET_SIZE(mbc))
             break;
-        if (SCM_MBS_GET_SIZE(mbs) == SCM_MB_MAX_LEN)
+        if (SCM_MBS_GET_SIZE(mbs) == SCM_MB_MAX_LEN) {
+            port->rbuf_len = 0;
             SCM_CHARPORT_ERROR(port, "ScmMultibyteCharPort: broken scanner");
+        }
 
         byte = SCM_BYTEPORT_GET_BYTE(port->bport);
         if (byte == SCM_ICHAR_EOF) {
             SCM_MBCINFO_INIT(mbc);
-            port->rbuf[0] = '\0';
+            port->rbuf_len = 0;
 #if HANDLE_MBC_START
             mbc->start = (char *)port->rbuf;
 #endif
             break;
         }
-        *end++ = byte;
-        *end = '\0';
+        port->rbuf[port->rbuf_len++] = byte;
     } while (blockp || SCM_BYTEPORT_BYTE_READYP(port->bport));
 
     return mbc;
-- 
2.43.0


From f804b0743608adf9fcee506d5de1c4c518901297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 11/51] fix: keep null and unencodable characters out of
 strings

list->string compared the object rather than its character with null and
crashed on a character that the current codec cannot encode. string-set!
and string-fill! had no check for null, which made the string length
inconsistent with its contents.
---
 src/string-procedure.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index e33b9a1..7a67d27 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -213,6 +213,10 @@ scm_p_string_setx(ScmObj str, ScmObj k, ScmObj ch)
     c_str = SCM_STRING_STR(str);
     if (idx < 0 || SCM_STRING_LEN(str) <= idx)
         ERR_OBJ("index out of range", k);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
 #if SCM_USE_MULTIBYTE_CHAR
     /* point at the char that to be replaced */
@@ -500,6 +504,7 @@ scm_p_list2string(ScmObj lst)
     char *str, *dst;
 #if SCM_USE_MULTIBYTE_CHAR
     scm_ichar_t ch_val;
+    char ch_buf[SCM_MB_CHAR_BUF_SIZE];
 #endif
     DECLARE_FUNCTION("list->string", procedure_fixed_1);
 
@@ -522,8 +527,17 @@ scm_p_list2string(ScmObj lst)
     len = 0;
     FOR_EACH (ch, rest) {
         ENSURE_CHAR(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+        if (SCM_CHAR_VALUE(ch) == '\0')
+            ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 #if SCM_USE_MULTIBYTE_CHAR
         ch_val = SCM_CHAR_VALUE(ch);
+        if (!SCM_CHARCODEC_INT2STR(scm_current_char_codec, ch_buf, ch_val,
+                                   SCM_MB_STATELESS))
+            ERR("invalid char 0x~MX for encoding ~S",
+                (scm_int_t)ch_val,
+                SCM_CHARCODEC_ENCODING(scm_current_char_codec));
         str_size += SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, ch_val);
 #else
         str_size++;
@@ -534,10 +548,6 @@ scm_p_list2string(ScmObj lst)
 
     dst = str = scm_malloc(str_size);
     FOR_EACH (ch, lst) {
-#if !SCM_USE_NULL_CAPABLE_STRING
-        if (ch == '\0')
-            ERR(SCM_ERRMSG_NULL_IN_STRING);
-#endif
 #if SCM_USE_MULTIBYTE_CHAR
         dst = SCM_CHARCODEC_INT2STR(scm_current_char_codec, dst,
                                     SCM_CHAR_VALUE(ch), SCM_MB_STATELESS);
@@ -574,6 +584,10 @@ scm_p_string_fillx(ScmObj str, ScmObj ch)
     ENSURE_STRING(str);
     ENSURE_MUTABLE_STRING(str);
     ENSURE_CHAR(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
     str_len = SCM_STRING_LEN(str);
     if (str_len == 0)
-- 
2.43.0


From d63e857d23a2463a0cef1b7194fa3a3b2f5587c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 12/51] fix: reject lengths that overflow the buffer size

make-vector and make-string allocated a too small buffer and overran it.
---
 src/string-procedure.c | 2 ++
 src/vector.c           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index 7a67d27..055c374 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -131,6 +131,8 @@ scm_p_make_string(ScmObj length, ScmObj args)
             (scm_int_t)filler_val,
             SCM_CHARCODEC_ENCODING(scm_current_char_codec));
 
+    if (SCM_INT_MAX / SCM_MB_MAX_LEN <= len)
+        ERR_OBJ("too long string", length);
     str = scm_malloc(ch_len * len + sizeof(""));
     for (dst = str; dst < &str[ch_len * len]; dst += ch_len)
         memcpy(dst, ch_buf, ch_len);
diff --git a/src/vector.c b/src/vector.c
index f8a75cd..342fc9b 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -82,6 +82,8 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     len = SCM_INT_VALUE(scm_len);
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", scm_len);
+    if ((size_t)-1 / sizeof(ScmObj) < (size_t)len)
+        ERR_OBJ("too long vector", scm_len);
 
     vec = scm_malloc(sizeof(ScmObj) * len);
     if (NULLP(args)) {
-- 
2.43.0


From 9d427b99f0c0863808a561842925e4a04c10cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 13/51] fix: reject negative and too large values in
 integer->char

They were accepted under the non-Unicode codecs after truncation.
---
 src/char.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/char.c b/src/char.c
index 89cf5ad..d6b023b 100644
--- a/src/char.c
+++ b/src/char.c
@@ -277,6 +277,7 @@ scm_p_integer2char(ScmObj n)
 #if SCM_USE_MULTIBYTE_CHAR
     if ((SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
          && !ICHAR_VALID_UNICODEP(val))
+        || val < 0 || val != (scm_ichar_t)val
         || (!SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, val)
             && val != 0))  /* NUL is a valid char */
 #else
-- 
2.43.0


From 3ed8210d6da6c198aea5e1f3e079fd0a4996255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 14/51] fix: validate UTF-8 and Shift_JIS sequences correctly

0x7E is a valid trailing byte of Shift_JIS but 0x7F is not, unencodable
characters were written as the low byte, and overlong, surrogate and out
of range UTF-8 sequences were accepted.
---
 src/encoding.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/encoding.c b/src/encoding.c
index d797963..c16691f 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -812,6 +812,15 @@ utf8_scan_char(ScmMultibyteString mbs)
                 RETURN_INCOMPLETE(size);
             if (!IS_TRAILING(str[i]))
                 RETURN_ERROR();
+            /* reject overlong forms, surrogates and out of the range */
+            if (i == 1
+                && ((len == 2 && str[0] < 0xC2)
+                    || (len == 3 && str[0] == 0xE0 && str[1] < 0xA0)
+                    || (len == 3 && str[0] == 0xED && 0xA0 <= str[1])
+                    || (len == 4 && str[0] == 0xF0 && str[1] < 0x90)
+                    || (len == 4 && str[0] == 0xF4 && 0x90 <= str[1])
+                    || (len == 4 && 0xF4 < str[0])))
+                RETURN_ERROR();
         }
     }
 #else  /* not SCM_STRICT_ENCODING_CHECK */
@@ -918,7 +927,7 @@ utf8_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
     && !IS_KANA(c)        \
     && (uchar)(c) <= 0xFC \
     && (uchar)(c) != 0xA0)
-#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7E)
+#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7F)
 
 static const char *
 sjis_encoding(void)
@@ -980,11 +989,16 @@ sjis_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
 
     if (IS_LEAD(high)) {
 #if SCM_STRICT_ENCODING_CHECK
-        if (!IS_TRAIL(high))
+        if (!IS_TRAIL(low))
             return NULL;
 #endif
         *dst++ = high;
     }
+#if SCM_STRICT_ENCODING_CHECK
+    else if (high || IS_LEAD(low)) {
+        return NULL;
+    }
+#endif
     *dst++ = low;
     *dst = '\0';
 
-- 
2.43.0


From 2376f279708a5104617d8fda54948b3e691d9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 15/51] fix: make hash of SRFI-69 obey the bound for all types

---
 lib/srfi-69.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/srfi-69.scm b/lib/srfi-69.scm
index cb0d922..f4704cd 100644
--- a/lib/srfi-69.scm
+++ b/lib/srfi-69.scm
@@ -96,7 +96,7 @@
 	  ((null? obj) 0)
 	  ((not obj) 0)
 	  ((procedure? obj) (error "hash: procedures cannot be hashed" obj))
-	  (else 1))))
+	  (else (modulo 1 bound)))))
 
 (define hash-by-identity hash)
 
-- 
2.43.0


From b515a5783454e28dc47f949bb0ec51842ea35e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 16/51] fix: forget the library path on finalization

The dangling path was used and freed again in the next initialize-finalize
cycle.
---
 src/load.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/load.c b/src/load.c
index 7cd6c65..b2204a3 100644
--- a/src/load.c
+++ b/src/load.c
@@ -109,6 +109,7 @@ scm_fin_load(void)
     free(l_scm_lib_path);
     free(l_scm_system_load_path);
 
+    l_scm_lib_path = NULL;
     l_scm_system_load_path = NULL;
 
     SCM_GLOBAL_VARS_FIN(static_load);
-- 
2.43.0


From 72071dfdad809297a3ab2d55b5750791e896c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 17/51] fix: make load-path work when the library path is not
 set

---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index b2204a3..ad14acb 100644
--- a/src/load.c
+++ b/src/load.c
@@ -150,7 +150,7 @@ scm_p_load_path(void)
 {
     DECLARE_FUNCTION("load-path", procedure_fixed_0);
 
-    return CONST_STRING(l_scm_lib_path);
+    return CONST_STRING((l_scm_lib_path) ? l_scm_lib_path : "");
 }
 
 SCM_EXPORT void
-- 
2.43.0


From 2a6858cc5f42a4b602ba09c7a535b22ecc0d6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 18/51] fix: terminate hex escapes in written strings

---
 src/port.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/port.c b/src/port.c
index a8464c6..e86e295 100644
--- a/src/port.c
+++ b/src/port.c
@@ -82,7 +82,7 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     /* control characters */
     {'\n',   "\\n",   "newline"},    /*  10, R5RS */
 #if SCM_USE_R6RS_NAMED_CHARS
-    {'\0',   "\\x00", "nul"},        /*   0 */
+    {'\0',   "\\x00;", "nul"},        /*   0 */
     {'\a',   "\\a",   "alarm"},      /*   7 */
     {'\b',   "\\b",   "backspace"},  /*   8 */
     {'\t',   "\\t",   "tab"},        /*   9 */
@@ -90,8 +90,8 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     {'\v',   "\\v",   "vtab"},       /*  11 */
     {'\f',   "\\f",   "page"},       /*  12 */
     {'\r',   "\\r",   "return"},     /*  13 */
-    {0x1b,   "\\x1b", "esc"},        /*  27 */
-    {0x7f,   "\\x7f", "delete"},     /* 127 */
+    {0x1b,   "\\x1b;", "esc"},        /*  27 */
+    {0x7f,   "\\x7f;", "delete"},     /* 127 */
 #endif /* SCM_USE_R6RS_NAMED_CHARS */
     {0, NULL, NULL}
 };
-- 
2.43.0


From 1b64caf4f44265af7a0e985ee2d5bf7f41dc094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 19/51] fix: let variables of named let shadow its name

---
 src/syntax.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index b66e756..74636e1 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -564,16 +564,16 @@ scm_s_let_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
     if (!NULLP(bindings))
         ERR_OBJ(ERRMSG_INVALID_BINDINGS, bindings);
 
-    env = scm_extend_environment(formals, actuals, env);
-
-    /* named let */
+    /* named let: The name is bound outside of the variables. */
     if (IDENTIFIERP(named_let_sym)) {
+        env = scm_extend_environment(LIST_1(named_let_sym), LIST_1(SCM_UNDEF),
+                                     env);
         proc = MAKE_CLOSURE(CONS(formals, body), env);
-        env = scm_add_environment(named_let_sym, proc, env);
+        env = scm_update_environment(LIST_1(proc), env);
         SCM_CLOSURE_SET_ENV(proc, env);
     }
 
-    eval_state->env = env;
+    eval_state->env = scm_extend_environment(formals, actuals, env);
     return scm_s_body(body, eval_state);
 }
 
-- 
2.43.0


From 858e706f98b532fa78d8bb3fea3ee483bfea4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 20/51] fix: keep local variables out of the reraise of guard

---
 src/module-srfi34.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index e773f70..47308cb 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -421,8 +421,9 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
             caught = EVAL(caught, cond_env);
         scm_call_continuation(guard_k, delay(caught, cond_env));
     } else {
+        /* user's local variables must not affect the reraise */
         reraise = enclose(LIST_2(l_sym_raise, LIST_2(SYM_QUOTE, condition)),
-                          cond_env);
+                          SCM_INTERACTION_ENV);
         scm_call_continuation(handler_k, reraise);
     }
     /* NOTREACHED */
-- 
2.43.0


From cf88c721e90f657dc25ac4acdffc75e6e3e937ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 21/51] fix: copy the list spliced by quasiquote when elements
 follow

---
 src/qquote.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qquote.c b/src/qquote.c
index c56c0b2..84f8377 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -293,6 +293,13 @@ scm_listran(sequence_translator *t, tr_msg msg, ScmObj obj)
         }
 
         if (msg != TRL_MSG_SET_SUBLS) {
+            if (msg == TR_MSG_SPLICE && !NULLP(CDR(t->u.lst.cur))) {
+                /* The rest of the template follows. Copy the list since it
+                 * belongs to user. */
+                if (!SCM_LISTLEN_PROPERP(scm_length(obj)))
+                    ERR_OBJ(ERRMSG_BAD_SPLICE_LIST, obj);
+                obj = scm_p_append(LIST_2(obj, SCM_NULL));
+            }
             SCM_QUEUE_APPEND(t->u.lst.q, obj);
 #if SCM_STRICT_ARGCHECK
             if (!NULLP(SCM_QUEUE_TERMINATOR(t->u.lst.q)))
-- 
2.43.0


From 169b268ab1262931219e914b65ffd9c0aed3f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 22/51] fix: reject a cond clause with an improper body instead
 of reading its atom as a pair

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index 74636e1..5d7efb0 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -341,7 +341,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
+            if (CONSP(exps) && EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
-- 
2.43.0


From d31565e3712756d5e2a2df9b79cd2e60d5665261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 23/51] fix: keep a local variable named quote out of the cond
 arrow call

---
 src/syntax.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index 5d7efb0..06b2582 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -355,7 +355,9 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
                  * evaluation of <expression2> is in a tail
                  * context. <expression2> itself is not in a tail context.
                  */
-                return LIST_2(proc, LIST_2(SYM_QUOTE, test));
+                /* user's local variable 'quote' must not affect the call */
+                return LIST_2(proc,
+                              LIST_2(SCM_SYMBOL_VCELL(SYM_QUOTE), test));
             }
 
             return scm_s_begin(exps, eval_state);
-- 
2.43.0


From 6d225e8b91c28d792ff8db2c379d7601ebedf41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 24/51] fix: restore the previous binding when define-macro
 rejects its transformer

---
 src/legacy-macro.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/legacy-macro.c b/src/legacy-macro.c
index 9608abf..549f554 100644
--- a/src/legacy-macro.c
+++ b/src/legacy-macro.c
@@ -81,9 +81,14 @@ scm_init_legacy_macro(void)
 SCM_EXPORT ScmObj
 scm_s_define_macro(ScmObj identifier, ScmObj rest, ScmEvalState *eval_state)
 {
-    ScmObj closure;
+    ScmObj closure, sym, prev;
     DECLARE_FUNCTION("define-macro", syntax_variadic_tailrec_1);
 
+    /* a rejected definition must not affect the previous binding */
+    sym = (CONSP(identifier)) ? CAR(identifier) : identifier;
+    prev = (IDENTIFIERP(sym))
+        ? SCM_SYMBOL_VCELL(SCM_UNWRAP_KEYWORD(sym)) : SCM_UNBOUND;
+
     scm_s_define(identifier, rest, eval_state);
 
     /*=======================================================================
@@ -113,8 +118,9 @@ scm_s_define_macro(ScmObj identifier, ScmObj rest, ScmEvalState *eval_state)
     identifier = SCM_UNWRAP_KEYWORD(identifier);
 
     closure = SCM_SYMBOL_VCELL(identifier);
-    if (!CLOSUREP(closure))
-        SCM_SYMBOL_SET_VCELL(identifier, SCM_UNBOUND);
+    if (!CLOSUREP(closure)
+        || !scm_toplevel_environmentp(SCM_CLOSURE_ENV(closure)))
+        SCM_SYMBOL_SET_VCELL(identifier, prev);
     ENSURE_CLOSURE(closure);
     if (!scm_toplevel_environmentp(SCM_CLOSURE_ENV(closure)))
         ERR("syntactic closure in SigScheme must have toplevel environment");
-- 
2.43.0


From 68c77df264e8d36eed6cd2df6a1b3fe0edb657c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 25/51] fix: reject a negative index in list-tail and list-ref
 instead of counting down from it

---
 src/list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list.c b/src/list.c
index 0e41173..372817b 100644
--- a/src/list.c
+++ b/src/list.c
@@ -365,6 +365,9 @@ scm_p_reverse(ScmObj lst)
 SCM_EXPORT ScmObj
 scm_list_tail(ScmObj lst, scm_int_t k)
 {
+    if (k < 0)
+        return SCM_INVALID;
+
     while (k--) {
         if (!CONSP(lst))
             return SCM_INVALID;
-- 
2.43.0


From 4da8915a33642a7ca5d0bb4e9320460f590985cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 26/51] fix: keep the elements of a vector under construction
 and the source of vector->list visible to GC

---
 src/qquote.c |  8 ++++++--
 src/vector.c | 44 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/qquote.c b/src/qquote.c
index 84f8377..43224f4 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -374,10 +374,15 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
             scm_int_t src_len, i, cpi;
 
             src_len = SCM_VECTOR_LEN(t->u.vec.src);
-            src_buf = SCM_VECTOR_VEC(t->u.vec.src);
             copy_buf = scm_malloc((src_len + t->u.vec.growth)
                                   * sizeof(ScmObj));
+            /* Make the vector object before moving the elements into the
+             * buffer, since GC does not see them there otherwise. */
+            for (i = 0; i < src_len + t->u.vec.growth; i++)
+                copy_buf[i] = SCM_NULL;
+            ret = MAKE_VECTOR(copy_buf, src_len + t->u.vec.growth);
 
+            src_buf = SCM_VECTOR_VEC(t->u.vec.src);
             diff = t->u.vec.diff;
             change_index = SCM_INT_VALUE(CAAR(diff));
             for (i = cpi = 0; i < src_len; i++) {
@@ -400,7 +405,6 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
                 else
                     change_index = SCM_INT_VALUE(CAAR(diff));
             }
-            ret = MAKE_VECTOR(copy_buf, src_len + t->u.vec.growth);
             RETURN_OBJECT(ret);
         }
         RETURN_OBJECT(t->u.vec.src);
diff --git a/src/vector.c b/src/vector.c
index 342fc9b..26aeeaa 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -55,10 +55,27 @@
 /*=======================================
   File Local Function Declarations
 =======================================*/
+static ScmObj make_null_vector(scm_int_t len);
 
 /*=======================================
   Function Definitions
 =======================================*/
+/* To protect the elements from GC, a vector object has to be made before its
+ * elements are moved into the vector buffer, which GC does not scan by itself
+ * in the stack. */
+static ScmObj
+make_null_vector(scm_int_t len)
+{
+    ScmObj *vec;
+    scm_int_t i;
+
+    vec = scm_malloc(sizeof(ScmObj) * len);
+    for (i = 0; i < len; i++)
+        vec[i] = SCM_NULL;
+
+    return MAKE_VECTOR(vec, len);
+}
+
 /*===========================================================================
   R5RS : 6.3 Other data types : 6.3.6 Vectors
 ===========================================================================*/
@@ -73,7 +90,7 @@ scm_p_vectorp(ScmObj obj)
 SCM_EXPORT ScmObj
 scm_p_make_vector(ScmObj scm_len, ScmObj args)
 {
-    ScmObj *vec, filler;
+    ScmObj ret, *vec, filler;
     scm_int_t len, i;
     DECLARE_FUNCTION("make-vector", procedure_variadic_1);
 
@@ -85,17 +102,19 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     if ((size_t)-1 / sizeof(ScmObj) < (size_t)len)
         ERR_OBJ("too long vector", scm_len);
 
-    vec = scm_malloc(sizeof(ScmObj) * len);
     if (NULLP(args)) {
         filler = SCM_UNDEF;
     } else {
         filler = POP(args);
         ASSERT_NO_MORE_ARG(args);
     }
+
+    ret = make_null_vector(len);
+    vec = SCM_VECTOR_VEC(ret);
     for (i = 0; i < len; i++)
         vec[i] = filler;
 
-    return MAKE_VECTOR(vec, len);
+    return ret;
 }
 
 SCM_EXPORT ScmObj
@@ -159,19 +178,23 @@ SCM_EXPORT ScmObj
 scm_p_vector2list(ScmObj vec)
 {
     ScmQueue q;
-    ScmObj ret, *v;
+    ScmObj ret;
     scm_int_t len, i;
+    /* The vector has to be visible to GC over the allocations below. */
+    volatile ScmObj kept_vec;
     DECLARE_FUNCTION("vector->list", procedure_fixed_1);
 
     ENSURE_VECTOR(vec);
+    kept_vec = vec;
 
-    v   = SCM_VECTOR_VEC(vec);
     len = SCM_VECTOR_LEN(vec);
 
     ret = SCM_NULL;
     SCM_QUEUE_POINT_TO(q, ret);
-    for (i = 0; i < len; i++)
-        SCM_QUEUE_ADD(q, v[i]);
+    for (i = 0; i < len; i++) {
+        vec = kept_vec;
+        SCM_QUEUE_ADD(q, SCM_VECTOR_VEC(vec)[i]);
+    }
 
     return ret;
 }
@@ -179,7 +202,7 @@ scm_p_vector2list(ScmObj vec)
 SCM_EXPORT ScmObj
 scm_p_list2vector(ScmObj lst)
 {
-    ScmObj *vec;
+    ScmObj ret, *vec;
     scm_int_t len, i;
     DECLARE_FUNCTION("list->vector", procedure_fixed_1);
 
@@ -187,11 +210,12 @@ scm_p_list2vector(ScmObj lst)
     if (!SCM_LISTLEN_PROPERP(len))
         ERR_OBJ("proper list required but got", lst);
 
-    vec = scm_malloc(sizeof(ScmObj) * len);
+    ret = make_null_vector(len);
+    vec = SCM_VECTOR_VEC(ret);
     for (i = 0; i < len; i++)
         vec[i] = POP(lst);
 
-    return MAKE_VECTOR(vec, len);
+    return ret;
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 48cb0928ced6453a870643067466abd2aa5bfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 27/51] fix: keep the string visible to GC over string->list

---
 src/string-procedure.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index 055c374..c8a07d6 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -460,9 +460,15 @@ scm_p_string2list(ScmObj str)
     scm_ichar_t ch;
     scm_int_t mb_len;
     const char *c_str;
+#if SCM_USE_MULTIBYTE_CHAR
+    size_t offset;
+#endif
+    /* The string has to be visible to GC over the allocations below. */
+    volatile ScmObj kept_str;
     DECLARE_FUNCTION("string->list", procedure_fixed_1);
 
     ENSURE_STRING(str);
+    kept_str = str;
 
     c_str = SCM_STRING_STR(str);
     mb_len = SCM_STRING_LEN(str);
@@ -471,7 +477,10 @@ scm_p_string2list(ScmObj str)
 #if SCM_USE_MULTIBYTE_CHAR
     SCM_QUEUE_POINT_TO(q, ret);
     SCM_MBS_INIT2(mbs, c_str, strlen(c_str));
+    offset = 0;
     while (mb_len--) {
+        str = kept_str;
+        SCM_MBS_SET_STR(mbs, &SCM_STRING_STR(str)[offset]);
         if (SCM_MBS_GET_SIZE(mbs)) {
             ch = SCM_CHARCODEC_READ_CHAR(scm_current_char_codec, mbs);
         } else {
@@ -485,11 +494,13 @@ scm_p_string2list(ScmObj str)
             break;
 #endif /* SCM_USE_NULL_CAPABLE_STRING */
         }
+        offset = SCM_MBS_GET_STR(mbs) - SCM_STRING_STR(str);
         SCM_QUEUE_ADD(q, MAKE_CHAR(ch));
     }
 #else /* SCM_USE_MULTIBYTE_CHAR */
     while (mb_len) {
-        ch = ((unsigned char *)c_str)[--mb_len];
+        str = kept_str;
+        ch = ((unsigned char *)SCM_STRING_STR(str))[--mb_len];
         ret = CONS(MAKE_CHAR(ch), ret);
     }
 #endif /* SCM_USE_MULTIBYTE_CHAR */
-- 
2.43.0


From 4a2b33f71911bcdf2b0767bc88c6a7ab94345592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:38 +0000
Subject: [PATCH 28/51] fix: read: report a stray control character or
 backslash as an error

It ran into an assertion and aborted the interpreter.
---
 src/read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/read.c b/src/read.c
index 1c70abe..a2c110c 100644
--- a/src/read.c
+++ b/src/read.c
@@ -533,7 +533,6 @@ read_sexpression(ScmObj port)
             return read_number_or_peculiar(port);
 
         /* case labels are ordered by appearance rate and penalty cost */
-        SCM_ASSERT(ch_class == SCM_CH_TOKEN_INITIAL || c == SCM_ICHAR_EOF);
         SCM_ASSERT(c != ';');
         DISCARD_LOOKAHEAD(port);
         switch (c) {
@@ -616,7 +615,9 @@ read_sexpression(ScmObj port)
             /* NOTREACHED */
 
         default:
-            SCM_NOTREACHED;
+            /* control characters and backslash */
+            ERR("invalid character: 0x~MX", (scm_int_t)c);
+            /* NOTREACHED */
         }
     }
 }
-- 
2.43.0


From b6aef3a9fbb549e32a6f410c12abb0577e941a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 29/51] fix: read: reject a dot token that is too long inside a
 list

A token such as .... was cut after three dots: (a .... b) was read as
(a ... . b).
---
 src/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read.c b/src/read.c
index a2c110c..b7c3c03 100644
--- a/src/read.c
+++ b/src/read.c
@@ -673,6 +673,8 @@ read_list(ScmObj port, scm_ichar_t closing_paren)
              * '...' and numbers in R5RS (See "7.1.1 Lexical structure"), the
              * fixed size buffer can safely buffer them. */
             read_token(port, &err, dot_buf, sizeof(dot_buf), SCM_CH_DELIMITER);
+            if (err == TOKEN_BUF_EXCEEDED)
+                ERR("bad dot syntax");
 
             if (dot_buf[1] == '\0') {
 #if !SCM_STRICT_R5RS
-- 
2.43.0


From 3d17fff41c9ebf97a6bf5fd053f2ff49b553e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:33 +0000
Subject: [PATCH 30/51] fix: do not free a port twice nor raise from the GC
 when closing its file fails

---
 src/port.c             |  7 ++++++-
 src/scmport-basechar.c |  5 ++++-
 src/scmport-config.h   |  4 ++++
 src/scmport-file.c     |  2 +-
 src/sigscheme.h        |  1 +
 src/storage-gc.c       | 17 ++++++++++++++++-
 6 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/port.c b/src/port.c
index e86e295..9307f62 100644
--- a/src/port.c
+++ b/src/port.c
@@ -187,11 +187,16 @@ scm_port_newline(ScmObj port)
 SCM_EXPORT void
 scm_port_close(ScmObj port)
 {
+    ScmCharPort *cport;
+
     SCM_ASSERT(SCM_PORTP(port));
     SCM_ASSERT(SCM_PORT_IMPL(port));
 
-    SCM_CHARPORT_CLOSE(SCM_PORT_IMPL(port));
+    /* The implementation is detached first since closing it may raise an
+     * error. */
+    cport = SCM_PORT_IMPL(port);
     SCM_PORT_SET_IMPL(port, NULL);
+    SCM_CHARPORT_CLOSE(cport);
 }
 
 SCM_EXPORT ScmCharCodec *
diff --git a/src/scmport-basechar.c b/src/scmport-basechar.c
index f178ad0..ff9f6a1 100644
--- a/src/scmport-basechar.c
+++ b/src/scmport-basechar.c
@@ -139,8 +139,11 @@ basecport_dyn_cast(ScmCharPort *cport, const ScmCharPortVTbl *dst_vptr)
 static void
 basecport_close(ScmBaseCharPort *port)
 {
-    SCM_BYTEPORT_CLOSE(port->bport);
+    ScmBytePort *bport;
+
+    bport = port->bport;
     free(port);
+    SCM_BYTEPORT_CLOSE(bport);
 }
 
 static ScmCharCodec *
diff --git a/src/scmport-config.h b/src/scmport-config.h
index e50e6a8..dedc3a8 100644
--- a/src/scmport-config.h
+++ b/src/scmport-config.h
@@ -57,6 +57,9 @@ extern "C" {
 #define SCM_PORT_STRDUP(str)           (scm_strdup(str))
 #define SCM_CHARPORT_ERROR(cport, msg) (scm_plain_error(msg))
 #define SCM_BYTEPORT_ERROR(bport, msg) (scm_plain_error(msg))
+/* An error cannot be raised while the GC is reclaiming the port. */
+#define SCM_BYTEPORT_CLOSE_ERROR(bport, msg)                                 \
+    (scm_gc_freeingp() ? SCM_EMPTY_EXPR : scm_plain_error(msg))
 #else /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 /* Allocation error handling in the macros is strongly recommended. */
 #define SCM_PORT_MALLOC(size)          (malloc(size))
@@ -72,6 +75,7 @@ extern "C" {
  */
 #define SCM_CHARPORT_ERROR(cport, msg) (exit(EXIT_FAILURE))
 #define SCM_BYTEPORT_ERROR(bport, msg) (exit(EXIT_FAILURE))
+#define SCM_BYTEPORT_CLOSE_ERROR(bport, msg) SCM_BYTEPORT_ERROR((bport), (msg))
 #endif /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 
 /*=======================================
diff --git a/src/scmport-file.c b/src/scmport-file.c
index 50489bb..f405cf9 100644
--- a/src/scmport-file.c
+++ b/src/scmport-file.c
@@ -191,7 +191,7 @@ fileport_close(ScmFilePort *port)
     free(port->aux_info);
     free(port);
     if (ret == EOF)
-        SCM_BYTEPORT_ERROR(NULL, SCM_ERRMSG_CLOSE_PORT);
+        SCM_BYTEPORT_CLOSE_ERROR(NULL, SCM_ERRMSG_CLOSE_PORT);
 }
 
 static char *
diff --git a/src/sigscheme.h b/src/sigscheme.h
index a4acc26..1eeb136 100644
--- a/src/sigscheme.h
+++ b/src/sigscheme.h
@@ -1307,6 +1307,7 @@ SCM_EXPORT void scm_gc_unprotect(ScmObj *var);
 SCM_EXPORT scm_bool scm_gc_protectedp(ScmObj obj);
 SCM_EXPORT void *scm_call_with_gc_ready_stack(ScmGCGateFunc func, void *arg);
 SCM_EXPORT scm_bool scm_gc_protected_contextp(void);
+SCM_EXPORT scm_bool scm_gc_freeingp(void);
 /* for semantic assertions */
 #define scm_gc_any_contextp()                                                \
     (!scm_gc_protected_contextp() || scm_gc_protected_contextp())
diff --git a/src/storage-gc.c b/src/storage-gc.c
index c321abf..5dcd480 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -126,6 +126,7 @@ static ScmObj l_freelist;
 static ScmObj **l_protected_vars;
 static size_t l_protected_vars_size, l_n_empty_protected_vars;
 static GCROOTS_context *l_gcroots_ctx;
+static scm_bool l_freeing;
 #if SCM_DEBUG
 static size_t l_gcing;
 static scm_bool l_allocating;
@@ -145,6 +146,7 @@ SCM_GLOBAL_VARS_END(static_gc);
 #define l_n_empty_protected_vars                                             \
     SCM_GLOBAL_VAR(static_gc, l_n_empty_protected_vars)
 #define l_gcroots_ctx          SCM_GLOBAL_VAR(static_gc, l_gcroots_ctx)
+#define l_freeing              SCM_GLOBAL_VAR(static_gc, l_freeing)
 #if SCM_DEBUG
 #define l_gcing                SCM_GLOBAL_VAR(static_gc, l_gcing)
 #define l_allocating           SCM_GLOBAL_VAR(static_gc, l_allocating)
@@ -211,6 +213,7 @@ scm_init_gc(const ScmStorageConf *conf)
 {
     SCM_GLOBAL_VARS_INIT(static_gc);
 
+    l_freeing = scm_false;
 #if SCM_DEBUG
     l_gcing = 0;
     l_allocating = scm_false;
@@ -877,6 +880,13 @@ gc_mark_global_vars(void)
     SCM_END_GC_SUBCONTEXT();
 }
 
+/* True while a port is being closed by the GC or finalization */
+SCM_EXPORT scm_bool
+scm_gc_freeingp(void)
+{
+    return l_freeing;
+}
+
 static VERIF_NO_ASAN void
 free_cell(ScmCell *cell)
 {
@@ -893,8 +903,11 @@ free_cell(ScmCell *cell)
             SCM_CELL_VECTOR_FIN(*cell);
 #endif
 #if SCM_USE_PORT
-        else if (SCM_CELL_PORTP(*cell))
+        else if (SCM_CELL_PORTP(*cell)) {
+            l_freeing = scm_true;
             SCM_CELL_PORT_FIN(*cell);
+            l_freeing = scm_false;
+        }
 #endif
 #if SCM_USE_CONTINUATION
         else if (SCM_CELL_CONTINUATIONP(*cell))
@@ -935,8 +948,10 @@ free_cell(ScmCell *cell)
     /* rarely swept objects */
 #if SCM_USE_PORT
     case ScmPort:
+        l_freeing = scm_true;
         if (SCM_PORT_IMPL(cell))
             scm_port_close(cell);
+        l_freeing = scm_false;
         break;
 #endif
 
-- 
2.43.0


From 532462641d79ce327d97cba5ea319f65b99b4ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:59 +0000
Subject: [PATCH 31/51] fix: reject a non-port given to the current port
 setters

---
 src/port.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/port.c b/src/port.c
index 9307f62..6048fb4 100644
--- a/src/port.c
+++ b/src/port.c
@@ -313,6 +313,7 @@ scm_p_set_current_input_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-input-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_INPUT))
         ERR_OBJ("input port required but got", newport);
@@ -327,6 +328,7 @@ scm_p_set_current_output_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-output-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
@@ -341,6 +343,7 @@ scm_p_set_current_error_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-error-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
-- 
2.43.0


From 74793c98384a8668ae9f2dfcae29d42b3fd5d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:49 +0000
Subject: [PATCH 32/51] fix: reject a port of the wrong direction before
 touching its stream

---
 src/format.c | 2 ++
 src/port.c   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/format.c b/src/format.c
index d8e48db..058181a 100644
--- a/src/format.c
+++ b/src/format.c
@@ -673,6 +673,8 @@ format_internal(ScmObj port, enum ScmFormatCapability fcap,
     } else {
         if (!PORTP(port))
             ERR_OBJ("port or boolean required but got", port);
+        if (!(SCM_PORT_FLAG(port) & SCM_PORTFLAG_OUTPUT))
+            ERR_OBJ("output port required but got", port);
         implicit_portp = scm_false;
     }
 
diff --git a/src/port.c b/src/port.c
index 6048fb4..85854f9 100644
--- a/src/port.c
+++ b/src/port.c
@@ -150,6 +150,9 @@ scm_prepare_port(ScmObj args, ScmObj default_port)
         port = POP(args);
         ASSERT_NO_MORE_ARG(args);
         ENSURE_PORT(port);
+        if (!(SCM_PORT_FLAG(port) & SCM_PORT_FLAG(default_port)
+              & SCM_PORTFLAG_DIR_MASK))
+            ERR_OBJ("port of wrong direction", port);
     }
 
     return port;
-- 
2.43.0


From 105ea113e182df3569a7ccb53b2114440cdbb37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 33/51] fix: accept a script prelude that names no command

---
 src/sigscheme.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigscheme.c b/src/sigscheme.c
index ec032ac..efff2ab 100644
--- a/src/sigscheme.c
+++ b/src/sigscheme.c
@@ -486,7 +486,7 @@ scm_interpret_argv(char **argv)
 
     encoding = sys_load_path = NULL;
     argp = &argv[0];
-    if (strcmp(argv[0], "/usr/bin/env") == 0)
+    if (*argp && strcmp(*argp, "/usr/bin/env") == 0)
         argp++;
     if (*argp)
         argp++;  /* skip executable name */
-- 
2.43.0


From 7bf20ef44d2ea3cb65619445f4940f6ebc6e29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 34/51] fix: vector-reverse-copy! accepts adjacent ranges of
 one vector

---
 lib/srfi-43.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/srfi-43.scm b/lib/srfi-43.scm
index de200a1..f3d4e59 100644
--- a/lib/srfi-43.scm
+++ b/lib/srfi-43.scm
@@ -131,7 +131,7 @@
 
 (define (between? x y z)
   (and (<  x y)
-       (<= y z)))
+       (<  y z)))
 
 (define (unspecified-value) (if #f #f))
 
-- 
2.43.0


From 293dad98768c8e8610f66322c0b67d3d83893245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 35/51] fix: format+ takes a lone zero width before the
 fraction width

---
 src/format.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/format.c b/src/format.c
index 058181a..197db46 100644
--- a/src/format.c
+++ b/src/format.c
@@ -281,7 +281,10 @@ read_number_prefix(enum ScmFormatCapability fcap, format_string_t *fmt)
         vfmt.pad = '0';
         vfmt.width = 0;
     }
-    vfmt.width = read_width(fmt);
+    c = FORMAT_STR_PEEK(*fmt);
+    /* the leading zero may be the whole width */
+    if (vfmt.width < 0 || ICHAR_NUMERICP(c))
+        vfmt.width = read_width(fmt);
     c = FORMAT_STR_PEEK(*fmt);
 
     if (c == ',') {
-- 
2.43.0


From 6255a43e465386b53ef97899d4ca1338a9b0c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 36/51] fix: keep the procedures define-record-type uses when
 their names are rebound

---
 src/module-srfi9.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index 39c6526..8792ec4 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -95,12 +95,19 @@ scm_initialize_srfi9(void)
     scm_require_module("srfi-23");
     scm_load_system_file("srfi-9.scm");
 
-    l_proc_car                = SYMBOL_VALUE("car");
-    l_proc_make_record_type   = SYMBOL_VALUE("make-record-type");
-    l_proc_record_constructor = SYMBOL_VALUE("record-constructor");
-    l_proc_record_predicate   = SYMBOL_VALUE("record-predicate");
-    l_proc_record_accessor    = SYMBOL_VALUE("record-accessor");
-    l_proc_record_modifier    = SYMBOL_VALUE("record-modifier");
+    /* the program may rebind the names */
+    scm_gc_protect_with_init(&l_proc_car,
+                             SYMBOL_VALUE("car"));
+    scm_gc_protect_with_init(&l_proc_make_record_type,
+                             SYMBOL_VALUE("make-record-type"));
+    scm_gc_protect_with_init(&l_proc_record_constructor,
+                             SYMBOL_VALUE("record-constructor"));
+    scm_gc_protect_with_init(&l_proc_record_predicate,
+                             SYMBOL_VALUE("record-predicate"));
+    scm_gc_protect_with_init(&l_proc_record_accessor,
+                             SYMBOL_VALUE("record-accessor"));
+    scm_gc_protect_with_init(&l_proc_record_modifier,
+                             SYMBOL_VALUE("record-modifier"));
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 1afb6e0e47296415217a45e375477175e8f96d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 37/51] fix: loading SRFI-69 must not replace expt by a version
 that never returns for a negative exponent

---
 lib/srfi-69.scm | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/lib/srfi-69.scm b/lib/srfi-69.scm
index f4704cd..1c1c364 100644
--- a/lib/srfi-69.scm
+++ b/lib/srfi-69.scm
@@ -41,14 +41,6 @@
 (define inexact? (lambda (x) #f))
 (define real?    inexact?)
 
-(define expt
-  (lambda (x y)
-    (let rec ((res 1)
-              (cnt y))
-      (if (zero? cnt)
-          res
-          (rec (* res x) (- cnt 1))))))
-
 ;;
 ;; Main implementation
 ;;
-- 
2.43.0


From 57ccaf7794f074b93afa2725982a85f1caca9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 38/51] fix: keep the escaping continuation alive while the
 after thunks run: a raise there must reach the guard being escaped to

---
 src/continuation.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/continuation.c b/src/continuation.c
index a6dd146..5764538 100644
--- a/src/continuation.c
+++ b/src/continuation.c
@@ -248,6 +248,22 @@ continuation_stack_pop(void)
     return NULLP(l_continuation_stack) ? SCM_FALSE : POP(l_continuation_stack);
 }
 
+/* expire all descendant continuations of dest_cont */
+static ScmObj
+continuation_stack_unwind_descendants(ScmObj dest_cont)
+{
+    ScmObj cont;
+
+    while (!NULLP(l_continuation_stack)) {
+        if (EQ(dest_cont, CAR(l_continuation_stack)))
+            return dest_cont;
+        cont = continuation_stack_pop();
+        CONTINUATION_SET_FRAME(cont, INVALID_CONTINUATION_OPAQUE);
+    }
+
+    return SCM_FALSE;
+}
+
 /* expire all descendant continuations and dest_cont */
 static ScmObj
 continuation_stack_unwind(ScmObj dest_cont)
@@ -333,14 +349,19 @@ scm_call_continuation(ScmObj cont, ScmObj ret)
 
     if (frame != INVALID_CONTINUATION_OPAQUE
 #if SCM_NESTED_CONTINUATION_ONLY
-        && (dst = continuation_stack_unwind(cont), CONTINUATIONP(dst))
+        && (dst = continuation_stack_unwind_descendants(cont),
+            CONTINUATIONP(dst))
 #endif
         )
     {
-        /* Don't refer cont because it may already be invalidated by
-         * continuation_stack_unwind(). */
+        /* cont is still alive here: the 'after' thunks of the extents being
+         * left may invoke it again, e.g. to deliver a raised object to the
+         * guard that is being escaped to. */
         exit_dynamic_extent(frame->dyn_ext);
 
+#if SCM_NESTED_CONTINUATION_ONLY
+        continuation_stack_unwind(cont);
+#endif
         frame->ret_val = ret;
         LONGJMP(frame->c_env, scm_true);
         /* NOTREACHED */
-- 
2.43.0


From 0fe081d7d80d1a98e57077b0b46cbe16457490f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 39/51] fix: end of input after a backslash in a string is a
 read error under every encoding, not a fatal error

---
 src/read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read.c b/src/read.c
index b7c3c03..4d789a1 100644
--- a/src/read.c
+++ b/src/read.c
@@ -575,6 +575,9 @@ read_sexpression(ScmObj port)
                 ERR("EOF in #");
                 /* NOTREACHED */
             default:
+                /* the error port may be unable to represent a non-ASCII char */
+                if (!ICHAR_ASCIIP(c))
+                    ERR("unsupported # notation: 0x~MX", (scm_int_t)c);
                 ERR("unsupported # notation: ~C", c);
                 /* NOTREACHED */
             }
@@ -892,6 +895,11 @@ read_string(ScmObj port)
                 }
             }
             LBUF_FREE(lbuf);
+            if (c == SCM_ICHAR_EOF)
+                ERR("EOF in string");
+            /* the error port may be unable to represent a non-ASCII char */
+            if (!ICHAR_ASCIIP(c))
+                ERR("invalid escape sequence in string: 0x~MX", (scm_int_t)c);
             ERR("invalid escape sequence in string: \\~C", c);
         found:
             break;
-- 
2.43.0


From 1a27acbc59ccb056c13d658e21f3934134e2b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 40/51] fix: call variadic procedures that have five mandatory
 arguments

---
 src/eval.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 5237c37..2dab91f 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -678,6 +678,18 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
                                argbuf[3],
                                argbuf[4]);
             }
+        case 6:
+            {
+                /* only variadic procedures have an argument more */
+                scm_procedure_variadic_5 func =
+                    (scm_procedure_variadic_5)SCM_FUNC_CFUNC(proc);
+                return (*func)(argbuf[0],
+                               argbuf[1],
+                               argbuf[2],
+                               argbuf[3],
+                               argbuf[4],
+                               argbuf[5]);
+            }
 #endif
         default:
             SCM_NOTREACHED;
-- 
2.43.0


From f94374752cb269b43e683717c73b22f6efcaf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 41/51] fix: reject an improper argument list in let-optionals*
 instead of reading past its end

---
 src/module-sscm-ext.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 0c5984e..52f5258 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -425,6 +425,7 @@ scm_s_let_optionalsstar(ScmObj args, ScmObj bindings, ScmObj body,
             val = EVAL(exp, env);
             CHECK_VALID_EVALED_VALUE(val);
         } else {
+            ENSURE_LIST(args);
             val = POP(args);
         }
 
-- 
2.43.0


From 103cb08f1ea98a36855cd408962ff3073b2caadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 42/51] fix: give the feature string of a required file its
 actual length

---
 src/module-sscm-ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 52f5258..07c9329 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -261,7 +261,7 @@ make_loaded_str(const char *filename)
     char *loaded_str;
     size_t size;
 
-    size = strlen(filename) + sizeof("*-loaded*") + 1 /* '\0' */;
+    size = strlen(filename) + sizeof("*-loaded*"); /* includes '\0' */
     loaded_str = scm_malloc(size);
     sprintf(loaded_str, "*%s-loaded*", filename);
 
-- 
2.43.0


From 278b30d5e456b7b802af8ea8e6b9b1334704d045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 43/51] fix: evaluate the operands that follow a failed
 comparison

---
 src/eval.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 2dab91f..95ed47b 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -123,8 +123,15 @@ reduce(scm_reduction_operator func,
         if (need_eval)
             right = EVAL(right, env);
         left = (*func)(left, right, &state);
-        if (state == SCM_REDUCE_STOP)
+        if (state == SCM_REDUCE_STOP) {
+            /* The remaining operands have to be evaluated anyway. */
+            if (need_eval) {
+                FOR_EACH (right, args)
+                    EVAL(right, env);
+                ASSERT_NO_MORE_ARG(args);
+            }
             return left;
+        }
     }
     ASSERT_NO_MORE_ARG(args);
 
-- 
2.43.0


From 82d8a123dd5f08275a143cf5243e2958c40b6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 44/51] fix: report a relative --system-load-path instead of
 crashing

---
 src/sigscheme.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigscheme.c b/src/sigscheme.c
index efff2ab..d8c5416 100644
--- a/src/sigscheme.c
+++ b/src/sigscheme.c
@@ -535,6 +535,8 @@ scm_interpret_argv(char **argv)
     }
 
     if (sys_load_path) {
+        if (sys_load_path[0] != '/')
+            argv_err(argv, "system load path must be absolute");
         scm_set_system_load_path(sys_load_path);
     }
 
-- 
2.43.0


From 3b07d728b99e228784bec8ff3ccf1e6738ed18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 45/51] fix: keep the tail of a dotted template whose last
 element has an ellipsis

---
 src/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 9a0f88c..17b15c4 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -458,13 +458,14 @@ compile_rec(compilation_context *ctx, ScmObj form, scm_int_t level)
                     ERR_OBJ("constant repeatable subtemplate", form);
                 if (CONSP(rest))
                     goto restart;
-                return out;
+                goto tail;
             } else {
                 SCM_QUEUE_ADD(q, compile_rec(ctx, obj, level));
             }
         }
         SCM_ASSERT(!ELLIPSISP(obj));
         SCM_QUEUE_ADD(q, compile_rec(ctx, obj, level));
+      tail:
         if (!NULLP(rest)) {
             if (ELLIPSISP(rest))
                 ERR_OBJ("misplaced ellipsis", form);
-- 
2.43.0


From 9866365bb7ea918531f1c98d9c2cd6259aeeddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 46/51] fix: accept identifiers a hygienic macro introduces in
 set!, do, cond, define and guard

---
 src/module-srfi34.c |  2 +-
 src/syntax.c        | 19 +++++++++----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index 47308cb..fa92c32 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -410,7 +410,7 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
     /* eval cond-catch block */
     sym_var = CAR(cond_catch);
     clauses = CDR(cond_catch);
-    ENSURE_SYMBOL(sym_var);
+    ENSURE_IDENTIFIER(sym_var);
     cond_env
         = scm_extend_environment(LIST_1(sym_var), LIST_1(condition), lex_env);
     SCM_EVAL_STATE_INIT1(eval_state, cond_env);
diff --git a/src/syntax.c b/src/syntax.c
index 06b2582..c1561aa 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -249,7 +249,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     ScmRef locally_bound;
     DECLARE_FUNCTION("set!", syntax_fixed_2);
 
-    ENSURE_SYMBOL(sym);
+    ENSURE_IDENTIFIER(sym);
 
     evaled = EVAL(exp, env);
     CHECK_VALID_EVALED_VALUE(evaled);
@@ -257,6 +257,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     if (locally_bound != SCM_INVALID_REF) {
         SET(locally_bound, evaled);
     } else {
+        sym = SCM_UNWRAP_KEYWORD(sym);
         if (!SCM_SYMBOL_BOUNDP(sym))
             ERR_OBJ("unbound variable", sym);
 
@@ -313,10 +314,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
         test = CAR(clause);
         exps = CDR(clause);
 
-#if 0
-        test = SCM_UNWRAP_SYNTAX(test);  /* FIXME: needed? */
-#endif
-        if (EQ(test, l_sym_else)) {
+        if (EQ(SCM_UNWRAP_KEYWORD(test), l_sym_else)) {
             ASSERT_NO_MORE_ARG(clauses);
             return scm_s_begin(exps, eval_state);
         }
@@ -341,7 +339,8 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (CONSP(exps) && EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
+            if (CONSP(exps) && EQ(l_sym_yields, SCM_UNWRAP_KEYWORD(CAR(exps)))
+                && LIST_2_P(exps)) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
@@ -723,7 +722,7 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
         exp = CAR(body);
         if (!CONSP(exp))
             break;
-        sym = POP(exp);
+        sym = SCM_UNWRAP_KEYWORD(POP(exp));
         if (EQ(sym, l_sym_begin)) {
             begin_rest = filter_definitions(exp, formals, actuals, def_expq);
             if (!NULLP(begin_rest)) {
@@ -747,7 +746,7 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
                 lambda_formals = CDR(var);
                 lambda_body    = exp;
 
-                ENSURE_SYMBOL(sym);
+                ENSURE_IDENTIFIER(sym);
                 var = sym;
                 exp = CONS(l_syn_lambda, CONS(lambda_formals, lambda_body));
             } else {
@@ -870,7 +869,7 @@ scm_s_do(ScmObj bindings, ScmObj test_exps, ScmObj commands,
         if (!CONSP(binding))
             goto err;
         var  = POP(binding);
-        ENSURE_SYMBOL(var);
+        ENSURE_IDENTIFIER(var);
 #if SCM_STRICT_ARGCHECK
         /* Optional check. Keeping variable name unique is user's
          * responsibility. R5RS: "It is an error for a <variable> to appear
@@ -1013,7 +1012,7 @@ scm_s_define(ScmObj var, ScmObj rest, ScmEvalState *eval_state)
         formals  = CDR(var);
         body     = rest;
 
-        ENSURE_SYMBOL(procname);
+        ENSURE_IDENTIFIER(procname);
         proc = scm_s_lambda(formals, body, env);
         scm_s_define_internal(ScmFirstClassObj, procname, proc, env);
     } else {
-- 
2.43.0


From a9b66b23a72db9a38d2c8db4c981e8a5b640969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 47/51] fix: allow a hygienic macro use at toplevel to expand
 to a definition

---
 src/eval.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 95ed47b..e6b8e70 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -292,9 +292,21 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
         }
 #if SCM_USE_HYGIENIC_MACRO
         if (HMACROP(proc)) {
+            ScmObj ret;
+            scm_bool toplevelp;
+
             if (!need_eval)
                 ERR_OBJ("can't apply/map a macro", proc);
-            return scm_expand_macro(proc, args, eval_state);
+
+            toplevelp = SCM_DEFINABLE_TOPLEVELP(eval_state);
+            ret = scm_expand_macro(proc, args, eval_state);
+#if SCM_STRICT_TOPLEVEL_DEFINITIONS
+            /* Allow toplevel definitions by the expanded form as legacy macro
+             * does. See scm_eval(). */
+            if (toplevelp)
+                eval_state->nest = SCM_NEST_RETTYPE_BEGIN;
+#endif
+            return ret;
         }
 #endif
         /* Since scm_values_applier is a continuation, this block must precedes
-- 
2.43.0


From a403184b2b16ad714bc9578e731b701590228751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 48/51] fix: add a heap when a collection frees nothing and the
 threshold is 0

---
 src/storage-gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index 5dcd480..d5d052f 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -557,7 +557,7 @@ gc_mark_and_sweep(void)
     gc_mark();
     n_collected = gc_sweep();
 
-    if (n_collected < l_heap_alloc_threshold) {
+    if (n_collected < l_heap_alloc_threshold || !n_collected) {
         CDBG((SCM_DBG_GC, "enough number of free cells cannot be collected. allocating new heap."));
         add_heap();
     }
-- 
2.43.0


From e76f61c72dc76296117a9a084259d41600b4a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 49/51] fix: restore the char codec when an error escapes from
 require

---
 lib/sigscheme-init.scm | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/sigscheme-init.scm b/lib/sigscheme-init.scm
index c8d42b4..9176361 100644
--- a/lib/sigscheme-init.scm
+++ b/lib/sigscheme-init.scm
@@ -62,6 +62,16 @@
            (%%load file))))
       %%load))
 
+(define %%require require)
+
+(define require
+  (if (provided? "multibyte-char")
+      (lambda (file)
+        (%with-guarded-char-codec
+         (lambda ()
+           (%%require file))))
+      %%require))
+
 ;; R5RS
 (define call-with-input-file
   (lambda (filename proc)
-- 
2.43.0


From d64cd68476bbb49a7b69429f00f1360ca44f9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 50/51] fix: print a closed port instead of raising an error
 while reporting one

---
 src/write.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/write.c b/src/write.c
index a9cfb35..792b279 100644
--- a/src/write.c
+++ b/src/write.c
@@ -546,12 +546,18 @@ write_port(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     scm_port_puts(port, "port");
 
     /* file or string */
-    info = scm_port_inspect(obj);
-    if (*info) {
-        scm_port_put_char(port, ' ');
-        scm_port_puts(port, info);
+    if (SCM_PORT_IMPL(obj)) {
+        info = scm_port_inspect(obj);
+        if (*info) {
+            scm_port_put_char(port, ' ');
+            scm_port_puts(port, info);
+        }
+        free(info);
+    } else {
+        /* A closed port has nothing to be inspected. It must be printable
+         * since the error about it is reported with it. */
+        scm_port_puts(port, " closed");
     }
-    free(info);
 
     scm_port_put_char(port, '>');
 }
-- 
2.43.0


From 9441c199e88da3a5c0df203c4b337bdb29a41de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 51/51] fix: a heap size whose size in bytes overflows is
 refused at initialisation

---
 src/storage-gc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index d5d052f..1fb6956 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -487,8 +487,10 @@ initialize_heap(const ScmStorageConf *conf)
 
     /* Since maximum length of list can be represented by a Scheme integer,
      * SCM_INT_MAX limits the number of cons cells. */
-    if (SCM_INT_MAX < l_n_heaps_max * l_heap_size
-        || SCM_INT_MAX < conf->n_heaps_init * l_heap_size)
+    if (l_heap_size
+        && (SCM_INT_MAX / l_heap_size < l_n_heaps_max
+            || SCM_INT_MAX / l_heap_size < conf->n_heaps_init
+            || (size_t)-1 / sizeof(ScmCell) < l_heap_size))
         scm_fatal_error("too large heap size specified");
 
     scm_prealloc_heaps(conf->n_heaps_init);
-- 
2.43.0

