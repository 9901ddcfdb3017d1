From 22039b9eff743519e400882add9b875eee5a1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:30 +0000
Subject: [PATCH 01/44] fix: bincount: uint64 values >= 2**63 wrote outside the
 output array

---
 src/bincount/bincount_gufunc.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..e7a8294 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -14,6 +14,17 @@
 #include "../src/util/strided.hpp"
 
 
+//
+// True if 0 <= k < m.  The comparison k < m is done with unsigned integers,
+// because a 64 bit unsigned k might not be representable as an npy_intp.
+//
+template<typename T>
+static inline bool
+is_valid_bin(T k, npy_intp m)
+{
+    return k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m);
+}
+
 //
 // `bincount_core_calc` is the C++ core function
 // for the gufunc `bincount` with signature '(n)->(m)'
@@ -36,7 +47,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (is_valid_bin(k, m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +55,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (is_valid_bin(k, m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +64,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (is_valid_bin(k, m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +93,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (is_valid_bin(k, m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +141,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (is_valid_bin(k, m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From c7e5f4fddd8f4dad4b83ce7aa94feb523ba8c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:30 +0000
Subject: [PATCH 02/44] fix: bincount: default m wrapped around for narrow
 integer types

---
 ufunclab/_wrapped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..3d34371 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -161,7 +161,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From 8ed662b87cde6ec73879426ca8f62c003f301a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 03/44] fix: convert_to_base: base 0, or the smallest integer
 in base -1, raised SIGFPE

---
 src/convert_to_base/convert_to_base_gufunc.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..5cccbab 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -4,6 +4,9 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <cfenv>
+#include <type_traits>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -20,6 +23,22 @@ static void convert_to_base_core_calc(
 {
     T k = *p_k;
     T base = *p_base;
+    bool all_zero = (base == 0);
+    if (base == 0) {
+        // Same convention as NumPy's integer division by zero.
+        std::feraiseexcept(FE_DIVBYZERO);
+    }
+    if constexpr (std::is_signed_v<T>) {
+        // k % -1 is 0 for all k, but the division of the smallest integer
+        // by -1 overflows.
+        all_zero |= (base == -1);
+    }
+    if (all_zero) {
+        for (npy_intp i = 0; i < n; ++i) {
+            set(p_out, out_stride, i, static_cast<T>(0));
+        }
+        return;
+    }
     for (npy_intp i = 0; i < n; ++i) {
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
-- 
2.43.0


From 3961c1dff0119ac5a27af3e65d39b95374eef154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 04/44] fix: kbnsum: values following an inf were read with the
 wrong stride

---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From 162aa5c63d1766dc08181e69e5c08c4c51e4046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 05/44] fix: linear_interp1d: out of bounds reads for empty xp,
 and for nan with xp of length 1

---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..69f9a6c 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -89,14 +89,14 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp xp_stride = steps[4];
     npy_intp fp_stride = steps[5];
 
-    if ((steps[0] == 0) && (steps[1] == 0)) {
+    if ((n > 0) && (steps[0] == 0) && (steps[1] == 0)) {
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
-            // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+        if (!((x >= left) && (x <= right))) {
+            // No extrapolation. Output is NAN if x is NAN or is outside the
+            // values given in xp.
             for (int j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
@@ -133,9 +133,9 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         @ctype@ x = *((@ctype@ *) px);
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
-            // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+        if (!((x >= left) && (x <= right))) {
+            // No extrapolation. Output is NAN if x is NAN or is outside the
+            // values given in xp.
             *((@ctype@ *) pout) = NPY_NAN;
             continue;
         }
-- 
2.43.0


From 2107fdf110c05a384f14cc8d1ebc69417a284d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 06/44] fix: percentileofscore: the output was not written when
 kind is not valid

---
 src/percentileofscore/percentileofscore_gufunc.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..642a175 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -64,7 +64,7 @@ percentileofscore_core_calc(
 
     count(n, p_x, x_stride, *p_score, &nless, &nequal, &ngreater);
 
-    switch (static_cast<int>(*p_kind)) {
+    switch (*p_kind) {
         case RANK:
             sum = 2*nless + nequal;
             if (nequal > 0) {
@@ -81,6 +81,10 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            // Not a valid kind.
+            *p_out = NPY_NAN;
+            return;
     }
 }
 
-- 
2.43.0


From b20ba5db52f362696d7cdc8534cc393a7d5f8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 07/44] fix: peaktopeak: signed integer overflow in the
 calculation of the difference

---
 src/peaktopeak/peaktopeak_gufunc.c.src | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..2811e07 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -30,12 +30,9 @@
 
 #if @is_signed_int@
 static inline @ctype_out@ max_diff_@typename@(@ctype_in@ xmax, @ctype_in@ xmin) {
-    if ((xmax > 0 && xmin > 0) || (xmax <= 0 && xmin <= 0)) {
-        return xmax - xmin;
-    }
-    else {
-        return xmax + (@ctype_out@) (-xmin);
-    }
+    // The unsigned subtraction is correct (modulo 2**nbits, and the difference
+    // fits), while the subtraction of the signed values could overflow.
+    return (@ctype_out@) xmax - (@ctype_out@) xmin;
 }
 #endif
 
-- 
2.43.0


From dc47571b324c669e394696899db8da00818d23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 08/44] fix: unwrap: the number of periods overflowed int; nan
 or inf in x[0] gave garbage

---
 src/unwrap/unwrap_gufunc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..d77addd 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,7 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    T q = static_cast<T>(std::trunc(delta/period + std::copysign(0.5, delta)));
     return x1 - q * period;
 }
 
@@ -43,7 +43,7 @@ unwrap_core(
     p_out[0] = x0;
     for (npy_intp k = 1; k < n; ++k) {
         T x1 = get(p_x, x_stride, k);
-        if (!std::isfinite(x1)) {
+        if (!std::isfinite(x0) || !std::isfinite(x1)) {
             // inf or nan; output from here onwards is nan.
             for (npy_intp k1 = k; k1 < n; ++k1) {
                 set(p_out, out_stride, k1, static_cast<T>(NPY_NAN));
-- 
2.43.0


From c6eb5bcc34948be563211ee45e04de0048093f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 09/44] fix: object loops leaked the references held by the
 output array

---
 src/cross/cross_gufunc.h               | 12 ++++++++----
 src/first/first_gufunc.h               |  3 ++-
 src/minmax/minmax_gufunc.h             | 11 +++++++----
 src/peaktopeak/peaktopeak_gufunc.c.src |  2 +-
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..6de1f5d 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -106,9 +106,13 @@ cross3_core_calc_object(
         return;
     }
 
-    set(p_out, out_stride, 0, out0);
-    set(p_out, out_stride, 1, out1);
-    set(p_out, out_stride, 2, out2);
+    // If the output already holds references (e.g. `out` was given), release
+    // them.
+    PyObject **p_out1 = (PyObject **) ((char *) p_out + out_stride);
+    PyObject **p_out2 = (PyObject **) ((char *) p_out + 2*out_stride);
+    Py_XSETREF(*p_out, out0);
+    Py_XSETREF(*p_out1, out1);
+    Py_XSETREF(*p_out2, out2);
 }
 
 //
@@ -156,7 +160,7 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
-    p_out[0] = out;
+    Py_XSETREF(p_out[0], out);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..3ea37ab 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -172,7 +172,8 @@ first_core_calc_object(
         }
     }
     Py_XINCREF(result);
-    *p_out = result;
+    // If *p_out already holds a reference (e.g. `out` was given), release it.
+    Py_XSETREF(*p_out, result);
 }
 
 
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..24890ac 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -68,8 +68,11 @@ static void minmax_object_core(
     }
     Py_INCREF(xmin);
     Py_INCREF(xmax);
-    *p_out = xmin;
-    set(p_out, out_stride, 1, xmax);
+    // If the output already holds references (e.g. `out` was given), release
+    // them.
+    PyObject **p_out_max = (PyObject **) ((char *) p_out + out_stride);
+    Py_XSETREF(*p_out, xmin);
+    Py_XSETREF(*p_out_max, xmax);
 }
 
 
@@ -283,7 +286,7 @@ static void min_argmin_object_core(
         }
     }
     Py_INCREF(xmin);
-    *p_out1 = xmin;
+    Py_XSETREF(*p_out1, xmin);
     *p_out2 = xmin_index;
 }
 
@@ -334,7 +337,7 @@ static void max_argmax_object_core(
         }
     }
     Py_INCREF(xmax);
-    *p_out1 = xmax;
+    Py_XSETREF(*p_out1, xmax);
     *p_out2 = xmax_index;
 }
 
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 2811e07..7d5c498 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -224,7 +224,7 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         if (diff == NULL) {
             return;
         }
-        *((PyObject **) out) = diff;
+        Py_XSETREF(*((PyObject **) out), diff);
     }
 }
 
-- 
2.43.0


From 4f3e3ce28f8ccb174e1ef880d544aecf4db697ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 10/44] fix: generated object loops continued with an exception
 set after a core function failed

---
 tools/cxxgen/gufuncgen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..9454cd4 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,11 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if 'PyObject *' in var_ctypes:
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
+
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From 01ad0977b71b735674d1ad6c20851f91a0ee54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 11/44] fix: ordered: nan was considered to be ordered relative
 to any value

---
 src/ordered/ordered_gufunc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..e0f9033 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -29,7 +29,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 >= x2) {
+            if (!(x1 < x2)) {
                 return false;
             }
             x1 = x2;
@@ -39,7 +39,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 > x2) {
+            if (!(x1 <= x2)) {
                 return false;
             }
             x1 = x2;
@@ -69,7 +69,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 <= x2) {
+            if (!(x1 > x2)) {
                 return false;
             }
             x1 = x2;
@@ -80,7 +80,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 < x2) {
+            if (!(x1 >= x2)) {
                 return false;
             }
             x1 = x2;
-- 
2.43.0


From 12f1181b5134a71e728cf392ac269fb2952efc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 12/44] fix: ordered: object elements were all compared to the
 first element

---
 src/ordered/ordered_gufunc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index e0f9033..15f6764 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -143,6 +143,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From 400cf49836c4368998b77e951c959065ec27229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 13/44] fix: ordered: an invalid op crashed the interpreter
 when x is an object array

---
 src/ordered/ordered_gufunc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 15f6764..98a355a 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -130,6 +130,10 @@ static void ordered_core_object(
         npy_bool *p_out     // pointer to out
 ) {
     int op = *p_op;
+    if (op < Py_LT || op > Py_GE) {
+        // Not a valid op; as in ordered_core(), use GE.
+        op = Py_GE;
+    }
     *p_out = true;
     if (n > 1) {
         PyObject *x1 = *p_x;
-- 
2.43.0


From 86d3313c341b74d6d47aac19990c949750beb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:59 +0000
Subject: [PATCH 14/44] fix: gendot: wrong item size when the types of the
 product and the result differ

---
 src/gendot/gendotmodule.c | 13 +++++++++----
 ufunclab/_gendot_wrap.py  |  9 ++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..bfd47e4 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -17,6 +17,7 @@ typedef struct gendot_data_t {
     void *prodfunc_loop_data;
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
+    npy_intp prodfunc_loop_itemsize;
     npy_intp sumfunc_loop_itemsize;
     npy_intp sumfunc_nin;
     npy_intp sumfunc_has_identity; // actual values are only 0 or 1.
@@ -27,6 +28,7 @@ typedef struct gendot_data_t {
 
 #define PRODFUNC_LOOP(p)            (((gendot_data_t *)(p))->prodfunc_loop)
 #define PRODFUNC_LOOP_DATA(p)       (((gendot_data_t *)(p))->prodfunc_loop_data)
+#define PRODFUNC_LOOP_ITEMSIZE(p)   (((gendot_data_t *)(p))->prodfunc_loop_itemsize)
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
@@ -99,14 +101,16 @@ gendot_loop(char **args, const npy_intp *dimensions,
     npy_intp prodfunc_dimensions[3];
     npy_intp prodfunc_steps[3];
 
-    size_t itemsize = SUMFUNC_LOOP_ITEMSIZE(data);
+    // itemsize is the size of the intermediate values computed by prodfunc.
+    size_t itemsize = PRODFUNC_LOOP_ITEMSIZE(data);
 
     if (dimensions[1] == 0) {
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
             for (int j = 0; j < nloops; ++j, pout += steps[2]) {
-                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
+                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data),
+                       SUMFUNC_LOOP_ITEMSIZE(data));
             }
             return;
         }
@@ -315,11 +319,12 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
-        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
+        gendot_data[i].prodfunc_loop_itemsize = gendot_itemsizes[2*i];
+        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[2*i + 1];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
                sumfunc_identity_data + 32*i,  // FIXME: hard-coded constant 32 :(
-               gendot_itemsizes[i]);
+               gendot_itemsizes[2*i + 1]);
 
         gendot_data_ptrs[i] = &gendot_data[i];
     }
diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..bf7662c 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -169,11 +169,18 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
         for j, sum_type in enumerate(sumfunc.types):
             sum_intype = sum_type.replace(' ', '').split('->')[0]
             if sum_intype == sumfunc.nin*prod_outtype:
+                if sumfunc.nin == 2 and sum_type[-1] != prod_outtype:
+                    # The loop can't be used in a reduction, because its
+                    # output can't be an input of the next step.
+                    continue
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
     typechars = [prod_type[:2] + sum_type[-1]
                  for prod_type, sum_type in dot_types]
-    itemsizes = np.array([np.dtype(c[-1]).itemsize for c in typechars],
+    # Each row holds the item sizes of the outputs of prodfunc and of sumfunc.
+    itemsizes = np.array([(np.dtype(prod_type[-1]).itemsize,
+                           np.dtype(sum_type[-1]).itemsize)
+                          for prod_type, sum_type in dot_types],
                          dtype=np.intp)  # Actually, np.uint8 would be OK.
 
     typecodes = np.array([[reverse_typedict[np.dtype(c).type] for c in chars]
-- 
2.43.0


From faa47975fc9b86808be20d7114e35f44fe6202c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:59 +0000
Subject: [PATCH 15/44] fix: gendot: OverflowError when sumfunc is bitwise_and

---
 ufunclab/_gendot_wrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index bf7662c..19ddcb3 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -195,7 +195,9 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
     if sumfunc.identity is not None:
         sumfunc_has_identity = True
         for k, tc in enumerate(typechars):
-            identity = np.dtype(tc[-1]).type(sumfunc.identity)
+            # Use astype() because the identity of bitwise_and is -1, which
+            # has to be converted to the unsigned types.
+            identity = np.array(sumfunc.identity).astype(tc[-1])[()]
             size = identity.itemsize
             identity_bytes = identity.view(np.dtype(('B', (size,))))
             sumfunc_identity_array[k, :size] = identity_bytes
-- 
2.43.0


From 5c485f2422612a10dd2dfa367de258ef9289f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 16/44] fix: sosfilter: the output was not written when there
 are no sections

---
 src/sosfilter/sosfilter_gufunc.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..dc215e8 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -26,6 +26,14 @@ static void sosfilter_ic_core(
         const npy_intp zf_strides[2]    // array of length 2 of strides (in bytes) of zf
 )
 {
+    if (m == 0) {
+        // There are no sections, so the output is the input.
+        for (npy_intp i = 0; i < n; ++i) {
+            set(p_y, y_stride, i, get(p_x, x_stride, i));
+        }
+        return;
+    }
+
     // Copy zi to zf
     if (p_zi != p_zf) {
         for (npy_intp k = 0; k < m; ++k) {
@@ -102,6 +110,12 @@ static void sosfilter_ic_contig_core(
         const npy_intp zf_strides[2]    // array of length 2 of strides (in bytes) of zf
 )
 {
+    if (m == 0) {
+        // There are no sections, so the output is the input.
+        memmove(p_y, p_x, n*sizeof(T));
+        return;
+    }
+
     if (p_zf != p_zi) {
         // Copy zi to zf
         memcpy(p_zf, p_zi, 2*m*sizeof(T));
-- 
2.43.0


From 7190ba1cec5e1ce6efcf18653e448c6b10f441ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 17/44] fix: expint1, logexpint1: conversion of nan to int when
 x is nan

---
 src/expint1/expint1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expint1/expint1.h b/src/expint1/expint1.h
index 8c11532..bca68e7 100644
--- a/src/expint1/expint1.h
+++ b/src/expint1/expint1.h
@@ -72,7 +72,7 @@ static T expint1_t(T x)
 template<typename T>
 T expint1(T x)
 {
-    if (x < 0.0) {
+    if (std::isnan(x) || x < 0.0) {
         return std::numeric_limits<T>::quiet_NaN();
     }
     if (x == 0) {
@@ -92,7 +92,7 @@ T expint1(T x)
 template<typename T>
 T logexpint1(T x)
 {
-    if (x < 0) {
+    if (std::isnan(x) || x < 0) {
         return std::numeric_limits<T>::quiet_NaN();
     }
     if (x == 0) {
-- 
2.43.0


From 3a406244959a8268efa0b2317068f7645ba65c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 18/44] fix: tri_area, tri_area_indexed: nan for some
 degenerate triangles

---
 src/tri_area/tri_area_gufunc.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index af58cfd..07976bc 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -73,6 +73,11 @@ tri_area_common_calc(
     T f2 = (c - (a - b));
     T f3 = (c + (a - b));
     T f4 = (a + (b - c));
+    if (f2 < 0) {
+        // a > b + c, which can only be the result of rounding the lengths
+        // of the sides of a degenerate triangle.
+        f2 = 0;
+    }
     *p_out = std::sqrt(f1*f2*f3*f4)/4;
 }
 
-- 
2.43.0


From 8183a627a1a857844bd18f13d7eedd9bf90d43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 19/44] fix: gmean, gmeanw: return nan when x contains -inf

---
 src/means/means_gufunc.c.src | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 149457a..26fa8ee 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -57,16 +57,16 @@
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += logx;
@@ -137,16 +137,16 @@ static void gmean_@typename@_loop(char **args, const npy_intp *dimensions,
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += w*logx;
-- 
2.43.0


From 03f92d5ee0083cb6499ba4f05d7c39e8613cbf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 20/44] fix: pmean, pmeanw: return nan for negative or nan
 values when p is -1

---
 src/means/means_gufunc.c.src | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 26fa8ee..163df12 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -349,14 +349,6 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            char *args2[2] = {in0, out};
-            npy_intp dims2[2] = {1, dimensions[1]};
-            npy_intp steps2[3] = {in0_step, out_step, inner_step};
-            hmean_@typename@_loop(args2, dims2, steps2, NULL);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
@@ -385,6 +377,14 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            char *args2[2] = {in0, out};
+            npy_intp dims2[2] = {1, dimensions[1]};
+            npy_intp steps2[3] = {in0_step, out_step, inner_step};
+            hmean_@typename@_loop(args2, dims2, steps2, NULL);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
@@ -493,12 +493,6 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
-                                                        inner0_step, inner1_step);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
                                                      inner1 += inner1_step) {
@@ -528,6 +522,12 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
+                                                        inner0_step, inner1_step);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
-- 
2.43.0


From f6fe07261ade95bd19f2d7837216f420368fafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 21/44] fix: pmean, pmeanw: nan for tiny nonzero p when x
 contains 0 or inf

---
 src/means/means_gufunc.c.src | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 163df12..de1a4ef 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -332,7 +332,8 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         if (fabs@funcsuffix@(p) < 2e-6) {
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmean_@typename@_1d(in0, dimensions[1], inner_step);
-            if (p != 0) {
+            bool gm_ok = gm > 0 && isfinite(gm);
+            if (p != 0 && gm_ok) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
@@ -346,8 +347,12 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
                 @ctype_out@ mean_sumlnx = sumlnx/n;
                 gm *= 1 + 0.5*p*(sumlnx_sq/n - mean_sumlnx*mean_sumlnx);
             }
-            *(@ctype_out@ *) out = gm;
-            continue;
+            if (gm_ok || p == 0) {
+                *(@ctype_out@ *) out = gm;
+                continue;
+            }
+            // x contains 0, inf, nan or negative values; these cases
+            // are handled below.
         }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
@@ -471,7 +476,8 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmeanw_@typename@_1d(in0, in1, dimensions[1],
                                                   inner0_step, inner1_step);
-            if (p != 0) {
+            bool gm_ok = gm > 0 && isfinite(gm);
+            if (p != 0 && gm_ok) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
@@ -490,8 +496,12 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
                 @ctype_out@ mean_sumlnx = sumlnx/sumw;
                 gm *= 1 + 0.5*p*(sumlnx_sq/sumw - mean_sumlnx*mean_sumlnx);
             }
-            *(@ctype_out@ *) out = gm;
-            continue;
+            if (gm_ok || p == 0) {
+                *(@ctype_out@ *) out = gm;
+                continue;
+            }
+            // x contains 0, inf, nan or negative values; these cases
+            // are handled below.
         }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
-- 
2.43.0


From 141f7b2f2e902e834dc54e27165fbfd44631073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 22/44] fix: pmean, pmeanw: use powl in the long double loops

---
 src/means/means_gufunc.c.src | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index de1a4ef..b92450b 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -35,6 +35,7 @@
  * #ctype_in      = float, double, long double#
  * #ctype_out     = float, double, long double#
  * #funcsuffix    = f, , l#
+ * #powfunc       = pow, pow, powl#
  */
 
 @ctype_out@ gmean_@typename@_1d(char *arg, const npy_intp n, const npy_intp step)
@@ -418,9 +419,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_out@ scale = (p > 0) ? xmax : xmin;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
-            sum += pow(x/scale, p);
+            sum += @powfunc@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/dimensions[1], 1/p);
+        *(@ctype_out@ *) out = scale*@powfunc@(sum/dimensions[1], 1/p);
     }
 }
 
@@ -572,9 +573,9 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             @ctype_in@ x = *(@ctype_in@ *) inner0;
             @ctype_in@ w = *(@ctype_in@ *) inner1;
             sumw += w;
-            sum += w*pow(x/scale, p);
+            sum += w*@powfunc@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/sumw, 1/p);
+        *(@ctype_out@ *) out = scale*@powfunc@(sum/sumw, 1/p);
     }
 }
 
-- 
2.43.0


From c09dcfe864e93b0fa0fa9a36aececca48e52ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 23/44] fix: one_hot: TypeError when k has an unsigned integer
 type

---
 ufunclab/_wrapped.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 3d34371..c7cd3b2 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -372,7 +372,11 @@ def one_hot(k, n, *, out=None, axis=-1):
                              f'got {out.shape}.')
     else:
         out = np.empty(out_shape, dtype=k.dtype)
-    return _one_hot(k, out=out, axis=axis)
+    # casting='unsafe' is required for unsigned integers.  It is not actually
+    # unsafe here: values in k that do not fit in the intp type used by the
+    # gufunc are out of range, and the output contains only 0s and 1s.
+    return _one_hot(k.astype(np.intp, copy=False), out=out, axis=axis,
+                    casting='unsafe')
 
 
 one_hot.gufunc = _one_hot
-- 
2.43.0


From 9063204771191ed4fd4bad410219d89fb486eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 24/44] fix: vnorm: nan in x was ignored, and inf gave nan

---
 src/vnorm/vnorm_gufunc.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 659c797..5caddc4 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -70,7 +70,7 @@ static void vnorm_core_calc(
 {
     U maxabsx = 0;
     U order = *p_order;
-    if (order <= 0) {
+    if (isnan(order) || order <= 0) {
         p_out[0] = NPY_NAN;
         return;
     }
@@ -78,12 +78,16 @@ static void vnorm_core_calc(
     for (int k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
+        if (isnan(abs_x)) {
+            p_out[0] = NPY_NAN;
+            return;
+        }
         if (abs_x > maxabsx) {
             maxabsx = abs_x;
         }
     }
-    if (maxabsx == 0) {
-        p_out[0] = 0;
+    if (maxabsx == 0 || isinf(maxabsx)) {
+        p_out[0] = maxabsx;
     }
     else {
         U sum = 0;
-- 
2.43.0


From 7f9f5c5b4a3c682c50ec4d84eb4d12ff1fa51ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 25/44] fix: mad: 0 was returned for a single value that is nan
 or inf

---
 src/mad/mad_gufunc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mad/mad_gufunc.h b/src/mad/mad_gufunc.h
index 25e975b..2814515 100644
--- a/src/mad/mad_gufunc.h
+++ b/src/mad/mad_gufunc.h
@@ -59,8 +59,9 @@ static int unnormalized_mad(npy_intp n, T *p_x, npy_intp x_stride, T& sum, T& to
         return -1;
     }
 
-    sum = 0;
     total = tmp[0];
+    // This is 0, unless tmp[0] is nan or inf.
+    sum = tmp[0] - total;
     for (npy_intp k = 1; k < n; ++k) {
         sum += k*tmp[k] - total;
         total += tmp[k];
-- 
2.43.0


From 0a6ad22159406c3e87ac98f46f8086c121c27587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 26/44] fix: hypot3: nan was ignored when the other inputs are
 0

---
 src/hypot3/hypot3.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypot3/hypot3.h b/src/hypot3/hypot3.h
index 5aab615..761ffe9 100644
--- a/src/hypot3/hypot3.h
+++ b/src/hypot3/hypot3.h
@@ -21,6 +21,10 @@ T hypot3(T x, T y, T z)
     if (std::isinf(x) || std::isinf(y) || std::isinf(z)) {
         return std::numeric_limits<T>::infinity();
     }
+    // std::hypot(x, y, z) might ignore a nan when the other inputs are 0.
+    if (std::isnan(x) || std::isnan(y) || std::isnan(z)) {
+        return std::numeric_limits<T>::quiet_NaN();
+    }
     return std::hypot(x, y, z);
 }
 
-- 
2.43.0


From 2e8d8477b632d62fdf3f462e1d9602f66f6f5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 27/44] fix: bincount: values in out were lost when out had to
 be cast or copied

---
 src/bincount/bincount_gufunc.h           | 31 ++++++++++++++++++++++++
 src/bincount/define_cxx_gufunc_extmod.py |  1 +
 2 files changed, 32 insertions(+)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index e7a8294..f3819f7 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -9,6 +9,7 @@
 
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
+#include "numpy/ufuncobject.h"
 #include "numpy/npy_math.h"
 
 #include "../src/util/strided.hpp"
@@ -149,4 +150,34 @@ bincountw_complex_core_calc(
     }
 }
 
+//
+// The gufuncs accumulate the counts in the existing values of `out`.  Mark the
+// output operands as READWRITE, so when NumPy uses a temporary buffer for
+// `out` (e.g. because it has to be cast), the buffer is initialized with the
+// values in `out`.
+//
+static int
+set_out_readwrite(PyObject *module)
+{
+    const char *names[] = {"bincount", "bincountw"};
+
+    for (const char *name : names) {
+        PyObject *obj = PyObject_GetAttrString(module, name);
+        if (obj == NULL) {
+            return -1;
+        }
+        PyUFuncObject *gufunc = (PyUFuncObject *) obj;
+        // These are the default flags for an output of a gufunc, except that
+        // READWRITE replaces WRITEONLY.
+        gufunc->op_flags[gufunc->nin] = (NPY_ITER_READWRITE
+                                         | NPY_ITER_UPDATEIFCOPY
+                                         | NPY_ITER_ALIGNED
+                                         | NPY_ITER_ALLOCATE
+                                         | NPY_ITER_NO_BROADCAST
+                                         | NPY_ITER_NO_SUBTYPE);
+        Py_DECREF(obj);
+    }
+    return 0;
+}
+
 #endif  // UFUNCLAB_BINCOUNT_GUFUNC_H
diff --git a/src/bincount/define_cxx_gufunc_extmod.py b/src/bincount/define_cxx_gufunc_extmod.py
index 0786eaf..63c4f96 100644
--- a/src/bincount/define_cxx_gufunc_extmod.py
+++ b/src/bincount/define_cxx_gufunc_extmod.py
@@ -71,4 +71,5 @@ extmod = UFuncExtMod(
     docstring=("This extension module defines the gufuncs 'bincount' "
                "and 'bincountw'."),
     ufuncs=[bincount, bincountw],
+    extra_module_funcs=['set_out_readwrite'],
 )
-- 
2.43.0


From 2efdb135ecfa8cd0fe5ec88ccac0bce1c477c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 28/44] fix: meanvar: n - ddof overflowed when ddof is very
 negative

---
 src/meanvar/meanvar_gufunc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meanvar/meanvar_gufunc.h b/src/meanvar/meanvar_gufunc.h
index 700cd89..cd718e0 100644
--- a/src/meanvar/meanvar_gufunc.h
+++ b/src/meanvar/meanvar_gufunc.h
@@ -42,7 +42,8 @@ static void meanvar_core(
         std::tie(mean, c1) = compensated_update(mean, delta/(k + 1), c1);
         std::tie(m2, c2) = compensated_update(m2, delta*(xk - mean), c2);
     }
-    U var = m2 / (n - *p_ddof);
+    // The difference is computed in U, because n - *p_ddof can overflow.
+    U var = m2 / (static_cast<U>(n) - static_cast<U>(*p_ddof));
     *p_out = mean;
     set(p_out, out_stride, 1, var);
 }
-- 
2.43.0


From beaa0d6b5fa6eafc21d40058410e556104da7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:41 +0000
Subject: [PATCH 29/44] fix: erfcx: nan was converted to an int

---
 src/normal/erfcx_funcs.cxx        | 9 +++++++++
 src/normal/generate_erfcx_code.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/normal/erfcx_funcs.cxx b/src/normal/erfcx_funcs.cxx
index b544cf7..af3f91f 100644
--- a/src/normal/erfcx_funcs.cxx
+++ b/src/normal/erfcx_funcs.cxx
@@ -634,6 +634,9 @@ erfcx_y100(float y100)
 float
 erfcx(float x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0f) {
         if (x > 5.0f) {
             // Use the truncated continued fraction expansion.
@@ -1576,6 +1579,9 @@ erfcx_y100(double y100)
 double
 erfcx(double x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0) {
         if (x > 50.0) {
             // Use the truncated continued fraction expansion.
@@ -2618,6 +2624,9 @@ erfcx_y100(long double y100)
 long double
 erfcx(long double x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0L) {
         if (x > 100.0L) {
             // Use the truncated continued fraction expansion.
diff --git a/src/normal/generate_erfcx_code.py b/src/normal/generate_erfcx_code.py
index 23de116..e1c39fa 100644
--- a/src/normal/generate_erfcx_code.py
+++ b/src/normal/generate_erfcx_code.py
@@ -121,6 +121,9 @@ _erfcx_body = """
 {type_str}
 erfcx({type_str} x)
 {{
+    if (std::isnan(x)) {{
+        return x;
+    }}
     if (x > 0.0{sfx}) {{
         if (x > {cfbound}{sfx}) {{
             // Use the truncated continued fraction expansion.
-- 
2.43.0


From 00ae3835ac2279151ec1dbc3136c181bce4b9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 30/44] fix: bincount: pointer offset overflowed for unsigned x
 and a negative out stride

---
 src/bincount/bincount_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index f3819f7..acfd1af 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -144,7 +144,7 @@ bincountw_complex_core_calc(
         T k = get(p_x, x_stride, i);
         if (is_valid_bin(k, m)) {
             W w = get(p_w, w_stride, i);
-            W *p = (W *)((char *)p_out + k*out_stride);
+            W *p = (W *)((char *)p_out + static_cast<npy_intp>(k)*out_stride);
             npy_complex_add_inplace(p, w);
         }
     }
-- 
2.43.0


From e6d9873e35e43a4c2e69b46fce58cb2397b9e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 31/44] fix: backlash_sum: wrong result when an output array is
 also an input

---
 src/backlash/backlash_gufunc.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/backlash/backlash_gufunc.h b/src/backlash/backlash_gufunc.h
index cff1829..b6e5173 100644
--- a/src/backlash/backlash_gufunc.h
+++ b/src/backlash/backlash_gufunc.h
@@ -4,6 +4,8 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <vector>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -62,6 +64,35 @@ backlash_sum_core(
         const npy_intp final_stride     // stride (in bytes) of final
 )
 {
+    // NumPy does not make a temporary copy when an output of a gufunc is
+    // exactly the same array as one of the inputs.  Copy the inputs that
+    // would be overwritten before they have been used.
+    std::vector<T> tmp;
+    if (p_final == p_x || p_final == p_w || p_final == p_deadband
+            || p_out == p_w || p_out == p_deadband) {
+        try {
+            tmp.resize(n + 2*m);
+        } catch (const std::bad_alloc& e) {
+            NPY_ALLOW_C_API_DEF
+            NPY_ALLOW_C_API
+                PyErr_NoMemory();
+            NPY_DISABLE_C_API
+            return;
+        }
+        for (npy_intp k = 0; k < n; ++k) {
+            tmp[k] = get(p_x, x_stride, k);
+        }
+        for (npy_intp j = 0; j < m; ++j) {
+            tmp[n + j] = get(p_w, w_stride, j);
+            tmp[n + m + j] = get(p_deadband, deadband_stride, j);
+        }
+        backlash_sum_core(n, m, tmp.data(), static_cast<npy_intp>(sizeof(T)),
+                          tmp.data() + n, static_cast<npy_intp>(sizeof(T)),
+                          tmp.data() + n + m, static_cast<npy_intp>(sizeof(T)),
+                          p_initial, initial_stride, p_out, out_stride,
+                          p_final, final_stride);
+        return;
+    }
     for (npy_intp j = 0; j < m; ++j) {
         set(p_final, final_stride, j, get(p_initial, initial_stride, j));
     }
-- 
2.43.0


From c3d47220e593935ec4548f0e763dd8e020e8441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 32/44] fix: docstrings of pmeanw, searchsortedr and
 multivariate_logbeta name another function

---
 src/means/means_gufunc.c.src                         | 4 ++--
 src/multivariate_logbeta/define_cxx_gufunc_extmod.py | 2 +-
 src/searchsorted/searchsorted_gufunc.c.src           | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index b92450b..1b04753 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -743,7 +743,7 @@ static struct PyModuleDef moduledef = {
 "If any value in x is negative, nan is returned.\n"
 
 #define PMEANW_DOCSTRING \
-"pmean(x, weights, p, /, ...)\n"                                           \
+"pmeanw(x, weights, p, /, ...)\n"                                          \
 "\n"                                                                       \
 "Weighted power mean (aka weighted generalized mean) of x.\n"              \
 "\n"
@@ -803,7 +803,7 @@ PyMODINIT_FUNC PyInit__means(void)
     }
 
     // Create the pmeanw ufunc.
-    if (ul_define_gufunc(module, "pmeanw", PMEAN_DOCSTRING, "(n),(n),()->()",
+    if (ul_define_gufunc(module, "pmeanw", PMEANW_DOCSTRING, "(n),(n),()->()",
                          PMEANW_NTYPES,
                          pmeanw_funcs, pmeanw_data, pmeanw_typecodes) == NULL) {
         Py_DECREF(module);
diff --git a/src/multivariate_logbeta/define_cxx_gufunc_extmod.py b/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
index 072044f..fc4ca06 100644
--- a/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
+++ b/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
@@ -1,7 +1,7 @@
 from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 MULTIVARIATE_LOGBETA_DOCSTRING = """\
-multivariate_logebta(x, /, ...)
+multivariate_logbeta(x, /, ...)
 
 Compute the logarithm of the multivariate beta function B(x).
 
diff --git a/src/searchsorted/searchsorted_gufunc.c.src b/src/searchsorted/searchsorted_gufunc.c.src
index c0f0a7b..dea31bc 100644
--- a/src/searchsorted/searchsorted_gufunc.c.src
+++ b/src/searchsorted/searchsorted_gufunc.c.src
@@ -508,7 +508,7 @@ static struct PyModuleDef moduledef = {
 "\n"
 
 #define SEARCHSORTEDR_DOCSTRING                                 \
-"searchsortedl(sortedarr, elements, /, ...)\n"                  \
+"searchsortedr(sortedarr, elements, /, ...)\n"                  \
 "\n"                                                            \
 "TODO...\n"                                                     \
 "\n"
-- 
2.43.0


From 67502b0fcc34a25bd290bbc7d74956be58b7c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 33/44] fix: searchsortedl, searchsortedr: nan was not handled
 like in numpy.searchsorted

---
 src/searchsorted/searchsorted_gufunc.c.src | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/searchsorted/searchsorted_gufunc.c.src b/src/searchsorted/searchsorted_gufunc.c.src
index dea31bc..073fd08 100644
--- a/src/searchsorted/searchsorted_gufunc.c.src
+++ b/src/searchsorted/searchsorted_gufunc.c.src
@@ -206,8 +206,20 @@ SearchSortedTypeResolver(PyUFuncObject *ufunc,
 /**begin repeat
  * #typename  = int8,   int16,   int32,   int64,   uint8,   uint16,   uint32,   uint64,   float, double, longdouble#
  * #ctype     = int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float, double, long double#
+ * #is_float  = 0,      0,       0,       0,       0,       0,        0,        0,        1,     1,      1#
  */
 
+// As in numpy.searchsorted, nan is greater than any other value.
+static inline bool
+less_@typename@(@ctype@ a, @ctype@ b)
+{
+#if @is_float@
+    return a < b || (isnan(b) && !isnan(a));
+#else
+    return a < b;
+#endif
+}
+
 static npy_intp
 _searchsortedl_@typename@(char *a, npy_intp len_a, npy_intp step, @ctype@ v)
 {
@@ -215,7 +227,7 @@ _searchsortedl_@typename@(char *a, npy_intp len_a, npy_intp step, @ctype@ v)
     npy_intp hi = len_a;
     while (lo < hi) {
         npy_intp mid = (lo + hi)/2;
-        if (*(@ctype@ *)(a + mid*step) < v) {
+        if (less_@typename@(*(@ctype@ *)(a + mid*step), v)) {
             lo = mid + 1;
         }
         else {
@@ -232,7 +244,7 @@ _searchsortedr_@typename@(char *a, npy_intp len_a, npy_intp step, @ctype@ v)
     npy_intp hi = len_a;
     while (lo < hi) {
         npy_intp mid = (lo + hi)/2;
-        if (v < *(@ctype@ *)(a + mid*step)) {
+        if (less_@typename@(v, *(@ctype@ *)(a + mid*step))) {
             hi = mid;
         }
         else {
@@ -370,7 +382,7 @@ _searchsortedl_half(char *a, npy_intp len_a, npy_intp step, float v)
         npy_intp mid = (lo + hi)/2;
         npy_half m = *(npy_half *)(a + mid*step);
         float mf = npy_half_to_float(m);
-        if (mf < v) {
+        if (less_float(mf, v)) {
             lo = mid + 1;
         }
         else {
@@ -389,7 +401,7 @@ _searchsortedr_half(char *a, npy_intp len_a, npy_intp step, float v)
         npy_intp mid = (lo + hi)/2;
         npy_half m = *(npy_half *)(a + mid*step);
         float mf = npy_half_to_float(m);
-        if (v < mf) {
+        if (less_float(v, mf)) {
             hi = mid;
         }
         else {
-- 
2.43.0


From 9020184f4d5938547b752f9c2d4faa0e064d3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:57 +0000
Subject: [PATCH 34/44] fix: int loop counters overflow for dimensions of more
 than 2**31 elements

---
 src/gendot/gendotmodule.c                        | 8 ++++----
 src/issnan/issnan_ufunc.c.src                    | 2 +-
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 6 +++---
 src/vnorm/vnorm_gufunc.h                         | 8 ++++----
 tools/cxxgen/generate_ufunc_extmod.py            | 2 +-
 tools/cxxgen/gufuncgen.py                        | 2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index bfd47e4..c03d6df 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -73,7 +73,7 @@ reduce(PyUFuncGenericFunction *loop_function, void *loop_data,
     loop_steps[0] = stride;
     loop_steps[1] = stride;
     loop_steps[2] = stride;
-    for (int k = 1; k < n; ++k, data += stride) {
+    for (npy_intp k = 1; k < n; ++k, data += stride) {
         loop_args[1] = data;
         ((PyUFuncGenericFunction)loop_function)(loop_args, loop_dimensions, loop_steps, loop_data);
     }
@@ -108,7 +108,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
-            for (int j = 0; j < nloops; ++j, pout += steps[2]) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
                 memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data),
                        SUMFUNC_LOOP_ITEMSIZE(data));
             }
@@ -157,7 +157,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     if (SUMFUNC_NIN(data) == 2) {
         // sumfunc is an element-wise ufunc with 2 inputs and 1 output.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -179,7 +179,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
diff --git a/src/issnan/issnan_ufunc.c.src b/src/issnan/issnan_ufunc.c.src
index ca75ae8..5c42b6d 100644
--- a/src/issnan/issnan_ufunc.c.src
+++ b/src/issnan/issnan_ufunc.c.src
@@ -87,7 +87,7 @@ static void issnan_@typename@_loop(char **args, const npy_intp *dimensions,
     char *pout = args[1];
     npy_intp n = dimensions[0];
 
-    for (int j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
+    for (npy_intp j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
         @ctype@ x = *((@ctype@ *) px);
         *((npy_bool *) pout) = issnan@suffix@(x);
     }
diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 69f9a6c..adf8dea 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -97,7 +97,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is NAN or is outside the
             // values given in xp.
-            for (int j = 0; j < nloops; ++j, pout += out_stride) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
             return;
@@ -111,7 +111,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
             r = (x - xpk) / (xpk_next - xpk);
         }
 
-        for (int j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
+        for (npy_intp j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
             @ctype@ fpk = *((@ctype@ *) (pfp + k*fp_stride));
             if (x == xpk) {
                 *((@ctype@ *) pout) = fpk;
@@ -124,7 +124,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         return;
     }
 
-    for (int j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
+    for (npy_intp j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
                                      pout += out_stride) {
         if (n < 1) {
             *((@ctype@ *) pout) = NPY_NAN;
diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 5caddc4..4824e63 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -75,7 +75,7 @@ static void vnorm_core_calc(
         return;
     }
 
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
         if (isnan(abs_x)) {
@@ -91,7 +91,7 @@ static void vnorm_core_calc(
     }
     else {
         U sum = 0;
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T current_x = get(p_x, x_stride, k);
             U abs_x = my_abs(current_x);
             if (isinf(order)) {
@@ -212,12 +212,12 @@ static void vdot_core_calc(
     T sum = 0;
     if (x_stride == sizeof(T) && y_stride == sizeof(T)) {
         // Give the compiler a chance to optimize the contiguous case.
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             sum += p_x[k] * p_y[k];
         }
     }
     else {
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T xk = get(p_x, x_stride, k);
             T yk = get(p_y, y_stride, k);
             sum += xk * yk;
diff --git a/tools/cxxgen/generate_ufunc_extmod.py b/tools/cxxgen/generate_ufunc_extmod.py
index 83df409..3e86360 100644
--- a/tools/cxxgen/generate_ufunc_extmod.py
+++ b/tools/cxxgen/generate_ufunc_extmod.py
@@ -222,7 +222,7 @@ def generate_ufunc_extmod(cxxgenpath, extmod, destdir):
                         print(f'    char *px{k} = args[{k}];', file=f)
                     print(f'    char *pout = args[{k+1}];', file=f)
                     print('    npy_intp n = dimensions[0];', file=f)
-                    print('    for (int j = 0; j < n; ++j,', file=f)
+                    print('    for (npy_intp j = 0; j < n; ++j,', file=f)
                     for k in range(nin):
                         print(' '*26, f'px{k} += steps[{k}],', file=f)
                     print(' '*26, f'pout += steps[{k+1}]) {{', file=f)
diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index 9454cd4..f76b670 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -312,7 +312,7 @@ def generate_concrete_loop(name, corename, varnames,
         text.append('\n'.join(dim_asserts))
 
     text.append('')
-    text.append('    for (int j = 0; j < nloops; ++j, ')
+    text.append('    for (npy_intp j = 0; j < nloops; ++j, ')
     for k, varname in enumerate(varnames):
         line = []
         line.append(' '*32)
-- 
2.43.0


From 477e7c6e0582424745c6f8dd65670f31a192394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:45 +0000
Subject: [PATCH 35/44] fix: docstrings of pearson_corr and wjaccard break the
 signature-line convention, so tools/uwrap fails

tools/uwrap/uwrap.py (and the convention stated in ufunc_config_types.py)
reads the parameter names from the first docstring line, which must end
with '/, ...)'.  With '/, *)' the generator ended in a ValueError.
---
 src/corr/define_cxx_gufunc_extmod.py     | 2 +-
 src/wjaccard/define_cxx_gufunc_extmod.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corr/define_cxx_gufunc_extmod.py b/src/corr/define_cxx_gufunc_extmod.py
index d7b402f..c0830f6 100644
--- a/src/corr/define_cxx_gufunc_extmod.py
+++ b/src/corr/define_cxx_gufunc_extmod.py
@@ -2,7 +2,7 @@ from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 
 PEARSON_CORR_DOCSTRING = """\
-pearson_corr(x, y, /, *)
+pearson_corr(x, y, /, ...)
 
 Pearson's product-moment correlation coefficient.
 
diff --git a/src/wjaccard/define_cxx_gufunc_extmod.py b/src/wjaccard/define_cxx_gufunc_extmod.py
index 7392687..c29671d 100644
--- a/src/wjaccard/define_cxx_gufunc_extmod.py
+++ b/src/wjaccard/define_cxx_gufunc_extmod.py
@@ -2,7 +2,7 @@ from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 
 WJACCARD_DOCSTRING = """\
-wjaccard(x, y, /, *)
+wjaccard(x, y, /, ...)
 
 Weighted Jaccard index Jw(x, y):
 
-- 
2.43.0


From cb06ae161addcea3b6605df0d4fd531d2e40c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:45 +0000
Subject: [PATCH 36/44] fix: tools/uwrap: wrappers with axis=None or a tuple
 fail for lists and for empty arrays

---
 tools/uwrap/uwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/uwrap/uwrap.py b/tools/uwrap/uwrap.py
index f0de3c3..21d00b9 100644
--- a/tools/uwrap/uwrap.py
+++ b/tools/uwrap/uwrap.py
@@ -225,6 +225,7 @@ def _process_axis_for_set_reduction_func(x, axis):
     with the signature '(n)->()', and really only for those gufuncs for
     with the input can be considered to be an unordered set.
     """
+    x = np.asanyarray(x)
     if axis is None:
         x = x.ravel()
         axis = -1
@@ -232,7 +233,8 @@ def _process_axis_for_set_reduction_func(x, axis):
         # Move the dimensions in axis to the end.
         x = np.moveaxis(x, axis, tuple(range(-1, -1-len(axis), -1)))
         # Flatten those final dimensions into a single dimension.
-        x = x.reshape(x.shape[:x.ndim - len(axis)] + (-1,))
+        k = x.ndim - len(axis)
+        x = x.reshape(x.shape[:k] + (np.prod(x.shape[k:], dtype=int),))
         axis = -1
     return x, axis
 '''
-- 
2.43.0


From 0597438c19f27dc6adb986578a599a1a8acb548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:07 +0000
Subject: [PATCH 37/44] fix: erfcx, normal and semivar are missing in
 ufunclab.__all__ and dir(ufunclab)

---
 ufunclab/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ufunclab/__init__.py b/ufunclab/__init__.py
index 80654ad..94af9f6 100644
--- a/ufunclab/__init__.py
+++ b/ufunclab/__init__.py
@@ -140,7 +140,8 @@ class op:
 del _np, _LT, _LE, _EQ, _NE, _GT, _GE, _RANK, _WEAK, _STRICT, _MEAN
 
 __all__ = sorted(list(_name_to_module.keys()) +
-                 ['first', 'argfirst', 'op', 'percentileofscore'])
+                 ['first', 'argfirst', 'op', 'percentileofscore',
+                  'erfcx', 'normal', 'semivar'])
 
 
 def __dir__():
-- 
2.43.0


From eeed37860d0c5f6b388e587f13044afbef4e08d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 38/44] fix: cxxgen: the prototype of an argument with shape
 (1) lacks the stride that the generated call passes

---
 tools/cxxgen/gufuncgen.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index f76b670..c7156d3 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -229,19 +229,14 @@ def generate_declaration(name, signature,
                                  ('// stride (in bytes) for elements of '
                                   f'{varname}')))
         elif isinstance(shape_name, int):
-            if shape_name == 1:
-                insert1 = ' '
-                insert2 = ''
-            else:
-                insert1 = ' first element of '
-                insert2 = (f', a strided 1-d array with {shape_name}'
-                           ' elements')
+            plural = '' if shape_name == 1 else 's'
             vardecls.append((f'{vct} *p_{varname}',
-                             f'// pointer to{insert1}{varname}{insert2}'))
-            if shape_name != 1:
-                vardecls.append((f'npy_intp {varname}_stride',
-                                 ('// stride (in bytes) for elements of '
-                                  f'{varname}')))
+                             f'// pointer to first element of {varname}, '
+                             f'a strided 1-d array with {shape_name} '
+                             f'element{plural}'))
+            vardecls.append((f'npy_intp {varname}_stride',
+                             ('// stride (in bytes) for elements of '
+                              f'{varname}')))
         else:
             vardecls.append((f'{vct} *p_{varname}',
                              f'// pointer to first element of {varname}, '
-- 
2.43.0


From 8f33451c4167ea51b7ab497e52d8ecb81f78aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 39/44] fix: cxxgen: a core dimension named j is hidden by the
 loop variable of the generated loop

---
 tools/cxxgen/gufuncgen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index c7156d3..288ea09 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -307,7 +307,10 @@ def generate_concrete_loop(name, corename, varnames,
         text.append('\n'.join(dim_asserts))
 
     text.append('')
-    text.append('    for (npy_intp j = 0; j < nloops; ++j, ')
+    # The core dimensions are variables of the generated function, so the
+    # loop variable must not be a name such as 'j'.
+    text.append('    for (npy_intp loop_index_ = 0; loop_index_ < nloops; '
+                '++loop_index_, ')
     for k, varname in enumerate(varnames):
         line = []
         line.append(' '*32)
-- 
2.43.0


From a150a48a06bb589d9985c80f2be8df3c77bdd8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 40/44] fix: cxxgen: docstrings with double quotes or
 backslashes give invalid or wrong C strings

---
 tools/cxxgen/generate_ufunc_extmod.py | 4 ++--
 tools/cxxgen/generate_utils.py        | 7 +++++++
 tools/cxxgen/gufuncgen.py             | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/tools/cxxgen/generate_ufunc_extmod.py b/tools/cxxgen/generate_ufunc_extmod.py
index 3e86360..72ce187 100644
--- a/tools/cxxgen/generate_ufunc_extmod.py
+++ b/tools/cxxgen/generate_ufunc_extmod.py
@@ -1,13 +1,13 @@
 from os import path
 from textwrap import dedent
 from generate_utils import (typechar_to_ctype, typesig_to_ext,
-                            typechar_to_npy_type,
+                            typechar_to_npy_type, c_escape,
                             header_to_concrete_filenames)
 
 
 def cdef_docstring(funcname, docstring):
     cdef = (f'#define {funcname.upper()}_DOCSTRING \\\n"'
-            + docstring.replace('\n', '\\n"\\\n"') + '"')
+            + c_escape(docstring).replace('\n', '\\n"\\\n"') + '"')
     return cdef
 
 
diff --git a/tools/cxxgen/generate_utils.py b/tools/cxxgen/generate_utils.py
index 3af698b..d9f9031 100644
--- a/tools/cxxgen/generate_utils.py
+++ b/tools/cxxgen/generate_utils.py
@@ -78,3 +78,10 @@ def header_to_concrete_filenames(header):
     cxxfilename = root_concrete + path.extsep + 'cxx'
     cxxheader = root_concrete + path.extsep + 'h'
     return cxxheader, cxxfilename
+
+
+def c_escape(s):
+    """
+    Escape the characters that are special in a C string literal.
+    """
+    return s.replace('\\', '\\\\').replace('"', '\\"')
diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index 288ea09..5f5af2a 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -2,7 +2,7 @@ from os import path
 import numpy as np
 
 from generate_utils import typechar_to_npy_type as npy_types
-from generate_utils import typechar_to_npy_ctype
+from generate_utils import typechar_to_npy_ctype, c_escape
 
 
 def classify_typenames(types):
@@ -370,7 +370,7 @@ def create_c_docstring_def(name, docstring):
     text = []
     NAME = name.upper()
     text.append(f'#define {NAME}_DOCSTRING \\')
-    doclines = docstring.splitlines()
+    doclines = c_escape(docstring).splitlines()
     llen = max([len(line) for line in doclines])
     for line in doclines:
         pad = llen - len(line) + 2
-- 
2.43.0


From 6729016e3ccf929feb4ef7d333883deb1958a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:21 +0000
Subject: [PATCH 41/44] fix: cxxgen: the name of a generated loop is not valid
 when object is one of several types of a template

---
 tools/cxxgen/gufuncgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index 5f5af2a..be7fca6 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -260,7 +260,7 @@ def generate_declaration(name, signature,
 
 def concrete_loop_function_name(corename, typecodes):
     ctypes = [typechar_to_npy_ctype(c) for c in typecodes]
-    ctypes_id = [r.replace(' ', '').replace('npy_', '')
+    ctypes_id = [r.replace(' ', '').replace('*', '').replace('npy_', '')
                  for r in ctypes]
     loop_func_name = '_'.join(['loop', corename] + ctypes_id)
     return loop_func_name
-- 
2.43.0


From 1a70644d97c4be6953df4e98fea3b219b925ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:44 +0000
Subject: [PATCH 42/44] fix: conv_template: the documented :exclude: of
 template loops was ignored

---
 tools/conv_template.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tools/conv_template.py b/tools/conv_template.py
index 7e1fe82..c675bf6 100644
--- a/tools/conv_template.py
+++ b/tools/conv_template.py
@@ -177,6 +177,18 @@ def parse_loop_header(loophead):
      [{'var1':'value1', 'var2', 'value2'[,...]}, ...]
 
     """
+    # Find any exclude variables.  The end of the line ends an exclusion,
+    # so this has to be done before the lines are joined.
+    excludes = []
+
+    for obj in exclude_re.finditer(loophead):
+        span = obj.span()
+        # find next newline
+        endline = loophead.find('\n', span[1])
+        substr = loophead[span[1]:endline]
+        ex_names = exclude_vars_re.findall(substr)
+        excludes.append(dict(ex_names))
+
     # Strip out '\n' and leading '*', if any, in continuation lines.
     # This should not effect code previous to this change as
     # continuation lines were not allowed.
@@ -196,17 +208,6 @@ def parse_loop_header(loophead):
             raise ValueError(msg % (nsub, size, name, vals))
         names.append((name, vals))
 
-    # Find any exclude variables
-    excludes = []
-
-    for obj in exclude_re.finditer(loophead):
-        span = obj.span()
-        # find next newline
-        endline = loophead.find('\n', span[1])
-        substr = loophead[span[1]:endline]
-        ex_names = exclude_vars_re.findall(substr)
-        excludes.append(dict(ex_names))
-
     # generate list of dictionaries, one for each template iteration
     dlist = []
     if nsub is None:
@@ -214,7 +215,7 @@ def parse_loop_header(loophead):
     for i in range(nsub):
         tmp = {name: vals[i] for name, vals in names}
         dlist.append(tmp)
-    return dlist
+    return dlist, excludes
 
 
 replace_re = re.compile(r"@(\w+)@")
@@ -247,12 +248,16 @@ def parse_string(astr, env, level, line):
             newline = line + sub[4]
             code.append(replace_re.sub(replace, pref))
             try:
-                envlist = parse_loop_header(head)
+                envlist, excludes = parse_loop_header(head)
             except ValueError as e:
                 msg = "line %d: %s" % (newline, e)
                 raise ValueError(msg)
             for newenv in envlist:
                 newenv.update(env)
+                if any(all(newenv.get(name) == value
+                           for name, value in exclude.items())
+                       for exclude in excludes if exclude):
+                    continue
                 newcode = parse_string(text, newenv, newlevel, newline)
                 code.extend(newcode)
         suff = astr[oldend:]
-- 
2.43.0


From 35cf72e4954f348c77cc2c446fee50dc20d3eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:16 +0000
Subject: [PATCH 43/44] fix: show the dtype that bincount returns in its
 examples

---
 README.md            | 8 ++++----
 ufunclab/_wrapped.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/README.md b/README.md
index bc0640c..4e52bfc 100644
--- a/README.md
+++ b/README.md
@@ -2271,7 +2271,7 @@ array will have shape `(3, 8)`.
 >>> bincount(x)
 array([[3, 0, 1, 2, 1, 2, 0, 3],
        [3, 2, 2, 1, 0, 0, 3, 1],
-       [1, 2, 3, 0, 2, 1, 3, 0]], dtype=uint64)
+       [1, 2, 3, 0, 2, 1, 3, 0]])
 ```
 
 If we give a value for `m` that is larger than 8, the final values
@@ -2281,7 +2281,7 @@ will be 0.
 >>> bincount(x, 10)
 array([[3, 0, 1, 2, 1, 2, 0, 3, 0, 0],
        [3, 2, 2, 1, 0, 0, 3, 1, 0, 0],
-       [1, 2, 3, 0, 2, 1, 3, 0, 0, 0]], dtype=uint64)
+       [1, 2, 3, 0, 2, 1, 3, 0, 0, 0]])
 ```
 
 If the given value of `m` is smaller than `np.max(x) + 1`, the values
@@ -2291,7 +2291,7 @@ greater than or equal to `m` are ignored.
 >>> bincount(x, 4)
 array([[3, 0, 1, 2],
        [3, 2, 2, 1],
-       [1, 2, 3, 0]], dtype=uint64)
+       [1, 2, 3, 0]])
 ```
 
 The `axis` parameter selects the axis of `x` along which `bincount`
@@ -2307,7 +2307,7 @@ array([[1, 1, 0, 1, 0, 1, 0, 0, 1, 1, 1, 0],
        [0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 1, 0],
        [0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1],
        [0, 2, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2],
-       [1, 0, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0]], dtype=uint64)
+       [1, 0, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0]])
 ```
 
 Some examples with weights.
diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index c7cd3b2..d8b7a6b 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -88,7 +88,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     >>> bincount(x)
     array([[3, 0, 1, 2, 1, 2, 0, 3],
            [3, 2, 2, 1, 0, 0, 3, 1],
-           [1, 2, 3, 0, 2, 1, 3, 0]], dtype=uint64)
+           [1, 2, 3, 0, 2, 1, 3, 0]])
 
     If we given a value for `m` that is larger than 8, the final values
     will be 0.
@@ -96,7 +96,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     >>> bincount(x, 10)
     array([[3, 0, 1, 2, 1, 2, 0, 3, 0, 0],
            [3, 2, 2, 1, 0, 0, 3, 1, 0, 0],
-           [1, 2, 3, 0, 2, 1, 3, 0, 0, 0]], dtype=uint64)
+           [1, 2, 3, 0, 2, 1, 3, 0, 0, 0]])
 
     If the given value of `m` is smaller than `np.max(x) + 1`, the values
     greater than or equal to `m` are ignored.
@@ -104,7 +104,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     >>> bincount(x, 4)
     array([[3, 0, 1, 2],
            [3, 2, 2, 1],
-           [1, 2, 3, 0]], dtype=uint64)
+           [1, 2, 3, 0]])
 
     The `axis` parameter selects the axis of `x` along which `bincount`
     is applied.  In the following example, since `x` has shape `(3, 12)`,
@@ -118,7 +118,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
            [0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 1, 0],
            [0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1],
            [0, 2, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2],
-           [1, 0, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0]], dtype=uint64)
+           [1, 0, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0]])
 
     Some examples with weights.
 
-- 
2.43.0


From d42bed896dbae9bdd94d28e2702757f103892625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:16 +0000
Subject: [PATCH 44/44] fix: the example of logexpint1 showed the results of
 expint1

---
 src/expint1/define_cxxgen_extmods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expint1/define_cxxgen_extmods.py b/src/expint1/define_cxxgen_extmods.py
index 4465c48..d75606a 100644
--- a/src/expint1/define_cxxgen_extmods.py
+++ b/src/expint1/define_cxxgen_extmods.py
@@ -45,7 +45,7 @@ Examples
 >>> import numpy as np
 >>> from ufunclab import logexpint1
 >>> logexpint1([0.25, 2.5, 25])
-array([1.04428263e+00, 2.49149179e-02, 5.34889976e-13])
+array([  0.04333018,  -3.69228854, -28.25671532])
 
 ``expint1(x)`` underflows to 0 for sufficiently large x:
 
-- 
2.43.0

