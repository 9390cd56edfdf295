From 9dc7795f8d45bc55a1ba575f4d6f45f31b2aff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 01/40] fix: kep_to_cart no longer modifies the caller's
 element array

Hyperbolic orbits had the sign of their semi-major axis flipped in the
caller's array (so a second call gave NaN), and with degrees=True the angles
were converted to radians and back in place.
---
 pyorb/kepler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..9c1131f 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1717,6 +1717,9 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
         raise ValueError(f'Input data must have at least 6 variables \
             along axis 0: input shape is {kep.shape}')
 
+    # work on a copy so that the input array is never modified
+    kep = kep.copy()
+
     if len(kep.shape) < 2:
         input_is_vector = True
         try:
@@ -1780,9 +1783,5 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep.shape = (6,)
-
-    if degrees:
-        kep[2:, ...] = np.degrees(kep[2:, ...])
 
     return x
-- 
2.43.0


From e5dfaed84ca1a54f5db8ceb43e7af786f177b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 02/40] fix: cart_to_kep no longer reshapes the caller's array
 while it runs

The caller's (6,) array was temporarily turned into a (6, 1) array, which
another thread using the same array could observe (and an exception in
between left behind).
---
 pyorb/kepler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 9c1131f..b31af98 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -377,7 +377,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     if len(cart.shape) < 2:
         input_is_vector = True
         try:
-            cart.shape = (6, 1)
+            cart = cart.reshape((6, 1))
         except ValueError as e:
             print(f'Error {e} while trying to cast vector into single column.')
             print(f'Input array shape: {cart.shape}')
@@ -541,7 +541,6 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         o[2:, :] = np.degrees(o[2:, :])
 
     if input_is_vector:
-        cart.shape = (6,)
         o.shape = (6,)
 
     return o
-- 
2.43.0


From 79f3001bc3da5d003c6e9c68728ce2c7dd5abbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 03/40] fix: do not wrap parabolic and hyperbolic eccentric
 anomalies

Only the elliptic eccentric anomaly is periodic. Wrapping the other two to
[0, 2pi) moved every inbound point (and any outbound point with an anomaly
above 2pi) to a different place on the orbit, so true_to_mean and all that
is built on it returned wrong values for them.
---
 pyorb/kepler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b31af98..40942d6 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -664,6 +664,8 @@ def true_to_eccentric(nu, e, degrees=False):
         E[eli] = 2.0*np.arctan(
             np.sqrt((1.0 - e[eli])/(1.0 + e[eli]))*np.tan(_nu[eli]*0.5)
         )
+        # only the elliptic anomaly is periodic
+        E[eli] = np.mod(E[eli] + 2.*np.pi, 2.*np.pi)
     else:
         if e > 1:
             E = 2.0*np.arctanh(np.sqrt((e - 1.0)/(e + 1.0))*np.tan(_nu*0.5))
@@ -671,8 +673,7 @@ def true_to_eccentric(nu, e, degrees=False):
             E = np.tan(_nu*0.5)
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
-
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+            E = np.mod(E + 2.*np.pi, 2.*np.pi)
 
     if degrees:
         E = np.degrees(E)
-- 
2.43.0


From 92cb2a29ebd8bd9bb4dbe673c0cdae415cbf3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 04/40] fix: hyperbolic starting guess for negative mean
 anomalies

The guess took the logarithm of a negative number for M < -0.9 e, so that
mean_to_eccentric and mean_to_true returned NaN on most of the inbound leg.
---
 pyorb/kepler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 40942d6..5174c09 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1144,7 +1144,8 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    # the anomaly is an odd function of M
+    E0 = np.where(M < 0, -1.0, 1.0)*np.log(2*np.abs(M)/e + 1.8)
     return E0
 
 
-- 
2.43.0


From 224fe48f366aa3af77cabf831365671b7066ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 05/40] fix: cancellation in the parabolic anomaly for negative
 mean anomalies

A + sqrt(A**2 + 1) cancels for large negative A: mean_to_eccentric(-1e4, 1)
was off by 1e-8 relative and mean_to_eccentric(-1e8, 1) was -inf.
---
 pyorb/kepler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 5174c09..b6ebf0a 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1315,8 +1315,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
                     E0, Mc, ec, **solver_options)
             elif ec == 1:
                 A = 3.0/2.0*Mc
-                B = np.cbrt(A + np.sqrt(A**2 + 1))
-                E_calc = B - 1.0/B
+                # B - 1/B is odd in A, B itself cancels for negative A
+                B = np.cbrt(np.abs(A) + np.sqrt(A**2 + 1))
+                E_calc = np.copysign(B - 1.0/B, A)
             else:
                 E0 = _get_kepler_guess(Mc, ec)
                 E_calc, it_num = laguerre_solve_kepler(
@@ -1333,8 +1334,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
         elif e == 1:
             A = 3.0/2.0*_M
-            B = np.cbrt(A + np.sqrt(A**2 + 1))
-            E = B - 1.0/B
+            # B - 1/B is odd in A, B itself cancels for negative A
+            B = np.cbrt(np.abs(A) + np.sqrt(A**2 + 1))
+            E = np.copysign(B - 1.0/B, A)
         else:
             E0 = _get_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
-- 
2.43.0


From dc2789b4f12b4041e3a010f4a3c7132b8c690f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 06/40] fix: cart_to_kep returns the periapsis distance for a
 parabolic state

The documentation defines the semi-major axis of a parabolic orbit as its
periapsis distance, and kep_to_cart reads it so, but cart_to_kep returned
inf (or a huge rounding-dependent value) for a state with e == 1.
---
 pyorb/kepler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b6ebf0a..19876c5 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -416,6 +416,10 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     hn = np.linalg.norm(h, axis=0)
     o[2, :] = np.arccos(h[2, :]/hn)
 
+    # parabolic: use periapsis distance as the semi-major axis is undefined
+    per = o[1, :] == 1
+    o[0, per] = (hn**2/(2.0*mu))[per]
+
     # possible cases
     eg = o[1, :] > e_lim  # e grater
     # i grater (include retrograde planar orbits)
-- 
2.43.0


From 34be6fe4e78ff7bbd8b3a3368af4310be0fe25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 07/40] fix: integer input arrays no longer truncate the
 results

The output arrays were allocated with the dtype of the input, so a call such
as mean_to_true(np.array([0, 1, 2]), 0.3) or kep_to_cart on an array of
integers silently returned truncated integers.
---
 pyorb/kepler.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 19876c5..4c75ef4 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -264,7 +264,7 @@ def kep_to_equi(kep, degrees=False):
         OM = np.radians(OM)
         hi = np.radians(hi)
 
-    elems = np.empty(kep.shape, dtype=kep.dtype)
+    elems = np.empty(kep.shape, dtype=np.result_type(kep, np.float32))
 
     elems[E_a, ...] = kep[K_a, ...]
     elems[E_h, ...] = kep[K_e, ...]*np.sin(om_bar)  # h
@@ -304,7 +304,7 @@ def equi_to_kep(equi, degrees=False):
     '''
 
     _circ = 360.0 if degrees else _2pi
-    kep = np.empty(equi.shape, dtype=equi.dtype)
+    kep = np.empty(equi.shape, dtype=np.result_type(equi, np.float32))
 
     kep[K_a, ...] = equi[E_a, ...]  # a
     kep[K_e, ...] = np.sqrt(equi[E_h, ...] ** 2 + equi[E_k, ...] ** 2)  # e
@@ -385,6 +385,9 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     else:
         input_is_vector = False
 
+    # never calculate in integers
+    cart = cart.astype(np.result_type(cart, np.float32), copy=False)
+
     ez = np.array([0, 0, 1], dtype=cart.dtype)
 
     o = np.empty(cart.shape, dtype=cart.dtype)
@@ -656,7 +659,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = np.empty(_nu.shape, dtype=np.result_type(_nu, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -716,7 +719,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = np.empty(_E.shape, dtype=np.result_type(_E, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -775,7 +778,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = np.empty(_E.shape, dtype=np.result_type(_E, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -1223,7 +1226,7 @@ def kepler_guess(M, e):
         if M.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E0 = np.empty(M.shape, dtype=M.dtype)
+        E0 = np.empty(M.shape, dtype=np.result_type(M, e, np.float32))
 
         out_it = E0.size
         Mit = np.nditer(M)
@@ -1299,7 +1302,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
         if _M.shape != e.shape:
             raise TypeError(f'Input dimensions does not agree \
                 M:{_M.shape} != e:{e.shape}')
-        E = np.empty(_M.shape, dtype=_M.dtype)
+        E = np.empty(_M.shape, dtype=np.result_type(_M, e, np.float32))
         if _M.size == 0:
             return E
 
@@ -1491,7 +1494,7 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c0 = np.empty_like(x)
+    c0 = np.empty_like(x, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1519,7 +1522,7 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c1 = np.empty_like(x)
+    c1 = np.empty_like(x, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1547,7 +1550,7 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c2 = np.empty_like(x)
+    c2 = np.empty_like(x, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
 
@@ -1575,7 +1578,7 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c3 = np.empty_like(x)
+    c3 = np.empty_like(x, dtype=np.result_type(x, np.float32))
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
@@ -1725,7 +1728,7 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
             along axis 0: input shape is {kep.shape}')
 
     # work on a copy so that the input array is never modified
-    kep = kep.copy()
+    kep = kep.astype(np.result_type(kep, np.float32))
 
     if len(kep.shape) < 2:
         input_is_vector = True
-- 
2.43.0


From 85ac72021a72cb89df244cf8f06c1de7430f4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 08/40] fix: pair mean anomalies and eccentricities by index,
 not by memory layout

np.nditer iterates in memory order by default, so arrays with different
layouts (a reversed view, a transposed array) were combined in the wrong
order by mean_to_eccentric, mean_to_true and kepler_guess.
---
 pyorb/kepler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 4c75ef4..14e1fec 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1229,8 +1229,8 @@ def kepler_guess(M, e):
         E0 = np.empty(M.shape, dtype=np.result_type(M, e, np.float32))
 
         out_it = E0.size
-        Mit = np.nditer(M)
-        eit = np.nditer(e)
+        Mit = np.nditer(M, order='C')
+        eit = np.nditer(e, order='C')
         Eit = np.nditer(E0, op_flags=['readwrite'])
 
         for it in range(out_it):
@@ -1307,8 +1307,8 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             return E
 
         out_it = E.size
-        Mit = np.nditer(_M)
-        eit = np.nditer(e)
+        Mit = np.nditer(_M, order='C')
+        eit = np.nditer(e, order='C')
         Eit = np.nditer(E, op_flags=['readwrite'])
 
         for it in range(out_it):
-- 
2.43.0


From 5e09b23ca4899a394f18b6752b97696a87c30a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 09/40] fix: undefined (NaN) elements give NaN instead of
 uninitialised memory

NaN eccentricities match none of the orbit type masks, so the anomaly
conversions (and the Stumpff functions for NaN) returned whatever was in the
freshly allocated output array for them.
---
 pyorb/kepler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 14e1fec..2157fe1 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -659,7 +659,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=np.result_type(_nu, e, np.float32))
+        E = np.full(_nu.shape, np.nan, dtype=np.result_type(_nu, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -719,7 +719,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=np.result_type(_E, e, np.float32))
+        nu = np.full(_E.shape, np.nan, dtype=np.result_type(_E, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -778,7 +778,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=np.result_type(_E, e, np.float32))
+        M = np.full(_E.shape, np.nan, dtype=np.result_type(_E, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -1494,7 +1494,7 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c0 = np.empty_like(x, dtype=np.result_type(x, np.float32))
+    c0 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1522,7 +1522,7 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c1 = np.empty_like(x, dtype=np.result_type(x, np.float32))
+    c1 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1550,7 +1550,7 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c2 = np.empty_like(x, dtype=np.result_type(x, np.float32))
+    c2 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
 
@@ -1578,7 +1578,7 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c3 = np.empty_like(x, dtype=np.result_type(x, np.float32))
+    c3 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
-- 
2.43.0


From 275b8dd0dac428a894979d1d8b9e490d274f359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 10/40] fix: Stumpff functions accept floats as documented

They indexed the input with a mask, which raised TypeError for a float.
---
 pyorb/kepler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 2157fe1..8a9c8f8 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1494,6 +1494,7 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c0 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
@@ -1522,6 +1523,7 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c1 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
@@ -1550,6 +1552,7 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c2 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
@@ -1578,6 +1581,7 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c3 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     xsq = np.sqrt(x[inds])
-- 
2.43.0


From 5d3ec066298ae31702cf233176ef42e1ae1d3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 11/40] fix: cancellation in the second and third Stumpff
 functions near zero

---
 pyorb/kepler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 8a9c8f8..48ab927 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1555,12 +1555,13 @@ def stumpff2(x):
     x = np.asarray(x)
     c2 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
-    c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
+    # half-angle form, 1 - cos cancels for small x
+    c2[inds] = 2*np.sin(0.5*np.sqrt(x[inds]))**2/x[inds]
 
     c2[x == 0] = 0.5
 
     inds = x < 0
-    c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]
+    c2[inds] = -2*np.sinh(0.5*np.sqrt(-x[inds]))**2/x[inds]
     return c2
 
 
@@ -1592,6 +1593,14 @@ def stumpff3(x):
     inds = x < 0
     xsq = np.sqrt(-x[inds])
     c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])
+
+    # the closed forms cancel for small x, use the defining series there
+    inds = np.abs(x) < 1
+    term = np.ones_like(c3[inds])/6
+    c3[inds] = term
+    for n in range(4, 20, 2):
+        term = -term*x[inds]/(n*(n + 1))
+        c3[inds] += term
     return c3
 
 
-- 
2.43.0


From 565448767ccf9bc655ad9ca12c171826e92761ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 12/40] fix: changing the anomaly type no longer moves the
 cartesian state

---
 pyorb/orbit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..20e886e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -222,13 +222,18 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
             if val == 'true':
-                self.anom = self.true_anomaly
+                anom = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                anom = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                anom = self.mean_anomaly
+            # set the type first, so that the cartesian elements are updated
+            # with the anomaly interpreted as the new type
             self.__type = val
+            self.anom = anom
 
     def propagate(self, dt):
         '''Propagate all orbits in time by modifying the anomaly of the orbit,
-- 
2.43.0


From b948b075e88675ca4d1769f8ddef1b7df4a25d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 13/40] fix: the period and mean motion of an orbit can be set

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 20e886e..702d6c7 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1052,11 +1052,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From 67ef0a33d44e317bc6fdb5e70b56e29f9fd6fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 14/40] fix: calc_eccentric_anomaly stores only the selected
 orbits

---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 702d6c7..2a1eafd 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -890,7 +890,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From d73081c33b23dea4dbc0534353f75cdfdb77310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 15/40] fix: copies, slices and iteration keep pending element
 updates

---
 pyorb/orbit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 2a1eafd..f5f5508 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -192,6 +192,12 @@ class Orbit:
         tmp_orb._cart = self._cart[:, inds].copy()
         tmp_orb._kep = self._kep[:, inds].copy()
 
+        # pending updates belong to the copied elements as well
+        tmp_orb.__cart_calculated = np.atleast_1d(
+            self.__cart_calculated[inds]).copy()
+        tmp_orb.__kep_calculated = np.atleast_1d(
+            self.__kep_calculated[inds]).copy()
+
         if len(tmp_orb._cart.shape) == 1:
             tmp_orb._cart.shape = (6, 1)
             tmp_orb._kep.shape = (6, 1)
-- 
2.43.0


From 9faed1044c2fd4d59e49dc83d7914c0ff213b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 16/40] fix: pending cartesian and kepler updates are neither
 lost nor overwritten

---
 pyorb/orbit.py | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f5f5508..c17cac4 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -149,13 +149,13 @@ class Orbit:
         return str_
 
     def _cart_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_cartesian(
                 np.logical_not(self.__cart_calculated),
             )
 
     def _kep_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_kepler(
                 np.logical_not(self.__kep_calculated),
             )
@@ -420,6 +420,12 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # bring pending updates in before the mass changes
+        if cart_updated:
+            self._cart_check()
+        if kep_updated:
+            self._kep_check()
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
@@ -462,6 +468,8 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
+        # both sets of elements agree after this
+        self.__kep_calculated[do_inds] = True
         self.__cart_calculated[do_inds] = True
         if self.type == 'true':
             kep_tmp = self._kep[:, do_inds]
@@ -491,6 +499,8 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
+        # both sets of elements agree after this
+        self.__cart_calculated[do_inds] = True
         self.__kep_calculated[do_inds] = True
         self._kep[:, do_inds] = functions.cart_to_kep(
             self._cart[:, do_inds],
@@ -532,6 +542,7 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
 
         if self.direct_update:
@@ -551,6 +562,7 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
 
         if self.direct_update:
@@ -595,12 +607,14 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def y(self):
@@ -613,12 +627,14 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def z(self):
@@ -631,12 +647,14 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vx(self):
@@ -649,12 +667,14 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vy(self):
@@ -667,12 +687,14 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vz(self):
@@ -685,12 +707,14 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def kepler(self):
@@ -728,12 +752,14 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def e(self):
@@ -746,12 +772,14 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def i(self):
@@ -764,12 +792,14 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def omega(self):
@@ -782,12 +812,14 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def Omega(self):
@@ -800,12 +832,14 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def anom(self):
@@ -819,12 +853,14 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def mean_motion(self):
-- 
2.43.0


From edbf306457a7621d376ef058af652bf80089018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 17/40] fix: update and add leave the orbits that were not
 selected alone

---
 pyorb/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index c17cac4..1d74179 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -386,7 +386,7 @@ class Orbit:
                     Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__cart_calculated[inds] = True
                 self.__kep_calculated[inds] = False
@@ -397,7 +397,7 @@ class Orbit:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__kep_calculated[inds] = True
                 self.__cart_calculated[inds] = False
@@ -438,7 +438,7 @@ class Orbit:
                     self._cart[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__kep_calculated[inds] = False
                 self.__cart_calculated[inds] = True
@@ -448,7 +448,7 @@ class Orbit:
                     self._kep[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__cart_calculated[inds] = False
                 self.__kep_calculated[inds] = True
-- 
2.43.0


From 4fa3f1180716de2d76c57d92368b3688dd5ee65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 18/40] fix: update and the constructor accept a 6-vector of
 elements as the properties do

---
 pyorb/orbit.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 1d74179..5a17300 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -160,6 +160,14 @@ class Orbit:
                 np.logical_not(self.__kep_calculated),
             )
 
+    @staticmethod
+    def _as_columns(value, target):
+        # one 6-vector is the elements of each of the orbits
+        if isinstance(value, np.ndarray):
+            if len(value.shape) == 1 and len(target.shape) == 2:
+                return value[:, None]
+        return value
+
     def __copy__(self):
         return self[:]
 
@@ -384,7 +392,8 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            self._cart[:, inds] = kwargs['cartesian']
+            self._cart[:, inds] = self._as_columns(
+                kwargs['cartesian'], self._cart[:, inds])
             if self.direct_update:
                 self.calculate_kepler(inds)
             else:
@@ -395,7 +404,8 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            self._kep[:, inds] = kwargs['kepler']
+            self._kep[:, inds] = self._as_columns(
+                kwargs['kepler'], self._kep[:, inds])
             if self.direct_update:
                 self.calculate_cartesian(inds)
             else:
-- 
2.43.0


From 9c0eb6c559942e37998f2ce6d14514fd70d073cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 19/40] fix: iterations over the same orbits are independent of
 each other

---
 pyorb/orbit.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 5a17300..d4c6936 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -216,8 +216,16 @@ class Orbit:
         return self.num
 
     def __iter__(self):
+        # the position belongs to the iterator, so that loops can be nested,
+        # `next` on the instance itself starts over
         self.__it = 0
-        return self
+        return self._iterate()
+
+    def _iterate(self):
+        ind = 0
+        while ind < self.num:
+            ind += 1
+            yield self[ind - 1]
 
     def __next__(self):
         if self.__it < self.num:
-- 
2.43.0


From 58c2a46378e8d2fa6081d6bbd947d96840a8a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 20/40] fix: setting equinoctial elements respects read only
 and pending updates

---
 pyorb/orbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index d4c6936..d1fcf09 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1097,10 +1097,13 @@ class Orbit:
 
     @equinoctial.setter
     def equinoctial(self, vals):
+        if self.kepler_read_only:
+            raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
         tmp_elms = elems[:5, ...]
         if len(tmp_elms.shape) == 1:
             tmp_elms.shape = (5, 1)
+        self._kep_check()
         self._kep[:5, ...] = tmp_elms
         self.mean_anomaly = elems[5, ...]
 
-- 
2.43.0


From 528ac6104a00bf937139b879406df7754ab4c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 21/40] fix: propagate unbound orbits

---
 pyorb/orbit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index d1fcf09..a6d10da 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -265,8 +265,14 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        e = self.e
+        # a parabola stores its periapsis distance instead of the semi-major
+        # axis, its anomaly changes at the rate sqrt(mu/(2 q^3))
+        rate = np.where(e == 1, np.sqrt(0.5), 1.0)*self.mean_motion
+        mean_anomaly = self.mean_anomaly + rate*dt
+        # only the elliptic anomaly is periodic
+        self.mean_anomaly = np.where(
+            e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
         if self.direct_update:
             self.calculate_cartesian()
 
-- 
2.43.0


From 4579ceefd54ae127473f78b49248826750fa5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 22/40] fix: speed of parabolic and hyperbolic orbits

---
 pyorb/orbit.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a6d10da..a596345 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1156,13 +1156,29 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
+        a = self.a
+        e = self.e
+        mu = self.G*(self.M0 + self.m)
+        radius = functions.elliptic_radius(
+            self.eccentric_anomaly,
+            a,
+            e,
+            degrees=self.degrees,
+        )
+        if np.any(e >= 1):
+            nu = self.true_anomaly
+            hyp = e > 1
+            per = e == 1
+            radius[hyp] = functions.hyperbolic_radius(
+                nu[hyp], a[hyp], e[hyp], degrees=self.degrees)
+            radius[per] = functions.parabolic_radius(
+                nu[per], a[per], degrees=self.degrees)
+            # in the vis-viva equation hyperbolas have negative and parabolas
+            # infinite semi-major axis
+            a[hyp] *= -1
+            a[per] = np.inf
         return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
-                self.e,
-                degrees=self.degrees,
-            ),
-            self.a,
-            self.G*(self.M0 + self.m),
+            radius,
+            a,
+            mu,
         )
-- 
2.43.0


From c6774be4f904b657bc2a56cdd45a2e7109122442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 23/40] fix: periapsis of parabolic and hyperbolic orbits

---
 pyorb/orbit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a596345..576288b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1086,7 +1086,9 @@ class Orbit:
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        e = self.e
+        # parabolas store the periapsis distance as semi-major axis
+        return np.where(e == 1, 1.0, np.abs(1.0 - e))*self.a
 
     @property
     def mean_longitude(self):
-- 
2.43.0


From efe48b0781f4eabb538c3c02394791152746324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 24/40] fix: kep_equivalent compares the shape and, for planar
 orbits, the orientation

---
 pyorb/kepler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 48ab927..9ef96d2 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -566,13 +566,21 @@ def kep_equivalent(kep1, kep2):
     if not np.isclose(kep1[K_a], kep2[K_a]):
         return False
 
+    if not np.isclose(kep1[K_e], kep2[K_e]):
+        return False
+
+    om1, om2 = kep1[K_om], kep2[K_om]
+    # if inclination is (near) zero, then only the sum of omega and Omega matter
+    if kep1[K_i] <= i_lim and kep2[K_i] <= i_lim:
+        om1, om2 = om1 + kep1[K_OM], om2 + kep2[K_OM]
+
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
+        if not np.isclose(om1 + kep1[K_nu], om2 + kep2[K_nu]):
             return False
     else:  # otherwise, they must match up individually
         if (
-            not np.isclose(kep1[K_om], kep2[K_om])
+            not np.isclose(om1, om2)
             or not np.isclose(kep1[K_nu], kep2[K_nu])
         ):
             return False
-- 
2.43.0


From 1428e4834427eb348794949982f5f873dd19c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 25/40] fix: printing an orbit shows its current elements

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 576288b..f05767b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -140,8 +140,8 @@ class Orbit:
                 f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                 for kval, kkey, cval, ckey in
                 zip(
-                    self._kep[:, 0], Orbit.KEPLER,
-                    self._cart[:, 0], Orbit.CARTESIAN
+                    self.kepler[:, 0], Orbit.KEPLER,
+                    self.cartesian[:, 0], Orbit.CARTESIAN
                 )
             ])
         else:
-- 
2.43.0


From b21e992f65faf560b24c5578f1bf152585eb8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 26/40] fix: cart_to_kep keeps nearly parabolic states

---
 pyorb/kepler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 9ef96d2..7c1cfbe 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -423,6 +423,11 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     per = o[1, :] == 1
     o[0, per] = (hn**2/(2.0*mu))[per]
 
+    # close to parabolic: the energy is lost in rounding errors, get the
+    # semi-major axis from the angular momentum
+    near_per = np.logical_and(np.abs(o[1, :] - 1.0) < 1e-3, ~per)
+    o[0, near_per] = (hn**2/mu)[near_per]/np.abs(1 - o[1, near_per]**2)
+
     # possible cases
     eg = o[1, :] > e_lim  # e grater
     # i grater (include retrograde planar orbits)
-- 
2.43.0


From 01e324986db20a805654c610ac6370b79caf2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 27/40] fix: hyperbolic solver overflow to NaN from a distant
 starting guess

---
 pyorb/kepler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 7c1cfbe..e39b64f 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1134,6 +1134,10 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
         else:
             delta = degree*f_eval/denom_m
 
+        if e > 1:
+            # keep the hyperbolic functions of the next iterate within range
+            delta = max(min(delta, 50.0), -50.0)
+
         E = E - delta
 
         f_eval = _f(E)
-- 
2.43.0


From df8478864d09db5767e074edbb6ac41f8df6dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 28/40] fix: equinoctial conversions refuse arrays that are not
 six elements

---
 pyorb/kepler.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index e39b64f..aea2eb0 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -231,6 +231,16 @@ def equi_to_cart(equi, mu=GM_sol, solver_options=None, degrees=False):
     return kep_to_cart(kep, mu=mu, degrees=degrees)
 
 
+def _check_elements(elems):
+    if not isinstance(elems, np.ndarray):
+        raise TypeError('Input type {} not supported: must be {}'.format(
+            type(elems), np.ndarray))
+    if elems.ndim < 1 or elems.shape[0] != 6:
+        raise ValueError(
+            f'Input data must have 6 variables along axis 0: '
+            f'input shape is {elems.shape}')
+
+
 def kep_to_equi(kep, degrees=False):
     '''Converts set of Keplerian orbital elements to set of Equinoctial
     orbital elements.
@@ -254,6 +264,8 @@ def kep_to_equi(kep, degrees=False):
         :math:`q`, :math:`\\lambda_0`, and columns correspond to different
         objects.  If input is in degrees, :math:`\\lambda_0` is in degrees.
     '''
+    _check_elements(kep)
+
     _circ = 360.0 if degrees else _2pi
     om_bar = kep[K_om, ...] + kep[K_OM, ...]
     OM = kep[K_OM, ...]
@@ -302,6 +314,7 @@ def equi_to_kep(equi, degrees=False):
         and columns correspond to different objects.
 
     '''
+    _check_elements(equi)
 
     _circ = 360.0 if degrees else _2pi
     kep = np.empty(equi.shape, dtype=np.result_type(equi, np.float32))
-- 
2.43.0


From 84d9e60114d662b9cd6ea936d05652ec37a2942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 29/40] fix: starting guesses of no orbits are none

---
 pyorb/kepler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index aea2eb0..2e8a490 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1257,6 +1257,8 @@ def kepler_guess(M, e):
             raise TypeError('Input dimensions does not agree')
 
         E0 = np.empty(M.shape, dtype=np.result_type(M, e, np.float32))
+        if E0.size == 0:
+            return E0
 
         out_it = E0.size
         Mit = np.nditer(M, order='C')
-- 
2.43.0


From 4d4d0776dfec01d462e40d017d2f1f41acac7324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 30/40] fix: second Stumpff function for subnormal arguments

---
 pyorb/kepler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 2e8a490..020c5e2 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1588,12 +1588,14 @@ def stumpff2(x):
     c2 = np.full_like(x, np.nan, dtype=np.result_type(x, np.float32))
     inds = x > 0
     # half-angle form, 1 - cos cancels for small x
-    c2[inds] = 2*np.sin(0.5*np.sqrt(x[inds]))**2/x[inds]
+    hx = 0.5*np.sqrt(x[inds])
+    c2[inds] = 0.5*(np.sin(hx)/hx)**2
 
     c2[x == 0] = 0.5
 
     inds = x < 0
-    c2[inds] = -2*np.sinh(0.5*np.sqrt(-x[inds]))**2/x[inds]
+    hx = 0.5*np.sqrt(-x[inds])
+    c2[inds] = 0.5*(np.sinh(hx)/hx)**2
     return c2
 
 
-- 
2.43.0


From 9e5872bda392159e75c077548c035184bf7799e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 31/40] fix: angle_units does not convert results that are
 marked False

---
 pyorb/unit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/unit.py b/pyorb/unit.py
index 23f5833..1909c0b 100644
--- a/pyorb/unit.py
+++ b/pyorb/unit.py
@@ -90,7 +90,8 @@ def angle_units(in_arg_inds, in_arg_keys, out_arg_inds, degrees=False):
 
             if out_arg_inds is not None and ret is not None:
                 if isinstance(out_arg_inds, bool):
-                    ret = np.degrees(ret)
+                    if out_arg_inds:
+                        ret = np.degrees(ret)
                 else:
                     ret = list(ret)
                     for ind in out_arg_inds:
-- 
2.43.0


From 6bb42d477b5a87f9ee1321bbcabbec878002aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 32/40] fix: kep_equivalent recognises retrograde planar orbits

---
 pyorb/kepler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 020c5e2..afc6520 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -589,8 +589,13 @@ def kep_equivalent(kep1, kep2):
 
     om1, om2 = kep1[K_om], kep2[K_om]
     # if inclination is (near) zero, then only the sum of omega and Omega matter
-    if kep1[K_i] <= i_lim and kep2[K_i] <= i_lim:
+    planar = kep1[K_i] <= i_lim and kep2[K_i] <= i_lim
+    if planar:
         om1, om2 = om1 + kep1[K_OM], om2 + kep2[K_OM]
+    # planar in the opposite direction, only the difference matters
+    elif kep1[K_i] >= np.pi - i_lim and kep2[K_i] >= np.pi - i_lim:
+        planar = True
+        om1, om2 = om1 - kep1[K_OM], om2 - kep2[K_OM]
 
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
@@ -604,7 +609,7 @@ def kep_equivalent(kep1, kep2):
             return False
 
     # if inclination is non-zero, then Omega matters
-    if kep1[K_i] > i_lim or kep2[K_i] > i_lim:
+    if not planar:
         if (
             not np.isclose(kep1[K_i], kep2[K_i])
             or not np.isclose(kep1[K_OM], kep2[K_OM])
-- 
2.43.0


From 015ab7a8585c1bd67df58e04e9c334bc68204b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 33/40] fix: kep_equivalent compares lengths relatively and
 angles modulo a turn

---
 pyorb/kepler.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index afc6520..53db147 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -578,13 +578,18 @@ def kep_equivalent(kep1, kep2):
 
     if len(kep1.shape) > 1 or len(kep2.shape) > 1:
         raise ValueError('Only vector inputs for now')
-    if np.allclose(kep1, kep2):
-        return True
 
-    if not np.isclose(kep1[K_a], kep2[K_a]):
+    def same_angle(x, y):
+        return np.isclose(np.mod(x - y + np.pi, _2pi), np.pi, rtol=0, atol=1e-5)
+
+    # lengths have no absolute scale
+    if not np.abs(kep1[K_a] - kep2[K_a]) <= 1e-5*np.maximum(np.abs(kep1[K_a]), np.abs(kep2[K_a])):
         return False
 
-    if not np.isclose(kep1[K_e], kep2[K_e]):
+    if not np.isclose(kep1[K_e], kep2[K_e], rtol=0, atol=1e-5):
+        return False
+    # the size of a parabola is not the semi-major axis
+    if (kep1[K_e] == 1) != (kep2[K_e] == 1):
         return False
 
     om1, om2 = kep1[K_om], kep2[K_om]
@@ -599,20 +604,20 @@ def kep_equivalent(kep1, kep2):
 
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(om1 + kep1[K_nu], om2 + kep2[K_nu]):
+        if not same_angle(om1 + kep1[K_nu], om2 + kep2[K_nu]):
             return False
     else:  # otherwise, they must match up individually
         if (
-            not np.isclose(om1, om2)
-            or not np.isclose(kep1[K_nu], kep2[K_nu])
+            not same_angle(om1, om2)
+            or not same_angle(kep1[K_nu], kep2[K_nu])
         ):
             return False
 
     # if inclination is non-zero, then Omega matters
     if not planar:
         if (
-            not np.isclose(kep1[K_i], kep2[K_i])
-            or not np.isclose(kep1[K_OM], kep2[K_OM])
+            not np.isclose(kep1[K_i], kep2[K_i], rtol=0, atol=1e-5)
+            or not same_angle(kep1[K_OM], kep2[K_OM])
         ):
             return False
     # Otherwise, we should be good
-- 
2.43.0


From e89c50c9eef80b872db010c111fa66b15d60a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 34/40] fix: equinoctial elements of a single orbit can be
 assigned as a 6-vector

---
 pyorb/orbit.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f05767b..8057d5c 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1108,11 +1108,10 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
-        tmp_elms = elems[:5, ...]
-        if len(tmp_elms.shape) == 1:
-            tmp_elms.shape = (5, 1)
+        if len(elems.shape) == 1:
+            elems.shape = (6, 1)
         self._kep_check()
-        self._kep[:5, ...] = tmp_elms
+        self._kep[:5, ...] = elems[:5, ...]
         self.mean_anomaly = elems[5, ...]
 
     @property
-- 
2.43.0


From 1484f09f3f8be47f66e36074011b036f4cc9ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 35/40] fix: large integers overflow in orbital functions

Products and powers of integer arrays were formed in integers: distances,
angular momenta, the parabolic mean anomaly and small-integer angles wrapped
around silently.
---
 pyorb/kepler.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 53db147..b9f1990 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -265,6 +265,8 @@ def kep_to_equi(kep, degrees=False):
         objects.  If input is in degrees, :math:`\\lambda_0` is in degrees.
     '''
     _check_elements(kep)
+    # never calculate in integers
+    kep = kep.astype(np.result_type(kep, np.float32), copy=False)
 
     _circ = 360.0 if degrees else _2pi
     om_bar = kep[K_om, ...] + kep[K_OM, ...]
@@ -315,6 +317,8 @@ def equi_to_kep(equi, degrees=False):
 
     '''
     _check_elements(equi)
+    # never calculate in integers
+    equi = equi.astype(np.result_type(equi, np.float32), copy=False)
 
     _circ = 360.0 if degrees else _2pi
     kep = np.empty(equi.shape, dtype=np.result_type(equi, np.float32))
@@ -642,7 +646,7 @@ def orbit_total_angular_momentum(a, e, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*a*(1 - e**2))
+    return np.sqrt(1.0*mu*a*(1 - e**2))
 
 
 def parabolic_total_angular_momentum(q, mu):
@@ -661,7 +665,7 @@ def parabolic_total_angular_momentum(q, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*2*q)
+    return np.sqrt(2.0*mu*q)
 
 
 def true_to_eccentric(nu, e, degrees=False):
@@ -820,13 +824,13 @@ def eccentric_to_mean(E, e, degrees=False):
         eli = e < 1
 
         M[hyp] = e[hyp]*np.sinh(_E[hyp]) - _E[hyp]
-        M[per] = _E[per] + _E[per]**3/3.0
+        M[per] = _E[per] + _E[per]**3.0/3.0
         M[eli] = _E[eli] - e[eli]*np.sin(_E[eli])
     else:
         if e > 1:
             M = e*np.sinh(_E) - _E
         elif e == 1:
-            M = _E + _E**3/3.0
+            M = _E + _E**3.0/3.0
         else:
             M = _E - e*np.sin(_E)
 
@@ -895,7 +899,7 @@ def orbital_distance(h, mu, e, nu, degrees=False):
     else:
         _nu = nu
 
-    return h**2/(mu*(1 + e*np.cos(_nu)))
+    return h**2.0/(mu*(1 + e*np.cos(_nu)))
 
 
 def elliptic_radius(E, a, e, degrees=False):
-- 
2.43.0


From 5939d1c6448385c7f7b6dba3655e77217eefe330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 36/40] fix: unsigned integer eccentricities break the Kepler
 solver

---
 pyorb/kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b9f1990..5e6ed2a 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1127,7 +1127,7 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
             return 1.0 - e*np.cosh(E)
 
         def _fpp(E):
-            return -e*np.sinh(E)
+            return -(e*np.sinh(E))
     else:
         def _f(E):
             return M - E + e*np.sin(E)
@@ -1136,7 +1136,7 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
             return e*np.cos(E) - 1.0
 
         def _fpp(E):
-            return -e*np.sin(E)
+            return -(e*np.sin(E))
 
     E = E0
 
-- 
2.43.0


From 4ea0765a1416375616c29487bbc205eca499fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 37/40] fix: orbital period and semi-major axis overflowed in
 single precision

---
 pyorb/kepler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 5e6ed2a..e899438 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1474,7 +1474,8 @@ def orbital_period(a, mu):
         Orbital period.
 
     '''
-    return 2.0*np.pi*np.sqrt(a**3.0/mu)
+    # the cube of the semi-major axis can overflow in single precision
+    return 2.0*np.pi*a*np.sqrt(a/mu)
 
 
 def semi_major_axis(P, mu):
@@ -1495,7 +1496,8 @@ def semi_major_axis(P, mu):
         Semi-major axis.
 
     '''
-    a = np.cbrt((P/(2.0*np.pi))**2*mu)
+    # the product can overflow in single precision
+    a = np.cbrt(P/(2.0*np.pi))**2*np.cbrt(mu)
     return a
 
 
-- 
2.43.0


From 823450147ca824feaf97e702fd60f6dbb9183e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:22 +0000
Subject: [PATCH 38/40] fix: a refused addition does not leave undefined orbits
 behind

---
 pyorb/orbit.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 8057d5c..e4cbd25 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -349,11 +349,16 @@ class Orbit:
             axis=0,
         )
 
-        if 'm' in kwargs:
-            self.m[inds] = kwargs['m']
-            del kwargs['m']
-
-        self.update(inds = inds, **kwargs)
+        try:
+            if 'm' in kwargs:
+                self.m[inds] = kwargs['m']
+                del kwargs['m']
+
+            self.update(inds = inds, **kwargs)
+        except Exception:
+            # a refused addition leaves nothing behind
+            self.delete(inds)
+            raise
 
     def allocate(self, num):
         '''Changes the current allocation of orbits to a fixed number.
-- 
2.43.0


From 8e515dbb62db5602dfbe3bcf96526deda68f2ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 39/40] fix: an update with values that do not fit changes
 nothing

---
 pyorb/orbit.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e4cbd25..497892f 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -455,6 +455,16 @@ class Orbit:
         if kep_updated:
             self._kep_check()
 
+        # nothing is updated until all the values have been accepted
+        cart = self._cart.copy()
+        kep = self._kep.copy()
+        for ind, key in enumerate(Orbit.CARTESIAN):
+            if key in kwargs:
+                cart[ind, inds] = kwargs[key]
+        for ind, key in enumerate(Orbit.KEPLER):
+            if key in kwargs:
+                kep[ind, inds] = kwargs[key]
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
@@ -462,9 +472,7 @@ class Orbit:
             self.m[inds] = kwargs['m']
 
         if cart_updated:
-            for ind, key in enumerate(Orbit.CARTESIAN):
-                if key in kwargs:
-                    self._cart[ind, inds] = kwargs[key]
+            self._cart[:, :] = cart
 
             if self.direct_update:
                 self.calculate_kepler(inds)
@@ -472,9 +480,7 @@ class Orbit:
                 self.__kep_calculated[inds] = False
                 self.__cart_calculated[inds] = True
         if kep_updated:
-            for ind, key in enumerate(Orbit.KEPLER):
-                if key in kwargs:
-                    self._kep[ind, inds] = kwargs[key]
+            self._kep[:, :] = kep
 
             if self.direct_update:
                 self.calculate_cartesian(inds)
-- 
2.43.0


From e46fd98807b6f46f14d4ebbbf0723e9c8e7d1eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 40/40] fix: one vector of equinoctial elements can be assigned
 to several orbits

---
 pyorb/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 497892f..0e095f7 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1121,6 +1121,8 @@ class Orbit:
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
         if len(elems.shape) == 1:
             elems.shape = (6, 1)
+        # one set of elements is for each of the orbits
+        elems = np.broadcast_to(elems, self._kep.shape)
         self._kep_check()
         self._kep[:5, ...] = elems[:5, ...]
         self.mean_anomaly = elems[5, ...]
-- 
2.43.0

