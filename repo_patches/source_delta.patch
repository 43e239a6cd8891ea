From fd254f990ded12f1d1fcedb52b413128cb3fbbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 01/29] fix: mag2 of ScalarCoefs returned the magnitude, not
 its square

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 24608ca..f64daf6 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1710,7 +1710,7 @@ def mag2(sobj):
     if isinstance(sobj, ScalarPatternUniform):
         return np.abs(sobj.array) ** 2
     elif isinstance(sobj, ScalarCoefs):
-        return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
+        return ScalarCoefs(np.abs(sobj._vec) ** 2, sobj.nmax, sobj.mmax)
     elif isinstance(sobj, TransversePatternUniform):
         return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
     elif isinstance(sobj, VectorCoefs):
-- 
2.43.0


From a2900319770cfd21071ead309747b919ad3e0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 02/29] fix: L2_coef of VectorCoefs ignored the second set of
 coefficients

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index f64daf6..4c2a8f8 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2187,7 +2187,7 @@ def L2_coef(coef):
         return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
     elif isinstance(coef, VectorCoefs):
         l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
+        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
     
 def L2_patt(patt):
-- 
2.43.0


From d6568b6af94d40b5b424ba9e398cf6179d7e89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 03/29] fix: TransversePatternUniform.single_val never looked
 at the phi component

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 4c2a8f8..703c037 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1238,7 +1238,7 @@ class TransversePatternUniform:
         """
         
         sv_t = self._sv(self._tdsphere)
-        sv_p = self._sv(self._tdsphere)
+        sv_p = self._sv(self._pdsphere)
         
         return (sv_t, sv_p)
         
-- 
2.43.0


From b7308f7fba353891296f0007b932540880084da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 04/29] fix: coefficients of different nmax and mmax could be
 combined

ScalarCoefs compared only the lengths, which agree for e.g. (3, 3) and (5, 1);
VectorCoefs compared the right operand with itself.
---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 703c037..8a7d777 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -545,7 +545,7 @@ class ScalarCoefs(object):
         @wraps(func)
         def verif(self, scoef):
             if isinstance(scoef, ScalarCoefs):
-                if len(self._vec) == len(scoef._vec):
+                if (self.nmax, self.mmax) == (scoef.nmax, scoef.mmax):
                     return ScalarCoefs(func(self, self._vec, scoef._vec),
                                         self.nmax,
                                         self.mmax)
@@ -819,7 +819,7 @@ class VectorCoefs(object):
         @wraps(func)
         def verif(self, vcoef):
             if isinstance(vcoef, VectorCoefs):
-                if len(vcoef.scoef1._vec) == len(vcoef.scoef1._vec):
+                if (self.nmax, self.mmax) == (vcoef.nmax, vcoef.mmax):
                     return VectorCoefs(func(self, self.scoef1._vec,
                                                   vcoef.scoef1._vec),
                                        func(self, self.scoef2._vec,
-- 
2.43.0


From bbf4caf265ad81206b4c72cfd3e4997c414ef209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 05/29] fix: division of coefficients and patterns by zero
 returned the exception

It was then wrapped into a broken object instead of being raised.
---
 spherepy/spherepy.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 8a7d777..7a6e06f 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -601,7 +601,7 @@ class ScalarCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -610,7 +610,7 @@ class ScalarCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a
@@ -619,7 +619,7 @@ class ScalarCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -628,7 +628,7 @@ class ScalarCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -881,7 +881,7 @@ class VectorCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -890,7 +890,7 @@ class VectorCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -899,7 +899,7 @@ class VectorCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -908,7 +908,7 @@ class VectorCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1132,7 +1132,7 @@ class ScalarPatternUniform(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1141,7 +1141,7 @@ class ScalarPatternUniform(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1150,7 +1150,7 @@ class ScalarPatternUniform(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1159,7 +1159,7 @@ class ScalarPatternUniform(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1332,7 +1332,7 @@ class TransversePatternUniform:
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1341,7 +1341,7 @@ class TransversePatternUniform:
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1350,7 +1350,7 @@ class TransversePatternUniform:
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1359,7 +1359,7 @@ class TransversePatternUniform:
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a    
-- 
2.43.0


From d7c15d700d671efb546d583fbe8599a01a1fe22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 06/29] fix: c[n, :] = vec wanted 2*n + 1 values when n is
 greater than mmax

There are 2*mmax + 1 modes then: c[n, :] = c[n, :] was refused, and a longer
vector was stored out of place.
---
 spherepy/spherepy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 7a6e06f..bf7c901 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -405,13 +405,14 @@ class ScalarCoefs(object):
                 if (n > self.nmax) or (n < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                if (len(val) != 2 * n + 1):
-                    raise AttributeError(err_msg['dim_no_mtch'])
-
                 if n <= self.mmax:
                     nn = n
                 else:
                     nn = self.mmax            
+
+                if (len(val) != 2 * nn + 1):
+                    raise AttributeError(err_msg['dim_no_mtch'])
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
                     self.__setitem__((n, m), val[k])
 
-- 
2.43.0


From 2907e212e176a6db64754c584b7efe95b96530fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 07/29] fix: sph_harmonic_tp always used 50 phi points instead
 of ncols

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index bf7c901..9211003 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2233,7 +2233,7 @@ def sph_harmonic_tp(nrows, ncols, n, m):
     yvec = np.concatenate([num, nuvec])
     
     theta = np.linspace(0.0, np.pi, nrows)
-    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols)
+    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols, ncols)
     nu = np.array(range(-n, n + 1), dtype=np.complex128)
     
     out = np.zeros([nrows, ncols], dtype=np.complex128)
-- 
2.43.0


From b0ebd10022e529fa30923005a516af64da94a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 08/29] fix: spht and vspht ignored mmax when nmax was not
 passed

---
 spherepy/spherepy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 9211003..560bc80 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1861,7 +1861,8 @@ def spht(ssphere, nmax=None, mmax=None):
 
     if nmax == None:
         nmax = ssphere.nrows - 2 
-        mmax = int(ssphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(ssphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
@@ -1906,7 +1907,8 @@ def vspht(vsphere, nmax=None, mmax=None):
     
     if nmax == None:
         nmax = vsphere.nrows - 2 
-        mmax = int(vsphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(vsphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
-- 
2.43.0


From 84f86f2fff38024061a273a5d8b6a0f9c56a364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 09/29] fix: double_sphere doubled small values

The product of two nonzero values can underflow to zero, and the values were
then added instead of averaged.
---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 560bc80..72a1e91 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1775,7 +1775,7 @@ def double_sphere(cdata, sym):
                           np.mod(int(np.floor(ncols / 2)) + m, ncols)]
             t = cdata[n, m]
 
-            if s * t == 0:
+            if s == 0 or t == 0:
                 ddata[n, m] = s + t
             else:
                 ddata[n, m] = (s + t) / 2
-- 
2.43.0


From 8af91f894e36309c844ec50ce2c440a739704f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 10/29] fix: spht_slow and ispht_slow did not check the sizes

spht_slow documents ValueError for an nmax or mmax that is too large; both
returned wrong numbers for sizes that spht and ispht refuse.
---
 spherepy/spherepy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 72a1e91..91fdb91 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2001,6 +2001,12 @@ def spht_slow(ssphere, nmax, mmax):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if nmax >= ssphere.nrows - 1:
+        raise ValueError(err_msg['nmax_too_lrg'])
+
+    if mmax >= ssphere.ncols / 2:
+        raise ValueError(err_msg['mmax_too_lrg'])
+
     nrows = ssphere._dsphere.shape[0]
     ncols = ssphere._dsphere.shape[1]
 
@@ -2170,6 +2176,12 @@ def ispht_slow(scoefs, nrows, ncols):
 
     """
 
+    if nrows <= scoefs.nmax:
+        raise ValueError(err_msg['inverse_terr'])
+
+    if ncols < 2 * scoefs.mmax + 2:
+        raise ValueError(err_msg['inverse_terr'])
+
     dnrows = 2 * nrows - 2
 
     if np.mod(ncols, 2) == 1:
-- 
2.43.0


From f72713461981e118d4af176e56a207973ea1baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 11/29] fix: c[0:k, :] accepted a negative k and made an object
 with nmax < 0

---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 91fdb91..02776d3 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -509,7 +509,7 @@ class ScalarCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
@@ -797,7 +797,7 @@ class VectorCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
-- 
2.43.0


From 627df621c2836c0e6b5a68975fd444d41792bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 12/29] fix: sbesselj and sbessely raised IndexError for N = 1

---
 spherepy/sbessel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index f856e6f..e006e16 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -57,6 +57,9 @@ def sbessely(x, N):
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
+    if N == 1:
+        return out
+
     out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
 
     for n in xrange(2, N):
@@ -77,6 +80,9 @@ def sbesselj(x, N):
     z = x ** 2
 
     out[0] = np.sin(x) / x
+    if N == 1:
+        return out
+
     j1 = np.sin(x) / z - np.cos(x) / x
 
     u = 1
-- 
2.43.0


From 2e3a41c511b465828b8a2b8478441e17c8ec2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 13/29] fix: pretty_coefs raised for coefficients with nmax < 2

---
 spherepy/spherepy.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 02776d3..bea52f1 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1814,13 +1814,12 @@ def pretty_coefs(c):
 
     """
 
-    cfit = c[0:2, :]
-    cvec = cfit._vec
+    # the slots of pretty_display_string, in the order of the coefficients
+    modes = [(0, 0), (1, 0), (2, 0), (1, -1), (2, -1), (1, 1), (2, 1),
+             (2, -2), (2, 2)]
 
-    sa = [_tiny_rep(val) for val in cvec]
-
-    while len(sa) < 9:
-        sa.append("")
+    sa = [_tiny_rep(c[n, m]) if n <= c.nmax and np.abs(m) <= c.mmax else ""
+          for n, m in modes]
 
     sa = [sa[n].center(13) for n in range(0, 9)]
 
-- 
2.43.0


From d619acc511bafba68921e0180ece23fde82bfbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 14/29] fix: ispht refused real coefficients such as those of
 mag and abs

The C routine takes complex128 only; the pure Python one takes both.
---
 spherepy/spherepy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index bea52f1..4bf3a9c 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2075,7 +2075,9 @@ def ispht(scoefs, nrows=None, ncols=None):
 
     if use_cext: 
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
-        csphi.sc_to_fc(fdata, scoefs._vec, scoefs._nmax, scoefs._mmax)
+        csphi.sc_to_fc(fdata,
+                       np.ascontiguousarray(scoefs._vec, dtype=np.complex128),
+                       scoefs._nmax, scoefs._mmax)
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
-- 
2.43.0


From d545799243fc63d3a3c09343b992a93cf65a8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 15/29] fix: ispht was wrong for nrows = nmax + 1

The highest Fourier row then stands for both nu = nmax and nu = -nmax, but only
one of them was counted. With nmax = 0 that is an array with no rows at all,
which the C routine wrote to: refuse it.
---
 spherepy/pysphi.py   | 4 ++++
 spherepy/spherepy.py | 4 ++--
 src/csphi.c          | 7 +++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/spherepy/pysphi.py b/spherepy/pysphi.py
index 3ebab4d..db975e0 100644
--- a/spherepy/pysphi.py
+++ b/spherepy/pysphi.py
@@ -246,6 +246,10 @@ def fcvec_m_sc(vec, m, nmax, nrows):
     for k in xrange(0, H):
         F[-(k + 1)] = mm * F[k + 1]
 
+    # the row for nu = nmax is also the row for nu = -nmax
+    if nrows == 2 * nmax:
+        F[nmax] *= 1 + mm
+
     return F
 
 def sc_to_fc(spvec, nmax, mmax, nrows, ncols):
diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 4bf3a9c..a7c160d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2062,7 +2062,7 @@ def ispht(scoefs, nrows=None, ncols=None):
     if ncols == None:
         ncols = 2 * scoefs.mmax + 2
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
@@ -2177,7 +2177,7 @@ def ispht_slow(scoefs, nrows, ncols):
 
     """
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
diff --git a/src/csphi.c b/src/csphi.c
index edbc3e4..443edf1 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -483,6 +483,13 @@ void fcvec_m_sc(SCOMPLEX * vec,
 		fdata[Ncol*(Nrow-1 - k) + M].r = mm*fdata[Ncol*(k+1)+M].r; 
                 fdata[Ncol*(Nrow-1 - k) + M].i = mm*fdata[Ncol*(k+1)+M].i; 
 	}
+
+	//the row for nu = Nmax is also the row for nu = -Nmax
+	if(Nrow == 2*Nmax)
+	{
+		fdata[Ncol*Nmax + M].r *= 1 + mm;
+		fdata[Ncol*Nmax + M].i *= 1 + mm;
+	}
 }
 
 /** 
-- 
2.43.0


From 3b508f57071176d4094d82faa140481ca204a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 16/29] fix: window with a vector of length 1 changed part of
 the coefficients

It was broadcast over the m = 0 modes before the other modes refused it.
---
 spherepy/spherepy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index a7c160d..d1a3887 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -261,6 +261,9 @@ class ScalarCoefs(object):
 
         """
 
+        if len(vec) != self.nmax + 1:
+            raise ValueError(err_msg['dim_no_mtch'])
+
         slce = slice(None, None, None)
         
         self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
-- 
2.43.0


From 72c6880a510f0f1c04fbabee94151d59103e8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 17/29] fix: sbesselj failed for arguments larger than the
 order

The continued fraction started at order N - 1 divides by zero when x**2
equals 4*n**2 - 1 and loses digits near such arguments (for example
sbesselj(sqrt(15), 2), off by a factor of two, and sbesselj(sqrt(35), 3),
which raised ZeroDivisionError).
---
 spherepy/sbessel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index e006e16..5c13611 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -75,8 +75,12 @@ def sbesselj(x, N):
 
     """
 
-    nmax = N - 1;
-    out = np.zeros(N, dtype=np.float64)
+    # The continued fraction is only safe (no division by zero, no loss of
+    # accuracy) when it starts at an order that is larger than the argument.
+    nmax = N - 1
+    if N > 1:
+        nmax = max(nmax, int(np.ceil(np.abs(x))))
+    out = np.zeros(nmax + 1, dtype=np.float64)
     z = x ** 2
 
     out[0] = np.sin(x) / x
@@ -109,7 +113,7 @@ def sbesselj(x, N):
     for n in xrange(1, nmax):
         out[n + 1] *= out[n]
 
-    return out
+    return out[:N]
 
 def sbesselh1(x, N):
     "Spherical Hankel of the first kind"
-- 
2.43.0


From fdd12376166b0f0cdc327d1aaaa62fc18065725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 18/29] fix: complex values could not be stored in coefs made
 from real values

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index d1a3887..edf2f47 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -201,7 +201,7 @@ class ScalarCoefs(object):
         if NC != len(vec):
             raise ValueError(err_msg['scoef_size'])
 
-        self._vec = vec
+        self._vec = np.asarray(vec, dtype=np.complex128)
         self._nmax = nmax
         self._mmax = mmax
 
-- 
2.43.0


From a63e9512a480d874e1b7a0bbbd51317e5ba2e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 19/29] fix: VectorCoefs zeroed the caller's arrays and refused
 real ones

---
 spherepy/spherepy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index edf2f47..15e9c3e 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -654,6 +654,9 @@ class VectorCoefs(object):
         if NC != len(vec1):
             raise ValueError(err_msg['vcoef_size'])
 
+        vec1 = np.array(vec1, dtype=np.complex128)
+        vec2 = np.array(vec2, dtype=np.complex128)
+
         # There are no monopoles for structure VectorCoefs
         vec1[0] = 0 + 1j*0
         vec2[0] = 0 + 1j*0
-- 
2.43.0


From 3a3c5e34d09504d66ab2539431434bfb98689cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 20/29] fix: verify_fdata wrote outside its buffer for Fourier
 data smaller than the coefficients

---
 spherepy/verify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spherepy/verify.py b/spherepy/verify.py
index c3f12fb..0f2cb7b 100644
--- a/spherepy/verify.py
+++ b/spherepy/verify.py
@@ -75,6 +75,11 @@ def verify_fdata(fdatafile, scoeffile):
 
     fsc = fl.load_coef(scoeffile)
     fdata = fl.load_fdata(fdatafile)
+
+    if fdata.shape[0] < max(2 * fsc.nmax, 1) or \
+       fdata.shape[1] < 2 * fsc.mmax + 1:
+        raise ValueError(sp.spherepy.err_msg['dim_no_mtch'])
+
     ffdata = np.zeros([fdata.shape[0], fdata.shape[1]], dtype=np.complex128)
     sp.csphi.sc_to_fc(ffdata, fsc._vec, fsc.nmax, fsc.mmax)
 
-- 
2.43.0


From 64474b4a346fe64c64eedc9584f96b55cc1c65cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 21/29] fix: pcolor_coefs drew every coefficient half a cell
 away from its (m, n)

The values had the shape of the cell corners, which matplotlib takes as
values at the corners, so that every cell was centred on a corner and the
padding row and column were drawn as cells.
---
 spherepy/plot_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/plot_sphere.py b/spherepy/plot_sphere.py
index e07e67c..714e146 100644
--- a/spherepy/plot_sphere.py
+++ b/spherepy/plot_sphere.py
@@ -185,7 +185,7 @@ def pcolor_coefs(coefs):
     x, y = np.meshgrid(np.array(range(-coefs.mmax, coefs.mmax + 2)) - 0.5,
                       np.array(range(0, coefs.nmax + 2)) - 0.5)
 
-    plt.pcolormesh(x, y, z, cmap='jet', vmin=z_min, vmax=z_max)
+    plt.pcolormesh(x, y, z[:-1, :-1], cmap='jet', vmin=z_min, vmax=z_max)
     plt.title('Spherical Coefficients')
     plt.xlabel('m')
     plt.ylabel('n')
-- 
2.43.0


From c3dc0fd9f50aac420e8040db20c5dc898f03166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 22/29] fix: plot_coefs labelled the axis of the degrees n with
 m

---
 spherepy/plot_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/plot_sphere.py b/spherepy/plot_sphere.py
index 714e146..4e4e90b 100644
--- a/spherepy/plot_sphere.py
+++ b/spherepy/plot_sphere.py
@@ -214,7 +214,7 @@ def plot_coefs(coefs):
     for bs in z:
         plt.plot(x, bs)
 
-    plt.xlabel('m')
+    plt.xlabel('n')
     plt.show()
 
 
-- 
2.43.0


From 9a9195c40823fb5e7b7c1d955bdd88e5c41a90b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 23/29] fix: window used values it had already changed when vec
 was a view of the coefficients

---
 spherepy/spherepy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 15e9c3e..aaf8bcb 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -264,6 +264,9 @@ class ScalarCoefs(object):
         if len(vec) != self.nmax + 1:
             raise ValueError(err_msg['dim_no_mtch'])
 
+        # *vec* may be a view of the coefficients that are about to change
+        vec = np.array(vec)
+
         slce = slice(None, None, None)
         
         self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
-- 
2.43.0


From 834ef62ce6bc5ffdea0921d4fc9ea723156d2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 24/29] fix: transforms rejected NumPy integers as sizes with
 the compiled extension

---
 spherepy/spherepy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index aaf8bcb..565b6a5 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1903,7 +1903,7 @@ def spht(ssphere, nmax=None, mmax=None):
     sc = np.zeros(NC, dtype=np.complex128)
     # check if we are using c extended versions of the code or not
     if use_cext: 
-        csphi.fc_to_sc(fdata_extended, sc, nmax, mmax)
+        csphi.fc_to_sc(fdata_extended, sc, int(nmax), int(mmax))
     else:   
         sc = pysphi.fc_to_sc(fdata_extended, nmax, mmax)
                                 
@@ -1958,8 +1958,8 @@ def vspht(vsphere, nmax=None, mmax=None):
         NC = N + mmax * (2 * N - mmax - 1);
         sc1 = np.zeros(NC, dtype=np.complex128)
         sc2 = np.zeros(NC, dtype=np.complex128)
-        csphi.fc_to_sc(Lf1, sc1, nmax, mmax)
-        csphi.fc_to_sc(Lf2, sc2, nmax, mmax)
+        csphi.fc_to_sc(Lf1, sc1, int(nmax), int(mmax))
+        csphi.fc_to_sc(Lf2, sc2, int(nmax), int(mmax))
     else:   
         sc1 = pysphi.fc_to_sc(Lf1, nmax, mmax)
         sc2 = pysphi.fc_to_sc(Lf2, nmax, mmax)
@@ -2086,7 +2086,7 @@ def ispht(scoefs, nrows=None, ncols=None):
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
         csphi.sc_to_fc(fdata,
                        np.ascontiguousarray(scoefs._vec, dtype=np.complex128),
-                       scoefs._nmax, scoefs._mmax)
+                       int(scoefs._nmax), int(scoefs._mmax))
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
@@ -2133,9 +2133,9 @@ def vispht(vcoefs, nrows=None, ncols=None):
         fdata1 = np.zeros([dnrows, ncols], dtype=np.complex128)
         fdata2 = np.zeros([dnrows, ncols], dtype=np.complex128)
         csphi.sc_to_fc(fdata1, sc1._vec,
-                       sc1.nmax, sc1.mmax)
+                       int(sc1.nmax), int(sc1.mmax))
         csphi.sc_to_fc(fdata2, sc2._vec,
-                       sc1.nmax, sc1.mmax)
+                       int(sc1.nmax), int(sc1.mmax))
     else:   
         fdata1 = pysphi.sc_to_fc(sc1._vec,
                             sc1.nmax,
-- 
2.43.0


From 7e617ec3ce59506a0f73bd199b2873e7dbc15466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 25/29] fix: Fourier coefficients of Y_nm for degrees over 1020
 (the starting value of the recursion underflowed)

---
 spherepy/pysphi.py | 26 ++++++++++++++---
 src/csphi.c        | 72 +++++++++++++++++++++++++++++++++++-----------
 2 files changed, 78 insertions(+), 20 deletions(-)

diff --git a/spherepy/pysphi.py b/spherepy/pysphi.py
index db975e0..f9eaa58 100644
--- a/spherepy/pysphi.py
+++ b/spherepy/pysphi.py
@@ -51,12 +51,14 @@ from six.moves import xrange  # @UnresolvedImport
 # Low Level Routines
 #==============================================================================
 
-def ynnm(n, m):
-    """Initial value for recursion formula""" 
+def ynnm_scaled(n, m):
+    """Initial value for recursion formula as (f, e), meaning f * 2 ** e, so 
+    that it neither underflows itself nor on the way""" 
     a = 1.0 / np.sqrt(4.0 * np.pi)
     pm = np.abs(m)
 
     out = 0.0
+    e = 0
 
     if(n < pm):
         out = 0.0
@@ -66,11 +68,22 @@ def ynnm(n, m):
         out = a
         for k in xrange(1, n + 1):
             out *= np.sqrt((2.0 * k + 1.0) / 8.0 / k)
+            if(out < 2.0 ** -600):
+                out *= 2.0 ** 600
+                e -= 600
 
         if(n != pm):
             for k in xrange(n - 1, pm - 1, -1):
                 out *= np.sqrt((n + k + 1.0) / (n - k))
-    return out
+                if(out > 2.0 ** 600):
+                    out *= 2.0 ** -600
+                    e += 600
+    return out, e
+
+def ynnm(n, m):
+    """Initial value for recursion formula""" 
+    out, e = ynnm_scaled(n, m)
+    return np.ldexp(out, e)
 
 def ynunm(n, m, L):
     """Fourier coefficients for spherical harmonics"""
@@ -81,7 +94,7 @@ def ynunm(n, m, L):
     tmp3 = 0
     tmp4 = 0       
     if(np.abs(m) <= n):
-        out[n] = ynnm(n, m)
+        out[n], e = ynnm_scaled(n, m)
         k = n - 2
         if(k >= 0):
             tmp1 = (n - k - 1.0) * (n + k + 2.0)
@@ -95,6 +108,11 @@ def ynunm(n, m, L):
                 tmp3 = (n - k - 3.0) * (n + k + 4.0);
                 tmp4 = ((n - k) * (n + k + 1.0))
                 out[k] = ((tmp1 + tmp2) * out[k + 2] - tmp3 * out[k + 4]) / tmp4
+                if(np.abs(out[k]) > 2.0 ** 700):
+                    out[k:] *= 2.0 ** -600
+                    e += 600
+        if(e != 0):
+            out = np.ldexp(out, e)
     return out    
     
 
diff --git a/src/csphi.c b/src/csphi.c
index 443edf1..aefa3d5 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -36,43 +36,74 @@
 #define B(n,v) (((n)-(v))*((n)+(v)+1.0))
 
 /** 
-* Calculate the starting value y(n|nm) for the recursion formula
-*that generates the Fourier coefficients of the spherical 
-*harmonic Ynm.
-* @brief Calculate y(n|nm) 
+* Calculate the starting value y(n|nm) as a number f and a power of
+* two e, y(n|nm) = f * 2^e, so that it neither underflows itself nor 
+* on the way.
+* @brief Calculate y(n|nm) with its own exponent
 * 
 * @param n The n index in Ynm
 * @param m The m index in Ynm
+* @param e Receives the exponent
 * 
-* @return ynnm The starting value y(n|nm) for the recursion formula
-* @see ynunm()
+* @return f
+* @see ynnm()
 */
-double ynnm(int n, int m)
+static double ynnm_scaled(int n, int m, int* e)
 {
 	int pm,k;
-	double a,ynnm;
+	double a,f;
 
 	a=1.0/sqrt(4.0*PI);
 	pm = abs(m);
+	*e = 0;
 
 	if(n < pm){
-		ynnm=0;
+		f=0;
 	}
 	else if (n==0){
-		ynnm=a;
+		f=a;
 	}
 	else{
-		ynnm=a;
+		f=a;
 		for(k=1; k<=n; k++){
-			ynnm=sqrt((2.0*k+1)/(8.0*k))*ynnm;
+			f=sqrt((2.0*k+1)/(8.0*k))*f;
+			if(f < ldexp(1.0,-600)){
+				f=ldexp(f,600);
+				*e -= 600;
+			}
 		}
 		if(n!=pm){
 			for(k=n-1; k>=pm; k--){
-				ynnm=sqrt(1.0*(n+k+1.0)/(n-k))*ynnm;
+				f=sqrt(1.0*(n+k+1.0)/(n-k))*f;
+				if(f > ldexp(1.0,600)){
+					f=ldexp(f,-600);
+					*e += 600;
+				}
 			}
 		}
 	}
-	return ynnm;
+	return f;
+}
+
+/** 
+* Calculate the starting value y(n|nm) for the recursion formula
+*that generates the Fourier coefficients of the spherical 
+*harmonic Ynm.
+* @brief Calculate y(n|nm) 
+* 
+* @param n The n index in Ynm
+* @param m The m index in Ynm
+* 
+* @return ynnm The starting value y(n|nm) for the recursion formula
+* @see ynunm()
+*/
+double ynnm(int n, int m)
+{
+	int e;
+	double f;
+
+	f = ynnm_scaled(n,m,&e);
+	return ldexp(f,e);
 }
 
 /** 
@@ -89,20 +120,29 @@ double ynnm(int n, int m)
 */
 void ynunm(int en,int em,SFLOAT* y,int len)
 {
-	int k;
+	int k,nu,e;
 
 	for(k=0;k<len;k++)
 		*(y + k)=0;
 
 	if(abs(em) <= en){
-		*(y + en) = ynnm(en,em);
+		*(y + en) = ynnm_scaled(en,em,&e);
 		k=en-2;
 		if(k >= 0){
 			*(y + k) = (B(en,k+1.0)+B(en,k+2.0) - 4.0*em*em)*(*(y + k + 2))/B(en,k);	
 			for(k=k-2;k>=0;k-=2){
 				(*(y + k))=((B(en,k+1.0)+B(en,k+2.0)-4.0*em*em)*(*(y + k + 2))-B(en,k+3.0)*(*(y + k + 4)))/B(en,k);
+				if(fabs(*(y + k)) > ldexp(1.0,700)){
+					for(nu=k;nu<=en;nu+=2)
+						*(y + nu)=ldexp(*(y + nu),-600);
+					e += 600;
+				}
 			}
 		}
+		if(e != 0){
+			for(nu=en%2;nu<=en;nu+=2)
+				*(y + nu)=ldexp(*(y + nu),e);
+		}
 	}
 }
 
-- 
2.43.0


From 69fc434c6b3762ea34239a10eb8cd5bfe64669d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 26/29] fix: spherical Bessel functions of narrow NumPy numbers
 are computed in double precision

---
 spherepy/sbessel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index 5c13611..cf11330 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -54,6 +54,10 @@ def sbessely(x, N):
 
     """
 
+    # all computations are in double precision, whatever the type of x
+    if isinstance(x, (np.integer, np.floating)):
+        x = np.float64(x)
+
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
@@ -75,6 +79,10 @@ def sbesselj(x, N):
 
     """
 
+    # all computations are in double precision, whatever the type of x
+    if isinstance(x, (np.integer, np.floating)):
+        x = np.float64(x)
+
     # The continued fraction is only safe (no division by zero, no loss of
     # accuracy) when it starts at an order that is larger than the argument.
     nmax = N - 1
-- 
2.43.0


From e1177276d670c903f4b3548c38135302e120c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:52 +0000
Subject: [PATCH 27/29] fix: random patterns of sizes given as narrow NumPy
 integers

---
 spherepy/spherepy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 565b6a5..0f7befc 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1671,17 +1671,20 @@ def random_patt_uniform(nrows, ncols, patt_type=scalar):
     if np.mod(ncols, 2) == 1:
         raise ValueError(err_msg['ncols_even'])
 
+    # the product can be too large for narrow NumPy integers
+    size = int(nrows) * int(ncols)
+
     if(patt_type == scalar):
-        vec = np.random.normal(0.0, 1.0, nrows * ncols) + \
-              1j * np.random.normal(0.0, 1.0, nrows * ncols)
+        vec = np.random.normal(0.0, 1.0, size) + \
+              1j * np.random.normal(0.0, 1.0, size)
         return ScalarPatternUniform(vec.reshape((nrows, ncols)),
                                     doublesphere=False)
 
     elif(patt_type == vector):
-        vec1 = np.random.normal(0.0, 1.0, nrows * ncols) + \
-              1j * np.random.normal(0.0, 1.0, nrows * ncols)
-        vec2 = np.random.normal(0.0, 1.0, nrows * ncols) + \
-              1j * np.random.normal(0.0, 1.0, nrows * ncols)
+        vec1 = np.random.normal(0.0, 1.0, size) + \
+              1j * np.random.normal(0.0, 1.0, size)
+        vec2 = np.random.normal(0.0, 1.0, size) + \
+              1j * np.random.normal(0.0, 1.0, size)
         return TransversePatternUniform(vec1.reshape((nrows, ncols)),
                                     vec2.reshape((nrows, ncols)),
                                     doublesphere=False)
-- 
2.43.0


From d2f7dd34ddd9eb585098aca5c852246753080176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:11 +0000
Subject: [PATCH 28/29] fix: a degree can be set from an order of the same
 coefficients

---
 spherepy/spherepy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 0f7befc..dfa7498 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -419,6 +419,10 @@ class ScalarCoefs(object):
                 if (len(val) != 2 * nn + 1):
                     raise AttributeError(err_msg['dim_no_mtch'])
 
+                # *val* may be a view of the coefficients that are about to
+                # change
+                val = [val[k] for k in xrange(0, 2 * nn + 1)]
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
                     self.__setitem__((n, m), val[k])
 
-- 
2.43.0


From 4889a15bc012ed039fb738080d2f358e7e2edf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:17 +0000
Subject: [PATCH 29/29] fix: an integer too large for C is refused by the
 compiled routines

In Python 3 every integer took the branch meant for the small integers of Python 2, where a failed conversion goes unnoticed: the routine ran with -1 (FindQ did not end) and the call raised SystemError.
---
 src/csphi_wrap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/csphi_wrap.c b/src/csphi_wrap.c
index f6fa62e..f7d5bb6 100644
--- a/src/csphi_wrap.c
+++ b/src/csphi_wrap.c
@@ -2966,9 +2966,11 @@ SWIG_AsVal_double (PyObject *obj, double *val)
   if (PyFloat_Check(obj)) {
     if (val) *val = PyFloat_AsDouble(obj);
     return SWIG_OK;
+#if PY_VERSION_HEX < 0x03000000
   } else if (PyInt_Check(obj)) {
     if (val) *val = PyInt_AsLong(obj);
     return SWIG_OK;
+#endif
   } else if (PyLong_Check(obj)) {
     double v = PyLong_AsDouble(obj);
     if (!PyErr_Occurred()) {
@@ -3062,10 +3064,13 @@ SWIG_CanCastAsInteger(double *d, double min, double max) {
 SWIGINTERN int
 SWIG_AsVal_long (PyObject *obj, long* val)
 {
+#if PY_VERSION_HEX < 0x03000000
   if (PyInt_Check(obj)) {
     if (val) *val = PyInt_AsLong(obj);
     return SWIG_OK;
-  } else if (PyLong_Check(obj)) {
+  } else
+#endif
+  if (PyLong_Check(obj)) {
     long v = PyLong_AsLong(obj);
     if (!PyErr_Occurred()) {
       if (val) *val = v;
-- 
2.43.0

