From a7072b55d875dba4d443d89d033da05c19aeaf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 01/22] fix: raise ZeroDivisionError on division by zero
 instead of returning it

---
 spherepy/spherepy.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 24608ca..244c637 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -601,7 +601,7 @@ class ScalarCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -610,7 +610,7 @@ class ScalarCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a
@@ -619,7 +619,7 @@ class ScalarCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -628,7 +628,7 @@ class ScalarCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -881,7 +881,7 @@ class VectorCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -890,7 +890,7 @@ class VectorCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -899,7 +899,7 @@ class VectorCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -908,7 +908,7 @@ class VectorCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1132,7 +1132,7 @@ class ScalarPatternUniform(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1141,7 +1141,7 @@ class ScalarPatternUniform(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1150,7 +1150,7 @@ class ScalarPatternUniform(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1159,7 +1159,7 @@ class ScalarPatternUniform(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1332,7 +1332,7 @@ class TransversePatternUniform:
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1341,7 +1341,7 @@ class TransversePatternUniform:
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1350,7 +1350,7 @@ class TransversePatternUniform:
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1359,7 +1359,7 @@ class TransversePatternUniform:
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a    
-- 
2.43.0


From ea489bb7a7619e0715fabd18d1da1c36952601ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 02/22] fix: compare both operands' sizes when combining
 VectorCoefs

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 244c637..b069d72 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -819,7 +819,7 @@ class VectorCoefs(object):
         @wraps(func)
         def verif(self, vcoef):
             if isinstance(vcoef, VectorCoefs):
-                if len(vcoef.scoef1._vec) == len(vcoef.scoef1._vec):
+                if self.nmax == vcoef.nmax and self.mmax == vcoef.mmax:
                     return VectorCoefs(func(self, self.scoef1._vec,
                                                   vcoef.scoef1._vec),
                                        func(self, self.scoef2._vec,
-- 
2.43.0


From 16cc2e9e8b5bd39c7e8b2ea8124b942c6d954559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 03/22] fix: reject ScalarCoefs operands of equal length but
 different nmax, mmax

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index b069d72..89b6999 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -545,7 +545,7 @@ class ScalarCoefs(object):
         @wraps(func)
         def verif(self, scoef):
             if isinstance(scoef, ScalarCoefs):
-                if len(self._vec) == len(scoef._vec):
+                if self.nmax == scoef.nmax and self.mmax == scoef.mmax:
                     return ScalarCoefs(func(self, self._vec, scoef._vec),
                                         self.nmax,
                                         self.mmax)
-- 
2.43.0


From fba57a3dd1a6de3d7aaf4c9cd0acbee67ecd5897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 04/22] fix: use the second component in L2_coef of VectorCoefs

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 89b6999..d7b1e3d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2187,7 +2187,7 @@ def L2_coef(coef):
         return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
     elif isinstance(coef, VectorCoefs):
         l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
+        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
     
 def L2_patt(patt):
-- 
2.43.0


From bac34a85a228b9d1d8b0a15f6e4379f6046b8168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 05/22] fix: check the phi component in
 TransversePatternUniform.single_val

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index d7b1e3d..3f02bba 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1238,7 +1238,7 @@ class TransversePatternUniform:
         """
         
         sv_t = self._sv(self._tdsphere)
-        sv_p = self._sv(self._tdsphere)
+        sv_p = self._sv(self._pdsphere)
         
         return (sv_t, sv_p)
         
-- 
2.43.0


From 30a9232f85b7352459e04a6159329058cb088322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 06/22] fix: mag2 of ScalarCoefs returns the squared magnitude

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 3f02bba..4086e02 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1710,7 +1710,7 @@ def mag2(sobj):
     if isinstance(sobj, ScalarPatternUniform):
         return np.abs(sobj.array) ** 2
     elif isinstance(sobj, ScalarCoefs):
-        return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
+        return ScalarCoefs(np.abs(sobj._vec) ** 2, sobj.nmax, sobj.mmax)
     elif isinstance(sobj, TransversePatternUniform):
         return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
     elif isinstance(sobj, VectorCoefs):
-- 
2.43.0


From e0a6d64a9093493c68eb95aae9fd5c26f9ade530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 07/22] fix: row assignment c[n,:] takes 2*min(n,mmax)+1 values

---
 spherepy/spherepy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 4086e02..175a289 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -405,13 +405,14 @@ class ScalarCoefs(object):
                 if (n > self.nmax) or (n < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                if (len(val) != 2 * n + 1):
-                    raise AttributeError(err_msg['dim_no_mtch'])
-
                 if n <= self.mmax:
                     nn = n
                 else:
                     nn = self.mmax            
+
+                if (len(val) != 2 * nn + 1):
+                    raise AttributeError(err_msg['dim_no_mtch'])
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
                     self.__setitem__((n, m), val[k])
 
-- 
2.43.0


From 0cac152751c2f3d000727b88c86e9ab01aa6bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 08/22] fix: reject truncation c[0:k,:] with negative k

---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 175a289..9e3e379 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -509,7 +509,7 @@ class ScalarCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
@@ -797,7 +797,7 @@ class VectorCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
-- 
2.43.0


From d3c2b2cc676c443b963a3ac9e0a94e96c8e8b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 09/22] fix: reject a one-row ispht pattern, which the native
 code writes past

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 9e3e379..abe3a29 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2055,7 +2055,7 @@ def ispht(scoefs, nrows=None, ncols=None):
     if ncols == None:
         ncols = 2 * scoefs.mmax + 2
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
-- 
2.43.0


From d5a4b1636d3ec84e95a28eb8893273abc80d6eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 10/22] fix: sph_harmonic_tp samples phi at ncols points

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index abe3a29..ca17f2f 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2233,7 +2233,7 @@ def sph_harmonic_tp(nrows, ncols, n, m):
     yvec = np.concatenate([num, nuvec])
     
     theta = np.linspace(0.0, np.pi, nrows)
-    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols)
+    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols, ncols)
     nu = np.array(range(-n, n + 1), dtype=np.complex128)
     
     out = np.zeros([nrows, ncols], dtype=np.complex128)
-- 
2.43.0


From 19ae22d20d5f7185d3260d1bd4c626b3e8f5516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 11/22] fix: spht and vspht honour mmax when nmax is not given

---
 spherepy/spherepy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index ca17f2f..226150a 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1861,7 +1861,8 @@ def spht(ssphere, nmax=None, mmax=None):
 
     if nmax == None:
         nmax = ssphere.nrows - 2 
-        mmax = int(ssphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(ssphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
@@ -1906,7 +1907,8 @@ def vspht(vsphere, nmax=None, mmax=None):
     
     if nmax == None:
         nmax = vsphere.nrows - 2 
-        mmax = int(vsphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(vsphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
-- 
2.43.0


From 00fdb49366abbf24cb813e1ef0a861489662f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 12/22] fix: double_sphere averages tiny samples whose product
 underflows

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 226150a..e8ac89d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1775,7 +1775,7 @@ def double_sphere(cdata, sym):
                           np.mod(int(np.floor(ncols / 2)) + m, ncols)]
             t = cdata[n, m]
 
-            if s * t == 0:
+            if s == 0 or t == 0:
                 ddata[n, m] = s + t
             else:
                 ddata[n, m] = (s + t) / 2
-- 
2.43.0


From 87460ef0cf0eae7fa5b7b4424f310dc8f3e56fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 13/22] fix: window checks the length of its argument before
 changing anything

---
 spherepy/spherepy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index e8ac89d..d541038 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -261,6 +261,9 @@ class ScalarCoefs(object):
 
         """
 
+        if len(vec) != self.nmax + 1:
+            raise ValueError(err_msg['dim_no_mtch'])
+
         slce = slice(None, None, None)
         
         self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
-- 
2.43.0


From ef5529bee774f19062631e4bfc2693ec5e6a9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 14/22] fix: ispht accepts coefficients held in a real array

---
 spherepy/spherepy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index d541038..0ffab43 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2073,7 +2073,8 @@ def ispht(scoefs, nrows=None, ncols=None):
 
     if use_cext: 
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
-        csphi.sc_to_fc(fdata, scoefs._vec, scoefs._nmax, scoefs._mmax)
+        vec = np.ascontiguousarray(scoefs._vec, dtype=np.complex128)
+        csphi.sc_to_fc(fdata, vec, scoefs._nmax, scoefs._mmax)
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
-- 
2.43.0


From eb26b87f8563336211af43fd92c457ce2dd18864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 15/22] fix: norms raise TypeError for unknown types instead of
 returning None

---
 spherepy/spherepy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 0ffab43..5739049 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2196,6 +2196,8 @@ def L2_coef(coef):
         l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
         l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
+    else:
+        raise TypeError(err_msg['uknown_typ'])
     
 def L2_patt(patt):
 
@@ -2205,6 +2207,8 @@ def L2_patt(patt):
         l1 = np.sqrt(np.sum(np.abs(patt._tdsphere) ** 2))
         l2 = np.sqrt(np.sum(np.abs(patt._pdsphere) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
+    else:
+        raise TypeError(err_msg['uknown_typ'])
 
 def LInf_coef(coef):
 
@@ -2214,6 +2218,8 @@ def LInf_coef(coef):
         l1 = np.max(np.abs(coef.scoef1._vec))
         l2 = np.max(np.abs(coef.scoef2._vec))
         return np.sqrt(l1 ** 2 + l2 ** 2)
+    else:
+        raise TypeError(err_msg['uknown_typ'])
     
 def LInf_patt(patt):
 
@@ -2223,6 +2229,8 @@ def LInf_patt(patt):
         l1 = np.amax(np.abs(patt._tdsphere))
         l2 = np.amax(np.abs(patt._pdsphere))
         return np.sqrt(l1 ** 2 + l2 ** 2)
+    else:
+        raise TypeError(err_msg['uknown_typ'])
         
 
 def sph_harmonic_tp(nrows, ncols, n, m):
-- 
2.43.0


From 479185edc56fda2f83576aa05e68f6dd3f4bb275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 16/22] fix: reject negative nmax and mmax, which crash the
 native code

---
 spherepy/spherepy.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 5739049..f8c0021 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -73,6 +73,7 @@ vector = 1
 
 err_msg = {}
 err_msg['nmax_g_mmax'] = "nmax must be greater than or equal to mmax"
+err_msg['neg_size'] = "nmax and mmax must not be negative"
 err_msg['ncols_even'] = "the number of columns must be even"  
 err_msg['tuple_2_el'] = "tuple must have 2 elements"
 err_msg['ukn_coef_t'] = "unknown coefficient type"
@@ -196,6 +197,9 @@ class ScalarCoefs(object):
         if mmax > nmax:
             raise ValueError(err_msg['nmax_g_mmax'])
 
+        if mmax < 0:
+            raise ValueError(err_msg['neg_size'])
+
         N = nmax + 1;
         NC = N + mmax * (2 * N - mmax - 1);
         if NC != len(vec):
@@ -649,6 +653,9 @@ class VectorCoefs(object):
         if mmax > nmax:
             raise ValueError(err_msg['nmax_g_mmax'])
 
+        if mmax < 0:
+            raise ValueError(err_msg['neg_size'])
+
         N = nmax + 1;
         NC = N + mmax * (2 * N - mmax - 1);
         if NC != len(vec1):
@@ -1872,6 +1879,9 @@ def spht(ssphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['neg_size'])
+
     if nmax >= ssphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
@@ -1918,6 +1928,9 @@ def vspht(vsphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['neg_size'])
+
     if nmax >= vsphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
-- 
2.43.0


From fda5fadac90186f1c048f0b03bc579f28ebdf787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 17/22] fix: sbessely returns one value for N = 1

---
 spherepy/sbessel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index f856e6f..5d00fe5 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -57,7 +57,8 @@ def sbessely(x, N):
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
-    out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
+    if N > 1:
+        out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
 
     for n in xrange(2, N):
         out[n] = ((2.0 * n - 1.0) / x) * out[n - 1] - out[n - 2]
-- 
2.43.0


From 37e4649450df9bcb31b26cf7d5ac058bc1722414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 18/22] fix: sbesselj returns one value for N = 1

---
 spherepy/sbessel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index 5d00fe5..4522b7e 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -78,6 +78,9 @@ def sbesselj(x, N):
     z = x ** 2
 
     out[0] = np.sin(x) / x
+    if N == 1:
+        return out
+
     j1 = np.sin(x) / z - np.cos(x) / x
 
     u = 1
-- 
2.43.0


From 02923c3c75b585283d6e406fd7d6bc0e86c04bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 19/22] fix: verify_fdata rejects file data too small for the
 native transform

---
 spherepy/verify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spherepy/verify.py b/spherepy/verify.py
index c3f12fb..dd79117 100644
--- a/spherepy/verify.py
+++ b/spherepy/verify.py
@@ -75,6 +75,10 @@ def verify_fdata(fdatafile, scoeffile):
 
     fsc = fl.load_coef(scoeffile)
     fdata = fl.load_fdata(fdatafile)
+    if (fdata.shape[0] < 2 * fsc.nmax + 2 or 
+        fdata.shape[1] < 2 * fsc.mmax + 2):
+        raise ValueError(sp.err_msg['inverse_terr'])
+
     ffdata = np.zeros([fdata.shape[0], fdata.shape[1]], dtype=np.complex128)
     sp.csphi.sc_to_fc(ffdata, fsc._vec, fsc.nmax, fsc.mmax)
 
-- 
2.43.0


From 3569b8cf50aa3888060262321da93670961e45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 20/22] fix: matplotlibensure passes keyword arguments on

---
 spherepy/plot_sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/plot_sphere.py b/spherepy/plot_sphere.py
index e07e67c..fba45b0 100644
--- a/spherepy/plot_sphere.py
+++ b/spherepy/plot_sphere.py
@@ -63,11 +63,11 @@ def matplotlibensure(func):
     """If matplotlib isn't installed, this decorator alerts the user and 
     suggests how one might obtain the package."""  
     @wraps(func)
-    def wrap(*args):
+    def wrap(*args, **kwargs):
         if MPLINSTALLED == False:
             raise ImportError(msg)
         
-        return func(*args)   
+        return func(*args, **kwargs)   
         
     return wrap
 
-- 
2.43.0


From d6e5b5bb84ff5fca15e13dc1e1342370921a5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 21/22] fix: ones_coefs and random_coefs reject negative mmax
 for vectors

---
 spherepy/spherepy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index f8c0021..9e26f51 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1465,6 +1465,9 @@ def ones_coefs(nmax, mmax, coef_type=scalar):
 
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
+
+    if(mmax < 0):
+        raise ValueError(err_msg['neg_size'])
     
     if(coef_type == scalar):
         L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
@@ -1516,6 +1519,9 @@ def random_coefs(nmax, mmax, mu=0.0, sigma=1.0, coef_type=scalar):
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if(mmax < 0):
+        raise ValueError(err_msg['neg_size'])
+
     if(coef_type == scalar):
         L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
         vec = np.random.normal(mu, sigma, L) + \
-- 
2.43.0


From 0c3e3496c816af6b6d8249fc21c5ba8409f78da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 22/22] fix: VectorCoefs does not zero the caller's arrays

---
 spherepy/spherepy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 9e26f51..364d63f 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -661,7 +661,10 @@ class VectorCoefs(object):
         if NC != len(vec1):
             raise ValueError(err_msg['vcoef_size'])
 
-        # There are no monopoles for structure VectorCoefs
+        # There are no monopoles for structure VectorCoefs (the caller's arrays
+        # are left as they are)
+        vec1 = np.copy(vec1)
+        vec2 = np.copy(vec2)
         vec1[0] = 0 + 1j*0
         vec2[0] = 0 + 1j*0
 
-- 
2.43.0

