From 2913463170d800e4aafbdc08f6cb4f2e5c6d1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 01/25] fix: Python ELMReLU second and higher derivatives had
 transposed shape

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8556a15..cf94d3b 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -711,7 +711,7 @@ class ELMReLU(ELM):
         elif d == 1:
             return self._w * np.where(self._w * z + self._b > 0.0, 1.0, 0.0)
         else:
-            return np.zeros((self._m, z.size))
+            return np.zeros((z.size, self._m))
 
 
 class ELMSigmoid(ELM):
-- 
2.43.0


From 14742077fa829b7b8d262e9798ffe316bcb6b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 02/25] fix: wrong-dimension error in Python n-D basis
 functions referenced an unset variable

---
 src/tfc/utils/BF_Py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index cf94d3b..b99fa60 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1028,7 +1028,7 @@ class nBasisFunc(BasisFunc):
         N = x.shape[1]
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
@@ -1357,7 +1357,7 @@ class nELM(nBasisFunc):
         # Check dimensions
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
-- 
2.43.0


From fe69527f9b4d6e553fceb637fb7e27108f4130a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 03/25] fix: Python nELMReLU first derivative failed when d is
 a tuple, as mtfc passes it

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index b99fa60..252d971 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1421,7 +1421,7 @@ class nELMReLU(nELM):
         if dorder > 1:
             zeroFlag = True
         elif dorder == 1:
-            ind = np.where(d == 1)[0][0]
+            ind = np.where(np.asarray(d) == 1)[0][0]
 
         if zeroFlag:
             # Derivative order is high enough that everything is zeros
-- 
2.43.0


From f19a98beaabae2faa42a7ae785d7f73271aac335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 04/25] fix: Python Fourier basis dropped the data type
 (imaginary part) of its input

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 252d971..e345d9a 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -547,7 +547,7 @@ class FS(BasisFunc):
             Basis function values.
         """
         N = np.size(z)
-        F = np.zeros((N, self._m))
+        F = np.zeros((N, self._m), dtype=z.dtype)
         if d == 0:
             F[:, 0] = 1.0
             for k in range(1, self._m):
-- 
2.43.0


From ecdc64613e82871cad60e75c4b825ea4ebf40249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 05/25] fix: utfc basis functions could not be differentiated
 along an all-zero tangent

---
 src/tfc/utfc.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b00afda..1612729 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,21 +361,15 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (dx is ad.Zero):
-                flag = onp.any(dx != 0)
-                if flag:
-                    if len(dx.shape) == 1:
-                        out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
-                    else:
-                        out_tans = Hjax(x, d=d + 1, full=full) * dx
-            else:
-                dim0 = x.shape[0]
-                if full:
-                    dim1 = self.basisClass.m
+            out = Hjax(x, d=d, full=full)
+            if not (type(dx) is ad.Zero) and onp.any(dx != 0):
+                if len(dx.shape) == 1:
+                    out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
                 else:
-                    dim1 = self.basisClass.m - self.basisClass.numC
-                out_tans = np.zeros((dim0, dim1))
-            return (Hjax(x, d=d, full=full), out_tans)
+                    out_tans = Hjax(x, d=d + 1, full=full) * dx
+            else:
+                out_tans = np.zeros_like(out)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From f854df22b7eaf2f7b259b4d9316c1adc4b1247fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 06/25] fix: LsClass.run without timer used an undefined name

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d445595..07435a2 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1036,7 +1036,7 @@ class LsClass:
             return zXi, stop - start
 
         else:
-            zXi += ls(zXi, *args)
+            zXi += self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From b7815a899ee2b33f00a37705cedfb1255fde7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 07/25] fix: pe fixed the wrong arguments when
 constant_arg_nums is not ascending

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 07435a2..fc12575 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -235,7 +235,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
     # Reorder to put knowns first, then unknowns
     order = [k for k in range(len(args))]
     for k in constant_arg_nums:
-        order.insert(0, order.pop(k))
+        order.insert(0, order.pop(order.index(k)))
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
 
-- 
2.43.0


From f790e2ed10c8b4e9bd37aa844dfe5fd658dc5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:22 +0000
Subject: [PATCH 08/25] fix: LsClass.run modified the caller's dictionary in
 place

---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index fc12575..d3a902b 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1031,12 +1031,12 @@ class LsClass:
             start = timer()
             xi = self._ls(zXi, *args).block_until_ready()
             stop = timer()
-            zXi += xi
+            zXi = zXi + xi
 
             return zXi, stop - start
 
         else:
-            zXi += self._ls(zXi, *args)
+            zXi = zXi + self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From 20f5b04ce6d786bef202d310e1364372eee3325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:22 +0000
Subject: [PATCH 09/25] fix: least-squares solvers reordered the caller's
 constant_arg_nums list

---
 src/tfc/utils/TFCUtils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d3a902b..f46c6a4 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -861,9 +861,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -988,9 +986,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1229,9 +1225,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1428,9 +1422,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From 2c02fe2f427969ff07a1763941f2fe4fe5f4fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:36 +0000
Subject: [PATCH 10/25] fix: NLLS and NllsClass ignored a user-specified cond
 function

---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index f46c6a4..28220c8 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1179,16 +1179,18 @@ def NLLS(
     else:
         dictFlag = False
 
-    def cond(val):
-        return np.all(
-            np.array(
-                [
-                    np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                    val["it"] < maxIter,
-                    np.max(np.abs(val["dxi"])) > tol,
-                ]
+    if cond is None:
+
+        def cond(val):
+            return np.all(
+                np.array(
+                    [
+                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                        val["it"] < maxIter,
+                        np.max(np.abs(val["dxi"])) > tol,
+                    ]
+                )
             )
-        )
 
     if J is None:
         if dictFlag:
@@ -1374,16 +1376,18 @@ class NllsClass:
         else:
             self._dictFlag = False
 
-        def cond(val):
-            return np.all(
-                np.array(
-                    [
-                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                        val["it"] < maxIter,
-                        np.max(np.abs(val["dxi"])) > tol,
-                    ]
+        if cond is None:
+
+            def cond(val):
+                return np.all(
+                    np.array(
+                        [
+                            np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                            val["it"] < maxIter,
+                            np.max(np.abs(val["dxi"])) > tol,
+                        ]
+                    )
                 )
-            )
 
         if J is None:
             if self._dictFlag:
-- 
2.43.0


From cbe31bf22a90dbe0c30c98fcf14efe08aff741c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:36 +0000
Subject: [PATCH 11/25] fix: TFCDict arithmetic silently ignored NumPy arrays

---
 src/tfc/utils/TFCUtils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 28220c8..3d7ca18 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -446,7 +446,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]]
@@ -469,7 +469,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]]
@@ -493,7 +493,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]]
@@ -517,7 +517,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]]
@@ -556,7 +556,7 @@ class TFCDictRobust(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
-        if all(isinstance(value, np.ndarray) for value in self.values()):
+        if all(isinstance(value, (np.ndarray, onp.ndarray)) for value in self.values()):
             arrLen = 0
             self._slices = [
                 slice(0, 0, 1),
@@ -653,7 +653,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -676,7 +676,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -700,7 +700,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -724,7 +724,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
-- 
2.43.0


From bd3b05aca92a8c5ee0c762a9ad3bbf916b787b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:36 +0000
Subject: [PATCH 12/25] fix: adding or subtracting TFCDicts holding NumPy
 arrays modified the left operand

---
 src/tfc/utils/TFCUtils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 3d7ca18..db605a9 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -492,11 +492,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]]
         return out
 
     def __sub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -516,11 +516,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]]
         return out
 
 
@@ -699,11 +699,13 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return out
 
     def __sub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -723,11 +725,13 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return out
 
 
-- 
2.43.0


From f0f21ec474367cbcbc022e655e6871ae04e0b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:16 +0000
Subject: [PATCH 13/25] fix: setting CeSolver.phi left a stale constrained
 expression

---
 src/tfc/utils/CeSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 015c523..a58f957 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -154,6 +154,7 @@ class CeSolver:
         """
         self._phi = phi
         self._phi_stale = False
+        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
-- 
2.43.0


From fd0d792047c0514fb26d5ec7ed3ef0f43744c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:16 +0000
Subject: [PATCH 14/25] fix: TfcPrinter printed higher-order and multivariate
 derivatives incorrectly

---
 src/tfc/utils/CeSolver.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index a58f957..d0668c2 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -486,14 +486,10 @@ class TfcPrinter(PythonCodePrinter):
         # See the example of nested modulo below in the custom printing
         # method section.
         name = function.func.__name__
-        parenthesis_counter = 0
-        ret = ""
+        ret = name
         for pv in position_vars:
             for _ in range(pv[1]):
-                ret += self._print("egrad(" + name + "," + str(pv[0]))
-                parenthesis_counter += 1
-        for _ in range(parenthesis_counter):
-            ret += self._print(")")
-        ret += "(" + "".join(self._print(i[0]) for i in vars) + ")"
+                ret = self._print("egrad(" + ret + "," + str(pv[0]) + ")")
+        ret += "(" + ",".join(self._print(i) for i in function_vars) + ")"
 
         return ret
-- 
2.43.0


From bb0f09f29f652d8ec953945f787ed26018cb73cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 15/25] fix: TfcPrinter substitution replaced parts of longer
 names

---
 src/tfc/utils/CeSolver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index d0668c2..bc0eda9 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -1,3 +1,4 @@
+import re
 import sympy as sp
 from sympy import Expr
 from sympy.core.function import AppliedUndef
@@ -451,9 +452,9 @@ class TfcPrinter(PythonCodePrinter):
         """
         expr, old, new = subs.args
         expr = self._print(expr)
-        for k in range(len(old)):
-            expr = expr.replace(self._print(old[k]), self._print(new[k]))
-        return expr
+        subs_map = {self._print(old[k]): self._print(new[k]) for k in range(len(old))}
+        pattern = "|".join(re.escape(k) for k in subs_map)
+        return re.sub(rf"\b(?:{pattern})\b", lambda k: subs_map[k.group(0)], expr)
 
     def _print_Derivative(self, expr: Expr) -> str:
         """
-- 
2.43.0


From cf17389bfbf343b947eb9b56ce799aac5e70d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 16/25] fix: mtfc failed when x0 is None

---
 src/tfc/mtfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 910dbe3..8eb6892 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -335,7 +335,7 @@ class mtfc:
                 j = self.n[k] - 1
                 # Multiplying x0 by 0 here so the array will have the
                 # same type as x0.
-                I = onp.linspace(0 * x0[0], j, j + 1).reshape((j + 1, 1))
+                I = onp.linspace(0 * self.x0[0], j, j + 1).reshape((j + 1, 1))
                 dark = onp.cos(np.pi * (j - I) / float(j))
                 dark = onp.hstack([dark] * nProd).flatten()
                 self.z[k, :] = onp.array([dark] * nStack).flatten()
-- 
2.43.0


From fdaa29f4b8fa90564e866f10dbba143eb83429b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 17/25] fix: nC given as a NumPy array was not accepted

---
 src/tfc/mtfc.py | 2 +-
 src/tfc/utfc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 8eb6892..c7b77f4 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -201,7 +201,7 @@ class mtfc:
         if basis in self._elm_classes:
             if isinstance(nC, int):
                 self.nC = onp.arange(nC, dtype=onp.int32)
-            elif isinstance(nC, np.ndarray):
+            elif isinstance(nC, (np.ndarray, onp.ndarray)):
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
             elif isinstance(nC, list):
                 self.nC = onp.array(nC, dtype=np.int32)
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 1612729..c314fe1 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -97,7 +97,7 @@ class utfc:
 
         if isinstance(nC, int):
             self.nC: npt.NDArray = onp.arange(nC, dtype=onp.int32)
-        elif isinstance(nC, np.ndarray):
+        elif isinstance(nC, (np.ndarray, onp.ndarray)):
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
         elif isinstance(nC, list):
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
-- 
2.43.0


From c7ba26e35b711d86c77ebaa80ee1a621680624ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 18/25] fix: mtfc treated a one-element list in nC as a count
 of functions

---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index c7b77f4..f9d6748 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -244,7 +244,7 @@ class mtfc:
                         nCk = np.array(cast(IntListOrArray, nC)[k]).flatten()
                     else:
                         nCk = np.array([cast(IntListOrArray, nC)[k]]).flatten()
-                    if nCk.shape[0] == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         maxk = nCk[0]
                     else:
                         maxk = nCk.shape[0]
@@ -263,7 +263,7 @@ class mtfc:
                     else:
                         nCk = onp.array([cast(IntListOrArray, nC)[k]]).flatten()
                     j = nCk.shape[0]
-                    if j == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         nCk = onp.arange(nCk[0])
                         j = nCk.shape[0]
                     if j < nCmax:
-- 
2.43.0


From b456da081fc6e34a3cee4dd9478ae53e81356451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:36 +0000
Subject: [PATCH 19/25] fix: C++ basis functions misread non-contiguous NumPy
 arrays

---
 src/tfc/utils/BF_Py.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index de1a403..462eff2 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -6,7 +6,7 @@
 namespace py = pybind11;
 
 template <typename T> void add1DInit(auto &c) {
-    c.def(py::init([](double x0, double xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](double x0, double xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
@@ -28,7 +28,7 @@ template <typename T> void add1DInit(auto &c) {
 }
 
 template <typename T> void addNdInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0, py::array_t<double, py::array::c_style | py::array::forcecast> xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -57,7 +57,7 @@ template <typename T> void addNdInit(auto &c) {
 }
 
 template <typename T> void addNdElmInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0, py::array_t<double, py::array::c_style | py::array::forcecast> xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -175,7 +175,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](ELM &self) {
@@ -189,7 +189,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> w) { self.setW(w.data(), w.size()); });
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> w) { self.setW(w.data(), w.size()); });
 
     auto PyELMSigmoid = py::class_<ELMSigmoid, ELM>(m, "ELMSigmoid");
     add1DInit<ELMSigmoid>(PyELMSigmoid);
@@ -293,7 +293,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](nELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](nELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](nELM &self) {
-- 
2.43.0


From 28e9a6dc3462572a29d046b89d8e22cf28eb61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:03 +0000
Subject: [PATCH 20/25] fix: pe rejected structured (pytree) constant arguments

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index db605a9..765dedc 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -261,7 +261,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                         )
                     )[0]
                 else:
-                    return PartialVal.known(a)
+                    return [PartialVal.known(x) for x in tree_flatten(a)[0]]
 
             part_args = []
             for k, a in enumerate(dark):
-- 
2.43.0


From ae918a9241ecaadd7bfdebbfa31c600297a67300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:17 +0000
Subject: [PATCH 21/25] fix: pe dropped outputs that depend only on constant
 arguments

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 765dedc..c38bcc7 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -276,7 +276,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
             wrap = lu.wrap_init(f, debug_info=debug_info(f.__name__, f, [], {}))
             _, in_tree = tree_flatten((dark, {}))
             wrap_flat, out_tree = flatten_fun(wrap, in_tree)
-            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
+            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args, instantiate=True)
 
             # Create new, partially evaluated function
             if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-- 
2.43.0


From aae80de08c1e0d21fa7a7faa00e9e3b5f1f755d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 22/25] fix: ScaledQrLs scales the rows of the solution when B
 has several columns

S * M broadcasts the scaling over the columns of M, so a right-hand side with
one column gave an m x m matrix, one with m columns a wrong solution, and any
other number of columns an error.
---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index c38bcc7..8ce5712 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1706,7 +1706,7 @@ def ScaledQrLs(A: np.ndarray, B: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
     S = 1.0 / np.sqrt(np.sum(A * A, 0))
     S = np.reshape(S, (A.shape[1],))
     q, r = np.linalg.qr(A.dot(np.diag(S)))
-    x: np.ndarray = S * np.linalg.multi_dot([_MatPinv(r), q.T, B])
+    x: np.ndarray = np.linalg.multi_dot([np.diag(S), _MatPinv(r), q.T, B])
     cn: np.ndarray = cast(np.ndarray, np.linalg.cond(r))
     return x, cn
 
-- 
2.43.0


From 00923e7d1ba06c04b96b5830c8b458d1a7542857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:17 +0000
Subject: [PATCH 23/25] fix: TfcPrinter prints the arguments of functions with
 the names of np

---
 src/tfc/utils/CeSolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index bc0eda9..3e6d75b 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -434,7 +434,8 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
-        return self._print(str(expr))
+        args = ", ".join(self._print(arg) for arg in expr.args)
+        return f"{expr.func.__name__}({args})"
 
     def _print_Subs(self, subs: Expr) -> str:
         """
-- 
2.43.0


From 6542da293dbb25251f8b28a17e109ac1552c0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:17 +0000
Subject: [PATCH 24/25] fix: TfcPrinter brackets the parts of a printed
 substitution

---
 src/tfc/utils/CeSolver.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 3e6d75b..4b4f566 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -2,6 +2,7 @@ import re
 import sympy as sp
 from sympy import Expr
 from sympy.core.function import AppliedUndef
+from sympy.printing.precedence import PRECEDENCE
 from sympy.printing.pycode import PythonCodePrinter
 from sympy.simplify.simplify import nc_simplify
 from .tfc_types import ConstraintOperators, Exprs, Any, Literal, ConstraintOperator
@@ -452,10 +453,19 @@ class TfcPrinter(PythonCodePrinter):
             String to print.
         """
         expr, old, new = subs.args
-        expr = self._print(expr)
-        subs_map = {self._print(old[k]): self._print(new[k]) for k in range(len(old))}
+
+        # Parentheses are needed unless the values are plain function arguments
+        if isinstance(expr, sp.Derivative) and all(arg.is_Symbol for arg in expr.expr.args):
+            level = 0
+        else:
+            level = PRECEDENCE["Func"]
+        text = self.parenthesize(expr, level, strict=True)
+        subs_map = {
+            self._print(old[k]): self.parenthesize(new[k], level, strict=True)
+            for k in range(len(old))
+        }
         pattern = "|".join(re.escape(k) for k in subs_map)
-        return re.sub(rf"\b(?:{pattern})\b", lambda k: subs_map[k.group(0)], expr)
+        return re.sub(rf"\b(?:{pattern})\b", lambda k: subs_map[k.group(0)], text)
 
     def _print_Derivative(self, expr: Expr) -> str:
         """
-- 
2.43.0


From 6e9433a473e300390d647f003b291d95326b71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:17 +0000
Subject: [PATCH 25/25] fix: Latex tables abbreviated rows of more than 1000
 entries

---
 src/tfc/utils/Latex.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/Latex.py b/src/tfc/utils/Latex.py
index 819cac1..cabba49 100644
--- a/src/tfc/utils/Latex.py
+++ b/src/tfc/utils/Latex.py
@@ -70,7 +70,10 @@ class table:
                 numRows = arrIn.shape[0]
                 for k in range(numRows):
                     out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                        arrIn[k, :],
+                        separator=" & ",
+                        formatter={"float_kind": lambda x: form % x},
+                        threshold=arrIn.shape[1],
                     ).strip("[]")
                     out += "\\\\\n\\hline\n"
             else:
@@ -84,7 +87,10 @@ class table:
                 for k in range(numRows):
                     out += rowHeader[k] + " & "
                     out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                        arrIn[k, :],
+                        separator=" & ",
+                        formatter={"float_kind": lambda x: form % x},
+                        threshold=arrIn.shape[1],
                     ).strip("[]")
                     out += "\\\\\n\\hline\n"
             else:
-- 
2.43.0

