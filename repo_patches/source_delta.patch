From 6298b270d53d478577fc713ab36a1385a834e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 01/28] fix: Collocation moves inner nodes onto the interval
 bounds

np.allclose uses absolute and relative tolerances that have nothing to do with
the length of the interval, so e.g. all Gauss nodes of [0, 1e-9], or the outer
ones of [1e5, 1e5+1], were forced onto a bound. Only set the bounds that the
quadrature type prescribes.
---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..317cda5 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From 5390ae585bd807c9af1a097e102992b475aff3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 02/28] fix: Collocation right boundary is tRight, not 1

hCoeffs and rightIsNode ignored the tRight parameter.
---
 qmat/qcoeff/collocation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 317cda5..78b641b 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -91,7 +91,11 @@ class Collocation(QGenerator):
 
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
+
+    @property
+    def rightIsNode(self)->bool:
+        return self.nodes[-1] == self.tRight
 
     @property
     def order(self)->int:
-- 
2.43.0


From 400403519828582e6e4d56c1454c4243c559a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 03/28] fix: RK padding does not pad the embedded weights

---
 qmat/qcoeff/butcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..2a1f592 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -51,6 +51,8 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None:
+                    self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -59,6 +61,8 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None:
+                    self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From 95b3abdd0eb2aa65d98a29e80d74f75c602c5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 04/28] fix: Lagrange weights computed for sorted points when
 points are not sorted

Without duplicates, the points keep their given order but the weights were
those of the sorted points (e.g wrong hCoeffs for EDIRK43).
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..ffe3583 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From 1451ecf893ad99e310481ceb38a3907b52cf7cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 05/28] fix: genQDeltaCoeffs modifies the list given by the
 caller

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..61286be 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From 51909c94adf416864d6dc65d126244f4cbd2af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 06/28] fix: genCoeffs returns the internal QDelta matrix of
 the generator

Modifying the returned matrix in-place silently changed all results obtained
later from the same generator (getQDelta already returns a copy per default).
---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 61286be..7114cf7 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -196,7 +196,7 @@ class QDeltaGenerator(object):
             If `dTau=True`, returns a tuple `(QDelta, dTau)`.
         """
         if form == "Z2N":
-            gen = lambda k, copy=False: self.getQDelta(k, copy)
+            gen = lambda k, copy=True: self.getQDelta(k, copy)
         elif form == "N2N":
             gen = lambda k, copy=None: self.getSDelta(k)
         else:
-- 
2.43.0


From 9b624767a838db2a29f642006616be867b9f5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 07/28] fix: RK generators expose the Butcher tables of their
 class

Modifying in-place an array returned by e.g genQCoeffs("RK4") changed the
scheme for the whole process.
---
 qmat/qcoeff/butcher.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 2a1f592..1583d81 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -45,6 +45,12 @@ class RK(QGenerator):
     """:math:`b_2` coefficients for the embedded methods"""
 
     def __init__(self, padding=None):
+        # Use copies, the tables of the class are shared between all instances
+        for name in ["A", "b", "c", "b2"]:
+            coeffs = getattr(self, name)
+            if coeffs is not None:
+                setattr(self, name, np.array(coeffs))
+
         if padding:
             assert padding in ["LEFT", "RIGHT", "BOTH"], "padding choices can only be LEFT, RIGHT or BOTH"
 
-- 
2.43.0


From 4d989cc548dcf5e7f70a669248880a5dc5d34370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 08/28] fix: wrong use of tLeft in BEPAR and TRAPAR

tLeft was removed from all matrix coefficients (not only the diagonal), and
not divided by two for the trapezoidal rule.
---
 qmat/qdelta/timestepping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..0f1212b 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)/2
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
-- 
2.43.0


From b914bf2b03aa70a3190b79e3d44a63a8a60792bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 09/28] fix: SOE ignores tLeft

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 0f1212b..048df82 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From 196dbdffcc2e5fb05874bcb90b104821486ad9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 10/28] fix: time-stepping QDelta built from a qGen ignore its
 left bound

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 048df82..577acf7 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -58,7 +58,7 @@ class TimeStepping(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self)->int:
-- 
2.43.0


From b3bb0aa4b6d4cdf0794d669c6cb159ecf6b16c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 11/28] fix: time-stepping QDelta truncate node differences
 with integer nodes

E.g nodes=[1, 2] and tLeft=0.5 gave a first step of size 0.
---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 577acf7..9bdca19 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.asarray(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From c811393312deb312cb6297986e6a15a25f3f43ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 12/28] fix: overflow and underflow in barycentric weights are
 not detected

The AUTO mode only switched to the stable algorithm when a product was exactly
zero: overflow was ignored, as well as the loss of accuracy with subnormal
numbers, which gave NaN interpolation matrices for e.g 100 points in [0, 1e4]
or 520 Chebyshev points in [0, 1].
---
 qmat/lagrange.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ffe3583..3e33691 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,7 +211,7 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
+            with np.errstate(divide='raise', over='raise', under='raise'):
                 try:
                     invProd = analytic(diffs)
                 except FloatingPointError:
@@ -345,7 +345,9 @@ class LagrangeApproximation(object):
         iDiff[i, :] = concom[i, :]
 
         # Compute interpolation matrix using weights
-        P = iDiff * self.weights
+        # (scaled by a power of 2, as only ratios matter and products could over/underflow)
+        exponent = np.frexp(np.max(np.abs(self.weights)))[1]
+        P = iDiff * np.ldexp(self.weights, -exponent)
         P /= P.sum(axis=-1)[:, None]
 
         if duplicates:
-- 
2.43.0


From ca1732c016b10f22ac15443277b21e687820ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 13/28] fix: division by zero for CHEBFUN weights with a single
 point

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 3e33691..4127da9 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -202,7 +202,8 @@ class LagrangeApproximation(object):
 
         def chebfun(diffs):
             # Implementation used in chebfun
-            diffs *= 4 / (points.max() - points.min())
+            if points.size > 1:
+                diffs *= 4 / (points.max() - points.min())
             sign = np.sign(diffs).prod(axis=1)
             vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
             invProd = (sign * vv)
-- 
2.43.0


From 6ccd4faa324839946c1085a5106f61f7025d9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 14/28] fix: sparse interpolation reuses lines of different
 stencils

Stencils were compared using np.allclose with its absolute (1e-8) and relative
(1e-5) tolerances, so close output points or small scale grids got the wrong
interpolation coefficients.
---
 qmat/lagrange.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 4127da9..5812ec9 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -587,7 +587,9 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        # Reuse last line only for identical stencils (up to rounding, relatively to their own spacing)
+        tol = 1e-13*np.min(np.diff(np.sort(closestPoints)), initial=np.inf)
+        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints, rtol=0, atol=tol):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From c64b229670842144399ca925060e1cdc2e046457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 15/28] fix: periodic sparse interpolation for grids that do
 not start around zero

The output point was always moved into [0, period], possibly more than one
period away from the input points.
---
 qmat/lagrange.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 5812ec9..425f82e 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -574,9 +574,11 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
 
     for i in range(len(outPoints)):
         if gridPeriod > 0:
-            pathL = (inPoints - gridPeriod - outPoints[i] % gridPeriod)
-            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)
-            pathC = (inPoints - outPoints[i] % gridPeriod)
+            inLeft = np.min(inPoints)
+            outPoint = (outPoints[i] - inLeft) % gridPeriod + inLeft
+            pathL = (inPoints - gridPeriod - outPoint)
+            pathR = (inPoints + gridPeriod - outPoint)
+            pathC = (inPoints - outPoint)
             path = np.append(np.append(pathR, pathL), pathC)
             dist = np.abs(path)
             _closestPointsIdx = np.sort(np.argsort(dist)[:order])
-- 
2.43.0


From 4e1e73b7833a57e586b911e8c115974817a8e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 16/28] fix: Radau and Lobatto nodes fail for more than 1000
 nodes

The monic polynomials evaluated on [-1,1] underflow for those sizes.
---
 qmat/nodes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qmat/nodes.py b/qmat/nodes.py
index ccb5810..5a9700b 100644
--- a/qmat/nodes.py
+++ b/qmat/nodes.py
@@ -209,13 +209,14 @@ class NodesGenerator(object):
         alpha, beta = self.getOrthogPolyCoefficients(nNodes)
 
         # If not Gauss quadrature type, modify the alpha/beta coefficients
+        # (polynomials evaluated on [-2,2], as monic ones on [-1,1] underflow when nNodes > 1000)
         if self.quadType.startswith('RADAU'):
             b = -1.0 if self.quadType.endswith('LEFT') else 1.0
-            b1, b2 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1] = b - beta[-1] * b1 / b2
+            b1, b2 = self.evalOrthogPoly(2*b, 2*alpha[:-1], 4*beta[:-1])[:2]
+            alpha[-1] = b - beta[-1] * 2*b1 / b2
         elif self.quadType == 'LOBATTO':
             a, b = -1.0, 1.0
-            a2, a1 = self.evalOrthogPoly(a, alpha[:-1], beta[:-1])[:2]
-            b2, b1 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])
+            a2, a1 = self.evalOrthogPoly(2*a, 2*alpha[:-1], 4*beta[:-1])[:2]
+            b2, b1 = self.evalOrthogPoly(2*b, 2*alpha[:-1], 4*beta[:-1])[:2]
+            alpha[-1], beta[-1] = np.linalg.solve([[a1, 2*a2], [b1, 2*b2]], [a * a1, b * b1])
         return alpha, beta
-- 
2.43.0


From d9fcde139557f3bdb427a90a002a1c06783ab422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 17/28] fix: wrong coefficient in RK53 table

a_32 must be c_3 = 3/16.
---
 qmat/qcoeff/butcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 1583d81..92d68e8 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -225,7 +225,7 @@ class RK53(RK):
     aliases = ["ERK53"]
     A = [[0, 0, 0, 0, 0],
          [1/7, 0, 0, 0, 0],
-         [0, 3/13, 0, 0, 0],
+         [0, 3/16, 0, 0, 0],
          [0, 0, 1/3, 0, 0],
          [0, 0, 0, 2/3, 0]]
     b = [1/4, 0, 0, 0, 3/4]
-- 
2.43.0


From 4e219bb19db0015547d3ca1bf104d59320be6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 18/28] fix: rejected class registration leaves some names
 registered

E.g. a class with an already used alias stayed available under its name.
---
 qmat/qcoeff/butcher.py | 8 +++++++-
 qmat/utils/__init__.py | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 92d68e8..fffd6af 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -129,7 +129,13 @@ def checkAndStore(cls:RK) -> RK:
 
 def registerRK(cls:RK)->RK:
     """Class decorator registering a RK method in `qmat`"""
-    return register(checkAndStore(cls))
+    checkAndStore(cls)
+    try:
+        return register(cls)
+    except Exception:
+        for name in [name for name, other in RK_SCHEMES.items() if other is cls]:
+            del RK_SCHEMES[name]
+        raise
 
 
 # -----------------------------------------------------------------------------
diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 5082079..8b41f1c 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -46,13 +46,15 @@ def storeAlias(cls, dico, alias):
 
 def storeClass(cls, dico):
     """Store a class into a dictionary"""
-    storeAlias(cls, dico, cls.__name__)
+    stored = dico.copy()  # only modify dico when everything is valid
+    storeAlias(cls, stored, cls.__name__)
     aliases = getattr(cls, "aliases", None)
     if aliases:
         assert isinstance(aliases, list), \
             f"aliases must be a list in class {cls.__name__}"
         for alias in aliases:
-            storeAlias(cls, dico, alias)
+            storeAlias(cls, stored, alias)
+    dico.update(stored)
 
 
 def importAll(localVars, __all__, __path__, __name__, __import__):
-- 
2.43.0


From 1a989d0f19141da21c522a125deb6fbcc3d8c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 19/28] fix: inaccurate extrapolation matrix

Integer overflow with e.g. nodes 0, 1, ..., 11, and O(1) errors from the normal
equations for the same nodes as floats.
---
 qmat/utils/num.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index bbc6a94..d66c6dd 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -107,7 +107,8 @@ def getExtrapolationMatrix(nodes, times, pOrder=None):
         Extrapolation matrix, that can be used on any node values.
     """
     if pOrder is None: pOrder = np.size(nodes)-1
-    X = np.vander(nodes, N=pOrder+1, increasing=True)
-    T = np.vander(times, N=pOrder+1, increasing=True)
-    P = T @ np.linalg.solve(X.T @ X, X.T)
+    X = np.vander(np.asarray(nodes, dtype=float), N=pOrder+1, increasing=True)
+    T = np.vander(np.asarray(times, dtype=float), N=pOrder+1, increasing=True)
+    Q, R = np.linalg.qr(X)  # normal equations square the condition number
+    P = T @ np.linalg.solve(R, Q.T)
     return P
\ No newline at end of file
-- 
2.43.0


From c8ff87bcf5f90db0461873251763de464841ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:44 +0000
Subject: [PATCH 20/28] fix: LU approximation loses the permutation of pivoted
 factorizations

---
 qmat/qdelta/algebraic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qmat/qdelta/algebraic.py b/qmat/qdelta/algebraic.py
index a9fd10d..5ff6c3a 100644
--- a/qmat/qdelta/algebraic.py
+++ b/qmat/qdelta/algebraic.py
@@ -17,7 +17,6 @@ Examples
 >>> QDelta = gen.getQDelta()
 """
 import numpy as np
-import scipy.linalg as spl
 
 from qmat.qdelta import QDeltaGenerator, register
 from qmat.utils.num import lduFactorization
@@ -46,8 +45,12 @@ class LU(QDeltaGenerator):
     """LU approximation from `[Weiser, 2014] <https://link.springer.com/article/10.1007/s10543-014-0540-y>`_"""
 
     def computeQDelta(self, k=None):
-        _, _, U = spl.lu(self.Q.T)
-        return U.T
+        # No pivoting, as the permutation would be lost when taking only U
+        U = self.Q.T.copy()
+        for i in range(self.size-1):
+            if U[i, i] != 0:
+                U[i+1:] -= np.outer(U[i+1:, i]/U[i, i], U[i])
+        return np.tril(U.T)
 
 
 @register
-- 
2.43.0


From 21be3db82b7fa50d83bc94979fb243f122ab400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 21/28] fix: sparse interpolation with integer points

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 425f82e..6f2a913 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -590,7 +590,7 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
         # Reuse last line only for identical stencils (up to rounding, relatively to their own spacing)
-        tol = 1e-13*np.min(np.diff(np.sort(closestPoints)), initial=np.inf)
+        tol = 1e-13*np.min(np.diff(np.sort(closestPoints)).astype(float), initial=np.inf)
         if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints, rtol=0, atol=tol):
             interpolationLine = lastInterpolationLine
         else:
-- 
2.43.0


From 94490ff61884708196f755249d8a5c6782e17890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:29 +0000
Subject: [PATCH 22/28] fix: no RuntimeWarning for one-point stencils in the
 sparse interpolation (tolerance was infinite)

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 6f2a913..d4cff99 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -590,7 +590,7 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
         # Reuse last line only for identical stencils (up to rounding, relatively to their own spacing)
-        tol = 1e-13*np.min(np.diff(np.sort(closestPoints)).astype(float), initial=np.inf)
+        tol = 1e-13*np.min(np.diff(np.sort(closestPoints)).astype(float), initial=1)
         if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints, rtol=0, atol=tol):
             interpolationLine = lastInterpolationLine
         else:
-- 
2.43.0


From 487ccf2becac615c8ff9137082010351b016eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:58 +0000
Subject: [PATCH 23/28] fix: integration over intervals given with unsigned or
 narrow integers (differences wrapped around)

---
 qmat/lagrange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index d4cff99..65d0bbe 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -405,6 +405,7 @@ class LagrangeApproximation(object):
             and :math:`n` columns.
         """
         intervals = np.array(intervals)
+        intervals = intervals.astype(np.promote_types(intervals.dtype, float))  # avoid integer wrap around
         assert intervals.ndim == 2, "intervals is not a 2D array"
         assert intervals.shape[1] == 2, "intervals must contains only pairs"
 
-- 
2.43.0


From 99e77e500fc237f97c7d96577021e182260b4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:59 +0000
Subject: [PATCH 24/28] fix: sparse interpolation with unsigned or narrow
 integer points (differences wrapped around)

---
 qmat/lagrange.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 65d0bbe..2eda141 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -569,6 +569,8 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
 
     assert order <= len(inPoints), f'Cannot interpolate {len(inPoints)} to order {order}! Please reduce order'
 
+    inPoints, outPoints = np.asarray(inPoints, dtype=float), np.asarray(outPoints, dtype=float)  # avoid integer wrap around
+
     A = sp.lil_matrix((len(outPoints), len(inPoints)))
     lastInterpolationLine = None
     lastClosestPoints = None
-- 
2.43.0


From 58e814ba3c0463cdbe160b60f4afa6b4ba68157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 25/28] fix: numericalOrder with numbers of steps in narrow
 integers (computed in half precision)

---
 qmat/utils/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index d66c6dd..e4833c0 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -24,7 +24,7 @@ def numericalOrder(nSteps, err):
     rmse : float
         The root mean square error of the linear regression.
     """
-    nSteps = np.asarray(nSteps)
+    nSteps = np.asarray(nSteps, dtype=float)
     x, y = np.log10(1/nSteps), np.log10(err)
 
     # Compute regression coefficients and rmse
-- 
2.43.0


From ff4337d8d7f523c89216d86003b5b7193f99fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 26/28] fix: collocation over intervals whose bounds are narrow
 or unsigned integers (length wrapped around)

---
 qmat/qcoeff/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 78b641b..83e0b4b 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -52,7 +52,7 @@ class Collocation(QGenerator):
         nodes += 1
         nodes /= 2
         # Scale to [tLeft, tRight]
-        nodes *= (tRight-tLeft)
+        nodes *= float(tRight) - float(tLeft)  # avoid integer wrap around
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-- 
2.43.0


From 5405d1c6719be2e940a28162b6828cb8c9c96e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:45 +0000
Subject: [PATCH 27/28] fix: reject Runge-Kutta tables whose embedded weights
 have another shape than the weights

---
 qmat/qcoeff/butcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index fffd6af..ec2a5d5 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -118,6 +118,10 @@ def checkAndStore(cls:RK) -> RK:
     assert cls.b.shape[-1] == cls.c.size, \
         f"b (size {cls.b.shape[-1]}) and c (size {cls.c.size})" + \
         f" have not the same size in {cls.__name__}"
+    if cls.b2 is not None:
+        assert cls.b2.shape == cls.b.shape, \
+            f"b2 (shape {cls.b2.shape}) and b (shape {cls.b.shape})" + \
+            f" have not the same shape in {cls.__name__}"
     assert cls.A.shape == (cls.c.size, cls.c.size), \
         f"A (shape {cls.A.shape}) and c (size {cls.b.size})" + \
         f" have inconsistent dimensions in {cls.__name__}"
-- 
2.43.0


From ad1bb14a0527270b4198dda75c747da595ed79c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:49 +0000
Subject: [PATCH 28/28] fix: interpolation far from the points (sum of the
 barycentric formula cancels, all digits lost or non-finite entries)

---
 qmat/lagrange.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 2eda141..95f1be8 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -349,7 +349,19 @@ class LagrangeApproximation(object):
         # (scaled by a power of 2, as only ratios matter and products could over/underflow)
         exponent = np.frexp(np.max(np.abs(self.weights)))[1]
         P = iDiff * np.ldexp(self.weights, -exponent)
-        P /= P.sum(axis=-1)[:, None]
+        scale = P.sum(axis=-1)
+
+        # Where this sum cancels (times far from the points for instance), its value is lost :
+        # scale with the product formula of the Lagrange polynomial that has the largest weight
+        cancels = np.abs(scale) < 1e-3 * np.abs(P).sum(axis=-1)
+        if cancels.any():
+            m = np.argmax(np.abs(self.weights))
+            others = np.delete(self.uniquePoints, m)
+            factors = (times[cancels, None] - others) / (self.uniquePoints[m] - others)
+            lm = np.sign(factors).prod(axis=-1) * np.exp(np.log(np.abs(factors)).sum(axis=-1))
+            scale[cancels] = P[cancels, m] / lm
+
+        P /= scale[:, None]
 
         if duplicates:
             P = self._handleDuplicates(P)
-- 
2.43.0

