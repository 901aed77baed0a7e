From 5d100c47463871442365feacf8876a846483486a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 01/57] fix: aperture stop is found with an axial ray that no
 aperture blocks

---
 raytracing/imagingpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..f9da14a 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -465,7 +465,9 @@ class ImagingPath(MatrixGroup):
         if not self.hasFiniteApertureDiameter():
             return Stop(z=None, diameter=float('+Inf'))
         else:
-            ray = Ray(y=0, theta=0.1)  # Any ray angle will do
+            # Any ray angle will do, as long as no aperture blocks the ray:
+            # a blocked ray stops propagating and the ratios would be wrong.
+            ray = Ray(y=0, theta=0.1 * 2.0**-30)
             rayTrace = self.trace(ray)
 
             maxRatio = 0.0
-- 
2.43.0


From 51af509a1d740e8a49371c3f5c26fad485c3e50b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 02/57] fix: tracing through an element with a length never
 modifies the ray it is given

---
 raytracing/matrix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..74dd919 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -657,8 +658,12 @@ class Matrix(object):
         rayTrace = []
         if isinstance(ray, Ray):
             if self.L > 0:
-                if abs(ray.y) > self.apertureDiameter/2:
+                # The ray at the entrance of this element is a copy: the
+                # ray that was passed must never be modified.
+                ray = copy.copy(ray)
+                if ray.isNotBlocked and (abs(ray.y) > self.apertureDiameter/2 or abs(ray.theta) > self.apertureNA):
                     ray.isBlocked = True
+                    ray.apertureDiameter = self.apertureDiameter
                 rayTrace.append(ray)
 
         rayTrace.append(self * ray)
-- 
2.43.0


From c9355fe5200f01839471d9b9f6fa7a37393b37f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 03/57] fix: a group always traces the ray it is given through
 its current elements

---
 raytracing/matrixgroup.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..b000a35 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -29,9 +29,8 @@ class MatrixGroup(Matrix):
             for element in elements:
                 self.append(element)
 
-        # Solely for performance reason: it is common to raytrace
-        # groups of rays that are similar (to mimick intensities)
-        # We keep the last ray and the last ray trace for optimization
+        # The last ray and its trace, for information only: they depend on
+        # more than the ray (e.g. the current elements) and cannot be reused.
         self._lastRayToBeTraced = None
         self._lastRayTrace = None
 
@@ -430,16 +429,13 @@ class MatrixGroup(Matrix):
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From bf877556aaaefd713aebe366df08749c12049c4f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 04/57] fix: edits of a group follow list semantics, update its
 properties, and change nothing when refused

---
 raytracing/matrixgroup.py | 70 +++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index b000a35..922220a 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -26,8 +26,7 @@ class MatrixGroup(Matrix):
             if not isinstance(elements, collections.Iterable):
                 raise TypeError("'elements' must be iterable (i.e. a list or a tuple of Matrix objects).")
 
-            for element in elements:
-                self.append(element)
+            self._replaceElements(list(elements))
 
         # The last ray and its trace, for information only: they depend on
         # more than the ray (e.g. the current elements) and cannot be reused.
@@ -78,6 +77,10 @@ class MatrixGroup(Matrix):
                     raise ValueError(msg)
 
         self.elements.append(matrix)
+        self._updateTransferMatrix()
+
+    def _updateTransferMatrix(self):
+        """ The properties of the group are those of its current elements. """
         transferMatrix = self.transferMatrix()
         self.A = transferMatrix.A
         self.B = transferMatrix.B
@@ -89,6 +92,23 @@ class MatrixGroup(Matrix):
         self.frontIndex = transferMatrix.frontIndex
         self.backIndex = transferMatrix.backIndex
 
+    def _replaceElements(self, elements):
+        """ Replace all elements of the group, with the same verifications as append().
+        If any element is refused, then the group and the elements are left as they were. """
+        previousState = self.__dict__.copy()
+        previousIndices = [(element, element.frontIndex, element.backIndex)
+                           for element in elements if isinstance(element, Space)]
+        try:
+            self.elements = []
+            self._updateTransferMatrix()
+            for element in elements:
+                self.append(element)
+        except Exception:
+            self.__dict__.update(previousState)
+            for space, frontIndex, backIndex in reversed(previousIndices):
+                space.frontIndex = frontIndex
+                space.backIndex = backIndex
+            raise
 
     def __len__(self):
         """
@@ -168,11 +188,9 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
-        tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        elements = self.elements[:]  # We "copy" the list
+        poppedElement = elements.pop(index)  # We pop the matrix in the list
+        self._replaceElements(elements)  # We rebuild (check indices, compute ABCD, etc)
         return poppedElement
 
     def insert(self, index: int, element: Matrix):
@@ -213,14 +231,10 @@ class MatrixGroup(Matrix):
         raytracing.MatrixGroup.append
         """
         if not isinstance(element, collections.Iterable):
-            element = MatrixGroup([element])
-        else:
-            element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+            element = [element]
+        elements = self.elements[:]
+        elements[index:index] = element
+        self._replaceElements(elements)
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -259,15 +273,17 @@ class MatrixGroup(Matrix):
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            key = slice(key.start, key.stop)
         else:
-            self.pop(key)
-            self.insert(key, element)
+            self.elements[key]  # Must exist
+            key = key + len(self) if key < 0 else key
+            key = slice(key, key + 1)
+
+        if not isinstance(element, collections.Iterable):
+            element = [element]
+        elements = self.elements[:]
+        elements[key] = element
+        self._replaceElements(elements)
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
@@ -542,12 +558,10 @@ class MatrixGroup(Matrix):
             loadedMatrices = pickle.Unpickler(infile).load()
             if not isinstance(loadedMatrices, collections.Iterable):
                 raise IOError(f"{filePath} does not contain an iterable of Matrix objects.")
+            loadedMatrices = list(loadedMatrices)
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
             if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(self.elements + loadedMatrices)
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(loadedMatrices)
-- 
2.43.0


From 3e54d60d023eccba5bd9747dd41f22e6f0497062 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 05/57] fix: flipping a group flips each of its elements
 exactly once, or nothing at all

---
 raytracing/matrixgroup.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 922220a..a50fbcc 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -482,16 +482,24 @@ class MatrixGroup(Matrix):
     def flipOrientation(self):
         """ Flip the orientation (forward-backward) of this group of elements.
         Each element is also flipped individually. """
-        self.isFlipped = not self.isFlipped
-
-        allElements = self.elements
-        allElements.reverse()
-        self.elements = []
+        # An element may be used more than once, but it must be flipped only once
+        uniqueElements = []
+        for element in self.elements:
+            if not any(element is other for other in uniqueElements):
+                uniqueElements.append(element)
 
-        for element in allElements:
-            element.flipOrientation()
-            self.append(element)
+        flippedElements = []
+        try:
+            for element in uniqueElements:
+                element.flipOrientation()
+                flippedElements.append(element)
+            self._replaceElements(self.elements[::-1])
+        except Exception:
+            for element in flippedElements:
+                element.flipOrientation()
+            raise
 
+        self.isFlipped = not self.isFlipped
         return self
 
     def __iter__(self):
-- 
2.43.0


From 8d878f804bc7fbf59c9deb24d9aba8a3ab3bd005 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 06/57] fix: every iteration of a group has its own position

---
 raytracing/matrixgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index a50fbcc..6f67239 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -504,7 +504,7 @@ class MatrixGroup(Matrix):
 
     def __iter__(self):
         self.iteration = 0
-        return self
+        return iter(self.elements)
 
     def __next__(self):
         if self.elements is None:
-- 
2.43.0


From bd2630737d575fc9f94a71ed6a8664530d55610d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 07/57] fix: an axicon does not deviate (nor modify) a ray that
 is already blocked

---
 raytracing/axicon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..360744b 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -98,6 +98,8 @@ class Axicon(Matrix):
         """
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
+        if rightSideRay.isBlocked:
+            return outputRay  # Not deviated: it does not propagate anymore
 
         if rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
-- 
2.43.0


From 2b4a5bf7714c53bff941b73798b93e7bdfcc7895 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 08/57] fix: the backward conjugate is in the medium in front
 of the element

---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 74dd919..ea95240 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1309,7 +1309,7 @@ class Matrix(object):
             distance = -self.B / self.A
         else:
             distance = float("+inf")
-        conjugateMatrix = self * Space(d=distance)
+        conjugateMatrix = self * Space(d=distance, n=self.frontIndex)
         # This element is A*d + B, A is precisely 0, d is large, therefore B' == 0.
         conjugateMatrix.B = 0 
 
-- 
2.43.0


From fc9d105a500a6c089de1b23e150de43e184d8eeb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 09/57] fix: the waist of a beam takes its index of refraction
 into account

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index f813d8d..579f4eb 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -101,7 +101,7 @@ class GaussianBeam(object):
         The 1/e beam size in electric field extracted from q at the waist of the beam.
         """
         if self.zo > 0:
-            return math.sqrt(self.zo * self.wavelength / math.pi)
+            return math.sqrt(self.zo * self.wavelength / self.n / math.pi)
         else:
             return None
 
-- 
2.43.0


From 36404706570f909173af88658f04525097f57d6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 10/57] fix: appending the elements of a cavity in reverse
 updates its transfer matrix

---
 raytracing/lasercavity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..4de1aa2 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -54,8 +54,7 @@ class LaserCavity(LaserPath):
         else:
             forwardElements = self.elements[firstElement:]
             
-        for element in reversed(forwardElements):
-            self.elements.append(element)
+        self._replaceElements(self.elements + forwardElements[::-1])
 
 
     def eigenModes(self):
-- 
2.43.0


From 21488b380070edb60efdb5dc386a5177d41529de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 11/57] fix: the modes of a cavity are in the medium of its
 first element

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 4de1aa2..3310536 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -81,7 +81,7 @@ class LaserCavity(LaserPath):
 
         q1 = (- b + sqrtDelta) / (2.0 * self.C)
         q2 = (- b - sqrtDelta) / (2.0 * self.C)
-        return (GaussianBeam(q=q1), GaussianBeam(q=q2))
+        return (GaussianBeam(q=q1, n=self.frontIndex), GaussianBeam(q=q2, n=self.frontIndex))
 
     def laserModes(self):
         """
-- 
2.43.0


From c30cc2bfa33cfd8cdb9f1c5b37337ae055416778 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 12/57] fix: the NA of a path without aperture stop is None

---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index f9da14a..1b934e9 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -404,6 +404,8 @@ class ImagingPath(MatrixGroup):
         raytracing.ImagingPath.fNumber
         """
         axialRay = self.axialRay()
+        if axialRay is None:
+            return None
         return self.frontIndex * np.sin(axialRay.theta)
 
     def apertureStop(self):
-- 
2.43.0


From ca2dd4636e5d74db44c14da5a7541e60f833fa70 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 13/57] fix: uniform rays from a single height are between the
 minimum and maximum heights

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..ce114d3 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -525,7 +525,7 @@ class UniformRays(Rays):
         self.N = N
         rays = []
 
-        if self.M == 1:
+        if self.M == 1 and self.yMin <= 0 <= self.yMax:
             heights = [0]
         else:
             heights = np.linspace(self.yMin, self.yMax, self.M, endpoint=True)
-- 
2.43.0


From a95dc2b5e42a634952d7a48c92fe606f1458e27e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 14/57] fix: focal shifts accept any list of wavelengths, and
 report a missing design focal length

---
 raytracing/specialtylenses.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b910bff..25a1990 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -2,7 +2,7 @@ from .matrixgroup import *
 from .materials import *
 from math import *
 import matplotlib.transforms as transforms
-from numpy import linspace
+from numpy import linspace, asarray
 import matplotlib.pyplot as plt
 
 """ 
@@ -65,11 +65,12 @@ class CompoundLens(MatrixGroup):
         """
 
         if self.designFocalLength is None:
-            raise("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
+            raise ValueError("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
 
         if wavelengths is None:
             wavelengths = linspace(0.4, 0.8, 100)
-        
+        wavelengths = asarray(wavelengths)
+
         focalShifts = []
         for l in wavelengths:
             lens = type(self)(wavelength=l)
-- 
2.43.0


From f69e392c8f9cbf8f2b1105739deeca4b8d53f66a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 15/57] fix: the vertices of a flipped thick lens are measured
 from its new front

---
 raytracing/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index ea95240..12570d2 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1892,6 +1892,10 @@ class ThickLens(Matrix):
         super implementation because other things must be flipped (vertices for instance)
         """
         super(ThickLens, self).flipOrientation()
+        if self.frontVertex is not None:
+            self.frontVertex = self.L - self.frontVertex
+        if self.backVertex is not None:
+            self.backVertex = self.L - self.backVertex
 
         temp = self.R1
         self.R1 = -self.R2
-- 
2.43.0


From b5caac3fc0934c2cf5dd05605cb71d1807424b12 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 16/57] fix: flipping a matrix that is not symmetric gives the
 matrix for rays going the other way

---
 raytracing/matrix.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 12570d2..20b55d1 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1385,8 +1385,8 @@ class Matrix(object):
 
         Notes
         -----
-        For individual objects, it does not do anything because they are the same either way.
-        However, subclasses can override this function and act accordingly.
+        Most individual objects are the same either way. Subclasses with their own parameters
+        (radii for instance) can override this function and act accordingly.
         """
         self.isFlipped = not self.isFlipped
         # First and last interfaces. Used for BFL and FFL
@@ -1399,6 +1399,12 @@ class Matrix(object):
         self.frontIndex = self.backIndex
         self.backIndex = tempIndex
 
+        # The inverse of the matrix, for rays that go the other way
+        determinant = self.determinant
+        self.A, self.D = self.D / determinant, self.A / determinant
+        self.B = self.B / determinant
+        self.C = self.C / determinant
+
         return self
 
     def displayHalfHeight(self):
-- 
2.43.0


From c950d45970194cd7c7151660f331ea46b5b899ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 17/57] fix: a sub-path has the medium and the aperture of the
 space it starts in, and elements seen from its start

---
 raytracing/imagingpath.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 1b934e9..9234ca4 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Any, Union, List
 from .figure import Figure
 from .matrixgroup import *
@@ -940,12 +941,14 @@ class ImagingPath(MatrixGroup):
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
-                    newElements = [Space(zStart - z)]
+                    newElements = [Space(zStart - z, n=element.frontIndex, diameter=element.apertureDiameter)]
                     if i != 0:
-                        newElements.extend(self.elements[i-1::-1])
+                        # The elements are met from the other side
+                        newElements.extend([copy.deepcopy(element).flipOrientation()
+                                            for element in self.elements[i-1::-1]])
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
+                    newElements = [Space(z + element.L - zStart, n=element.frontIndex, diameter=element.apertureDiameter)]
                     newElements.extend(self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
-- 
2.43.0


From d5bb0f397acd81162b71c6b5cc7b2a64c32c15db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 18/57] fix: displaying rays from inside a path does not modify
 them

---
 raytracing/figure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..11c2dff 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -1,5 +1,6 @@
 from matplotlib.widgets import CheckButtons
 import matplotlib.pyplot as plt
+import copy
 from .graphics import *
 from .ray import Ray
 import itertools
@@ -395,11 +396,13 @@ class Figure:
 
             forwardRayTraces = forwardPath.traceMany(rays)
             backwardRayTraces = backwardPath.traceMany(rays)
+            manyRayTraces = forwardRayTraces
             for rayTrace in backwardRayTraces:
+                # The rays of the trace include those of the caller, which must not change
+                rayTrace = [copy.copy(ray) for ray in rayTrace]
                 for ray in rayTrace:
                     ray.z = -abs(ray.z)
-            manyRayTraces = forwardRayTraces
-            manyRayTraces.extend(backwardRayTraces)
+                manyRayTraces.append(rayTrace)
         else:
             manyRayTraces = self.path.traceMany(rays)
 
-- 
2.43.0


From 3f7c4fdf349d41f92ba5c74f80d51abb45127371 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 19/57] fix: the start of a path is in the medium of its first
 element

---
 raytracing/matrixgroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 6f67239..0089a6d 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -326,7 +326,9 @@ class MatrixGroup(Matrix):
         ray formalism.  To find out if a ray has been blocked, you must
         use trace().
         """
-        transferMatrix = Matrix(A=1, B=0, C=0, D=1)
+        # We start from nothing, in the medium of the first element
+        frontIndex = self.elements[0].frontIndex if len(self.elements) != 0 else 1.0
+        transferMatrix = Matrix(A=1, B=0, C=0, D=1, frontIndex=frontIndex, backIndex=frontIndex)
         distance = upTo
         for element in self.elements:
             if element.L <= distance:
-- 
2.43.0


From 0dc32839cd80fa62ffcf99382dbf401f47599458 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 20/57] fix: a refused flip leaves the elements of nested
 groups as they were

---
 raytracing/matrixgroup.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 0089a6d..376683e 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -490,20 +490,28 @@ class MatrixGroup(Matrix):
             if not any(element is other for other in uniqueElements):
                 uniqueElements.append(element)
 
-        flippedElements = []
+        previousStates = [(element, element.__dict__.copy()) for element in self._allElements()]
         try:
             for element in uniqueElements:
                 element.flipOrientation()
-                flippedElements.append(element)
             self._replaceElements(self.elements[::-1])
         except Exception:
-            for element in flippedElements:
-                element.flipOrientation()
+            for element, state in previousStates:
+                element.__dict__.update(state)
             raise
 
         self.isFlipped = not self.isFlipped
         return self
 
+    def _allElements(self):
+        """ The elements of this group and of the groups inside. """
+        allElements = []
+        for element in self.elements:
+            allElements.append(element)
+            if isinstance(element, MatrixGroup):
+                allElements.extend(element._allElements())
+        return allElements
+
     def __iter__(self):
         self.iteration = 0
         return iter(self.elements)
-- 
2.43.0


From ad2a35b37fa9e49b764a1944a4c7cbd43cdb016c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 21/57] fix: rays can be iterated over or queried during an
 iteration, and their values are not shared with callers

---
 raytracing/rays.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index ce114d3..fd953f6 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -114,9 +114,9 @@ class Rays:
         Returns the heights of rays in the list.
         """
         if self._yValues is None:
-            self._yValues = list(map(lambda x: x.y, self))
+            self._yValues = [self[i].y for i in range(len(self))]
 
-        return self._yValues
+        return list(self._yValues)
 
     @property
     def thetaValues(self):
@@ -124,9 +124,9 @@ class Rays:
         Returns the angles of rays in the list.
         """
         if self._thetaValues is None:
-            self._thetaValues = list(map(lambda x: x.theta, self))
+            self._thetaValues = [self[i].theta for i in range(len(self))]
 
-        return self._thetaValues
+        return list(self._thetaValues)
 
     def rayCountHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -202,7 +202,7 @@ class Rays:
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
 
-        return (self._xValuesCountHistogram, self._yHistogram)
+        return (list(self._xValuesCountHistogram), list(self._yHistogram))
 
     def rayAnglesHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -280,7 +280,7 @@ class Rays:
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
 
-        return (self._xValuesAnglesHistogram, self._thetaHistogram)
+        return (list(self._xValuesAnglesHistogram), list(self._thetaHistogram))
 
     def display(self, title="Intensity profile", showTheta=True):  # pragma: no cover
         """This function plots the intensity profiles of a list of rays.
@@ -359,7 +359,17 @@ class Rays:
     def __iter__(self):
         self.iteration = 0
         self.progressLog = 10000
-        return self
+        return self._iterateRays()
+
+    def _iterateRays(self):
+        """ Every iteration has its own position: the rays can be iterated over
+        or queried while they are being iterated over. """
+        index = 0
+        while index < len(self):
+            ray = self[index]
+            index += 1
+            self.iteration = index
+            yield ray
 
     def __next__(self) -> Ray:
         if self._rays is None:
-- 
2.43.0


From f509d4c63ea984d5a847101f0827c22ddee969c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 22/57] fix: rays coming from a generator are all traced

---
 raytracing/matrix.py | 1 +
 raytracing/rays.py   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 20b55d1..cfd75fe 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -878,6 +878,7 @@ class Matrix(object):
                 processes = multiprocessing.cpu_count()
 
             theExplicitList = list(inputRays)
+            inputRays = theExplicitList  # an iterator can only be read once
             manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]
 
             with multiprocessing.Pool(processes=processes) as pool:
diff --git a/raytracing/rays.py b/raytracing/rays.py
index fd953f6..1bff489 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,8 +64,9 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)  # a generator can only be read once
                 if all([isinstance(ray, Ray) for ray in rays]):
-                    self._rays = list(rays)
+                    self._rays = rays
                 else:
                     raise TypeError("'rays' elements must be of type Ray.")
             else:
-- 
2.43.0


From ebe231aaa5b30d6b65a92526ea70a3387b6e3ffc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 23/57] fix: the values and histograms of rays are those of the
 rays loaded from a file

---
 raytracing/rays.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 1bff489..43e609e 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -400,7 +400,9 @@ class Rays:
         if self._rays is not None:
             self._rays.append(ray)
 
-        # Invalidate cached values
+        self._invalidateCachedValues()
+
+    def _invalidateCachedValues(self):
         self._yValues = None
         self._thetaValues = None
         self._yHistogram = None
@@ -435,7 +437,9 @@ class Rays:
             if append and self._rays is not None:
                 self._rays.extend(loadedRays)
             else:
-                self._rays = loadedRays
+                self._rays = list(loadedRays)
+
+        self._invalidateCachedValues()
 
     def save(self, filePath):
 
-- 
2.43.0


From 2f593502b46faad720a4a4ae6e85b3628476f733 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 24/57] fix: a histogram that cannot be computed does not make
 the previous one pass for it

---
 raytracing/rays.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 43e609e..3f86129 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -192,8 +192,6 @@ class Rays:
             maxValue = max(self.yValues)
 
         if self._countHistogramParameters != (binCount, minValue, maxValue):
-            self._countHistogramParameters = (binCount, minValue, maxValue)
-
             (self._yHistogram, binEdges) = np.histogram(self.yValues,
                                                      bins=binCount,
                                                      range=(minValue, maxValue))
@@ -202,6 +200,7 @@ class Rays:
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
+            self._countHistogramParameters = (binCount, minValue, maxValue)
 
         return (list(self._xValuesCountHistogram), list(self._yHistogram))
 
@@ -272,14 +271,13 @@ class Rays:
             maxValue = max(self.thetaValues)
 
         if self._anglesHistogramParameters != (binCount, minValue, maxValue):
-            self._anglesHistogramParameters = (binCount, minValue, maxValue)
-
             (self._thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
             self._thetaHistogram = list(self._thetaHistogram)
             xValues = []
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
+            self._anglesHistogramParameters = (binCount, minValue, maxValue)
 
         return (list(self._xValuesAnglesHistogram), list(self._thetaHistogram))
 
-- 
2.43.0


From 2ac7ee8445d7e8ccb1a2ec5af259f3e790c8b8a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 25/57] fix: the length of random rays is that of their content
 after loading or appending, and all of them are saved

---
 raytracing/rays.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 3f86129..5197c95 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -649,6 +649,9 @@ class RandomRays(Rays):
         return self.maxCount
 
     def __getitem__(self, item):
+        if isinstance(item, slice):
+            return [self[i] for i in range(*item.indices(self.maxCount))]
+
         if item < 0:
             # Convert negative index to positive (i.e. -1 == len - 1)
             item += self.maxCount
@@ -672,6 +675,21 @@ class RandomRays(Rays):
         self.iteration += 1
         return ray
 
+    def append(self, ray):
+        super(RandomRays, self).append(ray)
+        self.maxCount = max(self.maxCount, len(self._rays))
+
+    def load(self, filePath, append=False):
+        if append and len(self) > 0:
+            self[-1]  # the loaded rays come after all of the current rays
+        super(RandomRays, self).load(filePath, append=append)
+        self.maxCount = len(self._rays)
+
+    def save(self, filePath):
+        if len(self) > 0:
+            self[-1]  # all the rays are saved, including those not generated yet
+        super(RandomRays, self).save(filePath)
+
     def randomRay(self) -> Ray:
         raise NotImplementedError("You must implement randomRay() in your subclass")
 
-- 
2.43.0


From 07a49ae17462533ec30e6148e3a578aab11daa6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 26/57] fix: preferences are always those of the file, and
 changes are neither partial nor lost

---
 raytracing/preferences.py | 125 ++++++++++++++++++++++++++++++--------
 1 file changed, 98 insertions(+), 27 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..354ccb8 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -1,11 +1,22 @@
 import os
 import json
 import platform
+import tempfile
+from collections.abc import MutableMapping
+from contextlib import contextmanager
 
-class Preferences(dict):
-    def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
+try:
+    import fcntl
+except ImportError:  # Not available on Windows
+    fcntl = None
 
+class Preferences(MutableMapping, dict):
+    """ The preferences of the user, kept in a file that is shared by all
+    Preferences objects of all processes.  MutableMapping provides all the
+    methods of a dictionary (get, keys, pop, in, etc...) from the methods below,
+    which always go through the file. """
+
+    def __init__(self, *args, **kwargs):
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
 
@@ -26,39 +37,99 @@ class Preferences(dict):
 
         self.path = os.path.join(prefDir, prefFilename)
         self.readFromDisk()
-
-    def update(self, *args, **kwargs):
-        for k, v in dict(*args, **kwargs).items():
-            self[k] = v
+        self.update(*args, **kwargs)
 
     def __getitem__(self, key):
         self.readFromDisk()
-        return super().__getitem__(key)
+        return dict.__getitem__(self, key)
 
     def __setitem__(self, key, value):
-        super().__setitem__(key, value)
-        self.writeToDisk()
+        self.update({key: value})
+
+    def __delitem__(self, key):
+        with self.__changing__():
+            dict.__delitem__(self, key)
+
+    def __iter__(self):
+        self.readFromDisk()
+        return iter(list(dict.keys(self)))
+
+    def __len__(self):
+        self.readFromDisk()
+        return dict.__len__(self)
+
+    def __repr__(self):
+        self.readFromDisk()
+        return dict.__repr__(self)
+
+    def update(self, *args, **kwargs):
+        newValues = dict(*args, **kwargs)
+        if len(newValues) != 0:
+            with self.__changing__():
+                dict.update(self, newValues)
+
+    def clear(self):
+        self.resetPreferences()
 
     def resetPreferences(self):
+        with self.__changing__():
+            dict.clear(self)
+
+    @contextmanager
+    def __changing__(self):
+        """ The current values are read, changed in the block and written
+        back without anyone else writing in between. If anything fails, nothing
+        is changed. """
+        with self.__locked__():
+            self.readFromDisk()
+            try:
+                yield
+                self.writeToDisk()
+            except BaseException:
+                self.readFromDisk()
+                raise
+
+    @contextmanager
+    def __locked__(self):
+        if fcntl is None:
+            yield
+        else:
+            with open(self.path + ".lock", "a") as lockFile:
+                try:
+                    fcntl.flock(lockFile, fcntl.LOCK_EX)
+                except OSError:  # some network drives cannot be locked
+                    pass
+                yield
+
+    def readFromDisk(self):
+        data = dict()
         try:
-            os.remove(self.path)
-        except Exception as err:
+            with open(self.path, "r") as prefFile:
+                data = json.load(prefFile)
+        except FileNotFoundError:
+            try:
+                with open(self.path, "x") as prefFile:
+                    prefFile.write("{}")
+            except FileExistsError:  # someone else just did
+                pass
+        except (ValueError, RecursionError):  # not a valid file
             pass
-        self.clear()
-        self.writeToDisk()
 
-    def readFromDisk(self):
-        if os.path.exists(self.path):
-            with open(self.path, "r+") as prefFile:
-                try:
-                    data = json.load(prefFile)
-                except Exception as err:
-                    data = dict()
-            self.update(data)
-        else:
-            self.clear()
-            self.writeToDisk()
+        dict.clear(self)
+        if isinstance(data, dict):
+            dict.update(self, data)
 
     def writeToDisk(self):
-        with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+        """ The file always has either all of the previous values or
+        all of the new ones, even if we are interrupted. """
+        content = json.dumps(dict(dict.items(self)))
+
+        path = os.path.realpath(self.path)
+        (tempFile, tempPath) = tempfile.mkstemp(prefix=os.path.basename(path), dir=os.path.dirname(path))
+        try:
+            with os.fdopen(tempFile, "w") as prefFile:
+                prefFile.write(content)
+            os.replace(tempPath, path)
+        except BaseException:
+            os.remove(tempPath)
+            raise
-- 
2.43.0


From 14aa21e4593ae4330d2eca840129df8bc5d54782 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 27/57] fix: displaying rays does not add to the list of the
 caller

---
 raytracing/imagingpath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 9234ca4..2dfcc00 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -981,6 +981,7 @@ class ImagingPath(MatrixGroup):
 
         if raysList is None:
             raysList = []
+        raysList = list(raysList)
         if rays is not None:
             raysList.append(rays)
 
-- 
2.43.0


From 7ff65e55ef13ac0ad9b5f2a3a5932d8b32e14fe6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 28/57] fix: the module can be imported whatever date is stored
 for the last version check

---
 raytracing/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index fc450b2..6544510 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -71,9 +71,11 @@ import tempfile
 
 def lastCheckMoreThanADay():
     if "lastVersionCheck" in prefs:
-        isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
-        then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
-        difference = datetime.now() - then
+        try:
+            then = datetime.fromisoformat(prefs["lastVersionCheck"])
+            difference = datetime.now() - then
+        except Exception as err:  # not a date we can use
+            return True
         if difference.days > 1:
             return True
         else:
-- 
2.43.0


From 5e8351a57a409e8d13b5a8424fffa8e44e959686 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 29/57] fix: asking for the expert mode for a session does not
 change the remembered mode

---
 raytracing/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index 6544510..f198350 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -89,11 +89,10 @@ if lastCheckMoreThanADay():
     checkLatestVersion(currentVersion=__version__)
     prefs["lastVersionCheck"] = datetime.now().isoformat()
 
-if "RAYTRACING_EXPERT" in os.environ:
-    prefs["mode"] = "expert"
-    
 try:
-    if "mode" in prefs:
+    if "RAYTRACING_EXPERT" in os.environ:
+        expertMode(saveToPrefs=False)
+    elif "mode" in prefs:
         if prefs["mode"] == "silent":
             silentMode()
         elif prefs["mode"] == "expert":
-- 
2.43.0


From de233a969fa917ed0d8672722e87e768a32b20fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 30/57] fix: the expert mode hides the hints for beginners and
 the beginner mode always gives them

---
 raytracing/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 869a918..f84306f 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -36,10 +36,11 @@ def beginnerMode(saveToPrefs=False):
     """
 
     warnings.formatwarning = warningLineFormat
-    warnings.filterwarnings("always", category=BeginnerHint)
-    warnings.filterwarnings("default", category=ExpertNote)
-    warnings.filterwarnings("default", category=DeprecationWarning)
+    # The last filter has precedence: the subclasses must come after UserWarning
     warnings.filterwarnings("default", category=UserWarning)
+    warnings.filterwarnings("default", category=DeprecationWarning)
+    warnings.filterwarnings("default", category=ExpertNote)
+    warnings.filterwarnings("always", category=BeginnerHint)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "beginner"
@@ -55,10 +56,11 @@ def expertMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
-    warnings.filterwarnings("ignore", category=BeginnerHint)
-    warnings.filterwarnings("once", category=ExpertNote)
-    warnings.filterwarnings("once", category=DeprecationWarning)
+    # The last filter has precedence: the subclasses must come after UserWarning
     warnings.filterwarnings("once", category=UserWarning)
+    warnings.filterwarnings("once", category=DeprecationWarning)
+    warnings.filterwarnings("once", category=ExpertNote)
+    warnings.filterwarnings("ignore", category=BeginnerHint)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "expert"
@@ -74,10 +76,11 @@ def silentMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
-    warnings.filterwarnings("ignore", category=BeginnerHint)
-    warnings.filterwarnings("ignore", category=ExpertNote)
-    warnings.filterwarnings("ignore", category=DeprecationWarning)
+    # The last filter has precedence: the subclasses must come after UserWarning
     warnings.filterwarnings("ignore", category=UserWarning)
+    warnings.filterwarnings("ignore", category=DeprecationWarning)
+    warnings.filterwarnings("ignore", category=ExpertNote)
+    warnings.filterwarnings("ignore", category=BeginnerHint)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "silent"
-- 
2.43.0


From fdb5d86bc14af54edc8c9383a7c59b51eaa12d3a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 31/57] fix: N-SF6 has the index and Abbe number of N-SF6, not
 those of SF1

---
 raytracing/materials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..4962091 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -223,18 +223,18 @@ class N_SF5(Material):
         return 32.25
 
 class N_SF6(Material):
-    """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-SF6HT.html """
+    """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-SF6.html """
     @classmethod
     def n(cls, wavelength):
         if wavelength > 10 or wavelength < 0.01:
             raise ValueError("Wavelength must be in microns")
         x = wavelength
-        n=(1+1.55912923/(1-0.0121481001/x**2)+0.284246288/(1-0.0534549042/x**2)+0.968842926/(1-112.174809/x**2))**.5
+        n=(1+1.77931763/(1-0.0133714182/x**2)+0.338149866/(1-0.0617533621/x**2)+2.08734474/(1-174.01759/x**2))**.5
         return n
 
     @classmethod
     def abbeNumber(cls):
-        return 29.51
+        return 25.36
 
 
 class N_SF6HT(Material):
-- 
2.43.0


From 0d976ac4cc04d5ee1d7616a706c636d269f590c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 32/57] fix: a material can be found by the name under which it
 is listed

---
 raytracing/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 4962091..252ea97 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -100,7 +100,7 @@ class Material:
         if name is None:
             return Air()
 
-        simplifiedName = name.replace('-','')
+        simplifiedName = name.replace('-','').replace('_','')
         for className in Material.all():
             shortName = className.replace('_','')
             if areTheSame(simplifiedName, shortName):
-- 
2.43.0


From d5b8964c3b074acba2c712068e204b42a2e459b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 33/57] =?UTF-8?q?fix:=20a=20Zemax=20file=20designed=20at?=
 =?UTF-8?q?=200.55=20=C2=B5m=20only=20can=20be=20read?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..45252d8 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -57,7 +57,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From 394a1dae2ddddff9f2c655f2fe3b99b49d20a18d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 34/57] fix: radii of five Thorlabs achromats
 (ACT508-400/500/1000-B bend the last surface the other way, typos in
 AC127-050/075-AB-ML)

---
 raytracing/thorlabs.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raytracing/thorlabs.py b/raytracing/thorlabs.py
index c787fad..3710bec 100644
--- a/raytracing/thorlabs.py
+++ b/raytracing/thorlabs.py
@@ -1952,14 +1952,14 @@ class ACT508_300_B(AchromatDoubletLens):
     
 class ACT508_400_B(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_400_B,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=-2290.9, 
+        super(ACT508_400_B,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=2290.9, 
                                     tc1=8.0, tc2=6.0, te=12.5, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=309',
                                     label="ACT508-400-B", wavelength=wavelength, wavelengthRef=0.5876)
     
 class ACT508_500_B(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_500_B,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=-2471.1, 
+        super(ACT508_500_B,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=2471.1, 
                                     tc1=6.0, tc2=6.0, te=10.8, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=310',
                                     label="ACT508-500-B", wavelength=wavelength, wavelengthRef=0.5876)
@@ -1973,7 +1973,7 @@ class ACT508_750_B(AchromatDoubletLens):
     
 class ACT508_1000_B(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_1000_B,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=-4726.2, 
+        super(ACT508_1000_B,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=4726.2, 
                                     tc1=6.0, tc2=6.0, te=11.4, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=312',
                                     label="ACT508-1000-B", wavelength=wavelength, wavelengthRef=0.5876)
@@ -2617,14 +2617,14 @@ class AC127_030_AB_ML(AchromatDoubletLens):
 
 class AC127_050_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=23.3, R2=-22.6, R3=-102.4,
+        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=26.3, R2=-22.6, R3=-102.4,
                                     tc1=4.0, tc2=2.0, te=5.0, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12807',
                                     label="AC127-050-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
 
 class AC127_075_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-1773,
+        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-177.3,
                                     tc1=2.5, tc2=1.5, te=3.3, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12808',
                                     label="AC127-075-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
@@ -2981,14 +2981,14 @@ class ACT508_300_B_ML(AchromatDoubletLens):
 
 class ACT508_400_B_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_400_B_ML,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=-2290.9,
+        super(ACT508_400_B_ML,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=2290.9,
                                     tc1=8.0, tc2=6.0, te=12.5, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=3685',
                                     label="ACT508-400-B-ML", wavelength=wavelength, wavelengthRef=0.5876)
 
 class ACT508_500_B_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_500_B_ML,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=-2471.1,
+        super(ACT508_500_B_ML,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=2471.1,
                                     tc1=6.0, tc2=6.0, te=10.8, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=3686',
                                     label="ACT508-500-B-ML", wavelength=wavelength, wavelengthRef=0.5876)
@@ -3002,7 +3002,7 @@ class ACT508_750_B_ML(AchromatDoubletLens):
 
 class ACT508_1000_B_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_1000_B_ML,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=-4726.2,
+        super(ACT508_1000_B_ML,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=4726.2,
                                     tc1=6.0, tc2=6.0, te=11.4, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=3688',
                                     label="ACT508-1000-B-ML", wavelength=wavelength, wavelengthRef=0.5876)
-- 
2.43.0


From 489b39130b7677126b2b9299c4e520f4b0c678ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 35/57] fix: a Zemax file that does not state its units can be
 read

---
 raytracing/zemax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 45252d8..6494544 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -249,6 +249,8 @@ class ZMXReader:
         for line in self.lines:
             if areTheSame(line["NAME"],key):
                 values.append(line["PARAM"][index])
+        if len(values) == 0:
+            return None
         if len(values) == 1:
             return values[0]
 
-- 
2.43.0


From a2d46420dc6ca3ceb1ef65369031f98fc2935b5f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 36/57] fix: lenses with integer focal lengths can be created
 (message could not be formatted), and nearly afocal ones

---
 raytracing/specialtylenses.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 25a1990..6a84915 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -194,20 +194,20 @@ class AchromatDoubletLens(CompoundLens):
                                                   label=label)
 
         if abs(self.tc1 + self.tc2 - self.L) / self.L > 0.02:
-            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc1 + self.tc2, self.L)
+            msg = "Obtained thickness {0:.4g} is not within 2%% of expected {1:.4g}".format(self.tc1 + self.tc2, self.L)
             warnings.warn(msg, ExpertNote)
 
         # After having built the lens, we confirm that the expected effective
         # focal length (fa) is actually within 1% of the calculated focal length
         (f, f) = self.focalDistances()
         if abs((f - fa) / fa) > 0.01:
-            msg = "Doublet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f, fa, self.label)
+            msg = "Doublet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f, fa, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
-        if abs((BFL - fb) / fb) > 0.01:
-            msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+        if BFL is not None and abs((BFL - fb) / fb) > 0.01:
+            msg = "Doublet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
@@ -305,20 +305,20 @@ class SingletLens(CompoundLens):
                                           label=label)
 
         if abs(self.tc - self.L) / self.L > 0.02:
-            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc1, self.L)
+            msg = "Obtained thickness {0:.4g} is not within 2%% of expected {1:.4g}".format(self.tc, self.L)
             warnings.warn(msg, ExpertNote)
 
         # After having built the lens, we confirm that the expected effective
         # focal length (fa) is actually within 1% of the calculated focal length
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
-            msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, fb, self.label)
+            msg = "Singlet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f_f, f, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
-        if abs((BFL - fb) / fb) > 0.01:
-            msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+        if BFL is not None and abs((BFL - fb) / fb) > 0.01:
+            msg = "Singlet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-- 
2.43.0


From 8f3bf4da37734c8bfefcf256fab27c2453fc8de2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 37/57] fix: the design chosen for a figure is kept (and can be
 changed) after a display

---
 raytracing/imagingpath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 2dfcc00..3ead8ba 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -973,6 +973,8 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        designParams = self.figure.designParams.copy()  # what the user chose, before adapting it to this display
+
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
@@ -1011,9 +1013,9 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        savedDesignParams = self.figure.designParams
         self.figure = Figure(opticalPath=self)
-        self.design = savedDesignParams
+        self.figure.designParams.update(designParams)
+        self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
-- 
2.43.0


From 83790816748afe4aaf60b3e255e112129ff292c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 38/57] fix: several objects (or lamps) at the same position
 are all drawn, and images without their object

---
 raytracing/figure.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 11c2dff..60e10ce 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -207,17 +207,18 @@ class Figure:
             instance = type(rays).__name__
             if instance == 'ObjectRays':
                 objectKey = kObjectImageZKey.format(rays.z) if rays.z != 0 else kObjectImageKey
+                objectGraphics = self.graphicGroups.setdefault(objectKey, [])
                 if self.path.showObject:
-                    self.graphicGroups[objectKey] = [ObjectGraphic(rays.yMax * 2, x=rays.z,
-                                                                   color=self.designParams['objectColor'],
-                                                                   fill=self.designParams['fillObject'], label=rays.label)]
+                    objectGraphics.append(ObjectGraphic(rays.yMax * 2, x=rays.z,
+                                                        color=self.designParams['objectColor'],
+                                                        fill=self.designParams['fillObject'], label=rays.label))
                 if self.path.showImages:
-                    self.graphicGroups[objectKey].extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
-                                                                                        color=self.designParams['imageColor'],
-                                                                                        fill=self.designParams['fillImage']))
+                    objectGraphics.extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
+                                                                         color=self.designParams['imageColor'],
+                                                                         fill=self.designParams['fillImage']))
             if instance == 'LampRays':
                 lampKey = 'Lamp (z={0:.2f})'.format(rays.z) if rays.z != 0 else kLampKey
-                self.graphicGroups[lampKey] = [LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label)]
+                self.graphicGroups.setdefault(lampKey, []).append(LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label))
 
     def setLinesFromRaysList(self):
         for rays in self.raysList:
@@ -228,13 +229,13 @@ class Figure:
                 if rays.z == 0:
                     self.lineGroups[kObjectImageKey].extend(rayTrace)
                 else:
-                    self.lineGroups[kObjectImageZKey.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault(kObjectImageZKey.format(rays.z), []).extend(rayTrace)
             elif instance == 'LampRays':
                 self.designParams['showObjectImage'] = False
                 if rays.z == 0:
                     self.lineGroups[kLampKey].extend(rayTrace)
                 else:
-                    self.lineGroups['Lamp (z={0:.2f})'.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault('Lamp (z={0:.2f})'.format(rays.z), []).extend(rayTrace)
             elif instance not in self.lineGroups.keys():
                 self.lineGroups[instance] = rayTrace
             else:
-- 
2.43.0


From bb7bb004783aedb01a258efe88b094545c470b0b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 39/57] fix: the largest diameter of a lens is its diameter,
 not half of it or whatever was displayed before

---
 raytracing/graphics.py |  5 ++---
 raytracing/matrix.py   | 14 +-------------
 2 files changed, 3 insertions(+), 16 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..2d66a25 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -282,14 +282,13 @@ class MatrixGraphic(Graphic):
 
 class LensGraphic(MatrixGraphic):
     def __init__(self, matrix, x=0.0, fixedWidth=False, minSize=0):
-        if matrix.apertureDiameter == float('+Inf') and minSize > matrix._physicalHalfHeight:
-            matrix._physicalHalfHeight = minSize
+        self.minHalfHeight = minSize if matrix.apertureDiameter == float('+Inf') else 0
 
         super(LensGraphic, self).__init__(matrix, x=x, fixedWidth=fixedWidth)
 
     @property
     def mainComponents(self):
-        return [DoubleThinArrow(self.matrix.displayHalfHeight()*2)]
+        return [DoubleThinArrow(max(self.matrix.displayHalfHeight(), self.minHalfHeight)*2)]
 
 
 class ApertureGraphic(MatrixGraphic):
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index cfd75fe..fa1d103 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1535,19 +1535,7 @@ class Lens(Matrix):
             The half height of the optical element
         """
         if self.apertureDiameter != float('+Inf'):
-            self._physicalHalfHeight = self.apertureDiameter/2  # real half height
-        return self._physicalHalfHeight
-
-    @property
-    def largestDiameter(self):
-        """ Largest diameter for a group of elements
-
-        Returns
-        -------
-        LargestDiameter : float
-            Largest diameter of the element or group of elements. For a `Matrix`
-            this will simply be the aperture diameter of this element.
-        """
+            return self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
 
-- 
2.43.0


From d66e8608a5c8cfb20a431229a81658906cbbc3c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 40/57] fix: an element refused by append() is not left in the
 group, nor with another index

---
 raytracing/matrixgroup.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 376683e..96aa730 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -65,6 +65,7 @@ class MatrixGroup(Matrix):
         if not isinstance(matrix, Matrix):
             raise TypeError("'matrix' must be a Matrix instance.")
 
+        previousIndices = matrix.frontIndex, matrix.backIndex
         if len(self.elements) != 0:
             lastElement = self.elements[-1]
             if lastElement.backIndex != matrix.frontIndex:
@@ -77,7 +78,12 @@ class MatrixGroup(Matrix):
                     raise ValueError(msg)
 
         self.elements.append(matrix)
-        self._updateTransferMatrix()
+        try:
+            self._updateTransferMatrix()
+        except Exception:  # Refused: the group and the element are left as they were
+            self.elements.pop()
+            matrix.frontIndex, matrix.backIndex = previousIndices
+            raise
 
     def _updateTransferMatrix(self):
         """ The properties of the group are those of its current elements. """
-- 
2.43.0


From 7fc15d179b8aace243a383f9952f52760271abb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 41/57] fix: the efficiency can be reported when no ray gets
 through, and when a single one is vignetted or blocked

---
 raytracing/imagingpath.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 3ead8ba..4709a37 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -900,8 +900,9 @@ class ImagingPath(MatrixGroup):
         #print(" For 100% efficiency, the system would require an increase of {0:.2f}⨉ in detection NA with same FOV".format(Is/Iap))
         print("\nVignetting")
         print("----------")
-        print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) + len(vignettedBlocked) > 0:
+            print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
+        if len(vignettedBlocked) >= 1:
             print("  Loss to vignetting: {0:.1f}%".format(100*len(vignettedBlocked)/(len(vignettedBlocked)+len(notBlocked))))
             print("  Vignetting is due to blockers at positions: {0}".format(set(vignettePositions)))
         else:
@@ -913,12 +914,13 @@ class ImagingPath(MatrixGroup):
         axis1.add_patch(p.Rectangle((-1,-1),2, 2, color=(0, 1.0, 0, 0.5), lw=3, fill=False,
                               transform=axis1.transData, clip_on=True))
 
-        (x,y) = list(zip(*notBlocked))
-        plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) >= 1:
+            (x,y) = list(zip(*notBlocked))
+            plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
+        if len(vignettedBlocked) >= 1:
             (x,y) = list(zip(*vignettedBlocked))
             plt.scatter(x,y, color=(1,0,0), marker='.',label="Vignetted")
-        if len(expectedBlocked) >= 2:
+        if len(expectedBlocked) >= 1:
             (x,y) = list(zip(*expectedBlocked))
             plt.scatter(x,y, color=(0.5,0.5,0.5), marker='.',label="Blocked")
         axis1.set_xlabel("$B$\n\nFigure: Each point is a ray emitted from the source.", fontsize=13*fontScale)
-- 
2.43.0


From 1e4070b4006fc6813130b77cd0c757d0499ae080 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 42/57] fix: the invariant of the source in the efficiency
 report is in the medium of the object

---
 raytracing/imagingpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 4709a37..8850cad 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -862,7 +862,7 @@ class ImagingPath(MatrixGroup):
                                  thetaMax=maxAngle,
                                  thetaMin=-maxAngle,
                                  maxCount=nRays)
-        Is = maxHeight * maxAngle
+        Is = self.frontIndex * maxHeight * maxAngle
 
         expectedBlocked = []
         notBlocked = []
-- 
2.43.0


From fbcaed475ae192204cc95fd55a7494bbef623458 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 43/57] fix: a flipped lens, interface or mirror is drawn
 flipped

---
 raytracing/matrix.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index fa1d103..07e90b6 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1584,6 +1584,11 @@ class CurvedMirror(Matrix):
         """
         return [SphericalInterface(R=2/self.C)]
 
+    @property
+    def surfaces(self):
+        """ The power is already that of the current orientation. """
+        return self.forwardSurfaces
+
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
 
@@ -1752,6 +1757,11 @@ class DielectricInterface(Matrix):
         """
         return [SphericalInterface(R=self.R, n=self.n2)]
 
+    @property
+    def surfaces(self):
+        """ The radius and the indices are already those of the current orientation. """
+        return self.forwardSurfaces
+
     def flipOrientation(self):
         """ We flip the element around (as in, we turn a lens around front-back).
 
@@ -1834,6 +1844,11 @@ class ThickLens(Matrix):
         return [SphericalInterface(R=self.R1, n=self.n, L=self.L),
                 SphericalInterface(R=self.R2)]
 
+    @property
+    def surfaces(self):
+        """ The radii are already those of the current orientation. """
+        return self.forwardSurfaces
+
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
 
-- 
2.43.0


From ca8420c7b880aa9f15b1b47239aa33f08b715764 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 44/57] fix: flat mirrors and flat surfaces of flipped elements
 can be drawn

---
 raytracing/graphicComponents.py | 6 +++---
 raytracing/matrix.py            | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index 912a153..99f85b7 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -204,7 +204,7 @@ class Surface(Component):
         h = self.halfHeight
         v1 = self.x
 
-        if self.surface.R == float("+inf"):
+        if np.isinf(self.surface.R):
             return [BezierCurve([(v1, -h), (v1, h)])]
 
         R1 = self.surface.R
@@ -258,7 +258,7 @@ class SurfacePair(Component):
             self.corners = [corner]
             return [BezierCurve([(corner, -h), (v1, 0)]), BezierCurve([(v1, 0), (corner, h)])]
 
-        if self.surfaceA.R == float("+inf"):
+        if np.isinf(self.surfaceA.R):
             self.corners = [v1]
             return [BezierCurve([(v1, -h), (v1, h)])]
 
@@ -293,7 +293,7 @@ class SurfacePair(Component):
                     BezierCurve([(v2, 0), (corner2, -h)]),
                     BezierCurve([(corner2, -h), (self.corners[0], -h)])]
 
-        if self.surfaceB.R == float("+inf"):
+        if np.isinf(self.surfaceB.R):
             self.corners.append(v2)
             return [BezierCurve([(self.corners[0], h), (v2, h)]),
                     BezierCurve([(v2, h), (v2, -h)]),
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 07e90b6..e7fc6e4 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1582,7 +1582,7 @@ class CurvedMirror(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
-        return [SphericalInterface(R=2/self.C)]
+        return [SphericalInterface(R=2/self.C if self.C != 0 else float('+inf'))]
 
     @property
     def surfaces(self):
-- 
2.43.0


From 13d260ab590db2b352d55978af3b72206a757f20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 45/57] fix: generic matrices and nested groups are drawn at
 their position, not at twice their position

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 2d66a25..311b398 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -154,7 +154,7 @@ class MatrixGraphic(Graphic):
         if halfHeight == float("+Inf"):
             halfHeight = self.matrix.displayHalfHeight()
 
-        return [Rectangle(xy=(self.x, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
+        return [Rectangle(xy=(0, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
 
     @property
     def apertureComponents(self):
-- 
2.43.0


From 8641aeb29f4fa4e7d346f1bf9b96e3b13e659d1e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 46/57] fix: a path with its entrance pupil at infinity can be
 displayed when the pupil is shown

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 60e10ce..31e1c9b 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -173,7 +173,7 @@ class Figure:
 
         if self.path.showEntrancePupil:
             (pupilPosition, pupilDiameter) = self.path.entrancePupil()
-            if pupilPosition is not None:
+            if pupilPosition is not None and np.isfinite(pupilPosition):
                 self.graphicGroups[kElementsKey].append(self.graphicOfEntrancePupil)
 
         if self.path.showPointsOfInterest:
-- 
2.43.0


From b1df5301439e4e45b10e5ce32a58c1f6e4b8f41f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 47/57] fix: a path without length can be displayed

---
 raytracing/imagingpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 8850cad..680b1a6 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -1005,7 +1005,7 @@ class ImagingPath(MatrixGroup):
         if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
             fanAngle = self.fanAngle
             if fanAngle is None:
-                fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+                fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5) if self.L != 0 else 0.1
             defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
                                        halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
             raysList.append(defaultObject)
-- 
2.43.0


From 8af0d311b4792418ee45571258b7864a262db932 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 48/57] fix: lamp rays can be drawn when only those starting on
 the axis get through

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 31e1c9b..dd0d742 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -423,7 +423,7 @@ class Figure:
                 continue  # nothing to plot, ray was fully blocked
 
             if maxHeight == 0:  # only axial ray
-                colorIndex = 1
+                colorIndex = len(colors) // 2
             else:
                 colorIndex = int(np.round(
                     (y[0] + maxHeight) / (maxHeight * 2) * (len(colors) - 1)))
-- 
2.43.0


From f9cf742da43e82347f9f54fc1c30267b5a1be900 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:42:13 +0000
Subject: [PATCH 49/57] fix: a flipped compound lens lists and shows its
 surfaces as it is

---
 raytracing/specialtylenses.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 6a84915..b7d7b34 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -43,17 +43,27 @@ class CompoundLens(MatrixGroup):
         return [{'z': f1, 'label': '$F_f$'}, {'z': f2, 'label': '$F_b$'}]
 
     @property
-    def forwardSurfaces(self) -> List[Interface]:
+    def surfaces(self) -> List[Interface]:
+        """ A list of surfaces that represents the element for drawing purposes. The
+        elements are flipped with the lens, therefore they describe it as it is now.
+        """
         surfaces = []
         spaceLength = 0
         for element in reversed(self.elements):
-            if isinstance(element, Space):
-                spaceLength = element.L
-            elif isinstance(element, DielectricInterface):
+            if isinstance(element, DielectricInterface):
                 surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
+                spaceLength = 0
+            else:
+                spaceLength += element.L
         surfaces.reverse()
         return surfaces
 
+    @property
+    def forwardSurfaces(self) -> List[Interface]:
+        if self.isFlipped:
+            return copy.deepcopy(self).flipOrientation().surfaces
+        return self.surfaces
+
     def focalShifts(self, wavelengths=None):
         """ The chromatic aberration shifts to the focal distance from the
         design focal length for a range of wavelengths.
-- 
2.43.0


From 60b658890f9eeea1ff28700e279a601928f1f123 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 50/57] fix: each aperture of an objective is drawn with its
 own diameter

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 311b398..73f8104 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -445,7 +445,7 @@ class ObjectiveGraphic(MatrixGroupGraphic):
         z = 0
         for element in self.matrixGroup.elements:
             if element.apertureDiameter != float('+Inf'):
-                halfHeight = self.matrix.apertureDiameter / 2.0
+                halfHeight = element.apertureDiameter / 2.0
                 components.append(ApertureBars(x=z, y=halfHeight, width=element.L))
             z += element.L
 
-- 
2.43.0


From 55edbc0c90b88bce43282a814eba1ba7a9304f66 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 51/57] fix: elements without vertices, and spaces, can be
 displayed

---
 raytracing/graphics.py | 21 +++++++++++++--------
 raytracing/matrix.py   |  6 ++++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 73f8104..088d325 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -174,8 +174,11 @@ class MatrixGraphic(Graphic):
 
     @property
     def verticesPoints(self) -> List[Point]:
-        return [Point(self.x + self.matrix.frontVertex, y=self.halfHeight * 0.1, text='$V_f$', color='0.5'),
-                Point(self.x + self.matrix.backVertex, y=self.halfHeight * 0.1, text='$V_b$', color='0.5')]
+        points = []
+        for vertex, text in ((self.matrix.frontVertex, '$V_f$'), (self.matrix.backVertex, '$V_b$')):
+            if vertex is not None:
+                points.append(Point(self.x + vertex, y=self.halfHeight * 0.1, text=text, color='0.5'))
+        return points
 
     @property
     def pointsOfInterest(self):
@@ -223,14 +226,16 @@ class MatrixGraphic(Graphic):
 
         # Front vertex to front focal spot (front focal length or FFL)
         h = halfHeight * 0.7
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.frontVertex, h), B=(F1, h)))
-        self.points.append(Point((self.matrix.frontVertex + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL),
-                                 hasMarker=False))
+        if FFL is not None:
+            self.annotations.append(ArrowAnnotation(A=(self.matrix.frontVertex, h), B=(F1, h)))
+            self.points.append(Point((self.matrix.frontVertex + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL),
+                                     hasMarker=False))
 
         # Back vertex to back focal spot (back focal length or BFL)
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.backVertex, -h), B=(F2, -h)))
-        self.points.append(Point((self.matrix.backVertex + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL),
-                                 hasMarker=False))
+        if BFL is not None:
+            self.annotations.append(ArrowAnnotation(A=(self.matrix.backVertex, -h), B=(F2, -h)))
+            self.points.append(Point((self.matrix.backVertex + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL),
+                                     hasMarker=False))
 
     def display(self):
         """ Display this component, without any ray tracing but with
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index e7fc6e4..9c575f0 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1430,8 +1430,10 @@ class Matrix(object):
         return halfHeight
 
     def display(self):
-        from .figure import GraphicOf
-        return GraphicOf(self).display()
+        from .graphics import GraphicOf, MatrixGraphic
+        # Spaces are not drawn in a path, and have no graphic of their own
+        graphic = GraphicOf(self) or MatrixGraphic(self)
+        return graphic.display()
 
     def __str__(self):
         """ String description that allows the use of print(Matrix())
-- 
2.43.0


From 89740899a9377dd07fb3b9acb869cb6522721af3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 52/57] fix: displayWithObject works for a path without length

---
 raytracing/imagingpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 680b1a6..f75d8a6 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -1066,7 +1066,7 @@ class ImagingPath(MatrixGroup):
 
         self._objectHeight = diameter
         if fanAngle is None:
-            fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+            fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5) if self.L != 0 else 0.1
         rays = ObjectRays(diameter, halfAngle=fanAngle, H=fanNumber, T=rayNumber)
 
         self.display(rays=rays, raysList=None, removeBlocked=removeBlocked, comments=comments,
-- 
2.43.0


From a50f39ea31b4922b45e0dd0aeacf9ed1cd690b87 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 53/57] fix: the wavelength of a beam is printed in nanometres

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index 579f4eb..6fe70f2 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -145,7 +145,7 @@ class GaussianBeam(object):
             description += "w(z): {0:.3f}, ".format(self.w)
             description += "R(z): {0:.3f}, ".format(self.R)
             description += "z: {0:.3f}, ".format(self.z)
-            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e9)
+            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e6)  # from mm
             description += "zo: {0:.3f}, ".format(self.zo)
             description += "wo: {0:.3f}, ".format(self.wo)
             description += "wo position: {0:.3f}".format(self.waistPosition)
-- 
2.43.0


From a3bde3df98ee89ad7e09daa92ff843c3f326e3a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 54/57] fix: Zemax files in centimetres and metres are
 converted to millimetres

---
 raytracing/zemax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 6494544..bb8cc28 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -46,6 +46,10 @@ class ZMXReader:
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
+        elif areTheSame("CM", units):
+            self.factor = 10
+        elif areTheSame("METER", units):
+            self.factor = 1000
 
         wavelengths = self.designWavelengths()
         self.designWavelength = wavelengths[len(wavelengths)//2]
-- 
2.43.0


From 9186764ec1ef6c540f3935a04ebbea57dab56f3b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:02:30 +0000
Subject: [PATCH 55/57] fix: a laser path shows only the waists of the beams
 displayed

---
 raytracing/figure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index dd0d742..dc59940 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -565,6 +565,7 @@ class Figure:
     def displayGaussianBeam(self, beams=None,
                             title=None, comments=None, backend='matplotlib', display3D=False, filepath=None):
         self.lineGroups['rays'] = []
+        self.annotations = []
         self.graphicGroups[kElementsKey] = self.graphicsOfElements
         for beam in beams:
             self.lineGroups['rays'].extend(self.beamTraceLines(beam))
-- 
2.43.0


From 169b4fe5bcc1fdbef1e756cc549189dc29f51527 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 56/57] fix: an element used at several levels of a group is
 flipped once

---
 raytracing/matrixgroup.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 96aa730..0169c6c 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -490,16 +490,18 @@ class MatrixGroup(Matrix):
     def flipOrientation(self):
         """ Flip the orientation (forward-backward) of this group of elements.
         Each element is also flipped individually. """
-        # An element may be used more than once, but it must be flipped only once
-        uniqueElements = []
-        for element in self.elements:
-            if not any(element is other for other in uniqueElements):
-                uniqueElements.append(element)
+        # An element may be used more than once (here or in the groups inside),
+        # but it must be flipped only once
+        flippedElements = self.__dict__.pop("_flippedElements", [])
 
         previousStates = [(element, element.__dict__.copy()) for element in self._allElements()]
         try:
-            for element in uniqueElements:
-                element.flipOrientation()
+            for element in self.elements:
+                if not any(element is other for other in flippedElements):
+                    flippedElements.append(element)
+                    if isinstance(element, MatrixGroup):
+                        element._flippedElements = flippedElements
+                    element.flipOrientation()
             self._replaceElements(self.elements[::-1])
         except Exception:
             for element, state in previousStates:
-- 
2.43.0


From 0925dab34c63aac89f6e86e6bbd0c48352de55bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:17:09 +0000
Subject: [PATCH 57/57] fix: a figure with an afocal singlet or doublet can be
 displayed

---
 raytracing/specialtylenses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b7d7b34..04cb62d 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -39,6 +39,8 @@ class CompoundLens(MatrixGroup):
         z : float
             The position
         """
+        if not self.hasPower:
+            return []
         (f1, f2) = self.focusPositions(z)
         return [{'z': f1, 'label': '$F_f$'}, {'z': f2, 'label': '$F_b$'}]
 
-- 
2.43.0

