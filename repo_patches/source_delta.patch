From 3a17a96160a625cf1c2b8a59f144873ab12f1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 01/71] fix: exposure/contrast copies extra channels from their
 own pixel

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..c0c08c7 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -163,7 +163,7 @@ class ExposureContrast(ProcessNode):
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From d9c547832cd894aef2fb97f7471ea52283d7465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 02/71] fix: exposure/contrast log style keeps the pixel index
 and imports math

---
 python/aces/clf/ExtensionExposureContrast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index c0c08c7..2820d7c 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -156,8 +158,8 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From 2b8529d671e358b4a4dd509b2c16e503333a28ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 03/71] fix: exposure/contrast video style raises the gain to
 1/1.83

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 2820d7c..64996d6 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -150,7 +150,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From ca0b737ee63239bb2e564a11f9b221f7d6b782c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 04/71] fix: exposure/contrast prints the contrast as contrast

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 64996d6..da74aba 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -183,7 +183,7 @@ class ExposureContrast(ProcessNode):
         print( "\tPivot     : %s" % param[2] )
         '''
 
-        values = {"exposure":param[0], "contrast":param[0], "pivot":param[2]}
+        values = {"exposure":param[0], "contrast":param[1], "pivot":param[2]}
 
         for key, value in values.iteritems():
             print( "%20s : %15s : %15s" % ("Value", key, value) )
-- 
2.43.0


From 58e7e3b41aa4ca3c02331fd084a4e65e4f5d138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 05/71] fix: moncurve reverse compares with its break point in
 the output domain

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..b6a0b31 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -171,7 +171,7 @@ class Gamma(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= (offset[i]/(gamma[i]-1)) ):
+                    if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 6b1782275b9e5f8f32713e54d0c5dd3f3665ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 06/71] fix: gamma parameters given as integers use real
 division

---
 python/aces/clf/ExtensionGamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index b6a0b31..9deed25 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -151,14 +151,14 @@ class Gamma(ProcessNode):
             elif style == 'basicRev':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-                    outValue[i] = pow(max(0.0, outValue[i]), 1/gamma[i])
+                    outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = (offset[i]/(gamma[i]-1))
+                    pivot = (offset[i]/(gamma[i]-1.0))
                     if( outValue[i] <= pivot ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
                     else:
-- 
2.43.0


From 34da2c0bb85470922c6649cc2cec47629ee494ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 07/71] fix: ASC CDL reverse no-clamp style does not clamp

---
 python/aces/clf/ASCCDL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..ce86252 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -218,9 +218,9 @@ class ASCCDL(ProcessNode):
                 for i in range(3):
                     outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                     if outSat < 0:
-                        outValue[i] = ( clamp(outSat) - offset[i] ) / slope[i]
+                        outValue[i] = ( outSat - offset[i] ) / slope[i]
                     else:
-                        outValue[i] = ( pow( clamp(outSat), 1.0/power[i] ) - offset[i] ) / slope[i]
+                        outValue[i] = ( pow( outSat, 1.0/power[i] ) - offset[i] ) / slope[i]
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
-- 
2.43.0


From f76d824b13feedb1d75a3b20f4a1db984da45183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 08/71] fix: ColorCorrection nodes, which have no bit depth or
 style, can be evaluated

---
 python/aces/clf/ASCCDL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index ce86252..6719ba6 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -130,11 +130,11 @@ class ASCCDL(ProcessNode):
             return values
 
         # Base attributes
-        inBitDepth = self._attributes['inBitDepth']
-        outBitDepth = self._attributes['outBitDepth']
+        inBitDepth = self.getAttribute('inBitDepth')
+        outBitDepth = self.getAttribute('outBitDepth')
 
         # Node attributes
-        style = ''
+        style = 'Fwd'
         if 'style' in self._attributes: style = self._attributes['style']
 
         if (not(getFeatureCompatibility() & featureSets["Autodesk"]) and
-- 
2.43.0


From 79d1a5bb57880d26aa4e90688816364c45f38772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 09/71] fix: Log.process can be called without a stride like
 every other node

---
 python/aces/clf/ExtensionLog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..e7aeade 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -112,7 +112,7 @@ class Log(ProcessNode):
         return None
     # readChild
 
-    def process(self, values, stride, verbose=False):
+    def process(self, values, stride=0, verbose=False):
         # Base attributes
         inBitDepth = self._attributes['inBitDepth']
         outBitDepth = self._attributes['outBitDepth']
-- 
2.43.0


From 3670a6683967a809e05b93156099b2b30189157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 10/71] fix: a defaultRange attribute that is False is not set

---
 python/aces/clf/Range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 99e860a..523b369 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -109,7 +109,7 @@ class Range(ProcessNode):
         if 'style' in self._attributes: 
             clamp = (self._attributes['style'] == 'clamp')
         if 'defaultRange' in self._attributes: 
-            defaultRange = True
+            defaultRange = bool(self._attributes['defaultRange'])
 
         # Node parameters
         minInValue = None
-- 
2.43.0


From 4909f48de80fe77044c90f67878e4aac5476d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 11/71] fix: the base ProcessNode can be read and passes values
 through

---
 python/aces/clf/ProcessNode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b0b1a28..4983489 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -134,7 +134,7 @@ class ProcessNode():
     # Ensures that this class and children can be written to disk and read back later 
     __metaclass__ = ProcessListChildMeta
 
-    def __init__(self, nodeType, inBitDepth=bitDepths["FLOAT16"], outBitDepth=bitDepths["FLOAT16"], id="", name="", bypass=False):
+    def __init__(self, nodeType="ProcessNode", inBitDepth=bitDepths["FLOAT16"], outBitDepth=bitDepths["FLOAT16"], id="", name="", bypass=False):
         "%s - Initialize the standard class variables" % nodeType
         self._nodeType = nodeType
         self._elements = []
@@ -306,7 +306,7 @@ class ProcessNode():
     def process(self, values, stride=0, verbose=False):
         if verbose:
             print( "ProcessNode::process - no op")
-        return value
+        return values
 
     # Setters and getters
     def setInBitDepth(self, name):
-- 
2.43.0


From 33813fcc0a7b71e6733b92a728b212e1b32ddbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 12/71] fix: cubic 1D lookup falls back to the linear lookup of
 the same array

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 14cbbf7..5b666f9 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -511,7 +511,7 @@ class Array:
         dimensions = self._dimensions
 
         if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
-            return lookup1DLinear(position, channel)
+            return self.lookup1DLinear(position, channel)
 
         index = position*(dimensions[0]-1)
 
-- 
2.43.0


From 3784a4d8d8fa7e6217b9ee091bbf3772cddc61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 13/71] fix: nearest half-domain lookup returns the entry

---
 python/aces/clf/Array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 5b666f9..30ed40d 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -351,10 +351,9 @@ class Array:
 
         # Input half-float values are treated as 16 bit unsigned integers
         # Those integers are the index into the LUT
-        if not interpolate:
-            index = halfToUInt16(position)
-            value = self.lookup1D(index, channel)
-            result = value
+        index = halfToUInt16(position)
+        value = self.lookup1D(index, channel)
+        result = value
 
         return result
 
-- 
2.43.0


From 87723aedb9faaea188aabeceeb3e9c14f6b9b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 14/71] fix: 3D LUT index arithmetic handles non-cubic sizes

---
 python/aces/clf/Array.py         | 2 +-
 python/aces/clf/LUT3D.py         | 2 +-
 python/aces/lutFormats/LutCSP.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 30ed40d..e6fda15 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -537,7 +537,7 @@ class Array:
         # Corner cases
         index3 = map(lambda a, b: max(0, min(a, b-1)), index3, dimensions)
 
-        index1 = (index3[0]*dimensions[0]*dimensions[1] + index3[1]*dimensions[1] + index3[2])*3 
+        index1 = ((index3[0]*dimensions[1] + index3[1])*dimensions[2] + index3[2])*3 
 
         #result = [values[index1], values[index1+1], values[index1+2]]
         result = values[index1:index1+3]
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..2d360fc 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -226,7 +226,7 @@ def simple3DLUT(id,
                 samplez = float(z)/(resolution[2]-1)
 
                 # Red changes fastest
-                lutValueIndex = (((x*resolution[0] +y)*resolution[1] + z))*channels
+                lutValueIndex = (((x*resolution[1] +y)*resolution[2] + z))*channels
 
                 fvalue = f(samplex, sampley, samplez)
                 lutValues[lutValueIndex:lutValueIndex+channels] = fvalue
diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..d459de1 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -334,7 +334,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
-- 
2.43.0


From d068e8d92aab423b849149ae16b0fba7a3be939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 15/71] fix: LUT3D.setArray does not modify the dimensions
 passed to it

---
 python/aces/clf/LUT3D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 2d360fc..027675f 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -87,8 +87,7 @@ class LUT3D(ProcessNode):
     # setIndexMaps
 
     def setArray(self, dimension, values, floatEncoding='string'):
-        dimensions = dimension
-        dimensions.append(3)
+        dimensions = list(dimension) + [3]
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
-- 
2.43.0


From d2519dad18d21d38fc0cbb477a8e8987d1338d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 16/71] fix: a LUT3D with no known interpolation still applies
 its table

---
 python/aces/clf/LUT3D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 027675f..b03f9bf 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -171,14 +171,14 @@ class LUT3D(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
             # Run color through LUT
-            # trilinear interpolation
-            if interpolation == 'trilinear':
-                outValue[0:3] = self._array.lookup3DTrilinear(outValue)
-
             # tetrahedral interpolation
-            elif interpolation == 'tetrahedral':
+            if interpolation == 'tetrahedral':
                 outValue[0:3] = self._array.lookup3DTetrahedral(outValue)
 
+            # trilinear interpolation is the default
+            else:
+                outValue[0:3] = self._array.lookup3DTrilinear(outValue)
+
             # Bit Depth conversion for output is ignored for LUTs
             # as LUT values are assumed to target a specific bit depth
             #for i in range(min(3, len(value))):
-- 
2.43.0


From c10eb5134697828448c141c82e6d8b1e3e59d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 17/71] fix: index map dimensions of LUT nodes can be queried

---
 python/aces/clf/LUT1D.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..3e12624 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -112,7 +112,7 @@ class LUT1D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index b03f9bf..78ee0a6 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -104,7 +104,7 @@ class LUT3D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
-- 
2.43.0


From d3c619d2f74a561e595331acaf85175395797cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 18/71] fix: setting the values of a cached index map rebuilds
 its cache

---
 python/aces/clf/IndexMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 10d231e..14d69c9 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -82,7 +82,7 @@ class IndexMap:
     def setValues(self, values):
         self._values = values
         if self._useCachedProcess and self._values != [] and self._dimension != []:
-            self._createCachedEval()
+            self._createCachedProcess()
     def getValues(self):
         return self._values
 
-- 
2.43.0


From 82df62c93e05d8e4243ef780c900058c0462a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 19/71] fix: the string float encoding can be set without the
 Duiker Research features

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index e6fda15..92f85ac 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -119,7 +119,7 @@ class Array:
         return self._rawHalfs
 
     def setFloatEncoding(self, floatEncoding):
-        if getFeatureCompatibility() & featureSets["Duiker Research"]:
+        if floatEncoding == 'string' or getFeatureCompatibility() & featureSets["Duiker Research"]:
             self._floatEncoding = floatEncoding
         else:
             msg = "Unsupported feature : Array floatEncoding"
-- 
2.43.0


From 047aa9fb97bed23c4283f0291e3548f66b15f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 20/71] fix: the base LUT format read reports its format
 instead of failing

---
 python/aces/lutFormats/LutFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutFormat.py b/python/aces/lutFormats/LutFormat.py
index 85d5c85..613943e 100644
--- a/python/aces/lutFormats/LutFormat.py
+++ b/python/aces/lutFormats/LutFormat.py
@@ -146,7 +146,7 @@ class LutFormat():
              interpolation='linear',
              inversesUseIndexMaps=True, 
              inversesUseHalfDomain=True):
-        print( "Format %s can not be read" % self.formatType )
+        print( "Format %s can not be read" % cls.formatType )
         return False
 
     @classmethod
-- 
2.43.0


From 44f05081016508b5bb740407411d3eb9de5b33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 21/71] fix: the CTL format, which can not be read, uses the
 base read

---
 python/aces/lutFormats/LutCTL.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..739d48b 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -87,17 +87,6 @@ class LutFormatCTL(LutFormat.LutFormat):
         LutFormat.LutFormat.__init__(self)
     # __init__
 
-    @classmethod
-    def read(cls,
-             lutPath, 
-             inverse=False, 
-             interpolation='linear',
-             inversesUseIndexMaps=True, 
-             inversesUseHalfDomain=True):
-        return cls.readCTL(lutPath,
-            inverse, 
-            interpolation)
-
     @classmethod
     def write1D(cls,
                 lutPath,
-- 
2.43.0


From 0dc607f97a39160c0a519ae49e21e1a7366cade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 22/71] fix: CTL 1D LUTs write each channel to its own table

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 739d48b..2403646 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -165,7 +165,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From c907edbb125c1af9d1332e85246d6a5a8e6ab6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 23/71] fix: the output shaper of a 1D/3D/1D LUT is the inverse
 of the output shaper

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..6d1ebd6 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -514,7 +514,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From 562e64d008811f4f014fe0839a129b36cf1f0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 24/71] fix: 3D sampling allocates its grid in red, green, blue
 order

---
 python/aces/lutFormats/Sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 6d1ebd6..c8c7f9f 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -334,7 +334,7 @@ def sample3D(processList,
     #print( "sample3D" )
 
     # Sample all values in 3D range
-    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
@@ -472,7 +472,7 @@ def sample1D3D1D(processList,
     #
     #print( "sampleAndWrite1D3D1D - create 3D LUT" )
 
-    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
-- 
2.43.0


From e1153cd8256a91b01906f3ff9d0add89970d260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 25/71] fix: CSP 3D LUTs of non-cubic size are written
 completely

---
 python/aces/lutFormats/LutCSP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index d459de1..146af24 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -507,9 +507,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, resolution)) )
      
             # Note: CSP increments red fastest
-            for b in range(resolution[0]):
+            for b in range(resolution[2]):
                 for g in range(resolution[1]):
-                    for r in range(resolution[2]):
+                    for r in range(resolution[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, data[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
@@ -553,9 +553,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, lutResolution3d)) )
      
             # Note: CSP increments red fastest
-            for b in range(lutResolution3d[0]):
+            for b in range(lutResolution3d[2]):
                 for g in range(lutResolution3d[1]):
-                    for r in range(lutResolution3d[2]):
+                    for r in range(lutResolution3d[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, samples3d[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
-- 
2.43.0


From 9804be01ef7494e4ba7dd4ff6b456d6c4f9bb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 26/71] fix: a bypass attribute that is False does not bypass
 the node

---
 python/aces/clf/ExtensionGroup.py | 2 +-
 python/aces/clf/ProcessList.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..ba4089a 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,7 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if not processNode.getAttribute('bypass'):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..5b798b6 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -354,7 +354,7 @@ class ProcessList:
             #print( "processing : %s" % result )
 
             # Process the current value using the ProcessNode
-            if (processNode.getAttribute('bypass') == None or
+            if (not processNode.getAttribute('bypass') or
                 not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
@@ -363,7 +363,7 @@ class ProcessList:
                             " ".join(map(lambda x: "%3.6f" % x, result)),
                             type(result) ) )
 
-                    if (processNode.getAttribute('bypass') != None and
+                    if (processNode.getAttribute('bypass') and
                         not(getFeatureCompatibility() & featureSets["Autodesk"])):
                         print( "%s (%s) - bypass ignored based on feature compatibility setting." % 
                             (processNode.getAttribute('name'), processNode.getNodeType()) )
-- 
2.43.0


From cee849b5487c1fbf0448913a0ebd23a12f8fca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 27/71] fix: groups honour bypass only with the Autodesk
 features, like process lists

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index ba4089a..ff38fdf 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if not processNode.getAttribute('bypass'):
+            if (not processNode.getAttribute('bypass') or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
-- 
2.43.0


From ac1bd6fb87ba68802d4ae65574d098f5eecf4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 28/71] fix: bit-depth adapters of bypassed nodes are given the
 stride

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 5b798b6..67453c7 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -386,7 +386,7 @@ class ProcessList:
                                 processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
 
                         RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
-                        result = RangeAdapter.process(result, verbose=verbose)
+                        result = RangeAdapter.process(result, stride, verbose=verbose)
                         if verbose:
                             print( "%s (%s) - result value : %s, result type : %s" % 
                                 (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
-- 
2.43.0


From 681b05a0067d10664c16c25819b30fbb755b1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 29/71] fix: lenient reading skips process nodes that the
 feature set does not allow

---
 python/aces/clf/ProcessList.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 67453c7..989253c 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -218,6 +218,7 @@ class ProcessList:
                             raise Errors.UnsupportedExtensionError(msg)
                         else:
                             print( "ProcessList::read - %s" % msg )
+                            continue
 
                     self.addProcess( element )
 
-- 
2.43.0


From 7f2f7b4adac53091b7107e0419151cfbc3a1d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 30/71] fix: unsupported process nodes are rejected before
 their contents are read

---
 python/aces/clf/ProcessList.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 989253c..05583b0 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -199,14 +199,9 @@ class ProcessList:
             #print( child.tag, elementType, elementClass )
 
             if elementClass != None:
-                # Instantiate the class and read XML data
-                element = elementClass()
-
                 # Add ProcessNodes to the ProcessList data structures
                 processNodeClass = self.getClass("ProcessNode")
                 if issubclass(elementClass, processNodeClass):
-                    element.read(child, strict=strict)
-
                     # Check that a given ProcessNode class is compatible with 
                     # the current feature set
                     if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
@@ -220,10 +215,14 @@ class ProcessList:
                             print( "ProcessList::read - %s" % msg )
                             continue
 
+                    # Instantiate the class and read XML data
+                    element = elementClass()
+                    element.read(child, strict=strict)
                     self.addProcess( element )
 
                 # Add elements to the ProcessList data structures
                 else:
+                    element = elementClass()
                     element.read(child)
                     self.addElement( element )
             else:
-- 
2.43.0


From 10e2e1f964a74764a18c6be6a6f23f62a64ece21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 31/71] fix: nodes nested in groups obey the feature set and
 the strictness of the reader

---
 python/aces/clf/ExtensionGroup.py | 25 +++++++++++++++++++++----
 python/aces/clf/ProcessList.py    | 15 +++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index ff38fdf..95fab3d 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -62,6 +62,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -94,22 +95,38 @@ class Group(ProcessNode):
         return node
     # write
 
+    def read(self, element, strict=False):
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, child):
         elementType = self.getElementType(child.tag)
         elementClass = ProcessList.getClass(elementType)
         #print( elementType, elementClass )
 
         if elementClass != None:
-            element = elementClass()
-            element.read(child)
-
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                if not ProcessList.isSupported(elementType):
+                    msg = "Unsupported feature : ProcessNode type %s" % elementType
+                    if self._strict:
+                        raise Errors.UnsupportedExtensionError(msg)
+                    print( "Group::read - %s" % msg )
+                    return None
+
+                element = elementClass()
+                element.read(child, strict=self._strict)
                 self.addProcess( element )
             else:
+                element = elementClass()
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            print( "Group::read - %s" % msg )
 
         return None
     # readChild
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 05583b0..145c687 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -184,6 +184,16 @@ class ProcessList:
         return elementType
     # getElementType
 
+    # Check that a given ProcessNode class is compatible with
+    # the current feature set
+    @staticmethod
+    def isSupported(elementType):
+        return not ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+            not (getFeatureCompatibility() & featureSets["Autodesk"])) or
+            (elementType in ["Group"] and
+                not (getFeatureCompatibility() & featureSets["Duiker Research"])) )
+    # isSupported
+
     def read(self, element, strict=False):
         root = element
 
@@ -204,10 +214,7 @@ class ProcessList:
                 if issubclass(elementClass, processNodeClass):
                     # Check that a given ProcessNode class is compatible with 
                     # the current feature set
-                    if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
-                        not (getFeatureCompatibility() & featureSets["Autodesk"])) or
-                        (elementType in ["Group"] and
-                            not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
+                    if not ProcessList.isSupported(elementType):
                         msg = "Unsupported feature : ProcessNode type %s" % elementType
                         if strict:
                             raise Errors.UnsupportedExtensionError(msg)
-- 
2.43.0


From 2a2882b0487ea3663871cf53f190f289c5708f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 32/71] fix: reading a file keeps the errors of strict reading
 and closes the file

---
 python/aces/clf/ProcessList.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 145c687..f00fc98 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -244,18 +244,18 @@ class ProcessList:
         # Support for reading gzipped xml data
         if getFeatureCompatibility() & featureSets["Duiker Research"]:
             # Try to read as gzipped XML file
+            f = gzip.open(clfPath, 'rb')
             try:
-                f = gzip.open(clfPath, 'rb')
                 tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
-                f.close()
 
             # Read as normal XML otherwise
-            except:
+            except Exception:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
+            finally:
+                f.close()
+
+            root = tree.getroot()
+            self.read(root, strict)
 
         # Read as XML otherwise
         else:
-- 
2.43.0


From ab70aa1763520223a7d5fa5f3a17dd3d162b5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 33/71] fix: files being written are closed when writing fails

---
 python/aces/clf/ProcessList.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index f00fc98..9e4867c 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -155,8 +155,10 @@ class ProcessList:
             if getFeatureCompatibility() & featureSets["Duiker Research"]:
                 prettyString = self.xmlPrettify(document, clfPath)
                 f = gzip.open(clfPath, 'wb')
-                f.write(prettyString)
-                f.close()
+                try:
+                    f.write(prettyString)
+                finally:
+                    f.close()
             else:
                 msg = "Unsupported feature : write gzipped file"
                 #print( "ProcessList::writeFile - %s" % msg )
@@ -170,8 +172,10 @@ class ProcessList:
             # Pretty saving to to disk
             prettyString = self.xmlPrettify(document, clfPath)
             fp = open(clfPath, 'wb')
-            fp.write(prettyString)
-            fp.close()
+            try:
+                fp.write(prettyString)
+            finally:
+                fp.close()
 
         return True
     # writeFile
-- 
2.43.0


From f018da41f4910224e06b8625f6094fdaf5f01ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 34/71] fix: reference paths that are empty are not joined

---
 python/aces/clf/ExtensionReference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..c89363f 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -62,8 +62,8 @@ from ProcessNode import *
 # Ignores the 'alias' attribute for now
 def resolvePath(path, basePath, alias):
     fullPath = None
-    if 'path' != '':
-        if 'basePath' != '':
+    if path != '':
+        if basePath != '':
             fullPath = os.path.join(basePath, path)
             #print( fullPath )
         else:
-- 
2.43.0


From 886dab800cac4f0032f380b344dce6aebb234b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 35/71] fix: unresolved references are kept when writing a
 self-contained file

---
 python/aces/clf/ExtensionReference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index c89363f..1fed49c 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -105,7 +105,7 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes:
+        if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
                 process.write(tree)
-- 
2.43.0


From 2bd3d7fbb85dc9f15b2414a67ce27fdae3f46860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 36/71] fix: self-contained writing reaches references in
 groups and in referenced files

---
 python/aces/clf/ExtensionGroup.py     | 5 ++++-
 python/aces/clf/ExtensionReference.py | 7 ++++++-
 python/aces/clf/ProcessList.py        | 5 ++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 95fab3d..ca7f9ed 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -90,7 +90,10 @@ class Group(ProcessNode):
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, ProcessList.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(node)
+            if isinstance(process, Group):
+                process.write(node, writeSelfContained)
+            else:
+                process.write(node)
         
         return node
     # write
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 1fed49c..352f42f 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -108,7 +108,12 @@ class Reference(ProcessNode):
         if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
-                process.write(tree)
+                if isinstance(process, Reference):
+                    process.setWriteReferencedNodes(True)
+                if isinstance(process, ProcessList.ProcessList.getClass("Group")):
+                    process.write(tree, True)
+                else:
+                    process.write(tree)
             return tree
         else:
             node = ProcessNode.write(self, tree)
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 9e4867c..bf82d5c 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -140,7 +140,10 @@ class ProcessList:
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, self.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(tree)
+            if isinstance(process, self.getClass("Group")):
+                process.write(tree, writeSelfContained)
+            else:
+                process.write(tree)
         
         document = etree.ElementTree(tree)
 
-- 
2.43.0


From 6195b8e1fc6e7f3d897f063db4543af3608991d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 37/71] fix: spi3d files need three input and three output
 channels

---
 python/aces/lutFormats/LutSPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..273af04 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -250,7 +250,7 @@ class LutFormatSPI(LutFormat.LutFormat):
             version = float(tokens[1])
             if version == 1.0:
                 tokens = map(int, lines[1].split())
-                if tokens[0] == 3 or tokens[1] == 3:
+                if tokens[0] == 3 and tokens[1] == 3:
                     tokens = map(int, lines[2].split())
                     resolution = tokens
 
-- 
2.43.0


From b66bcf8b4473129892ad17649c6d906c50ef4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 38/71] fix: spi1d files may contain blank lines

---
 python/aces/lutFormats/LutSPI.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 273af04..b09b77e 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -170,7 +170,9 @@ class LutFormatSPI(LutFormat.LutFormat):
             #print( "line : %s" % line )
             tokens = line.split()
 
-            if tokens[0] == "Version":
+            if not tokens:
+                continue
+            elif tokens[0] == "Version":
                 version = int(tokens[1])
                 if version != 1:
                     break
-- 
2.43.0


From 0b20cd4e96c43d3e63cad9c6b4476f684095bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 39/71] fix: inverting a LUT with a flat end does not divide by
 zero

---
 python/aces/lutFormats/Sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c8c7f9f..6dca255 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -146,7 +146,7 @@ def generateLUT1DInverseResampled(resolution, samples, minInputValue, maxInputVa
             sampleIndexLow = lutIndexLow*channels + channel
             sampleIndexHigh = lutIndexHigh*channels + channel
 
-            if lutIndexLow == lutIndexHigh:
+            if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                 lutInterp = 0.0
             else:
                 lutInterp = (rangedValue - samples[sampleIndexLow])/(
@@ -223,7 +223,7 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 sampleIndexLow = lutIndexLow*channels + channel
                 sampleIndexHigh = lutIndexHigh*channels + channel
 
-                if lutIndexLow == lutIndexHigh:
+                if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                     lutInterp = 0.0
                 else:
                     lutInterp = (inputValue - samples[sampleIndexLow])/(
-- 
2.43.0


From 7876b65f6a9d04839e4d473ca6967d9b62968853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 40/71] fix: expanding CSP preluts of different extent does not
 divide by zero

---
 python/aces/lutFormats/LutCSP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 146af24..9634dab 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -220,8 +220,11 @@ class LutFormatCSP(LutFormat.LutFormat):
                     # Get the interpolation value
                     prelutIndexLow = max(0, prelutIndex-1)
                     prelutIndexHigh = min(inputResolution-1, prelutIndex)
-                    prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
-                        cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
+                    if prelutIndexLow == prelutIndexHigh:
+                        prelutInterp = 0.0
+                    else:
+                        prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
+                            cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
 
                     # Find the output value
                     outputInterpolationRange = (cspPreluts[channel][1][prelutIndexHigh] - cspPreluts[channel][1][prelutIndexLow])
-- 
2.43.0


From b290f519529a642051cfeecb43c8df333a467050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 41/71] fix: CLF 1D/3D/1D LUTs carry the input shaper itself

---
 python/aces/lutFormats/LutCLF.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/aces/lutFormats/LutCLF.py b/python/aces/lutFormats/LutCLF.py
index f14c496..f23c6a2 100644
--- a/python/aces/lutFormats/LutCLF.py
+++ b/python/aces/lutFormats/LutCLF.py
@@ -132,16 +132,17 @@ class LutFormatCLF(LutFormat.LutFormat):
 
         # Create the input shaper
         if samples1dIn:
-            if inversesUseIndexMaps:
-                #print( "Generating inverse of 1D LUT using Index Maps")
-                lutpnInverses = Sampling.generateLUT1DInverseIndexMap([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)
-            elif inversesUseHalfDomain:
-                #print( "Generating full half-domain inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseHalfDomain([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax, rawHalfs=True)
-            else:
-                #print( "Generating resampled inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseResampled([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)            
-            lutpns.extend(lutpnInverses)
+            # The samples are taken at equal steps from inputMin to inputMax
+            rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "range", "range")
+            rangepn.setMinInValue(inputMin)
+            rangepn.setMaxInValue(inputMax)
+            rangepn.setMinOutValue(0.0)
+            rangepn.setMaxOutValue(1.0)
+            lutpns.append(rangepn)
+
+            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d_in", "lut1d_in", interpolation='linear')
+            lutpn.setArray(3, samples1dIn)
+            lutpns.append(lutpn)
 
         # Create the 3D LUT
         clfSamples = [0.0]*(lutResolution3d[0]*lutResolution3d[1]*lutResolution3d[2])*3
-- 
2.43.0


From a7dce34322834fa2bc48af641e0dbd0288d80c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 42/71] fix: single-threaded image filtering processes every
 row

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From 4330172b391766f73cf8b67937332165db12df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 43/71] fix: filtering an image of one row does not divide by
 zero

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..774bf50 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From c80c820a274fd1ef4b7089e435e1127ff41a7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 44/71] fix: an image that cannot be opened aborts the
 filtering

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 774bf50..2cc1a52 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From b55987cc6785d5a88b021532ae4c4747c60c4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 45/71] fix: integer image samples are clamped to their range

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 2cc1a52..9b6b02c 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -229,7 +229,7 @@ def writePixelArray(outputPath,
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
         for i in range(len(pixels)):
-            pixels8[i] = int(pixels[i])
+            pixels8[i] = int(min(max(pixels[i], 0), 255))
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -247,7 +247,7 @@ def writePixelArray(outputPath,
         pixels16 = np.zeros(width*height*channels, dtype=np.uint16)
         # Cast to 16 bit and reset integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(pixels[i]) << bitShift
+            pixels16[i] = int(min(max(pixels[i], 0), 65535 >> bitShift)) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From a6a20632755590abb3a2e82c3ef93ca774dcc1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 46/71] fix: bits per sample of float outputs

---
 python/aces/filterImageWithCLF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 9b6b02c..0a41f67 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -271,7 +271,9 @@ def writePixelArray(outputPath,
         clf.bitDepths["UINT8"] : 8,
         clf.bitDepths["UINT10"] : 10,
         clf.bitDepths["UINT12"] : 12,
-        clf.bitDepths["UINT16"] : 16
+        clf.bitDepths["UINT16"] : 16,
+        clf.bitDepths["FLOAT16"] : 16,
+        clf.bitDepths["FLOAT32"] : 32
     }
 
     # Add the metadata tags
-- 
2.43.0


From 36f5ebf79f8c601c17a3192eb3d4ff039026f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 47/71] fix: --lutResolution3d is not overwritten by the
 1D/3D/1D resolution

---
 python/aces/convertCLFtoLUT.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/convertCLFtoLUT.py b/python/aces/convertCLFtoLUT.py
index 7627e64..d17875b 100644
--- a/python/aces/convertCLFtoLUT.py
+++ b/python/aces/convertCLFtoLUT.py
@@ -193,10 +193,10 @@ def main():
     if options.lutResolution1d3d1d is not None:
         #print( options.shaperIn )
         shaperInLutResolution = int(options.lutResolution1d3d1d[0][0])
-        lutResolution3d = int(options.lutResolution1d3d1d[0][1])
+        lutResolution1d3d1d = int(options.lutResolution1d3d1d[0][1])
         shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])
     else:
-        (shaperInLutResolution, lutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
+        (shaperInLutResolution, lutResolution1d3d1d, shaperOutLutResolution) = (1024, 33, 2)
 
     # Figure out the data format
     lutDataFormat = lutFormats.LUTDATAFORMAT_1D
@@ -222,7 +222,7 @@ def main():
     print( "%25s : %s" % ("data format", lutDataFormat))
     print( "%25s : %s" % ("1D lut resolution", lutResolution1d))
     print( "%25s : %s" % ("3D lut resolution", lutResolution3d))
-    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, lutResolution3d, shaperOutLutResolution)))
+    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, lutResolution1d3d1d, shaperOutLutResolution)))
     print( "%25s : %s" % ("min input value", inputMinValue))
     print( "%25s : %s" % ("max input value", inputMaxValue))
     print( "%25s : %s" % ("shaper in", "%s, %s, %s" % (shaperInType, shaperInMin, shaperInMax)))
@@ -238,7 +238,7 @@ def main():
                         lutDataFormat,
                         lutResolution1d,
                         lutResolution3d,
-                        [shaperInLutResolution, lutResolution3d, shaperOutLutResolution],
+                        [shaperInLutResolution, lutResolution1d3d1d, shaperOutLutResolution],
                         inputMinValue,
                         inputMaxValue,
                         [shaperInType, shaperInMin, shaperInMax],
-- 
2.43.0


From ddec074d38d50e820b4f486dcc54f52d83fcd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 48/71] fix: the test for a trivial alpha row and column reads
 the matrix

---
 python/aces/convertOCIOtoCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..1b46f5b 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,8 +79,8 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
-- 
2.43.0


From 75152fe2e4d90454719bedcd1475260040e0533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 49/71] fix: a matrix with an offset has twelve coefficients

---
 python/aces/convertOCIOtoCLF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 1b46f5b..9dc9e47 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -85,6 +85,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
                 resolution = [3, 4, 3]
+                matrix = list(matrix[0:12])
                 matrix[3] = offset[0]
                 matrix[7] = offset[1]
                 matrix[11] = offset[2]
-- 
2.43.0


From ed92655ca841e8a41247eb91e37062cbf745944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 50/71] fix: a file transform that cannot be read adds no nodes

---
 python/aces/convertOCIOtoCLF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 9dc9e47..5fca30e 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -157,7 +157,8 @@ def convertTransformsToProcessNodes( ocioTransform,
             inversesUseHalfDomain=inversesUseHalfDomain,
             returnProcessNodes=True)
         #print( "Created %d CLF process nodes" % len(lutpns) )
-        pns.extend( lutpns )
+        if lutpns != None:
+            pns.extend( lutpns )
 
     elif isinstance(ocioTransform, OCIO.MatrixTransform):
         matrix = ocioTransform.getMatrix()
-- 
2.43.0


From 2cba6795daa8b1990ed6cbdac0a0409b5619b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 51/71] fix: only 10 and 12 bit samples are shifted when
 reading

---
 python/aces/filterImageWithCLF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 0a41f67..b1c6db4 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -164,7 +164,7 @@ def readPixelArray(inputPath,
                 if 'oiio:BitsPerSample' in metanames:
                     oiioBitDepth = metadata[ metanames.index( "oiio:BitsPerSample" ) ].value
 
-                    if type == oiio.UINT16:
+                    if type == oiio.UINT16 and oiioBitDepth in [10, 12]:
                         bitShift = (16 - oiioBitDepth)
                         print( "Reading as 16-bit int, then shifting by %d bits" % bitShift )
 
-- 
2.43.0


From a04fbeb912e2a52343b4d02b4c9cf8a57dd774bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 52/71] fix: a half-domain LUT is addressed by half values
 whatever its interpolation

---
 python/aces/clf/LUT1D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 3e12624..b8b29de 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -185,14 +185,14 @@ class LUT1D(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                 # Run through LUT
-                # Use Cubic interpolation
-                if interpolation == 'cubic':
-                    outValue[i] = self._array.lookup1DCubic(outValue[i], i)
-
                 # Use halfDomain lookup and interpolation
-                elif halfDomain:
+                if halfDomain:
                     outValue[i] = self._array.lookup1DHalfDomain(outValue[i], i, interpolate=True)
 
+                # Use Cubic interpolation
+                elif interpolation == 'cubic':
+                    outValue[i] = self._array.lookup1DCubic(outValue[i], i)
+
                 # Linear interpolation is the default
                 #elif interpolation == 'linear':
                 else:
-- 
2.43.0


From c64e1b2493a19fec27900c2763736513856257f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 53/71] fix: a namespace survives reading a process list

---
 python/aces/clf/ProcessList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index bf82d5c..06a404a 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -204,6 +204,10 @@ class ProcessList:
     def read(self, element, strict=False):
         root = element
 
+        # The parser moves the namespace from the attributes to the tag
+        if root.tag.startswith('{'):
+            self.setNamespace(root.tag[1:root.tag.find('}')])
+
         # Store attributes
         for key, value in root.attrib.iteritems():
             self.setAttribute(key, value)
-- 
2.43.0


From d9bae776dc88903022c96f54024900e745549ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 54/71] fix: an empty comment is read as an empty text

---
 python/aces/clf/Comment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Comment.py b/python/aces/clf/Comment.py
index c4b0da3..a2ed973 100644
--- a/python/aces/clf/Comment.py
+++ b/python/aces/clf/Comment.py
@@ -79,7 +79,7 @@ class Comment:
     # write
 
     def read(self, element):
-        self._comment = element.text
+        self._comment = element.text or ''
     # read
 
     def printInfo(self):
-- 
2.43.0


From 92b557cb75cdaae3a4da98eb5c386c3e90f0ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 55/71] fix: a LUT without interpolation attribute is read as
 such

---
 python/aces/clf/LUT1D.py | 6 ++++++
 python/aces/clf/LUT3D.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index b8b29de..5c924f9 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -116,6 +116,12 @@ class LUT1D(ProcessNode):
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
+    def read(self, element, strict=False):
+        # Forget the default, it is only there to be written
+        self._attributes.pop('interpolation', None)
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, element):
         child = None
         elementType = self.getElementType(element.tag)
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 78ee0a6..64e252e 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -108,6 +108,12 @@ class LUT3D(ProcessNode):
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
+    def read(self, element, strict=False):
+        # Forget the default, it is only there to be written
+        self._attributes.pop('interpolation', None)
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, element):
         child = None
         elementType = self.getElementType(element.tag)
-- 
2.43.0


From 322537f6f1beaffb0adc87c2f36579237ece0c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 56/71] fix: spi3d samples are placed by the indices on their
 line

---
 python/aces/lutFormats/LutSPI.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index b09b77e..0ec3884 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -256,14 +256,16 @@ class LutFormatSPI(LutFormat.LutFormat):
                     tokens = map(int, lines[2].split())
                     resolution = tokens
 
-                    # This assumes that the value are printed in order
-                    # with blue incrementing fastest like the CLF specification
-                    # This is generally true, but should be generalized at some
-                    # point to take into account the indices printed as the 
-                    # first three values on each line
+                    # The first three values on each line are the indices of the
+                    # sample. The CLF specification has blue incrementing fastest
+                    samples = [0.0]*resolution[0]*resolution[1]*resolution[2]*3
                     for line in lines[3:]:
-                        tokens = map(float, line.split())
-                        samples.extend(tokens[3:]) 
+                        tokens = line.split()
+                        if not tokens:
+                            continue
+                        (indexR, indexG, indexB) = map(int, tokens[:3])
+                        sampleIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
+                        samples[sampleIndex*3:(sampleIndex+1)*3] = map(float, tokens[3:6])
 
         #
         # Create ProcessNodes
-- 
2.43.0


From 397b3a8eb5d656ed682e1babff8c3a4715a28bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 57/71] fix: CSP preluts of different lengths are searched
 within their own length

---
 python/aces/lutFormats/LutCSP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 9634dab..fc598d5 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -213,13 +213,14 @@ class LutFormatCSP(LutFormat.LutFormat):
                 # For each channel
                 for channel in range(len(cspPreluts)):
                     # Find the location of the de-normalized value in the prelut
-                    for prelutIndex in range(inputResolution):
+                    prelutResolution = len(cspPreluts[channel][0])
+                    for prelutIndex in range(prelutResolution):
                         if cspPreluts[channel][0][prelutIndex] > rangedValue:
                             break
 
                     # Get the interpolation value
                     prelutIndexLow = max(0, prelutIndex-1)
-                    prelutIndexHigh = min(inputResolution-1, prelutIndex)
+                    prelutIndexHigh = min(prelutResolution-1, prelutIndex)
                     if prelutIndexLow == prelutIndexHigh:
                         prelutInterp = 0.0
                     else:
-- 
2.43.0


From 5b1b5cac9559503eab34dfed74359c2aeb977667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 58/71] fix: CSP 1D/3D LUTs can be written without an input
 shaper

---
 python/aces/lutFormats/LutCSP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index fc598d5..e7500e1 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -530,6 +530,11 @@ class LutFormatCSP(LutFormat.LutFormat):
 
         #print( ' '.join(map(str, lutResolution3d)) )
 
+        # Without an input shaper, the prelut only covers the range
+        if samples1dIn is None:
+            lutResolution1dIn = 2
+            samples1dIn = [0.0]*3 + [1.0]*3
+
         with open(lutPath, 'w') as fp:
             fp.write('CSPLUTV100\n')
             fp.write('3D\n')
-- 
2.43.0


From 297985be47c146eb13f839cef97fd959a186b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 59/71] fix: CSP files, which have no output shaper, hold
 unshaped output

---
 python/aces/lutFormats/LutCSP.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index e7500e1..0ca6b10 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -100,6 +100,30 @@ class LutFormatCSP(LutFormat.LutFormat):
             inverse, 
             interpolation)
 
+    @classmethod
+    def write(cls,
+              processList,
+              lutPath,
+              lutStyle=LutFormat.IO_CAPABILITY_WRITE_1D,
+              lutResolution1d=1024,
+              lutResolution3d=33,
+              lutResolution1d3d1d=[1024,33,2],
+              inputMin=0.0,
+              inputMax=1.0,
+              shaperIn=['linear',0.0,1.0],
+              shaperOut=['linear',0.0,1.0]):
+        # The format has no place to store an output shaper
+        return super(LutFormatCSP, cls).write(processList,
+                                              lutPath,
+                                              lutStyle,
+                                              lutResolution1d,
+                                              lutResolution3d,
+                                              lutResolution1d3d1d,
+                                              inputMin,
+                                              inputMax,
+                                              shaperIn,
+                                              [None, 0.0, 1.0])
+
     @classmethod
     def write1D(cls,
                 lutPath,
-- 
2.43.0


From 84a5a5db4d3e6551161915f090c533cb5ebd81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 60/71] fix: half-domain inverses of 1D LUTs give values in the
 original input range

---
 python/aces/lutFormats/Sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 6dca255..e08a897 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -232,6 +232,10 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 # Find the output value
                 outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
 
+                # There is no Range node to expand from [0,1] to [minIn, maxIn]
+                outputInterpolated = outputInterpolated*(
+                    maxInputValue - minInputValue) + minInputValue
+
             inverseSample[channel] = outputInterpolated
 
         inverseSamples[inverseLutIndex*channels:(inverseLutIndex+1)*channels] = inverseSample
-- 
2.43.0


From a4fe44606ac407aeef0d396f5b1da2a59958d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 61/71] fix: filtering pixel by pixel with verbose output no
 longer fails on an undefined name

---
 python/aces/filterImageWithCLF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index b1c6db4..f4efd05 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -367,7 +367,7 @@ def filterRow_pixel(row,
             pvalue = OutRange.process(pvalue)
 
         if verbose:
-            print( "Processed %04d, %04d : %s -> %s" % (i, j, ovalue, pvalue))
+            print( "Processed %04d, %04d : %s -> %s" % (i, row, ovalue, pvalue))
 
         for c in range(channels):
             processedPixels[index + c] = pvalue[c]
-- 
2.43.0


From 5709938d707d2969b5b41c34fcd8e73384cbcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 62/71] fix: close images when reading or writing them fails

---
 python/aces/filterImageWithCLF.py | 83 ++++++++++++++++---------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index f4efd05..a0afdd2 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -139,48 +139,49 @@ def readPixelArray(inputPath,
     inputImage = oiio.ImageInput.open( inputPath )
 
     if inputImage:
-        # get image specs
-        inputImageSpec = inputImage.spec()
-        type = inputImageSpec.format.basetype
-        width = inputImageSpec.width
-        height = inputImageSpec.height
-        channels = inputImageSpec.nchannels
-        channelnames = inputImageSpec.channelnames
-        metadata = inputImageSpec.extra_attribs
-        metanames = [attr.name for attr in metadata]
-
-        bitShift = 0
-
-        print( "Loading image - spects : %d x %d - %d channels, %s bit depth, %s" % (width, height, channels, type, channelnames))
-
-        # Handle automatic bit-depth conversions
-        if bitDepthOverride:
-            if bitDepthOverride == "auto":
-                bitDepth = oiioBitDepthToCLFBitDepth[type]
-
-                # 10, 12 or 16 bit values should map to maximum values of
-                # 1023, 4095 or 65535 respectively. The OIIO default is treat
-                # them all as 16-bit / 65535. This corrects for that behavior.
-                if 'oiio:BitsPerSample' in metanames:
-                    oiioBitDepth = metadata[ metanames.index( "oiio:BitsPerSample" ) ].value
-
-                    if type == oiio.UINT16 and oiioBitDepth in [10, 12]:
-                        bitShift = (16 - oiioBitDepth)
-                        print( "Reading as 16-bit int, then shifting by %d bits" % bitShift )
-
-                        if oiioBitDepth == 10:
-                            bitDepth = clf.bitDepths["UINT10"]
-                        elif oiioBitDepth == 12:
-                            bitDepth = clf.bitDepths["UINT12"]
+        try:
+            # get image specs
+            inputImageSpec = inputImage.spec()
+            type = inputImageSpec.format.basetype
+            width = inputImageSpec.width
+            height = inputImageSpec.height
+            channels = inputImageSpec.nchannels
+            channelnames = inputImageSpec.channelnames
+            metadata = inputImageSpec.extra_attribs
+            metanames = [attr.name for attr in metadata]
+
+            bitShift = 0
+
+            print( "Loading image - spects : %d x %d - %d channels, %s bit depth, %s" % (width, height, channels, type, channelnames))
+
+            # Handle automatic bit-depth conversions
+            if bitDepthOverride:
+                if bitDepthOverride == "auto":
+                    bitDepth = oiioBitDepthToCLFBitDepth[type]
+
+                    # 10, 12 or 16 bit values should map to maximum values of
+                    # 1023, 4095 or 65535 respectively. The OIIO default is treat
+                    # them all as 16-bit / 65535. This corrects for that behavior.
+                    if 'oiio:BitsPerSample' in metanames:
+                        oiioBitDepth = metadata[ metanames.index( "oiio:BitsPerSample" ) ].value
+
+                        if type == oiio.UINT16 and oiioBitDepth in [10, 12]:
+                            bitShift = (16 - oiioBitDepth)
+                            print( "Reading as 16-bit int, then shifting by %d bits" % bitShift )
+
+                            if oiioBitDepth == 10:
+                                bitDepth = clf.bitDepths["UINT10"]
+                            elif oiioBitDepth == 12:
+                                bitDepth = clf.bitDepths["UINT12"]
+                else:
+                    type = clfBitDepthToOIIOBitDepth[bitDepthOverride]
+                    bitDepth = bitDepthOverride
             else:
-                type = clfBitDepthToOIIOBitDepth[bitDepthOverride]
-                bitDepth = bitDepthOverride
-        else:
-            bitDepth = oiioBitDepthToCLFBitDepth[type]
-
-        sourceData = inputImage.read_image(type)
+                bitDepth = oiioBitDepthToCLFBitDepth[type]
 
-        inputImage.close()
+            sourceData = inputImage.read_image(type)
+        finally:
+            inputImage.close()
 
         # Reset integer bit-depth 
         if bitShift != 0:
@@ -323,10 +324,10 @@ def writePixelArray(outputPath,
         traceback.print_exc()
         print( '-'*60 )
         ok = False
+    outputImage.close()
     if not ok:
         print( "\nImage %s could not write. Writing failed.\n" % outputPath )
         return
-    outputImage.close()
 # writePixelArray
 
 from multiprocessing import Pool, Lock, cpu_count
-- 
2.43.0


From 25bea476fbe06df949c15528a67ec4ddc1e65395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 63/71] fix: reading a file that is not a CSP LUT adds no nodes

---
 python/aces/lutFormats/LutCSP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 0ca6b10..8d79e43 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -278,6 +278,7 @@ class LutFormatCSP(LutFormat.LutFormat):
         resolution = []
         samples = []
         prelut = []
+        format = None
         minInputValue = 0.0
         maxInputValue = 1.0
 
-- 
2.43.0


From 8afb0fc01f4bff4c86d83a2ceb683f3b63874f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 64/71] fix: an OCIO matrix of unsupported size adds no nodes

---
 python/aces/convertOCIOtoCLF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 5fca30e..6690fc0 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -75,6 +75,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
         resolution = [3, 3, 3]
     else:
         print( "Matrix resolution with %d entries unsupported" % len(matrix) )
+        return None
 
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
-- 
2.43.0


From 785899995c7f3fd94e6fdea0759332b7996d46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 65/71] fix: an unknown OCIO color space is reported

---
 python/aces/convertOCIOtoCLF.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 6690fc0..96d9181 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -208,6 +208,10 @@ def convertOCIOtoCLF(configPath,
     for sourceColorSpaceName in sourceColorSpaceNames:
         # Get the OCIO transforms
         sourceColorSpace = config.getColorSpace(sourceColorSpaceName)
+        if sourceColorSpace == None:
+            print( "Color space not found : %s" % sourceColorSpaceName )
+            return
+
         sourceTransform = sourceColorSpace.getTransform( OCIO.Constants.COLORSPACE_DIR_TO_REFERENCE )
 
         # Convert to CLF ProcessNodes
@@ -236,6 +240,10 @@ def convertOCIOtoCLF(configPath,
     for destColorSpaceName in destColorSpaceNames:
         # Get the OCIO transforms
         destColorSpace = config.getColorSpace(destColorSpaceName)
+        if destColorSpace == None:
+            print( "Color space not found : %s" % destColorSpaceName )
+            return
+
         destTransform = destColorSpace.getTransform( OCIO.Constants.COLORSPACE_DIR_FROM_REFERENCE )
 
         # Convert to CLF ProcessNodes
-- 
2.43.0


From 51498041ac2b904f5faffb7590b5837d088ed77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 66/71] fix: setting the array of a LUT or matrix again
 replaces it in the file

---
 python/aces/clf/LUT1D.py  | 2 ++
 python/aces/clf/LUT3D.py  | 2 ++
 python/aces/clf/Matrix.py | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 5c924f9..f3f20b1 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -98,6 +98,8 @@ class LUT1D(ProcessNode):
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
         rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
 
+        if self._array != None:
+            self._elements.remove( self._array )
         self._array = Array(dimensions, 
             values, 
             rawHalfs=rawHalfs, 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 64e252e..b80fc23 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -91,6 +91,8 @@ class LUT3D(ProcessNode):
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
+        if self._array != None:
+            self._elements.remove( self._array )
         self._array = Array(dimensions, 
             values, 
             integers,
diff --git a/python/aces/clf/Matrix.py b/python/aces/clf/Matrix.py
index 9fe54d2..c83a2a7 100644
--- a/python/aces/clf/Matrix.py
+++ b/python/aces/clf/Matrix.py
@@ -63,6 +63,7 @@ class Matrix(ProcessNode):
     def __init__(self, inBitDepth=bitDepths["FLOAT16"], outBitDepth=bitDepths["FLOAT16"], id="", name=""):
         "%s - Initialize the standard class variables" % 'Matrix'
         ProcessNode.__init__(self, 'Matrix', inBitDepth, outBitDepth, id, name)
+        self._array = None
     # __init__
 
     def setMatrix(self, dimensions, values, floatEncoding='string'):
@@ -71,6 +72,8 @@ class Matrix(ProcessNode):
             values, 
             integers,
             floatEncoding=floatEncoding)
+        if self._array != None:
+            self._elements.remove( self._array )
         self._array = values
         self.addElement( values )
     # setMatrix
-- 
2.43.0


From 155ad4305797f3d7b7470678f615a7021e0ede95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 67/71] fix: setting the index maps of a LUT again replaces
 them

---
 python/aces/clf/LUT1D.py | 5 +++++
 python/aces/clf/LUT3D.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index f3f20b1..1687e9a 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -77,6 +77,11 @@ class LUT1D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Replace the maps set before
+        for indexMap in self._indexMaps:
+            self._elements.remove( indexMap )
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index b80fc23..ddfec33 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -71,6 +71,11 @@ class LUT3D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Replace the maps set before
+        for indexMap in self._indexMaps:
+            self._elements.remove( indexMap )
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
-- 
2.43.0


From be525f8206f48bddec5e9382a03cf07f9d46c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 68/71] fix: index maps forget cached results when their values
 change

---
 python/aces/clf/IndexMap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 14d69c9..108f395 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -81,6 +81,7 @@ class IndexMap:
 
     def setValues(self, values):
         self._values = values
+        self._processCached = None
         if self._useCachedProcess and self._values != [] and self._dimension != []:
             self._createCachedProcess()
     def getValues(self):
@@ -168,6 +169,7 @@ class IndexMap:
             if key == 'dim':
                 self._dimension = int(value)
 
+        self._processCached = None
         self._values = []
         self._values.append( map(lambda p: float(p.split('@')[0]), element.text.split()) )
         self._values.append( map(lambda p: float(p.split('@')[1]), element.text.split()) )
-- 
2.43.0


From e650068a2c95179b6f965ec0af3ab8073b9ecfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 69/71] fix: CSP preluts of two points keep their outputs and
 their own ranges

---
 python/aces/lutFormats/LutCSP.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 8d79e43..83f578e 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -195,8 +195,15 @@ class LutFormatCSP(LutFormat.LutFormat):
         # resolution of the resampled lut relative to the source
         outputResolution = inputResolution
 
+        # The prelut only affects the range if every channel maps the same
+        # two inputs to 0 and 1
+        rangeOnly = inputResolution <= 2
+        for prelut in cspPreluts:
+            if list(prelut[0]) != list(prelutR[0]) or list(prelut[1]) != [0.0, 1.0]:
+                rangeOnly = False
+
         # If the prelut only affects the range, skip this step
-        if inputResolution > 2:
+        if not rangeOnly:
             outputResolution *= 2
 
         # Find the minimum and maximum input
@@ -219,7 +226,7 @@ class LutFormatCSP(LutFormat.LutFormat):
         prelutpns.append(rangepn)
 
         # If the prelut only affects the range, skip generating a lut to represent it
-        if inputResolution > 2:
+        if not rangeOnly:
             # Generate 1d LUT by running values through the
             # - inverse normalization
             # - the cspprelut
-- 
2.43.0


From 2e51b6babb8e533731290b775f199baca46161c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 70/71] fix: a reference pointed elsewhere is written with its
 new paths

---
 python/aces/clf/ExtensionReference.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 352f42f..0c69428 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -78,19 +78,18 @@ class Reference(ProcessNode):
         path='', basePath='', alias='', writeReferencedNodes=False):
         "%s - Initialize the standard class variables" % 'Reference'
         ProcessNode.__init__(self, 'Reference', inBitDepth, outBitDepth, id, name)
-        if alias != '':
-            self._attributes['alias'] = alias
-        if path != '':
-            self._attributes['path'] = path
-        if basePath != '':
-            self._attributes['basePath'] = basePath
-
         self._writeReferencedNodes = writeReferencedNodes
 
         self.setPaths(path, basePath, alias)
     # __init__
 
     def setPaths(self, path='', basePath='', alias=''):
+        for name, value in [('alias', alias), ('path', path), ('basePath', basePath)]:
+            if value != '':
+                self._attributes[name] = value
+            elif name in self._attributes:
+                del self._attributes[name]
+
         self._resolvedPath = resolvePath(path, basePath, alias)
         if self._resolvedPath != None and os.path.exists(self._resolvedPath):
             self._processList = ProcessList.ProcessList(self._resolvedPath)
-- 
2.43.0


From 12836b2da854c2ad6b490d45aea6a24af7ffab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 71/71] fix: flags in a file are read in either case, and only
 flags become booleans

---
 python/aces/clf/ProcessNode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index 4983489..f208fbd 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -196,8 +196,9 @@ class ProcessNode():
         # Store attributes
         for key, value in element.attrib.iteritems():
             # Convert text to booleans where appropriate
-            if value in ["True", "False"]:
-                value = (value == "True")
+            if (key in ["bypass", "defaultRange", "halfDomain", "rawHalfs"] and
+                value.lower() in ["true", "false"]):
+                value = (value.lower() == "true")
             self.setAttribute(key, value)
 
         elementType = self.getElementType(element.tag)
-- 
2.43.0

