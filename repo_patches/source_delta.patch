From 7332d0cfbfe2aef4d15b8dae12f4f63930535327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 01/86] fix: setNames must keep the two name tables inverse to
 each other

---
 nimble/core/data/axis.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 636551e..475c685 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -254,6 +254,9 @@ class Axis(ABC):
                     msg = "Indices must be within 0 to "
                     msg += "len(self." + self._axis + "s) - 1"
                     raise InvalidArgumentValue(msg)
+                if reverseMap[value] is not None:
+                    msg = "Each index can only be assigned one name"
+                    raise InvalidArgumentValue(msg)
 
                 reverseMap[value] = name
 
@@ -289,9 +292,17 @@ class Axis(ABC):
                     oldNames.append(oldName)
 
                 old_dict = dict(zip(oldNames,indices))
-                assignments_dict = dict(zip(assignments, indices))
+                if len(set(indices)) != len(indices):
+                    msg = "oldIdentifiers cannot contain duplicates"
+                    raise InvalidArgumentValue(msg)
+                newNames = set()
+                for name in assignments:
+                    if name is not None and name in newNames:
+                        msg = "Cannot input duplicate names: " + str(name)
+                        raise InvalidArgumentValue(msg)
+                    newNames.add(name)
                  # iterate through list of assignments, // how do you match this with old identifiers?
-                for name, index in assignments_dict.items():
+                for name, index in zip(assignments, indices):
                     # verifying that none of the new assignments is used previously
                     if name in self.names:
                         if self.namesInverse[index] == name:
@@ -305,7 +316,7 @@ class Axis(ABC):
                 for name, index in old_dict.items():
                     if name is not None:
                         del self.names[name]
-                for name, index in assignments_dict.items():
+                for name, index in zip(assignments, indices):
                     self.namesInverse[index] = name
                     if name is not None:
                         self.names[name] = index
-- 
2.43.0


From 6004d7925f59937eca919c8e95dcfb2509cd9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 02/86] fix: integral float identifiers get the same range
 check as integers

---
 nimble/core/data/axis.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 475c685..21be135 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -335,6 +335,14 @@ class Axis(ABC):
             msg = "There are no valid " + self._axis + " identifiers; "
             msg += "this object has 0 " + self._axis + "s"
             raise IndexError(msg)
+        if allowFloats and isinstance(identifier, (float, np.float64)):
+            if identifier % 1: # x!=int(x)
+                idVal = str(identifier)
+                msg = "A float valued key of value x is only accepted if x == "
+                msg += "int(x). The given value was " + idVal + " yet int("
+                msg += idVal + ") = " + str(int(identifier))
+                raise KeyError(msg)
+            identifier = int(identifier)
         if isinstance(identifier, (int, np.integer)):
             if identifier < 0:
                 identifier = num + identifier
@@ -345,14 +353,6 @@ class Axis(ABC):
                 raise IndexError(msg)
         elif isinstance(identifier, str):
             identifier = self._getIndexByName(identifier)
-        elif allowFloats and isinstance(identifier, (float, np.float64)):
-            if identifier % 1: # x!=int(x)
-                idVal = str(identifier)
-                msg = "A float valued key of value x is only accepted if x == "
-                msg += "int(x). The given value was " + idVal + " yet int("
-                msg += idVal + ") = " + str(int(identifier))
-                raise KeyError(msg)
-            identifier = int(identifier)
         else:
             msg = "The identifier must be either a string (a valid "
             msg += self._axis + " name) or an integer (python or numpy) index "
-- 
2.43.0


From 124b6468b96ff1a5035299290733579b98d861e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 03/86] fix: slices with a negative step start from the last
 index

---
 nimble/core/data/axis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 21be135..b756842 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1071,9 +1071,11 @@ class Axis(ABC):
         if isinstance(key, slice):
             if key == slice(None): # full slice
                 return None
-            start = key.start if key.start is not None else 0
-            stop = key.stop if key.stop is not None else length - 1
             step = key.step if key.step is not None else 1
+            # a negative step traverses the axis from its last index
+            first, last = (0, length - 1) if step > 0 else (length - 1, 0)
+            start = key.start if key.start is not None else first
+            stop = key.stop if key.stop is not None else last
 
             start = self._getIndex(start, allowFloats=True)
             stop = self._getIndex(stop, allowFloats=True)
-- 
2.43.0


From 21b10d3971c1eab4830a354b416f11ebb1fcf564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 04/86] fix: item assignment accepts a single identifier or a
 full slice on one axis

---
 nimble/core/data/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 99cefb1..3f71c76 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2255,6 +2255,15 @@ class Base(ABC):
         if single_x and single_y:
             self._setitem_implementation(x, y, value)
         else:
+            # None is returned by _processMultiple for a full slice
+            if single_x:
+                x = [x]
+            elif x is None:
+                x = range(len(self.points))
+            if single_y:
+                y = [y]
+            elif y is None:
+                y = range(len(self.features))
             for i in x:
                 for j in y:
                     self._setitem_implementation(i, j, value)
-- 
2.43.0


From 1708fd9c881226b4e6c94cd2c2c922a04260439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 05/86] fix: a single value object can be indexed by its point
 name

---
 nimble/core/data/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 3f71c76..3e373e9 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2113,7 +2113,12 @@ class Base(ABC):
         if key.__class__ is tuple:
             x, y = key
         else:
-            if len(self.points) == 1:
+            if (len(self.points) == 1 and len(self.features) == 1
+                    and isinstance(key, str) and key in pointsNamesList
+                    and key not in featuresNamesList):
+                x = key
+                y = 0
+            elif len(self.points) == 1:
                 x = 0
                 y = key
             elif len(self.features) == 1:
-- 
2.43.0


From 2d6b7b9a923771c67dad537d98dfdd3157e9e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 06/86] fix: a view refuses item assignment

---
 nimble/core/data/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 4e36deb..3ff30df 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -231,6 +231,10 @@ class BaseView(Base, metaclass=ABCMeta):
     ###############################################################
     ###############################################################
 
+    @baseExceptionDoc
+    def __setitem__(self, key, value):
+        readOnlyException("__setitem__")
+
     @baseExceptionDoc
     def __imatmul__(self, other):
         readOnlyException("__imatmul__")
-- 
2.43.0


From ae3e52f4c2ee777f85c3798cad17c00e39447e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 07/86] fix: replaceRectangle uses the features of replaceWith
 and checks its range

---
 nimble/core/data/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 3e373e9..2ab1e28 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3978,7 +3978,7 @@ class Base(ABC):
                         start=pointStart, end=pointEnd, rangeLen=prange)
                     raise InvalidArgumentValueCombination(msg)
             if featureEnd is None:
-                feIndex = fsIndex + len(replaceWith.points) - 1
+                feIndex = fsIndex + len(replaceWith.features) - 1
             else:
                 feIndex = self.features.getIndex(featureEnd)
                 frange = (feIndex - fsIndex) + 1
@@ -3987,6 +3987,10 @@ class Base(ABC):
                         axis='feature', axisLen=len(replaceWith.features),
                         start=featureStart, end=featureEnd, rangeLen=frange)
                     raise InvalidArgumentValueCombination(msg)
+            if peIndex >= len(self.points) or feIndex >= len(self.features):
+                msg = "replaceWith extends beyond the last point or feature "
+                msg += "of this object"
+                raise InvalidArgumentValueCombination(msg)
             if replaceWith.getTypeString() != self.getTypeString():
                 replaceWith = replaceWith.copy(to=self.getTypeString())
         elif looksNumeric(replaceWith):
-- 
2.43.0


From 07017dad2a09f364adb4f4de77395cbfb115c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 08/86] fix: setting an item to None stores a missing value

---
 nimble/core/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2ab1e28..27ca43a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2256,6 +2256,10 @@ class Base(ABC):
         else:
             y = self.features._processMultiple(y)
         
+        # missing values are always stored as nan
+        if value is None:
+            value = np.nan
+
         # Perform setting operation based on single or multiple indices
         if single_x and single_y:
             self._setitem_implementation(x, y, value)
-- 
2.43.0


From 21247a0722f295546a924424a20aa7844abf5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 09/86] fix: replacing values casts the data to a type that can
 hold them

---
 nimble/core/data/_dataHelpers.py | 19 +++++++++++++++++++
 nimble/core/data/matrix.py       |  8 +++++---
 nimble/core/data/sparse.py       |  7 ++++++-
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ce95dca..cc8f418 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1166,11 +1166,30 @@ def modifyNumpyArrayValue(arr, index, newVal):
         arr = arr.astype(np.object_)
     elif floatNewVal and arr.dtype not in (np.floating, np.object_):
         arr = arr.astype(np.float64)
+    elif (arr.dtype == np.bool_
+            and not isinstance(newVal, (bool, np.bool_))):
+        arr = arr.astype(np.int_)
 
     arr[index] = newVal
 
     return arr
 
+def castToHold(arr, values):
+    """
+    Cast a numpy array or scipy sparse matrix, if necessary, to a dtype
+    that can represent its own values and those in the other array.
+    """
+    if arr.dtype.kind in 'biuf' and values.dtype.kind in 'biuf':
+        dtype = np.promote_types(arr.dtype, values.dtype)
+    elif arr.dtype == values.dtype:
+        dtype = arr.dtype
+    else:
+        dtype = np.dtype(object)
+    if arr.dtype != dtype:
+        arr = arr.astype(dtype)
+
+    return arr
+
 def getFeatureDtypes(obj):
     """
     Get a dtype for each feature in the object.
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0fd5a76..e36d535 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -36,6 +36,7 @@ from .views import BaseView
 from .matrixAxis import MatrixPoints, MatrixPointsView
 from .matrixAxis import MatrixFeatures, MatrixFeaturesView
 from ._dataHelpers import allDataIdentical
+from ._dataHelpers import castToHold
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
@@ -225,14 +226,15 @@ class Matrix(Base):
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
         if not isinstance(replaceWith, Base):
-            values = replaceWith * np.ones((pointEnd - pointStart + 1,
-                                            featureEnd - featureStart + 1))
+            values = np.full((pointEnd - pointStart + 1,
+                              featureEnd - featureStart + 1), replaceWith)
         else:
             values = replaceWith._data
 
         # numpy is exclusive
         pointEnd += 1
         featureEnd += 1
+        self._data = castToHold(self._data, values)
         self._data[pointStart:pointEnd, featureStart:featureEnd] = values
 
     def _flatten_implementation(self, order):
@@ -401,7 +403,7 @@ class Matrix(Base):
         return self._data[x, y]
     
     def _setitem_implementation(self, x, y, value):
-        self._data[x, y] = value
+        self._data = modifyNumpyArrayValue(self._data, (x, y), value)
 
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45605e8..d08b062 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -39,6 +39,7 @@ from .sparseAxis import SparsePoints, SparsePointsView
 from .sparseAxis import SparseFeatures, SparseFeaturesView
 from .stretch import StretchSparse
 from ._dataHelpers import allDataIdentical
+from ._dataHelpers import castToHold
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
@@ -414,8 +415,10 @@ class Sparse(Base):
                 self._replaceRectangle_zeros_implementation(
                     pointStart, featureStart, pointEnd, featureEnd)
                 return
+            self._data = castToHold(self._data, np.array([replaceWith]))
         else:
             replaceWith._sortInternal('point')
+            self._data = castToHold(self._data, replaceWith._data)
 
         # this has to be after the possible call to
         # _replaceRectangle_zeros_implementation; unnecessary for that helper
@@ -846,7 +849,9 @@ class Sparse(Base):
             k = np.searchsorted(offAxis[start:end], offAxisVal) + start
             if k < end and offAxis[k] == offAxisVal:
                 if value != 0:
-                    self._data.data[k] = value  # Update existing entry
+                    # Update existing entry
+                    self._data.data = modifyNumpyArrayValue(self._data.data, k,
+                                                            value)
                 else:
                     # Remove entry if value is zero (maintain sparsity)
                     self._data.data = np.delete(self._data.data, k)
-- 
2.43.0


From 99d68a2c00490c9e8924f4788e62ece7ff25bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 10/86] fix: Sparse replaceRectangle below the last stored
 value and stale sort order

---
 nimble/core/data/sparse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index d08b062..674de1c 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -440,9 +440,8 @@ class Sparse(Base):
         # Adjust selfIdx so that it begins at the values that might need to be
         # replaced, or, if no such values exist, set selfIdx such that the main
         # loop will ignore the contents of self.
-        if len(self._data.data) > 0:
-            selfIdx = self._sorted['indices'][pointStart]
-
+        selfIdx = self._sorted['indices'][pointStart]
+        if selfIdx < len(self._data.data):
             pcheck = self._data.row[selfIdx]
             fcheck = self._data.col[selfIdx]
             # the condition in the while loop is a natural break, if it isn't
@@ -459,7 +458,7 @@ class Sparse(Base):
                 pcheck = self._data.row[selfIdx]
                 fcheck = self._data.col[selfIdx]
 
-            copyIndex = selfIdx
+        copyIndex = selfIdx
 
         # Walk full contents of both, modifying, shifing, or setting aside
         # values as needed. We will only ever increment one of selfIdx or
@@ -483,7 +482,7 @@ class Sparse(Base):
             if constant:
                 vData = replaceWith
                 # uses truncation of int division
-                locationVP += valsIdx / (featureEnd - featureStart + 1)
+                locationVP += valsIdx // (featureEnd - featureStart + 1)
                 locationVF += valsIdx % (featureEnd - featureStart + 1)
             elif valsIdx >= valsEnd:
                 locationVP += pointEnd + 1
@@ -611,6 +610,7 @@ class Sparse(Base):
         shape = (len(self.points), len(self.features))
         self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
                                              shape)
+        self._resetSorted()
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-- 
2.43.0


From b0202e556ff7a619465f113affec35b06f16ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 11/86] fix: repeat keeps unnamed vectors unnamed

---
 nimble/core/data/axis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index b756842..ef159d8 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -834,19 +834,21 @@ class Axis(ABC):
             origNames = namesToRepeat.copy()
             for idx, name in enumerate(origNames):
                 for i in range(totalCopies):
+                    newName = None if name is None else name + f"_{i + 1}"
                     currIdx = (totalCopies * idx) + i
                     if currIdx < len(origNames):
-                        namesToRepeat[currIdx] = name + "_" + str(i + 1)
+                        namesToRepeat[currIdx] = newName
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(newName)
         elif namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for i in range(totalCopies):
                 for idx, name in enumerate(origNames):
+                    newName = None if name is None else name + f"_{i + 1}"
                     if i == 0:
-                        namesToRepeat[idx] = name + "_" + str(i + 1)
+                        namesToRepeat[idx] = newName
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(newName)
 
         ret = createDataNoValidation(self._base.getTypeString(), repeated,
                                      pointNames=ptNames, featureNames=ftNames)
-- 
2.43.0


From 5e0d600d257b6556f320cb3a2db996aee0bcf8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 12/86] fix: a key without booleans is never taken for a
 boolean mask

---
 nimble/core/data/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index ef159d8..d36870c 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -368,7 +368,7 @@ class Axis(ABC):
         try:
             self._getIndex(name)
             return True
-        except KeyError:
+        except (KeyError, IndexError):
             return False
 
     def _getitem(self, key):
@@ -1092,7 +1092,7 @@ class Axis(ABC):
 
         numBool = sum(isinstance(val, (bool, np.bool_)) for val in key)
         # contains all boolean values
-        if numBool == length:
+        if numBool == length and len(key) == length:
             return [i for i, v in enumerate(key) if v]
         if numBool > 0:
             msg = f'The key provided for {self._axis}s contains boolean '
-- 
2.43.0


From f7cbcd5474c3a492adc3fabc5adf304f16ad1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 13/86] fix: match.true and match.false accept numpy booleans

---
 nimble/match/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/match/match.py b/nimble/match/match.py
index 3175baf..da15aa7 100644
--- a/nimble/match/match.py
+++ b/nimble/match/match.py
@@ -441,7 +441,7 @@ def true(value):
     >>> true('True')
     False
     """
-    return boolean(value) and value is True
+    return boolean(value) and bool(value)
 
 def false(value):
     """
@@ -473,7 +473,7 @@ def false(value):
     >>> false('False')
     False
     """
-    return boolean(value) and value is False
+    return boolean(value) and not value
 
 def anyValues(match):
     """
-- 
2.43.0


From 7ee0b57aba4f43dddffc429706f777b8f4f200bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 14/86] fix: merge on List and Matrix uses the left position of
 onFeature, fills each match separately and leaves the object unchanged when
 refused

---
 nimble/core/data/list.py   | 32 +++++++++++++++++---------------
 nimble/core/data/matrix.py | 28 +++++++++++++++-------------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 96fde34..f2b338d 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -374,11 +374,13 @@ class List(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
+        left = self._data
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                # left is only limited to the matching features if intersection
+                onIdxL = onFeatureIdx if feature == "left" else onIdxLoc
                 onIdxR = onIdxLoc
                 right = [[row[i] for i in matchingFtIdx[1]]
                          for row in other._data]
@@ -388,11 +390,11 @@ class List(Base):
                 else:
                     matchingFtIdx[1] = []
                 if feature == "intersection":
-                    self._data = [[row[i] for i in matchingFtIdx[0]]
-                                  for row in self._data]
+                    left = [[row[i] for i in matchingFtIdx[0]]
+                            for row in self._data]
                     # matching indices in left were sorted when slicing above
-                    if len(self._data) > 0:
-                        matchingFtIdx[0] = list(range(len(self._data[0])))
+                    if len(left) > 0:
+                        matchingFtIdx[0] = list(range(len(left[0])))
                     else:
                         matchingFtIdx[0] = []
             else:
@@ -416,9 +418,8 @@ class List(Base):
             if feature == "intersection":
                 for i, pt in enumerate(self._data):
                     ptL = [ptNameGetter(self, i)]
-                    intersect = [val for idx, val in enumerate(pt)
-                                 if idx in matchingFtIdx[0]]
-                    self._data[i] = ptL + intersect
+                    intersect = [pt[idx] for idx in matchingFtIdx[0]]
+                    left.append(ptL + intersect)
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -426,15 +427,15 @@ class List(Base):
                     right.append(ptR)
                 # matching indices were sorted above
                 # this also accounts for prepended column
-                if len(self._data) > 0:
-                    matchingFtIdx[0] = list(range(len(self._data[0])))
+                if len(left) > 0:
+                    matchingFtIdx[0] = list(range(len(left[0])))
                 else:
                     matchingFtIdx[0] = []
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
                 for i, pt in enumerate(self._data):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left.append(ptL + pt)
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -449,7 +450,7 @@ class List(Base):
             else:
                 for i, pt in enumerate(self._data):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left.append(ptL + pt)
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -459,7 +460,6 @@ class List(Base):
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
@@ -476,6 +476,8 @@ class List(Base):
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    # each match starts from the original left values
+                    ptM = list(ptL)
                     # check for conflicts between matching features
                     matches = [ptL[i] == ptR[j] for i, j
                                in zip(matchingFtIdx[0], matchingFtIdx[1])]
@@ -494,10 +496,10 @@ class List(Base):
 
                             if value != value and i in matchingFtIdx[0]:
                                 lIdx = matchingFtIdx[0].index(i)
-                                ptL[i] = ptR[matchingFtIdx[1][lIdx]]
+                                ptM[i] = ptR[matchingFtIdx[1][lIdx]]
                     ptR = [ptR[i] for i in range(len(ptR))
                            if i not in matchingFtIdx[1]]
-                    pt = ptL + ptR
+                    pt = ptM + ptR
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index e36d535..81fc0a1 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -248,21 +248,22 @@ class Matrix(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-        self._data = np.array(self._data, dtype=np.object_)
+        left = np.array(self._data, dtype=np.object_)
         otherArr = np.array(other._data, dtype=np.object_)
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                # left is only limited to the matching features if intersection
+                onIdxL = onFeatureIdx if feature == "left" else onIdxLoc
                 onIdxR = onIdxLoc
                 right = otherArr[:, matchingFtIdx[1]]
                 # matching indices in right were sorted when slicing above
                 matchingFtIdx[1] = list(range(right.shape[1]))
                 if feature == "intersection":
-                    self._data = self._data[:, matchingFtIdx[0]]
+                    left = left[:, matchingFtIdx[0]]
                     # matching indices in left were sorted when slicing above
-                    matchingFtIdx[0] = list(range(self._data.shape[1]))
+                    matchingFtIdx[0] = list(range(left.shape[1]))
             else:
                 onIdxL = self.features.getIndex(onFeature)
                 onIdxR = other.features.getIndex(onFeature)
@@ -297,16 +298,16 @@ class Matrix(Base):
                 ptsR = np.array(range(len(other.points)), dtype=np.object_)
                 ptsR = ptsR.reshape(-1, 1)
             if feature == "intersection":
-                concatL = (ptsL, self._data[:, matchingFtIdx[0]])
-                self._data = np.concatenate(concatL, axis=1)
+                concatL = (ptsL, left[:, matchingFtIdx[0]])
+                left = np.concatenate(concatL, axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # matching indices were sorted when slicing above
                 # this also accounts for prepended column
-                matchingFtIdx[0] = list(range(self._data.shape[1]))
+                matchingFtIdx[0] = list(range(left.shape[1]))
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # account for new column in matchingFtIdx
@@ -316,14 +317,13 @@ class Matrix(Base):
                 # this also accounts for prepended column
                 matchingFtIdx[1] = list(range(right.shape[1]))
             else:
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 right = np.concatenate((ptsR, otherArr), axis=1)
                 # account for new column in matchingFtIdx
                 matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
@@ -338,6 +338,8 @@ class Matrix(Base):
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    # each match starts from the original left values
+                    ptM = ptL.copy()
                     # check for conflicts between matching features
                     matches = ptL[matchingFtIdx[0]] == ptR[matchingFtIdx[1]]
                     nansL = np.array([x != x for x
@@ -354,10 +356,10 @@ class Matrix(Base):
                         # right value
                         for i, value in enumerate(ptL[matchingFtIdx[0]]):
                             if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                                fill = ptR[matchingFtIdx[1][i]]
+                                ptM[matchingFtIdx[0][i]] = fill
                     ptR = np.delete(ptR, matchingFtIdx[1])
-                    pt = np.concatenate((ptL, ptR)).flatten()
+                    pt = np.concatenate((ptM, ptR)).flatten()
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
-- 
2.43.0


From 41e54a2eae0f86988b84644ff998452870e40d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 15/86] fix: DataFrame union merge on point names keeps points
 with their names and a refused merge changes nothing

---
 nimble/core/data/dataframe.py | 45 ++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e4b15e7..e10006b 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -329,27 +329,28 @@ class DataFrame(Base):
             point = 'outer'
         elif point == 'intersection':
             point = 'inner'
+        tmpDfL = self._data.copy()
         if self.features._namesCreated():
-            self._data.columns = self.features.getNames()
+            tmpDfL.columns = self.features.getNames()
         tmpDfR = other._data.copy()
         if other.features._namesCreated():
             tmpDfR.columns = other.features.getNames()
 
         if feature == 'intersection':
-            self._data = self._data.iloc[:, matchingFtIdx[0]]
+            tmpDfL = tmpDfL.iloc[:, matchingFtIdx[0]]
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
-            matchingFtIdx[0] = list(range(self._data.shape[1]))
+            matchingFtIdx[0] = list(range(tmpDfL.shape[1]))
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
         elif feature == "left":
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
 
-        numColsL = len(self._data.columns)
+        numColsL = len(tmpDfL.columns)
         if onFeature is None:
             if (self.points._namesCreated()
                     and other.points._namesCreated()):
                 # differentiate default names between objects using integers
-                self._data.index = [i if n is None else n for i, n
+                tmpDfL.index = [i if n is None else n for i, n
                                     in enumerate(self.points.getNames())]
                 maxL = len(self.points)
                 tmpDfR.index = [i + maxL if n is None else n for i, n
@@ -359,16 +360,21 @@ class DataFrame(Base):
                 idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
                 tmpDfR.index = list(idxRange)
 
-            self._data = self._data.merge(tmpDfR, how=point, left_index=True,
-                                          right_index=True)
+            order = list(tmpDfL.index)
+            order.extend(i for i in tmpDfR.index if i not in set(order))
+            tmpDfL = tmpDfL.merge(tmpDfR, how=point, left_index=True,
+                                  right_index=True)
+            if point == 'outer':
+                # pandas sorts the index, but left points must come first
+                tmpDfL = tmpDfL.loc[order]
         else:
-            onIdxL = self._data.columns.get_loc(onFeature)
+            onIdxL = tmpDfL.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            self._data = self._data.merge(tmpDfR, how=point, on=onFeature)
+            tmpDfL = tmpDfL.merge(tmpDfR, how=point, on=onFeature)
 
         # return labels to default after we've executed the merge
-        self._data.index = pd.RangeIndex(self._data.shape[0])
-        self._data.columns = pd.RangeIndex(self._data.shape[1])
+        tmpDfL.index = pd.RangeIndex(tmpDfL.shape[0])
+        tmpDfL.columns = pd.RangeIndex(tmpDfL.shape[1])
 
         toDrop = []
         for left, right in zip(matchingFtIdx[0], matchingFtIdx[1]):
@@ -380,26 +386,27 @@ class DataFrame(Base):
                 # one less to account for merged onFeature
                 right -= 1
 
-            matches = self._data.iloc[:, left] == self._data.iloc[:, right]
-            nansL = np.array([x != x for x in self._data.iloc[:, left]])
-            nansR = np.array([x != x for x in self._data.iloc[:, right]])
+            matches = tmpDfL.iloc[:, left] == tmpDfL.iloc[:, right]
+            nansL = np.array([x != x for x in tmpDfL.iloc[:, left]])
+            nansR = np.array([x != x for x in tmpDfL.iloc[:, right]])
             acceptableValues = matches | nansL | nansR
             if not all(acceptableValues):
                 msg = "The objects contain different values for the same "
                 msg += "feature"
                 raise InvalidArgumentValue(msg)
             if nansL.any():
-                leftNansLocInRight = self._data.iloc[:, right][nansL]
-                self._data.iloc[:, left][nansL] = leftNansLocInRight
+                tmpDfL.isetitem(left, tmpDfL.iloc[:, left].where(
+                    ~nansL, tmpDfL.iloc[:, right]))
             toDrop.append(right)
 
         if toDrop:
-            self._data.drop(toDrop, axis=1, inplace=True)
-            self._data.columns = pd.RangeIndex(self._data.shape[1])
+            tmpDfL.drop(toDrop, axis=1, inplace=True)
+            tmpDfL.columns = pd.RangeIndex(tmpDfL.shape[1])
 
         numFeatures = (numColsL + len(tmpDfR.columns) - len(matchingFtIdx[1]))
-        numPoints = len(self._data.index)
+        numPoints = len(tmpDfL.index)
 
+        self._data = tmpDfL
         self._dims = [numPoints, numFeatures]
 
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
-- 
2.43.0


From c44d70593427397a8f698a847650c9128b356bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 16/86] fix: Sparse merge matches zero keys, keeps zeros of
 unmatched points, fills missing values and allows empty results

---
 nimble/core/data/sparse.py | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 674de1c..acc497d 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -677,8 +677,16 @@ class Sparse(Base):
         nextPt = 0
         numPts = 0
 
-        for ptIdxL, target in enumerate(leftData[leftCol == onIdxL]):
-            rowIdxR = np.where(rightData[rightCol == onIdxR] == target)[0]
+        # zeros are not stored so need full vectors of the values to merge on
+        targetsL = np.zeros((len(self.points),), dtype=np.object_)
+        onLocL = leftCol == onIdxL
+        targetsL[leftRow[onLocL]] = leftData[onLocL]
+        targetsR = np.zeros((len(other.points),), dtype=np.object_)
+        onLocR = rightCol == onIdxR
+        targetsR[rightRow[onLocR]] = rightData[onLocR]
+
+        for ptIdxL, target in enumerate(targetsL):
+            rowIdxR = np.where(targetsR == target)[0]
             if len(rowIdxR) > 0:
                 for ptIdxR in rowIdxR:
                     ptL = np.zeros((tempFtsL,), dtype=np.object_)
@@ -700,8 +708,8 @@ class Sparse(Base):
                         # right value
                         for i, value in enumerate(ptL[matchingFtIdx[0]]):
                             if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                                fill = ptR[matchingFtIdx[1][i]]
+                                ptL[matchingFtIdx[0][i]] = fill
                     ptR = ptR[[i for i in range(len(ptR))
                                if i not in matchingFtIdx[1]]]
                     pt = np.append(ptL, ptR)
@@ -739,7 +747,7 @@ class Sparse(Base):
                 numPts += 1
 
         if point == 'union':
-            for ptIdxR, target in enumerate(rightData[rightCol == onIdxR]):
+            for ptIdxR, target in enumerate(targetsR):
                 if target not in matched:
                     nanList = [np.nan] * tempFtsL
                     ptL = np.array(nanList, dtype=np.object_)
@@ -748,10 +756,9 @@ class Sparse(Base):
                     ptR[rightCol[inRowR]] = rightData[inRowR]
                     fill = ptR[matchingFtIdx[1]]
                     ptL[matchingFtIdx[0]] = fill
-                    # only unmatched points from right
-                    notMatchedR = np.in1d(rightCol, matchingFtIdx[1],
-                                          invert=True)
-                    ptR = rightData[(rightRow == ptIdxR) & (notMatchedR)]
+                    # only unmatched features from right
+                    ptR = ptR[[i for i in range(len(ptR))
+                               if i not in matchingFtIdx[1]]]
                     pt = np.append(ptL, ptR)
                     if feature == "intersection":
                         pt = pt[matchingFtIdx[0]]
@@ -774,14 +781,19 @@ class Sparse(Base):
         elif feature == "left":
             numFts = len(self.features)
         if len(mergedData) == 0:
-            mergedData = []
+            mergedData = np.array([])
 
-        mergedData = mergedData.astype(np.float64)
+        try:
+            mergedData = mergedData.astype(np.float64)
+        except ValueError:
+            pass # contains non-numeric values
         self._dims = [numPts, numFts]
+        nonZero = mergedData != 0
+        mergedRow = np.array(mergedRow, dtype=int)[nonZero]
+        mergedCol = np.array(mergedCol, dtype=int)[nonZero]
         self._data = scipy.sparse.coo_matrix(
-            (mergedData, (mergedRow, mergedCol)), shape=(numPts, numFts))
-
-        self._data.eliminate_zeros()
+            (mergedData[nonZero], (mergedRow, mergedCol)),
+            shape=(numPts, numFts))
         self._resetSorted()
 
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
-- 
2.43.0


From 8f836fa92beb452ffdf46d6677299ef76dcd1e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 17/86] fix: refused strict merge restores the names it set

---
 nimble/core/data/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 27ca43a..d42dc69 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4690,7 +4690,12 @@ class Base(ABC):
                 msg += f'that each {axis} is equal between the two objects'
                 raise InvalidArgumentValue(msg)
 
-            self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            try:
+                self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            except Exception:
+                # the names may have been set above
+                lAxis.setNames(lNames, useLog=False)
+                raise
 
             # only reset names if we did not generate them
             if lNames is None and rNames is None:
-- 
2.43.0


From 3bd553fb5a1b355fe846d40e622ddd360653f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 18/86] fix: retraining a TrainedLearner does not change the
 arguments of its copies

---
 nimble/core/interfaces/universal_interface.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a7b90e6..66ad6fd 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1446,6 +1446,10 @@ class TrainedLearner(object):
         merged = mergeArguments(arguments, kwarguments)
         self._interface._validateLearnerArgumentValues(self.learnerName,
                                                        merged)
+        # copies of this learner share the dict, so it is not modified
+        transformed = self._transformedArguments
+        if merged:
+            transformed = transformed.copy()
         for arg, value in merged.items():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
@@ -1453,8 +1457,7 @@ class TrainedLearner(object):
                 msg += "If wanting to perform hyperparameter tuning, use "
                 msg += "nimble.train()"
                 raise InvalidArgumentValue(msg)
-            self._arguments[arg] = value
-            self._transformedArguments[arg] = value
+            transformed[arg] = value
 
         # separate training data / labels if needed
         if isinstance(trainY, (str, int, np.integer)):
@@ -1462,7 +1465,7 @@ class TrainedLearner(object):
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
 
         trainedBackend = self._interface._trainBackend(
-            self.learnerName, trainX, trainY, self._transformedArguments,
+            self.learnerName, trainX, trainY, transformed,
             self.randomSeed)
 
         newBackend = trainedBackend[0]
@@ -1511,11 +1514,13 @@ class TrainedLearner(object):
             global option.
         """
         validateLearningArguments(trainX, trainY)
+        # copies of this learner share the dict, so it is not modified
+        merged = self.arguments
         if arguments is not None:
-            self.arguments.update(arguments)
+            merged = {**self.arguments, **arguments}
         transformed = self._interface._inputTransformation(
             self.learnerName, trainX, trainY, None, self._randomSeed,
-            self.arguments, self._customDict)
+            merged, self._customDict)
         transformedTrainX = transformed[0]
         transformedTrainY = transformed[1]
         transformedArguments = transformed[3]
@@ -1523,6 +1528,7 @@ class TrainedLearner(object):
             self.learnerName, self._backend, transformedTrainX,
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
+        self._arguments = merged
 
         handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
                       self.arguments, trainX, trainY,
-- 
2.43.0


From 96eb825ba377c0f3694c0b625d35ab5274c3c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 19/86] fix: copying a Tuning with iterative selection failed,
 so nimble.train always did

---
 nimble/core/tune.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index abd34be..3c0ae0c 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1807,9 +1807,12 @@ class Tuning:
         """
         A new Tuner with attributes based on the latest tuning.
         """
+        # allowIncremental is determined by the selection
+        validatorArgs = {k: v for k, v in self._validatorArgs.items()
+                         if k != 'allowIncremental'}
         ret = Tuning(selection=self.selection, validation=self.validation,
                      performanceFunction=self.performanceFunction,
-                     **self._selectorArgs, **self._validatorArgs)
+                     **self._selectorArgs, **validatorArgs)
         ret.validator = self.validator
         ret.arguments = self.arguments
         ret._sortedResults = self._sortedResults
-- 
2.43.0


From a8746bac4d2306969eb391e35bcb25ab24679932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 20/86] fix: data validation scores and keeps the learner
 trained with the given arguments

---
 nimble/core/tune.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 3c0ae0c..d7d33b4 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -575,7 +575,6 @@ class HoldoutData(HoldoutValidator):
         self._trainedLearner = None
         self._trainedLearnerBase = None
         self._incremental = None if allowIncremental else False
-        self._updater = None
         self._lastArguments = {}
         self.bestTrainedLearner = None
 
@@ -590,7 +589,7 @@ class HoldoutData(HoldoutValidator):
             self._arguments.append(arguments)
             if self._best is None or self._isBest(performance, self._best[0]):
                 self._best = (performance, arguments)
-                self.bestTrainedLearner = copy.copy(self._trainedLearnerBase)
+                self.bestTrainedLearner = copy.copy(self._trainedLearner)
 
         return performance
 
@@ -599,6 +598,8 @@ class HoldoutData(HoldoutValidator):
             self._trainedLearner = copy.copy(self._trainedLearnerBase)
         else:
             self._trainedLearner = self._trainedLearnerBase
+        # the arguments of this learner may not be the last ones used
+        self._lastArguments = None
 
     def _validate(self, arguments):
         if self._trainedLearner is None:
@@ -606,24 +607,21 @@ class HoldoutData(HoldoutValidator):
                 self.learnerName, self.X, self.Y, arguments, useLog=False)
             self._trainedLearner = self._trainedLearnerBase
             self._lastArguments = arguments
-        elif self._updater is None:
+        else:
             if self._incremental is None:
                 try:
                     self._trainedLearner.incrementalTrain(
                         self.X, self.Y, arguments, useLog=False)
-                    self._updater = self._trainedLearner.incrementalTrain
                     self._incremental = True
                 except TypeError:
                     self._incremental = False
-            if not self._incremental:
-                self._updater = self._trainedLearner.retrain
-                # only retrain if arguments have changed
-                if arguments != self._lastArguments:
-                    self._trainedLearner.retrain(self.X, self.Y, arguments,
-                                                 useLog=False)
-            self._lastArguments = arguments
-        elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, useLog=False)
+            elif self._incremental:
+                self._trainedLearner.incrementalTrain(
+                    self.X, self.Y, arguments, useLog=False)
+            # only retrain if arguments have changed
+            if not self._incremental and arguments != self._lastArguments:
+                self._trainedLearner.retrain(self.X, self.Y, arguments,
+                                             useLog=False)
             self._lastArguments = arguments
 
         performance = self._trainedLearner.test(
-- 
2.43.0


From 5420ebff2b33dcbdf6935578195b886fc2278c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 21/86] fix: consecutive tuning continues past an argument with
 one value and retries the right values in later loops

---
 nimble/core/tune.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index d7d33b4..116917d 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -850,28 +850,27 @@ class Consecutive(ArgumentSelector):
         elif not self.order: # no Tune objects
             raise StopIteration
         else:
-            target = self.order[self._target]
-            try:
-                self._currArgs[target] = next(self._tune[target])
-            except StopIteration:
-                if self._target + 1 < len(self.order): # next argument
-                    self._currArgs[target] = self._bestArgs[target]
-                    self._target += 1
-                    target = self.order[self._target]
-                    self._currArgs[target] = next(self._tune[target])
-                # new loop
-                elif self._currentLoop + 1 > self.loops:
-                    raise
-                else:
-                    self._currentLoop += 1
-                    self._target = 0
-                    target = self.order[self._target]
-                    self._currArgs = self._bestArgs.copy()
-                    for key in self.order:
-                        iterator = iter(val for val in self.arguments[key]
-                                        if val != self._currArgs[key])
-                        self._tune[key] = iterator
+            while True:
+                target = self.order[self._target]
+                try:
                     self._currArgs[target] = next(self._tune[target])
+                    break
+                except StopIteration:
+                    if self._target + 1 < len(self.order): # next argument
+                        self._currArgs[target] = self._bestArgs[target]
+                        self._target += 1
+                    # new loop
+                    elif self._currentLoop + 1 > self.loops:
+                        raise
+                    else:
+                        self._currentLoop += 1
+                        self._target = 0
+                        self._currArgs = self._bestArgs.copy()
+                        for key in self.order:
+                            iterator = iter(
+                                [val for val in self.arguments[key]
+                                 if val != self._currArgs[key]])
+                            self._tune[key] = iterator
         # go to next if currArgs were already tried in a previous loop
         if tuple(self._currArgs.items()) in self._tried:
             return self.__next__()
-- 
2.43.0


From 60eca68a20cfda213684b6f187a824e7c361f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 22/86] fix: iterative tuning takes the better of the lower and
 higher value

---
 nimble/core/tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 116917d..adda8f5 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1104,10 +1104,10 @@ class Iterative(ArgumentSelector):
                 highBest = False
             if lowBest and highBest: # select better of the two
                 if self.validator._isBest(perfHigh, perfLow):
-                    best[name] = argLow
+                    best[name] = argHigh
                     self._tuneIdx[name] += 1
                 else:
-                    best[name] = argHigh
+                    best[name] = argLow
                     self._tuneIdx[name] -= 1
             elif lowBest:
                 best[name] = argLow
-- 
2.43.0


From c231d56a452f61a975d190f22b449df8428a7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 23/86] fix: Tune with one value, a descending range or a
 multiplication that never reaches the end

---
 nimble/core/tune.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index adda8f5..4078741 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1393,7 +1393,7 @@ class Tune:
         if isinstance(values, range):
             self._values = None
             self._start = values.start
-            self._end = values.stop - 1
+            self._end = values[-1] if values else values.stop - 1
             self._change = values.step
 
         self._args = {'values': values, 'start': start, 'end': end,
@@ -1420,8 +1420,11 @@ class Tune:
             start = self._start
             change = self._change
             self._values = []
+            if not linear and (self._start <= 0 or self._end <= 0):
+                msg = "start and end must be greater than 0 when multiplying"
+                raise InvalidArgumentValue(msg)
             if self._start < self._end:
-                if not linear and change < 1:
+                if not linear and change <= 1:
                     msg = "change must be greater than 1"
                     raise InvalidArgumentValue(msg)
                 if linear and change <= 0:
@@ -1436,11 +1439,16 @@ class Tune:
                     msg = "change must be less than 0"
                     raise InvalidArgumentValue(msg)
                 comp = operator.ge
+            else:
+                # only one value regardless of the change
+                op = operator.add
+                change = 1
+                comp = operator.le
 
             curr = self._start
             while comp(curr, self._end):
                 self._values.append(curr)
-                curr = op(curr, self._change)
+                curr = op(curr, change)
                 # rounding errors can prevent end from being included
                 if linear and round(curr, 12) == self._end:
                     curr = self._end
-- 
2.43.0


From b9dab535a33909898b145217b04f537519776621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 24/86] fix: reading all settings does not put the saved values
 among the session changes

---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3ff8888..7ac3f3c 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -154,7 +154,7 @@ class SessionConfiguration(object):
             # section not in changes or config file
             raise configparser.NoSectionError(section)
 
-        ret = self.changes.copy()
+        ret = {sec: opts.copy() for sec, opts in self.changes.items()}
         for cpSection in self.parser.sections():
             if cpSection not in ret:
                 ret[cpSection] = {}
-- 
2.43.0


From b0ece03463641d72ee7aa88b677b04476587cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 25/86] fix: setting an option back to its saved value calls
 its hook

---
 nimble/core/configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 7ac3f3c..090f7b4 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -222,6 +222,8 @@ class SessionConfiguration(object):
                 del self.changes[section][option]
                 if len(self.changes[section]) == 0:
                     del self.changes[section]
+                if self.hooks.get((section, option)) is not None:
+                    self.hooks[(section, option)](value)
                 return
         except configparser.NoSectionError:
             pass
-- 
2.43.0


From 202c3c10126ba08a4359a739dc5c478d92e42a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 26/86] fix: the count statistic is computed like the other
 accepted statistics

---
 nimble/_utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index 4fdce96..6b49e94 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -608,6 +608,8 @@ def _getStatsFunction(statsFuncName):
         toCall = nimble.calculate.sum
     elif statsFuncName == 'variance':
         toCall = nimble.calculate.variance
+    elif statsFuncName == 'count':
+        toCall = nimble.calculate.count
     elif statsFuncName == 'uniquecount':
         toCall = nimble.calculate.uniqueCount
     elif statsFuncName == 'proportionmissing':
-- 
2.43.0


From 891d3ae1e1442bc846510035a103c04d20a277c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 27/86] fix: percentileNormalize with missing values, one
 value, or a repeated end value

---
 nimble/calculate/normalize.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/nimble/calculate/normalize.py b/nimble/calculate/normalize.py
index 3c59fd0..7b1bc3e 100644
--- a/nimble/calculate/normalize.py
+++ b/nimble/calculate/normalize.py
@@ -234,14 +234,11 @@ def percentileNormalize(values1, values2=None):
 
     # index locations of sorted values
     argsort = np.argsort(arr1)
-    anyNan = any(map(np.isnan, arr1))
-    if anyNan: # ignore index for nan
-        epsilon = 1 / (len(arr1) - 2)
-    else:
-        epsilon = 1 / (len(arr1) - 1)
+    numValues = len(arr1) - np.isnan(arr1).sum() # ignore nan
     for i, idx in enumerate(argsort):
         if not np.isnan(percentiles[idx]):
-            percentiles[idx] = i * epsilon
+            # a single value is equal to all values
+            percentiles[idx] = i / (numValues - 1) if numValues > 1 else 0.5
 
     # adjust percentiles for duplicate values
     for v in np.unique(arr1):
@@ -280,13 +277,13 @@ def percentileNormalize(values1, values2=None):
 def _interpPercentile(minimum, maximum, sortedValues, sortedPercentiles, val):
     if np.isnan(val):
         return val
-    if val == minimum == maximum:
-        return 0.5 # all values were equal
-    if val <= minimum:
+    if val < minimum:
         return 0.0
-    if val >= maximum:
+    if val > maximum:
         return 1.0
     idx = np.searchsorted(sortedValues, val) # binary search
+    if val == minimum:
+        return sortedPercentiles[idx]
     leftVal, rightVal = sortedValues[idx - 1:idx + 1]
     leftPerc, rightPerc = sortedPercentiles[idx - 1:idx + 1]
     if val == rightVal:
-- 
2.43.0


From fbbb2df02078ac57969e30d2a78a712ada6eeae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 28/86] fix: features.normalize with a second object accepts a
 single feature identifier

---
 nimble/core/data/features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0fbe027..5194641 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -37,7 +37,7 @@ from nimble.core.logger import handleLogging
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, constructIndicesList
 
 class Features(ABC):
     """
@@ -2003,7 +2003,8 @@ class Features(ABC):
                 msg += 'featureNames of the calling object'
                 raise InvalidArgumentValue(msg)
             if features is not None:
-                features = list(map(self._getIndex, features))
+                features = constructIndicesList(self._base, self._axis,
+                                                features)
             zipFeatures = zip(self, applyResultTo.features)
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
-- 
2.43.0


From a9eee4725a5746c4b93f5db6bbe79239b82869c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 29/86] fix: the identifiers given to the view of a view are
 those of the view

---
 nimble/core/data/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 3ff30df..d5be9e3 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -119,25 +119,25 @@ class BaseView(Base, metaclass=ABCMeta):
         if pointStart is None:
             psAdj = None if len(self._source.points) == 0 else self._pStart
         else:
-            psIndex = self._source.points.getIndex(pointStart)
+            psIndex = self.points.getIndex(pointStart)
             psAdj = psIndex + self._pStart
 
         if pointEnd is None:
             peAdj = None if len(self._source.points) == 0 else self._pEnd - 1
         else:
-            peIndex = self._source.points.getIndex(pointEnd)
+            peIndex = self.points.getIndex(pointEnd)
             peAdj = peIndex + self._pStart
 
         if featureStart is None:
             fsAdj = None if len(self._source.features) == 0 else self._fStart
         else:
-            fsIndex = self._source.features.getIndex(featureStart)
+            fsIndex = self.features.getIndex(featureStart)
             fsAdj = fsIndex + self._fStart
 
         if featureEnd is None:
             feAdj = None if len(self._source.features) == 0 else self._fEnd - 1
         else:
-            feIndex = self._source.features.getIndex(featureEnd)
+            feIndex = self.features.getIndex(featureEnd)
             feAdj = feIndex + self._fStart
 
         return self._source._view_backend(psAdj, peAdj, fsAdj, feAdj,
-- 
2.43.0


From d3648a681670764297b75ac41d401e5e0fe8dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 30/86] fix: trainAndTestSets with an empty test set still
 separates the labels

---
 nimble/core/data/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d42dc69..634b5f2 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1701,13 +1701,8 @@ class Base(ABC):
                     msg += "more than two dimensions"
                     raise ImproperObjectAction(msg)
 
-                # safety for empty objects
-                toExtract = labels
-                if testXSize == 0:
-                    toExtract = []
-
-                trainY = trainX.features.extract(toExtract, useLog=False)
-                testY = testX.features.extract(toExtract, useLog=False)
+                trainY = trainX.features.extract(labels, useLog=False)
+                testY = testX.features.extract(labels, useLog=False)
 
             if self.name is not None:
                 trainX.name = self.name + "_trainX"
-- 
2.43.0


From 8531d1825341933f33351521bf8fe3e8acfc8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 31/86] fix: whole object statistics of a view of a List

---
 nimble/core/data/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 634b5f2..18b92e6 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -121,6 +121,9 @@ def isNumeric(base):
         return base._data.dtype.kind in 'ifc'
     elif isinstance(base._data, list):
         return checkNumericListType(base._data)
+    elif isinstance(base, nimble.core.data.List):
+        # the data of a view is a window into the lists of its source
+        return checkNumericListType([list(point) for point in base._data])
     else:
         raise ValueError("Unsupported data type")
 
-- 
2.43.0


From 7b6eba2497fcc74185146ffb19c543f83d88ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 32/86] fix: truth value of a view made from numpy integer
 identifiers

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 18b92e6..5149e5c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -462,7 +462,7 @@ class Base(ABC):
         raise ImproperObjectAction(msg)
 
     def __bool__(self):
-        return self._dims[0] > 0 and self._dims[-1] > 0
+        return bool(self._dims[0] > 0 and self._dims[-1] > 0)
 
     @limitedTo2D
     def iterateElements(self, order='point', only=None):
-- 
2.43.0


From eee9daccd561063a325358e2445a961fcd56ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 33/86] fix: abs() drops the point names when the features have
 no names

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5149e5c..fdea880 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5227,7 +5227,7 @@ class Base(ABC):
         if self.features._namesCreated():
             ret.features.setNames(self.features.getNames(), useLog=False)
         else:
-            ret.points.setNames(None, useLog=False)
+            ret.features.setNames(None, useLog=False)
 
         ret._name = None
         ret._absPath = self.absolutePath
-- 
2.43.0


From 2d0b03d2f6d43b7cb955ba3ddcbfc5d28272367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 34/86] fix: Sparse calculateOnElements preserving zeros on a
 subset of the data

---
 nimble/core/data/sparse.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index acc497d..a98e617 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -209,7 +209,8 @@ class Sparse(Base):
             # initiate generic implementation for view types
             preserveZeros = False
         # all data
-        if preserveZeros and points is None and features is None:
+        if (preserveZeros and points is None and features is None
+                and len(data)):
             try:
                 data = function(data)
             except Exception: # pylint: disable=broad-except
@@ -220,23 +221,7 @@ class Sparse(Base):
             # note: even if function transforms nonzero values into zeros
             # our init methods will filter them out from the data attribute
             return values
-        # subset of data
-        if preserveZeros:
-            dataSubset = []
-            rowSubset = []
-            colSubset = []
-            for idx, val in enumerate(data):
-                if row[idx] in points and col[idx] in features:
-                    rowSubset.append(row[idx])
-                    colSubset.append(col[idx])
-                    dataSubset.append(val)
-            dataSubset = function(dataSubset)
-            values = scipy.sparse.coo_matrix((dataSubset,
-                                              (rowSubset, colSubset)))
-            # note: even if function transforms nonzero values into zeros
-            # our init methods will filter them out from the data attribute
-            return values
-        # zeros not preserved
+        # zeros not preserved, a subset of the data, or no stored data
         return self._calculate_genericVectorized(function, points, features)
 
     def _countUnique_implementation(self, points, features):
-- 
2.43.0


From b5b933560156934766d797680a0efd0341e1508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 35/86] fix: fillMatching pairs a matching object with the
 vectors it is filled in

---
 nimble/core/data/axis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index d36870c..68b4e06 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -782,13 +782,12 @@ class Axis(ABC):
 
         # if matchingElements is a boolean matrix we need to provide the
         # corresponding boolean vector for the vector passed to _transform
-        try:
-            idxOrder = iter(limitTo)
-        except TypeError:
-            if limitTo is None:
-                idxOrder = iter(range(len(self)))
-            else: # limitTo is a single identifier
-                idxOrder = iter([self._getIndex(limitTo)])
+        if limitTo is None:
+            idxOrder = iter(range(len(self)))
+        else:
+            limitTo = constructIndicesList(self._base, self._axis, limitTo)
+            # the vectors are filled in the order of their indices
+            idxOrder = iter(sorted(set(limitTo)))
 
         @functools.wraps(fillFunc)
         def fillFunction(vector):
-- 
2.43.0


From b60de18a2de684ae575cb6c5c8899a9d5855ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 36/86] fix: transform stores nothing until every result is
 known

---
 nimble/core/data/dataframe.py     |  8 ++++++--
 nimble/core/data/dataframeAxis.py | 10 ++++++++--
 nimble/core/data/list.py          |  7 +++++--
 nimble/core/data/listAxis.py      | 12 +++++++++---
 nimble/core/data/matrix.py        |  7 +++++--
 nimble/core/data/matrixAxis.py    | 12 ++++++++++--
 nimble/core/data/sparse.py        | 11 +++++++----
 7 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e10006b..66d46c5 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -92,6 +92,8 @@ class DataFrame(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # nothing is stored until every result is known
+        results = {}
         for i, j in ids:
             currVal = self._data.iat[i, j]
 
@@ -101,9 +103,11 @@ class DataFrame(Base):
                 continue
 
             if toTransform.oneArg:
-                currRet = toTransform(currVal)
+                results[i, j] = toTransform(currVal)
             else:
-                currRet = toTransform(currVal, i, j)
+                results[i, j] = toTransform(currVal, i, j)
+
+        for (i, j), currRet in results.items():
             # convert datetime columns so pandas can't convert to datetimes
             if (self._data.dtypes.iloc[j].type == np.datetime64
                     and isinstance(currRet, (numbers.Number, str))):
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 5074e0c..b412d24 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -185,11 +185,14 @@ class DataFramePoints(DataFrameAxis, Points):
                                      axis=0, ignore_index=True)
 
     def _transform_implementation(self, function, limitTo):
+        # nothing is stored until every result is known
+        results = {}
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
-            currRet = function(pt)
+            results[i] = function(pt)
 
+        for i, currRet in results.items():
             # Some versions of pandas require 1-d inputs, and fail when
             # given nimble objects or 2d arrays
             if isinstance(currRet, Base):
@@ -285,11 +288,14 @@ class DataFrameFeatures(DataFrameAxis, Features):
                                      axis=1, ignore_index=True)
 
     def _transform_implementation(self, function, limitTo):
+        # nothing is stored until every result is known
+        results = {}
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
-            currRet = function(f)
+            results[j] = function(f)
 
+        for j, currRet in results.items():
             self._base._data[j] = currRet
 
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index f2b338d..76c2b98 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -139,6 +139,8 @@ class List(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # nothing is stored until every result is known
+        results = {}
         for i, j in ids:
             currVal = self._data[i][j]
 
@@ -148,10 +150,11 @@ class List(Base):
                 continue
 
             if toTransform.oneArg:
-                currRet = toTransform(currVal)
+                results[i, j] = toTransform(currVal)
             else:
-                currRet = toTransform(currVal, i, j)
+                results[i, j] = toTransform(currVal, i, j)
 
+        for (i, j), currRet in results.items():
             self._data[i][j] = currRet
 
     # pylint: disable=unused-argument
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index c27894f..f111203 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -197,12 +197,15 @@ class ListPoints(ListAxis, Points):
         self._base._data = allData
 
     def _transform_implementation(self, function, limitTo):
+        # nothing is stored until every result is known
+        results = {}
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
-            currRet = function(pt)
+            results[i] = list(function(pt))
 
-            self._base._data[i] = list(currRet)
+        for i, currRet in results.items():
+            self._base._data[i] = currRet
 
     ################################
     # Higher Order implementations #
@@ -290,11 +293,14 @@ class ListFeatures(ListAxis, Features):
         self._base._numFeatures += len(toInsert.features)
 
     def _transform_implementation(self, function, limitTo):
+        # nothing is stored until every result is known
+        results = {}
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
-            currRet = function(f)
+            results[j] = list(function(f))
 
+        for j, currRet in results.items():
             for i in range(len(self._base.points)):
                 self._base._data[i][j] = currRet[i]
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 81fc0a1..d395191 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -88,6 +88,8 @@ class Matrix(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # nothing is stored until every result is known
+        results = {}
         for i, j in ids:
             currVal = self._data[i, j]
 
@@ -97,10 +99,11 @@ class Matrix(Base):
                 continue
 
             if toTransform.oneArg:
-                currRet = toTransform(currVal)
+                results[i, j] = toTransform(currVal)
             else:
-                currRet = toTransform(currVal, i, j)
+                results[i, j] = toTransform(currVal, i, j)
 
+        for (i, j), currRet in results.items():
             self._data = modifyNumpyArrayValue(self._data, (i, j), currRet)
 
     # pylint: disable=unused-argument
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 4b3c33a..a3e1861 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -178,11 +178,15 @@ class MatrixPoints(MatrixAxis, Points):
             (startData, toInsert._data, endData), 0)
 
     def _transform_implementation(self, function, limitTo):
+        # nothing is stored until every result is known
+        results = {}
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
             currRet = function(pt)
-            retArray = np.array(currRet, dtype=function.convertType)
+            results[i] = np.array(currRet, dtype=function.convertType)
+
+        for i, retArray in results.items():
             self._convertBaseDtype(retArray.dtype)
             self._base._data[i, :] = retArray
         # if transformations applied to all data and function.convertType is
@@ -253,11 +257,15 @@ class MatrixFeatures(MatrixAxis, Features):
             (startData, toInsert._data, endData), 1)
 
     def _transform_implementation(self, function, limitTo):
+        # nothing is stored until every result is known
+        results = {}
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
             currRet = function(f)
-            retArray = np.array(currRet, dtype=function.convertType)
+            results[j] = np.array(currRet, dtype=function.convertType)
+
+        for j, retArray in results.items():
             self._convertBaseDtype(retArray.dtype)
             self._base._data[:, j] = retArray
         # if transformations applied to all data and function.convertType is
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index a98e617..3738262 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -179,6 +179,8 @@ class Sparse(Base):
 
     def _transformEachElement_zeroPreserve_implementation(
             self, toTransform, points, features):
+        # nothing is stored until every result is known
+        newData = self._data.data.copy()
         for index, val in enumerate(self._data.data):
             pID = self._data.row[index]
             fID = self._data.col[index]
@@ -192,12 +194,13 @@ class Sparse(Base):
             else:
                 currRet = toTransform(val, pID, fID)
 
-            self._data.data = modifyNumpyArrayValue(self._data.data, index,
-                                                    currRet)
+            newData = modifyNumpyArrayValue(newData, index, currRet)
 
-        if all(issubclass(type(d), numbers.Number) for d in self._data.data):
-            self._data.data = np.array(list(self._data.data))
+        if all(issubclass(type(d), numbers.Number) for d in newData):
+            newData = np.array(list(newData))
+        self._data.data = newData
         self._data.eliminate_zeros()
+        self._resetSorted()
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
-- 
2.43.0


From 1f0750ca5aecba172838146b4a80bafbb877e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 37/86] fix: Sparse transformElements outside the limits and
 for None

---
 nimble/core/data/sparse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 3738262..89b46f0 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -152,26 +152,26 @@ class Sparse(Base):
 
     def _transformEachElement_noPreserve_implementation(self, toTransform,
                                                         points, features):
-        # returns None if outside of the specified points and feature so that
-        # when calculateForEach is called we are given a full data object
-        # with only certain values modified.
+        # returns the current value if outside of the specified points and
+        # features so that when calculateOnElements is called we are given a
+        # full data object with only certain values modified.
         def wrapper(value, pID, fID):
             if points is not None and pID not in points:
-                return None
+                return value
             if features is not None and fID not in features:
-                return None
+                return value
 
             if toTransform.oneArg:
                 return toTransform(value)
 
             return toTransform(value, pID, fID)
 
-        # perserveZeros is always False in this helper, skipNoneReturnValues
-        # is being hijacked by the wrapper: even if it was False, Sparse can't
-        # contain None values.
+        # preserveZeros is always False in this helper and toTransform has
+        # already handled skipNoneReturnValues
         ret = self.calculateOnElements(wrapper, None, None,
                                        preserveZeros=False,
-                                       skipNoneReturnValues=True, useLog=False)
+                                       skipNoneReturnValues=False,
+                                       useLog=False)
 
         pnames = self.points._getNamesNoGeneration()
         fnames = self.features._getNamesNoGeneration()
-- 
2.43.0


From ba4e5ec34477c8ed8e66b2a3d847438d1c428368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 38/86] fix: missing values are one key in unique, counts and
 groups

---
 nimble/core/data/_dataHelpers.py | 8 ++++++--
 nimble/core/data/base.py         | 4 +++-
 nimble/core/data/dataframe.py    | 3 ++-
 nimble/core/data/list.py         | 3 ++-
 nimble/core/data/matrix.py       | 3 ++-
 nimble/core/data/sparseAxis.py   | 4 +++-
 6 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index cc8f418..58b2c27 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -272,8 +272,10 @@ def denseAxisUniqueArray(obj, axis):
     unique = set()
     uniqueIndices = []
     for i, values in enumerate(data):
-        if tuple(values) not in unique:
-            unique.add(tuple(values))
+        # a single nan object so missing values are equal in the set
+        key = tuple(np.nan if val != val else val for val in values)
+        if key not in unique:
+            unique.add(key)
             uniqueIndices.append(i)
     uniqueData = data[uniqueIndices]
 
@@ -485,6 +487,8 @@ def denseCountUnique(obj, points=None, features=None):
         mapping = {}
         nextIdx = [0]
         def mapper(val):
+            if isinstance(val, float) and val != val:
+                val = np.nan # a single key for the missing values
             if val in mapping:
                 return mapping[val]
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index fdea880..98b7327 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -658,6 +658,8 @@ class Base(ABC):
             integerValue = 0
             mapped = []
             for val in ft:
+                if val != val:
+                    val = np.nan # a single key for the missing values
                 if val in mapping:
                     mapped.append(mapping[val])
                 elif val == 0:
@@ -1393,7 +1395,7 @@ class Base(ABC):
             if isinstance(val, str):
                 return val
             if isinstance(val, numbers.Number):
-                if val in undefined:
+                if val != val or val in undefined:
                     # check that the feature axis doesn't have that string.
                     if "NaN" not in list(self.features.copy(by)):
                         return "NaN"
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 66d46c5..2ae7856 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -416,7 +416,8 @@ class DataFrame(Base):
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
         toFill = np.zeros((len(self.points), len(uniqueIdx)))
         for ptIdx, val in self._data.iterrows():
-            ftIdx = uniqueIdx[val[0]]
+            val = val[0]
+            ftIdx = uniqueIdx[val if val == val else np.nan]
             toFill[ptIdx, ftIdx] = 1
         return DataFrame(pd.DataFrame(toFill))
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 76c2b98..7939620 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -533,7 +533,8 @@ class List(Base):
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
         toFill = np.zeros((len(self.points), len(uniqueIdx)))
         for ptIdx, val in enumerate(self._data):
-            ftIdx = uniqueIdx[val[0]]
+            val = val[0]
+            ftIdx = uniqueIdx[val if val == val else np.nan]
             toFill[ptIdx, ftIdx] = 1
         return List(toFill.tolist())
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index d395191..2fda471 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -400,7 +400,8 @@ class Matrix(Base):
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
         toFill = np.zeros((len(self.points), len(uniqueIdx)))
         for ptIdx, val in enumerate(self._data):
-            ftIdx = uniqueIdx[val.item()]
+            val = val.item()
+            ftIdx = uniqueIdx[val if val == val else np.nan]
             toFill[ptIdx, ftIdx] = 1
         return Matrix(toFill)
 
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index e71e67c..c2724ab 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -337,7 +337,9 @@ class SparseAxis(Axis, metaclass=ABCMeta):
             axisLoc = axisLocator == i
             # data values can look the same but have zeros in different places;
             # zip with offAxis to ensure the locations are the same as well
-            key = tuple(zip(data[axisLoc], offAxisLocator[axisLoc]))
+            # a single nan object so missing values are equal in the set
+            vals = [np.nan if val != val else val for val in data[axisLoc]]
+            key = tuple(zip(vals, offAxisLocator[axisLoc]))
             if key not in unique:
                 unique.add(key)
                 uniqueData.extend(data[axisLoc])
-- 
2.43.0


From 6e0940c8f15c4feea8c6e5a438ffde48154964da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 39/86] fix: Sparse binary features for implicit zeros

---
 nimble/core/data/sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 89b46f0..f869bad 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -788,8 +788,12 @@ class Sparse(Base):
         binaryRow = []
         binaryCol = []
         binaryData = []
+        # the points without a stored value are zero
+        values = [0] * len(self.points)
         for ptIdx, val in zip(self._data.row, self._data.data):
-            ftIdx = uniqueIdx[val]
+            values[ptIdx] = val
+        for ptIdx, val in enumerate(values):
+            ftIdx = uniqueIdx[val if val == val else np.nan]
             binaryRow.append(ptIdx)
             binaryCol.append(ftIdx)
             binaryData.append(1)
-- 
2.43.0


From a434d66799264d35c109b4b500956bad2a656617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 40/86] fix: Sparse modulus with another object pairs the
 elements

---
 nimble/core/data/sparse.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index f869bad..7c03d8a 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1185,32 +1185,17 @@ class Sparse(Base):
         ret = self._binaryOperations_implementation(trueDiv, other)
         ret._data.data = np.floor(ret._data.data)
         ret._data.eliminate_zeros()
+        ret._resetSorted()
         return ret
 
     def _genericMod_implementation(self, opName, other):
         """
-        Uses np.mod on the nonzero values in the coo matrix.
+        Uses np.mod on the values of each element.
 
-        Since 0 % any value is 0, the zero values can be ignored for
-        this operation.
+        The nonzero values of the two objects can be at different
+        positions so the values cannot be paired in the coo matrices.
         """
-        sortedAxis = self._sorted['axis']
-        sort = sortedAxis if sortedAxis is not None else 'point'
-        self._sortInternal(sort)
-        selfData = self._getSparseData()
-        if not isinstance(other, Sparse):
-            other = other.copy('Sparse')
-        other._sortInternal(sort)
-        otherData = other._getSparseData()
-        if opName == '__rmod__':
-            ret = np.mod(otherData.data, selfData.data)
-        else:
-            ret = np.mod(selfData.data, otherData.data)
-        coo = scipy.sparse.coo_matrix((ret, (selfData.row, selfData.col)),
-                                      shape=self.shape)
-        coo.eliminate_zeros() # remove any zeros introduced into data
-
-        return Sparse(coo)
+        return self._defaultBinaryOperations_implementation(opName, other)
 
     def _scalarZeroPreservingBinary_implementation(self, opName, other):
         """
-- 
2.43.0


From 2122cf96e9f1e5a35dc59a9314bf71c9663ed06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 41/86] fix: Sparse forgets its sort order after elementwise
 operations

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 7c03d8a..2859221 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1145,6 +1145,7 @@ class Sparse(Base):
         else:
             raw = scipy.sparse.coo_matrix(raw, shape=self._data.shape)
         target._data = raw
+        target._resetSorted()
         return target
 
     def _genericPow_implementation(self, opName, other):
@@ -1212,6 +1213,7 @@ class Sparse(Base):
         coo.eliminate_zeros() # remove any zeros introduced into data
         if opName.startswith('__i'):
             self._data = coo
+            self._resetSorted()
             return self
         return Sparse(coo)
 
-- 
2.43.0


From 4cd5be6883f7f1126ed6268b63d7aff2d319d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 42/86] fix: Sparse unique values and counts keep the type of
 the data

---
 nimble/core/data/sparse.py     | 9 ++++++++-
 nimble/core/data/sparseAxis.py | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 2859221..c9913c5 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -240,7 +240,14 @@ class Sparse(Base):
         totalValues = (len(source.points) * len(source.features))
         numZeros = totalValues - len(source._data.data)
         if numZeros > 0:
-            uniqueCount[0] = numZeros
+            if source._data.dtype == np.object_:
+                uniqueCount[0] = uniqueCount.get(0, 0) + numZeros
+            else:
+                # in the same order and of the same type as the other values
+                zero = source._data.dtype.type(0)
+                uniqueCount[zero] = uniqueCount.get(zero, 0) + numZeros
+                order = sorted(uniqueCount, key=lambda v: (v != v, v))
+                uniqueCount = {val: uniqueCount[val] for val in order}
         return uniqueCount
 
     def _transpose_implementation(self):
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index c2724ab..7224d72 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -359,7 +359,7 @@ class SparseAxis(Axis, metaclass=ABCMeta):
         if hasOffAxisNames:
             offAxisNames = getOffAxisNames()
 
-        uniqueData = np.array(uniqueData, dtype=np.object_)
+        uniqueData = np.array(uniqueData, dtype=data.dtype)
         if self._isPoint:
             shape = (axisCount, len(self._base.features))
             uniqueCoo = scipy.sparse.coo_matrix(
-- 
2.43.0


From ae8f71ac93596a12a9f5ec69987164dd101e53ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 43/86] fix: calculateOnElements on mixed types keeps the type
 of each output

---
 nimble/core/data/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 98b7327..4d8ed65 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1142,6 +1142,14 @@ class Base(ABC):
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
+        if toCalculate.dtype == np.object_:
+            # numpy would use the type of the first output for all of them
+            function.otypes = [np.object_]
+            ret = function(toCalculate)
+            types = {type(val) for val in ret.flat}
+            if len(types) == 1 and types.issubset({bool, int, float}):
+                ret = ret.astype(types.pop())
+            return ret
         try:
             return function(toCalculate)
         except Exception: # pylint: disable=broad-except
-- 
2.43.0


From ed18dc565c8c8f0619705d192e12676f47eb49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 44/86] fix: python list of features keeps the type of each
 element

---
 nimble/core/data/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 4d8ed65..7b409bc 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3878,7 +3878,11 @@ class Base(ABC):
         if len(self._dims) > 2:
             ret = np.reshape(ret, self._dims).tolist()
         if not rowsArePoints:
-            ret = np.transpose(ret).tolist()
+            if len(self._dims) > 2:
+                ret = np.transpose(ret).tolist()
+            else:
+                # an array could only hold elements of one type
+                ret = [list(feature) for feature in zip(*ret)]
         return ret
 
     def _copy_nestedPythonTypes(self, to, rowsArePoints):
-- 
2.43.0


From 083466b3ee79e1f2999c929b4414cb0520cb5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 45/86] fix: collapse and expand keep element types in every
 representation

---
 nimble/core/data/dataframeAxis.py |  11 ++-
 nimble/core/data/listAxis.py      |   5 +-
 nimble/core/data/sparseAxis.py    | 108 ++++++++++--------------------
 3 files changed, 41 insertions(+), 83 deletions(-)

diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index b412d24..06160a3 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -216,13 +216,10 @@ class DataFramePoints(DataFrameAxis, Points):
         collapseData = self._base._asNumpyArray()[:, collapseIndices]
         retainData = self._base._asNumpyArray()[:, retainIndices]
 
-        collapseDtypes = (np.dtype(object), max(self._base._data.dtypes))
-        dtypes = []
-        for i in range(len(self._base.features)):
-            if i in retainIndices:
-                dtypes.append(self._base._data.dtypes.iloc[i])
-            elif i == collapseIndices[0]:
-                dtypes.extend(collapseDtypes)
+        # the features of names and values are the last ones
+        toCollapse = self._base._data.iloc[:, collapseIndices]
+        dtypes = [self._base._data.dtypes.iloc[i] for i in retainIndices]
+        dtypes.extend((np.dtype(object), toCollapse.to_numpy().dtype))
 
         tmpData = fillArrayWithCollapsedFeatures(
             featuresToCollapse, retainData, collapseData, currNumPoints,
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index f111203..c8b5b71 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -227,8 +227,9 @@ class ListPoints(ListAxis, Points):
             retainData.append(retainFeatures)
 
         tmpData = fillArrayWithCollapsedFeatures(
-            featuresToCollapse, retainData, np.array(collapseData),
-            currNumPoints, currFtNames, numRetPoints, numRetFeatures)
+            featuresToCollapse, np.array(retainData, dtype=np.object_),
+            np.array(collapseData, dtype=np.object_), currNumPoints,
+            currFtNames, numRetPoints, numRetFeatures)
 
         self._base._data = tmpData.tolist()
         self._base._numFeatures = numRetFeatures
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 7224d72..4e4e969 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -20,6 +20,7 @@ Implementations and helpers specific to performing axis-generic
 operations on a nimble Sparse object.
 """
 from abc import ABCMeta
+import numbers
 
 import numpy as np
 
@@ -30,6 +31,8 @@ from .points import Points
 from .views import PointsView
 from .features import Features
 from .views import FeaturesView
+from ._dataHelpers import fillArrayWithCollapsedFeatures
+from ._dataHelpers import fillArrayWithExpandedFeatures
 
 class SparseAxis(Axis, metaclass=ABCMeta):
     """
@@ -393,61 +396,20 @@ class SparsePoints(SparseAxis, Points):
     def _splitByCollapsingFeatures_implementation(
             self, featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures):
-        self._base._sortInternal(self._axis)
-        data = self._base._data.data
-        row = self._base._data.row
-        col = self._base._data.col
-        tmpData = []
-        tmpRow = []
-        tmpCol = []
-        for ptIdx in range(len(self)):
-            inRetain = [val in retainIndices for val in col]
-            inCollapse = [val in collapseIndices for val in col]
-            retainData = data[(row == ptIdx) & (inRetain)]
-            retainCol = col[(row == ptIdx) & (inRetain)]
-            collapseData = data[(row == ptIdx) & (inCollapse)]
-            sort = np.argsort(collapseIndices)
-            collapseData = collapseData[sort]
-            for idx, value in enumerate(collapseData):
-                tmpData.extend(retainData)
-                tmpRow.extend([ptIdx * len(featuresToCollapse) + idx]
-                              * len(retainData))
-                tmpCol.extend(list(range(len(retainCol))))
-                tmpData.append(currFtNames[idx])
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 2)
-                tmpData.append(value)
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 1)
-
-        tmpData = np.array(tmpData, dtype=np.object_)
-        self._base._data = scipy.sparse.coo_matrix(
-            (tmpData, (tmpRow, tmpCol)), shape=(numRetPoints, numRetFeatures))
+        data = self._base.copy('numpyarray')
+        tmpData = fillArrayWithCollapsedFeatures(
+            featuresToCollapse, data[:, retainIndices],
+            data[:, collapseIndices], currNumPoints, currFtNames,
+            numRetPoints, numRetFeatures)
+        self._base._data = _denseToCoo(tmpData)
         self._base._resetSorted()
 
     def _combineByExpandingFeatures_implementation(
         self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        tmpData = []
-        tmpRow = []
-        tmpCol = []
-        numExpanded = len(valuesIdx)
-        numNewFts = len(uniqueNames) * numExpanded
-        for idx, point in enumerate(uniqueDict):
-            tmpPoint = list(point[:namesIdx])
-            for name in uniqueNames:
-                if name in uniqueDict[point]:
-                    tmpPoint.extend(uniqueDict[point][name])
-                else:
-                    tmpPoint.extend([np.nan] * numExpanded)
-            tmpPoint.extend(point[namesIdx:])
-            tmpData.extend(tmpPoint)
-            tmpRow.extend([idx for _ in range(len(point) + numNewFts)])
-            tmpCol.extend(list(range(numRetFeatures)))
-
-        tmpData = np.array(tmpData, dtype=np.object_)
-        shape = (len(uniqueDict), numRetFeatures)
-        self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
-                                                   shape=shape)
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+                                                uniqueNames, numRetFeatures,
+                                                len(valuesIdx))
+        self._base._data = _denseToCoo(tmpData)
         self._base._resetSorted()
 
 
@@ -491,29 +453,16 @@ class SparseFeatures(SparseAxis, Features):
 
     def _splitByParsing_implementation(self, featureIndex, splitList,
                                        numRetFeatures, numResultingFts):
-        keep = self._base._data.col != featureIndex
-        tmpData = self._base._data.data[keep]
-        tmpRow = self._base._data.row[keep]
-        tmpCol = self._base._data.col[keep]
-
-        shift = tmpCol > featureIndex
-        tmpCol[shift] = tmpCol[shift] + numResultingFts - 1
-
-        for idx in range(numResultingFts):
-            newFeat = []
-            for lst in splitList:
-                newFeat.append(lst[idx])
-            tmpData = np.concatenate((tmpData, newFeat))
-            newRows = list(range(len(self._base.points)))
-            tmpRow = np.concatenate((tmpRow, newRows))
-            newCols = [featureIndex + idx for _
-                       in range(len(self._base.points))]
-            tmpCol = np.concatenate((tmpCol, newCols))
-
-        tmpData = np.array(tmpData, dtype=np.object_)
-        shape = (len(self._base.points), numRetFeatures)
-        self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
-                                                   shape=shape)
+        data = self._base.copy('numpyarray')
+        tmpData = np.empty((len(self._base.points), numRetFeatures),
+                           dtype=np.object_)
+        tmpData[:, :featureIndex] = data[:, :featureIndex]
+        for i in range(numResultingFts):
+            for j, lst in enumerate(splitList):
+                tmpData[j, featureIndex + i] = lst[i]
+        tmpData[:, featureIndex + numResultingFts:] = (
+            data[:, featureIndex + 1:])
+        self._base._data = _denseToCoo(tmpData)
         self._base._resetSorted()
 
 
@@ -544,6 +493,17 @@ class SparseFeaturesView(FeaturesView, SparseFeatures):
 # Generic Helpers #
 ###################
 
+def _denseToCoo(array):
+    """
+    The coo matrix of an array of objects, with a numeric type if possible.
+    """
+    nonZero = array != 0
+    data = array[nonZero]
+    if all(isinstance(val, numbers.Number) for val in data):
+        data = np.array(data.tolist(), dtype=None if data.size else float)
+    return scipy.sparse.coo_matrix((data, np.nonzero(nonZero)),
+                                   shape=array.shape)
+
 def _calcShapes(currShape, numExtracted, axisType):
     if axisType == "feature":
         (rowShape, colShape) = currShape
-- 
2.43.0


From 4eefe3cc90fbf31495167d875e81a09da3755641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 46/86] fix: calculateOnElements keeps the type of every output

---
 nimble/core/data/_dataHelpers.py | 29 +++++++++++++++++++++++++++++
 nimble/core/data/base.py         | 17 ++---------------
 nimble/core/data/sparse.py       |  7 ++-----
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 58b2c27..3c12ca4 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1178,6 +1178,35 @@ def modifyNumpyArrayValue(arr, index, newVal):
 
     return arr
 
+def calculateVectorized(function, arr):
+    """
+    Apply a vectorized function to each element of a numpy array.
+
+    By default, numpy would use the type of the first output for all of
+    them. The array returned has a type that can represent every output.
+    """
+    function.otypes = [np.object_]
+    ret = function(arr)
+    types = {type(val) for val in ret.flat}
+    boolTypes = (bool, np.bool_)
+    if not types:
+        return ret
+    if all(issubclass(t, boolTypes) for t in types):
+        return ret.astype(np.bool_)
+    if any(issubclass(t, boolTypes) for t in types):
+        return ret
+    if all(issubclass(t, (int, np.integer)) for t in types):
+        dtype = np.int_
+    elif all(issubclass(t, (int, np.integer, float, np.floating))
+             for t in types):
+        dtype = np.float64
+    else:
+        return ret
+    try:
+        return ret.astype(dtype)
+    except OverflowError:
+        return ret
+
 def castToHold(arr, values):
     """
     Cast a numpy array or scipy sparse matrix, if necessary, to a dtype
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 7b409bc..cf71501 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -50,6 +50,7 @@ from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
 from .stretch import Stretch
 from ._dataHelpers import formatIfNeeded, validateInputString
+from ._dataHelpers import calculateVectorized
 from ._dataHelpers import constructIndicesList
 from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
@@ -1142,21 +1143,7 @@ class Base(ABC):
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
-        if toCalculate.dtype == np.object_:
-            # numpy would use the type of the first output for all of them
-            function.otypes = [np.object_]
-            ret = function(toCalculate)
-            types = {type(val) for val in ret.flat}
-            if len(types) == 1 and types.issubset({bool, int, float}):
-                ret = ret.astype(types.pop())
-            return ret
-        try:
-            return function(toCalculate)
-        except Exception: # pylint: disable=broad-except
-            # change output type of vectorized function to object to handle
-            # nonnumeric data
-            function.otypes = [np.object_]
-            return function(toCalculate)
+        return calculateVectorized(function, toCalculate)
 
     @limitedTo2D
     def countElements(self, condition):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index c9913c5..1b554d1 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -45,6 +45,7 @@ from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
+from ._dataHelpers import calculateVectorized
 from ._dataHelpers import isValid2DObject
 from ._dataHelpers import validateAxis
 
@@ -214,11 +215,7 @@ class Sparse(Base):
         # all data
         if (preserveZeros and points is None and features is None
                 and len(data)):
-            try:
-                data = function(data)
-            except Exception: # pylint: disable=broad-except
-                function.otypes = [np.object_]
-                data = function(data)
+            data = calculateVectorized(function, data)
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
-- 
2.43.0


From 1239a629e2b18939898a6a5528f6f6897630c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 47/86] fix: sorting by several identifiers moves nothing until
 all are sorted

---
 nimble/core/data/axis.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 68b4e06..9ad8f6b 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1275,17 +1275,15 @@ class Axis(ABC):
         self._permute(sorted(self._getNames(), reverse=reverse))
 
     def _sortByIdentifier(self, index, reverse):
-        if isinstance(index, list):
-            for idx in index[::-1]:
-                self._sortByIdentifier(idx, reverse)
-        else:
+        # nothing is moved until every identifier has been sorted by
+        order = list(range(len(self)))
+        for idx in index[::-1] if isinstance(index, list) else [index]:
             if self._axis == 'point':
-                data = self._base.features[index]
+                data = list(self._base.features[idx])
             else:
-                data = self._base.points[index]
-            sortedIndex = sorted(enumerate(data), key=operator.itemgetter(1),
-                                 reverse=reverse)
-            self._permute((val[0] for val in sortedIndex))
+                data = list(self._base.points[idx])
+            order.sort(key=data.__getitem__, reverse=reverse)
+        self._permute(order)
 
     def _sortByFunction(self, func, reverse):
         sortedData = sorted(enumerate(self), key=lambda x: func(x[1]),
-- 
2.43.0


From 9ecf41e60f6aae8efc81ebde856b1970255e6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 48/86] fix: replaceFeatureWithBinaryFeatures keeps the feature
 when refused

---
 nimble/core/data/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index cf71501..7b443ac 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -575,7 +575,7 @@ class Base(ABC):
 
         index = self.features.getIndex(featureToReplace)
 
-        replace = self.features.extract([index], useLog=False)
+        replace = self.features.copy([index], useLog=False)
 
         uniqueVals = replace.countUniqueElements().keys()
         uniqueIdx = {key: i for i, key in enumerate(uniqueVals)}
@@ -595,12 +595,10 @@ class Base(ABC):
             ftNames.append(prefix + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
 
-        # must use append if the object is now feature empty
-        if len(self.features) == 0:
-            self.features.append(binaryObj, useLog=False)
-        else:
-            # insert data at same index of the original feature
-            self.features.insert(index, binaryObj, useLog=False)
+        # insert data next to the original feature, which is only removed once
+        # this has not been refused
+        self.features.insert(index, binaryObj, useLog=False)
+        self.features.delete(index + len(ftNames), useLog=False)
 
         return ftNames
 
-- 
2.43.0


From 530756e1c0d2fc35bba0f64c62b948ac5f538c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 49/86] fix: new names are validated before features are split

---
 nimble/core/data/axis.py     | 16 ++++++++++++++++
 nimble/core/data/features.py |  9 ++++++---
 nimble/core/data/points.py   | 12 ++++++++----
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 9ad8f6b..020d298 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -195,6 +195,22 @@ class Axis(ABC):
         return copy.copy(self.namesInverse)
    
 
+    def _validateNewNames(self, names):
+        """
+        Refuse a list of names for all of the axis which _setNames would
+        refuse, for operations which set names after changing the data.
+        """
+        used = set()
+        for name in names:
+            if name is None:
+                continue
+            if not isinstance(name, str):
+                raise InvalidArgumentValue("Names must be strings")
+            if name in used:
+                msg = "Cannot input duplicate names: " + str(name)
+                raise InvalidArgumentValue(msg)
+            used.add(name)
+
     def _setNames(self, assignments, oldIdentifiers=None):
        # Special case where we remove the entirety of the names, but only if there aren't
         # any specified oldIdentifiers
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 5194641..8e785e6 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2187,12 +2187,15 @@ class Features(ABC):
         featureIndex = self.getIndex(feature)
         numRetFeatures = len(self) - 1 + numResultingFts
 
-        self._splitByParsing_implementation(featureIndex, splitList,
-                                            numRetFeatures, numResultingFts)
-
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
+        # validate new names before modifying the object
+        self._validateNewNames(fNames)
+
+        self._splitByParsing_implementation(featureIndex, splitList,
+                                            numRetFeatures, numResultingFts)
+
         self._base._dims[1] = numRetFeatures
         self.setNames(fNames, useLog=False)
 
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 64b8f6c..a118f22 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -1987,21 +1987,25 @@ class Points(ABC):
             currFtNames.append(currName)
 
         numRetPoints = len(self) * numCollapsed
-        numRetFeatures = len(features) - numCollapsed + 2
+        numRetFeatures = len(retainIndices) + 2
+
+        ftNames = [features.getName(idx) for idx in retainIndices]
+        ftNames.extend([featureForNames, featureForValues])
+        # validate new names before modifying the object
+        features._validateNewNames(ftNames)
 
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._dims = [numRetPoints, numRetFeatures]
-        ftNames = [features.getName(idx) for idx in retainIndices]
-        ftNames.extend([featureForNames, featureForValues])
         features.setNames(ftNames, useLog=False)
         if self._base.points._namesCreated():
             appendedPts = []
             for name in self.getNames():
                 for i in range(numCollapsed):
-                    appendedPts.append(f"{name}_{i}")
+                    appendedPts.append(None if name is None
+                                       else f"{name}_{i}")
             self.setNames(appendedPts, useLog=False)
 
 
-- 
2.43.0


From 264e61b3880315a7eabb526db2516492fd918f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 50/86] fix: combineByExpandingFeatures positions, missing
 values and names

---
 nimble/core/data/_dataHelpers.py  |  2 ++
 nimble/core/data/dataframeAxis.py | 13 +++++++-----
 nimble/core/data/points.py        | 33 ++++++++++++++++++-------------
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 3c12ca4..e34bddf 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -362,6 +362,8 @@ def fillArrayWithExpandedFeatures(uniqueDict, namesIdx, uniqueNames,
     implementations.
     """
     fill = np.empty(shape=(len(uniqueDict), numRetFeatures), dtype=np.object_)
+    # the position of the new features among those which are kept
+    namesIdx = min(namesIdx, numRetFeatures - len(uniqueNames) * numExpanded)
 
     endSlice = slice(namesIdx + (len(uniqueNames) * numExpanded), None)
     for i, point in enumerate(uniqueDict):
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 06160a3..94394b4 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -241,11 +241,14 @@ class DataFramePoints(DataFrameAxis, Points):
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
-        self._base._data = pd.DataFrame(tmpData)
-        if tuple(self._base._data.dtypes) != tuple(dtypes):
-            for (i, col), dtype in zip(self._base._data.items(), dtypes):
-                if col.dtype !=  dtype:
-                    self._base._data[i] = col.astype(dtype)
+        newData = pd.DataFrame(tmpData)
+        for i, dtype in enumerate(dtypes):
+            if dtype in (int, bool) and newData[i].isnull().any():
+                # there is no value for this feature in some of the points
+                dtypes[i] = np.dtype(float if dtype == int else object)
+
+        self._base._data = newData
+        self._base._setDtypes(dtypes)
 
 
 class DataFramePointsView(PointsView, DataFramePoints):
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index a118f22..8e6fcb9 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -30,6 +30,8 @@ of function calls for the logger takes place in here.
 from abc import ABC, abstractmethod
 from collections import OrderedDict
 
+import numpy as np
+
 import nimble
 from nimble.exceptions import ImproperObjectAction
 from ._dataHelpers import limitedTo2D, prepLog
@@ -2141,12 +2143,16 @@ class Points(ABC):
         pNames = []
         uniqueNames = []
         for idx, row in enumerate(iter(self)):
-            uncombined = tuple(row[uncombinedIdx])
+            # a single nan object so that missing values are equal keys
+            uncombined = tuple(np.nan if val != val else val
+                               for val in row[uncombinedIdx])
             if uncombined not in unique:
                 unique[uncombined] = {}
                 if self._base.points._namesCreated():
                     pNames.append(self.getName(idx))
             nameIdxVal = row[namesIdx]
+            if nameIdxVal != nameIdxVal:
+                nameIdxVal = np.nan
             if nameIdxVal in unique[uncombined]:
                 msg = f"The point at index {idx} cannot be combined because "
                 msg += "there is already a value for the feature "
@@ -2156,12 +2162,10 @@ class Points(ABC):
             if nameIdxVal not in uniqueNames:
                 uniqueNames.append(nameIdxVal)
 
-            unique[uncombined][row[namesIdx]] = row[valuesIdx]
+            unique[uncombined][nameIdxVal] = row[valuesIdx]
 
         numExpanded = len(featuresWithValues)
-        numRetFeatures = (len(self._base.features)
-                          + (len(uniqueNames) * numExpanded)
-                          - (1 + numExpanded))
+        numRetFeatures = len(uncombinedIdx) + len(uniqueNames) * numExpanded
         # validate new feature names before modifying the object
         prefixes = list(map(str, uniqueNames))
         if len(set(prefixes)) != len(prefixes):
@@ -2180,11 +2184,6 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
-        self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
-
-        self._base._dims = [len(unique), numRetFeatures]
-
         newFtNames = []
         for prefix in prefixes:
             # if only one feature is expanded we will use the unique values
@@ -2205,11 +2204,17 @@ class Points(ABC):
         if self._base.features._namesCreated():
             origFts = self._base.features.getNames()
             keptFts = [origFts[i] for i in uncombinedIdx]
-            fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
-            self._base.features.setNames(fNames, useLog=False)
         else:
-            for i, name in enumerate(newFtNames):
-                self._base.features.setNames( name, oldIdentifiers=namesIdx + i, useLog=False)
+            keptFts = [None] * len(uncombinedIdx)
+        fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
+        self._base.features._validateNewNames(fNames)
+
+        self._combineByExpandingFeatures_implementation(
+            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
+
+        self._base._dims = [len(unique), numRetFeatures]
+
+        self._base.features.setNames(fNames, useLog=False)
         if self._base.points._namesCreated():
             self.setNames(pNames, useLog=False)
 
-- 
2.43.0


From 0e5c995e5075f3f83888f2dfb303694511481fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 51/86] fix: elementwise outputs of booleans and preserved
 zeros are numeric

---
 nimble/core/data/_dataHelpers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index e34bddf..80a2896 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1195,11 +1195,9 @@ def calculateVectorized(function, arr):
         return ret
     if all(issubclass(t, boolTypes) for t in types):
         return ret.astype(np.bool_)
-    if any(issubclass(t, boolTypes) for t in types):
-        return ret
-    if all(issubclass(t, (int, np.integer)) for t in types):
+    if all(issubclass(t, (int, np.integer) + boolTypes) for t in types):
         dtype = np.int_
-    elif all(issubclass(t, (int, np.integer, float, np.floating))
+    elif all(issubclass(t, (int, np.integer, float, np.floating) + boolTypes)
              for t in types):
         dtype = np.float64
     else:
-- 
2.43.0


From 4d8c36b26c4c7c494a92add3f7962954b5c5ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 52/86] fix: names that were given are kept when none are
 detected

---
 nimble/core/_createHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 34b055b..70c227e 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -175,8 +175,9 @@ def autoDetectNamesFromRaw(pointNames, featureNames, firstValues,
     """
     Determine if first row or column contains names.
     """
-    failPN = isinstance(pointNames, bool) and pointNames
-    failFN = isinstance(featureNames, bool) and featureNames
+    # nothing is detected, names that were given remain
+    failPN = False if isinstance(pointNames, str) else pointNames
+    failFN = False if isinstance(featureNames, str) else featureNames
     if isEmptyRaw(firstValues):
         return (failPN, failFN)
     if isEmptyRaw(secondValues):
-- 
2.43.0


From 90de7d41489c833ee6062a9cccda373ad926db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 53/86] fix: replaceMissingWith is not rounded, shortened or
 made a string

---
 nimble/core/_createHelpers.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 70c227e..33e1e55 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -972,6 +972,17 @@ def elementTypeConvert(data, convertToType):
         msg += f"'{convertToType}'. {repr(error)}"
         raise InvalidArgumentValue(msg) from error
 
+def _representable(value, dtype):
+    """
+    Determine if an array of this dtype can hold exactly this value.
+    """
+    if dtype.kind in 'SU':
+        return (isinstance(value, str)
+                and np.can_cast(np.array(value).dtype, dtype))
+    with np.errstate(invalid='ignore', over='ignore'):
+        converted = np.array(value).astype(dtype)[()]
+    return converted == value or (converted != converted and value != value)
+
 def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
     """
     Convert any values in rawData found in treatAsMissing with
@@ -1005,10 +1016,14 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
             if data.dtype == bool and not isinstance(replaceMissingWith, bool):
                 # numpy will replace with bool(replaceWith) instead
                 raise ValueError('replaceWith is not a bool type')
+            if (data.dtype.kind in 'iufSU'
+                    and not _representable(replaceMissingWith, data.dtype)):
+                # numpy could round or shorten the value or make it a string
+                raise ValueError('replaceWith is not of this type')
             data[replaceLocs] = replaceMissingWith
         except ValueError:
             dtype = type(replaceMissingWith)
-            if not allowedNumpyDType(dtype):
+            if data.dtype.kind in 'SU' or not allowedNumpyDType(dtype):
                 dtype = np.object_
             data = data.astype(dtype)
             data[replaceLocs] = replaceMissingWith
-- 
2.43.0


From fc1351e3f3207c1bea416856a39c007590cb5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 54/86] fix: zeros that sparse sources do not store are
 replaced as missing values

---
 nimble/core/_createHelpers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 33e1e55..8e16b9d 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1037,6 +1037,14 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
                 rawData = rawData.copy()
                 copied = True
             rawData = replaceNumpyValues(rawData, replaceLocs)
+    elif (scipy.nimbleAccessible() and scipy.sparse.issparse(rawData)
+          and rawData.nnz < np.prod(rawData.shape)
+          and getNumpyReplaceLocations(np.zeros(1, rawData.dtype)).any()):
+        # the zeros that are not stored must also be replaced
+        array = sparseMatrixToArray(rawData)
+        array = replaceNumpyValues(array, getNumpyReplaceLocations(array))
+        rawData = scipy.sparse.coo_matrix(array)
+        copied = True
     elif scipy.nimbleAccessible() and scipy.sparse.issparse(rawData):
         replaceLocs = getNumpyReplaceLocations(rawData.data)
         if replaceLocs.any():
-- 
2.43.0


From 487d570aec3cbf247807b41642803efcca3e834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 55/86] fix: limits, names and types refer to the returned
 object when rows are features

---
 nimble/core/_createHelpers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 8e16b9d..129fc8b 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1638,11 +1638,14 @@ def initDataObject(
     initMethod = getattr(nimble.core.data, returnType)
     # if limiting data based on keepPoints or keepFeatures,
     # delay name setting because names may be a subset
-    if keepPoints == 'all':
+    limitRows, limitColumns = limitPoints, limitFeatures
+    if not rowsArePoints:
+        limitRows, limitColumns = limitColumns, limitRows
+    if not limitRows:
         usePNames = pointNames
     else:
         usePNames = True if pointNames is True else None
-    if keepFeatures == 'all':
+    if not limitColumns:
         useFNames = featureNames
     else:
         useFNames = True if featureNames is True else None
@@ -1650,6 +1653,12 @@ def initDataObject(
     ret = initMethod(rawData, pointNames=usePNames, featureNames=useFNames,
                      name=name, paths=paths, reuseData=True, **kwargs)
 
+    # keepPoints, keepFeatures and convertToType refer to the points and
+    # features of the returned object
+    if not rowsArePoints:
+        ret.transpose(useLog=False)
+        pointNames, featureNames = featureNames, pointNames
+
     def makeCmp(keepList, outerObj, axis):
         if axis == 'point':
             def indexGetter(x):
@@ -1742,10 +1751,7 @@ def initDataObject(
             convertToType = convertToType[0]
 
     if convertToType is not None:
-        ret._data = elementTypeConvert(ret._data, convertToType)        
-        
-    if not rowsArePoints:
-        ret.transpose(useLog=False)
+        ret._data = elementTypeConvert(ret._data, convertToType)
 
     return ret
 
-- 
2.43.0


From 03e45d97f50b886ac181461006c903323d0aedb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 56/86] fix: the csv separator is never a character of a single
 value nor set on csv.excel

---
 nimble/core/_createHelpers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 129fc8b..9bc8ebc 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2567,15 +2567,22 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     _ = _advancePastComments(ioStream)
     if inputSeparator == 'automatic':
         # detect the delimiter from the first line of data
-        inputSeparator = csv.Sniffer().sniff(ioStream.readline()).delimiter
+        try:
+            inputSeparator = csv.Sniffer().sniff(ioStream.readline()).delimiter
+        except csv.Error:
+            inputSeparator = ','
+        # characters of the only value in the line do not separate anything
+        if inputSeparator.isalnum() or inputSeparator in '\n"\'.+-_#()%$':
+            inputSeparator = ','
     elif len(inputSeparator) > 1:
         msg = "inputSeparator must be a single character"
         raise InvalidArgumentValue(msg)
     if inputSeparator == '\t':
         dialect = csv.excel_tab
     else:
-        dialect = csv.excel
-        dialect.delimiter = inputSeparator
+        # the delimiter of the shared csv.excel must not be changed
+        class dialect(csv.excel):
+            delimiter = inputSeparator
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From 7b6c51f2e380453555580c50431d989e4f805244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 57/86] fix: unnamed features are not the same feature in
 keepFeatures

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 9bc8ebc..742de4a 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2678,7 +2678,7 @@ def _limitToKeptFeatures(keepFeatures, retFNames):
         # index values
         elif 0 <= ftID < len(retFNames):
             name = retFNames[ftID]
-            if name in keepNames:
+            if ftID in keepIndices:
                 _raiseKeepIndexNameConflict('feature', ftID, name)
             keepIndices.append(ftID)
             keepNames.append(name)
-- 
2.43.0


From 5a90f611bb8bbc3b3caba8c6e7f33c5686615cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 58/86] fix: csv columns are numeric if all values not missing
 are numbers, names stay in their place

---
 nimble/core/_createHelpers.py | 165 ++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 78 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 742de4a..3b44733 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2288,10 +2288,19 @@ def createDataFromFile(
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
-            emptyIsMissing = '' in treatAsMissing
-            loaded = _loadcsvUsingPython(
-                toLoad, pointNames, featureNames, ignoreNonNumericalFeatures,
-                keepPoints, keepFeatures, inputSeparator, emptyIsMissing)
+            missing = _missingStrings(treatAsMissing, replaceMissingWith)
+            if rowsArePoints:
+                loaded = _loadcsvUsingPython(
+                    toLoad, pointNames, featureNames,
+                    ignoreNonNumericalFeatures, keepPoints, keepFeatures,
+                    inputSeparator, missing)
+            else:
+                # the names and limits of the rows are those of the features
+                retData, retFNames, retPNames = _loadcsvUsingPython(
+                    toLoad, featureNames, pointNames,
+                    ignoreNonNumericalFeatures, keepFeatures, keepPoints,
+                    inputSeparator, missing)
+                loaded = retData, retPNames, retFNames
             selectSuccess = True
         elif extension == 'mtx':
             loaded = _loadmtxForAuto(toLoad, pointNames, featureNames,
@@ -2405,56 +2414,67 @@ def _intFloatBoolOrString(inString):
 
 typeHierarchy = {bool: 0, int: 1, float: 2, str: 3}
 
+def _missingStrings(treatAsMissing, replaceMissingWith):
+    """
+    The strings in a file that will be replaced as missing values.
+
+    Missing values of numeric columns are loaded as nan so, unless that is
+    what will be in the data, nan must be replaced as well.
+    """
+    if treatAsMissing is None:
+        return set()
+    missing = {val for val in treatAsMissing if isinstance(val, str)}
+    nans = [isinstance(val, float) and val != val
+            for val in [replaceMissingWith, *treatAsMissing]]
+    return missing if any(nans) else missing.intersection([''])
+
+
 def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
-                        allEmptyFeatures):
+                        allMissingFeatures, missing):
     """
     Track the possible types of values in each column.
 
     Store the most complex type for values in each column according to
     the typeHierarchy.  Boolean columns must be exclusively boolean
-    values (ignoring None), otherwise the potential boolean values will
-    be assumed to be strings instead. Once a column has been determined
-    to have a str type, it is removed from convertCols because it will
-    only store columns that require conversion and the columns index is
-    added to nonNumericFeatures.
-    """
-    delKeys = []
-    if convertCols:
-        for idx, currType in convertCols.items():
-            colVal = _intFloatBoolOrString(row[idx])
-            colType = type(colVal)
-            if colVal is not None and colType != currType:
-                if typeHierarchy[colType] > typeHierarchy[currType]:
-                    if currType is bool or colType is str:
-                        delKeys.append(idx)
-                    else:
-                        convertCols[idx] = colType
-                elif colType is bool:
-                    delKeys.append(idx)
-
-    if allEmptyFeatures:
-        for idx in allEmptyFeatures:
-            if row[idx] != '':
-                delKeys.append(idx)
-
-    if delKeys:
-        for key in delKeys:
-            if key in convertCols:
-                del convertCols[key]
-                nonNumericFeatures.add(key)
+    values (ignoring missing values), otherwise the potential boolean
+    values will be assumed to be strings instead. Once a column has been
+    determined to have a str type, it is removed from convertCols because
+    it will only store columns that require conversion and the columns
+    index is added to nonNumericFeatures. The type of the columns in
+    allMissingFeatures is not known until they have a value that is not
+    missing.
+    """
+    for idx, val in enumerate(row):
+        if idx in nonNumericFeatures or val in missing:
+            continue
+        colVal = _intFloatBoolOrString(val)
+        # an empty string that is not missing has no effect on the type of a
+        # numeric column
+        colType = str if colVal is None else type(colVal)
+        if idx in allMissingFeatures:
+            allMissingFeatures.remove(idx)
+            if colType is str:
+                nonNumericFeatures.add(idx)
             else:
-                allEmptyFeatures.remove(key)
+                convertCols[idx] = colType
+        elif colVal is not None and colType != convertCols[idx]:
+            currType = convertCols[idx]
+            if bool in (currType, colType) or colType is str:
+                del convertCols[idx]
+                nonNumericFeatures.add(idx)
+            elif typeHierarchy[colType] > typeHierarchy[currType]:
+                convertCols[idx] = colType
 
-def _colTypeConversion(row, convertCols, containsMissing):
+def _colTypeConversion(row, convertCols, containsMissing, missing):
     """
     Converts values in each row that are in numeric/boolean columns.
 
     Since convertCols does not contain non-numeric columns, any empty
-    string is considered to be a missing value.
+    string is considered to be a missing value, as are the given strings.
     """
     for idx, cType in convertCols.items():
         val = row[idx]
-        if val == '':
+        if val == '' or val in missing:
             row[idx] = np.nan
             containsMissing.add(idx)
         elif cType is bool and val == 'False':
@@ -2500,11 +2520,13 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
         firstDataRow = None
         secondDataRow = None
 
+    autoPtNames = pointNames == 'automatic'
     pointNames, featureNames = autoDetectNamesFromRaw(
         pointNames, featureNames, firstDataRow, secondDataRow)
 
     # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and featureNames
+    trackPoints = (possiblePtNames and autoPtNames and pointNames is False
+                   and featureNames is True)
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
@@ -2835,7 +2857,7 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
 
 def _loadcsvUsingPython(ioStream, pointNames, featureNames,
                         ignoreNonNumericalFeatures, keepPoints, keepFeatures,
-                        inputSeparator, emptyIsMissing):
+                        inputSeparator, missing):
     """
     Loads a csv file using a reader from python's csv module.
 
@@ -2868,6 +2890,8 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         only). If there is point or feature selection occurring, then
         only those values within selected points and features are
         considered when determining whether to apply this operation.
+    missing : set
+        The strings that are missing values.
     keepPoints : 'all', list
         The value 'all' indicates that all possible points found in the
         file will be included. Alternatively, may be a list containing
@@ -2898,14 +2922,17 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     # Advance the file past any beginning of file comments, record
     # how many are skipped
     skippedLines = _advancePastComments(ioStream)
-    # remake the file iterator to ignore empty lines
-    filtered = filter(lambda row: row[0] != '\n', ioStream)
-    # send that line iterator to the csv reader
-    lineReader = csv.reader(filtered, dialect)
+    # ignore the empty lines, those within a quoted value are part of it
+    lineReader = filter(None, csv.reader(ioStream, dialect))
 
     firstRowLength = None
     if featureNames is True:
         retFNames = [v if v else None for v in next(lineReader)]
+        if trackPoints:
+            # the first column can only be names if its values are unique
+            lineReader = list(lineReader)
+            possiblePtNames = [row[0] for row in lineReader]
+            trackPoints = len(set(possiblePtNames)) == len(possiblePtNames)
         if pointNames is True or trackPoints:
             retFNames = retFNames[1:]
         firstRowLength = len(retFNames)
@@ -2954,34 +2981,22 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
     convertCols = None
     nonNumericFeatures = set()
+    # features with only missing values, of any kind or only '', so far
+    allMissingFeatures = set()
     allEmptyFeatures = set()
-    possiblePtNames = set()
     # lineReader is now at the first line of data
     for i, row in enumerate(lineReader):
         if pointNames is True or trackPoints:
-            ptName = row[0]
+            ptName = row[0] if row[0] else None
             row = row[1:]
         elif pointNames and len(pointNames) > len(keepPoints):
             ptName = pointNames[i]
         else:
             ptName = None
-        if trackPoints:
-            if ptName in possiblePtNames:
-                # duplicate value, need to add possible names back in as data
-                for idx, name in enumerate(extractedPointNames):
-                    if retData[idx] is not None:
-                        retData[idx].insert(0, name)
-                row.insert(0, ptName)
-                retFNames.insert(0, None)
-                firstRowLength += 1
-                trackPoints = False
-                pointNames = False
-            else:
-                possiblePtNames.add(ptName)
         if not keepFeaturesValidated:
             if any(val >= len(row) for val in keepFeatures):
                 for val in keepFeatures:
-                    if val > len(row):
+                    if val >= len(row):
                         msg = "The index " + str(val) + " is outside the "
                         msg += "range of possible indices, 0 to "
                         msg += str(len(row) - 1)
@@ -3016,17 +3031,13 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
             if convertCols is None: # first row
                 convertCols = {}
-                for idx, val in enumerate(row):
-                    colType = type(_intFloatBoolOrString(val))
-                    if colType not in (str, type(None)):
-                        convertCols[idx] = colType
-                    else:
-                        nonNumericFeatures.add(idx)
-                        if val == '':
-                            allEmptyFeatures.add(idx)
-            else: # continue to track column types in subsequent rows
-                _csvColTypeTracking(row, convertCols, nonNumericFeatures,
-                                    allEmptyFeatures)
+                allMissingFeatures.update(range(len(row)))
+                if '' in missing:
+                    allEmptyFeatures.update(range(len(row)))
+            _csvColTypeTracking(row, convertCols, nonNumericFeatures,
+                                allMissingFeatures, missing)
+            allEmptyFeatures = {idx for idx in allEmptyFeatures
+                                if row[idx] == ''}
 
             if keepPoints == 'all':
                 retData.append(row)
@@ -3047,10 +3058,8 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
         totalPoints = i + 1
 
-    if allEmptyFeatures and emptyIsMissing:
-        for idx in allEmptyFeatures:
-            convertCols[idx] = float
-            nonNumericFeatures.remove(idx)
+    for idx in allMissingFeatures:
+        convertCols[idx] = float
     if trackPoints:
         pointNames = trackPoints
     if (keepPoints != 'all' and pointNames
@@ -3069,7 +3078,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
     # remove last feature if all values are '' (all rows ended with delimiter),
     # '' is missing value, and no feature name is provided
-    lastFtRemovable = (not limitFeatures and emptyIsMissing
+    lastFtRemovable = (not limitFeatures and '' in missing
                        and firstRowLength - 1 in allEmptyFeatures)
     noLastFtName = (not retFNames or len(retFNames) == firstRowLength - 1
                     or (featureNames is True and retFNames[-1] is None))
@@ -3094,7 +3103,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
             expectedLength -= len(nonNumericFeatures)
 
         for row in retData:
-            _colTypeConversion(row, convertCols, containsMissing)
+            _colTypeConversion(row, convertCols, containsMissing, missing)
         # upcast features with missing data to float
         for idx in containsMissing:
             convertCols[idx] = float
-- 
2.43.0


From 9eeed2d1d6e488c467418503d6c2895b8564617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 59/86] fix: csv values and names with quotes, line ends or
 without name are written to be read

---
 nimble/core/data/_dataHelpers.py | 11 ++++++++---
 nimble/core/data/base.py         |  4 ++--
 nimble/core/data/dataframe.py    | 12 ++++--------
 nimble/core/data/list.py         |  4 ++--
 nimble/core/data/matrix.py       |  4 ++--
 nimble/core/data/sparse.py       |  7 ++++---
 6 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 80a2896..430bf68 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -776,12 +776,17 @@ def csvCommaFormat(name):
     """
     Prevent the name from being interpreted as two different csv values.
     """
-    if isinstance(name, str) and ',' in name:
-        if '"' in name:
-            name = re.sub(r'"', '""', name)
+    if isinstance(name, str) and any(c in name for c in ',"\r\n#'):
+        name = re.sub(r'"', '""', name)
         name = f'"{name}"'
     return name
 
+def csvNames(names):
+    """
+    Names formatted for a csv file, those that do not exist are left empty.
+    """
+    return [csvCommaFormat('' if name is None else name) for name in names]
+
 def limitedTo2D(method):
     """
     Wrapper for operations only allowed in two-dimensions.
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 7b443ac..d9b8bf7 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -54,7 +54,7 @@ from ._dataHelpers import calculateVectorized
 from ._dataHelpers import constructIndicesList
 from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvNames
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
 from ._dataHelpers import ElementIterator1D
 from ._dataHelpers import limitedTo2D
@@ -1907,7 +1907,7 @@ class Base(ABC):
 
 
     def _writeFeatureNamesToCSV(self, openFile, includePointNames):
-        fnames = list(map(csvCommaFormat, self.features.getNames()))
+        fnames = csvNames(self.features.getNames())
         if includePointNames:
             fnames.insert(0, 'pointNames')
         fnamesLine = ','.join(fnames)
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 2ae7856..e3f8e2e 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -163,20 +163,16 @@ class DataFrame(Base):
         """
         with open(outPath, 'w', encoding='utf-8') as outFile:
             if includeFeatureNames:
-                self._data.columns = self.features.getNames()
-                if includePointNames:
-                    outFile.write('pointNames')
+                self._writeFeatureNamesToCSV(outFile, includePointNames)
 
-            if includePointNames:
-                self._data.index = self.points.getNames()
+        if includePointNames:
+            self._data.index = self.points.getNames()
 
         self._data.to_csv(outPath, mode='a', index=includePointNames,
-                          header=includeFeatureNames)
+                          header=False)
 
         if includePointNames:
             self._data.index = pd.RangeIndex(len(self._data.index))
-        if includeFeatureNames:
-            self._data.columns = pd.RangeIndex(len(self._data.columns))
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 7939620..aa7aafb 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -35,7 +35,7 @@ from .views import BaseView
 from .listAxis import ListPoints, ListPointsView
 from .listAxis import ListFeatures, ListFeaturesView
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvCommaFormat, csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 
@@ -215,7 +215,7 @@ class List(Base):
             for point in self.points:
                 first = True
                 if includePointNames:
-                    currPname = csvCommaFormat(point.points.getName(0))
+                    currPname = csvNames(point.points.getNames())[0]
                     outFile.write(currPname)
                     first = False
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 2fda471..6212fb8 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -38,7 +38,7 @@ from .matrixAxis import MatrixFeatures, MatrixFeaturesView
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import castToHold
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvCommaFormat, csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -148,7 +148,7 @@ class Matrix(Base):
             else:
                 viewData = self._data.view()
             if includePointNames:
-                pnames = list(map(csvCommaFormat, self.points.getNames()))
+                pnames = csvNames(self.points.getNames())
                 pnames = numpy2DArray(pnames).transpose()
                 viewData = np.concatenate((pnames, viewData), 1)
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 1b554d1..dab3f5c 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -41,7 +41,7 @@ from .stretch import StretchSparse
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import castToHold
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvCommaFormat, csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -298,10 +298,11 @@ class Sparse(Base):
             pmax = len(self._data.data)
             # write zero to file as same type as this data
             zero = self._data.data.dtype.type(0)
+            if includePointNames:
+                pnames = csvNames(self.points.getNames())
             for i in range(len(self.points)):
                 if includePointNames:
-                    currPname = csvCommaFormat(self.points.getName(i))
-                    outFile.write(currPname)
+                    outFile.write(pnames[i])
                     outFile.write(',')
                 for j in range(len(self.features)):
                     if (pointer < pmax and i == self._data.row[pointer]
-- 
2.43.0


From 50c44fd978b24f3f446b1cd971fe5f01fcda189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 60/86] fix: points.calculate names the vectors it calculated,
 in their order

---
 nimble/core/data/axis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 020d298..4a47e6a 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -584,13 +584,11 @@ class Axis(ABC):
             axisNameSetter = ret.features.setNames
             offAxisNameSetter = ret.points.setNames
 
-        if len(limitTo) < len(self) and self._namesCreated():
+        if self._namesCreated():
             names = []
             for index in limitTo:
                 names.append(self._getName(index))
             axisNameSetter(names, useLog=False)
-        elif self._namesCreated():
-            axisNameSetter(self._getNames(), useLog=False)
         if offAxisNames is not None:
             offAxisNameSetter(offAxisNames, useLog=False)
 
-- 
2.43.0


From fd8fe8d9ea126a9f2949d7d3da05411f945a892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 61/86] fix: an empty selection of points or features selects
 none

---
 nimble/core/data/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d9b8bf7..3dfef37 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1099,9 +1099,9 @@ class Base(ABC):
                 vectorized, points, features, preserveZeros)
 
         else:
-            if not points:
+            if points is None:
                 points = list(range(len(self.points)))
-            if not features:
+            if features is None:
                 features = list(range(len(self.features)))
             # if unable to vectorize, iterate over each point
             values = np.empty([len(points), len(features)])
@@ -1130,12 +1130,12 @@ class Base(ABC):
 
     def _calculate_genericVectorized(self, function, points, features):
         # need points/features as arrays for indexing
-        if points:
-            points = np.array(points)
+        if points is not None:
+            points = np.array(points, dtype=int)
         else:
             points = np.array(range(len(self.points)))
-        if features:
-            features = np.array(features)
+        if features is not None:
+            features = np.array(features, dtype=int)
         else:
             features = np.array(range(len(self.features)))
         toCalculate = self.copy(to='numpyarray')
-- 
2.43.0


From a256fd55bcebdd1ea3f4cf587d21a337968e9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 62/86] fix: calculateOnElements never takes its output for
 names

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 3dfef37..4359d15 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1120,7 +1120,8 @@ class Base(ABC):
                     fIdx += 1
                 pIdx += 1
 
-        ret = nimble.data(values, returnType=optType, treatAsMissing=[None],
+        ret = nimble.data(values, pointNames=False, featureNames=False,
+                          returnType=optType, treatAsMissing=[None],
                           useLog=False)
 
         ret._absPath = self.absolutePath
-- 
2.43.0


From a56aaf3651b430786ccdca0033ae82d92fe02a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 63/86] fix: the result of an operator has dimensions of its
 own

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 4359d15..803ab5a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5458,7 +5458,7 @@ class Base(ABC):
             obj._diagnoseFailureAndRaiseException(opName, other, error)
             raise # backup; should be diagnosed and raised above
 
-        ret._dims = self._dims
+        ret._dims = self._dims.copy()
         if opName.startswith('__i'):
             self._referenceFrom(ret, paths=(self._absPath, self._relPath))
             ret = self
-- 
2.43.0


From f55b806d9d6a0e6fd6c145a4b16185142608c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 64/86] fix: data frames with labels of their own are located
 by position

---
 nimble/core/data/dataframe.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e3f8e2e..55dc03d 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -77,6 +77,15 @@ class DataFrame(Base):
                 self._data = data.copy()
         else:
             self._data = pd.DataFrame(data, copy=True)
+        # points and features are always located by position, never by the
+        # labels that the provided data may have
+        pLabels = pd.RangeIndex(self._data.shape[0])
+        fLabels = pd.RangeIndex(self._data.shape[1])
+        if not (self._data.index.equals(pLabels)
+                and self._data.columns.equals(fLabels)):
+            self._data = self._data.copy(deep=False)
+            self._data.index = pLabels
+            self._data.columns = fLabels
 
         shape = kwds.get('shape', None)
         if shape is None:
-- 
2.43.0


From 3ff45c756bfb1717a0f2e7015ec42085240959d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 65/86] fix: object arrays of numbers are numeric in Sparse

---
 nimble/core/data/sparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index dab3f5c..55788c6 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -93,6 +93,11 @@ class Sparse(Base):
                 if data.dtype not in [float, np.floating, object]:
                     data = data.astype(float)
                 data[data == None] = np.nan
+            # sparse matrices of numbers need a numeric type
+            if (data.dtype == np.object_ and data.size
+                    and all(isinstance(val, (numbers.Number, np.bool_))
+                            for val in data.flat)):
+                data = np.array(data.tolist())
 
             self._data = scipy.sparse.coo_matrix(data)
 
-- 
2.43.0


From bf2bae0612df107e290f635a1396df1187bc45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 66/86] fix: boolean outputs transform Sparse data

---
 nimble/core/data/sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 55788c6..d418e23 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -202,7 +202,8 @@ class Sparse(Base):
 
             newData = modifyNumpyArrayValue(newData, index, currRet)
 
-        if all(issubclass(type(d), numbers.Number) for d in newData):
+        if all(issubclass(type(d), (numbers.Number, np.bool_))
+               for d in newData):
             newData = np.array(list(newData))
         self._data.data = newData
         self._data.eliminate_zeros()
-- 
2.43.0


From c31eae007bebe94d63f55e3ba0089a7fa78c819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 67/86] fix: None outputs become nan in Sparse data

---
 nimble/core/data/sparse.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index d418e23..3f182f8 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -211,6 +211,14 @@ class Sparse(Base):
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
+        def noneToNan(values):
+            # sparse arrays cannot hold None, it is the missing value nan
+            if (any(val is None for val in values.flat)
+                    and all(val is None or isinstance(val, numbers.Number)
+                            for val in values.flat)):
+                values = values.astype(np.float64)
+            return values
+
         if not isinstance(self, nimble.core.data.BaseView):
             data = self._data.data
             row = self._data.row
@@ -221,14 +229,15 @@ class Sparse(Base):
         # all data
         if (preserveZeros and points is None and features is None
                 and len(data)):
-            data = calculateVectorized(function, data)
+            data = noneToNan(calculateVectorized(function, data))
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
             # our init methods will filter them out from the data attribute
             return values
         # zeros not preserved, a subset of the data, or no stored data
-        return self._calculate_genericVectorized(function, points, features)
+        return noneToNan(
+            self._calculate_genericVectorized(function, points, features))
 
     def _countUnique_implementation(self, points, features):
         uniqueCount = {}
-- 
2.43.0


From 6a2b37e90bf61f1c6da71d70ce8fc769b9bca589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:17 +0000
Subject: [PATCH 68/86] fix: the convertToType argument is not emptied

---
 nimble/core/_createHelpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 3b44733..9d7d62c 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1356,6 +1356,7 @@ def convertToTypeDictToList(convertToType, featuresObj, featureNames):
     the index indicates the type of that feature. None indicates no
     conversion.
     """
+    convertToType = convertToType.copy()
     retFNames = featuresObj._getNamesNoGeneration()
     convertList = [None] * len(featuresObj)
     # if no feature names, we will use the list of None values as the
-- 
2.43.0


From 8363239915049a1693f847df66f4cf3f42450a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:17 +0000
Subject: [PATCH 69/86] fix: positions of names outside the range are reported

---
 nimble/core/_createHelpers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 9d7d62c..6c4e788 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2563,6 +2563,13 @@ def _namesDictToList(names, kind, paramName):
     ret = [None] * len(names)
     for key in names:
         position = names[key]
+        if position < 0 or position >= len(ret):
+            msg = "The dict valued parameter " + paramName + " contained "
+            msg += "a key with a value (" + str(position) + "), yet the only "
+            msg += "acceptable possible position values would be in the "
+            msg += "range 0 to " + str(len(ret))
+            raise InvalidArgumentValue(msg)
+
         if ret[position] is not None:
             msg = "The dict valued parameter " + paramName + " contained "
             msg += "two keys with the same value. Interpreted as names, "
@@ -2570,13 +2577,6 @@ def _namesDictToList(names, kind, paramName):
             msg += "which is disallowed."
             raise InvalidArgumentValue(msg)
 
-        if position < 0 or position >= len(ret):
-            msg = "The dict valued parameter " + paramName + " contained "
-            msg += "a key with a value (" + position + "), yet the only "
-            msg += "acceptable possible position values would be in the "
-            msg += "range 0 to " + str(len(ret))
-            raise InvalidArgumentValue(msg)
-
         ret[position] = key
 
     return ret
-- 
2.43.0


From db290af9aa1f3d7a155d8e0465b78f2a478ff28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 70/86] fix: a single printed index is the first of the range,
 not 0

---
 nimble/core/data/_dataHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 430bf68..f6b4083 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -171,7 +171,7 @@ def indicesSplit(numAllow, iRange):
         numAllow -= 1
 
     if numAllow == 1 or total == 1:
-        return ([0], [])
+        return ([iRange.start], [])
 
     forward = int(math.ceil(numAllow / 2.0))
     backward = int(math.floor(numAllow / 2.0))
-- 
2.43.0


From 68b698aae162217b682388c77fbd51a04e690dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 71/86] fix: tables of empty and one-point ranges can be
 printed

---
 nimble/core/data/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 803ab5a..079816d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5719,7 +5719,7 @@ class Base(ABC):
         and process them for length. Returns a list of prepared names
         and an int bounding the length of each name representation.
         """
-        if len(self.points) == 0:
+        if len(pRange) == 0:
             return [], 0
 
         names = []
@@ -5783,7 +5783,7 @@ class Base(ABC):
         third returned value is a list of feature names matching the columns
         represented in the first return value.
         """
-        if maxHeight < 2 and maxHeight != len(self.points):
+        if maxHeight < 2 and maxHeight != numPts:
             msg = "If the number of points in this object is two or greater, "
             msg += "then we require that the input argument maxHeight also "
             msg += "be greater than or equal to two."
-- 
2.43.0


From 361696fb045a426c6fed0ace1eb75027b643a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 72/86] fix: print ranges beyond the object are clipped and
 stepped ones refused

---
 nimble/core/data/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 079816d..e720bcf 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2696,14 +2696,12 @@ class Base(ABC):
         if target.step != 1:
             msg = "range inputs for printing must have a step of 1, not "
             msg += f"{target.step}"
+            raise InvalidArgumentValue(msg)
 
-        desired = (target.start, target.stop)
-        if desired[0] < 0:
-            desired[0] = 0
-        if desired[1] > axisLength:
-            desired[1] = axisLength
+        start = min(max(target.start, 0), axisLength)
+        stop = min(max(target.stop, start), axisLength)
 
-        return range(desired[0], desired[1])
+        return range(start, stop)
 
     def _getNotebookTerminalSize(self, _):
         """
-- 
2.43.0


From fd83624f9a6a1871a8deb722d31ef998dd2f3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 73/86] fix: a limit on the number of printed features keeps
 both ends

---
 nimble/core/data/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e720bcf..402b194 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5795,12 +5795,14 @@ class Base(ABC):
         # range or an int
         if isinstance(features, range):
             numFts = len(features)
+            maxFts = numFts
             if numFts != 0:
                 fOffset = features[0]
             else:
                 fOffset = 0
         else:
-            numFts = features
+            numFts = len(self.features)
+            maxFts = min(features, numFts)
             fOffset = 0
 
         #setup a bundle of default values
@@ -5857,7 +5859,8 @@ class Base(ABC):
         else:
             fnames = self.features.getNames()
 
-        while totalWidth < maxWidth and currIndex != endIndex:
+        while (totalWidth < maxWidth and currIndex != endIndex
+               and numAdded < maxFts):
             currTable = lTable if currIndex >= 0 else rTable
             currCol = []
 
-- 
2.43.0


From 17d9aeb5e574dda79b588d81496f8fe5c2501266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 74/86] fix: printing ends when the last column does not fit

---
 nimble/core/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 402b194..006bf8f 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5928,6 +5928,8 @@ class Base(ABC):
                     currIndex = (-1 * currIndex) - 1
                     accessIndex = fOffset + numFts + currIndex
                     lColWidths.append(currWidths)
+            else:
+                break
 
             # ignore column separator if the next column is the last
             if numAdded == (numFts - 1):
-- 
2.43.0


From 1fd9ea4a89d91b09fd399aa3e65bbcb8c750da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 75/86] fix: show honours lineWidthLimit, objects without
 points or features can be printed

---
 nimble/core/data/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 006bf8f..9f3ffa4 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2734,10 +2734,10 @@ class Base(ABC):
         else:
             terminalSize = shutil.get_terminal_size()
 
-        if features is None and lineWidthLimit == 'automatic':
-            lineWidthLimit = max(79, terminalSize[0] - 1)
-        else:
+        if features is not None:
             lineWidthLimit = None
+        elif lineWidthLimit == 'automatic':
+            lineWidthLimit = max(79, terminalSize[0] - 1)
 
         if lineLimit == 'automatic':
             lineLimit = max(30, terminalSize[1] - 1)
@@ -2755,8 +2755,8 @@ class Base(ABC):
             if isinstance(lineWidthLimit, int):
                 # If we just have point indices can know how much space they'll take up
                 if not self.points.names or len(self.points.names) == None:
-                    pNamesEst = math.ceil(math.log(len(self.points), 10))
-                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // len(self.features)) + 7
+                    pNamesEst = math.ceil(math.log(max(len(self.points), 1), 10))
+                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // max(len(self.features), 1)) + 7
                 # For assigned names, we just let it take up another column's worth
                 else:
                     columnWidthLimit = (lineWidthLimit // (len(self.features)+1)) + 7
-- 
2.43.0


From 9b7908b8f3583d44f1eb95bece7a93d354d2adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 76/86] fix: labels objects with unnamed features can be split

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9f3ffa4..62b75c5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1690,7 +1690,8 @@ class Base(ABC):
                     labelNames = labels.features.getNames()
                     # filter names for ones that overlap with self
                     namesInBoth = [name for name in labelNames
-                                   if self.features.hasName(name)]
+                                   if name is not None
+                                   and self.features.hasName(name)]
                     if namesInBoth:
                         trainX.features.delete(namesInBoth, useLog=False)
                         testX.features.delete(namesInBoth, useLog=False)
-- 
2.43.0


From ac576b5ce9cba3c0b0fce57196506cc04e0f4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 77/86] fix: scores of three labels are available for data with
 one feature

---
 nimble/core/interfaces/_interface_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/_interface_helpers.py b/nimble/core/interfaces/_interface_helpers.py
index 91ea0e7..16a7bbe 100644
--- a/nimble/core/interfaces/_interface_helpers.py
+++ b/nimble/core/interfaces/_interface_helpers.py
@@ -164,8 +164,11 @@ def checkClassificationStrategy(interface, learnerName, trainArgs, scoreArgs,
     # labels as 0, 1, 2 ,3, 0, 1, 2, 3, ... so testing object is guaranteed to
     # have one of each label
     numPointsPerCluster = max(1, numPts // 4) * 2
+    # four clusters need at least two features
     dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
-                                              numFts, addLabelNoise=False)
+                                              max(2, numFts),
+                                              addLabelNoise=False)
+    dataX = dataX.features.copy(range(numFts), useLog=False)
     reorder = []
     for i in range(numPointsPerCluster):
         for j in range(4):
-- 
2.43.0


From 4e9b7e7efbc0796c2baeb03d8ab418aba8be5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 78/86] fix: scikit-learn learners working in place do not
 change Matrix objects

---
 nimble/core/interfaces/scikit_learn_interface.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/nimble/core/interfaces/scikit_learn_interface.py b/nimble/core/interfaces/scikit_learn_interface.py
index f8500f3..60488a5 100644
--- a/nimble/core/interfaces/scikit_learn_interface.py
+++ b/nimble/core/interfaces/scikit_learn_interface.py
@@ -500,14 +500,11 @@ To install scikit-learn
     def _inputTransformation(self, learnerName, trainX, trainY, testX,
                              randomSeed, arguments, customDict):
 
-        mustCopyTrainX = ['PLSRegression']
+        # learners may modify their inputs (copy=False), so they get copies
         if trainX is not None:
             customDict['match'] = trainX.getTypeString()
             if trainX.shape != trainX.dimensions:
                 trainX = trainX.copy(to='numpy array')
-            elif (trainX.getTypeString() == 'Matrix'
-                    and learnerName not in mustCopyTrainX):
-                trainX = trainX._data
             elif trainX.getTypeString() == 'Sparse':
                 trainX = trainX.copy()._data
             else:
@@ -522,12 +519,8 @@ To install scikit-learn
             trainY = dtypeConvert(trainY)
 
         if testX is not None:
-            mustCopyTestX = ['StandardScaler']
             if testX.shape != testX.dimensions:
                 testX = testX.copy(to='numpy array')
-            elif (testX.getTypeString() == 'Matrix'
-                    and learnerName not in mustCopyTestX):
-                testX = testX._data
             elif testX.getTypeString() == 'Sparse':
                 testX = testX.copy()._data
             else:
-- 
2.43.0


From 7a3ba6b651f431e10600232e68a9b19feb505691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 79/86] fix: one-vs-one training with labels that are not the
 last feature

---
 nimble/core/interfaces/universal_interface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 66ad6fd..788d380 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -244,10 +244,12 @@ class UniversalInterface(metaclass=abc.ABCMeta):
             if multiClassStrategy == 'OneVsOne':
                 # and trialResult != 'OneVsOne': ?
                 # want data and labels together in one object for this method
+                # with the labels last, where those of each pair return to below
                 trainX = trainX.copy()
-                if isinstance(trainY, nimble.core.data.Base):
-                    trainX.features.append(trainY, useLog=False)
-                    trainY = len(trainX.features) - 1
+                if not isinstance(trainY, nimble.core.data.Base):
+                    trainY = trainX.features.extract(trainY, useLog=False)
+                trainX.features.append(trainY, useLog=False)
+                trainY = len(trainX.features) - 1
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-- 
2.43.0


From 171683d6a6ead161b68532b811cc5cbdb7206032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:36 +0000
Subject: [PATCH 80/86] fix: a merge whose sorting is refused leaves the object
 as it was, and index 0 is sorted on too

---
 nimble/core/data/base.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 62b75c5..a6181c0 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4590,17 +4590,21 @@ class Base(ABC):
             msg += "'intersection'"
             raise InvalidArgumentValue(msg)
 
+        # points are sorted on onFeature, which can be refused after merging
+        toSort = point == 'union' and onFeature is not None
+        merged = self.copy() if toSort else self
         if point == 'strict' or feature == 'strict':
-            self._genericStrictMerge_implementation(other, point, feature,
-                                                    onFeature, force)
+            merged._genericStrictMerge_implementation(other, point, feature,
+                                                      onFeature, force)
         else:
-            self._genericMergeFrontend(other, point, feature, onFeature)
-        
-        if point == 'union':
-            if onFeature:
-                self.points.sort(by=onFeature, useLog=False)
-        
-            
+            merged._genericMergeFrontend(other, point, feature, onFeature)
+
+        if toSort:
+            if not isinstance(onFeature, str):
+                onFeature = self.features.getName(onFeature)
+            merged.points.sort(by=onFeature, useLog=False)
+            self._referenceFrom(merged, paths=(self._absPath, self._relPath))
+
     def _genericStrictMerge_implementation(self, other, point, feature,
                                            onFeature, force):
         """
-- 
2.43.0


From d9c317791f2a4a0cce8c03cda8e0d375a416b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:36 +0000
Subject: [PATCH 81/86] fix: unflattening a DataFrame in feature order keeps
 the types of the values

---
 nimble/core/data/dataframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 55dc03d..27cd26d 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -324,7 +324,7 @@ class DataFrame(Base):
             newDtypes = tuple(max(dtypes[i::reshape[1]]) for i in jumps)
         else:
             jumps = range(0, np.prod(reshape), reshape[0])
-            newDtypes = tuple(max(dtypes[i:i+reshape[1]]) for i in jumps)
+            newDtypes = tuple(max(dtypes[i:i+reshape[0]]) for i in jumps)
         order = convertToNumpyOrder(order)
         array = self._asNumpyArray()
         values = array.reshape(reshape, order=order)
-- 
2.43.0


From b5781ddf29a516f0eac3b5f9d75bddd792229abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:19 +0000
Subject: [PATCH 82/86] fix: text that begins with the opcodes of a pickle is
 not read as one

---
 nimble/core/_createHelpers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 6c4e788..2e35f30 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1819,6 +1819,14 @@ def _isArchive(filename):
     return False
 
 
+def _isPickle(content):
+    """
+    Determine if the content can be a pickle. A pickle starts with the opcode
+    of its protocol, except for the first two protocols which have none. Every
+    pickle ends with the stop opcode.
+    """
+    return content.startswith(b'\x80') or content.endswith(b'.')
+
 def _isGZip(filename):
     if hasattr(filename, 'read'):
         saveLoc = filename.tell()
@@ -2254,6 +2262,9 @@ def createDataFromFile(
             path = None
 
     try:
+        # the opcodes of a pickle can also begin the text of another format
+        if not _isPickle(content):
+            raise FileFormatException('not a pickle file')
         ret = pickle.loads(content)
         return initDataObject(
             ret, pointNames, featureNames, returnType, name, convertToType,
-- 
2.43.0


From 9fba4f0834537888e4aef7a4efc5c0079ff92452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:19 +0000
Subject: [PATCH 83/86] fix: sorting by a point or feature places missing
 values last

---
 nimble/core/data/axis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 4a47e6a..5f9226d 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1296,7 +1296,11 @@ class Axis(ABC):
                 data = list(self._base.features[idx])
             else:
                 data = list(self._base.points[idx])
-            order.sort(key=data.__getitem__, reverse=reverse)
+            # missing values have no order, they are placed last
+            missing = [val != val for val in data]
+            order.sort(key=lambda i: (missing[i] != reverse,
+                                      0 if missing[i] else data[i]),
+                       reverse=reverse)
         self._permute(order)
 
     def _sortByFunction(self, func, reverse):
-- 
2.43.0


From 0f221d8d7dbc59c003b34984f5f606e22e96db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:19 +0000
Subject: [PATCH 84/86] fix: merging on a feature does not match missing values

---
 nimble/core/data/base.py      | 11 ++++++++---
 nimble/core/data/dataframe.py | 16 +++++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index a6181c0..4538133 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4636,7 +4636,9 @@ class Base(ABC):
         if onFeature is not None and axis == 'point':
             try:
                 feat = self[:, onFeature]
-                if len(set(feat)) != len(self.points):
+                # missing values do not identify a point
+                keys = {key for key in feat if key == key}
+                if len(keys) != len(self.points):
                     msg = "when point='strict', onFeature must contain only "
                     msg += "unique values"
                     raise InvalidArgumentValueCombination(msg)
@@ -4729,8 +4731,11 @@ class Base(ABC):
                     raise InvalidArgumentValue(msg)
                 onFeature = ftName
             try:
-                uniqueFtL = len(set(self[:, onFeature])) == len(self.points)
-                uniqueFtR = len(set(other[:, onFeature])) == len(other.points)
+                # missing values do not identify a point
+                keysL = [key for key in self[:, onFeature] if key == key]
+                keysR = [key for key in other[:, onFeature] if key == key]
+                uniqueFtL = len(set(keysL)) == len(keysL)
+                uniqueFtR = len(set(keysR)) == len(keysR)
                 if not (uniqueFtL or uniqueFtR):
                     msg = "nimble only supports joining on a feature which "
                     msg += "contains only unique values in one or both objects"
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 27cd26d..95a8173 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -379,7 +379,21 @@ class DataFrame(Base):
         else:
             onIdxL = tmpDfL.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            tmpDfL = tmpDfL.merge(tmpDfR, how=point, on=onFeature)
+            # pandas matches missing values with each other, but they do not
+            # identify a point so each is made distinct by an additional key
+            missingL = tmpDfL[onFeature].isna().to_numpy()
+            missingR = tmpDfR[onFeature].isna().to_numpy()
+            distinct = object() # cannot be a feature name
+            tmpDfL[distinct] = np.where(
+                missingL, np.arange(len(missingL)) + 1, 0)
+            tmpDfR[distinct] = np.where(
+                missingR, np.arange(len(missingR)) + len(missingL) + 1, 0)
+            if object in (tmpDfL[onFeature].dtype, tmpDfR[onFeature].dtype):
+                # pandas does not merge object with numeric features
+                tmpDfL[onFeature] = tmpDfL[onFeature].astype(object)
+                tmpDfR[onFeature] = tmpDfR[onFeature].astype(object)
+            tmpDfL = tmpDfL.merge(tmpDfR, how=point, on=[onFeature, distinct])
+            del tmpDfL[distinct], tmpDfR[distinct]
 
         # return labels to default after we've executed the merge
         tmpDfL.index = pd.RangeIndex(tmpDfL.shape[0])
-- 
2.43.0


From 6396f52af0991bdca87509b98ad6d5ce05d14056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:17 +0000
Subject: [PATCH 85/86] fix: consecutive tuning of candidates that are not
 hashable

---
 nimble/core/tune.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 4078741..5a3b481 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -824,7 +824,7 @@ class Consecutive(ArgumentSelector):
         self._bestPerformance = None
         self._bestArgs = None
         self._currArgs = None
-        self._tried = set()
+        self._tried = []
 
     def __next__(self):
         if self._currentLoop > self.loops:
@@ -872,10 +872,10 @@ class Consecutive(ArgumentSelector):
                                  if val != self._currArgs[key]])
                             self._tune[key] = iterator
         # go to next if currArgs were already tried in a previous loop
-        if tuple(self._currArgs.items()) in self._tried:
+        if self._currArgs in self._tried:
             return self.__next__()
         # save combo to avoid future loops from repeating combo
-        self._tried.add(tuple(self._currArgs.items()))
+        self._tried.append(self._currArgs.copy())
         performance = self.validator.validate(self._currArgs)
         if (self._bestPerformance is None
                 or self.validator._isBest(performance, self._bestPerformance)):
-- 
2.43.0


From ec3660320f3a5855f905521fe3d67046a4fbc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:24 +0000
Subject: [PATCH 86/86] fix: validation on holdout data trains each argument
 set on its own and with its random seed

HoldoutData retrained one learner, which keeps the values of earlier
arguments, so an argument set could be scored with values it does not have,
and the seed the validator was given was not used.
---
 nimble/core/tune.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 5a3b481..f31c007 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -604,7 +604,8 @@ class HoldoutData(HoldoutValidator):
     def _validate(self, arguments):
         if self._trainedLearner is None:
             self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments, useLog=False)
+                self.learnerName, self.X, self.Y, arguments,
+                randomSeed=self.randomSeed, useLog=False)
             self._trainedLearner = self._trainedLearnerBase
             self._lastArguments = arguments
         else:
@@ -618,10 +619,12 @@ class HoldoutData(HoldoutValidator):
             elif self._incremental:
                 self._trainedLearner.incrementalTrain(
                     self.X, self.Y, arguments, useLog=False)
-            # only retrain if arguments have changed
+            # only train again if arguments have changed. This is not a retrain
+            # because that would keep values from the earlier arguments
             if not self._incremental and arguments != self._lastArguments:
-                self._trainedLearner.retrain(self.X, self.Y, arguments,
-                                             useLog=False)
+                self._trainedLearner = nimble.train(
+                    self.learnerName, self.X, self.Y, arguments,
+                    randomSeed=self.randomSeed, useLog=False)
             self._lastArguments = arguments
 
         performance = self._trainedLearner.test(
-- 
2.43.0

