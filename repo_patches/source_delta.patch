From eec750ced61b56061d6464c945da0ecb762ec96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 01/22] fix: import segeval.compute lazily so that summarize
 can be the first name accessed

segeval.compute and segeval.util imported each other at module level, so
'from segeval import summarize' (or 'import segeval.compute') failed with an
ImportError unless another module had been imported first.
---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..4fe260b 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -30,6 +29,7 @@ class SegmentationMetricError(Exception):
 
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
+    from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
-- 
2.43.0


From 86229a1f0b512e5d3d9b11348fc4e2b8935528f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 02/22] fix: close the file that input_linear_mass_json reads

The file was never closed; on interpreters without reference counting, a
program that imports many files ran out of file descriptors.
---
 segeval/data/jsonutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..dd4d46b 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -66,6 +66,8 @@ def input_linear_mass_json(filepath):
     except Exception as exception:
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
+    finally:
+        json_file.close()
     # Check type
     if Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
-- 
2.43.0


From 9d6e2849f4160432d8a45e42e31da77c3b56b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 03/22] fix: derive the coders of a dataset from its codings

Datasets read from JSON or TSV files, or filled item by item, had an empty (or
outdated) set of coders, because only the constructor and += maintained it.
Agreement coefficients iterate over that set, so they divided by zero or
silently ignored coders of such datasets.
---
 segeval/data/__init__.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..353ff12 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -49,12 +49,16 @@ class Dataset(defaultdict):
             self.boundary_types = set(boundary_types)
         else:
             self.boundary_types = set([1])
-        # Coders
-        self.coders = set()
-        # Populate coders
-        for coder_masses in defaultdict.values(self):
-            for coder in coder_masses.keys():
-                self.coders.add(coder)
+
+    @property
+    def coders(self):
+        '''
+        The set of all coders that coded an item of this dataset.
+        '''
+        coders = set()
+        for coder_masses in self.values():
+            coders.update(coder_masses.keys())
+        return coders
 
     def __iadd__(self, other, prepend_item=None):
         '''
@@ -71,7 +75,6 @@ class Dataset(defaultdict):
                 self[item] = dict()
             # For each coder, add ttheir coding
             for coder, item_masses in codings.items():
-                self.coders.add(coder)
                 if coder not in self[item]:
                     self[item][coder] = item_masses
                 else:
@@ -92,7 +95,6 @@ class Dataset(defaultdict):
         Create a deep copy of the entire dataset object and properties.
         '''
         dataset = copy.deepcopy(self)
-        dataset.coders = copy.deepcopy(self.coders)
         dataset.properties = copy.deepcopy(self.properties)
         dataset.boundary_types = copy.deepcopy(self.boundary_types)
         dataset.boundary_format = copy.deepcopy(self.boundary_format)
-- 
2.43.0


From b989c85851ae97f25c5b4d0370c6ed0c0ff394d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 04/22] fix: keep the attributes of a dataset when it is
 pickled or copied

Dataset inherited the reduction of defaultdict, so pickling (for instance by
multiprocessing) lost its coders, properties, boundary types and boundary
format, and copy.copy() returned an empty dataset whose properties held the
items.
---
 segeval/data/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 353ff12..08596a6 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -90,6 +90,22 @@ class Dataset(defaultdict):
         dataset += other
         return dataset
 
+    def __reduce__(self):
+        '''
+        Pickle and copy all codings and attributes (a defaultdict would only
+        retain the former).
+        '''
+        return type(self), (), self.__dict__, None, iter(self.items())
+
+    def __copy__(self):
+        '''
+        Create a shallow copy of the dataset.
+        '''
+        dataset = type(self)()
+        dataset.__dict__.update(self.__dict__)
+        dataset.update(self)
+        return dataset
+
     def copy(self):
         '''
         Create a deep copy of the entire dataset object and properties.
-- 
2.43.0


From 62857a456e958f549050857234ea044d2314ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:41 +0000
Subject: [PATCH 05/22] fix: load every data file of a folder, also those of
 the same stem

Files were collected in a dict keyed by their name without extension, so of
'a.json' and 'a.jsn' (or 'a.JSON') only the one listed last was loaded.
---
 segeval/data/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 08596a6..06fc410 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -186,7 +186,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
             dirs[name] = path
         # Found a file
         else:
-            name, ext = os.path.splitext(name)
+            ext = os.path.splitext(name)[1]
             if len(ext) > 0 and ext.lower() in allowable_extensions:
                 files[name] = path
                 datafile_found = True
-- 
2.43.0


From ddf97e4349ef855a92d87abde65eb3b7992b80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 06/22] fix: give each dataset its own mapping of coders to
 segmentations

Dataset(data) kept the mappings of its argument, so adding another dataset to
one of two datasets built from the same data also changed the other one, and
the data passed in.
---
 segeval/data/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 06fc410..ebc1501 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -41,6 +41,8 @@ class Dataset(defaultdict):
         # Masses
         if item_coder_data is not None and item_coder_data is not dict:
             defaultdict.update(self, item_coder_data)
+            for item, codings in self.items():
+                self[item] = dict(codings)
         # Properties
         if properties is not None:
             self.properties.update(properties)
-- 
2.43.0


From bab6c2bd55060da83592df53b577d45c8f792f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 07/22] fix: do not change a confusion matrix when computing
 metrics of it

precision and recall indexed cells that did not exist, which added them: asking
for an unknown class changed later macro averages, and threads querying one
matrix could fail because the dict changed size. A weighted count of
Decimal(0) was also not recognized as zero and led to a division by zero.
---
 segeval/ml/__init__.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..4f82756 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -62,15 +62,14 @@ def __value_micro_macro__(fnc, arguments, classification=None,
 
 def __precision__(matrix, classification, return_parts=False):
 
-    predicted = classification
-    denominator = 0
-    for actual in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+    # Read without indexing, which would add cells to the matrix
+    predicted = matrix.get(classification, dict())
+    denominator = sum(predicted.values())
+    numerator = predicted.get(classification, 0)
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -78,15 +77,14 @@ def __precision__(matrix, classification, return_parts=False):
 
 def __recall__(matrix, classification, return_parts=False):
 
-    actual = classification
-    denominator = 0
-    for predicted in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+    # Read without indexing, which would add cells to the matrix
+    denominator = sum(predicted.get(classification, 0)
+                      for predicted in matrix.values())
+    numerator = matrix.get(classification, dict()).get(classification, 0)
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
-- 
2.43.0


From 75f7e4c8e7a7898f9858e15edbd0c7c76c80c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:11 +0000
Subject: [PATCH 08/22] fix: determine the classes of a confusion matrix from
 its contents

The set of classes was cached and filled in place: it was stale after rows were
only read, or cells were changed by update() or del, the set handed out was the
cache itself (for an empty matrix, one shared by all matrices), and a thread
that queried the classes while another one filled the cache obtained a part of
them or an error.
---
 segeval/ml/__init__.py | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 4f82756..489771a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -185,30 +185,12 @@ def fmeasure(matrix, classification=None, beta=Decimal('1.0'),
     return __value_micro_macro__(__fmeasure__, arguments, classification, version)
 
 
-class _InnerConfusionMatrix(defaultdict):
-
-    '''
-    Inner dict of the confusion matrix; used to determine when the classes list
-    is dirty.
-    '''
-
-    def __init__(self, parent):
-        self.__parent__ = parent
-        defaultdict.__init__(self, int)
-
-    def __setitem__(self, key, value):
-        self.__parent__.__dirty_classes__ = True
-        defaultdict.__setitem__(self, key, value)
-
-
 class ConfusionMatrix(dict):
 
     '''
     A :func:`dict`-like representation of a confusion matrix offering some automation.
     To access/store values, use: ``matrix[predicted][actual]``.
     '''
-    __classes__ = set()
-    __dirty_classes__ = False
 
     def __setitem__(self, key, value):
         raise AttributeError('no such method')
@@ -230,7 +212,7 @@ class ConfusionMatrix(dict):
         '''
         value = None
         if key not in self:
-            value = _InnerConfusionMatrix(self)
+            value = defaultdict(int)
             dict.__setitem__(self, key, value)
         else:
             value = dict.__getitem__(self, key)
@@ -240,11 +222,9 @@ class ConfusionMatrix(dict):
         '''
         Retrieve the set of all classes.
         '''
-        if self.__dirty_classes__:
-            self.__classes__ = set()
-            for predicted, values in self.items():
-                self.__classes__.add(predicted)
-                for actual in values.keys():
-                    self.__classes__.add(actual)
-            self.__dirty_classes__ = False
-        return self.__classes__
+        classes = set()
+        for predicted, values in self.items():
+            classes.add(predicted)
+            for actual in values.keys():
+                classes.add(actual)
+        return classes
-- 
2.43.0


From ac3a8f2aa37dd30e6eeddb5af5cc01823efbc214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 09/22] fix: compare two segmentations that contain no
 boundaries

boundary_similarity, segmentation_similarity, boundary_statistics and
boundary_confusion_matrix raised a ValueError (max() of an empty sequence),
although both similarities define the value for this case as 1.
---
 segeval/similarity/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/__init__.py b/segeval/similarity/__init__.py
index 220811b..54f920b 100644
--- a/segeval/similarity/__init__.py
+++ b/segeval/similarity/__init__.py
@@ -61,9 +61,10 @@ def __boundary_statistics__(
     # Apply weighting functions
     fnc_weight_a, fnc_weight_s, fnc_weight_t = weight
     count_additions = fnc_weight_a(additions)
+    # Without any boundary types there are no substitutions to scale
     count_substitutions = fnc_weight_s(substitutions,
-                                       max(boundary_types),
-                                       min(boundary_types))
+                                       max(boundary_types or (1,)),
+                                       min(boundary_types or (1,)))
     count_transpositions = fnc_weight_t(transpositions, n_t)
     count_edits = count_additions + count_substitutions + count_transpositions
     # Compute
-- 
2.43.0


From 9c8e43f75a193696058f9e30ee3ca0776b59bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 10/22] fix: return similarities as Decimal also for unweighted
 edits

With weight functions that return integers (weight_a, weight_s, weight_t) the
similarities were floats, so that one_minus=True and summarize() failed with a
TypeError mixing Decimal and float.
---
 segeval/similarity/boundary.py     | 2 +-
 segeval/similarity/segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..207eee7 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -29,7 +29,7 @@ def __boundary_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator, additions, substitutions, transpositions
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..298fa8d 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -30,7 +30,7 @@ def __segmentation_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
-- 
2.43.0


From b907c94de4c2e1bc299d22e26c9ac0768eb67b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 11/22] fix: compute the bias of coders whose expected
 agreement is 1

artstein_poesio_bias_linear (and pi and kappa with return_parts=True) only need
the actual and expected agreement, but divided by 1 - A_e, which is 0 when all
coders place a boundary everywhere.
---
 segeval/agreement/kappa.py | 4 +---
 segeval/agreement/pi.py    | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index fd1f858..cba5be6 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -47,13 +47,11 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
                           (Decimal(boundaries_n) / total_boundaries_n))
     P_seg = Decimal(sum(P_segs)) / len(P_segs)
     A_e = P_seg
-    # Calculate pi
-    kappa = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
     if return_parts:
         return A_a, A_e
     else:
-        return kappa
+        return (A_a - A_e) / (Decimal('1') - A_e)
 
 
 def fleiss_kappa_linear(dataset, **kwargs):
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 791b31b..5246736 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -37,13 +37,11 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     # Calculate P_e_seg
     P_e_seg = Decimal(sum(p_e_segs)) / len(p_e_segs)
     A_e = (P_e_seg ** 2)
-    # Calculate pi
-    pi = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
     if return_parts:
         return A_a, A_e
     else:
-        return pi
+        return (A_a - A_e) / (Decimal('1') - A_e)
 
 
 def fleiss_pi_linear(dataset, **kwargs):
-- 
2.43.0


From db427eb00f0e2eb677c3469eb5e0b49fcd574078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 12/22] fix: make the package visible to other threads only
 once it is complete

The module that replaces segeval in sys.modules was installed before its
attributes were set, so that a second thread importing segeval at that time
got a module without __path__ and __all__.
---
 segeval/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/segeval/__init__.py b/segeval/__init__.py
index 932bc0f..fe79c71 100644
--- a/segeval/__init__.py
+++ b/segeval/__init__.py
@@ -97,8 +97,8 @@ class module(ModuleType):
 old_module = sys.modules['segeval']
 
 
-# setup the new module and patch it into the dict of loaded modules
-new_module = sys.modules['segeval'] = module('segeval')
+# setup the new module
+new_module = module('segeval')
 new_module.__dict__.update({
     '__file__':             __file__,
     '__path__':             __path__,
@@ -114,3 +114,8 @@ new_module.__dict__.update({
     '__docformat__':        'restructuredtext en',
     '__description__':      __description__
 })
+
+
+# patch it into the dict of loaded modules, only now that it is complete, as
+# other threads may use it from here on
+sys.modules['segeval'] = new_module
-- 
2.43.0


From c85a4b2019fb49f1e0b9aca688e8c6afe917a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 13/22] fix: do not skip sub-directories whose type cannot be
 determined when loading folders

---
 segeval/data/__init__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index ebc1501..eae3827 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -7,6 +7,8 @@ files.
 from __future__ import absolute_import
 import os
 import copy
+import errno
+import stat
 from collections import defaultdict
 from segeval.data.tsv import input_linear_mass_tsv
 from segeval.data.jsonutils import input_linear_mass_json
@@ -155,6 +157,20 @@ class DataIOError(Exception):
         Exception.__init__(self, message, exception)
 
 
+def __is_directory__(path):
+    '''
+    Determine whether a path is that of a directory.  Unlike
+    :func:`os.path.isdir`, raises if that cannot be found out.
+    '''
+    try:
+        return stat.S_ISDIR(os.stat(path).st_mode)
+    except OSError as exception:
+        # A dangling link is no directory
+        if exception.errno == errno.ENOENT and os.path.islink(path):
+            return False
+        raise
+
+
 def load_nested_folders_dict(containing_dir, filetype, dataset=None,
                              prepend_item=list()):
     '''
@@ -184,7 +200,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
     for name in os.listdir(containing_dir):
         path = os.path.join(containing_dir, name)
         # Found a directory
-        if os.path.isdir(path):
+        if __is_directory__(path):
             dirs[name] = path
         # Found a file
         else:
-- 
2.43.0


From e58fa95ad23758b0f67fb6d47339d8cb53152706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 14/22] fix: raise for a coder that occurs twice in a TSV file

The later row silently replaced the earlier one.
---
 segeval/data/tsv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..169ca64 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -22,7 +22,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
     :type delimiter: str
     '''
 
-    from segeval.data import Dataset, name_from_filepath
+    from segeval.data import Dataset, DataIOError, name_from_filepath
     # List version of file
     header = []
     dataset = Dataset()
@@ -44,6 +44,9 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j is 0:
                         coder = str(col)
+                        if coder in dataset[item]:
+                            raise DataIOError('Duplicate coders of same name \
+%(coder)s found in file %(file)s' % {'coder': coder, 'file': filepath})
                         dataset[item][coder] = list()
                     else:
                         dataset[item][coder].append(int(col))
-- 
2.43.0


From a950fe9f37bf7d57c27b906a4bcd7c527698ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 15/22] fix: compare segment labels by equality in Pk and
 WindowDiff

Equal labels that are not one object (e.g. strings) counted as different
segments, unlike in convert_positions_to_masses.
---
 segeval/window/pk.py         | 4 ++--
 segeval/window/windowdiff.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/segeval/window/pk.py b/segeval/window/pk.py
index d5d0ca5..d19539d 100644
--- a/segeval/window/pk.py
+++ b/segeval/window/pk.py
@@ -46,8 +46,8 @@ def __pk__(hypothesis, reference, window_size, one_minus, boundary_format,
         window_ref = reference[i:i + window_size + 1]
         window_hyp = hypothesis[i:i + window_size + 1]
         # Probe agreement
-        agree_ref = window_ref[0] is window_ref[-1]
-        agree_hyp = window_hyp[0] is window_hyp[-1]
+        agree_ref = window_ref[0] == window_ref[-1]
+        agree_hyp = window_hyp[0] == window_hyp[-1]
         # If the windows agreements agree
         if agree_ref is not agree_hyp:
             sum_differences += 1
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..8077515 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -112,10 +112,10 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
             # Boundary exists in the reference segmentation
-            if ref_part[0] is not ref_part[1]:
+            if ref_part[0] != ref_part[1]:
                 ref_boundaries += 1
             # Boundary exists in the hypothesis segmentation
-            if hyp_part[0] is not hyp_part[1]:
+            if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
         if ref_boundaries is not hyp_boundaries:
-- 
2.43.0


From da766eede710b08f0ed8bca2ce8468ba3f40c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:51 +0000
Subject: [PATCH 16/22] fix: compare the boundary formats of two datasets by
 equality

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 4fe260b..7b46be0 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -70,7 +70,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
             # Compare pairwise values between coders paired from two datasets
             metric_kwargs['boundary_format'] = hypothesis.boundary_format
-            if hypothesis.boundary_format is not reference.boundary_format:
+            if hypothesis.boundary_format != reference.boundary_format:
                 raise SegmentationMetricError(
                     'Datasets contain differing boundary formats; {0} != {1}'
                     .format(hypothesis.boundary_format, reference.boundary_format))
-- 
2.43.0


From 2518f8bfcd3b3aaafa670ac75dd3a002a382017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:51 +0000
Subject: [PATCH 17/22] fix: recognise overlapping transpositions of equal
 boundary types

---
 segeval/similarity/distance/multipleboundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index 2ed4ba7..a34c10c 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -103,7 +103,7 @@ def __overlaps_existing__(i, j, d, options_transp):
         if position in options_transp:
             for t in options_transp[position]:
                 # If the transposition 't' is of the boundary type 'd'
-                if t[2] is d:
+                if t[2] == d:
                     return True
     return check_position(i) or check_position(j)
 
-- 
2.43.0


From f92e8368d0665485511208cb19d5ea8288cfb4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 18/22] fix: compare the boundary counts of WindowDiff windows
 by equality

---
 segeval/window/windowdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 8077515..016fbab 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -107,7 +107,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         ref_boundaries = 0
         hyp_boundaries = 0
         # Check that the number of loops is correct
-        assert len(window) is window_size + 1
+        assert len(window) == window_size + 1
         # For pair in window
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
@@ -118,7 +118,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
             if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
-        if ref_boundaries is not hyp_boundaries:
+        if ref_boundaries != hyp_boundaries:
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-- 
2.43.0


From eeeec764aa849a543ae4c5a8971c8813008216f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 19/22] fix: take the window size of position datasets from
 their segmentations

With boundary_format=position, a dataset (or dict) was itself converted
as if it were a sequence of positions, so that the window size was that
of its item labels.
---
 segeval/window/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index be26b63..b28eea3 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -40,13 +40,13 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
         if hasattr(inner_coder_masses, 'items'):
             for cur_inner_coder_masses in inner_coder_masses.values():
                 __list_coder_masses__(cur_inner_coder_masses)
+        elif boundary_format == BoundaryFormat.position:
+            all_masses.extend(convert_positions_to_masses(inner_coder_masses))
         elif hasattr(inner_coder_masses, '__iter__') and not isinstance(inner_coder_masses, str):
             all_masses.extend(inner_coder_masses)
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
-    if boundary_format == BoundaryFormat.position:
-        reference = convert_positions_to_masses(reference)
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
-- 
2.43.0


From d45f60b3598d4a38ecb6477fe7d5319110914eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:30 +0000
Subject: [PATCH 20/22] fix: reject unsupported boundary formats when computing
 a window size

An unknown format was taken for mass, where Pk and WindowDiff raise.
---
 segeval/window/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index b28eea3..42e7c5c 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -47,6 +47,8 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
+    if boundary_format not in (BoundaryFormat.mass, BoundaryFormat.position):
+        raise SegmentationMetricError('Unsupported boundary format')
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
-- 
2.43.0


From 89f918f48d5e49f002aeda232c6da885eeda1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 21/22] fix: WindowDiff applied half of the Lamprier correction
 for falsy options other than False

---
 segeval/window/windowdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 016fbab..489dd39 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -27,7 +27,7 @@ def __create_paired_window__(hypothesis, reference, window_size,
     window.
     '''
     phantom_size = 0
-    if lamprier_et_al_2007_fix is False:
+    if not lamprier_et_al_2007_fix:
         units_ref_hyp = zip(reference, hypothesis)
     else:
         phantom_size = window_size
-- 
2.43.0


From d7f0bd918153c1a87a5f897b74ea284599fa1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 22/22] fix: WindowDiff's Lamprier correction could not be
 applied to positions given as lists

---
 segeval/window/windowdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 489dd39..19e632f 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -33,8 +33,8 @@ def __create_paired_window__(hypothesis, reference, window_size,
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
         phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0

