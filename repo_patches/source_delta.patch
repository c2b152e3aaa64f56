From 8d88c130c057caff4f45d0dfb744ffb46c974735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 01/27] fix: keep axis order when indexing with a scalar and a
 sequence

Indexing a larry with a scalar and a list or array that are separated by a
slice (y[0,:,[1,2]]) returned data whose axes did not match the labels.
---
 la/deflarry.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 83f9919..2e02fff 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1826,7 +1826,8 @@ class larry(object):
                     lab = self.label[ax]
                 if lab is not None:
                     label.append(lab)
-            x = self.x[index]
+            x, index = splitindex(self.x, index)
+            x = x[index]
             if allscalar:
                 return x
         elif typidx is slice:
@@ -2118,11 +2119,13 @@ class larry(object):
                 # function that indexes into labels without indexing into x.
                 # Then use that function in getitem
                 if self[index].label == value.label:
-                    self.x[index] = value.x
+                    x, index = splitindex(self.x, index)
+                    x[index] = value.x
                 else:
                     raise IndexError('larrys are not aligned.')
             else:
-                self.x[index] = value
+                x, index = splitindex(self.x, index)
+                x[index] = value
 
     def set(self, label, value):
         """
@@ -5163,6 +5166,23 @@ def slicemaker(index, labelindex, axis):
         raise ValueError(msg1 % 'stop')
     return slice(start, stop, index.step)
 
+def splitindex(x, index):
+    """
+    Take the scalars out of an index that mixes scalars and sequences.
+
+    When a scalar and a sequence are separated by a slice NumPy moves the axis
+    of the sequence to the front. Indexing with the scalars first keeps the
+    axes, and hence the labels, in their original order.
+    """
+    if type(index) is tuple:
+        scalar = [isscalar(idx) for idx in index]
+        seq = [isinstance(idx, (list, tuple, np.ndarray)) for idx in index]
+        if any(scalar) and any(seq):
+            x = x[tuple([idx if s else slice(None)
+                         for idx, s in zip(index, scalar)])]
+            index = tuple([idx for idx, s in zip(index, scalar) if not s])
+    return x, index
+
 def labels2indices(label, labels):
     "Convert list of labels to indices"
     try:
-- 
2.43.0


From bae4a84cbf8d577ed74542d65e049b713319afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 02/27] fix: do not change the inputs of binaryop when
 replacing missing values

With labels already aligned, `missone` and `misstwo` were written into the
input larrys.
---
 la/flarry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index 1b2ca9b..5887713 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -763,10 +763,15 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
     """
 
     # Align
-    x1, x2, label, ign1, ign2 = align_raw(lar1, lar2, join=join, cast=cast)
+    x1, x2, label, x1isview, x2isview = align_raw(lar1, lar2, join=join,
+                                                  cast=cast)
 
     # Replacing missing values is slow, so only do if requested
     if missone != 'ignore' or misstwo != 'ignore':
+        if x1isview:
+            x1 = x1.copy()
+        if x2isview:
+            x2 = x2.copy()
         miss1 = ismissing(x1)
         miss2 = ismissing(x2)
     if missone != 'ignore':
-- 
2.43.0


From a86aa13d6d11eeb649c67f1c8a1c7d18b4d1e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 03/27] fix: merge returns a copy when the labels are already
 aligned

The merge was done in place and `self` itself was returned.
---
 la/deflarry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 2e02fff..7bce2b2 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3474,6 +3474,8 @@ class larry(object):
                 mergelabel = sorted(mergelabel)
                 lar1 = lar1.morph(mergelabel, ax)
                 lar2 = lar2.morph(mergelabel, ax)
+        if lar1 is self:
+            lar1 = self.copy()
 
         # Mask
         dtype1 = self.dtype
-- 
2.43.0


From 845dfdfe1c6c507ec659fb4ac544614f514ad20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 04/27] fix: pull returns a copy of the labels, as documented

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 7bce2b2..4700486 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2359,7 +2359,7 @@ class larry(object):
         """
         if axis is None:
             raise ValueError('axis cannot be None')
-        label = list(self.label)
+        label = self.copylabel()
         label.pop(axis)
         idx = self.labelindex(name, axis)
         index = [slice(None)] * self.ndim
-- 
2.43.0


From 0eb3160cfc23e85312d7a6d1dda0a49b661f93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 05/27] fix: pass the keyword arguments of larry.move_func on
 to func

---
 la/deflarry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 4700486..ae533f8 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3057,7 +3057,8 @@ class larry(object):
         array([ NaN,   3.,   5.,   7.])
 
         """
-        x = move_func(func, self.x, window, axis=axis, method=method)
+        x = move_func(func, self.x, window, axis=axis, method=method,
+                      **kwargs)
         return larry(x, self.copylabel(), validate=False)
 
     def movingsum_forward(self, window, skip=0, axis=-1, norm=False):
-- 
2.43.0


From 12491c79d98b7bc9dcbeb49a5c383e4df3649aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 06/27] fix: reject a join of 'skip' in binaryop

It is not one of the documented joins and gave a larry without labels.
---
 la/flarry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/flarry.py b/la/flarry.py
index 5887713..0704b3d 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -766,6 +766,9 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
     x1, x2, label, x1isview, x2isview = align_raw(lar1, lar2, join=join,
                                                   cast=cast)
 
+    if None in label:
+        raise ValueError("`join` cannot be 'skip' in a binary operation.")
+
     # Replacing missing values is slow, so only do if requested
     if missone != 'ignore' or misstwo != 'ignore':
         if x1isview:
-- 
2.43.0


From 8963358a73a780a3295a74965e5854d0e50dda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 07/27] fix: use the axis of each larry in align_axis

With a list of axes the labels of the second and later larrys were taken from
the axis given for the larry before it.
---
 la/flarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index 0704b3d..4fb14f5 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -503,10 +503,10 @@ def align_axis(lars, axis=0, join='inner'):
     else:
         label = frozenset(lars[0].label[axis[0]])
         if join == 'inner':
-            for i, lar in enumerate(lars[1:]):
+            for i, lar in enumerate(lars):
                 label = label.intersection(lar.label[axis[i]])
         elif join == 'outer':
-            for i, lar in enumerate(lars[1:]):
+            for i, lar in enumerate(lars):
                 label = label.union(lar.label[axis[i]])
         label = list(label)
         label.sort()
-- 
2.43.0


From 799662c214553eace627ef4701169ef2261baed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 08/27] fix: do not share the caller's list of labels with the
 result of lix

---
 la/deflarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index ae533f8..6b1daf5 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -5055,7 +5055,7 @@ class Lix(object):
                 if typ == list:
                     idx2 = labels2indices(y.label[ax], idx)
                     if len(idx) > 1:
-                        label.append(idx)
+                        label.append(list(idx))
                     index2.append(idx2)
                 elif typ == slice:
                     s = slicemaker(idx, y.labelindex, ax)
@@ -5114,7 +5114,7 @@ class Lix(object):
                 if typ == list:
                     idx2 = labels2indices(y.label[ax], idx)
                     if len(idx) > 1:
-                        label.append(idx)
+                        label.append(list(idx))
                     index2.append(idx2)
                 elif typ == slice:
                     s = slicemaker(idx, y.labelindex, ax)
-- 
2.43.0


From 48211d297e222d0b34c02a8897042f65df857b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 09/27] fix: support negative axes in vacuum

---
 la/deflarry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 6b1daf5..95350d8 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -4036,11 +4036,13 @@ class larry(object):
         elif not hasattr(axis, '__iter__'):
             axes = [axis]
             # Change meaning of axes to axes not in original axes
-            axes = [a for a in range(ndim) if a not in axes]
+            axes = [a for a in range(ndim)
+                    if a not in axes and a - ndim not in axes]
         else:
             axes = axis
             # Change meaning of axes to axes not in original axes
-            axes = [a for a in range(ndim) if a not in axes]
+            axes = [a for a in range(ndim)
+                    if a not in axes and a - ndim not in axes]
 
         idxsl = []
         labsnew = []
-- 
2.43.0


From d42644c019a9fd621bed6be768daa3a2a55248c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 10/27] fix: do not let maplabel make duplicate labels

---
 la/deflarry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 95350d8..8873132 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2697,10 +2697,16 @@ class larry(object):
         else:
             y = self
         if axis is None:
-            for ax in range(y.ndim):
-                y.label[ax] = list(map(func, y.label[ax]))
+            axes = range(y.ndim)
         else:
-            y.label[axis] = list(map(func, y.label[axis]))
+            axes = [axis]
+        label = [list(map(func, y.label[ax])) for ax in axes]
+        for ax, lab in zip(axes, label):
+            if len(set(lab)) != len(lab):
+                msg = "`func` maps two labels along axis %d to the same label."
+                raise ValueError(msg % ax)
+        for ax, lab in zip(axes, label):
+            y.label[ax] = lab
         return y
 
     # Moving window statistics ----------------------------------------------
-- 
2.43.0


From 2538c3bc45120eda67b914ce91aaece99f2b18cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 11/27] fix: cut rows and columns by default in cut_missing

---
 la/deflarry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 8873132..d46e8f2 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3952,7 +3952,8 @@ class larry(object):
         axis : {int, None}
             Look for missing data along this axis. So for axis=0, the missing
             data along columns are checked and columns are cut. For axis=1,
-            the missing data along rows are checked and rows are cut.
+            the missing data along rows are checked and rows are cut. By
+            default (None) both rows and columns are checked and cut.
 
         Returns
         -------
@@ -3964,8 +3965,9 @@ class larry(object):
         y = self.copy()
         ndim = y.ndim
 
+        # Axes that are not cut
         if axis is None:
-            axes = range(ndim)
+            axes = []
         else:
             axes = [range(ndim)[axis]]
 
-- 
2.43.0


From 8da43888a8ab8bee15f6cf323be8062e1a7739f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 12/27] fix: true division of integer larrys

---
 la/deflarry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index d46e8f2..f188911 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -825,15 +825,15 @@ class larry(object):
         """
         if isinstance(other, larry):
             if self.label == other.label:
-                x = self.x / other.x
+                x = np.true_divide(self.x, other.x)
                 label = self.copylabel()
                 return larry(x, label, validate=False)
             else:
                 x, y, label = self.__align(other)
-                x = x / y
+                x = np.true_divide(x, y)
                 return larry(x, label, validate=False)
         if np.isscalar(other) or isinstance(other, np.ndarray):
-            x = self.x / other
+            x = np.true_divide(self.x, other)
             label = self.copylabel()
             return larry(x, label, validate=False)
         raise TypeError('Input must be scalar, array, or larry.')
@@ -891,7 +891,7 @@ class larry(object):
             raise RuntimeError(msg)
         if np.isscalar(other) or isinstance(other, np.ndarray):
             label = self.copylabel()
-            x = other / self.x
+            x = np.true_divide(other, self.x)
             return larry(x, label, validate=False)
         raise TypeError('Input must be scalar, array, or larry.')
 
-- 
2.43.0


From c524bf07821f74be7b3a18ab3b638463d697abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 13/27] fix: clip of integers at fractional limits

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index f188911..65a9c06 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -458,7 +458,7 @@ class larry(object):
         if lo > hi:
             raise ValueError('lo should be less than or equal to hi')
         y = self.copy()
-        y.x.clip(lo, hi, y.x)
+        y.x = y.x.clip(lo, hi)
         return y
 
     def __neg__(self):
-- 
2.43.0


From ba0200ac702fb14c872f23a05182f5231778c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 14/27] fix: reduce empty integer larrys to NaN

---
 la/deflarry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 65a9c06..ddbec7f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1471,8 +1471,11 @@ class larry(object):
             else:
                 if op == np.any or op == np.all:
                     dtype = bool
-                else:
+                elif issubclass(self.dtype.type, (np.inexact, np.object_)):
                     dtype = self.dtype
+                else:
+                    # `default` is NaN
+                    dtype = float
                 x = np.empty(shape, dtype=dtype)
                 x.fill(default)
                 label = self.copylabel()
-- 
2.43.0


From deb62c7a4286b431b500aaf85a0ac7179a78947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 15/27] fix: labelindex(exact=False) returned the last smaller
 label, not the nearest

---
 la/deflarry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index ddbec7f..551e2d0 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2643,10 +2643,10 @@ class larry(object):
             if exact:
                 raise IndexError('name not in label along axis %d' % axis)
             else:
-                idx = [i for i, z in enumerate(self.label[axis]) if z <= name]
-                if len(idx) == 0:
+                lower = [z for z in self.label[axis] if z <= name]
+                if len(lower) == 0:
                     raise IndexError('name not in label along axis %d' % axis)
-                index = max(idx)
+                index = self.label[axis].index(max(lower))
         return index
 
     def maplabel(self, func, axis=None, copy=True):
-- 
2.43.0


From ac83dabfc34b9bf118645c1852cc28c2efbe7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 16/27] fix: keep_x marks no cell missing in a bool larry

---
 la/deflarry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 551e2d0..471afeb 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2533,7 +2533,10 @@ class larry(object):
             raise ValueError('Unknown op')
         y = self.copy()
         idx = eval('y.x ' + op + ' value')
-        y.x[~idx] = np.nan
+        if missing_marker(y.x) == NotImplemented:
+            # The data (int, bool) cannot hold missing values
+            y.x = y.x.astype(float)
+        y.x[~idx] = missing_marker(y.x)
         if vacuum:
             y = y.vacuum()
         return y
-- 
2.43.0


From 00e93d2ddb389d30f77241e5ad30bad433f8d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 17/27] fix: a larry that cannot be saved no longer destroys or
 litters the archive

---
 la/io.py | 56 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/la/io.py b/la/io.py
index aa7b6b4..5cbbdd2 100644
--- a/la/io.py
+++ b/la/io.py
@@ -184,13 +184,21 @@ class IO(object):
         f = h5py.File(self.filename)
 
         # Does an item (larry or otherwise) with given key already exist? If
-        # so delete. Note that f.keys() [all keys] is used instead of
-        # self.keys() [keys that are larrys].
-        if key in f.keys():
-            self.__delitem__(key)
-
-        # If you've made it this far the data looks OK so save it
-        save(f, value, key)
+        # so replace it, but only if it is a larry.
+        if key in f:
+            if not _is_archived_larry(f[key]):
+                raise KeyError('key (%s) is not a larry.' % key)
+            # Delete the old item only after the new one has been saved
+            old = key.rstrip('/') + '_replaced_tmp_' + randstring(4)
+            f.move(key, old)
+            try:
+                save(f, value, key)
+            except:
+                f.move(old, key)
+                raise
+            del f[old]
+        else:
+            save(f, value, key)
 
         f.close()
 
@@ -432,19 +440,35 @@ def save(file, lar, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
 
+    # Convert labels first: if one cannot be saved then nothing is written
+    labels = [_list2array(label) for label in lar.label]
+
     # Get a h5py.File instance
     f, opened = _openfile(file)
 
     # Do we need to create any intermediate groups?
-    _create_nested_groups(f, key)
+    created = _create_nested_groups(f, key)
 
     # Save larry
     fkey = f[key]
-    fkey.attrs['larry'] = True
-    fkey['x'] = lar.x
-    for i in range(lar.ndim):
-        fkey[str(i)], datetime_type = _list2array(lar.label[i])
-        fkey[str(i)].attrs['datetime_type'] = datetime_type
+    written = []
+    try:
+        fkey['x'] = lar.x
+        written.append('x')
+        for i in range(lar.ndim):
+            label, datetime_type = labels[i]
+            fkey[str(i)] = label
+            written.append(str(i))
+            fkey[str(i)].attrs['datetime_type'] = datetime_type
+        fkey.attrs['larry'] = True
+    except:
+        # Could not save (e.g. dtype not supported by HDF5): leave no remains
+        if created is not None:
+            del f[created]
+        else:
+            for name in written:
+                del fkey[name]
+        raise
 
     # Close if file is a filename
     if opened:
@@ -723,17 +747,21 @@ def _is_archived_larry(obj):
     return False
 
 def _create_nested_groups(f, path):
-    "Create a nested set of groups."
+    "Create a nested set of groups; return outermost one created, if any."
+    created = None
     groups = path.split('/')
     groups = [group for group in groups if group != '']
     for i in range(len(groups)):
         group = '/'.join(groups[:i+1])
         if group not in f:
             f.create_group(group)
+            if created is None:
+                created = group
         else:
             if not isinstance(f[group], h5py.Group):
                 msg = '%s already exists and is not a h5.py.Group object.'
                 raise ValueError(msg % group)
+    return created
 
 def datetime2tuple(dt):
     "Convert datetime.datetime to tuple; tzinfo, if any, is lost."
-- 
2.43.0


From 3379c2e06f40f5e8ffa60caa3640f5d36442c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 18/27] fix: close archive files when an io function raises

---
 la/io.py | 296 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 168 insertions(+), 128 deletions(-)

diff --git a/la/io.py b/la/io.py
index 5cbbdd2..73f9771 100644
--- a/la/io.py
+++ b/la/io.py
@@ -162,16 +162,16 @@ class IO(object):
 
     def __getitem__(self, key):
         f = h5py.File(self.filename, 'r')
-        if key in f:
-            if _is_archived_larry(f[key]):
-                f.close()
-                x = lara(self.filename, key)
-                return x
+        try:
+            if key in f:
+                if not _is_archived_larry(f[key]):
+                    msg = "%s is in the archive but it is not a larry."
+                    raise KeyError(msg % key)
             else:
-                msg = "%s is in the archive but it is not a larry."
-                raise KeyError(msg % key)
-        else:
-            raise KeyError("A larry named %s is not in the archive." % key)
+                raise KeyError("A larry named %s is not in the archive." % key)
+        finally:
+            f.close()
+        return lara(self.filename, key)
 
     def __setitem__(self, key, value):
 
@@ -185,22 +185,23 @@ class IO(object):
 
         # Does an item (larry or otherwise) with given key already exist? If
         # so replace it, but only if it is a larry.
-        if key in f:
-            if not _is_archived_larry(f[key]):
-                raise KeyError('key (%s) is not a larry.' % key)
-            # Delete the old item only after the new one has been saved
-            old = key.rstrip('/') + '_replaced_tmp_' + randstring(4)
-            f.move(key, old)
-            try:
+        try:
+            if key in f:
+                if not _is_archived_larry(f[key]):
+                    raise KeyError('key (%s) is not a larry.' % key)
+                # Delete the old item only after the new one has been saved
+                old = key.rstrip('/') + '_replaced_tmp_' + randstring(4)
+                f.move(key, old)
+                try:
+                    save(f, value, key)
+                except:
+                    f.move(old, key)
+                    raise
+                del f[old]
+            else:
                 save(f, value, key)
-            except:
-                f.move(old, key)
-                raise
-            del f[old]
-        else:
-            save(f, value, key)
-
-        f.close()
+        finally:
+            f.close()
 
     def __delitem__(self, key):
         delete(self.filename, key)
@@ -215,22 +216,26 @@ class IO(object):
         keys = self.keys()
         keys.sort()  # Display in alphabetical order
         f = h5py.File(self.filename, 'r')
-        for key in keys:
-            # Code would be neater if I wrote shape = str(self[key].shape)
-            # but I don't want to load the array, I just want the shape
-            x = f[key]['x']
-            shape = str(x.shape)
-            dtype = str(x.dtype)
-            table.append([key, dtype, shape])
-        f.close()
+        try:
+            for key in keys:
+                # Code would be neater if I wrote shape = str(self[key].shape)
+                # but I don't want to load the array, I just want the shape
+                x = f[key]['x']
+                shape = str(x.shape)
+                dtype = str(x.dtype)
+                table.append([key, dtype, shape])
+        finally:
+            f.close()
         return indent(table, hasHeader=True, delim='  ')
 
     @property
     def space(self):
         "The number of bytes used by the archive."
         f = h5py.File(self.filename, 'r')
-        size = f.fid.get_filesize()
-        f.close()
+        try:
+            size = f.fid.get_filesize()
+        finally:
+            f.close()
         return size
 
     @property
@@ -244,9 +249,11 @@ class IO(object):
             if isinstance(value, h5py.Dataset):
                 size += value.id.get_storage_size()
         f = h5py.File(self.filename, 'r')
-        f.visititems(sizefinder)
-        fs = self.space - size
-        f.close()
+        try:
+            f.visititems(sizefinder)
+            fs = self.space - size
+        finally:
+            f.close()
         return fs
 
     def repack(self):
@@ -338,31 +345,39 @@ class lara(object):
 
     def __getitem__(self, index):
         f = h5py.File(self.filename, 'r')
-        self.x = f[self.key]['x']
-        lar = self._larry_getitem(index)
-        f.close()
-        self.x = None
+        try:
+            self.x = f[self.key]['x']
+            lar = self._larry_getitem(index)
+        finally:
+            self.x = None
+            f.close()
         return lar
 
     def __setitem__(self, index, value):
         f = h5py.File(self.filename)
-        self.x = f[self.key]['x']
-        self._larry_setitem(index, value)
-        self.x = None
-        f.close()
+        try:
+            self.x = f[self.key]['x']
+            self._larry_setitem(index, value)
+        finally:
+            self.x = None
+            f.close()
 
     @property
     def shape(self):
         f = h5py.File(self.filename, 'r')
-        s = f[self.key]['x'].shape
-        f.close()
+        try:
+            s = f[self.key]['x'].shape
+        finally:
+            f.close()
         return s
 
     @property
     def dtype(self):
         f = h5py.File(self.filename, 'r')
-        dt = f[self.key]['x'].dtype
-        f.close()
+        try:
+            dt = f[self.key]['x'].dtype
+        finally:
+            f.close()
         return dt
 
     @property
@@ -446,35 +461,38 @@ def save(file, lar, key):
     # Get a h5py.File instance
     f, opened = _openfile(file)
 
-    # Do we need to create any intermediate groups?
-    created = _create_nested_groups(f, key)
-
-    # Save larry
-    fkey = f[key]
-    written = []
     try:
-        fkey['x'] = lar.x
-        written.append('x')
-        for i in range(lar.ndim):
-            label, datetime_type = labels[i]
-            fkey[str(i)] = label
-            written.append(str(i))
-            fkey[str(i)].attrs['datetime_type'] = datetime_type
-        fkey.attrs['larry'] = True
-    except:
-        # Could not save (e.g. dtype not supported by HDF5): leave no remains
-        if created is not None:
-            del f[created]
-        else:
-            for name in written:
-                del fkey[name]
-        raise
 
-    # Close if file is a filename
-    if opened:
-        f.close()
-    else:
-        f.flush()
+        # Do we need to create any intermediate groups?
+        created = _create_nested_groups(f, key)
+
+        # Save larry
+        fkey = f[key]
+        written = []
+        try:
+            fkey['x'] = lar.x
+            written.append('x')
+            for i in range(lar.ndim):
+                label, datetime_type = labels[i]
+                fkey[str(i)] = label
+                written.append(str(i))
+                fkey[str(i)].attrs['datetime_type'] = datetime_type
+            fkey.attrs['larry'] = True
+        except:
+            # Could not save (e.g. dtype not supported by HDF5): leave no remains
+            if created is not None:
+                del f[created]
+            else:
+                for name in written:
+                    del fkey[name]
+            raise
+
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
+        else:
+            f.flush()
 
 def load(file, key):
     """
@@ -525,19 +543,22 @@ def load(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
-    if key not in f:
-        raise KeyError("A larry named '%s' is not in archive." % key)
-    if not _is_archived_larry(f[key]):
-        raise KeyError('key (%s) is not a larry.' % key)
+    try:
 
-    # Load larry
-    group = f[key]
-    x = group['x'][:]
-    label = _load_label(f, key)
+        if key not in f:
+            raise KeyError("A larry named '%s' is not in archive." % key)
+        if not _is_archived_larry(f[key]):
+            raise KeyError('key (%s) is not a larry.' % key)
 
-    # Close if file is a filename
-    if opened:
-        f.close()
+        # Load larry
+        group = f[key]
+        x = group['x'][:]
+        label = _load_label(f, key)
+
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
 
     return larry(x, label)
 
@@ -583,17 +604,20 @@ def delete(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
-    if key not in f:
-        raise KeyError("A larry named '%s' is not in archive." % key)
-    if not _is_archived_larry(f[key]):
-        raise KeyError('key (%s) is not a larry.' % key)
+    try:
 
-    # Delete
-    del f[key]
+        if key not in f:
+            raise KeyError("A larry named '%s' is not in archive." % key)
+        if not _is_archived_larry(f[key]):
+            raise KeyError('key (%s) is not a larry.' % key)
 
-    # Close if file is a filename
-    if opened:
-        f.close()
+        # Delete
+        del f[key]
+
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
 
 def repack(file):
     """
@@ -616,11 +640,21 @@ def repack(file):
     f1, opened = _openfile(file)
     filename1 = f1.filename
     filename2 = filename1 + '_repack_tmp_' + randstring(4)
-    f2 = h5py.File(filename2)
-    for key in f1.keys():
-        f1.copy(key, f2)
+    try:
+        f2 = h5py.File(filename2)
+        try:
+            for key in f1.keys():
+                f1.copy(key, f2)
+        finally:
+            f2.close()
+    except:
+        # Could not copy: leave the archive as it was
+        if opened:
+            f1.close()
+        if os.path.exists(filename2):
+            os.remove(filename2)
+        raise
     f1.close()
-    f2.close()
     filename_tmp = filename1 + '_repack_rename_tmp_' + randstring(4)
     os.rename(filename1, filename_tmp)
     os.rename(filename2, filename1)
@@ -634,12 +668,14 @@ def repack(file):
 def is_archived_larry(file, key):
     "True if the key (larry name) is in the archive, False otherwise."
     f, opened = _openfile(file)
-    if key in f:
-        answer = _is_archived_larry(f[key])
-    else:
-        raise ValueError('key (%s) is not in archive.' % str(key))
-    if opened:
-        f.close()
+    try:
+        if key in f:
+            answer = _is_archived_larry(f[key])
+        else:
+            raise ValueError('key (%s) is not in archive.' % str(key))
+    finally:
+        if opened:
+            f.close()
     return answer
 
 def archive_directory(file):
@@ -649,9 +685,11 @@ def archive_directory(file):
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
             keys.append(name)
-    f.visititems(append_larrys)
-    if opened:
-        f.close()
+    try:
+        f.visititems(append_larrys)
+    finally:
+        if opened:
+            f.close()
     return keys
 
 # Utility functions for internal use ----------------------------------------
@@ -659,25 +697,27 @@ def archive_directory(file):
 def _load_label(file, key):
     "Load larry labels from archive given the hpy5.Group object of the larry."
     f, opened = _openfile(file)
-    ndim = len(f[key + '/x'].shape)
-    group = f[key]
-    label = []
-    for i in range(ndim):
-        g = group[str(i)]
-        if g.size == 0:
-            labellist = []
-        else:
-            labellist = g[:].tolist()
-            datetime_type = group[str(i)].attrs['datetime_type']
-            if datetime_type == 'date':
-                labellist = list(map(datetime.date.fromordinal, labellist))
-            elif datetime_type == 'time':
-                labellist = list(map(tuple2time, labellist))
-            elif datetime_type == 'datetime':
-                labellist = list(map(tuple2datetime, labellist))
-        label.append(labellist)
-    if opened:
-        f.close()
+    try:
+        ndim = len(f[key + '/x'].shape)
+        group = f[key]
+        label = []
+        for i in range(ndim):
+            g = group[str(i)]
+            if g.size == 0:
+                labellist = []
+            else:
+                labellist = g[:].tolist()
+                datetime_type = group[str(i)].attrs['datetime_type']
+                if datetime_type == 'date':
+                    labellist = list(map(datetime.date.fromordinal, labellist))
+                elif datetime_type == 'time':
+                    labellist = list(map(tuple2time, labellist))
+                elif datetime_type == 'datetime':
+                    labellist = list(map(tuple2datetime, labellist))
+            label.append(labellist)
+    finally:
+        if opened:
+            f.close()
     return label
 
 def _list2array(x):
-- 
2.43.0


From 811dd1c5b303531305f553aa228a82a5ec00686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:27 +0000
Subject: [PATCH 19/27] fix: assigning a larry to part of an archived larry

---
 la/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/io.py b/la/io.py
index 73f9771..b3253dd 100644
--- a/la/io.py
+++ b/la/io.py
@@ -344,6 +344,9 @@ class lara(object):
         labelindex = larry.labelindex
 
     def __getitem__(self, index):
+        if self.x is not None:
+            # Called by __setitem__, which has already opened the archive
+            return self._larry_getitem(index)
         f = h5py.File(self.filename, 'r')
         try:
             self.x = f[self.key]['x']
-- 
2.43.0


From 92a897b7f1e1c783428e861911b6a0c8f29b5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 20/27] fix: archive keys are of type str, so that IO.clear
 works

---
 la/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index b3253dd..9803b11 100644
--- a/la/io.py
+++ b/la/io.py
@@ -687,7 +687,7 @@ def archive_directory(file):
     keys = []
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
-            keys.append(name)
+            keys.append(str(name))
     try:
         f.visititems(append_larrys)
     finally:
-- 
2.43.0


From da3fb764437da3f4f213f3bab54094073e6c863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 21/27] fix: freespace kept its running total in a module
 global

---
 la/io.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/la/io.py b/la/io.py
index 9803b11..e131be8 100644
--- a/la/io.py
+++ b/la/io.py
@@ -241,17 +241,15 @@ class IO(object):
     @property
     def freespace(self):
         "The number of bytes of freespace in the archive."
-        global size
-        size = 0
+        sizes = []
         def sizefinder(key, value):
             "Add size of object to running total"
-            global size
             if isinstance(value, h5py.Dataset):
-                size += value.id.get_storage_size()
+                sizes.append(value.id.get_storage_size())
         f = h5py.File(self.filename, 'r')
         try:
             f.visititems(sizefinder)
-            fs = self.space - size
+            fs = self.space - sum(sizes)
         finally:
             f.close()
         return fs
-- 
2.43.0


From bb0637c36c6a383c4002f0e2c1ad15039e0a3e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 22/27] fix: clear archives with nested larrys or non-ascii
 keys

---
 la/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/la/io.py b/la/io.py
index e131be8..3e892bc 100644
--- a/la/io.py
+++ b/la/io.py
@@ -151,7 +151,8 @@ class IO(object):
         """
         Warning: this will delete (unlink) all larrys from the archive!
         """
-        for key in self:
+        # Nested larrys come after, and disappear with, the outer one
+        for key in reversed(self.keys()):
             self.__delitem__(key)
 
     def __iter__(self):
@@ -685,7 +686,10 @@ def archive_directory(file):
     keys = []
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
-            keys.append(str(name))
+            if not isinstance(name, str):
+                # h5py uses unicode, but keys are of type str
+                name = name.encode('utf-8')
+            keys.append(name)
     try:
         f.visititems(append_larrys)
     finally:
-- 
2.43.0


From 082dbd0f669badf7ef52c741c25e7bf24e955150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 23/27] fix: refuse to save labels that cannot be loaded again

---
 la/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index 3e892bc..03b594c 100644
--- a/la/io.py
+++ b/la/io.py
@@ -749,7 +749,11 @@ def _list2array(x):
         x = list(map(datetime2tuple, x))
         datetime_type = 'datetime'
         dtype = ','.join(["i4" for i in range(len(x[0]))])
-    return np.asarray(x, dtype=dtype), datetime_type
+    arr = np.asarray(x, dtype=dtype)
+    if arr.ndim != 1:
+        # Label elements that are sequences would not survive the round trip
+        raise TypeError('Elements of a label must be scalars to be saved.')
+    return arr, datetime_type
 
 def _openfile(file):
     """
-- 
2.43.0


From 24092c516bcb869d9c081bbafa4f471027ff1608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 24/27] fix: repack opens the new archive only after the old
 one is removed

---
 la/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index 03b594c..ae5127d 100644
--- a/la/io.py
+++ b/la/io.py
@@ -660,11 +660,11 @@ def repack(file):
     filename_tmp = filename1 + '_repack_rename_tmp_' + randstring(4)
     os.rename(filename1, filename_tmp)
     os.rename(filename2, filename1)
+    os.remove(filename_tmp)
     if opened:
         f = None
     else:
         f = h5py.File(filename1)
-    os.remove(filename_tmp)
     return f
 
 def is_archived_larry(file, key):
-- 
2.43.0


From f42ba3c630e1de3300e4f8ca0d152a343e770f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 25/27] fix: restore the replaced larry if it cannot be deleted

---
 la/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index ae5127d..2be8fad 100644
--- a/la/io.py
+++ b/la/io.py
@@ -195,10 +195,12 @@ class IO(object):
                 f.move(key, old)
                 try:
                     save(f, value, key)
+                    del f[old]
                 except:
+                    if key in f:
+                        del f[key]
                     f.move(old, key)
                     raise
-                del f[old]
             else:
                 save(f, value, key)
         finally:
-- 
2.43.0


From b2f35902a1d45b0d64b39a3d3b3daa6760453aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:44 +0000
Subject: [PATCH 26/27] fix: lrange with a fractional step or a step of zero

---
 la/flarry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index 4fb14f5..db3e316 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -1855,9 +1855,8 @@ def lrange(shape=None, label=None, start=0, step=1, dtype=None):
         if shape is None:
            raise ValueError("Either `label` or `shape` must be supplied.")
     total = np.product(shape)
-    data = np.arange(start=start, stop=step*total+start, step=step,
-                     dtype=dtype).reshape(shape)
-    return larry(data, label)
+    data = (start + step * np.arange(total)).reshape(shape)
+    return larry(data, label, dtype=dtype)
 
 def empty(shape=None, label=None, dtype=None, order='C'):
     """
-- 
2.43.0


From 3e859bb8e8f69a21aa12f8cea6170caf398687f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:01 +0000
Subject: [PATCH 27/27] fix: write mixed scalar and list assignments of an
 archived larry to the archive

---
 la/deflarry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 471afeb..7e6841d 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -5193,7 +5193,9 @@ def splitindex(x, index):
     of the sequence to the front. Indexing with the scalars first keeps the
     axes, and hence the labels, in their original order.
     """
-    if type(index) is tuple:
+    # The data of an archived larry is not in memory: x[idx] would be a copy,
+    # and h5py keeps the axes in order.
+    if type(index) is tuple and isinstance(x, np.ndarray):
         scalar = [isscalar(idx) for idx in index]
         seq = [isinstance(idx, (list, tuple, np.ndarray)) for idx in index]
         if any(scalar) and any(seq):
-- 
2.43.0

