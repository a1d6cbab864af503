From c9705aec7533ce8e8921d1daef9a904ae2e45639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 001/107] fix: packed table slices with an out-of-range
 negative bound or on an empty table

slice(3, -100, -1) yielded a table with more components than it has and
a slice of an empty table could select its last component.
---
 src/pysimulators/packedtables/core.py | 31 ++++-----------------------
 1 file changed, 4 insertions(+), 27 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..e90fa5e 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -729,35 +729,12 @@ class PackedTable:
         if step == 0:
             raise ValueError('Invalide stride.')
 
-        start = s.start
-        if start is None:
-            start = 0 if step > 0 else n - 1
-        elif start < 0:
-            start = n + start
-            if start < 0:
-                if step < 0:
-                    return slice(0, 0, step)
-                start = 0
-        elif start >= n:
-            if step > 0:
-                return slice(n - 1, n - 1, step)
-            start = n - 1
-
-        stop = s.stop
-        if stop is None:
-            stop = n if step > 0 else -1
-        elif stop < 0:
-            stop = n + stop
-        elif stop > n:
-            stop = n
-
-        if step > 0:
-            extent = max(stop - start, 0)
-        else:
-            extent = max(start - stop, 0)
-        size = int(np.ceil(extent / abs(step)))
+        start, stop, step = s.indices(n)
+        size = len(range(start, stop, step))
         if size == n and step == 1:
             return Ellipsis
+        if size == 0:
+            return slice(0, 0, step)
 
         return slice(start, start + size * step, step)
 
-- 
2.43.0


From 8f8039bf941deb055551b81245b99dca43c6accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 002/107] fix: repeated components in the integer selection of
 a packed table

An integer selection such as [2, 2] was turned into a slice of null stride.
---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index e90fa5e..0fac266 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -715,7 +715,7 @@ class PackedTable:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From 634cffb3a785d8af144bc721a0256f4ffcd866cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 003/107] fix: selection of packed table components with a
 slice of negative stride

The special attributes and the index were taken with a slice whose stop is
-1 and which is therefore empty.
---
 src/pysimulators/packedtables/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 0fac266..9bdb0fa 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -181,8 +181,11 @@ class PackedTable:
 
     @property
     def _indexable(self):
+        return self._slice2indexable(self._index)
+
+    @staticmethod
+    def _slice2indexable(index):
         # slice index with negative stop values cannot be used for indexing
-        index = self._index
         if isinstance(index, slice) and index.stop < 0:
             return slice(index.start, None, index.step)
         return index
@@ -325,8 +328,7 @@ class PackedTable:
             stop = start + n * step
             index = slice(start, stop, step)
         else:
-            index = self.index
-            index = index[selection]
+            index = self.index[self._slice2indexable(selection)]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
@@ -341,7 +343,7 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, v[selection])
+                setattr(out, k, v[self._slice2indexable(selection)])
         return out
 
     def __str__(self):
@@ -740,6 +742,8 @@ class PackedTable:
 
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
+        if isinstance(selection, tuple):
+            selection = tuple(self._slice2indexable(_) for _ in selection)
         out[selection] = True
         return out
 
-- 
2.43.0


From 42e0d2fbc8e417f6f95c513fa88c52c48d9d2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 004/107] fix: negative and out of bounds integers in the
 selection of a packed table

They were stored unchanged in the index of the selected components, from
which the row, column or time attributes are derived.
---
 src/pysimulators/packedtables/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 9bdb0fa..01279c0 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -679,7 +679,8 @@ class PackedTable:
         ):
             return Ellipsis
         if isscalarlike(selection):
-            return np.asarray([selection], self._dtype_index)
+            selection = np.asarray([selection], self._dtype_index)
+            return self._wrap_int_selection(selection, product(shape))
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
@@ -705,11 +706,19 @@ class PackedTable:
         if selection.dtype == int:
             if selection.ndim != 1:
                 raise ValueError('Index selection is not 1-dimensional.')
+            selection = self._wrap_int_selection(selection, product(shape))
         elif selection.shape != shape:
             raise ValueError('Invalid boolean selection dimensions.')
 
         return selection
 
+    @staticmethod
+    def _wrap_int_selection(s, n):
+        # negative integers count from the end, as in NumPy indexing
+        if np.any((s < -n) | (s >= n)):
+            raise IndexError(f'The selection is out of bounds for {n} components.')
+        return np.where(s < 0, s + n, s)
+
     def _normalize_int_selection(self, s, n):
         # all elements in the integer selection should be positive
         size = s.size
-- 
2.43.0


From 0d4dda5fadb971f3704ebf3f25251620926a39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 005/107] fix: integer or slice selection of a packed table
 with an ordering

With an ordering, a flat selection was applied to the first dimension only,
unlike the same selection without ordering.
---
 src/pysimulators/packedtables/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 01279c0..6d17c69 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -752,8 +752,9 @@ class PackedTable:
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
         if isinstance(selection, tuple):
-            selection = tuple(self._slice2indexable(_) for _ in selection)
-        out[selection] = True
+            out[tuple(self._slice2indexable(_) for _ in selection)] = True
+        else:
+            out.ravel()[self._slice2indexable(selection)] = True
         return out
 
 
-- 
2.43.0


From 5b5b04342542c2223eac39f3dfe21a472cf2799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 006/107] fix: PackedTable.copy raised an AttributeError

---
 src/pysimulators/packedtables/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 6d17c69..e9196df 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -372,8 +372,8 @@ class PackedTable:
         Return a deep copy of the packed array.
 
         """
-        out = copy.deepcopy(self)
-        out.comm = self.comm.Dup()
+        out = copy.deepcopy(self, {id(self.comm): self.comm})
+        object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
     def pack(self, x, out=None, copy=False):
-- 
2.43.0


From 0e70e41afbce443009d8a415e8e55506fb4a7f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 007/107] fix: scattering a packed table of one component
 altered the table itself

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index e9196df..7f5e289 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -470,7 +470,7 @@ class PackedTable:
             return self
 
         selection = split(len(self), comm.size, comm.rank)
-        out = self[selection]
+        out = copy.copy(self[selection])
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From 3281a21eccbe7675591647369013c4c23a2c66af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 008/107] fix: gathering a packed table dropped the units of
 its attributes

and failed for arrays that are not C-contiguous.
---
 src/pysimulators/packedtables/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 7f5e289..dfbbd04 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -507,13 +507,15 @@ class PackedTable:
         """
 
         def func(x):
-            x = np.asarray(x)
-            out = np.empty((ntot,) + x.shape[1:], x.dtype)
+            x = np.asanyarray(x)
+            out = np.empty((ntot,) + x.shape[1:], x.dtype).view(type(x))
+            if out.__array_finalize__ is not None:
+                out.__array_finalize__(x)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
-                x.view(np.byte),
+                np.ascontiguousarray(x).view(np.byte),
                 [
-                    out.view(np.byte),
+                    out.view(np.ndarray).view(np.byte),
                     ([_ * nbytes for _ in counts], [_ * nbytes for _ in offsets]),
                 ],
             )
-- 
2.43.0


From 8ba872a23861bac3298ac60189fa61ac2aaf6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 009/107] fix: full slices and Ellipsis in the tuple selection
 of a packed table

A full slice was replaced by an Ellipsis, which also spans the following
dimensions.
---
 src/pysimulators/packedtables/core.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index dfbbd04..2fdf6fa 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -690,14 +690,27 @@ class PackedTable:
             if selection_.dtype == object:
                 if len(selection) > len(shape):
                     raise ValueError('Invalid selection dimensions.')
+                if Ellipsis in selection:
+                    i = selection.index(Ellipsis)
+                    n = len(shape) - len(selection) + 1
+                    selection = (
+                        tuple(selection[:i])
+                        + n * (slice(None),)
+                        + tuple(selection[i + 1 :])
+                    )
                 selection = tuple(
                     self._normalize_slice(_, s) if isinstance(_, slice) else _
                     for _, s in zip(selection, shape)
                 )
                 try:
-                    return selection[: ilast_is_not(selection, Ellipsis) + 1]
+                    selection = selection[: ilast_is_not(selection, Ellipsis) + 1]
                 except ValueError:
                     return Ellipsis
+                # a full slice only spans its own dimension
+                return tuple(
+                    slice(0, s, 1) if _ is Ellipsis else _
+                    for _, s in zip(selection, shape)
+                )
             else:
                 selection = selection_
         elif not isinstance(selection, np.ndarray):
-- 
2.43.0


From b3136cc7c1e520f3367fbc7f2bc2e7c356fb8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 010/107] fix: the sampling period was not derived from the
 sampling time

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f7d34d..0f3b693 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -37,7 +37,7 @@ class Sampling(PackedTable):
         elif date_obs.is_scalar:  # work around astropy.time bug
             date_obs = Time([str(date_obs)], scale='utc')
         if period is None:
-            if hasattr(keywords, 'time'):
+            if np.size(keywords.get('time')) > 1:
                 period = np.median(np.diff(keywords['time']))
             else:
                 period = self.DEFAULT_PERIOD
-- 
2.43.0


From 5ead6054d56cb88f09e06125054d70cc5b0af404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 011/107] fix: one-slice tuple of negative stride in the
 selection of packed table components

---
 src/pysimulators/packedtables/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 2fdf6fa..fb7c128 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -183,9 +183,11 @@ class PackedTable:
     def _indexable(self):
         return self._slice2indexable(self._index)
 
-    @staticmethod
-    def _slice2indexable(index):
+    @classmethod
+    def _slice2indexable(cls, index):
         # slice index with negative stop values cannot be used for indexing
+        if isinstance(index, tuple):
+            return tuple(cls._slice2indexable(_) for _ in index)
         if isinstance(index, slice) and index.stop < 0:
             return slice(index.start, None, index.step)
         return index
@@ -767,7 +769,7 @@ class PackedTable:
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
         if isinstance(selection, tuple):
-            out[tuple(self._slice2indexable(_) for _ in selection)] = True
+            out[self._slice2indexable(selection)] = True
         else:
             out.ravel()[self._slice2indexable(selection)] = True
         return out
-- 
2.43.0


From 850d49341bddb06b2070fc000f802f26da6ea538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 012/107] fix: unpacking a packed table with repeated
 components

The non-selected components were left uninitialised if the number of
selected components, repetitions included, is the size of the table.
---
 src/pysimulators/packedtables/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index fb7c128..1eccf7b 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -635,7 +635,8 @@ class PackedTable:
             out = np.empty(unpacked_shape, dtype=x.dtype).view(type(x))
             if out.__array_finalize__ is not None:
                 out.__array_finalize__(x)
-        if self._size_actual > len(self):
+        nselected = np.unique(index).size if isinstance(index, np.ndarray) else len(self)
+        if self._size_actual > nselected:
             if missing_value is None:
                 missing_value = self._get_default_missing_value(x.dtype)
             out[...] = missing_value
-- 
2.43.0


From 0acd076e16a0fd60b01548b258ca66a2f3e5802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 013/107] fix: allocation of sparse column matrices with
 non-square blocks

---
 src/pysimulators/sparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..71ca80e 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -59,7 +59,10 @@ class _FSMatrix:
                     f'The maximum number of non-zero {straxes[0]}s per {straxes[1]} '
                     f'is not specified.'
                 )
-            shape_data = (shape[1 - sparse_axis] // block_shape[0], nmax)
+            shape_data = (
+                shape[1 - sparse_axis] // block_shape[1 - sparse_axis],
+                nmax,
+            )
             if dtype is None:
                 dtype = float
             if dtype_index is None:
-- 
2.43.0


From 4cb123e1a7fe55ea115ad89207a762ee6c202c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 014/107] fix: composition P.T * P of block homothety sparse
 operators

---
 src/pysimulators/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 71ca80e..73071ba 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1007,6 +1007,7 @@ class SparseOperator(SparseBase):
             )
             or self.matrix.ncolmax != 1
             or self.shapein is None
+            or product(self.shapein) != self.matrix.shape[1]
         ):
             return
         di = self.matrix.data.index.dtype
-- 
2.43.0


From 30705671607b35062f4e273235b5e47c9b724496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 015/107] fix: corestriction of rotation matrices and of
 multi-dimensional sparse data

---
 src/pysimulators/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 73071ba..c4be862 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -906,11 +906,11 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
+        data = self.matrix.data.reshape((-1, self.matrix.data.shape[-1]))
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-            data=self.matrix.data[mask_],
+            data=data[np.ravel(mask)],
         )
         if isinstance(self.matrix, FSRMatrix):
             out.broadcastable_shapeout = (nrow,)
-- 
2.43.0


From 88e4cd148728c5228fd279aa2f95e87f8a710378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 016/107] fix: ProjectionOperator.pTx_pT1 with an input of
 higher precision than the matrix

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..1f84bff 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1104,7 +1104,7 @@ class ProjectionOperator(SparseOperator):
             else:
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
-                x = ones(shapein, self.dtype)
+                x = ones(shapein, out.dtype)
                 self.T(x, out=out, operation=operation)
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
-- 
2.43.0


From 22090475ba3343cf64ae4620347ea990df4c182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 017/107] fix: shape of the product of a 3d rotation sparse row
 matrix

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index c4be862..1678d08 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -768,7 +768,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 7f70897c37ab324738a490809955d48d0207c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 018/107] fix: data race in the search of the canonical basis
 vectors in the kernel

---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From b3ff82fb1ab01aef580f815e769bc17dbbbe7ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 019/107] fix: kernel of the block sparse projections, and of
 the 3d rotations with unsigned indices

---
 src/pysimulators/operators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 1f84bff..41d3801 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1026,7 +1026,7 @@ class ProjectionOperator(SparseOperator):
             return out
 
         itype = data.dtype['index']
-        ftype = data.dtype[1]
+        ftype = data.dtype[1].base
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
             np.float32,
             np.float64,
@@ -1054,8 +1054,12 @@ class ProjectionOperator(SparseOperator):
                 indices = data.index[data.value != 0]
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
+            elif isinstance(self.matrix, FSRBlockMatrix):
+                indices = data.index[np.any(data.value != 0, axis=(-2, -1))]
             else:
-                indices = data.index[data.r11 != 0]
+                indices = data.index[
+                    (data.r11 != 0) | (data.r22 != 0) | (data.r32 != 0)
+                ]
             n = product(shape)
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
         operation(out, kernel)
-- 
2.43.0


From 5cb829339336abe2dfbe18ad893aafd9ba975432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 020/107] fix: pTx_pT1 of a single precision projection over
 integers

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 41d3801..e6a0e72 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1153,7 +1153,7 @@ class ProjectionOperator(SparseOperator):
             raise ValueError(
                 f"Invalid input shape '{x.shape}'. Expected shape is '{shapein}'."
             )
-        dtypeout = max(self.dtype, x.dtype)
+        dtypeout = np.promote_types(self.dtype, x.dtype)
         if out is None:
             pTx = empty(shapeout, dtypeout)
             pT1 = empty(shapeout, dtypeout)
-- 
2.43.0


From 9f20c6ed4171cd62b368bc967373a614c3abeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 021/107] fix: null exponents in the units of quantities

---
 src/pysimulators/quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..0f01317 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -273,6 +273,8 @@ def _multiply_unit_inplace(unit, key, val):
     caller _extract_unit.
 
     """
+    if val == 0:
+        return unit
     if key in unit:
         if unit[key] == -val:
             del unit[key]
-- 
2.43.0


From 5ade6518623cdb9ad7e0e0ab723744b9c1385c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 022/107] fix: the unary plus operator dropped the unit of the
 quantities

---
 src/pysimulators/quantities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 0f01317..7444fae 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -772,6 +772,7 @@ class Quantity(np.ndarray):
             np.fmin,
             np.hypot,
             np.negative,
+            np.positive,
             np.rint,
             np.trunc,
         ):
-- 
2.43.0


From 03411166a3f3f68e3dfcab68275065182dc95640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 023/107] fix: unit of a broadcast derived unit that becomes a
 scalar by indexing

---
 src/pysimulators/quantities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 7444fae..16bb8c8 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -900,9 +900,10 @@ class Quantity(np.ndarray):
             # the derived unit is broadcastable, let's update it
             broadcast = d[pos + 1 : -1]
             if broadcast == 'leftward':
-                v = v[key[-v.ndim :]]
+                dukey = key[-v.ndim :]
             else:
-                v = v[key[: v.ndim]]
+                dukey = key[: v.ndim]
+            v = Quantity(v.magnitude[dukey], v._unit, v._derived_units)
 
             if du is None:
                 du = item._derived_units.copy()
-- 
2.43.0


From 7812e9fd9b3dd3650941fb1b6026acd95d6d4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 024/107] fix: conversion of quantities with leftward broadcast
 derived units

---
 src/pysimulators/quantities.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 16bb8c8..d3fb780 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1053,20 +1053,26 @@ class Quantity(np.ndarray):
             self._unit = newunit
             return
 
+        # the derived units that are broadcast should be matched to the dimensions
+        # of the quantity
+        one = 1.0
+        if any(isinstance(_, str) and '[' in _ for _ in self.derived_units):
+            one = np.ones(self.shape)
+
         # the header may contain information used to do unit conversions
         if hasattr(self, '_header'):
             q1 = self.__class__(
-                1,
+                one,
                 header=self._header,
                 unit=self._unit,
                 derived_units=self.derived_units,
             ).SI
             q2 = self.__class__(
-                1, header=self._header, unit=newunit, derived_units=self.derived_units
+                one, header=self._header, unit=newunit, derived_units=self.derived_units
             ).SI
         else:
-            q1 = Quantity(1.0, self._unit, self.derived_units).SI
-            q2 = Quantity(1.0, newunit, self.derived_units).SI
+            q1 = Quantity(one, self._unit, self.derived_units).SI
+            q2 = Quantity(one, newunit, self.derived_units).SI
 
         if q1._unit != q2._unit:
             raise UnitError(
-- 
2.43.0


From 8de129928b496e7ccc73cc8dd4d9489ea97f32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 025/107] fix: selection of the broadcast derived units by an
 Ellipsis or a list

---
 src/pysimulators/quantities.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d3fb780..7f98c9e 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -874,18 +874,14 @@ class Quantity(np.ndarray):
         if self.dtype.kind == 'V' and isinstance(key, str):
             return item.view(Quantity)
 
-        if isinstance(key, list):
-            key = tuple(key)
-
         if not isinstance(key, tuple):
             key = (key,)
 
         # Replace Ellipsis with ':'
-        try:
-            pos = key.index(Ellipsis)
-            key = key[:pos] + (self.ndim - len(key)) * (slice(None),) + key[pos + 1 :]
-        except ValueError:
-            pass
+        pos = next((i for i, _ in enumerate(key) if _ is Ellipsis), None)
+        if pos is not None:
+            n = self.ndim - len(key) + 1
+            key = key[:pos] + n * (slice(None),) + key[pos + 1 :]
 
         key += (self.ndim - len(key)) * (slice(None),)
 
-- 
2.43.0


From c9237e267b853881c24caddad75d320c89001597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 026/107] fix: kernel and coverage of the projections in
 non-contiguous outputs

---
 src/pysimulators/operators.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index e6a0e72..8326e9f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1034,7 +1034,7 @@ class ProjectionOperator(SparseOperator):
             if operation in (operation_assignment, operator.iand, operator.imul):
                 if operation is operation_assignment:
                     out[...] = True
-                kernel = out
+                kernel = np.ascontiguousarray(out)
             else:
                 kernel = np.ones_like(out)
 
@@ -1048,6 +1048,8 @@ class ProjectionOperator(SparseOperator):
                 data.strides[-1],
             )
             if operation in (operation_assignment, operator.iand, operator.imul):
+                if kernel is not out:
+                    out[...] = kernel
                 return out
         else:
             if isinstance(self.matrix, FSRMatrix):
@@ -1087,6 +1089,9 @@ class ProjectionOperator(SparseOperator):
             )
         if operation not in (operation_assignment, operator.iadd):
             raise ValueError('Invalid reduction operation.')
+        if not out.flags.c_contiguous:
+            out[...] = self.pT1(np.array(out, order='C'), operation)
+            return out
 
         isize = int(self.matrix.data.index.dtype.itemsize)
         rsize = int(self.matrix.dtype.itemsize)
@@ -1173,6 +1178,10 @@ class ProjectionOperator(SparseOperator):
             pTx, pT1 = out
         if operation not in (operation_assignment, operator.iadd):
             raise ValueError('Invalid reduction operation.')
+        if not pTx.flags.c_contiguous or not pT1.flags.c_contiguous:
+            out = np.array(pTx, order='C'), np.array(pT1, order='C')
+            pTx[...], pT1[...] = self.pTx_pT1(x, out, operation)
+            return pTx, pT1
 
         isize = int(self.matrix.data.index.dtype.itemsize)
         rsize = int(self.matrix.dtype.itemsize)
-- 
2.43.0


From 10bb8cf2626591a042a6fb394c75aadc6fb364b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 027/107] fix: the operands of fmax, fmin and remainder were
 not homogenised

---
 src/pysimulators/quantities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 7f98c9e..0589113 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -741,10 +741,13 @@ class Quantity(np.ndarray):
         if ufunc in (
             np.add,
             np.clip,
+            np.fmax,
+            np.fmin,
             np.fmod,
             np.hypot,
             np.maximum,
             np.minimum,
+            np.remainder,
             np.subtract,
         ):
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
@@ -768,9 +771,6 @@ class Quantity(np.ndarray):
             np.fabs,
             np.float_power,
             np.floor,
-            np.fmax,
-            np.fmin,
-            np.hypot,
             np.negative,
             np.positive,
             np.rint,
-- 
2.43.0


From d691940a13046d115b316d88ca9812c04efa0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 028/107] fix: the operands of arctan2 were not homogenised

---
 src/pysimulators/quantities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 0589113..7cf396a 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -753,6 +753,7 @@ class Quantity(np.ndarray):
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
 
         elif ufunc in (
+            np.arctan2,
             np.equal,
             np.greater,
             np.greater_equal,
-- 
2.43.0


From 58b65ffaea27100d53a8413a0c1b03ed7fb6473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 029/107] fix: the bounds of clip were not homogenised

---
 src/pysimulators/quantities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 7cf396a..c768d71 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -30,6 +30,9 @@ if numpy_version < '2.2.0':
     np.vecmat = None
 
 
+# unlike np.clip, which is a function
+UFUNC_CLIP = np._core.umath.clip
+
 _RE_UNIT = re.compile(r' *([/*])? *([a-zA-Z_"\']+|\?+)(\^-?[0-9]+(\.[0-9]*)?)? *')
 
 
@@ -98,7 +101,6 @@ FUNCTIONS = {
     ),
     np.broadcast_to: DEFAULT_CONVERSION,
     np.choose: ConversionType(ConversionInput.SECOND_SEQUENCE),
-    np.clip: DEFAULT_CONVERSION,
     np.column_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
     np.compress: ConversionType(ConversionInput.SECOND),
     np.concat: ConversionType(ConversionInput.FIRST_SEQUENCE),
@@ -740,7 +742,7 @@ class Quantity(np.ndarray):
 
         if ufunc in (
             np.add,
-            np.clip,
+            UFUNC_CLIP,
             np.fmax,
             np.fmin,
             np.fmod,
-- 
2.43.0


From 8d57b6ffe786ad9611e23becef3466c33bbea426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 030/107] fix: unit of copysign, float_power and modf

---
 src/pysimulators/quantities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index c768d71..4a9bf10 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -772,14 +772,14 @@ class Quantity(np.ndarray):
             np.conjugate,
             np.copysign,
             np.fabs,
-            np.float_power,
             np.floor,
+            np.modf,
             np.negative,
             np.positive,
             np.rint,
             np.trunc,
         ):
-            output_unit = self._unit
+            output_unit = input_units[0]
 
         elif ufunc is np.reciprocal:
             output_unit = _power_unit(input_units[0], -1)
@@ -793,7 +793,7 @@ class Quantity(np.ndarray):
         elif ufunc is np.square:
             output_unit = _power_unit(input_units[0], 2)
 
-        elif ufunc is np.power:
+        elif ufunc in (np.power, np.float_power):
             power = (
                 inputs[1].view(np.ndarray)
                 if isinstance(inputs[1], Quantity)
-- 
2.43.0


From 433bb1b125c140201c6c1a8d2be4fc4fb503eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 031/107] fix: unit of the product of the elements of a
 quantity

---
 src/pysimulators/quantities.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 4a9bf10..61284b5 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -801,6 +801,10 @@ class Quantity(np.ndarray):
             )
             output_unit = _power_unit(input_units[0], power)
 
+        elif ufunc is np.multiply and method == 'reduce':
+            # set from the number of multiplied elements
+            output_unit = input_units[0]
+
         elif ufunc in (np.matmul, np.matvec, np.multiply, np.vecdot, np.vecmat):
             output_unit = _multiply_unit(input_units[0], input_units[1])
 
@@ -835,6 +839,9 @@ class Quantity(np.ndarray):
         if result is None or result is NotImplemented or output_unit is None:
             return result
 
+        if ufunc is np.multiply and method == 'reduce' and np.size(result) > 0:
+            output_unit = _power_unit(output_unit, np.size(inputs[0]) // np.size(result))
+
         # Handle tuple results (for ufuncs with multiple outputs)
         if isinstance(result, tuple):
             return tuple(self._process_ufunc_result(r, output_unit) for r in result)
-- 
2.43.0


From a610de0cfbef47096fa0c07351c93121ed40a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 032/107] fix: the unit of the output buffer of the ufuncs was
 not updated

---
 src/pysimulators/quantities.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 61284b5..62d8092 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -836,7 +836,15 @@ class Quantity(np.ndarray):
             ],
             **kwargs,
         )
-        if result is None or result is NotImplemented or output_unit is None:
+        if result is None or result is NotImplemented:
+            return result
+
+        if out is not None and not isinstance(out, tuple):
+            out = (out,)
+        if output_unit is None:
+            for o in out or ():
+                if isinstance(o, Quantity):
+                    o._unit = {}
             return result
 
         if ufunc is np.multiply and method == 'reduce' and np.size(result) > 0:
@@ -844,14 +852,24 @@ class Quantity(np.ndarray):
 
         # Handle tuple results (for ufuncs with multiple outputs)
         if isinstance(result, tuple):
-            return tuple(self._process_ufunc_result(r, output_unit) for r in result)
+            if out is None:
+                out = len(result) * (None,)
+            return tuple(
+                self._process_ufunc_result(r, output_unit, o)
+                for r, o in zip(result, out)
+            )
 
-        return self._process_ufunc_result(result, output_unit)
+        return self._process_ufunc_result(
+            result, output_unit, None if out is None else out[0]
+        )
 
-    def _process_ufunc_result(self, result, output_unit):
+    def _process_ufunc_result(self, result, output_unit, out=None):
         """
         Process the result of a ufunc call, setting the appropriate unit.
         """
+        if isinstance(out, Quantity):
+            out._unit = output_unit
+            return out
         if np.isscalar(result):
             result = type(self)(result)
         else:
-- 
2.43.0


From 980532342eba291ca2f5d4129b389f88b5e0b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 033/107] fix: the operands of divmod were not homogenised

---
 src/pysimulators/quantities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 62d8092..13af6d9 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -743,6 +743,7 @@ class Quantity(np.ndarray):
         if ufunc in (
             np.add,
             UFUNC_CLIP,
+            np.divmod,
             np.fmax,
             np.fmin,
             np.fmod,
@@ -753,6 +754,8 @@ class Quantity(np.ndarray):
             np.subtract,
         ):
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
+            if ufunc is np.divmod:
+                output_unit = {}, output_unit
 
         elif ufunc in (
             np.arctan2,
@@ -854,9 +857,11 @@ class Quantity(np.ndarray):
         if isinstance(result, tuple):
             if out is None:
                 out = len(result) * (None,)
+            if not isinstance(output_unit, tuple):
+                output_unit = len(result) * (output_unit,)
             return tuple(
-                self._process_ufunc_result(r, output_unit, o)
-                for r, o in zip(result, out)
+                self._process_ufunc_result(r, u, o)
+                for r, u, o in zip(result, output_unit, out)
             )
 
         return self._process_ufunc_result(
-- 
2.43.0


From 485915a00b92ffff8e07536b5791de7ac637dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 034/107] fix: the unit of the output buffer of the functions
 was not updated

---
 src/pysimulators/quantities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 13af6d9..091c98d 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -502,6 +502,8 @@ class Quantity(np.ndarray):
         if conversion is None:
             return super().__array_function__(func, types, args, kwargs)
 
+        out = kwargs.get('out')
+
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
 
@@ -510,6 +512,9 @@ class Quantity(np.ndarray):
         )
         converted_inputs = self._view_function_inputs(converted_inputs, conversion)
         outputs = func(*converted_inputs, **kwargs)
+        if isinstance(out, Quantity) and isinstance(output_units, dict) and output_units:
+            out._unit = output_units
+            return out
         if conversion.output is ConversionOutput.NONE:
             return None
 
-- 
2.43.0


From f7d3348d1f894f8f491fc6a6a33530b6ef700369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:13 +0000
Subject: [PATCH 035/107] fix: np.average dropped the unit when the sum of the
 weights is also returned

---
 src/pysimulators/quantities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 091c98d..8ab3a40 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -94,7 +94,7 @@ FUNCTIONS = {
     np.atleast_1d: DEFAULT_CONVERSION,
     np.atleast_2d: DEFAULT_CONVERSION,
     np.atleast_3d: DEFAULT_CONVERSION,
-    np.average: DEFAULT_CONVERSION,
+    np.average: ConversionType(output=ConversionOutput.FIRST_IF_SEQUENCE),
     # np.block: ConversionType(ConversionInput.FIRST_NESTED),
     np.broadcast_arrays: ConversionType(
         ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
@@ -704,7 +704,10 @@ class Quantity(np.ndarray):
                 )
                 or conversion.output is ConversionOutput.SEQUENCE
             ):
-                array = array.view(type(self))
+                if np.isscalar(array):
+                    array = type(self)(array)
+                else:
+                    array = array.view(type(self))
                 array.__array_finalize__(self)
                 array._unit = units
             outputs.append(array)
-- 
2.43.0


From 5da44ef4b3a3d8e1321d5009c6989b2a60eb9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 036/107] fix: np.atleast_nd dropped the units of several
 arguments

---
 src/pysimulators/quantities.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 8ab3a40..80a63f5 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -91,9 +91,15 @@ FUNCTIONS = {
     np.append: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.around: DEFAULT_CONVERSION,
     np.array_split: ConversionType(output=ConversionOutput.SEQUENCE),
-    np.atleast_1d: DEFAULT_CONVERSION,
-    np.atleast_2d: DEFAULT_CONVERSION,
-    np.atleast_3d: DEFAULT_CONVERSION,
+    np.atleast_1d: ConversionType(
+        ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
+    ),
+    np.atleast_2d: ConversionType(
+        ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
+    ),
+    np.atleast_3d: ConversionType(
+        ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
+    ),
     np.average: ConversionType(output=ConversionOutput.FIRST_IF_SEQUENCE),
     # np.block: ConversionType(ConversionInput.FIRST_NESTED),
     np.broadcast_arrays: ConversionType(
@@ -518,6 +524,8 @@ class Quantity(np.ndarray):
         if conversion.output is ConversionOutput.NONE:
             return None
 
+        if isinstance(output_units, tuple) and isinstance(outputs, np.ndarray):
+            (output_units,) = output_units
         converted_outputs = self._convert_function_outputs(
             outputs, output_units, conversion
         )
-- 
2.43.0


From cdafe372422a5dd9fcab097fcc04f7c5f4579b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 037/107] fix: the functions returning several arrays mixed up
 the masks of Tods

---
 src/pysimulators/quantities.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 80a63f5..eab7476 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -712,12 +712,7 @@ class Quantity(np.ndarray):
                 )
                 or conversion.output is ConversionOutput.SEQUENCE
             ):
-                if np.isscalar(array):
-                    array = type(self)(array)
-                else:
-                    array = array.view(type(self))
-                array.__array_finalize__(self)
-                array._unit = units
+                array = self._convert_function_outputs(array, units, conversion)
             outputs.append(array)
 
         # If input was a namedtuple, reconstruct it with the same type
-- 
2.43.0


From 788cdd2967d903e368d7ec47a03ec5575ae2d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 038/107] fix: np.reshape of Maps and Tods refused the
 positional order and the shape keyword

---
 src/pysimulators/datatypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f77288a..ad865e3 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -37,6 +37,10 @@ from .wcsutils import create_fitsheader_for, has_wcs
 __all__ = ['FitsArray', 'Map', 'Tod']
 
 
+def _reshape(a, shape, order='C', **keywords):
+    return a.reshape(shape, order=order, **keywords)
+
+
 class FitsArray(Quantity):
     """
     FitsArray(filename|object, header=None, unit=None, derived_units=None,
@@ -708,7 +712,7 @@ class Map(FitsArray):
 
     def __array_function__(self, func, types, args, kwargs):
         if func is np.reshape:
-            return args[0].reshape(*args[1:], **kwargs)
+            return _reshape(*args, **kwargs)
         if func is np.ravel:
             return args[0].ravel(*args[1:], **kwargs)
         return super().__array_function__(func, types, args, kwargs)
@@ -1135,7 +1139,7 @@ class Tod(FitsArray):
     def __array_function__(self, func, types, args, kwargs):
         """Handle NumPy functions on Tod objects, respecting the mask."""
         if func is np.reshape:
-            return args[0].reshape(*args[1:], **kwargs)
+            return _reshape(*args, **kwargs)
         if func is np.ravel:
             return args[0].ravel(*args[1:], **kwargs)
         return super().__array_function__(func, types, args, kwargs)
-- 
2.43.0


From b9aeacccbe122f2b4d513ccc03d659cbb8b2176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:08 +0000
Subject: [PATCH 039/107] fix: the reduction of a fully masked Tod had the mask
 of the input

---
 src/pysimulators/datatypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index ad865e3..0de4ac1 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1158,6 +1158,7 @@ class Tod(FitsArray):
         if isinstance(arrays, np.ma.core.MaskedConstant):
             output = type(self)(np.nan, mask=True)
             output.__array_finalize__(self)
+            output._mask = np.ones(output.shape, np.bool_)  # not inherited from self
             output._unit = output_units
             return output
 
-- 
2.43.0


From a40b000f995e8c67497ca87de359e542eb184c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 040/107] fix: the FITS files of integers could not be read

---
 src/pysimulators/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 0de4ac1..fd930f7 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -128,7 +128,7 @@ class FitsArray(Quantity):
 
             data, header = read_fits(data, None, comm)
 
-            copy = False
+            copy = None
             if unit is None:
                 if 'BUNIT' in header:
                     unit = header['BUNIT']
-- 
2.43.0


From c6c5ee695189569dd4c6ddcbb0fb91f9cec942eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 041/107] fix: the companions of the Maps and Tods read from a
 Path were ignored

---
 src/pysimulators/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index fd930f7..7ba105e 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -664,7 +664,7 @@ class Map(FitsArray):
         if not subok and type(result) is not cls:
             result = result.view(cls)
 
-        if isinstance(data, str):
+        if isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
@@ -1070,7 +1070,7 @@ class Tod(FitsArray):
         if mask is np.ma.nomask:
             mask = None
 
-        if mask is None and isinstance(data, str):
+        if mask is None and isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
-- 
2.43.0


From b2160542666f3c522cfac9cca60aa9beada0dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 042/107] fix: a dimensionless array was saved with the stale
 unit of its header

---
 src/pysimulators/datatypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 7ba105e..185dd79 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -318,6 +318,9 @@ class FitsArray(Quantity):
 
         if len(self._unit) != 0:
             header['BUNIT'] = self.unit
+        else:
+            header.remove('BUNIT', ignore_missing=True)
+            header.remove('QTTY____', ignore_missing=True)
 
         write_fits(filename, self, header, False, None, comm)
         if not self.derived_units:
-- 
2.43.0


From 64dcdf06739dba1c6464b0c144ebd4256a1c0e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 043/107] fix: the reference pixel of the distributed FITS
 files was not shifted along the distributed axis

---
 src/pysimulators/mpiutils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..c285846 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -197,12 +197,10 @@ def read_fits(filename, extname, comm):
         output = output.byteswap().view(output.dtype.newbyteorder('='))
 
     # update the header
-    header['NAXIS' + str(header['NAXIS'])] = s.stop - s.start
-    try:
-        if header['CTYPE1'] == 'RA---TAN' and header['CTYPE2'] == 'DEC--TAN':
-            header['CRPIX2'] -= s.start
-    except KeyError:
-        pass
+    axis = str(header['NAXIS'])
+    header['NAXIS' + axis] = s.stop - s.start
+    if 'CRPIX' + axis in header:
+        header['CRPIX' + axis] -= s.start
     comm.Barrier()
 
     return output, header
-- 
2.43.0


From d0203a6c7d6575b485243190a09357579ccafd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 044/107] fix: the collective writing of FITS files failed with
 NumPy 2 and current Astropy

---
 src/pysimulators/mpiutils.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index c285846..0872b9e 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -3,7 +3,6 @@
 #
 
 import os
-import sys
 from pathlib import Path
 
 import numpy as np
@@ -275,9 +274,10 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # get global/local parameters
     nglobal = sum(s[0] for s in shapes)
-    s = split(nglobal, comm.size, comm.rank)
+    slices = list(split(nglobal, comm.size))
+    s = slices[comm.rank]
     nlocal = s.stop - s.start
-    if data.shape[0] != nlocal:
+    if any(sh[0] != sl.stop - sl.start for sh, sl in zip(shapes, slices)):
         msg = '' if comm.rank > 0 else f' Shapes are: {shapes}.'
         raise ValueError(
             f"On rank {comm.rank}, the local array shape '{data.shape}' is invalid. "
@@ -287,10 +287,13 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # write FITS header
     if comm.rank == 0:
-        header['NAXIS' + str(ndim)] = nglobal
-        shdu = pyfits.StreamingHDU(filename, header)
-        data_loc = shdu._datLoc
+        header['BITPIX'] = pyfits.DTYPE2BITPIX[data.dtype.name]
+        header['NAXIS'] = ndim
+        for i, n in enumerate((nglobal,) + data.shape[1:]):
+            header['NAXIS' + str(ndim - i)] = n
+        shdu = pyfits.StreamingHDU(os.fspath(filename), header)
         shdu.close()
+        data_loc = os.path.getsize(filename)
     else:
         data_loc = None
     data_loc = comm.bcast(data_loc)
@@ -299,20 +302,14 @@ def write_fits(filename, data, header, extension, extname, comm):
     # (Create_subarray does not allow 0-sized subarrays)
     chunk = product(data.shape[1:])
     rank_nowork = min(comm.size, nglobal)
-    group = comm.Get_group()
-    group.Incl(list(range(rank_nowork)))
+    group = comm.Get_group().Incl(list(range(rank_nowork)))
     newcomm = comm.Create(group)
 
     # collectively write data
     if comm.rank < rank_nowork:
         # mpi4py 1.2.2: pb with viewing data as big endian KeyError '>d'
-        if (
-            sys.byteorder == 'little'
-            and data.dtype.byteorder == '='
-            or data.dtype.byteorder == '<'
-        ):
-            data = data.byteswap()
-        data = data.newbyteorder('=')
+        data = np.array(data, data.dtype.newbyteorder('>'), order='C')
+        data = data.view(data.dtype.newbyteorder('='))
         mtype = DTYPE_MAP[data.dtype]
         ftype = mtype.Create_subarray(
             [nglobal * chunk], [nlocal * chunk], [s.start * chunk]
@@ -325,13 +322,13 @@ def write_fits(filename, data, header, extension, extname, comm):
         f.Write_all(data)
         f.Close()
         ftype.Free()
-    newcomm.Free()
+        newcomm.Free()
 
     # pad FITS file with zeros
     if comm.rank == 0:
         datasize = nglobal * chunk * int(data.dtype.itemsize)
         BLOCK_SIZE = 2880
-        padding = BLOCK_SIZE - (datasize % BLOCK_SIZE)
+        padding = -datasize % BLOCK_SIZE
         with open(filename, 'a') as f:
             if f.tell() - data_loc != datasize:
                 raise RuntimeError('Unexpected file size.')
-- 
2.43.0


From dd450f2fe873bcb65d3782ce9c1a4f30b4ea852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 045/107] fix: stack the blocks of an acquisition along its
 samplings

The default Acquisition.get_operator combined its blocks with a
BlockColumnOperator partitioned along its input, which always raises
NotImplementedError.
---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 40bc987..48f4201 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -237,7 +237,7 @@ class Acquisition:
                             self.instrument.get_operator(self.sampling[b], self.scene)
                             for b in self.block
                         ],
-                        axisin=1,
+                        axisout=1,
                     ),
                     self.scene.get_distribution_operator(self.comm),
                 ]
-- 
2.43.0


From 0f2959b86ae7f536dee28b2da3101d92ca17c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 046/107] fix: a selection of an acquisition does not inherit
 its cached operator

The operator of a selection made after a call to get_operator was the operator
of the whole acquisition.
---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 48f4201..645b87e 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -163,7 +163,7 @@ class Acquisition:
             return out
 
         if any(not is_colon(_) for _ in x):
-            self._operator = None
+            out._operator = None
             gc.collect()
 
         out.instrument = self.instrument[x[0]]
-- 
2.43.0


From 0866dd5b85cd9f6566912d5909bc5adec08b89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 047/107] fix: check the number of processes when both
 dimensions of the grid are given

nprocs_sampling was silently replaced when nprocs_instrument was specified.
---
 src/pysimulators/acquisitions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 645b87e..e92e16b 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -98,7 +98,8 @@ class Acquisition:
                 raise ValueError(
                     f"Invalid value for nprocs_instrument '{nprocs_instrument}'."
                 )
-            nprocs_sampling = comm.size // nprocs_instrument
+            if nprocs_sampling is None:
+                nprocs_sampling = comm.size // nprocs_instrument
         if nprocs_instrument * nprocs_sampling != comm.size:
             raise ValueError('Invalid MPI distribution of the acquisition.')
 
-- 
2.43.0


From 18d59ce9dc49341c99a8f014c7cb3d3249266c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 048/107] fix: selection of more samplings than those of the
 acquisition

The blocks did not cover the additional samplings: the operator ignored them
and the noise was not initialised.
---
 src/pysimulators/acquisitions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index e92e16b..b8df604 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -171,6 +171,12 @@ class Acquisition:
         if not is_colon(x[0]):
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
         out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
+        nsamplings = len(out.sampling)
+        if nsamplings > len(self.sampling):
+            # cover the additional samplings without increasing the block size
+            sizes = [len(range(*b.indices(len(self.sampling)))) for b in self.block]
+            nblocks = int(np.ceil(nsamplings / max(1, *sizes, 0)))
+            out.block = tuple(split(nsamplings, nblocks))
         if not is_colon(x[1]):
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
         out.scene = self.scene[x[2]]
-- 
2.43.0


From d243ac83d441252400f31c64e9de2d669e297168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 049/107] fix: size of the operator of an acquisition without
 detector or sampling

A process without detector or sampling raised an IndexError.
---
 src/pysimulators/acquisitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index b8df604..8f1fc6d 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -257,6 +257,8 @@ class Acquisition:
         as an operator.
 
         """
+        if len(self.instrument) == 0 or len(self.sampling) == 0:
+            return 0
         n = self[0, 0].get_operator().nbytes
         return n * len(self.instrument) * len(self.sampling)
 
-- 
2.43.0


From eb9ec6c1002a46b6bbe62ecdabd7dad220cd0a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 050/107] fix: do not ignore the keywords of the methods pack
 and unpack of acquisitions

---
 src/pysimulators/acquisitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 8f1fc6d..5cc038f 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -196,12 +196,14 @@ class Acquisition:
     __repr__ = __str__
 
     def pack(self, x, out=None, copy=False):
-        return self.instrument.detector.pack(x)
+        return self.instrument.detector.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
     def unpack(self, x, out=None, missing_value=None, copy=False):
-        return self.instrument.detector.unpack(x)
+        return self.instrument.detector.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From 182173cb9ab6f7bc49523102abb1924b8d4dedea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 051/107] fix: sparse matrices without row or column

The projection of a process without detector or sampling raised a
ZeroDivisionError.
---
 src/pysimulators/sparse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 1678d08..31e2cd9 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -115,6 +115,11 @@ class _FSMatrix:
     def _matvec(self, v, out, nmax):
         v = np.asarray(v).ravel()
         self._validatein(v.shape)
+        if 0 in self.shape:
+            # no element to be added to the output
+            if out is None:
+                out = np.zeros(self.shape[0], np.result_type(self.dtype, v.dtype))
+            return v, out, True
         if out is None:
             out = np.zeros(
                 v.size * self.shape[0] // self.shape[1],
@@ -221,7 +226,7 @@ class _FSMatrix:
         if not isinstance(self, (FSCMatrix, FSRMatrix)):
             if size == self.shape[1]:
                 return
-        elif size % self.shape[1] == 0:
+        elif size % max(1, self.shape[1]) == 0:
             return
         raise ValueError(
             f"The shape '{shape}' is incompatible with the number of columns of the "
@@ -233,7 +238,7 @@ class _FSMatrix:
         if not isinstance(self, (FSCMatrix, FSRMatrix)):
             if size == self.shape[0]:
                 return
-        elif size % self.shape[0] == 0:
+        elif size % max(1, self.shape[0]) == 0:
             return
         raise ValueError(
             f"The shape '{shape}' is incompatible with the number of rows of the sparse"
@@ -875,7 +880,7 @@ class SparseOperator(SparseBase):
     def validatein(self, shape):
         size = product(shape)
         if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
-            if size % self.matrix.shape[1] != 0:
+            if size % max(1, self.matrix.shape[1]) != 0:
                 raise ValueError(
                     f"The input shape '{shape}' is incompatible with the expected "
                     f"number of column '{self.matrix.shape[1]}'."
@@ -885,7 +890,7 @@ class SparseOperator(SparseBase):
     def validateout(self, shape):
         size = product(shape)
         if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
-            if size % self.matrix.shape[0] != 0:
+            if size % max(1, self.matrix.shape[0]) != 0:
                 raise ValueError(
                     f"The output shape '{shape}' is incompatible with the expected "
                     f"number of rows '{self.matrix.shape[0]}'."
-- 
2.43.0


From 1c64134e63352548e55e974512b74e44e931e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 052/107] fix: a selection of an acquisition does not change
 its communicators

Selecting all the detectors or samplings of a process with a slice such as 0:n
returns the table itself, the communicator of which was replaced.
---
 src/pysimulators/acquisitions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 5cc038f..ef32849 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -169,6 +169,8 @@ class Acquisition:
 
         out.instrument = self.instrument[x[0]]
         if not is_colon(x[0]):
+            # the selection may be the table itself
+            out.instrument.detector = copy(out.instrument.detector)
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
         out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
         nsamplings = len(out.sampling)
@@ -178,6 +180,7 @@ class Acquisition:
             nblocks = int(np.ceil(nsamplings / max(1, *sizes, 0)))
             out.block = tuple(split(nsamplings, nblocks))
         if not is_colon(x[1]):
+            out.sampling = copy(out.sampling)
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
         out.scene = self.scene[x[2]]
 
-- 
2.43.0


From 23711bda452878e9127c573f28f76a38c2d196ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 053/107] fix: reductions of Acquisition.get_observation

The documented out and operation keywords raised a ValueError for acquisitions
with several blocks, and for other operations than iadd.
---
 src/pysimulators/acquisitions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index ef32849..8ea5462 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -230,8 +230,13 @@ class Acquisition:
             operation(out, get_observation(x))
 
         """
+        if operation is not operation_assignment:
+            if out is None:
+                raise ValueError('The output buffer is not specified.')
+            operation(out, self.get_observation(x, noiseless=noiseless))
+            return out
         H = self.get_operator()
-        out = H(x, out, operation=operation)
+        out = H(x, out)
         if not noiseless:
             self.get_noise(out, operation=operator.iadd)
         return out
-- 
2.43.0


From d5b7fcde921b52d6863dd89b4d9bb27ffc5f4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 054/107] fix: distribution of no observation or no valid
 detector

distribute_observation raised UnboundLocalError or ZeroDivisionError.
---
 src/pysimulators/mpiutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 0872b9e..e1d3d09 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -110,7 +110,7 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
 
     # we start with the minimum blocksize and increase it until we find a
     # configuration that covers all the observations
-    blocksize = int(np.ceil(nx * ny / size))
+    blocksize = max(1, int(np.ceil(nx * ny / size)))
     while True:
         # by looping over x first, we favor larger numbers of detectors and
         # fewer numbers of observations per processor, to minimise inter-
@@ -128,8 +128,8 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
             break
         blocksize += 1
 
-    ix = rank // ny_block
-    iy = rank % ny_block
+    ix = rank // max(1, ny_block)
+    iy = rank % max(1, ny_block)
 
     # check that the processor has something to do
     if ix >= nx_block:
-- 
2.43.0


From f17ebf2de9eef0fed05362c1abc75c9d9230b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 055/107] fix: gather_fitsheader_if_needed did not compare the
 types of the axes

The keyword was misspelled: headers of different projections were gathered.
---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index e1d3d09..8cb124b 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -53,7 +53,7 @@ def gather_fitsheader_if_needed(header, comm=MPI.COMM_WORLD):
             'The input FITS header does not define a world coordi' 'nate system.'
         )
     naxis = header['NAXIS']
-    required_same = ['CRVAL1', 'CRVAL2', 'CRTYPE1', 'CRTYPE2', 'CDELT1', 'CDELT2']
+    required_same = ['CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
     required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
     required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
     headers = comm.allgather(header)
-- 
2.43.0


From 70a99639fa78e73a23760ae32a41b5e495b3cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 056/107] fix: FITS headers created from a CD matrix

The keyword cd of create_fitsheader raised an UnboundLocalError.
---
 src/pysimulators/wcsutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 9e94496..2fc14d2 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -281,9 +281,9 @@ def create_fitsheader(
         if pa is None:
             pa = 0.0
         theta = np.deg2rad(-pa)
-    cd = np.diag(cdelt).dot(
-        np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
-    )
+        cd = np.diag(cdelt).dot(
+            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
+        )
 
     crval = np.asarray(crval, float)
     if crval.size != 2:
-- 
2.43.0


From bcf08f3c9522950fadb1580198d90105613ea85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 057/107] fix: conversion of a string into a FITS header

str2fitsheader relied on a method which has been removed from Astropy, and would
have stopped at a keyword starting with END.
---
 src/pysimulators/wcsutils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 2fc14d2..9fc7ea2 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -492,16 +492,15 @@ def str2fitsheader(string):
     All cards are extracted from the input string until the END keyword is
     reached.
     """
-    header = pyfits.Header()
-    cards = header.ascard()
+    cards = []
     iline = 0
     while iline * 80 < len(string):
         line = string[iline * 80 : (iline + 1) * 80]
-        if line[0:3] == 'END':
+        if line[0:8].rstrip() == 'END':
             break
-        cards.append(pyfits.Card().fromstring(line))
+        cards.append(pyfits.Card.fromstring(line))
         iline += 1
-    return header
+    return pyfits.Header(cards)
 
 
 @real
-- 
2.43.0


From bd7923087c6b9fd2b8562b4d4e1974ad9d6fb840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 058/107] fix: values of the constants NaN, mInf and pInf of
 the Fortran modules

They only had 32 bits: the constants were denormalised numbers, so that the
minimum of minmax_degrees was null and the means of no valid value were not NaN.
---
 src/flib/module_math_old.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 61df943..4afbc57 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -49,9 +49,9 @@ module module_math_old
     !XXX should use ieee_arithmetic instead when gfortran implements it. So far, gfortran doesn't allow NaN, mInf, pInf conversion
     ! between different real kinds...
 #if PRECISION_REAL == 8
-    real(8), parameter :: NaN  = real(z'FFFFFFFF', 8)
-    real(8), parameter :: mInf = real(z'FFFF0000', 8)
-    real(8), parameter :: pInf = real(z'7FFF0000', 8)
+    real(8), parameter :: NaN  = transfer(int(z'7FF8000000000000', 8), 1._8)
+    real(8), parameter :: mInf = -transfer(int(z'7FF0000000000000', 8), 1._8)
+    real(8), parameter :: pInf = transfer(int(z'7FF0000000000000', 8), 1._8)
 #elif PRECISION_REAL == 16
     real(16), parameter :: NaN  = z'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF'
     real(16), parameter :: mInf = z'FFFF0000000000000000000000000000'
-- 
2.43.0


From 6c7675c6579b6957775c6af2052865ea30d3e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 059/107] fix: number of samples given to the Fortran routines
 of the pointing matrices

The products by ProjectionInMemoryOperator and ProjectionOnFlyOperator raised a
TypeError because of a missing argument.
---
 src/pysimulators/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 8326e9f..6a7ca9d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -644,7 +644,11 @@ class ProjectionBaseOperator(Operator):
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -664,7 +668,11 @@ class ProjectionBaseOperator(Operator):
         else:
             input_ = input
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.T,
+            output.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
 
     def set_attrin(self, attr):
@@ -744,6 +752,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         else:
             flib.pointingmatrix.backprojection_weight(
@@ -752,6 +761,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         return out
 
-- 
2.43.0


From 7e16ac38a03bf9c58c9399f4c24213eefc855d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 060/107] fix: data type of the pTp array of the projection
 operators

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 6a7ca9d..3eb37ad 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -710,9 +710,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From 5daac039ec92648b192e997abd37e7a51fffbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 061/107] fix: mask argument of get_pTx_pT1

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 3eb37ad..d63852c 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -743,12 +743,13 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
+                np.asarray(mask, np.bool_).ravel().view(np.int8),
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
-- 
2.43.0


From f6776ded99c7fb91420e7298585d65dd89ed608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 062/107] fix: intersects method of the projection operators
 with recent numpy

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index d63852c..9d0d0fa 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -774,7 +774,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From 78bdae9d0f36f5492cb6b0079e9e63ede4fc63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 063/107] fix: projection of the samples which do not intersect
 the map

---
 src/flib/module_pointingmatrix.f90 | 2 ++
 src/pysimulators/operators.py      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9d0d0fa..73c34a1 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -636,6 +636,7 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
         if not output.flags.contiguous:
             if pyoperators.memory.verbose:
-- 
2.43.0


From 77f15981a89b5701faf223aeaec44ce52b1d19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 064/107] fix: projections into outputs which are not
 contiguous

---
 src/pysimulators/operators.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 73c34a1..10e2693 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -639,9 +639,9 @@ class ProjectionBaseOperator(Operator):
             output[...] = 0
             return
         if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty(output.shape, output.dtype)
         else:
             output_ = output
         flib.pointingmatrix.direct(
@@ -668,13 +668,21 @@ class ProjectionBaseOperator(Operator):
             input_ = np.ascontiguousarray(input)
         else:
             input_ = input
+        if not output.flags.contiguous:
+            if pyoperators.config.VERBOSE:
+                print('Optimize me: Projection.T output is not contiguous.')
+            output_ = np.ascontiguousarray(output)
+        else:
+            output_ = output
         flib.pointingmatrix.transpose(
             matrix.ravel().view(np.int64),
             input_.T,
-            output.T,
+            output_.T,
             matrix.shape[-1],
             matrix.size // matrix.shape[-1],
         )
+        if not output.flags.contiguous:
+            output[...] = output_
 
     def set_attrin(self, attr):
         if '_header' in attr:
-- 
2.43.0


From c02ad21a8f293530d6cb3ac76ceb5057e9ec39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 065/107] fix: write before the first pixel in the
 simplification of P.T * P

---
 src/flib/pointingmatrix_old.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..0215bde 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index < 0) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From f9fd7eb16759bbaf9a98bcc646b8f2c321f0f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 066/107] fix: product of a diagonal operator and a projection

---
 src/pysimulators/operators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 10e2693..d05b866 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -880,9 +880,18 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
         # rightward broadcasting can fail with structured arrays (np 1.7)
         if self.matrix.shape[-1] != 1 or d.broadcast == 'rightward':
             return
+        data = d.get_data()
+        if np.iscomplexobj(data):
+            return
         matrix = self.matrix.copy()
-        result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        result = ProjectionInMemoryOperator(
+            matrix,
+            derived_units=(self.duout, self.duin),
+            attrin=self._attrin,
+            attrout=self._attrout,
+        )
+        result.unit = self.unit
+        matrix['value'][..., 0] *= data
         return result
 
 
-- 
2.43.0


From ba796355275efcd53c52d90201da53044a0ca36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 067/107] fix: on-the-fly projections without a stored pointing
 matrix

---
 src/pysimulators/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index d05b866..0ec2389 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -941,7 +941,10 @@ class ProjectionOnFlyOperator(ProjectionBaseOperator):
 
     @property
     def matrix(self):
-        if self.place_holder['id'] is self.id:
+        if (
+            self.place_holder['matrix'] is not None
+            and self.place_holder['id'] is self.id
+        ):
             return self.place_holder['matrix']
         self.place_holder['matrix'] = None
         matrix = self.func(self.id)
-- 
2.43.0


From 4c30fc1eb4cd421cc7930a446719b2c808ad3d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 068/107] fix: packing of the pointing matrices without entries

---
 src/pysimulators/operators.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 0ec2389..f4ec8ce 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -573,14 +573,13 @@ class PointingMatrix(FitsArray):
         discarding masked or unobserved pixels.
 
         """
-        if self.size == 0:
-            return
-        flib.pointingmatrix.pack(
-            self.ravel().view(np.int64),
-            mask.view(np.int8).T,
-            self.shape[-1],
-            self.size // self.shape[-1],
-        )
+        if self.size > 0:
+            flib.pointingmatrix.pack(
+                self.ravel().view(np.int64),
+                mask.view(np.int8).T,
+                self.shape[-1],
+                self.size // self.shape[-1],
+            )
         self.shape_input = tointtuple(mask.size - np.sum(mask))
 
     def get_mask(self, out=None):
-- 
2.43.0


From f1e075eb32b46dea3725cb8523290fe77c29e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 069/107] fix: get_pTx_pT1 of a pointing matrix without pixels

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f4ec8ce..8569173 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -749,7 +749,7 @@ class ProjectionBaseOperator(Operator):
             self.set_attrin(out[0].__dict__)
             if hasattr(x, 'unit'):
                 out[0].unit = x.unit
-        if matrix.size == 0:
+        if matrix.size == 0 or product(matrix.shape_input) == 0:
             return out
         if mask is None:
             mask = getattr(x, 'mask', None)
-- 
2.43.0


From f1cdb4e6e53a8d199ccc8157fe80e3f79056a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 070/107] fix: astropy times as the start date of the samplings

---
 src/pysimulators/packedtables/samplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f3b693..bf34611 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -34,8 +34,8 @@ class Sampling(PackedTable):
             date_obs = Time([date_obs], scale='utc')
         elif not isinstance(date_obs, Time):
             raise TypeError('The observation start date is invalid.')
-        elif date_obs.is_scalar:  # work around astropy.time bug
-            date_obs = Time([str(date_obs)], scale='utc')
+        elif date_obs.isscalar:
+            date_obs = date_obs.reshape((1,))
         if period is None:
             if np.size(keywords.get('time')) > 1:
                 period = np.median(np.diff(keywords['time']))
-- 
2.43.0


From be749e8b2b2cd010104267efe8221bbd69c859bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 071/107] fix: spherical coordinates of the samplings with
 scalar angles

---
 src/pysimulators/packedtables/samplings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index bf34611..834e657 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -126,7 +126,8 @@ class SamplingSpherical(Sampling):
         Return the spherical coordinates as an (N, 2) ndarray.
 
         """
-        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
+        angles = [np.asarray(getattr(self, _)) for _ in self.names[:2]]
+        return np.array([np.broadcast_to(_, (len(self),)) for _ in angles]).T
 
     @property
     def spherical2cartesian(self):
-- 
2.43.0


From 8fdc8add42af21f1660542d32825a73333e67921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 072/107] fix: get_center changed the cartesian coordinates of
 the samplings

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 834e657..d0839a7 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -162,7 +162,7 @@ class SamplingSpherical(Sampling):
             coords = self.cartesian
             if not isscalarlike(self.masked):
                 valid = 1 - self.masked
-                coords *= valid[:, None]
+                coords = coords * valid[:, None]
                 n = np.sum(valid)
             else:
                 n = len(self)
-- 
2.43.0


From f78cfb144cd736b663f9053a6f2044a22024c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 073/107] fix: elevation of the centre of the samplings

---
 src/pysimulators/packedtables/samplings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index d0839a7..19b6090 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -172,7 +172,9 @@ class SamplingSpherical(Sampling):
         self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
         if n == 0:
             raise ValueError('There is no valid pointing.')
-        center /= n
+        norm = np.sqrt(np.sum(center**2))
+        if norm > 0:
+            center /= norm
         return self.cartesian2spherical(center)
 
 
-- 
2.43.0


From f51c49ef2d284015e0514e56fd22814a88054dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 074/107] fix: shapes of the roll operators

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 8569173..a68eec4 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1240,6 +1240,7 @@ class ProjectionOperator(SparseOperator):
         return pTx, pT1
 
 
+@square
 @orthogonal
 @inplace
 class RollOperator(Operator):
-- 
2.43.0


From c38dd86186171c1fd23e855d02f0bee440a31b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 075/107] fix: truncated exponential convolution of 2d single
 precision arrays

---
 src/pysimulators/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a68eec4..db00b0c 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -417,10 +417,10 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    if x.strides[1] != x.itemsize or x.strides[0] % x.itemsize != 0:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    shape_all = x.shape[0], x.strides[0] // x.itemsize
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (x.itemsize,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From cd437371c3278f595d5b7b6c5c14e3f1126ef154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 076/107] fix: shapes of the stacked operators of
 block_diagonal

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index db00b0c..f1a8e27 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -199,8 +199,8 @@ def block_diagonal(*partition_args, **keywords):
                 s = list(tointtuple(s))
                 if a is not None:
                     s[a] = p
-                else:
-                    np.delete(s, na)
+                elif n > 1:
+                    del s[na]
                 return tuple(s)
 
             if 'shapein' in keywords:
-- 
2.43.0


From cae985e19c23937e9a119160f4966698f69588c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 077/107] fix: product of a power law by a complex number

---
 src/pysimulators/operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f1a8e27..10eef8d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -478,7 +478,11 @@ class PowerLawOperator(DiagonalNumexprOperator):
         self.scalar = scalar
         self.set_rule(
             (HomothetyOperator, '.'),
-            lambda o, s: PowerLawOperator(s.alpha, s.x, s.x0, o.data * s.scalar),
+            lambda o, s: (
+                None
+                if np.iscomplexobj(o.data)
+                else PowerLawOperator(s.alpha, s.x, s.x0, o.data * s.scalar)
+            ),
             CompositionOperator,
         )
 
-- 
2.43.0


From 2d66b6e00b8f92228cd55df99c622e7f75cff671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 078/107] fix: truncated exponential convolution combined with
 block operators

---
 src/pysimulators/operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 10eef8d..3445cb6 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -19,7 +19,7 @@ from pyoperators import (
     Operator,
     Spherical2CartesianOperator,
 )
-from pyoperators.flags import inplace, linear, orthogonal, real, separable, square
+from pyoperators.flags import inplace, linear, orthogonal, real, square
 from pyoperators.memory import empty, ones
 from pyoperators.utils import (
     float_dtype,
@@ -335,7 +335,6 @@ class BlackBodyOperator(DiagonalOperator):
 @linear
 @square
 @inplace
-@separable
 class ConvolutionTruncatedExponentialOperator(Operator):
     """
     Apply a truncated exponential response to the signal
-- 
2.43.0


From e034fb12f4e8940cc928547d68796894d61d1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 079/107] fix: in-place transpose of the truncated exponential
 convolution

---
 src/flib/module_operators.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..e6cc7f9 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
-- 
2.43.0


From c5b18df6ae74b498285864e5a07714dcaf5601c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 080/107] fix: pixel indices and values of the MADMAP1 pointing
 matrices swapped

---
 src/pysimulators/interfaces/madmap1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6734d81..6f6ad05 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -196,7 +196,8 @@ class MadMap1Observation(Acquisition):
                 p = PointingMatrix.empty(
                     (ndetectors, b.n, npps), self.info.npixels_in_map
                 )
-                p[...] = data['matrix']
+                p['index'] = data['matrix']['index']
+                p['value'] = data['matrix']['value']
                 pmatrix.append(p)
         return tod, pmatrix
 
-- 
2.43.0


From 235c9b20f8157559cb938d3459e87eda019fe5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 081/107] fix: each block of a MADMAP1 observation has its own
 filters

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6f6ad05..825f0b3 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -125,11 +125,11 @@ class MadMap1Observation(Acquisition):
         ops = [
             SymmetricBandToeplitzOperator(
                 (len(self.instrument), b.n),
-                self._filters,
+                filters,
                 fftw_flag=fftw_flag,
                 nthreads=nthreads,
             )
-            for b in self.block
+            for b, filters in zip(self.block, self._filters)
         ]
         return BlockDiagonalOperator(ops, axisin=-1)
 
-- 
2.43.0


From f20863a8b74a8b9b9152f73c281fa0344959c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 082/107] fix: special characters in the name of the MADMAP1
 filters

---
 src/pysimulators/interfaces/madmap1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 825f0b3..93d300b 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -212,7 +212,7 @@ def _read_one_filter(filename, bigendian=False):
 def _read_filters(filename, bigendian=False):
     if isinstance(filename, str):
         filename = Path(filename)
-    regex = re.compile(str(filename) + r'\.[0-9]+$')
+    regex = re.compile(re.escape(str(filename)) + r'\.[0-9]+$')
     files = sorted(
         (_ for _ in filename.parent.iterdir() if regex.match(str(_))),
         key=lambda f: int(f.suffix[1:]),
-- 
2.43.0


From 7f4333a411089bb4700082a3ee329eb438147814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 083/107] fix: power of the Nyquist frequency in the one-sided
 spectra

---
 src/pysimulators/noises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..6431a8c 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -20,7 +20,7 @@ def _fold_psd(p):
     out = empty(p.shape[:-1] + (n,))
     out[..., 0] = p[..., 0]
     np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
-    out[..., -1] = p[..., n]
+    out[..., -1] = p[..., n - 1]
     return out
 
 
-- 
2.43.0


From 859165e31852ef7b46fb3cc18acf235d850ab654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 084/107] fix: correlated noise of detectors with different
 spectra

---
 src/pysimulators/instruments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 347d769..edf0dd8 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -328,9 +328,10 @@ class Instrument:
             p = _logloginterp_psd(f, bandwidth, psd)
 
         # looping over the detectors
-        for out_ in out:
+        p = np.broadcast_to(p, (len(self), p.shape[-1]))
+        for out_, p_ in zip(out, p):
             operation(
-                out_, _gaussian_sample(n, sampling_frequency, p, twosided=twosided)
+                out_, _gaussian_sample(n, sampling_frequency, p_, twosided=twosided)
             )
 
         return out
-- 
2.43.0


From 364b450873f83c98bd8e20b8722cfbe656d9ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 085/107] fix: products of the sparse matrices without entries

---
 src/pysimulators/sparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 31e2cd9..709213f 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -137,6 +137,9 @@ class _FSMatrix:
         else:
             out = out.ravel()
             self._validateout(out.shape)
+        if self.data.size == 0:
+            # no element to be added to the output
+            return v, out, True
 
         di = self.data.index.dtype
         ds = self.dtype
-- 
2.43.0


From bd26843528b4dfdcd5391436cdb6edb86a43cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 086/107] fix: coverage and restriction of the projections
 without entries

---
 src/pysimulators/operators.py | 4 ++--
 src/pysimulators/sparse.py    | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 3445cb6..06e3ca5 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1131,7 +1131,7 @@ class ProjectionOperator(SparseOperator):
         rsize = int(self.matrix.dtype.itemsize)
         vsize = int(out.dtype.itemsize)
         f = f'fsr{self._flib_id}_pt1_i{isize}_r{rsize}_v{vsize}'
-        if hasattr(flib.operators, f):
+        if self.matrix.data.size > 0 and hasattr(flib.operators, f):
             if operation is operation_assignment:
                 out[...] = 0
             func = getattr(flib.operators, f)
@@ -1221,7 +1221,7 @@ class ProjectionOperator(SparseOperator):
         rsize = int(self.matrix.dtype.itemsize)
         vsize = int(dtypeout.itemsize)
         f = f'fsr{self._flib_id}_ptx_pt1_i{isize}_r{rsize}_v{vsize}'
-        if hasattr(flib.operators, f):
+        if self.matrix.data.size > 0 and hasattr(flib.operators, f):
             if operation is operation_assignment:
                 pTx[...] = 0
                 pT1[...] = 0
diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 709213f..a00a1c1 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -963,7 +963,12 @@ class SparseOperator(SparseBase):
         else:
             matrix = self.matrix.copy()
         itype = matrix.data.dtype['index']
-        if itype.type in (np.int8, np.int16, np.int32, np.int64):
+        if matrix.data.size > 0 and itype.type in (
+            np.int8,
+            np.int16,
+            np.int32,
+            np.int64,
+        ):
             f = f'fsr_restrict_i{itype.itemsize}'
             func = getattr(fsp, f)
             block_shape = matrix.block_shape[0]
-- 
2.43.0


From 51a7f5a5465bf48178b77abff055da26298e3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 087/107] fix: rotation of integer coordinates

---
 src/pysimulators/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..8d1797a 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -302,6 +302,8 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind not in 'fc':
+        coords = coords.astype(float)
     if out is None:
         out = _np.empty_like(coords)
     if (
-- 
2.43.0


From d564cc5bdbbf5526d3c9eeb041744e83af004e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 088/107] fix: grids whose shape is a list

---
 src/pysimulators/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 8d1797a..810f5e4 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -98,7 +98,7 @@ def create_grid(
 
     """
     if out is None:
-        out = _np.empty(shape + (2,))
+        out = _np.empty(tuple(shape) + (2,))
     _flib.geometry.create_grid(
         spacing, xreflection, yreflection, angle, center[0], center[1], out.T
     )
@@ -142,7 +142,7 @@ def create_grid_squares(
 
     """
     if out is None:
-        out = _np.empty(shape + (4, 2))
+        out = _np.empty(tuple(shape) + (4, 2))
     _flib.geometry.create_grid_squares(
         spacing,
         filling_factor,
-- 
2.43.0


From c6c68de62740b9548b0d4c27a2527068a68eaa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 089/107] fix: surface of arrays of polygons, and its data type

---
 src/pysimulators/geometry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 810f5e4..6168315 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -354,13 +354,10 @@ def surface_simple_polygon(coords, out=None, dtype=float):
     coords = _np.array(coords, dtype=float, order='c')
     if out is None:
         out = _np.empty(coords.shape[:-2], dtype)
-    if coords.ndim < 3:
-        coords = coords[None, ...]
-    if out.ndim == 0:
-        out_ = out.reshape(1)
-    else:
-        out_ = out
-    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
+    coords = coords.reshape((-1,) + coords.shape[-2:])
+    out_ = _np.empty(coords.shape[0])
+    _flib.geometry.surface_simple_polygon(coords.T, out_)
+    out[...] = out_.reshape(out.shape)
     if out.ndim == 0:
         out = out[()]
     return out
-- 
2.43.0


From 180fdff0a269d174a768897342bf44d94fbe95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 090/107] fix: outside attribute of the integration operator
 was not initialised

---
 src/flib/projection.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/projection.f90.j2 b/src/flib/projection.f90.j2
index fe5f3b8..d109dce 100644
--- a/src/flib/projection.f90.j2
+++ b/src/flib/projection.f90.j2
@@ -33,6 +33,7 @@ contains
         real({{ combo.rkind }})    :: polygon(2,nvertices), val
 
         min_ncolmax = 0
+        out = .false.
         !$omp parallel do private(xmin, xmax, ymin, ymax, ncols, polygon)      &
         !$omp             private(val), reduction(max: min_ncolmax)
         do isample = 1, ninputs
-- 
2.43.0


From 3490cc89e6955591b35702354dc998643d37adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 091/107] fix: rotation of coordinates which are not contiguous

---
 src/pysimulators/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 6168315..b8f3d86 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -305,7 +305,7 @@ def rotate(coords, angle, out=None):
     if coords.dtype.kind not in 'fc':
         coords = coords.astype(float)
     if out is None:
-        out = _np.empty_like(coords)
+        out = _np.empty_like(coords, order='C')
     if (
         coords.dtype.char == 'd'
         and coords.flags.c_contiguous
-- 
2.43.0


From d714e7450a2e9685f844255eba4a5383556030dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 092/107] fix: corestriction of the projections without entries

---
 src/pysimulators/sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index a00a1c1..faada6f 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -914,7 +914,8 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        data = self.matrix.data.reshape((-1, self.matrix.data.shape[-1]))
+        data = self.matrix.data
+        data = data.reshape((product(data.shape[:-1]), data.shape[-1]))
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-- 
2.43.0


From 3dc4341b9819224220b0356a0dd16dc46b25ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 093/107] fix: profile of the bins without pixels was not NaN
 in double precision

---
 src/flib/module_math.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/module_math.f90.j2 b/src/flib/module_math.f90.j2
index 4eea029..baf5937 100644
--- a/src/flib/module_math.f90.j2
+++ b/src/flib/module_math.f90.j2
@@ -9,7 +9,7 @@ module module_math
     real(real32), parameter :: MINF_4 = real(z'FF700000', real32)
     real(real32), parameter :: PINF_4 = real(z'7F700000', real32)
     real(real32), parameter :: PI_4 = 4._real32 * atan(1._real32)
-    real(real64), parameter :: NAN_8  = real(z'FFF800000000000', real64)
+    real(real64), parameter :: NAN_8  = real(z'FFF8000000000000', real64)
     real(real64), parameter :: MINF_8 = real(z'FFF000000000000', real64)
     real(real64), parameter :: PINF_8 = real(z'7FF0000000000000', real64)
     real(real64), parameter :: PI_8 = 4._real64 * atan(1._real64)
-- 
2.43.0


From b2cf4eee083c57a0105afd0f0985c2db79ccd677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 094/107] fix: squared distances in three dimensions and more

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..fc23e49 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -259,7 +259,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
     if len(d) == 1:
         out[...] = d[0]
         return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    out[...] = sum(d)
     return out
 
 
-- 
2.43.0


From 3dfb9fd195957746f7a4c6b4455dd9efb7586962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 095/107] fix: distances of integer type

---
 src/pysimulators/datautils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index fc23e49..74b0a1b 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -150,7 +150,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance_slow(shape, center, scale, dtype, out=None):
@@ -171,7 +171,11 @@ def _distance_slow(shape, center, scale, dtype, out=None):
         (s * (a.astype(dtype) - o)) ** 2
         for a, o, s in zip(d, center[::-1], scale[::-1])
     ]
-    return np.sqrt(sum(d), out)
+    d = np.sqrt(sum(d))
+    if out is None:
+        return d
+    out[...] = d
+    return out
 
 
 def distance2(shape, center=None, scale=1, dtype=float, out=None):
@@ -233,7 +237,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance2_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance2_slow(shape, center, scale, dtype, out=None):
-- 
2.43.0


From d76ecdd3619d7cd46d3adb30b8cabe2ac5774891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 096/107] fix: unit of the squared distances

---
 src/pysimulators/datautils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 74b0a1b..1ed7ce7 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -15,6 +15,7 @@ from pyoperators.utils.ufuncs import abs2
 
 from . import _flib as flib
 from .datatypes import Map
+from .quantities import _power_unit
 
 __all__ = [
     'airy_disk',
@@ -192,8 +193,8 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
         calculated, assuming a zero-based coordinate indexing. Default value
         is the array center.
     scale : float or array-like, optional
-        Inter-pixel distance (dx, dy, ...). If scale is a Quantity, its
-        unit will be carried over to the returned distance array
+        Inter-pixel distance (dx, dy, ...). If scale is a Quantity, the
+        unit of the returned squared distance array is the square of its unit
     dtype : np.dtype, optional
         The output data type.
 
@@ -208,7 +209,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
     """
     shape = tointtuple(shape)
     dtype = np.dtype(dtype)
-    unit = getattr(scale, '_unit', None)
+    unit = _power_unit(getattr(scale, '_unit', {}), 2)
     if out is None:
         out = np.empty(shape, dtype)
     ndim = out.ndim
-- 
2.43.0


From de43d77b3898a8beb09fe4e15b45b27d250d0773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 097/107] fix: circular apertures of integer or boolean type,
 or with units

---
 src/pysimulators/datautils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 1ed7ce7..8619a83 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -87,9 +87,10 @@ def aperture_circular(shape, diameter, center=None, scale=1, dtype=float):
         The output data type.
 
     """
-    array = distance2(shape, center=center, scale=scale, dtype=dtype)
-    array[...] = array <= (diameter / 2) ** 2
-    return array
+    d2 = distance2(
+        shape, center=center, scale=scale, dtype=float_intrinsic_dtype(dtype)
+    )
+    return Map(d2 <= (diameter / 2) ** 2, dtype=dtype, unit='')
 
 
 def distance(shape, center=None, scale=1, dtype=float, out=None):
-- 
2.43.0


From f11764e58b56f390825aa8186b0270d93346f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 098/107] fix: abscissae of the integrated profiles

---
 src/pysimulators/datautils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 8619a83..4bcea9d 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -410,6 +410,7 @@ def integrated_profile(input, bin=1, nbins=None, center=None, scale=1):
     x, y, n = profile(
         input, bin=bin, nbins=nbins, histogram=True, center=center, scale=scale
     )
+    x[...] = bin * np.arange(1, x.size + 1)
     y[~np.isfinite(y)] = 0
     y *= n * scale**2
     return x, np.cumsum(y)
-- 
2.43.0


From 924fef5769ab03263896a65eeddfda991843f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 099/107] fix: center of the profiles of power spectral
 densities

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 4bcea9d..d1cd434 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -570,6 +570,6 @@ def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
     if array.shape[0] != array.shape[1]:
         raise ValueError('The input array is not square.')
     psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
-    x, y = profile(psd, center=array.shape // np.array(2) + 1)
+    x, y = profile(psd, center=array.shape // np.array(2))
     x *= sampling_frequency / array.shape[1]
     return x, y
-- 
2.43.0


From dea64e73a9029e3a1c69806f6be3a08e93373134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 100/107] fix: conversion of the mask policies by NumPy 2

---
 src/pysimulators/acquisitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 8ea5462..3518490 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -369,10 +369,10 @@ class MaskPolicy:
             setattr(self, flag, value)
         self._flags = flags
 
-    def __array__(self, dtype=int):
+    def __array__(self, dtype=None, copy=None):
         conversion = {'keep': self.KEEP, 'mask': self.MASK, 'remove': self.REMOVE}
         return np.array(
-            [conversion[getattr(self, _)] for _ in self._flags], dtype=dtype
+            [conversion[getattr(self, _)] for _ in self._flags], dtype=dtype or int
         )
 
     def __str__(self):
-- 
2.43.0


From 88237c57c9ef58099b80d8ce32b5b081021ae760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 101/107] fix: imagers without a name

---
 src/pysimulators/instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index edf0dd8..650f331 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -358,7 +358,7 @@ class Imager(Instrument):
                 'Neither the image2object nor the object2image tr'
                 'ansforms are speficied.'
             )
-        Instrument.__init__(self, name, layout)
+        Instrument.__init__(self, layout, name)
         if object2image is not None:
             self.object2image = asoperator(object2image)
             self.image2object = self.object2image.I
-- 
2.43.0


From 25e0ca7c167a61c45d82246dea5d68c1b0f03843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 102/107] fix: data type of the gaussians which are not
 two-dimensional

---
 src/pysimulators/datautils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index d1cd434..8ca3697 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -376,6 +376,7 @@ def gaussian(shape, sigma=None, fwhm=None, center=None, dtype=float):
         out = 1 / ((2 * np.pi) ** (n / 2) * product(sigma))
         for a in axes:
             out = out * np.exp(-(a**2))
+        out = out.astype(dtype)
     return out
 
 
-- 
2.43.0


From 669b8a1ce3cc4956550dfcb8823455886609c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 103/107] fix: backward beams at a sequence of angles

---
 src/pysimulators/beams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/beams.py b/src/pysimulators/beams.py
index 57d1c0b..d3209c6 100644
--- a/src/pysimulators/beams.py
+++ b/src/pysimulators/beams.py
@@ -60,7 +60,7 @@ class BeamGaussian(Beam):
 
     def __call__(self, theta, phi):
         if self.backward:
-            theta = np.pi - theta
+            theta = np.pi - np.asarray(theta)
         coef = -0.5 / self.sigma**2
         out = ne.evaluate(
             'exp(coef * theta**2)', local_dict={'coef': coef, 'theta': theta}
-- 
2.43.0


From d9108c90bbf1a6ce96a8e1ac9132c79435c0501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 104/107] fix: instruments restricted to all their detectors
 shared them

---
 src/pysimulators/instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 650f331..8c62a46 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -47,7 +47,7 @@ class Instrument:
 
         """
         out = copy.copy(self)
-        out.detector = self.detector[selection]
+        out.detector = copy.copy(self.detector[selection])
         return out
 
     def __iter__(self):
-- 
2.43.0


From 063aaaf0287efe559675437d4378d20b449138ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 105/107] fix: gaussian convolution of a single map of shape
 (npix, 1)

---
 src/pysimulators/interfaces/healpy/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/healpy/operators.py b/src/pysimulators/interfaces/healpy/operators.py
index 840a84b..6acffc8 100644
--- a/src/pysimulators/interfaces/healpy/operators.py
+++ b/src/pysimulators/interfaces/healpy/operators.py
@@ -332,7 +332,7 @@ class HealpixConvolutionGaussianOperator(Operator):
 
     def direct(self, input, output):
         if input.ndim > 1:
-            input = [_ for _ in input.T]
+            input = [_ for _ in input.T] if input.shape[1] > 1 else input[:, 0]
         output.T[...] = hp.smoothing(
             input,
             fwhm=self.fwhm,
-- 
2.43.0


From 192639e1cc9512ce1cb7d9bb9805163219faac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 106/107] fix: black body operators accepted reference
 frequencies which are not scalar

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 06e3ca5..87ad0d8 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -314,8 +314,8 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = np.asarray(frequency0, float)
         else:
             nu0 = c / np.asarray(wavelength0, float)
-        if nu.ndim != 0:
-            raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
+        if nu0.ndim != 0:
+            raise TypeError('The reference frequency or wavelength is not a scalar.')
         beta = float(beta)
         data = (
             (nu / nu0) ** (3 + beta)
-- 
2.43.0


From 0e4002df2a204680d0ad8abd4d8233ddec74ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 107/107] fix: black body operators refused arrays of slopes

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 87ad0d8..67a1934 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -316,7 +316,7 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = c / np.asarray(wavelength0, float)
         if nu0.ndim != 0:
             raise TypeError('The reference frequency or wavelength is not a scalar.')
-        beta = float(beta)
+        beta = np.asarray(beta, float)[()]
         data = (
             (nu / nu0) ** (3 + beta)
             * np.expm1(h * nu0 / (k * temperature))
-- 
2.43.0

