From c1c51a63f56c19f3c346a992d9ccc157a259edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 001/114] fix: a gathered packed table is not distributed
 anymore

PackedTable.gather returned a global table which still had the communicator of
the scattered table: it could not be scattered again, gathering it again
duplicated its elements and using it on one process only (unpacking an array,
for example) waited forever for the other ones.
---
 src/pysimulators/packedtables/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..b3136f9 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -536,6 +536,7 @@ class PackedTable:
         out._index = self._normalize_int_selection(
             func(self.index), product(self.shape[: self.ndim])
         )
+        object.__setattr__(out, 'comm', MPI.COMM_SELF)
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From 4a9cff1bf971e685a2b56d4c34fa6d201f46acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 002/114] fix: gather non-contiguous arrays

PackedTable.gather raised an error on the processes whose local array was not
C-contiguous and, when not all of them were in that case, waited forever for
these on the other ones.
---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index b3136f9..21b65bb 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -505,7 +505,7 @@ class PackedTable:
         """
 
         def func(x):
-            x = np.asarray(x)
+            x = np.asarray(x, order='C')
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
-- 
2.43.0


From 3e47f1ac3db115f162cb2e279dcf895c24e6e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 003/114] fix: PackedTable.copy

It always failed: the communicator cannot be deep-copied, and the attribute
'comm' is not writeable.
---
 src/pysimulators/packedtables/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 21b65bb..d473ac3 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -370,8 +370,10 @@ class PackedTable:
         Return a deep copy of the packed array.
 
         """
-        out = copy.deepcopy(self)
-        out.comm = self.comm.Dup()
+        out = copy.copy(self)
+        state = {k: v for k, v in self.__dict__.items() if k != 'comm'}
+        out.__dict__.update(copy.deepcopy(state))
+        object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
     def pack(self, x, out=None, copy=False):
-- 
2.43.0


From a6cb80c58ca4a1a192c9b615ac70ead05ece485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 004/114] fix: keep the unit of the attributes of a gathered
 packed table

---
 src/pysimulators/packedtables/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index d473ac3..11e8917 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -547,7 +547,10 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, func(v))
+                value = func(v).view(type(v))
+                if value.__array_finalize__ is not None:
+                    value.__array_finalize__(v)
+                setattr(out, k, value)
         return out
 
     def split(self, n):
-- 
2.43.0


From b5f77a28c6141fc81934f4da774717bcd5dec128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 005/114] fix: the empty pieces of a scattered packed table
 select nothing

The index of an empty piece of an empty table is slice(-1, -1), which was turned
into slice(-1, None): its pack method returned the last element of the unpacked
array and its unpack method failed.
---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 11e8917..e668bd3 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -183,7 +183,7 @@ class PackedTable:
     def _indexable(self):
         # slice index with negative stop values cannot be used for indexing
         index = self._index
-        if isinstance(index, slice) and index.stop < 0:
+        if isinstance(index, slice) and index.stop < 0 and len(self) > 0:
             return slice(index.start, None, index.step)
         return index
 
-- 
2.43.0


From c92e5806bd7bde11d2dfbe2a5776f59616a37921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 006/114] fix: scattering a packed table does not alter it

When the first process gets all the elements, because there is only one, the
global table itself was turned into the local one: on that process only, it could
not be scattered again, among other things.
---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index e668bd3..79358d5 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -470,7 +470,7 @@ class PackedTable:
             return self
 
         selection = split(len(self), comm.size, comm.rank)
-        out = self[selection]
+        out = copy.copy(self[selection])
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From 0b38d51f19b8fa735e80984b7bf438d27d4b75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 007/114] fix: Acquisition.get_operator partitions the
 observation, not the scene

The blocks of samplings partition the second dimension of the output of the
acquisition operator. Partitioning its input failed for any acquisition.
---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 40bc987..48f4201 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -237,7 +237,7 @@ class Acquisition:
                             self.instrument.get_operator(self.sampling[b], self.scene)
                             for b in self.block
                         ],
-                        axisin=1,
+                        axisout=1,
                     ),
                     self.scene.get_distribution_operator(self.comm),
                 ]
-- 
2.43.0


From fe4b61b0fc9f090a04f57c85a627497ec5c4510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 008/114] fix: a restricted acquisition does not use the
 operator of the full one

If the operator had been obtained before the restriction, the restricted
acquisition returned the operator of the whole acquisition.
---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 48f4201..18dda97 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -163,7 +163,7 @@ class Acquisition:
             return out
 
         if any(not is_colon(_) for _ in x):
-            self._operator = None
+            self._operator = out._operator = None
             gc.collect()
 
         out.instrument = self.instrument[x[0]]
-- 
2.43.0


From 555ffb8a64f518d038b3fdafcfb896383e64cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 009/114] fix: restricting an acquisition does not alter its
 communicators

When the selection is made of all the local detectors (or samplings), the
detectors (or samplings) of the initial acquisition were modified: they were no
longer distributed.
---
 src/pysimulators/acquisitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 18dda97..7e6deaa 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -168,9 +168,11 @@ class Acquisition:
 
         out.instrument = self.instrument[x[0]]
         if not is_colon(x[0]):
+            out.instrument.detector = copy(out.instrument.detector)
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
         out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
         if not is_colon(x[1]):
+            out.sampling = copy(out.sampling)
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
         out.scene = self.scene[x[2]]
 
-- 
2.43.0


From 60b33857cedc013e2d4821945bcc5c6f855b497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 010/114] fix: sparse matrices without rows or columns

A process which has no detector or no sampling, because there are more processes
than these, could not build its acquisition operator, and the other processes
waited for it.
---
 src/pysimulators/sparse.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..dbe8e51 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -112,6 +112,10 @@ class _FSMatrix:
     def _matvec(self, v, out, nmax):
         v = np.asarray(v).ravel()
         self._validatein(v.shape)
+        if product(self.shape) == 0:
+            if out is None:
+                out = np.zeros(self.shape[0], np.result_type(self.dtype, v.dtype))
+            return v, out, True
         if out is None:
             out = np.zeros(
                 v.size * self.shape[0] // self.shape[1],
@@ -218,7 +222,7 @@ class _FSMatrix:
         if not isinstance(self, (FSCMatrix, FSRMatrix)):
             if size == self.shape[1]:
                 return
-        elif size % self.shape[1] == 0:
+        elif size == 0 or self.shape[1] > 0 and size % self.shape[1] == 0:
             return
         raise ValueError(
             f"The shape '{shape}' is incompatible with the number of columns of the "
@@ -230,7 +234,7 @@ class _FSMatrix:
         if not isinstance(self, (FSCMatrix, FSRMatrix)):
             if size == self.shape[0]:
                 return
-        elif size % self.shape[0] == 0:
+        elif size == 0 or self.shape[0] > 0 and size % self.shape[0] == 0:
             return
         raise ValueError(
             f"The shape '{shape}' is incompatible with the number of rows of the sparse"
@@ -872,7 +876,8 @@ class SparseOperator(SparseBase):
     def validatein(self, shape):
         size = product(shape)
         if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
-            if size % self.matrix.shape[1] != 0:
+            ncol = self.matrix.shape[1]
+            if size > 0 and (ncol == 0 or size % ncol != 0):
                 raise ValueError(
                     f"The input shape '{shape}' is incompatible with the expected "
                     f"number of column '{self.matrix.shape[1]}'."
@@ -882,7 +887,8 @@ class SparseOperator(SparseBase):
     def validateout(self, shape):
         size = product(shape)
         if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
-            if size % self.matrix.shape[0] != 0:
+            nrow = self.matrix.shape[0]
+            if size > 0 and (nrow == 0 or size % nrow != 0):
                 raise ValueError(
                     f"The output shape '{shape}' is incompatible with the expected "
                     f"number of rows '{self.matrix.shape[0]}'."
-- 
2.43.0


From 7979418d6bd228880a70850ee915d112f45ddbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 011/114] fix: Acquisition.get_operator_nbytes for a process
 without detector or sampling

---
 src/pysimulators/acquisitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 7e6deaa..521c6f8 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -252,6 +252,8 @@ class Acquisition:
         as an operator.
 
         """
+        if len(self.instrument) == 0 or len(self.sampling) == 0:
+            return 0
         n = self[0, 0].get_operator().nbytes
         return n * len(self.instrument) * len(self.sampling)
 
-- 
2.43.0


From 8de38e72d613aa32bf2db7719a2ad06915453a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 012/114] fix: FITS files can be written by several processes
 again

The attribute StreamingHDU._datLoc and the method ndarray.newbyteorder do not
exist anymore and StreamingHDU does not handle Path instances.
---
 src/pysimulators/mpiutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..a107a90 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -290,9 +290,9 @@ def write_fits(filename, data, header, extension, extname, comm):
     # write FITS header
     if comm.rank == 0:
         header['NAXIS' + str(ndim)] = nglobal
-        shdu = pyfits.StreamingHDU(filename, header)
-        data_loc = shdu._datLoc
+        shdu = pyfits.StreamingHDU(os.fspath(filename), header)
         shdu.close()
+        data_loc = os.path.getsize(filename)
     else:
         data_loc = None
     data_loc = comm.bcast(data_loc)
@@ -314,7 +314,7 @@ def write_fits(filename, data, header, extension, extname, comm):
             or data.dtype.byteorder == '<'
         ):
             data = data.byteswap()
-        data = data.newbyteorder('=')
+        data = data.view(data.dtype.newbyteorder('='))
         mtype = DTYPE_MAP[data.dtype]
         ftype = mtype.Create_subarray(
             [nglobal * chunk], [nlocal * chunk], [s.start * chunk]
-- 
2.43.0


From c493f15d7072aeb49f6db739e4ceb1db9f3fd5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 013/114] fix: collective write of FITS files with less rows
 than processes

The result of Group.Incl was ignored, so that the processes without data were
expected to open the file.
---
 src/pysimulators/mpiutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index a107a90..2fe9c7b 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -302,8 +302,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     chunk = product(data.shape[1:])
     rank_nowork = min(comm.size, nglobal)
     group = comm.Get_group()
-    group.Incl(list(range(rank_nowork)))
-    newcomm = comm.Create(group)
+    newcomm = comm.Create(group.Incl(list(range(rank_nowork))))
 
     # collectively write data
     if comm.rank < rank_nowork:
@@ -327,7 +326,7 @@ def write_fits(filename, data, header, extension, extname, comm):
         f.Write_all(data)
         f.Close()
         ftype.Free()
-    newcomm.Free()
+        newcomm.Free()
 
     # pad FITS file with zeros
     if comm.rank == 0:
-- 
2.43.0


From 9a541d9d5d994603f9dc5914e7cf9c5ddce6c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 014/114] fix: loading a FITS file of integers

With numpy 2, copy=False raises if the conversion to float requires a copy.
---
 src/pysimulators/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f77288a..42c35e3 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -124,7 +124,7 @@ class FitsArray(Quantity):
 
             data, header = read_fits(data, None, comm)
 
-            copy = False
+            copy = None
             if unit is None:
                 if 'BUNIT' in header:
                     unit = header['BUNIT']
-- 
2.43.0


From 2320a8281c1e66a5f107fbd5af951610184796b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 015/114] fix: read the coverage, error and mask of a FITS file
 given as a Path

---
 src/pysimulators/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 42c35e3..ed3f208 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -660,7 +660,7 @@ class Map(FitsArray):
         if not subok and type(result) is not cls:
             result = result.view(cls)
 
-        if isinstance(data, str):
+        if isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
@@ -1066,7 +1066,7 @@ class Tod(FitsArray):
         if mask is np.ma.nomask:
             mask = None
 
-        if mask is None and isinstance(data, str):
+        if mask is None and isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
-- 
2.43.0


From a4f4036885109ed47b47f8d79fa9a3dc243664d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 016/114] fix: collective write of non-contiguous arrays to a
 FITS file

Also, the elements of Fortran-ordered arrays were not written in the FITS order.
---
 src/pysimulators/mpiutils.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 2fe9c7b..8848a97 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -3,7 +3,6 @@
 #
 
 import os
-import sys
 from pathlib import Path
 
 import numpy as np
@@ -306,13 +305,9 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # collectively write data
     if comm.rank < rank_nowork:
-        # mpi4py 1.2.2: pb with viewing data as big endian KeyError '>d'
-        if (
-            sys.byteorder == 'little'
-            and data.dtype.byteorder == '='
-            or data.dtype.byteorder == '<'
-        ):
-            data = data.byteswap()
+        # C-ordered big endian values, seen as native since mpi4py does not handle
+        # the other byte order
+        data = np.asarray(data, data.dtype.newbyteorder('>'), order='C')
         data = data.view(data.dtype.newbyteorder('='))
         mtype = DTYPE_MAP[data.dtype]
         ftype = mtype.Create_subarray(
-- 
2.43.0


From b3de691a8f180c5f8e03ca8e4df3db329df1b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 017/114] fix: no extra block in the FITS files written
 collectively

A block of zeros was added when the data exactly fill blocks.
---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 8848a97..d69812c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -327,7 +327,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     if comm.rank == 0:
         datasize = nglobal * chunk * int(data.dtype.itemsize)
         BLOCK_SIZE = 2880
-        padding = BLOCK_SIZE - (datasize % BLOCK_SIZE)
+        padding = -datasize % BLOCK_SIZE
         with open(filename, 'a') as f:
             if f.tell() - data_loc != datasize:
                 raise RuntimeError('Unexpected file size.')
-- 
2.43.0


From f1e138cb7946bedb1d17696e5f4189f07400d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 018/114] fix: the FITS files written collectively describe
 their data

The header given for the array was written as is, though its BITPIX and NAXISi
may not be those of the data, and unsigned integers were written as signed.
---
 src/pysimulators/mpiutils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index d69812c..fe657e6 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -286,6 +286,14 @@ def write_fits(filename, data, header, extension, extname, comm):
             f"given the global number '{nglobal}'.{msg}"
         )
 
+    # the header and the elements of the HDU, as they are stored in the file: the
+    # unsigned integers (and int8) are shifted by BZERO
+    data = np.asarray(data, order='C')
+    header = (pyfits.ImageHDU if extension else pyfits.PrimaryHDU)(data, header).header
+    if data.dtype.kind == 'u' and data.itemsize > 1 or data.dtype == np.int8:
+        unsigned = data.astype(f'=u{data.itemsize}')
+        data = unsigned ^ unsigned.dtype.type(1 << (8 * data.itemsize - 1))
+
     # write FITS header
     if comm.rank == 0:
         header['NAXIS' + str(ndim)] = nglobal
-- 
2.43.0


From 4b7c815996c408b0157819c39200174657b0b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 019/114] fix: reading a FITS file whose first HDU has an axis
 without elements

The same HDU was looked at for ever.
---
 src/pysimulators/mpiutils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fe657e6..06cc33c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -157,7 +157,7 @@ def read_fits(filename, extname, comm):
     filename : str
         The FITS file name.
     extname : str
-        The FITS extension name. Use None to read the first HDU with data.
+        The FITS extension name. Use None to read the first HDU with axes.
     comm : mpi4py.Comm
         The MPI communicator of the local arrays.
     """
@@ -181,11 +181,9 @@ def read_fits(filename, extname, comm):
                 hdu = fits[ihdu]
             except IndexError:
                 raise OSError('The FITS file has no data.')
-            if hdu.header['NAXIS'] == 0:
-                ihdu += 1
-                continue
-            if hdu.data is not None:
+            if hdu.header['NAXIS'] != 0:
                 break
+            ihdu += 1
 
     header = hdu.header
     n = header['NAXIS' + str(header['NAXIS'])]
-- 
2.43.0


From 7b8dcf614bf922518dd731e7685d420772481d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 020/114] fix: the reference pixel of a distributed FITS file

The shift was only applied to RA-DEC TAN headers, and to the second axis even
if it is not the distributed one.
---
 src/pysimulators/mpiutils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 06cc33c..38ef119 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -194,12 +194,10 @@ def read_fits(filename, extname, comm):
         output = output.byteswap().view(output.dtype.newbyteorder('='))
 
     # update the header
-    header['NAXIS' + str(header['NAXIS'])] = s.stop - s.start
-    try:
-        if header['CTYPE1'] == 'RA---TAN' and header['CTYPE2'] == 'DEC--TAN':
-            header['CRPIX2'] -= s.start
-    except KeyError:
-        pass
+    naxis = str(header['NAXIS'])
+    header['NAXIS' + naxis] = s.stop - s.start
+    if 'CRPIX' + naxis in header:
+        header['CRPIX' + naxis] -= s.start
     comm.Barrier()
 
     return output, header
-- 
2.43.0


From 5fca860b83fe47e717afa2149d24cde046fda449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 021/114] fix: an error in the collective write of a FITS file
 is raised by all processes

The local shapes were only checked locally, and the processes were left waiting
for the one which could not write the header, the data or the padding. Also, a
file which could not be removed was appended to.
---
 src/pysimulators/datatypes.py | 18 +++++----
 src/pysimulators/mpiutils.py  | 70 ++++++++++++++++++++++++++---------
 2 files changed, 63 insertions(+), 25 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index ed3f208..b0c5bc3 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -30,7 +30,7 @@ from pyoperators import MPI
 from pyoperators.memory import empty
 from pyoperators.utils import isscalarlike
 
-from .mpiutils import read_fits, write_fits
+from .mpiutils import raise_together, read_fits, write_fits
 from .quantities import Quantity
 from .wcsutils import create_fitsheader_for, has_wcs
 
@@ -318,12 +318,16 @@ class FitsArray(Quantity):
         write_fits(filename, self, header, False, None, comm)
         if not self.derived_units:
             return
-        if comm is None or comm.rank == 0:
-            buf = io.BytesIO()
-            pickle.dump(self.derived_units, buf, pickle.HIGHEST_PROTOCOL)
-            data = np.frombuffer(buf.getvalue(), np.uint8)
-            write_fits(filename, data, None, True, 'derived_units', MPI.COMM_SELF)
-        comm.Barrier()
+        error = None
+        if comm.rank == 0:
+            try:
+                buf = io.BytesIO()
+                pickle.dump(self.derived_units, buf, pickle.HIGHEST_PROTOCOL)
+                data = np.frombuffer(buf.getvalue(), np.uint8)
+                write_fits(filename, data, None, True, 'derived_units', MPI.COMM_SELF)
+            except Exception as exc:
+                error = exc
+        raise_together(error, comm)
 
     def imsave(self, filename, colorbar=True, **kw):
         """
diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 38ef119..0d02fd5 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -148,6 +148,27 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
     return detectors_, observations_
 
 
+def raise_together(error, comm):
+    """
+    Raise in all the processes of a communicator the error that some of them
+    encountered, so that none is left waiting for the others.
+
+    Parameters
+    ----------
+    error : Exception
+        The error encountered by this process, or None.
+    comm : mpi4py.Comm
+        The MPI communicator.
+
+    """
+    messages = comm.allgather(None if error is None else str(error))
+    if error is not None:
+        raise error
+    for rank, message in enumerate(messages):
+        if message is not None:
+            raise OSError(f'Error on rank {rank}: {message}')
+
+
 def read_fits(filename, extname, comm):
     """
     Read and distribute a FITS file into local arrays.
@@ -274,7 +295,8 @@ def write_fits(filename, data, header, extension, extname, comm):
     nglobal = sum(s[0] for s in shapes)
     s = split(nglobal, comm.size, comm.rank)
     nlocal = s.stop - s.start
-    if data.shape[0] != nlocal:
+    expected = [s.stop - s.start for s in split(nglobal, comm.size)]
+    if any(shape[0] != n for shape, n in zip(shapes, expected)):
         msg = '' if comm.rank > 0 else f' Shapes are: {shapes}.'
         raise ValueError(
             f"On rank {comm.rank}, the local array shape '{data.shape}' is invalid. "
@@ -291,19 +313,25 @@ def write_fits(filename, data, header, extension, extname, comm):
         data = unsigned ^ unsigned.dtype.type(1 << (8 * data.itemsize - 1))
 
     # write FITS header
+    data_loc = None
+    error = None
     if comm.rank == 0:
-        header['NAXIS' + str(ndim)] = nglobal
-        shdu = pyfits.StreamingHDU(os.fspath(filename), header)
-        shdu.close()
-        data_loc = os.path.getsize(filename)
-    else:
-        data_loc = None
+        try:
+            if not extension:
+                open(filename, 'wb').close()
+            header['NAXIS' + str(ndim)] = nglobal
+            shdu = pyfits.StreamingHDU(os.fspath(filename), header)
+            shdu.close()
+            data_loc = os.path.getsize(filename)
+        except Exception as exc:
+            error = exc
+    raise_together(error, comm)
     data_loc = comm.bcast(data_loc)
 
     # get a communicator excluding the processes which have no work to do
     # (Create_subarray does not allow 0-sized subarrays)
     chunk = product(data.shape[1:])
-    rank_nowork = min(comm.size, nglobal)
+    rank_nowork = min(comm.size, nglobal) if chunk > 0 else 0
     group = comm.Get_group()
     newcomm = comm.Create(group.Incl(list(range(rank_nowork))))
 
@@ -322,19 +350,25 @@ def write_fits(filename, data, header, extension, extname, comm):
             newcomm, filename, amode=MPI.MODE_APPEND | MPI.MODE_WRONLY | MPI.MODE_CREATE
         )
         f.Set_view(data_loc, mtype, ftype, 'native', MPI.INFO_NULL)
-        f.Write_all(data)
+        try:
+            f.Write_all(data)
+        except Exception as exc:
+            error = exc
         f.Close()
         ftype.Free()
         newcomm.Free()
+    raise_together(error, comm)
 
     # pad FITS file with zeros
     if comm.rank == 0:
-        datasize = nglobal * chunk * int(data.dtype.itemsize)
-        BLOCK_SIZE = 2880
-        padding = -datasize % BLOCK_SIZE
-        with open(filename, 'a') as f:
-            if f.tell() - data_loc != datasize:
-                raise RuntimeError('Unexpected file size.')
-            f.write(padding * '\0')
-
-    comm.Barrier()
+        try:
+            datasize = nglobal * chunk * int(data.dtype.itemsize)
+            BLOCK_SIZE = 2880
+            padding = -datasize % BLOCK_SIZE
+            with open(filename, 'a') as f:
+                if f.tell() - data_loc != datasize:
+                    raise RuntimeError('Unexpected file size.')
+                f.write(padding * '\0')
+        except Exception as exc:
+            error = exc
+    raise_together(error, comm)
-- 
2.43.0


From 7a2ddf9c685bb0cbcfa188fc58389ee730ac05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 022/114] fix: gathering FITS headers which differ raises in
 all processes

Some processes could raise alone before or after the headers are exchanged, and
CTYPEi was misspelt, so that different projections were not detected.
---
 src/pysimulators/mpiutils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 0d02fd5..77acb26 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -48,20 +48,19 @@ def gather_fitsheader_if_needed(header, comm=MPI.COMM_WORLD):
         raise KeyError('Scalar FITS headers cannot be combined.')
     if comm.size == 1:
         return header
-    if not has_wcs(header):
+    headers = comm.allgather(header)
+    if not all(has_wcs(h) for h in headers):
         raise ValueError(
             'The input FITS header does not define a world coordi' 'nate system.'
         )
     naxis = header['NAXIS']
-    required_same = ['CRVAL1', 'CRVAL2', 'CRTYPE1', 'CRTYPE2', 'CDELT1', 'CDELT2']
+    required_same = ['NAXIS', 'CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2']
+    required_same += ['CDELT1', 'CDELT2']
     required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
     required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
-    headers = comm.allgather(header)
     for keyword in required_same:
-        if keyword not in header:
-            continue
-        values = [h[keyword] for h in headers]
-        if any(v != headers[0][keyword] for v in values):
+        values = [h.get(keyword) for h in headers]
+        if any(v != values[0] for v in values):
             raise ValueError(
                 f'The FITS keyword {keyword!r} has different values across MPI '
                 f'processes: {values}'
-- 
2.43.0


From 926ce9ffab816b5d23c30cc4aba546b47b78b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 023/114] fix: distribute_observation without detector or
 observation

---
 src/pysimulators/mpiutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 77acb26..14b3380 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -105,11 +105,11 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
     nx = nobservations
 
     # number of detectors, grouped by the number of cpu cores
-    ny = int(np.ceil(ndetectors / nthreads))
+    ny = max(1, int(np.ceil(ndetectors / nthreads)))
 
     # we start with the minimum blocksize and increase it until we find a
     # configuration that covers all the observations
-    blocksize = int(np.ceil(nx * ny / size))
+    blocksize = max(1, int(np.ceil(nx * ny / size)))
     while True:
         # by looping over x first, we favor larger numbers of detectors and
         # fewer numbers of observations per processor, to minimise inter-
-- 
2.43.0


From 2ab390d22c76f14809cab87a6754a597b321b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 024/114] fix: an error in the collective read of a FITS file
 is raised by all processes

A process which could not read its part left the others waiting.
---
 src/pysimulators/mpiutils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 14b3380..fc8d30c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -190,6 +190,17 @@ def read_fits(filename, extname, comm):
     if comm.size > 1 and not all_equal:
         raise ValueError('The file name is not the same for all MPI jobs.')
 
+    error = None
+    try:
+        output, header = _read_local_fits(filename, extname, comm)
+    except Exception as exc:
+        error = exc
+    raise_together(error, comm)
+
+    return output, header
+
+
+def _read_local_fits(filename, extname, comm):
     # get primary hdu or extension
     fits = pyfits.open(filename)
     if extname is not None:
@@ -218,7 +229,6 @@ def read_fits(filename, extname, comm):
     header['NAXIS' + naxis] = s.stop - s.start
     if 'CRPIX' + naxis in header:
         header['CRPIX' + naxis] -= s.start
-    comm.Barrier()
 
     return output, header
 
-- 
2.43.0


From f8f4f4628770cab119c43286bd0a08ddb12839b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 025/114] fix: a Tod whose mask cannot be read is not loaded
 without mask

---
 src/pysimulators/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index b0c5bc3..339d86c 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1079,7 +1079,7 @@ class Tod(FitsArray):
                 mask, junk = read_fits(data, 'mask', comm)
                 mask = mask.view(np.bool_)
                 copy = False
-            except Exception:  # FIXME
+            except KeyError:
                 pass
 
         if mask is None and hasattr(data, 'mask') and data.mask is not np.ma.nomask:
-- 
2.43.0


From 57a0586f7958c6c7065b77ee5ce8202f4ec2f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 026/114] fix: sparse matrices without elements

---
 src/pysimulators/sparse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index dbe8e51..bd1528b 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -112,9 +112,10 @@ class _FSMatrix:
     def _matvec(self, v, out, nmax):
         v = np.asarray(v).ravel()
         self._validatein(v.shape)
-        if product(self.shape) == 0:
+        if product(self.shape) == 0 or self.data.size == 0:
             if out is None:
-                out = np.zeros(self.shape[0], np.result_type(self.dtype, v.dtype))
+                size = self.shape[0] * max(v.size // max(self.shape[1], 1), 1)
+                out = np.zeros(size, np.result_type(self.dtype, v.dtype))
             return v, out, True
         if out is None:
             out = np.zeros(
-- 
2.43.0


From f159ade38d3ddf273b410498e80457d6bff2fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 027/114] fix: shape of the product by a FSRRotation3dMatrix

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index bd1528b..5d44d45 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -770,7 +770,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 06e4093b8b9568051ef2f4d4fe369c7dc3c9d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 028/114] fix: product of a sparse matrix by a complex vector

---
 src/pysimulators/sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 5d44d45..725059f 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -138,7 +138,11 @@ class _FSMatrix:
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-        if str(ds) not in ('float32', 'float64') or str(di) not in ('int32', 'int64'):
+        if (
+            str(ds) not in ('float32', 'float64')
+            or str(di) not in ('int32', 'int64')
+            or dv.kind == 'c'
+        ):
             return v, out, False
 
         if (
-- 
2.43.0


From 8b6bb7b6d2d9700906d129b32159f4dd9d926a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 029/114] fix: product of a sparse matrix by a vector of
 non-native byte order

---
 src/pysimulators/sparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 725059f..4cf0696 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -155,6 +155,9 @@ class _FSMatrix:
         ):
             v = v.astype(self.dtype)
             dv = self.dtype
+        elif not dv.isnative:
+            dv = dv.newbyteorder('=')
+            v = v.astype(dv)
         if out.dtype != dv or not out.flags.contiguous:
             out_ = np.empty(out.size, dtype=dv)
             out_[...] = out
-- 
2.43.0


From 6beedc953cf53670c308cd3da2ffe8f1b72672f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 030/114] fix: SparseOperator.corestrict for rotation matrices

---
 src/pysimulators/sparse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 4cf0696..ad744c8 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -917,11 +917,10 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-            data=self.matrix.data[mask_],
+            data=self.matrix.data[mask],
         )
         if isinstance(self.matrix, FSRMatrix):
             out.broadcastable_shapeout = (nrow,)
-- 
2.43.0


From 796d00ba52e910ea7a50d6848759a28cec4d14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 031/114] fix: in-place SparseOperator.restrict of a
 non-contiguous matrix

---
 src/pysimulators/sparse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index ad744c8..cae8f3e 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -969,13 +969,16 @@ class SparseOperator(SparseBase):
             f = f'fsr_restrict_i{itype.itemsize}'
             func = getattr(fsp, f)
             block_shape = matrix.block_shape[0]
+            data = np.ascontiguousarray(matrix.data)
             ncol = func(
-                matrix.data.view(np.int8).ravel(),
+                data.view(np.int8).ravel(),
                 mask.ravel(),
                 matrix.ncolmax,
                 matrix.shape[0] // block_shape,
-                matrix.data.strides[-1],
+                data.itemsize,
             )
+            if not matrix.data.flags.c_contiguous:
+                matrix.data[...] = data
         else:
             ncol = np.sum(mask)
             new_index = empty(mask.shape, itype)
-- 
2.43.0


From cd825c35bfeac3c7125995086711e68ba2a2bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 032/114] fix: P.T * P for a sparse operator P with broadcast
 dimensions

---
 src/pysimulators/sparse.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index cae8f3e..82ac0bc 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1019,6 +1019,8 @@ class SparseOperator(SparseBase):
                 self.matrix, (FSRMatrix, FSRRotation2dMatrix, FSRRotation3dMatrix)
             )
             or self.matrix.ncolmax != 1
+            or self.matrix.data.size == 0
+            or self.matrix.shape[1] == 0
             or self.shapein is None
         ):
             return
@@ -1039,8 +1041,15 @@ class SparseOperator(SparseBase):
             return
 
         m = self.matrix.data.ravel().view(np.int8)
-        data = np.zeros(self.shapein, dtype=self.dtype)
-        func(m, data.ravel())
+        if isinstance(self.matrix, FSRMatrix):
+            data = np.zeros(self.matrix.shape[1], dtype=self.dtype)
+            func(m, data)
+            # same weight for the elements along the dimensions that are broadcast
+            data = np.repeat(data, product(self.shapein) // data.size)
+            data = data.reshape(self.shapein)
+        else:
+            data = np.zeros(self.shapein, dtype=self.dtype)
+            func(m, data.ravel())
         return DiagonalOperator(data)
 
 
-- 
2.43.0


From 2bc62241b3f21ebc617db177cb55ff32852423f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 033/114] fix: SparseOperator.restrict for a matrix without
 elements

---
 src/pysimulators/sparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 82ac0bc..7eab5e7 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -965,7 +965,10 @@ class SparseOperator(SparseBase):
         else:
             matrix = self.matrix.copy()
         itype = matrix.data.dtype['index']
-        if itype.type in (np.int8, np.int16, np.int32, np.int64):
+        if (
+            itype.type in (np.int8, np.int16, np.int32, np.int64)
+            and matrix.data.size > 0
+        ):
             f = f'fsr_restrict_i{itype.itemsize}'
             func = getattr(fsp, f)
             block_shape = matrix.block_shape[0]
-- 
2.43.0


From 508763e33f6e34a04dd34adf4b5c2656a3307b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 034/114] fix: SparseOperator.restrict for blocks of one column

---
 src/pysimulators/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 7eab5e7..59d4028 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -953,6 +953,8 @@ class SparseOperator(SparseBase):
             raise TypeError('The mask is not boolean.')
         if isinstance(self.matrix, FSRMatrix):
             block_shapein = self.broadcastable_shapein
+        elif self.matrix.block_shape[1] == 1:
+            block_shapein = self.shapein
         else:
             block_shapein = self.shapein[:-1]
         if mask.shape != block_shapein:
@@ -998,6 +1000,8 @@ class SparseOperator(SparseBase):
             if self.shapein is not None:
                 ndims_in = len(self.broadcastable_shapein)
                 out.shapein = (ncol,) + self.shapein[ndims_in:]
+        elif out.matrix.block_shape[1] == 1:
+            out.shapein = (ncol,)
         else:
             out.shapein = (ncol, out.matrix.block_shape[1])
         if inplace:
-- 
2.43.0


From 0398fe086c9ff7927cb9235152de4fe15e1f786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 035/114] fix: race in
 ProjectionOperator.canonical_basis_in_kernel

---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From e4965805ac6142d9b95e9dcef8c3f1615c1e1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 036/114] fix: ProjectionOperator.canonical_basis_in_kernel for
 block matrices

---
 src/pysimulators/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..68e08e3 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1026,7 +1026,7 @@ class ProjectionOperator(SparseOperator):
             return out
 
         itype = data.dtype['index']
-        ftype = data.dtype[1]
+        ftype = data.dtype[1].base
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
             np.float32,
             np.float64,
@@ -1052,6 +1052,8 @@ class ProjectionOperator(SparseOperator):
         else:
             if isinstance(self.matrix, FSRMatrix):
                 indices = data.index[data.value != 0]
+            elif isinstance(self.matrix, FSRBlockMatrix):
+                indices = data.index[np.any(data.value != 0, axis=(-2, -1))]
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
             else:
-- 
2.43.0


From 7b9dbcf9d0c3d2b88f4958938ca5e226e5bd2f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 037/114] fix: shape of the kernel of a ProjectionOperator for
 float16 or float128 elements

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 68e08e3..ddbf426 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1060,6 +1060,7 @@ class ProjectionOperator(SparseOperator):
                 indices = data.index[data.r11 != 0]
             n = product(shape)
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
+            kernel = kernel.reshape(shape)
         operation(out, kernel)
         return out
 
-- 
2.43.0


From 4cf3375769b2b1b7da3564b8a985cc6c1a75ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 038/114] fix: kernel of a ProjectionOperator for arrays which
 are not contiguous

---
 src/pysimulators/operators.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ddbf426..cc805e4 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1034,20 +1034,22 @@ class ProjectionOperator(SparseOperator):
             if operation in (operation_assignment, operator.iand, operator.imul):
                 if operation is operation_assignment:
                     out[...] = True
-                kernel = out
+                kernel = np.ascontiguousarray(out)
             else:
-                kernel = np.ones_like(out)
+                kernel = np.ones(shape, bool)
 
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
             func(
-                data.view(np.int8).ravel(),
-                kernel.view(np.int8).ravel(),
+                data.ravel().view(np.int8),
+                kernel.ravel().view(np.int8),
                 self.matrix.ncolmax,
                 product(data.shape[:-1]),
-                data.strides[-1],
+                data.itemsize,
             )
             if operation in (operation_assignment, operator.iand, operator.imul):
+                if kernel is not out:
+                    out[...] = kernel
                 return out
         else:
             if isinstance(self.matrix, FSRMatrix):
-- 
2.43.0


From e5df6d0d2ddceb71367d0071ef54b647c95c5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 039/114] fix: kernel of a ProjectionOperator with broadcast
 dimensions

---
 src/pysimulators/operators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index cc805e4..9231bcc 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1025,6 +1025,15 @@ class ProjectionOperator(SparseOperator):
             operation(out, True)
             return out
 
+        if isinstance(self.matrix, FSRMatrix) and shape != self.broadcastable_shapein:
+            # the kernel is the same along the broadcast dimensions
+            P = ProjectionOperator(self.matrix, shapein=self.broadcastable_shapein)
+            kernel = P.canonical_basis_in_kernel()
+            ndim_broadcast = len(shape) - kernel.ndim
+            kernel = kernel.reshape(kernel.shape + ndim_broadcast * (1,))
+            operation(out, np.broadcast_to(kernel, shape))
+            return out
+
         itype = data.dtype['index']
         ftype = data.dtype[1].base
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
-- 
2.43.0


From e2917317d198d51c90e8d52e92047892f206a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 040/114] fix: ProjectionOperator.pT1 for 2-d rotations and a
 multi-dimensional input

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9231bcc..846c2e2 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1129,7 +1129,7 @@ class ProjectionOperator(SparseOperator):
                 ).ravel()
                 for i, d in zip(index, data):
                     if i >= 0:
-                        out[i] += d
+                        out.flat[i] += d
             else:
                 x = ones(shapein, self.dtype)
                 operation(out, self.T(x)[..., 0])
-- 
2.43.0


From e7b07491fed8a0d22ce2784dc58f55fb4f5f4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 041/114] fix: output arrays of ProjectionOperator.pT1 and
 pTx_pT1

---
 src/pysimulators/operators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 846c2e2..77a30d9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1119,7 +1119,7 @@ class ProjectionOperator(SparseOperator):
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
                 x = ones(shapein, self.dtype)
-                self.T(x, out=out, operation=operation)
+                self._transpose_into(x, out, operation)
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
                     out[...] = 0
@@ -1204,11 +1204,19 @@ class ProjectionOperator(SparseOperator):
         else:
             self.pT1(out=pT1, operation=operation)
             if isinstance(self.matrix, FSRMatrix):
-                self.T(x, out=pTx, operation=operation)
+                self._transpose_into(x, pTx, operation)
             else:
                 operation(pTx, self.T(x)[..., 0])
         return pTx, pT1
 
+    def _transpose_into(self, x, out, operation):
+        # the accumulation by an Operator requires a contiguous output of its dtype
+        dtype = np.result_type(self.dtype, x.dtype)
+        if out.flags.contiguous and out.dtype == dtype:
+            self.T(x, out=out, operation=operation)
+        else:
+            operation(out, self.T(x))
+
 
 @orthogonal
 @inplace
-- 
2.43.0


From 950cb6c2e1592ddf7a17099488f4f9ee51831ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 042/114] fix: SparseOperator.restrict by a multi-dimensional
 mask for a matrix without elements

---
 src/pysimulators/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 59d4028..ac12693 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -986,9 +986,9 @@ class SparseOperator(SparseBase):
                 matrix.data[...] = data
         else:
             ncol = np.sum(mask)
-            new_index = empty(mask.shape, itype)
+            new_index = empty(mask.size, itype)
             new_index[...] = -1
-            new_index[mask] = np.arange(ncol, dtype=itype)
+            new_index[mask.ravel()] = np.arange(ncol, dtype=itype)
             undef = matrix.data.index < 0
             matrix.data.index = new_index[matrix.data.index]
             matrix.data.index[undef] = -1
-- 
2.43.0


From 9c424e68c5be896d931ee60ca3f31847d4381ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:42 +0000
Subject: [PATCH 043/114] fix: number of samples given to the kernels of the
 pointing matrices

---
 src/pysimulators/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 77a30d9..4f0eed3 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -644,7 +644,11 @@ class ProjectionBaseOperator(Operator):
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.T,
+            matrix.shape[-1],
+            product(matrix.shape[:-1]),
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -664,7 +668,11 @@ class ProjectionBaseOperator(Operator):
         else:
             input_ = input
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.T,
+            output.T,
+            matrix.shape[-1],
+            product(matrix.shape[:-1]),
         )
 
     def set_attrin(self, attr):
@@ -744,6 +752,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                product(matrix.shape[:-1]),
             )
         else:
             flib.pointingmatrix.backprojection_weight(
@@ -752,6 +761,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                product(matrix.shape[:-1]),
             )
         return out
 
-- 
2.43.0


From a2ba27b3f63541ee73edc003e2351a6c0326ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 044/114] fix: data type of ProjectionBaseOperator.get_pTp

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 4f0eed3..4db3704 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -710,9 +710,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From 3fdbff79f26c05795bc7f5f4d4ab95264ba6791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 045/114] fix: mask argument of
 ProjectionBaseOperator.get_pTx_pT1

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 4db3704..dd128b1 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -743,12 +743,13 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
+                np.asarray(mask, np.bool_).ravel().view(np.int8),
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
-- 
2.43.0


From ac8fde1a0c25e8a6adbfead996c4d0e643773903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 046/114] fix: ProjectionBaseOperator.intersects with recent
 versions of numpy

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index dd128b1..3391918 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -774,7 +774,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From bad50b673431c1b06910fbd422d3426a042b22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 047/114] fix: product of a diagonal operator by a
 ProjectionInMemoryOperator

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 3391918..c50f657 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -873,7 +873,7 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
             return
         matrix = self.matrix.copy()
         result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        matrix.value *= np.asarray(d.get_data())[..., None]
         return result
 
 
-- 
2.43.0


From 3e1b8e0289a491f7e94ad1eecc211f04a9a44de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 048/114] fix: P.T * P for a pointing matrix with samples out
 of the map

---
 src/flib/pointingmatrix_old.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..c45f7da 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index == -1) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From 13db5fd3f8e2bedcd7bfea2100a6faddec22a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 049/114] fix: the projection of samples out of the map is set
 to zero

---
 src/flib/module_pointingmatrix.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
-- 
2.43.0


From a9da7f8ece81603303d7b8417c072e0c17e09e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 050/114] fix: the projection by a pointing matrix without
 elements is set to zero

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c50f657..cd987fc 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -636,6 +636,7 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
         if not output.flags.contiguous:
             if pyoperators.memory.verbose:
-- 
2.43.0


From e257e94f6ad25f22c15f4c32aebe73c6a4d4c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 051/114] fix: ProjectionOnFlyOperator after an error in the
 computation of the matrix

---
 src/pysimulators/operators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index cd987fc..c7a8619 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -924,9 +924,11 @@ class ProjectionOnFlyOperator(ProjectionBaseOperator):
 
     @property
     def matrix(self):
-        if self.place_holder['id'] is self.id:
+        if self.place_holder['matrix'] is not None and (
+            self.place_holder['id'] is self.id
+        ):
             return self.place_holder['matrix']
-        self.place_holder['matrix'] = None
+        self.place_holder['id'], self.place_holder['matrix'] = None, None
         matrix = self.func(self.id)
         self.place_holder['id'], self.place_holder['matrix'] = self.id, matrix
         return matrix
-- 
2.43.0


From 41ee90a4544b96353ddb5cd338d762edba8719a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 052/114] fix: projection by a pointing matrix into
 non-contiguous arrays

---
 src/pysimulators/operators.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c7a8619..5180fba 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -638,10 +638,10 @@ class ProjectionBaseOperator(Operator):
         if matrix.size == 0:
             output[...] = 0
             return
-        if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+        if not output.flags.c_contiguous:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty(output.shape, output.dtype)
         else:
             output_ = output
         flib.pointingmatrix.direct(
@@ -651,7 +651,7 @@ class ProjectionBaseOperator(Operator):
             matrix.shape[-1],
             product(matrix.shape[:-1]),
         )
-        if not output.flags.contiguous:
+        if not output.flags.c_contiguous:
             output[...] = output_
 
     def transpose(self, input, output, operation=operation_assignment):
@@ -668,13 +668,16 @@ class ProjectionBaseOperator(Operator):
             input_ = np.ascontiguousarray(input)
         else:
             input_ = input
+        output_ = np.ascontiguousarray(output)
         flib.pointingmatrix.transpose(
             matrix.ravel().view(np.int64),
             input_.T,
-            output.T,
+            output_.T,
             matrix.shape[-1],
             product(matrix.shape[:-1]),
         )
+        if output_ is not output:
+            output[...] = output_
 
     def set_attrin(self, attr):
         if '_header' in attr:
-- 
2.43.0


From a55f645a0812f1f60f9be5d17b0ee619fc909351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 053/114] fix: in-place packing of a non-contiguous pointing
 matrix

---
 src/pysimulators/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 5180fba..277fee0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -575,12 +575,14 @@ class PointingMatrix(FitsArray):
         """
         if self.size == 0:
             return
+        packed = self.ravel()
         flib.pointingmatrix.pack(
-            self.ravel().view(np.int64),
+            packed.view(np.int64),
             mask.view(np.int8).T,
             self.shape[-1],
             self.size // self.shape[-1],
         )
+        self[...] = packed.reshape(self.shape)
         self.shape_input = tointtuple(mask.size - np.sum(mask))
 
     def get_mask(self, out=None):
-- 
2.43.0


From 934c51213f434ede8c300c9c2fece5b8f5ed4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 054/114] fix: values of NaN and infinity in the Fortran
 modules

---
 src/flib/module_math.f90.j2  | 8 ++++----
 src/flib/module_math_old.f90 | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flib/module_math.f90.j2 b/src/flib/module_math.f90.j2
index 4eea029..5adf1ac 100644
--- a/src/flib/module_math.f90.j2
+++ b/src/flib/module_math.f90.j2
@@ -6,11 +6,11 @@ module module_math
     implicit none
 
     real(real32), parameter :: NAN_4  = real(z'FFFFFFFF', real32)
-    real(real32), parameter :: MINF_4 = real(z'FF700000', real32)
-    real(real32), parameter :: PINF_4 = real(z'7F700000', real32)
+    real(real32), parameter :: MINF_4 = real(z'FF800000', real32)
+    real(real32), parameter :: PINF_4 = real(z'7F800000', real32)
     real(real32), parameter :: PI_4 = 4._real32 * atan(1._real32)
-    real(real64), parameter :: NAN_8  = real(z'FFF800000000000', real64)
-    real(real64), parameter :: MINF_8 = real(z'FFF000000000000', real64)
+    real(real64), parameter :: NAN_8  = real(z'FFF8000000000000', real64)
+    real(real64), parameter :: MINF_8 = real(z'FFF0000000000000', real64)
     real(real64), parameter :: PINF_8 = real(z'7FF0000000000000', real64)
     real(real64), parameter :: PI_8 = 4._real64 * atan(1._real64)
 {% if PRECISION_REAL == 16 %}
diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 61df943..0f5d4ca 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -49,9 +49,9 @@ module module_math_old
     !XXX should use ieee_arithmetic instead when gfortran implements it. So far, gfortran doesn't allow NaN, mInf, pInf conversion
     ! between different real kinds...
 #if PRECISION_REAL == 8
-    real(8), parameter :: NaN  = real(z'FFFFFFFF', 8)
-    real(8), parameter :: mInf = real(z'FFFF0000', 8)
-    real(8), parameter :: pInf = real(z'7FFF0000', 8)
+    real(8), parameter :: NaN  = real(z'FFF8000000000000', 8)
+    real(8), parameter :: mInf = real(z'FFF0000000000000', 8)
+    real(8), parameter :: pInf = real(z'7FF0000000000000', 8)
 #elif PRECISION_REAL == 16
     real(16), parameter :: NaN  = z'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF'
     real(16), parameter :: mInf = z'FFFF0000000000000000000000000000'
-- 
2.43.0


From 4dcd1827f828b5b6a5bdee9a308a3f95cef461e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 055/114] fix: squared distances in three dimensions or more

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..e2be280 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -259,7 +259,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
     if len(d) == 1:
         out[...] = d[0]
         return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    np.add(sum(d[:-1]), d[-1], out)
     return out
 
 
-- 
2.43.0


From fa58c9a3580438c6b8e231bd7e5e934320e0b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 056/114] fix: surface of arrays of polygons of several
 dimensions

---
 src/pysimulators/geometry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..b6db16a 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -352,13 +352,10 @@ def surface_simple_polygon(coords, out=None, dtype=float):
     coords = _np.array(coords, dtype=float, order='c')
     if out is None:
         out = _np.empty(coords.shape[:-2], dtype)
-    if coords.ndim < 3:
-        coords = coords[None, ...]
-    if out.ndim == 0:
-        out_ = out.reshape(1)
-    else:
-        out_ = out
-    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
+    coords = coords.reshape((-1,) + coords.shape[-2:])
+    out_ = _np.empty(len(coords))
+    _flib.geometry.surface_simple_polygon(coords.T, out_)
+    out[...] = out_.reshape(out.shape)
     if out.ndim == 0:
         out = out[()]
     return out
-- 
2.43.0


From 57bbbb5abbdd724ebc4e8af7ed512d2cfa180961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 057/114] fix: rotation of an array without points

---
 src/pysimulators/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index b6db16a..3d08016 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -304,6 +304,8 @@ def rotate(coords, angle, out=None):
     coords = _np.asarray(coords)
     if out is None:
         out = _np.empty_like(coords)
+    if coords.size == 0:
+        return out
     if (
         coords.dtype.char == 'd'
         and coords.flags.c_contiguous
-- 
2.43.0


From bff9a6655357771859e024b53ff862aa9e3131a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 058/114] fix: angle between identical or opposite directions

---
 src/flib/module_math_old.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 0f5d4ca..c249c9e 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -505,8 +505,8 @@ contains
         real(p), intent(in)  :: lon1, lat1, lon2, lat2
         real(p), intent(out) :: angle
 
-        angle = acos(cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)) * &
-                RAD2DEG
+        angle = cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)
+        angle = acos(max(-1._p, min(1._p, angle))) * RAD2DEG
 
     end subroutine angle_lonlat
 
-- 
2.43.0


From 8c3d124b7c306cf407d619870db551364c004e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 059/114] fix: mean and extrema of angles which extend beyond
 90 degrees from 0

---
 src/flib/wcsutils.f90 | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index 6bb9a70..a46704a 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -81,30 +81,39 @@ contains
         real(p), intent(in)   :: array(n)
         real(p), intent(out)  :: mean
 
-        real(p) :: val
+        real(p) :: val, minv, maxv, minv180, maxv180
         integer*8 :: isample, n180, nvalids
-        logical :: zero_minus, zero_plus
 
         mean = 0
-        zero_minus = .false.
-        zero_plus  = .false.
+        minv = pInf
+        maxv = mInf
+        minv180 = pInf
+        maxv180 = mInf
         n180 = 0
         nvalids = 0
 
         !$omp parallel do default(shared) reduction(+:n180, nvalids, mean)     &
-        !$omp reduction(.or.:zero_minus,zero_plus) private(isample, val)
+        !$omp reduction(min:minv,minv180) reduction(max:maxv,maxv180)          &
+        !$omp private(isample, val)
         do isample = 1, n
             val = modulo(array(isample), 360._p)
             if (val /= val) cycle
-            zero_minus = zero_minus .or. val > 270._p
-            zero_plus  = zero_plus  .or. val <= 90._p
-            if (val >= 180._p) n180 = n180 + 1
             mean = mean + val
+            minv = min(minv, val)
+            maxv = max(maxv, val)
+            if (val >= 180._p) then
+                n180 = n180 + 1
+                val = val - 360._p
+            end if
+            minv180 = min(minv180, val)
+            maxv180 = max(maxv180, val)
             nvalids = nvalids + 1
         end do
         !$omp end parallel do
 
-        if (zero_minus .and. zero_plus) mean = mean - 360._p * n180
+        ! the values lie across 0 degree if their extent in [-180, 180[ is smaller
+        ! than their extent in [0, 360[
+        if (n180 < nvalids .and. maxv180 - minv180 < maxv - minv) mean = mean - 360._p * n180
 
         if (nvalids > 0) then
             mean = modulo(mean / nvalids, 360._p)
-- 
2.43.0


From 0eac00017e7a197eae1ed2c20ca099ecbbe2e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 060/114] fix: angles between different numbers of vectors

---
 src/pysimulators/wcsutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 9e94496..1a67898 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -58,6 +58,11 @@ def angle_lonlat(lon1, lat1, lon2=None, lat2=None):
     lat1 = np.asarray(lat1, float)
     lon2 = np.asarray(lon2, float)
     lat2 = np.asarray(lat2, float)
+    sizes = lon1.size, lon2.size
+    if sizes[0] != sizes[1] and 1 not in sizes:
+        raise ValueError(f"The numbers of vectors '{sizes}' are incompatible.")
+    if 0 in sizes:
+        return np.empty(0)
     angle = flib.wcsutils.angle_lonlat(
         lon1.ravel(), lat1.ravel(), lon2.ravel(), lat2.ravel()
     )
-- 
2.43.0


From 156b9fdd4ad6a0b33205d75cb8fef61b52ba4b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 061/114] fix: in-place transpose of the truncated exponential
 convolution

---
 src/flib/module_operators.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..e6cc7f9 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
-- 
2.43.0


From d74213a4fe5769ae9f1c7620ecd5c3d5fcdd3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 062/114] fix: truncated exponential convolution of empty
 arrays

---
 src/flib/module_operators.f90.j2 | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index e6cc7f9..e962a06 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -445,7 +445,7 @@ contains
         integer(int64) :: i
         real({{ combo.rkind }}) :: v, w
 
-        if (tau == 0) then
+        if (tau == 0 .or. size(input) == 0) then
             return
         else if (tau < 0) then
             input = 0
@@ -467,7 +467,7 @@ contains
         integer(int64) :: i
         real({{ combo.rkind }}) :: v, w
 
-        if (tau == 0) then
+        if (tau == 0 .or. size(input) == 0) then
             output = input
             return
         else if (tau < 0) then
@@ -491,7 +491,7 @@ contains
         real({{ combo.rkind }}) :: v, w
 
         n = size(input)
-        if (tau == 0) then
+        if (tau == 0 .or. size(input) == 0) then
             return
         else if (tau < 0) then
             input = 0
@@ -516,8 +516,9 @@ contains
         real({{ combo.rkind }}) :: v, w
 
         n = size(input)
-        if (tau == 0) then
+        if (tau == 0 .or. size(input) == 0) then
             output = input
+            return
         else if (tau < 0) then
             output = 0
             return
-- 
2.43.0


From bfb6e3f22c9d2d7a487ba2287f34ae13a288432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 063/114] fix: truncated exponential convolution of arrays of
 two dimensions in single precision

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 277fee0..1ed8ad9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -417,10 +417,11 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    itemsize = x.itemsize
+    if x.shape[1] > 1 and x.strides[1] != itemsize:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    shape_all = x.shape[0], x.strides[0] // itemsize
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (itemsize,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From b2f521819c8a524060c02b217538e3a644c29b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 064/114] fix: composition of a black body operator and a block
 operator

---
 src/pysimulators/operators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 1ed8ad9..664a01f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -330,6 +330,13 @@ class BlackBodyOperator(DiagonalOperator):
         self.wavelength = wavelength
         self.wavelength0 = wavelength0
 
+    @staticmethod
+    def _rule_block(self, op, shape, partition, axis, new_axis, func_operation):
+        diagonal = DiagonalOperator(self.data, broadcast=self.broadcast)
+        return DiagonalOperator._rule_block(
+            diagonal, op, shape, partition, axis, new_axis, func_operation
+        )
+
 
 @real
 @linear
-- 
2.43.0


From 8f6f723ade207afb124fa941965d900623618c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 065/114] fix: WCS transforms into non-contiguous arrays

---
 src/pysimulators/wcsutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 1a67898..2678ff7 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -718,8 +718,8 @@ class WCSToPixelOperator(_WCSOperator):
     def direct(self, input, output, operation=operation_assignment):
         if ASTROPY_WCS_NDIM_IS_2:
             input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_world2pix(input, self.origin))
+        result = self.wcs.wcs_world2pix(input, self.origin)
+        operation(output, result.reshape(output.shape))
 
 
 class WCSToWorldOperator(_WCSOperator):
@@ -746,5 +746,5 @@ class WCSToWorldOperator(_WCSOperator):
     def direct(self, input, output, operation=operation_assignment):
         if ASTROPY_WCS_NDIM_IS_2:
             input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_pix2world(input, self.origin))
+        result = self.wcs.wcs_pix2world(input, self.origin)
+        operation(output, result.reshape(output.shape))
-- 
2.43.0


From c55687aae9143e7a1f39fb88e4612ad1c9fc88bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 066/114] fix: indices and values of the pointing matrices of
 MADMAP1 files

---
 src/pysimulators/interfaces/madmap1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6734d81..6f6ad05 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -196,7 +196,8 @@ class MadMap1Observation(Acquisition):
                 p = PointingMatrix.empty(
                     (ndetectors, b.n, npps), self.info.npixels_in_map
                 )
-                p[...] = data['matrix']
+                p['index'] = data['matrix']['index']
+                p['value'] = data['matrix']['value']
                 pmatrix.append(p)
         return tod, pmatrix
 
-- 
2.43.0


From bd94e9a89f818557716345610cd9decdf3c26f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 067/114] fix: MADMAP1 filters of observations of several
 blocks

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6f6ad05..825f0b3 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -125,11 +125,11 @@ class MadMap1Observation(Acquisition):
         ops = [
             SymmetricBandToeplitzOperator(
                 (len(self.instrument), b.n),
-                self._filters,
+                filters,
                 fftw_flag=fftw_flag,
                 nthreads=nthreads,
             )
-            for b in self.block
+            for b, filters in zip(self.block, self._filters)
         ]
         return BlockDiagonalOperator(ops, axisin=-1)
 
-- 
2.43.0


From 038931d65a71feac196d03f17870d2322fef4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 068/114] fix: names of the MADMAP1 filter files

---
 src/pysimulators/interfaces/madmap1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 825f0b3..93d300b 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -212,7 +212,7 @@ def _read_one_filter(filename, bigendian=False):
 def _read_filters(filename, bigendian=False):
     if isinstance(filename, str):
         filename = Path(filename)
-    regex = re.compile(str(filename) + r'\.[0-9]+$')
+    regex = re.compile(re.escape(str(filename)) + r'\.[0-9]+$')
     files = sorted(
         (_ for _ in filename.parent.iterdir() if regex.match(str(_))),
         key=lambda f: int(f.suffix[1:]),
-- 
2.43.0


From 53a121ae8e3229481e135452d1091cc2b679f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 069/114] fix: truncated MADMAP1 filter files

---
 src/pysimulators/interfaces/madmap1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 93d300b..e6ad02a 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -206,6 +206,8 @@ def _read_one_filter(filename, bigendian=False):
     dtype = '>i8' if bigendian else '<i8'
     first, last, ncorr = np.fromfile(filename, dtype, count=3)
     data = np.fromfile(filename, dtype.replace('i', 'f'), count=4 + ncorr)[3:]
+    if data.size != ncorr + 1:
+        raise ValueError(f"Invalid size for file '{filename}'.")
     return {'first': first, 'last': last, 'data': data}
 
 
-- 
2.43.0


From 0b65d37ab02954e0fc94c23c7bbda75abed944c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 070/114] fix: rows of the place-holders of FSC matrices with
 blocks which are not square

---
 src/pysimulators/sparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index ac12693..c01386a 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -59,7 +59,10 @@ class _FSMatrix:
                     f'The maximum number of non-zero {straxes[0]}s per {straxes[1]} '
                     f'is not specified.'
                 )
-            shape_data = (shape[1 - sparse_axis] // block_shape[0], nmax)
+            shape_data = (
+                shape[1 - sparse_axis] // block_shape[1 - sparse_axis],
+                nmax,
+            )
             if dtype is None:
                 dtype = float
             if dtype_index is None:
-- 
2.43.0


From 0f1ce3d91d84d7d9d719b9582f55b7a4d48c0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 071/114] fix: unit conversions altered the derived units they
 looked up

---
 src/pysimulators/quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..413dfd5 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1236,6 +1236,8 @@ def _get_du(input, key, derived_units):
     if hasattr(input, '_header'):
         du = du.view(type(input))
         du._header = input._header
+    else:
+        du = du.view()
     du._derived_units = input._derived_units
     return du, broadcast
 
-- 
2.43.0


From d40f6b077d0c37c74542ca47277656662882dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 072/114] fix: saving a map altered its header

---
 src/pysimulators/datatypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 339d86c..135f987 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -944,8 +944,10 @@ class Map(FitsArray):
         if comm is None:
             comm = MPI.COMM_SELF
 
-        self.header['DISPORIG'] = self.origin, 'Map display convention'
-        FitsArray.save(self, filename, comm=comm)
+        result = self.view()
+        result.header = self.header.copy()
+        result.header['DISPORIG'] = self.origin, 'Map display convention'
+        FitsArray.save(result, filename, comm=comm)
         if self.coverage is not None:
             write_fits(filename, self.coverage, None, True, 'Coverage', comm)
         if self.error is not None:
-- 
2.43.0


From 5b8bc29dcb3447908cb8b1af6e6fffb249795b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 073/114] fix: the center of a sampling altered its stored
 coordinates

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f7d34d..2f29a68 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -161,7 +161,7 @@ class SamplingSpherical(Sampling):
             coords = self.cartesian
             if not isscalarlike(self.masked):
                 valid = 1 - self.masked
-                coords *= valid[:, None]
+                coords = coords * valid[:, None]
                 n = np.sum(valid)
             else:
                 n = len(self)
-- 
2.43.0


From f3b5a7f1603892e87a63e86937fa7a9456eaba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 074/114] fix: coordinate changes of horizontal samplings
 altered their stored coordinates

---
 src/pysimulators/packedtables/samplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 2f29a68..8c356ba 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -354,7 +354,7 @@ class SamplingHorizontal(SamplingSpherical):
         h2e = SphericalHorizontal2EquatorialOperator(
             'NE', time, self.latitude, self.longitude, degrees=True
         )
-        return h2e(self.spherical, preserve_input=False)
+        return h2e(self.spherical)
 
     @property
     def galactic(self):
@@ -367,7 +367,7 @@ class SamplingHorizontal(SamplingSpherical):
             'NE', time, self.latitude, self.longitude, degrees=True
         )
         e2g = SphericalEquatorial2GalacticOperator(degrees=True)
-        return e2g(h2e)(self.spherical, preserve_input=False)
+        return e2g(h2e)(self.spherical)
 
 
 class _SamplingEquatorialScan(SamplingEquatorial):
-- 
2.43.0


From cedc472a3f47fba1aee0db8176ef23a286d6acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 075/114] fix: constructors without copy altered the attributes
 of their input

---
 src/pysimulators/datatypes.py  | 7 +++++++
 src/pysimulators/quantities.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 135f987..bc5e03b 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -147,6 +147,8 @@ class FitsArray(Quantity):
 
         # copy header attribute
         if header is not None:
+            if result is data:
+                result = result.view()
             result.header = header
         elif hasattr(data, '_header') and type(data._header) is pyfits.Header:
             if copy:
@@ -683,6 +685,9 @@ class Map(FitsArray):
                 except KeyError:
                     pass
 
+        if result is data and any(_ is not None for _ in (coverage, error, origin)):
+            result = result.view()
+
         if origin is not None:
             origin = origin.strip().lower()
             if origin not in ('lower', 'upper'):
@@ -1071,6 +1076,8 @@ class Tod(FitsArray):
         # mask attribute
         if mask is np.ma.nomask:
             mask = None
+        elif mask is not None and result is data:
+            result = result.view()
 
         if mask is None and isinstance(data, (str, Path)):
 
diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 413dfd5..ec95fc8 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -467,6 +467,10 @@ class Quantity(np.ndarray):
         if not subok and type(result) is not cls or not isinstance(result, cls):
             result = result.view(cls)
 
+        # the data may be shared with the input, but not the attributes
+        if result is data and not (unit is None and derived_units is None):
+            result = result.view()
+
         # set unit attribute
         if unit is not None:
             result.unit = unit
-- 
2.43.0


From 580a291292bcd4509079eca6e9d4c95b61ad5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 076/114] fix: deep copies of maps and TODs shared their
 attributes

---
 src/pysimulators/quantities.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index ec95fc8..1eb02ba 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -2,6 +2,7 @@
 # All rights reserved
 #
 
+import copy
 import re
 import sys
 from collections.abc import Callable, Iterable, Sequence
@@ -1141,6 +1142,12 @@ class Quantity(np.ndarray):
         state[2] = (state[2], subclass_state)
         return tuple(state)
 
+    def __deepcopy__(self, memo):
+        result = super().__deepcopy__(memo)
+        memo[id(self)] = result
+        result.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return result
+
     def __setstate__(self, state):
         ndarray_state, subclass_state = state
         np.ndarray.__setstate__(self, ndarray_state)
-- 
2.43.0


From c21c0f524c3bca2c8e51464a77803064235febdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 077/114] fix: items of a masked TOD overwrote its mask

---
 src/pysimulators/datatypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index bc5e03b..046ddc8 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1175,7 +1175,7 @@ class Tod(FitsArray):
             mask = arrays.mask if arrays.mask is not np.ma.nomask else None
             output = arrays.data.view(type(self))
             output.__array_finalize__(self)
-            output.mask = mask
+            output._mask = mask
             output._unit = output_units
             return output
 
@@ -1203,7 +1203,7 @@ class Tod(FitsArray):
         if not isinstance(item, Tod):
             return item
         if item.mask is not None:
-            item.mask = item.mask[key]
+            item._mask = np.asarray(item.mask[key])
         return item
 
     @classmethod
@@ -1336,7 +1336,7 @@ class Tod(FitsArray):
     def reshape(self, *newdims, order='C'):
         result = super().reshape(*newdims, order=order)
         mask = None if self.mask is None else self.mask.reshape(*newdims, order=order)
-        result.mask = mask
+        result._mask = mask
         return result
 
     def median(self, axis=None):
-- 
2.43.0


From eef5a4307540c216134b6db17beea1ebde13aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 078/114] fix: reductions of a TOD which is all masked shared
 its mask

---
 src/pysimulators/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 046ddc8..16957fb 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1165,8 +1165,9 @@ class Tod(FitsArray):
         """Convert function outputs back to Tod, extracting mask from MaskedArray."""
         # Handle MaskedConstant (all values masked)
         if isinstance(arrays, np.ma.core.MaskedConstant):
-            output = type(self)(np.nan, mask=True)
+            output = type(self)(np.nan)
             output.__array_finalize__(self)
+            output._mask = np.ones((), bool)
             output._unit = output_units
             return output
 
-- 
2.43.0


From 198288e7766b028eeceb9770f2c19fba4beec806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 079/114] fix: an array without unit was saved with the unit of
 its header

---
 src/pysimulators/datatypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 16957fb..d4f99f7 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -316,6 +316,9 @@ class FitsArray(Quantity):
 
         if len(self._unit) != 0:
             header['BUNIT'] = self.unit
+        else:
+            header.remove('BUNIT', ignore_missing=True)
+            header.remove('QTTY____', ignore_missing=True)
 
         write_fits(filename, self, header, False, None, comm)
         if not self.derived_units:
-- 
2.43.0


From 09df033f5c28860220cf1495625d8e73595331ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 080/114] fix: race on the number of columns required by
 object2pmatrix_sharp_edges

---
 src/flib/wcsutils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index a46704a..3f2ec53 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -361,7 +361,7 @@ contains
         if (status /= 0) return
 
         !$omp parallel do private(isample, coords2, roi) &
-        !$omp reduction(max : npixels_per_sample) reduction(.or. : out)
+        !$omp reduction(max : new_npixels_per_sample) reduction(.or. : out)
         do isample = 1, npointings
 
             if (masked(isample)) then
-- 
2.43.0


From c49fdb1180f8fde9aa0dd2bd56b7881206c55cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 081/114] fix: object2xy_minmax ignored the header after its
 first block

---
 src/flib/wcsutils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index 3f2ec53..92552b2 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -237,7 +237,7 @@ contains
         integer*8, intent(in)                      :: ncoords, npointings     ! #coordinates, #pointings
         real(p), intent(in)                        :: coords(2,ncoords)       ! instrument frame coordinates
         real(p), intent(in), dimension(npointings) :: ra, dec, pa             ! input pointings in celestial coordinates
-        character(len=2880), intent(in)            :: header                  ! input FITS header
+        character(len=*), intent(in)               :: header                  ! input FITS header
         real(p), intent(out)                       :: xmin, ymin, xmax, ymax  ! min and max values of the map coordinates
         integer, intent(out)                       :: status                  ! status flag
 
-- 
2.43.0


From 31d6ce59a0bb7b0e95e5656bc4acdb7588127b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 082/114] fix: direction of the rotation CROTA2 in the Fortran
 kernels

---
 src/flib/module_wcs.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flib/module_wcs.f90 b/src/flib/module_wcs.f90
index a9f399e..1140516 100644
--- a/src/flib/module_wcs.f90
+++ b/src/flib/module_wcs.f90
@@ -135,8 +135,8 @@ contains
 
             crota2 = crota2 * DEG2RAD
             myastr%cd(1,1) =  cos(crota2) * cdelt1
-            myastr%cd(2,1) = -sin(crota2) * cdelt1
-            myastr%cd(1,2) =  sin(crota2) * cdelt2
+            myastr%cd(2,1) =  sin(crota2) * cdelt1
+            myastr%cd(1,2) = -sin(crota2) * cdelt2
             myastr%cd(2,2) =  cos(crota2) * cdelt2
 
         end if
-- 
2.43.0


From 022ae2e3464f8e607562f4b948a50877ff5587db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 083/114] fix: back-projection by a pointing matrix into
 non-contiguous arrays

---
 src/pysimulators/operators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 664a01f..279c746 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -759,13 +759,14 @@ class ProjectionBaseOperator(Operator):
             return out
         if mask is None:
             mask = getattr(x, 'mask', None)
+        out_ = out[0].ravel(), out[1].ravel()
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
                 np.asarray(mask, np.bool_).ravel().view(np.int8),
-                out[0].ravel(),
-                out[1].ravel(),
+                out_[0],
+                out_[1],
                 matrix.shape[-1],
                 product(matrix.shape[:-1]),
             )
@@ -773,11 +774,14 @@ class ProjectionBaseOperator(Operator):
             flib.pointingmatrix.backprojection_weight(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                out[0].ravel(),
-                out[1].ravel(),
+                out_[0],
+                out_[1],
                 matrix.shape[-1],
                 product(matrix.shape[:-1]),
             )
+        for o, o_ in zip(out, out_):
+            if not o.flags.c_contiguous:
+                o[...] = o_.reshape(o.shape)
         return out
 
     def intersects(self, fitscoords, axis=None, f=None):
-- 
2.43.0


From 0bf5575506c614ab308e21532ab8202f3eef0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 084/114] fix: one-sided PSD at the Nyquist frequency

---
 src/pysimulators/noises.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..61ba372 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -19,8 +19,10 @@ def _fold_psd(p):
     n = p.shape[-1] // 2 + 1
     out = empty(p.shape[:-1] + (n,))
     out[..., 0] = p[..., 0]
-    np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
-    out[..., -1] = p[..., n]
+    np.multiply(p[..., 1:n], 2, out[..., 1:])
+    if p.shape[-1] % 2 == 0:
+        # Nyquist frequency
+        out[..., -1] = p[..., n - 1]
     return out
 
 
-- 
2.43.0


From d6758efdcc6a710fcf49a5adb145cff633cc5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 085/114] fix: noise of an odd number of samples from a PSD

---
 src/pysimulators/instruments.py |  2 +-
 src/pysimulators/noises.py      | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 347d769..a0cbead 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -325,7 +325,7 @@ class Instrument:
         else:
             # log-log interpolation of one-sided PSD
             f = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
-            p = _logloginterp_psd(f, bandwidth, psd)
+            p = _logloginterp_psd(f, bandwidth, psd, odd=n % 2 == 1)
 
         # looping over the detectors
         for out_ in out:
diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index 61ba372..2707994 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -26,10 +26,17 @@ def _fold_psd(p):
     return out
 
 
-def _unfold_psd(p):
+def _unfold_psd(p, odd=False):
     """Convert one-sided PSD into even two-sided PSD."""
     p = np.asarray(p)
     n = p.shape[-1]
+    if odd:
+        # no Nyquist frequency
+        out = empty(p.shape[:-1] + (2 * n - 1,))
+        out[..., 0] = p[..., 0]
+        np.multiply(p[..., 1:], 0.5, out[..., 1:n])
+        out[..., n:] = out[..., n - 1 : 0 : -1]
+        return out
     out = empty(p.shape[:-1] + (2 * (n - 1),))
     out[..., 0] = p[..., 0]
     np.multiply(p[..., 1 : n - 1], 0.5, out[..., 1 : n - 1])
@@ -114,7 +121,7 @@ def _gaussian_sample(
         out = empty(psd.shape[:-1] + (nsamples,))
 
     if not twosided:
-        psd = _unfold_psd(psd)
+        psd = _unfold_psd(psd, odd=nsamples % 2 == 1)
 
     shape = psd.shape[:-1] + (nsamples,)
     gauss = np.random.randn(*shape)
@@ -163,7 +170,7 @@ def _psd2invntt(psd, bandwidth, ncorr, fftw_flag='FFTW_MEASURE'):
     return invntt
 
 
-def _logloginterp_psd(f, bandwidth, psd, out=None):
+def _logloginterp_psd(f, bandwidth, psd, out=None, odd=False):
     """Loglog-interpolation of one-sided PSD."""
     f = np.asarray(f)
     psd = np.asarray(psd)
@@ -175,7 +182,9 @@ def _logloginterp_psd(f, bandwidth, psd, out=None):
         np.log(f[1:]), np.log(frequency[1:-1]), np.log(psd[..., 1:-1]), out=out[..., 1:]
     )
     np.exp(out[..., 1:], out[..., 1:])
-    out[..., -1] /= 2
+    if not odd:
+        # Nyquist frequency
+        out[..., -1] /= 2
     return out
 
 
-- 
2.43.0


From 6dd3f6448544d58366b5e90e99056fcb8638c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 086/114] fix: selection of a table down to its first element
 with a negative step

---
 src/pysimulators/packedtables/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 79358d5..e70cd6d 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -311,6 +311,11 @@ class PackedTable:
         if selection is Ellipsis:
             return self
 
+        # slice selection with negative stop values cannot be used for indexing
+        indexable = selection
+        if isinstance(selection, slice) and selection.stop < 0:
+            indexable = slice(selection.start, None, selection.step)
+
         index = self._index
         if index is Ellipsis and (
             isinstance(selection, slice)
@@ -326,7 +331,7 @@ class PackedTable:
             index = slice(start, stop, step)
         else:
             index = self.index
-            index = index[selection]
+            index = index[indexable]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
@@ -341,7 +346,7 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, v[selection])
+                setattr(out, k, v[indexable])
         return out
 
     def __str__(self):
-- 
2.43.0


From 154a393d8d3e58ce02f2ea542f841fb7c7bdffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 087/114] fix: selection with a negative step and a stop before
 the first element

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index e70cd6d..2df1aab 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -758,7 +758,7 @@ class PackedTable:
         if stop is None:
             stop = n if step > 0 else -1
         elif stop < 0:
-            stop = n + stop
+            stop = max(n + stop, -1)
         elif stop > n:
             stop = n
 
-- 
2.43.0


From b8f4a719a86705fac6eb3994be7cdcde85d89591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 088/114] fix: selection of an element of a table several times

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 2df1aab..4c07f2e 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -726,7 +726,7 @@ class PackedTable:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From 604446239df7e5768641e4b988aea0f2ce53ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 089/114] fix: selection of table elements by negative integers

---
 src/pysimulators/packedtables/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 4c07f2e..f04c320 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -688,7 +688,7 @@ class PackedTable:
         ):
             return Ellipsis
         if isscalarlike(selection):
-            return np.asarray([selection], self._dtype_index)
+            selection = np.asarray([selection], self._dtype_index)
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
@@ -714,7 +714,9 @@ class PackedTable:
         if selection.dtype == int:
             if selection.ndim != 1:
                 raise ValueError('Index selection is not 1-dimensional.')
-        elif selection.shape != shape:
+            # negative values count from the end
+            return np.where(selection < 0, selection + product(shape), selection)
+        if selection.shape != shape:
             raise ValueError('Invalid boolean selection dimensions.')
 
         return selection
-- 
2.43.0


From 8e07dc148e3a844bfe085e192605ed923e26393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 090/114] fix: unpacking a table whose elements are selected
 several times

---
 src/pysimulators/packedtables/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index f04c320..b25ebd0 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -640,7 +640,11 @@ class PackedTable:
             out = np.empty(unpacked_shape, dtype=x.dtype).view(type(x))
             if out.__array_finalize__ is not None:
                 out.__array_finalize__(x)
-        if self._size_actual > len(self):
+        if self._size_actual > len(self) or (
+            # an element may be selected several times
+            isinstance(index, np.ndarray)
+            and np.unique(index).size < self._size_actual
+        ):
             if missing_value is None:
                 missing_value = self._get_default_missing_value(x.dtype)
             out[...] = missing_value
-- 
2.43.0


From 7482bddbcb27b7d661a58310977299ea1417ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 091/114] fix: arrays with different data types were written
 together

---
 src/pysimulators/mpiutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fc8d30c..e4467b2 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -274,6 +274,9 @@ def write_fits(filename, data, header, extension, extname, comm):
     shapes = comm.allgather(data.shape)
     if any(s[1:] != shapes[0][1:] for s in shapes):
         raise ValueError(f"The arrays have incompatible shapes: '{strshape(shapes)}'.")
+    dtypes = comm.allgather(data.dtype.newbyteorder('='))
+    if any(d != dtypes[0] for d in dtypes):
+        raise ValueError(f'The arrays have incompatible data types: {dtypes}.')
 
     # get header
     if header is None:
-- 
2.43.0


From 7e08aaf49a293c1ac4af659ccafaffa0ef8c9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 092/114] fix: arrays whose units or attributes differ across
 processes were saved together

---
 src/pysimulators/datatypes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index d4f99f7..a41f772 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -96,6 +96,7 @@ class FitsArray(Quantity):
     """
 
     _header = None
+    _extensions = ()
 
     def __new__(
         cls,
@@ -320,6 +321,15 @@ class FitsArray(Quantity):
             header.remove('BUNIT', ignore_missing=True)
             header.remove('QTTY____', ignore_missing=True)
 
+        # check that the same content is to be saved by all MPI jobs
+        extensions = ['derived_units'] if self.derived_units else []
+        extensions += [k for k in self._extensions if getattr(self, k) is not None]
+        contents = comm.allgather((self.unit, extensions))
+        if any(c != contents[0] for c in contents):
+            raise ValueError(
+                f'The arrays have different units or attributes: {contents}.'
+            )
+
         write_fits(filename, self, header, False, None, comm)
         if not self.derived_units:
             return
@@ -634,6 +644,7 @@ class Map(FitsArray):
     coverage = None
     error = None
     origin = None
+    _extensions = 'coverage', 'error'
 
     def __new__(
         cls,
@@ -1043,6 +1054,7 @@ class Tod(FitsArray):
     """
 
     _mask = None
+    _extensions = ('mask',)
 
     def __new__(
         cls,
-- 
2.43.0


From 0f23335345d8df9b5b5ecce8754f91b006dd1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 093/114] fix: gathering a table whose local parts have been
 restricted

---
 src/pysimulators/packedtables/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index b25ebd0..b5ab72a 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -524,13 +524,11 @@ class PackedTable:
             )
             return out
 
-        ntot = np.array(len(self))
-        self.comm.Allreduce(MPI.IN_PLACE, ntot, op=MPI.SUM)
-        counts = []
+        # the local parts may have been restricted since the table was scattered
+        counts = self.comm.allgather(len(self))
+        ntot = sum(counts)
         offsets = [0]
-        for s in split(ntot, self.comm.size):
-            n = s.stop - s.start
-            counts.append(n)
+        for n in counts:
             offsets.append(offsets[-1] + n)
         offsets.pop()
 
-- 
2.43.0


From c46c453f39cc10b53d164f462d8eba5c124b9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 094/114] fix: gathering arrays whose shapes or data types are
 incompatible

---
 src/pysimulators/packedtables/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index b5ab72a..6a32802 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -513,6 +513,12 @@ class PackedTable:
 
         def func(x):
             x = np.asarray(x, order='C')
+            specs = self.comm.allgather((x.shape[:1], x.shape[1:], x.dtype))
+            if any(s != ((n,),) + specs[0][1:] for s, n in zip(specs, counts)):
+                raise ValueError(
+                    f'The arrays to be gathered have incompatible shapes or data '
+                    f'types: {specs}.'
+                )
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
-- 
2.43.0


From 6fdf9a0766a38ce0075025d9892a69adb774fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 095/114] fix: rotation of points with integer coordinates

---
 src/pysimulators/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 3d08016..7ba474b 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -303,6 +303,9 @@ def rotate(coords, angle, out=None):
 
     coords = _np.asarray(coords)
     if out is None:
+        if coords.dtype.kind in 'biu':
+            # the elements of the rotation matrix are not integers
+            coords = coords.astype(float)
         out = _np.empty_like(coords)
     if coords.size == 0:
         return out
-- 
2.43.0


From 1bc2c46a80aab19fcf53a3954c2f7fc7ad94a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 096/114] fix: selection of a table along several dimensions

---
 src/pysimulators/packedtables/core.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 6a32802..41583db 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -704,6 +704,15 @@ class PackedTable:
             if selection_.dtype == object:
                 if len(selection) > len(shape):
                     raise ValueError('Invalid selection dimensions.')
+                for i, s in enumerate(selection):
+                    if s is Ellipsis:
+                        n = len(shape) - len(selection) + 1
+                        selection = (
+                            *selection[:i],
+                            *(n * (slice(None),)),
+                            *selection[i + 1 :],
+                        )
+                        break
                 selection = tuple(
                     self._normalize_slice(_, s) if isinstance(_, slice) else _
                     for _, s in zip(selection, shape)
@@ -784,6 +793,19 @@ class PackedTable:
 
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
+        if isinstance(selection, tuple):
+            # a whole dimension is normalized to an Ellipsis, of which only one can be
+            # used for indexing, and neither can slices with negative stop values
+            selection = tuple(
+                slice(None)
+                if s is Ellipsis
+                else slice(s.start, None, s.step)
+                if isinstance(s, slice) and s.stop < 0 and s.step < 0
+                else s
+                for s in selection
+            )
+        elif isinstance(selection, slice) and selection.stop < 0 and selection.step < 0:
+            selection = slice(selection.start, None, selection.step)
         out[selection] = True
         return out
 
-- 
2.43.0


From 3894e11c9f8948747b6155c65127f729ec246147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 097/114] fix: selection by integers or a slice of an ordered
 table of several dimensions

---
 src/pysimulators/packedtables/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 41583db..aea154c 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -804,9 +804,12 @@ class PackedTable:
                 else s
                 for s in selection
             )
-        elif isinstance(selection, slice) and selection.stop < 0 and selection.step < 0:
+            out[selection] = True
+            return out
+        if isinstance(selection, slice) and selection.stop < 0 and selection.step < 0:
             selection = slice(selection.start, None, selection.step)
-        out[selection] = True
+        # integers and slices select the elements in their order of storage
+        out.reshape(-1)[selection] = True
         return out
 
 
-- 
2.43.0


From 4cf4ec7504c0a48b776b6e81d9405c3717fe3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 098/114] fix: spectrum of an odd number of samples

---
 src/pysimulators/noises.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index 2707994..31df799 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -147,11 +147,11 @@ def _sampling2psd(sampling, sampling_frequency, fftw_flag='FFTW_MEASURE'):
         np.abs(fft.fft(sampling, axis=-1, planner_effort=fftw_flag, threads=nthreads))
         ** 2
     )
-    freq = np.fft.fftfreq(n, d=1 / sampling_frequency)[: n // 2 + 1]
-    freq[-1] += sampling_frequency
-    psd = np.concatenate([[0.0], 2 * psd[1 : n // 2], [psd[n // 2]]]) / (
-        n * sampling_frequency
-    )
+    freq = np.fft.rfftfreq(n, d=1 / sampling_frequency)
+    psd = psd[: n // 2 + 1] / (n * sampling_frequency)
+    psd[0] = 0
+    # an odd number of samples has no Nyquist frequency
+    psd[1 : (n + 1) // 2] *= 2
     return freq, psd
 
 
-- 
2.43.0


From 8e89091f811d7733db2ee007060de1402061c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 099/114] fix: both numbers of processes of an acquisition

---
 src/pysimulators/acquisitions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 521c6f8..a60a0f9 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -98,7 +98,8 @@ class Acquisition:
                 raise ValueError(
                     f"Invalid value for nprocs_instrument '{nprocs_instrument}'."
                 )
-            nprocs_sampling = comm.size // nprocs_instrument
+            if nprocs_sampling is None:
+                nprocs_sampling = comm.size // nprocs_instrument
         if nprocs_instrument * nprocs_sampling != comm.size:
             raise ValueError('Invalid MPI distribution of the acquisition.')
 
-- 
2.43.0


From 2acc4166a773510f83d1c5088ff6f246f2d22ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 100/114] fix: start of the observation of a sampling given as
 a scalar Time

---
 src/pysimulators/packedtables/samplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 8c356ba..386102c 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -34,8 +34,8 @@ class Sampling(PackedTable):
             date_obs = Time([date_obs], scale='utc')
         elif not isinstance(date_obs, Time):
             raise TypeError('The observation start date is invalid.')
-        elif date_obs.is_scalar:  # work around astropy.time bug
-            date_obs = Time([str(date_obs)], scale='utc')
+        elif date_obs.isscalar:  # work around astropy.time bug
+            date_obs = date_obs.reshape(1)
         if period is None:
             if hasattr(keywords, 'time'):
                 period = np.median(np.diff(keywords['time']))
-- 
2.43.0


From dcf8484a449e5f65727d196a37723e8f2fdfb234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 101/114] fix: period of a sampling given by its times

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 386102c..879b7ea 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -37,7 +37,7 @@ class Sampling(PackedTable):
         elif date_obs.isscalar:  # work around astropy.time bug
             date_obs = date_obs.reshape(1)
         if period is None:
-            if hasattr(keywords, 'time'):
+            if np.size(keywords.get('time')) > 1:
                 period = np.median(np.diff(keywords['time']))
             else:
                 period = self.DEFAULT_PERIOD
-- 
2.43.0


From 4d0e69d27c588317fd646580ea8105e33af14faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 102/114] fix: spherical coordinates of pointings of which one
 is the same for all

---
 src/pysimulators/packedtables/samplings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 879b7ea..016f845 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -126,7 +126,9 @@ class SamplingSpherical(Sampling):
         Return the spherical coordinates as an (N, 2) ndarray.
 
         """
-        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
+        return np.array(
+            [np.broadcast_to(getattr(self, _), len(self)) for _ in self.names[:2]]
+        ).T
 
     @property
     def spherical2cartesian(self):
-- 
2.43.0


From b2c9584245281bb9a77306dc5d7848c53188ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 103/114] fix: latitude of the mean pointing

---
 src/pysimulators/packedtables/samplings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 016f845..903a3f4 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -173,7 +173,9 @@ class SamplingSpherical(Sampling):
         self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
         if n == 0:
             raise ValueError('There is no valid pointing.')
-        center /= n
+        # the conversion into spherical coordinates is that of unit vectors
+        norm = np.sqrt(np.sum(center**2))
+        center /= norm if norm > 0 else n
         return self.cartesian2spherical(center)
 
 
-- 
2.43.0


From aed35a55e5614a4f2f4059c111242014fcaf321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 104/114] fix: shapes of the block-diagonal operators with a
 new axis

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 279c746..4a9caa2 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -200,7 +200,7 @@ def block_diagonal(*partition_args, **keywords):
                 if a is not None:
                     s[a] = p
                 else:
-                    np.delete(s, na)
+                    del s[na]
                 return tuple(s)
 
             if 'shapein' in keywords:
-- 
2.43.0


From 71300b330eeca0e5d02ba1109c72be4f22df0bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 105/114] fix: array of spectral indices in BlackBodyOperator

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 4a9caa2..7b4574f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -316,7 +316,7 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = c / np.asarray(wavelength0, float)
         if nu.ndim != 0:
             raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
-        beta = float(beta)
+        beta = np.asarray(beta, float)
         data = (
             (nu / nu0) ** (3 + beta)
             * np.expm1(h * nu0 / (k * temperature))
-- 
2.43.0


From 0111b1698f56cfc63198995314bbd3df5b669444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 106/114] fix: refuse non-scalar reference frequencies in
 BlackBodyOperator

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 7b4574f..eeb458f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -314,8 +314,8 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = np.asarray(frequency0, float)
         else:
             nu0 = c / np.asarray(wavelength0, float)
-        if nu.ndim != 0:
-            raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
+        if nu0.ndim != 0:
+            raise TypeError('The reference frequency or wavelength is not a scalar.')
         beta = np.asarray(beta, float)
         data = (
             (nu / nu0) ** (3 + beta)
-- 
2.43.0


From 85cadeb79dae9a82193f56e83c7e33f3fd3ab592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 107/114] fix: abscissae of the integrated profile

---
 src/pysimulators/datautils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index e2be280..c08bee2 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -406,6 +406,7 @@ def integrated_profile(input, bin=1, nbins=None, center=None, scale=1):
     )
     y[~np.isfinite(y)] = 0
     y *= n * scale**2
+    x = bin * np.arange(1, y.size + 1, dtype=x.dtype)
     return x, np.cumsum(y)
 
 
-- 
2.43.0


From 37c852c0836504e930b118308b7e2b2c5137a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 108/114] fix: center of the profile of a power spectrum
 density

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index c08bee2..bbf8805 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -564,6 +564,6 @@ def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
     if array.shape[0] != array.shape[1]:
         raise ValueError('The input array is not square.')
     psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
-    x, y = profile(psd, center=array.shape // np.array(2) + 1)
+    x, y = profile(psd, center=array.shape // np.array(2))
     x *= sampling_frequency / array.shape[1]
     return x, y
-- 
2.43.0


From b2509a23100b4b22f86db39cd607d3f64720c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 109/114] fix: the 'cd' keyword of create_fitsheader

---
 src/pysimulators/wcsutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 2678ff7..141f9d9 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -286,9 +286,9 @@ def create_fitsheader(
         if pa is None:
             pa = 0.0
         theta = np.deg2rad(-pa)
-    cd = np.diag(cdelt).dot(
-        np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
-    )
+        cd = np.diag(cdelt).dot(
+            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
+        )
 
     crval = np.asarray(crval, float)
     if crval.size != 2:
-- 
2.43.0


From 764236873f894de600f09bc18b84aa7aa6519314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 110/114] fix: str2fitsheader

---
 src/pysimulators/wcsutils.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 141f9d9..9d8f038 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -497,16 +497,7 @@ def str2fitsheader(string):
     All cards are extracted from the input string until the END keyword is
     reached.
     """
-    header = pyfits.Header()
-    cards = header.ascard()
-    iline = 0
-    while iline * 80 < len(string):
-        line = string[iline * 80 : (iline + 1) * 80]
-        if line[0:3] == 'END':
-            break
-        cards.append(pyfits.Card().fromstring(line))
-        iline += 1
-    return header
+    return pyfits.Header.fromstring(string)
 
 
 @real
-- 
2.43.0


From 787c736467ad90ca31480e97130e89e931ae28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 111/114] fix: refuse the blocks for which the products of
 FSRBlockMatrix are not implemented

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index c01386a..c8b6ce8 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -478,7 +478,7 @@ class FSRBlockMatrix(_FSBlockMatrix):
     ):
         if data is not None:
             block_shape = data.dtype['value'].shape
-        _FSMatrix.__init__(
+        _FSBlockMatrix.__init__(
             self,
             'fsr_block',
             shape,
-- 
2.43.0


From 7cd873af2f402e59cd26179a009f3a52a88591a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 112/114] fix: keywords of Instrument.pack and unpack

---
 src/pysimulators/instruments.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index a0cbead..2fb6f40 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -61,13 +61,15 @@ class Instrument:
     def comm(self):
         return self.detector.comm
 
-    def pack(self, x):
-        return self.detector.pack(x)
+    def pack(self, x, out=None, copy=False):
+        return self.detector.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
-    def unpack(self, x):
-        return self.detector.unpack(x)
+    def unpack(self, x, out=None, missing_value=None, copy=False):
+        return self.detector.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From f136a9767aab628919b22bd70d9767020d5330e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 113/114] fix: keywords of Acquisition.pack and unpack

---
 src/pysimulators/acquisitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index a60a0f9..815e559 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -192,12 +192,14 @@ class Acquisition:
     __repr__ = __str__
 
     def pack(self, x, out=None, copy=False):
-        return self.instrument.detector.pack(x)
+        return self.instrument.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
     def unpack(self, x, out=None, missing_value=None, copy=False):
-        return self.instrument.detector.unpack(x)
+        return self.instrument.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From 3359325218962b0dca03511c73852e4c71099fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 114/114] fix: rotation of points into an array of integers

---
 src/pysimulators/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 7ba474b..f862374 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -302,10 +302,10 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind in 'biu':
+        # the elements of the rotation matrix are not integers
+        coords = coords.astype(float)
     if out is None:
-        if coords.dtype.kind in 'biu':
-            # the elements of the rotation matrix are not integers
-            coords = coords.astype(float)
         out = _np.empty_like(coords)
     if coords.size == 0:
         return out
-- 
2.43.0

