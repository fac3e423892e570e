From 370de0177dde40c300fc2c48381652d13bbd6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 01/15] fix: compute rank extents with exact integer arithmetic

Multiplying by the reciprocal of the layout and truncating loses a point
for layouts such as 49, 98 or 103 ranks along an axis.
---
 fv3gfs/util/partitioner.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..34949eb 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -713,10 +713,10 @@ def tile_extent_from_rank_metadata(
     Returns:
         tile_extent: the extent of one tile
     """
-    layout_factors = np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    layout_factors = utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    return extent_from_metadata(
+        dims, rank_extent, layout_factors, lambda extent, n_ranks: extent * n_ranks
     )
-    return extent_from_metadata(dims, rank_extent, layout_factors)
 
 
 def rank_extent_from_tile_metadata(
@@ -734,14 +734,18 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    layout_factors = utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    # integer division, as multiplying by 1 / n_ranks is inexact for e.g. 49 ranks
+    return extent_from_metadata(
+        dims, tile_extent, layout_factors, lambda extent, n_ranks: extent // n_ranks
     )
-    return extent_from_metadata(dims, tile_extent, layout_factors)
 
 
 def extent_from_metadata(
-    dims: Iterable[str], extent: Iterable[int], layout_factors: np.ndarray
+    dims: Iterable[str],
+    extent: Iterable[int],
+    layout_factors: Iterable[int],
+    scale_extent: Callable[[int, int], int],
 ) -> Tuple[int, ...]:
     return_extents = []
     for dim, rank_extent, layout_factor in zip(dims, extent, layout_factors):
@@ -749,8 +753,8 @@ def extent_from_metadata(
             add_extent = -1
         else:
             add_extent = 0
-        tile_extent = (rank_extent + add_extent) * layout_factor - add_extent
-        return_extents.append(int(tile_extent))  # layout_factor is float, need to cast
+        scaled_extent = scale_extent(rank_extent + add_extent, layout_factor)
+        return_extents.append(int(scaled_extent - add_extent))
     return tuple(return_extents)
 
 
-- 
2.43.0


From 7a1fd1ab9e97f22f52a18f17353e7bcb721a7190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 02/15] fix: reverse interface data along the edge, whatever
 the dimension order

---
 fv3gfs/util/communicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..31d8d30 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -579,7 +579,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM],
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -595,7 +595,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM],
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
-- 
2.43.0


From e5e483bae59225379ce9093433ebe5f0a407d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 03/15] fix: leave time of the receiving state alone when no
 time is scattered

---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 31d8d30..6a60ad3 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -259,7 +259,7 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            return self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
 
@@ -270,16 +270,16 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            return self.comm.bcast(None, root=constants.ROOT_RANK)
 
         if recv_state is None:
             recv_state = {}
         if self.rank == constants.ROOT_RANK:
-            scatter_root()
+            time = scatter_root()
         else:
-            scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
+            time = scatter_client()
+        if time is not None:
+            recv_state["time"] = time
         return recv_state
 
 
-- 
2.43.0


From 6375e0e07a829ba3f636214e5ffe0c215cdb1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 04/15] fix: gather variables of a state in the same order on
 every rank

---
 fv3gfs/util/communicator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 6a60ad3..c442b9a 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -219,7 +219,9 @@ class Communicator:
         """
         if self.rank == constants.ROOT_RANK and recv_state is None:
             recv_state = {}
-        for name, quantity in send_state.items():
+        # dictionaries may be ordered differently on different ranks
+        for name in sorted(send_state.keys()):
+            quantity = send_state[name]
             if name == "time":
                 if self.rank == constants.ROOT_RANK:
                     recv_state["time"] = send_state["time"]
-- 
2.43.0


From a40fa050bb2543c7f532c794574738639b04bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 05/15] fix: initialize all of a Quantity created from a list
 or scalar

---
 fv3gfs/util/quantity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index da0caec..03d3252 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -272,6 +272,9 @@ class Quantity:
                 storage attribute is disabled and will raise an exception. Will raise
                 a TypeError if this is given with a gt4py storage type as data
         """
+        if isinstance(data, (int, float, list)):
+            data = np.asarray(data)
+
         if origin is None:
             origin = (0,) * len(dims)  # default origin at origin of array
         else:
@@ -282,9 +285,7 @@ class Quantity:
         else:
             extent = tuple(extent)
 
-        if isinstance(data, (int, float, list)):
-            data = np.asarray(data)
-        elif gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
+        if gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
             if gt4py_backend is not None:
                 raise TypeError(
                     "cannot select gt4py backend with keyword argument "
-- 
2.43.0


From 83414868296ac99e17e1f21bc362cdc81aa8d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 06/15] fix: raise IndexError for too many indices of a view

---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 03d3252..ef23f58 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -181,7 +181,7 @@ class BoundedArrayView:
         if len(index) > len(self._dims):
             raise IndexError(
                 f"{len(index)} is too many indices for a "
-                f"{len(self.dims)}-dimensional quantity"
+                f"{len(self._dims)}-dimensional quantity"
             )
         index = fill_index(index, len(self._data.shape))
         shifted_index = []
-- 
2.43.0


From e58a68e78ccf15b50b859077405060a2563b43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 07/15] fix: do not make the data of a scalar Quantity
 read-only in values

---
 fv3gfs/util/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index ef23f58..3cf6ea6 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -443,7 +443,8 @@ class Quantity:
             "values exists only for backwards-compatibility with DataArray and will be removed, use .view[:] instead",
             DeprecationWarning,
         )
-        return_array = np.asarray(self.view[:])
+        # a new array object, the view of a scalar is the underlying data itself
+        return_array = np.asarray(self.view[:]).view()
         return_array.flags.writeable = False
         return return_array
 
-- 
2.43.0


From 088c166e9c0ca39ddd7d0855dfb2e0e10088b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 08/15] fix: allow assignment through the views of a scalar
 Quantity

---
 fv3gfs/util/quantity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 3cf6ea6..ef7f17e 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -74,7 +74,10 @@ class BoundaryArrayView:
             return self._data[self._get_array_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_array_index(index)] = value
+        if len(self._dims) == 0:
+            self[index][...] = value
+        else:
+            self._data[self._get_array_index(index)] = value
 
     def _get_array_index(self, index):
         if isinstance(index, list):
@@ -173,7 +176,10 @@ class BoundedArrayView:
             return self._data[self._get_compute_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_compute_index(index)] = value
+        if len(self._dims) == 0:
+            self[index][...] = value
+        else:
+            self._data[self._get_compute_index(index)] = value
 
     def _get_compute_index(self, index):
         if not isinstance(index, (tuple, list)):
-- 
2.43.0


From 84cc6fed3b8772203940fe342e8d8db3141aeba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 09/15] fix: stop the clock when the timed block raises

---
 fv3gfs/util/_timing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_timing.py b/fv3gfs/util/_timing.py
index d93bb8a..85d3e72 100644
--- a/fv3gfs/util/_timing.py
+++ b/fv3gfs/util/_timing.py
@@ -56,8 +56,10 @@ class Timer:
                 {'sleep': 1.0032463260000029}
         """
         self.start(name)
-        yield
-        self.stop(name)
+        try:
+            yield
+        finally:
+            self.stop(name)
 
     @property
     def times(self) -> Mapping[str, float]:
-- 
2.43.0


From d91d438fabd9d1d1ebf4a27cd9e5eff0268c432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 10/15] fix: stop the clock when packing or allocating a buffer
 fails

---
 fv3gfs/util/buffer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/fv3gfs/util/buffer.py b/fv3gfs/util/buffer.py
index ac75a66..fcecb76 100644
--- a/fv3gfs/util/buffer.py
+++ b/fv3gfs/util/buffer.py
@@ -56,14 +56,12 @@ def send_buffer(allocator: Callable, array: ndarray, timer: Optional[Timer] = No
     if array is None or is_c_contiguous(array):
         yield array
     else:
-        timer.start("pack")
-        with array_buffer(allocator, array.shape, array.dtype) as sendbuf:
-            assign_array(sendbuf, array)
-            # this is a little dangerous, because if there is an exception in the two
-            # lines above the timer may be started but never stopped. However, it
-            # cannot be avoided because we cannot put those two lines in a with or
-            # try block without also including the yield line.
-            timer.stop("pack")
+        with contextlib.ExitStack() as stack:
+            with timer.clock("pack"):
+                sendbuf = stack.enter_context(
+                    array_buffer(allocator, array.shape, array.dtype)
+                )
+                assign_array(sendbuf, array)
             yield sendbuf
 
 
@@ -87,9 +85,11 @@ def recv_buffer(allocator: Callable, array: ndarray, timer: Optional[Timer] = No
     if array is None or is_c_contiguous(array):
         yield array
     else:
-        timer.start("unpack")
-        with array_buffer(allocator, array.shape, array.dtype) as recvbuf:
-            timer.stop("unpack")
+        with contextlib.ExitStack() as stack:
+            with timer.clock("unpack"):
+                recvbuf = stack.enter_context(
+                    array_buffer(allocator, array.shape, array.dtype)
+                )
             yield recvbuf
             with timer.clock("unpack"):
                 assign_array(array, recvbuf)
-- 
2.43.0


From 8a8c26099d22b0abfb5616d9935e2ce073196a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 11/15] fix: restore a captured stream when the block raises,
 close the duplicate

---
 fv3gfs/util/_capture_stream.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..14b0ee3 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -13,13 +13,18 @@ def capture_stream(stream):
     # close the reading end, we won't need this
     orig_file_handle = os.dup(stream.fileno())
 
-    with tempfile.NamedTemporaryFile() as out:
-        # overwrite the streams fileno with a the pipe to be read by the forked
-        # process below
-        os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
-        # print logging info
-        out.seek(0)
-        out_stream.write(out.read())
+    try:
+        with tempfile.NamedTemporaryFile() as out:
+            # overwrite the streams fileno with a the pipe to be read by the forked
+            # process below
+            os.dup2(out.fileno(), stream.fileno())
+            try:
+                yield out_stream
+            finally:
+                # restore the original file handle
+                os.dup2(orig_file_handle, stream.fileno())
+                # print logging info
+                out.seek(0)
+                out_stream.write(out.read())
+    finally:
+        os.close(orig_file_handle)
-- 
2.43.0


From fc99aaa8ec4547ddf50194a9a510434d696b83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 12/15] fix: do not keep an incomplete table of boundaries
 after an error

---
 fv3gfs/util/communicator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index c442b9a..f684d5a 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -327,11 +327,12 @@ class CubedSphereCommunicator(Communicator):
     def boundaries(self) -> Mapping[int, Boundary]:
         """boundaries of this tile with neighboring tiles"""
         if self._boundaries is None:
-            self._boundaries = {}
+            boundaries = {}
             for boundary_type in constants.BOUNDARY_TYPES:
                 boundary = self.partitioner.boundary(boundary_type, self.rank)
                 if boundary is not None:
-                    self._boundaries[boundary_type] = boundary
+                    boundaries[boundary_type] = boundary
+            self._boundaries = boundaries
         return self._boundaries
 
     @property
-- 
2.43.0


From 577061ec5ffa9821b295ae213b84b1b8768b2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 13/15] fix: accept further states without time when the first
 one had none

---
 fv3gfs/util/zarr_monitor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..cd1cd21 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -76,9 +76,10 @@ class ZarrMonitor:
             )
             for key in set(state.keys()).difference(["time"])
         }
-        self._writers["time"] = _ZarrTimeWriter(
-            self._comm, self._group, name="time", partitioner=self.partitioner,
-        )
+        if "time" in state:
+            self._writers["time"] = _ZarrTimeWriter(
+                self._comm, self._group, name="time", partitioner=self.partitioner,
+            )
 
     def _check_writers(self, state):
         extra_names = set(state.keys()).difference(self._writers.keys())
-- 
2.43.0


From 6e986dc1f8a0a5f18f89f673b5487319b0c56bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 14/15] fix: reject inconsistent snapshots on every rank before
 anything is stored

---
 fv3gfs/util/zarr_monitor.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index cd1cd21..4181387 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -1,4 +1,5 @@
 from typing import Union, Tuple
+import copy
 import cftime
 import logging
 
@@ -100,6 +101,8 @@ class ZarrMonitor:
             self._init_writers(state)
         else:
             self._check_writers(state)
+            for name, quantity in state.items():
+                self._writers[name].ensure_compatible(quantity)
 
     def store(self, state: dict) -> None:
         """Append the model state dictionary to the zarr store.
@@ -121,6 +124,7 @@ class _ZarrVariableWriter:
         self.group = group
         self.name = name
         self.array = None
+        self._stored_metadata = None
 
         self._prepend_shape = (1, 6)
         self._prepend_chunks = (1, 1)
@@ -164,6 +168,9 @@ class _ZarrVariableWriter:
         # extend the dimension once, from the root rank
         if self.array is None:
             self._init_zarr(quantity)
+            self._stored_metadata = copy.deepcopy(
+                (quantity.extent, self._get_attrs(quantity))
+            )
 
         if self.i_time >= self.array.shape[0] and self.rank == 0:
             new_shape = list(
@@ -172,7 +179,6 @@ class _ZarrVariableWriter:
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
@@ -213,13 +219,15 @@ class _ZarrVariableWriter:
             **quantity.attrs,
         }
 
-    def _ensure_compatible_attrs(self, new_quantity):
-        new_attrs = self._get_attrs(new_quantity)
-        if dict(self.array.attrs) != new_attrs:
-            raise ValueError(
-                f"value for {self.name} with attrs {new_attrs} "
-                f"does not match previously stored attrs {dict(self.array.attrs)}"
-            )
+    def ensure_compatible(self, new_quantity):
+        """Raise ValueError if the quantity does not match the ones stored before."""
+        if self._stored_metadata is not None:
+            new_metadata = (new_quantity.extent, self._get_attrs(new_quantity))
+            if new_metadata != self._stored_metadata:
+                raise ValueError(
+                    f"value for {self.name} with extent and attrs {new_metadata} "
+                    f"does not match previously stored {self._stored_metadata}"
+                )
 
 
 def array_chunks(
@@ -254,6 +262,7 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
         self._prepend_shape = (1,)
         self._prepend_chunks = (self._TIME_CHUNK_SIZE,)
         self._PREPEND_DIMS = ("time",)
+        self._encoding_calendar = None
 
     def _init_zarr_root(self, array):
         shape = self._prepend_shape
@@ -269,12 +278,15 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
             self.array.attrs["units"] = self._encoding_units
             self.array.attrs["calendar"] = self._encoding_calendar
 
-    def _encode_time(self, time):
-        if time.calendar != self._encoding_calendar:
+    def ensure_compatible(self, time):
+        """Raise ValueError if the calendar does not match the one stored before."""
+        if self._encoding_calendar not in (None, time.calendar):
             raise ValueError(
                 f"Calendar type of time, {time.calendar}, does not match the original "
                 f"calendar encoding, {self._encoding_calendar}."
             )
+
+    def _encode_time(self, time):
         return cftime.date2num(
             time, units=self._encoding_units, calendar=self._encoding_calendar
         )
-- 
2.43.0


From 75e5fbee846e7a2bd752756f384f4792dcc3b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 15/15] fix: load all requested names when only_names is an
 iterator

---
 fv3gfs/util/_legacy_restart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 3d74740..0f7c225 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -41,6 +41,9 @@ def open_restart(
         restart_properties = RESTART_PROPERTIES
     else:
         restart_properties = {**tracer_properties, **RESTART_PROPERTIES}
+    if only_names is not None:
+        # used once per file, which an iterator would not survive
+        only_names = list(only_names)
     rank = communicator.rank
     tile_index = communicator.partitioner.tile_index(rank)
     state = {}
-- 
2.43.0

