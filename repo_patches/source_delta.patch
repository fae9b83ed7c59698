From 6fa5571444091909eb2af551e0f1df1491197dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 01/33] fix: support UnstructuredGrid in FlowDirections

modelgrid.ncpl is an array on unstructured grids, the fill index is the
index of the appended fill elevation.
---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..c53c63b 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -60,7 +60,7 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
-- 
2.43.0


From 1258bcae19c919d70ce4cb388eda9f9faa8e0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 02/33] fix: keep terminal cells draining to themselves when
 flats are resolved

---
 dany/flow_directions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index c53c63b..aadad3d 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -321,6 +321,9 @@ class FlowDirections:
                     if ix not in flow_trace:
                         print('break')
                     for node, (node_to, dist) in flow_trace.items():
+                        if self._fdir[node] == node:
+                            # outlets and terminal cells are already solved
+                            continue
                         self._fdir[node] = node_to
 
     def _resolve_flats(self, cell, flow_to, dest):
-- 
2.43.0


From e30ca43f8927b4a6b887c1e0852fe78fe50e2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 03/33] fix: do not route isolated cells to the fill index

A cell whose neighbors are all NaN has no real neighbor with a slope; it
drains to itself instead of out of the grid.
---
 dany/flow_directions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index aadad3d..55a90da 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -198,6 +198,11 @@ class FlowDirections:
 
             flow_to = fcells[ix]
 
+            if not flow_to or self._fneighbors[ix, flow_to[0]] == self._fillidx:
+                # all neighbors are nan, flow can not leave the cell
+                self._fdir[ix] = ix
+                continue
+
             continuous = False
             if len(flow_to) > 1:
                 stack = list(self._fneighbors[ix, flow_to])
-- 
2.43.0


From d3dc306a742b81d129897da02658447486f37eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 04/33] fix: do not use the unresolved marker (-2) as a cell
 index

---
 dany/flow_directions.py | 13 +++++++++++++
 dany/stream_util.py     |  4 +++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 55a90da..badc2fc 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -370,6 +370,9 @@ class FlowDirections:
             max_nidp = np.max(self.get_nidp())
             self._fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
             for ix, fdir in enumerate(self._fdir):
+                if fdir < 0:
+                    # unresolved cell
+                    continue
                 for jx in range(max_nidp):
                     if self._fdir_r[jx, fdir] == -1:
                         self._fdir_r[jx, fdir] = ix
@@ -388,6 +391,9 @@ class FlowDirections:
         nidp_array = np.zeros(self._fdir.size, dtype=int)
 
         for cell in self._fdir:
+            if cell < 0:
+                # unresolved cell
+                continue
             nidp_array[cell] += 1
 
         return nidp_array
@@ -473,6 +479,9 @@ class FlowDirections:
                     nidp_array[n] -= 1
                     break
                 n = self._fdir[n]
+                if n < 0:
+                    # unresolved cell
+                    break
 
         if as_cells:
             self._facc = flow_acc
@@ -610,6 +619,10 @@ class FlowDirections:
                         # basin outlet condition 2 fdir set to self
                         graph[current] = -1
                         break
+                    if self._fdir[cellid] < 0:
+                        # unresolved cell
+                        graph[current] = -1
+                        break
                     cellid = self._fdir[cellid]
                 else:
                     graph[current] = cellid
diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..a3909da 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -144,7 +144,9 @@ class StreamBase:
         for node in strm_nodes:
             rchid = stream_array[node]
             flow_to = self._fdir[node]
-            rchto = stream_array[flow_to]
+            rchto = 0
+            if flow_to >= 0:
+                rchto = stream_array[flow_to]
             topo.add_connection(rchid, rchto)
 
         rchid_mapper = {rchid: ix + 1 for ix, rchid in enumerate(topo.sort())}
-- 
2.43.0


From be76f57d31189c07ec67b77d60875a037f9d5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 05/33] fix: do not use the unresolved marker (-2) as a cell
 index in cell attributes

---
 dany/flow_directions.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index badc2fc..728c2bf 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -661,6 +661,18 @@ class FlowDirections:
 
         return shared[0]
 
+    def _get_receivers(self):
+        """
+        Method to get the cell each cell flows to. Unresolved cells (-2) are
+        returned as flowing to themselves
+
+        Returns
+        -------
+            receivers : np.ndarray
+        """
+        fdir = self.flow_direction_array.ravel()
+        return np.where(fdir < 0, np.arange(fdir.size), fdir)
+
     def _calculate_hru_len(self):
         """
         Calculates hru len from either face centers or vetex depending on
@@ -670,7 +682,7 @@ class FlowDirections:
         -------
             hru_len : np.ndarray
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._get_receivers()
         verts = self._modelgrid.verts
         iverts = self._modelgrid.iverts
         hru_len = []
@@ -717,7 +729,7 @@ class FlowDirections:
         slopes : np.ndarray
             slope of the cell's drainage path
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._get_receivers()
         dem = self._dem[:-1]
 
         x0, y0 = self._xcenters[:-1], self._ycenters[:-1]
@@ -743,7 +755,7 @@ class FlowDirections:
             aspect of the cell's drainage path
 
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._get_receivers()
         xc, yc = self._xcenters[:-1], self._ycenters[:-1]
         xp = xc[fdir] - xc
         yp = yc[fdir] - yc
-- 
2.43.0


From 3d2324a2b718fb208780dcbc4d3eaa11d5a3e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 06/33] fix: keep fill_nan_values from cycling on one cell

A NaN cell without known neighbors was put back on the end of the stack it
is taken from, which never terminates.
---
 dany/dem_conditioning.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..9f1e8a5 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -283,6 +283,8 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
+    unfilled = []
+    nfill = len(stack)
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
     method = method.lower()
 
@@ -302,8 +304,13 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # revisit the cell once its neighbors have been filled
+            unfilled.append(node)
         else:
             filled_dem[node] = elev
 
+        if not stack and len(unfilled) < nfill:
+            stack, unfilled = unfilled[::-1], []
+            nfill = len(stack)
+
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From 6c02da66612ae942b7cc2ce863f70b0872d60fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 07/33] fix: do not depend on cached neighbors of another
 method

flopy returns the cached neighbors regardless of the requested method.
---
 dany/dem_conditioning.py | 4 ++--
 dany/flow_directions.py  | 4 +++-
 dany/stream_util.py      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 9f1e8a5..c95e46f 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -183,7 +183,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
         if pit:
@@ -285,7 +285,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     stack = list(np.where(np.isnan(filled_dem))[0])
     unfilled = []
     nfill = len(stack)
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
 
     while stack:
diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 728c2bf..fcedf49 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -34,7 +34,9 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(
+            modelgrid.neighbors(method="queen", reset=True)
+        )
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
diff --git a/dany/stream_util.py b/dany/stream_util.py
index a3909da..5697bd0 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -33,7 +33,7 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = modelgrid.neighbors(method="queen", reset=True)
         
     @property
     def stream_array(self):
-- 
2.43.0


From 155b9f733c78216470b2ea21f16a1097593254da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 08/33] fix: discard reversed flow directions when flow
 directions are recalculated

---
 dany/flow_directions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index fcedf49..00df828 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -423,6 +423,7 @@ class FlowDirections:
         """
         self._threshold = burn_threshold
         self._fdir = np.full(self._dem.size - 1, -1)
+        self._fdir_r = None
         self._fdir[self._min_cell] = self._min_cell
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
-- 
2.43.0


From 357c4187cb2631ca55fdf108b3d62476becbc44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 09/33] fix: delineate subbasins for pour points in cell 0

---
 dany/flow_directions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 00df828..b3e1861 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -631,13 +631,13 @@ class FlowDirections:
                     graph[current] = cellid
                     break
 
+        # Topology treats 0 as the outlet, shift the cell numbers by 1
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            topo.add_connection(cellid + 1, cellid_to + 1)
 
-        topo.add_connection(-1, -1)
-        solution_order = topo.sort()[:-1]
-        solution_idxs = [cellids.index(cellid) for cellid in solution_order]
+        solution_order = topo.sort()
+        solution_idxs = [cellids.index(cellid - 1) for cellid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
         for ix, point_idx in enumerate(solution_idxs):
-- 
2.43.0


From 577c0d78591a63a6f663f6dfe25ac997c73935c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 10/33] fix: discard the stream connectivity when the stream
 array is replaced

---
 dany/stream_util.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 5697bd0..8faa93e 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -34,6 +34,16 @@ class StreamBase:
             self._shape = (self._nnodes,)
 
         self._neighbors = modelgrid.neighbors(method="queen", reset=True)
+        self._reset_connectivity()
+
+    def _reset_connectivity(self):
+        """
+        Method to discard connectivity graphs of a previous stream array
+
+        """
+        self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
         
     @property
     def stream_array(self):
@@ -72,6 +82,7 @@ class StreamBase:
                 f"modelgrid size {self._nnodes}"
             )
 
+        self._reset_connectivity()
         self._stream_array = stream_array.reshape(self._shape)
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
@@ -103,6 +114,7 @@ class StreamBase:
         if basin_boundary is not None:
             stream_array[basin_boundary.ravel() == 0] = 0
 
+        self._reset_connectivity()
         self._stream_array = stream_array.reshape(self._shape)
         return self._stream_array
 
@@ -168,6 +180,7 @@ class StreamBase:
             new = rchid_mapper[old]
             stream_array[node] = new
 
+        self._reset_connectivity()
         self._stream_array = stream_array
         self._graph = new_map
         return new_map
-- 
2.43.0


From 9ff6121c5c1cf19ae43aebb1c79db2c70006de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 11/33] fix: do not build MF6 reaches from the segment graph of
 stream vectors

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 8faa93e..2500a99 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -524,7 +524,7 @@ class Sfr6(StreamBase):
 
         """
         if graph is None:
-            if self._graph is None:
+            if self._graph is None or self._seg_graph is not None:
                 if self._stream_array is None:
                     raise AssertionError(
                         "delineate_streams() must be run or a graph of "
@@ -571,7 +571,7 @@ class Sfr6(StreamBase):
         """
         dist_adj = 1.5
         if stream_array is None:
-            if self._graph is None:
+            if self._graph is None or self._seg_graph is not None:
                 if self._stream_array is None:
                     raise AssertionError(
                         "get_stream_connectivity() must be run or a stream "
-- 
2.43.0


From 79eff150ff99fefbea84dad00a71456d6e72506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 12/33] fix: number MF6 reaches in the packagedata of a given
 stream array

The reach numbers are looked up in the numbered array, not in the array of
stream locations the caller passed.
---
 dany/stream_util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 2500a99..6d4309a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -585,6 +585,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
+            stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
-- 
2.43.0


From 3ee2bcc238dfe28b2c694ca980cb00b6cfeac477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 13/33] fix: return a copy of the delineated stream array and
 copy custom arrays

A later in place change by the caller altered the stored streams.
---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 6d4309a..3e9e393 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -83,7 +83,7 @@ class StreamBase:
             )
 
         self._reset_connectivity()
-        self._stream_array = stream_array.reshape(self._shape)
+        self._stream_array = stream_array.copy().reshape(self._shape)
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -116,7 +116,7 @@ class StreamBase:
 
         self._reset_connectivity()
         self._stream_array = stream_array.reshape(self._shape)
-        return self._stream_array
+        return self.stream_array
 
     def _mf6_stream_connectivity(self, stream_array=None):
         """
-- 
2.43.0


From 3f0b3e86fd0da1844e1c5907727ab48daab8dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 14/33] fix: number boolean stream arrays

Reach and segment numbers were stored in an array of the dtype of the
stream array.
---
 dany/stream_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3e9e393..fc78a7b 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -143,8 +143,8 @@ class StreamBase:
                 )
             stream_array = self._stream_array
 
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(stream_array.ravel())[0]
+        stream_array = np.zeros(stream_array.size, dtype=int)
 
         # assign an initial reach number to stream cells
         for i in range(1, len(strm_nodes) + 1):
@@ -216,8 +216,8 @@ class StreamBase:
             stream_array = self._stream_array
 
         # 1a) create graph of connectivity via node numbers...
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(stream_array.ravel())[0]
+        stream_array = np.zeros(stream_array.size, dtype=int)
 
         graph = {}
         for node in strm_nodes:
-- 
2.43.0


From a40303856b45268d280359d3cc7504efed797644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 15/33] fix: give a stream of a single self draining cell a
 segment

---
 dany/stream_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index fc78a7b..85025db 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -229,11 +229,12 @@ class StreamBase:
         if group_segments:
             nodesup = list(graph.keys())
             nodesdn = [i for i in graph.values() if i is not None]
+            inflows = [v for k, v in graph.items() if v is not None and v != k]
 
             segstrts = {}
             iseg = 1
             for node in nodesup:
-                if node not in nodesdn:
+                if node not in inflows:
                     segstrts[node] = iseg
                     iseg += 1
 
-- 
2.43.0


From fca196ce310d6a1a53e4bbd68fdd5b1c8b5e30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 16/33] fix: support unstructured grids in the MF2005 segment
 array

---
 dany/stream_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 85025db..39d4e75 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -319,9 +319,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From ca2e5862d72d7147771a178420fd1c03ddcab821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 17/33] fix: look up the out segment of reaches by segment
 number

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 39d4e75..af5000f 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -829,12 +829,12 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
+                iseg = rec[4]
                 if iseg not in self._seg_graph:
                     downreach = 0
                 else:
                     outseg = self._seg_graph[iseg]
-                    downreach = seg_rid_lut[outseg]
+                    downreach = seg_rid_lut.get(outseg, 0)
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-- 
2.43.0


From 2fc0e0e02c820c325d62b3e095eddf9342a018c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 18/33] fix: do not route runoff upstream through stream cells
 in irunbnd

The segment of a downstream cell overwrote the segment of stream cells above
it, depending on the node numbers.
---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index af5000f..4632571 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -960,7 +960,7 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                upnodes = [up for up in fdir_r[node] if up not in stream_cells]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From 5feae24422d2ad27c43e3ecb265090fd7d2439df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 19/33] fix: use the given stream array in tables and cascades
 after earlier runs

---
 dany/stream_util.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 4632571..fdbb152 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -64,6 +64,24 @@ class StreamBase:
 
         return self._stream_array.copy().reshape(self._shape)
 
+    def _is_current(self, stream_array):
+        """
+        Method to check that a stream array has the stored stream cells
+
+        Parameters
+        ----------
+        stream_array : np.ndarray
+
+        Returns
+        -------
+            bool
+        """
+        if self._stream_array is None:
+            return False
+        return np.array_equal(
+            stream_array.ravel() > 0, self._stream_array.ravel() > 0
+        )
+
     def set_stream_array(self, stream_array):
         """
         Method to set a custom stream array
@@ -765,7 +783,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._is_current(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -881,7 +899,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._is_current(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -925,13 +943,13 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if self._seg_graph is None or not self._is_current(stream_array):
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
                     group_segments=group_segments
                 )
-                stream_array = self._stream_array
+            stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
         stream_cells = np.where((stream_array > 0) & (~np.isnan(stream_array)))[0]
@@ -1181,10 +1199,10 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None:
+        if self._graph is None or not self._is_current(stream_array):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
-            stream_array = self.stream_array
+        stream_array = self.stream_array
 
         stream_array = stream_array.copy().ravel()
 
-- 
2.43.0


From 0265ce2ba5e603914dadcd7526a2e54ed0ef72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 20/33] fix: accept keyword arguments in the SFR pygsflow
 builder

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index fdbb152..2b38737 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1039,7 +1039,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
-- 
2.43.0


From 2aabe48e75bc601a99a3ca280a725ed5920642a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 21/33] fix: link many to one cascades at the basin boundary to
 the cell itself

---
 dany/stream_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 2b38737..de9f7a4 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1272,12 +1272,12 @@ class PrmsStreams(StreamBase):
             if len(idxs) == 0:
                 continue
 
+            hru_up = list(idxs)
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
-
-            hru_up = list(idxs)
-            hru_down = [hru_down,] * len(hru_up)
+                hru_down = list(idxs)
+            else:
+                hru_down = [hru_down,] * len(hru_up)
             hru_pct = [1.0,] * len(hru_up)
 
             hru_up_id.extend(hru_up)
-- 
2.43.0


From 2c8a6654ab2b2449b069a5edaac260b49bc62ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 22/33] fix: keep cascades inside the basin boundary

Inactive cells are marked -9; 0 is a valid flow direction.
---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index de9f7a4..4f74fab 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1354,7 +1354,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From 81e7980ba1fc951d610fb4440102121a456e1a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 23/33] fix: use the next reach downstream for slopes in the
 SFR pygsflow builder

reach_data does not fill outreach, every slope was calculated to the last
reach of the table.
---
 dany/stream_util.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 4f74fab..98a4444 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1066,13 +1066,19 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._modelgrid.top.ravel()
+            outsegs = {rec["nseg"]: rec["outseg"] for rec in segment_data}
+            reaches = {
+                (rec["iseg"], rec["ireach"]): ix
+                for ix, rec in enumerate(reach_data)
+            }
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
-                rec_dn_ix = rec["outreach"] - 1
-                if rec_dn_ix >= len(reach_data):
-                    node_dn = rec["node"]
-                else:
-                    node_dn = reach_data[rec_dn_ix]["node"]
+                rec_dn_ix = reaches.get((rec["iseg"], rec["ireach"] + 1))
+                if rec_dn_ix is None:
+                    # last reach of the segment
+                    outseg = outsegs.get(rec["iseg"], -1)
+                    rec_dn_ix = reaches.get((outseg, 1), ix)
+                node_dn = reach_data[rec_dn_ix]["node"]
 
                 strtop = dem[node]
                 strtop_dn = dem[node_dn]
-- 
2.43.0


From f4af0344ca7bf22110a75015d027490503b00b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 24/33] fix: fill integer DEMs in floating point

epsilon was truncated when it was stored in an integer array.
---
 dany/dem_conditioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index c95e46f..53944a0 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -171,7 +171,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     """
     import heapq
-    newdem = dem.ravel().copy()
+    newdem = dem.ravel().astype(float)
 
     if isinstance(seed, int):
         seed = [seed]
-- 
2.43.0


From b6a9f191e87d1f41cc6fd6524f1a577a6a3f09d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 25/33] fix: accept geometry objects as subbasin points

---
 dany/flow_directions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b3e1861..de3453e 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -590,12 +590,13 @@ class FlowDirections:
 
         if isinstance(points, (tuple, list, np.ndarray)):
             for point in points:
-                if len(point) != 2:
-                    raise AssertionError(
-                        "each point must be an interable with only x, y values"
-                    )
-        else:
-            points = GeoSpatialCollection(points, shapetype='point').points
+                if isinstance(point, (tuple, list, np.ndarray)):
+                    if len(point) != 2:
+                        raise AssertionError(
+                            "each point must be an interable with only x, y values"
+                        )
+
+        points = GeoSpatialCollection(points, shapetype='point').points
 
         cellids = []
         for point in points:
-- 
2.43.0


From 8474d2450c2d05dc07d109513ecf289fe787f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 26/33] fix: link unresolved cells to themselves in cascades

---
 dany/stream_util.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 98a4444..e755ca3 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1238,6 +1238,18 @@ class PrmsStreams(StreamBase):
         hru_strmseg_down_id = np.array(hru_strmseg_down_id)
         return hru_up_id, hru_down_id, hru_pct_up, hru_strmseg_down_id
 
+    def _get_receivers(self):
+        """
+        Method to get the cell each cell flows to. Unresolved cells (-2) are
+        returned as flowing to themselves
+
+        Returns
+        -------
+            receivers : np.ndarray
+        """
+        fdir = self._fdir.copy().ravel()
+        return np.where(fdir < 0, np.arange(fdir.size), fdir)
+
     def _build_many_to_one_cascades(self, basin_boundary=None):
         """
         Method to generate many to one cascades
@@ -1263,7 +1275,7 @@ class PrmsStreams(StreamBase):
                 hru or stream segment.
         )
         """
-        fdir = self._fdir.copy().ravel()
+        fdir = self._get_receivers()
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
@@ -1323,7 +1335,7 @@ class PrmsStreams(StreamBase):
         )
 
         """
-        fdir = self._fdir.copy().ravel()
+        fdir = self._get_receivers()
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
-- 
2.43.0


From 9ac0ab775ec234aceddc8040aaaadad1529fb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 27/33] fix: hru length counts the first vertex of closed
 polygons once

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index de3453e..20ec902 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -656,7 +656,8 @@ class FlowDirections:
             [x, y] coordinate pair
         """
         shared = []
-        for iv in iverts0:
+        # closed polygons repeat their first vertex
+        for iv in dict.fromkeys(iverts0):
             if iv in iverts1:
                 shared.append(verts[iv])
 
-- 
2.43.0


From 76994832aa213950b67bebae6fa6991cd436f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 28/33] fix: outlet reach length is the mean over all sides of
 the cell

---
 dany/stream_util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index e755ca3..23ece3c 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -623,15 +623,16 @@ class Sfr6(StreamBase):
             bsq = (ycenters[node] - ycenters[node_dn]) ** 2
             dist = np.sqrt(asq + bsq)
             if dist == 0:
-                # outlet condition
-                iverts = self._modelgrid.iverts[node]
+                # outlet condition, mean length of the cell's sides (closed
+                # polygons repeat their first vertex)
+                iverts = list(dict.fromkeys(self._modelgrid.iverts[node]))
                 verts = np.array([self._modelgrid.verts[iv] for iv in iverts])
                 dist = [
                     np.sqrt(
                         (verts[i - 1, 0] - verts[i, 0]) ** 2 +
                         (verts[i - 1, 1] - verts[i, 1]) ** 2
                     )
-                    for i in range(1, len(verts))
+                    for i in range(len(verts))
                 ]
                 dist = np.nanmean(dist)
 
-- 
2.43.0


From f209a43ca1f2eeb8f3f4384a167c86bcdb88c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 29/33] fix: the pyGSFLOW stream builder leaves the tables
 passed to it unaltered

---
 dany/stream_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 23ece3c..d3d9131 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1059,6 +1059,10 @@ class Sfr2005(StreamBase):
         if irunbnd is None:
             irunbnd = self.irunbnd(group_segments=group_segments)
 
+        # do not write the defaults into the user's tables
+        reach_data = reach_data.copy()
+        segment_data = segment_data.copy()
+
         if apply_defaults:
             pgs_defaults = defaults["pgs_defaults"]
             reach_defaults = defaults["reach"]
-- 
2.43.0


From 0ab9f19a98b1137d27d9e9f18f7283e40e20c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 30/33] fix: sort stream networks of any length without
 recursion

---
 dany/stream_util.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index d3d9131..aaa6945 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1489,8 +1489,8 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
-        sort to perform sorting
+        Function used by topological sort to
+        perform sorting
 
         Parameters
         ----------
@@ -1502,21 +1502,19 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
-
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
-
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        segs = []
+        while not visited[seg]:
+            visited[seg] = True
+            if seg != 0:
+                segs.append(seg)
+                seg = self.topology[seg]
+
+        # most downstream segment first
+        for seg in segs[::-1]:
+            if self.topology[seg] == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From b83af2a7610cc556c743b2f0fb5ad5949a707a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:22 +0000
Subject: [PATCH 31/33] fix: stream tables use the DEM of their own flow
 direction object

The tables read elevations from modelgrid.top, which the constructor of
any later stream object on the same grid overwrites with its own DEM.
---
 dany/stream_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index aaa6945..f880063 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -504,6 +504,7 @@ class Sfr6(StreamBase):
         if faobj is not None:
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
+            self._dem = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
             self._slope = faobj.slope.ravel()
 
@@ -605,7 +606,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
-        dem_top = self._modelgrid.top.ravel()
+        dem_top = self._dem.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
         connection_data = self.connectiondata(graph)
@@ -723,6 +724,7 @@ class Sfr2005(StreamBase):
         if faobj is not None:
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
+            self._dem = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
 
         self._node_seg_rch = None
@@ -793,7 +795,7 @@ class Sfr2005(StreamBase):
         basic_rec = []
         xcenters = self._modelgrid.xcellcenters
         ycenters = self._modelgrid.ycellcenters
-        dem = self._modelgrid.top
+        dem = self._dem
         reachid = 1
         seg_rid_lut = {}
         for iseg, outseg in sorted(self._seg_graph.items()):
@@ -1070,7 +1072,7 @@ class Sfr2005(StreamBase):
             # Set reach data defaults
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
-            dem = self._modelgrid.top.ravel()
+            dem = self._dem.ravel()
             outsegs = {rec["nseg"]: rec["outseg"] for rec in segment_data}
             reaches = {
                 (rec["iseg"], rec["ireach"]): ix
-- 
2.43.0


From 12f6c082c25e5d0be1a712a3b9a0ff313bc63ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:05 +0000
Subject: [PATCH 32/33] fix: stream tables honour an explicitly given segment
 grouping

---
 dany/stream_util.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f880063..90dbd84 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -786,8 +786,14 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None or not self._is_current(stream_array):
-            group_segments = kwargs.pop("group_segments", True)
+        group_segments = kwargs.pop("group_segments", None)
+        if (
+            self._seg_graph is None
+            or group_segments is not None
+            or not self._is_current(stream_array)
+        ):
+            if group_segments is None:
+                group_segments = True
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
             )
@@ -902,8 +908,14 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None or not self._is_current(stream_array):
-            group_segments = kwargs.pop("group_segments", True)
+        group_segments = kwargs.pop("group_segments", None)
+        if (
+            self._seg_graph is None
+            or group_segments is not None
+            or not self._is_current(stream_array)
+        ):
+            if group_segments is None:
+                group_segments = True
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
             )
@@ -946,8 +958,14 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None or not self._is_current(stream_array):
-                group_segments = kwargs.pop("group_segments", True)
+            group_segments = kwargs.pop("group_segments", None)
+            if (
+                self._seg_graph is None
+                or group_segments is not None
+                or not self._is_current(stream_array)
+            ):
+                if group_segments is None:
+                    group_segments = True
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
                     group_segments=group_segments
@@ -1041,7 +1059,7 @@ class Sfr2005(StreamBase):
                 "max_slope": 1
             }
         }
-        group_segments = kwargs.pop("group_segments", True)
+        group_segments = kwargs.pop("group_segments", None)
         for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
@@ -1212,9 +1230,13 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None or not self._is_current(stream_array):
-            group_segments = kwargs.pop("group_segments", False)
-            self.get_stream_connectivity(stream_array, group_segments)
+        group_segments = kwargs.pop("group_segments", None)
+        if (
+            self._graph is None
+            or group_segments is not None
+            or not self._is_current(stream_array)
+        ):
+            self.get_stream_connectivity(stream_array, bool(group_segments))
         stream_array = self.stream_array
 
         stream_array = stream_array.copy().ravel()
-- 
2.43.0


From dcaed35e636cf082ba86787e46e0a96c53d4e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:42 +0000
Subject: [PATCH 33/33] fix: keep the stored flow directions when terminal
 cells are refused

flow_directions() reset the stored directions before it checked the terminal
cells, so a refused call (rows and columns on a grid that is not structured or
outside of it) left an object without flow directions.
---
 dany/flow_directions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 20ec902..b2231b2 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -421,10 +421,7 @@ class FlowDirections:
             numpy array of cell numbers that each individual cell flows to
 
         """
-        self._threshold = burn_threshold
-        self._fdir = np.full(self._dem.size - 1, -1)
-        self._fdir_r = None
-        self._fdir[self._min_cell] = self._min_cell
+        nodes = []
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
                 if self._modelgrid.grid_type == "structured":
@@ -436,8 +433,12 @@ class FlowDirections:
             else:
                 nodes = terminal_cells
 
-            for tc in nodes:
-                self._fdir[tc] = tc
+        self._threshold = burn_threshold
+        self._fdir = np.full(self._dem.size - 1, -1)
+        self._fdir_r = None
+        self._fdir[self._min_cell] = self._min_cell
+        for tc in nodes:
+            self._fdir[tc] = tc
 
         self._fill_irregular_neighbor_array()
         slopes = self._calculate_slopes()
-- 
2.43.0

